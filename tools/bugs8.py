"""planted bugs of the tiled tensors"""
C = '''
import subprocess, tempfile
def run(body):
    with tempfile.TemporaryDirectory() as d:
        open(d + "/x.cpp", "w").write("#include <functional>\\n#include <cassert>\\n#include \\"Tile.hpp\\"\\n#include \\"TiledTensor.hpp\\"\\nusing namespace tensorlib;\\nint main() {" + body + "}\\n")
        subprocess.run(["g++", "-O0", "-w", "-std=c++17", "-I", "openms/lib/tensor++/include", "-I", "/usr/include/eigen3", d + "/x.cpp", "-o", d + "/x"], check=True)
        assert subprocess.run([d + "/x"]).returncode == 0
'''
I = "openms/lib/tensor++/include/"
BUGS = [
    dict(id="b59", prop="C35", edits=[(I + "TiledTensor.hpp", "tile_counts[i] = (shape[i] + tile_shape[i] - 1) / tile_shape[i];", "tile_counts[i] = std::max(1, shape[i] / tile_shape[i] + (i < 2 && shape[i] % tile_shape[i] != 0));")],
         needs="a tensor of rank three whose last extent is longer than a tile and not a multiple of it", breaks="the last elements of the third dimension lie in no tile",
         demo=C + '''
run("""auto v = generate_all_tile_indices<3>({4, 5, 5}, {2, 2, 2}); return v.size() != 18;""")
'''),
    dict(id="b60", prop="C35", edits=[(I + "Tile.hpp", "            new_shape[i] = shape_[perm[i]];", "            new_shape[perm[i]] = shape_[i];")],
         needs="a transposition of three dimensions of different extents that is not its own inverse", breaks="the transposed tile reports the shape of the inverse permutation",
         demo=C + '''
run("""Tile<double, 3> t(std::array<int, 3>{2, 3, 4}); auto u = t.transpose({1, 2, 0}); auto s = u.shape(); return !(s[0] == 3 && s[1] == 4 && s[2] == 2);""")
'''),
]
