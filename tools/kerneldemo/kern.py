"""the compiled kernels of ./openms/lib/qmclibs, built against plain stand-ins in a scratch folder"""
import ctypes as ct, glob, os, subprocess, tempfile
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


class Kernels:
    def __init__(self):
        src, stub = os.path.join(os.getcwd(), "openms/lib/qmclibs/src"), os.path.join(HERE, "native")
        with tempfile.TemporaryDirectory() as d:
            ps = []
            cpp = sorted(glob.glob(src + "/*.cpp")) + [stub + "/driver.cpp"]
            for k, f in enumerate(cpp):
                ps.append(subprocess.Popen(["g++", "-fPIC", "-O1", "-w", "-std=c++17", "-fopenmp", "-DUSE_OPENBLAS", "-I", stub, "-I", src, "-I", "/usr/include/eigen3", "-c", f, "-o", f"{d}/{k}.o"]))
            assert not any([p.wait() for p in ps])
            subprocess.run(["g++", "-shared", "-fopenmp", "-o", d + "/x.so"] + [f"{d}/{k}.o" for k in range(len(cpp))], check=True)
            self.d = d = ct.CDLL(d + "/x.so")
        d.vf_message.restype, d.vf_names.restype = ct.c_char_p, ct.c_char_p
        d.vf_data.restype, d.vf_shape.restype, d.vf_kind.restype = ct.c_void_p, ct.c_long, ct.c_char

    def __call__(self, name, *args):
        d = self.d
        d.vf_reset()
        for a in args:
            if isinstance(a, int):
                d.vf_int(ct.c_long(a))
            elif isinstance(a, float):
                d.vf_float(ct.c_double(a))
            else:
                d.vf_array(ct.c_char({"f": b"d", "c": b"z", "i": b"I"}[a.dtype.kind]), a.ndim, (ct.c_long * a.ndim)(*a.shape), ct.c_void_p(a.ctypes.data))
        n = d.vf_call(name.encode())
        assert n >= 0, d.vf_message()
        out = []
        for k in range(n):
            dt = np.dtype(float if d.vf_kind(k) == b"d" else complex)
            shape = tuple(d.vf_shape(k, i) for i in range(d.vf_ndim(k)))
            out.append(np.frombuffer(ct.string_at(d.vf_data(k), int(np.prod(shape)) * dt.itemsize), dt).reshape(shape))
        return out
