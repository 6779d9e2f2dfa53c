"""C30: the time-domain Maxwell engine; C31: structures; C32: sources, monitors and outputs"""
import os

import numpy as np
from hypothesis import strategies as st

from vf import fdtd
from vf.core import Trivial, Violated, close, expect, law, rng
from vf.rig import fl, seeds
from vf.yee import AX, DRUDE, E3, FREE, H3, MOL, PML, STILL, WALL, Axis, Yee, half, sign

_axis = st.fixed_dictionaries(dict(n=st.integers(4, 11), lat=st.integers(1, 6), pl=st.integers(0, 3), pr=st.integers(0, 3), kind=st.sampled_from(["wall", "wall", "mirror", "torus"]),
                                   par=st.sampled_from([1, -1]), turn=st.sampled_from([0.0, 0.0, 0.3, -0.17, 0.5]), ord=fl(1.5, 4, 2), sig=fl(0.3, 2, 2), kappa=st.sampled_from([1.0, 1.0, 2.5])))
_CFG = dict(ax=st.lists(_axis, min_size=3, max_size=3), S=fl(2, 6, 2), back=fl(1, 4, 2), tri=st.integers(0, 5).map(lambda i: i == 5), nug=st.integers(0, 2), seed=seeds)


def setup(e, c):
    """configure the engine and allocate its fields; -> description of the axes"""
    ax = [dict(a) for a in c["ax"]]
    if c.get("tri"):
        for a in ax[:2]:
            a["kind"] = "torus"
    if ax[2]["kind"] == "torus":
        ax[2]["kind"] = "wall"
    for i, a in enumerate(ax):
        if a["kind"] == "mirror" or (c.get("tri") and i == 0):
            a["n"] += a["n"] % 2
        if a["kind"] == "torus":
            a["pl"] = a["pr"] = 0
        if a["kind"] == "wall":
            a["n"] = max(a["n"], a["pl"] + a["pr"] + 4)
        if a["kind"] == "mirror":
            a["n"] = max(a["n"], 2 * a["pl"] + 6)
    nug = c.get("nug", 0) if ax[2]["kind"] == "wall" else 0
    grid = []
    if nug:  # refined intervals of the last axis, on the coarse grid
        L, need = ax[2]["lat"], 2 * nug + 1
        cells = max(ax[2]["n"], need)
        r = np.random.default_rng(c["seed"] + 1)
        cut = np.sort(r.choice(np.arange(0, cells + 1), size=2 * nug, replace=False))
        zs = cells / L
        for g in range(nug):
            grid.append((cut[2 * g] / L - zs / 2, cut[2 * g + 1] / L - zs / 2, L * int(r.integers(1, 4))))
        order = r.permutation(nug)
        size = [ax[0]["n"] / ax[0]["lat"], ax[1]["n"] / ax[1]["lat"], zs]
        extra = sum((cut[2 * g + 1] - cut[2 * g]) * (grid[g][2] // L - 1) for g in range(nug))
        ax[2]["n"] = int(cells + extra)
    else:
        size = [a["n"] / a["lat"] for a in ax]
    e.structure_size(*size)
    e.lattice_size(*[a["lat"] for a in ax])
    for g in (order if nug else []):
        e.non_uniform_grid("z", *grid[g])
    e.pml_size(*[a[s] for a in ax for s in ("pl", "pr")])
    e.set_default_parameter(c["S"])
    if not c.get("plain"):
        e.set_sigma_order(*[a["ord"] + d for a in ax for d in (0, 0.25)])
        e.set_sigma_max(*[a["sig"] + d for a in ax for d in (0, 0.5)])
        e.set_kappa(*[a["kappa"] for a in ax])
    par = [a["par"] if a["kind"] == "mirror" else 0 for a in ax]
    if any(par):
        e.Hz_parity(*par)
    if any(a["kind"] == "torus" for a in ax):
        e.periodic_boundary(*[int(a["kind"] == "torus") for a in ax[:2]], *[a["turn"] for a in ax[:2]])
    e.memory()
    e.background(c["back"])
    n = [a["n"] for a in ax]
    got = (e.num("isize", "i"), e.num("jsize", "i"), e.num("ksize", "i"))
    expect(got == tuple(n), f"number of grid cells {got} instead of {tuple(n)}")
    keep = tuple(a["n"] if a["kind"] == "wall" else a["n"] + 2 if a["kind"] == "torus" else a["n"] // 2 + 2 for a in ax)
    expect(e.size() == keep, f"allocated {e.size()} instead of {keep}")
    axes = [Axis(a["kind"], a["n"] // 2 if a["kind"] == "mirror" else a["n"], i, a["par"] if a["kind"] == "mirror" else 0, a["turn"]) for i, a in enumerate(ax)]
    tri = (ax[0]["turn"], ax[1]["turn"]) if c.get("tri") else None
    bloch = any(a["kind"] == "torus" and a["turn"] for a in ax[:2])
    return dict(ax=ax, axes=axes, tri=tri, bloch=bloch, keep=keep, S=float(np.float32(c["S"])), back=c["back"], grid=sorted(grid), z0=-size[2] / 2, plain=c.get("plain"))


def units(e):
    uo, eo = e.num("uo"), e.num("eo")
    close(uo / (4e-7 * np.pi), 1.0, "vacuum permeability", 1e-5)
    close(eo / 8.854e-12, 1.0, "vacuum permittivity", 1e-4)
    dt = e.num("dt")
    close(dt / np.sqrt(uo * eo) * e.num("S_factor"), 1.0, "time step", 1e-5)
    return eo, np.sqrt(uo / eo), dt


def profile(a, n, pl, pr, d, Z, S, back, plain):
    """conductivity * dt / eps0 at position a of an axis with n cells: graded from the inner face of the layer"""
    if d["kind"] == "torus":
        return 0.0
    ol, orr, sl, sr = (3.5, 3.5, 1.0, 1.0) if plain else (d["ord"], d["ord"] + 0.25, d["sig"], d["sig"] + 0.5)
    if a < pl + 0.5:
        return 0.0 if not pl else sl * (ol + 1) / (150 * np.pi * np.sqrt(back)) * ((pl + 0.5 - a) / pl) ** ol * Z / S
    if a >= n - pr - 1:
        return 0.0 if not pr else sr * (orr + 1) / (150 * np.pi * np.sqrt(back)) * ((a - (n - pr - 1)) / pr) ** orr * Z / S
    return 0.0


def reference(e, d, arr):
    """Yee reference of the configured engine; arr: cell arrays of the engine"""
    eo, Z, dt = units(e)
    ax, axes = d["ax"], d["axes"]
    inside = np.ones(d["keep"], bool)
    for i, a in enumerate(ax):
        k = np.arange(d["keep"][i])
        m = np.ones(len(k), bool) if a["kind"] == "torus" else (k >= a["pl"] + 1) & (k <= a["n"] - a["pr"] - 2)
        inside &= m.reshape([-1 if b == i else 1 for b in range(3)])
    me = arr["mepsilon"]
    metal = (me != 0) & (me != 1000) & ~((me == 100) & inside)
    kindE = np.select([(me == 100) & inside, metal | (me == 100), (me == 1000) & inside, me == 1000, inside], [MOL, DRUDE, WALL, STILL, FREE], PML)
    kindH = np.select([(me == 1000) & inside, me == 1000, inside | (me != 0)], [WALL, STILL, FREE], PML)

    def whole(a, comp, s=False):
        for i in range(3):
            a = axes[i].unfold(a, half(comp, i), sign(comp, i, axes[i].parity) if s and axes[i].kind == "mirror" else 1)
        for i, x in enumerate(axes):  # antisymmetric components vanish on the mirror itself
            if s and x.kind == "mirror" and not half(comp, i) and sign(comp, i, x.parity) < 0:
                a[tuple(slice(None) if b != i else x.n for b in range(3))] = 0
        return a

    kind = {c: whole(kindE if c[0] == "E" else kindH, c) for c in E3 + H3}
    eps = {c: whole(arr["epsilon" + c[1]], c) for c in E3}
    dr = {c: (whole(np.where(me == 0, 1, me), c), whole(arr["momega"] * dt, c), whole(arr["mgamma"] * dt, c)) for c in E3}
    sig = []
    for i, a in enumerate(ax):
        k = np.arange(d["keep"][i])
        v = [np.array([profile(x, a["n"], a["pl"], a["pr"], a, Z, d["S"], d["back"], d["plain"]) for x in k + o]) for o in (0, 0.5)]
        v = [axes[i].unfold(x.reshape([-1 if b == i else 1 for b in range(3)]), bool(h)).ravel() for h, x in enumerate(v)]
        sig.append(v)
    dz = e.line("ds_nz", ax[2]["n"])
    ds = (e.num("ds_x"), e.num("ds_y"), dz if axes[2].kind == "wall" else np.full(axes[2].N, e.num("ds_z")))
    kap = [1.0] * 3 if d["plain"] else [a["kappa"] for a in ax]
    pol = {c: whole((arr["dP" + c[1]] + arr["dP" + c[1] + "_old"]) / 2 * dt / eo, c, True) for c in E3} if "dPx" in arr else None
    y = Yee(axes, ds, d["S"], kind, eps, sig, kap, dr, pol, d["tri"])
    y.whole, y.units = whole, {"E": 1.0, "H": Z, "D": 1 / eo, "B": Z / e.num("uo"), "J": dt / eo}
    return y


def put(e, y, d, r, drude=True):
    """random field in the engine and in the reference"""
    for group, store in (("E", y.f), ("H", y.f), ("D", y.aux), ("B", y.aux), ("J", y.J)):
        for a in range(3):
            name = group + AX[a]
            c = {"D": "E", "B": "H", "J": "E"}.get(group, group) + AX[a]
            v = r.normal(size=d["keep"]) + (1j * r.normal(size=d["keep"]) if d["bloch"] else 0)
            if group in "DB":
                v *= 0.3
            w = y.whole(v, c, True) * y.mask[c]
            store[c][...] = w
            full = np.zeros(d["keep"], complex)
            spread(full, w, c, d)
            e.write(name, (full / y.units[group]).real)
            if d["bloch"]:
                e.write("i" + name, (full / y.units[group]).imag)


def spread(full, w, c, d):
    """engine array (with the points beyond the domain that it keeps) from the whole field"""
    idx = []
    ph = np.ones(full.shape, complex)
    n = d["keep"]
    I, J, K = np.meshgrid(*[np.arange(x) for x in n], indexing="ij")
    pos = [I.copy(), J.copy(), K.copy()]
    for i, x in enumerate(d["axes"]):
        if x.kind == "torus":
            p = pos[i] - 1
            lo, hi = p < 0, p >= x.n
            if i == 1 and d["tri"] is not None:
                kx, ky = d["tri"]
                u, m = d["axes"][0].n // 2, d["axes"][0].n
                for cond, s in ((lo, 1), (hi, -1)):  # f(r) = f(r + s a2) exp(-s 2 pi i (kx/2 + ky))
                    q = pos[0][cond] + s * u
                    wrap = np.where(q >= m, 1, np.where(q < 0, -1, 0))
                    # move back into the cell along a1: f(r) = f(r - wrap a1) exp(2 pi i kx wrap)
                    ph[cond] *= np.exp(-2j * np.pi * s * (0.5 * kx + ky)) * np.exp(2j * np.pi * kx * wrap)
                    pos[0][cond] = q - wrap * m
            else:
                ph[lo] *= np.exp(-2j * np.pi * x.turn)
                ph[hi] *= np.exp(2j * np.pi * x.turn)
            pos[i] = p % x.n
    ok = np.ones(full.shape, bool)
    for i, x in enumerate(d["axes"]):
        ok &= (pos[i] >= 0) & (pos[i] < x.N)
    full[ok] = (w[tuple(np.where(ok, p, 0) for p in pos)] * ph)[ok]


def compare(e, y, d, what, tol=4e-5):
    scale = {g: max([1e-9] + [np.abs(s[c]).max() for c in s if c[0] == L]) for g, s, L in (("E", y.f, "E"), ("H", y.f, "H"), ("D", y.aux, "E"), ("B", y.aux, "H"), ("J", y.J, "E"))}
    for g, store in (("E", y.f), ("H", y.f), ("J", y.J)):
        for a in range(3):
            c = {"J": "E"}.get(g, g) + AX[a]
            got = e.read(g + AX[a]) * y.units[g]
            if d["bloch"]:
                got = got + 1j * e.read("i" + g + AX[a]) * y.units[g]
            ref = store[c]
            for i, x in enumerate(d["axes"]):
                got, ref = x.part(got, half(c, i)), x.fold(ref, half(c, i))
            s = max(scale["E"], scale["H"]) if g in "EH" else scale[g]
            if not np.isfinite(got).all():
                raise Violated(f"{what}: {g}{AX[a]} is not finite")
            close(got / s, ref / s, f"{what}: {g}{AX[a]}", tol, 0)


def cells(r, d, back, kinds):
    """random material arrays; mirror planes of the y/z axes need nothing special"""
    n = d["keep"]
    arr = {f"epsilon{a}": np.where(r.random(n) < 0.5, back, 1 + 8 * r.random(n)) for a in AX}
    p = r.random(n)
    me = np.zeros(n)
    me[(p < 0.12) & kinds["drude"]] = 1.0
    me = np.where(me > 0, 1 + 4 * r.random(n), 0)
    if kinds["mol"]:
        me[(p > 0.9)] = 100
    if kinds["wall"]:
        me[(p > 0.85) & (p < 0.9)] = 1000
    return dict(arr, mepsilon=me)


@law("C30", st.fixed_dictionaries(dict(_CFG, steps=st.integers(1, 4), drude=st.booleans(), mol=st.booleans(), wall=st.booleans())), quick=700, cost=0.04,
     rule="three axes, each ending in walls with absorbing layers of 0-3 cells, mirror-symmetric (either parity) or periodic with a Bloch phase (also on a triangular lattice), uneven lattices, refined intervals along z, random permittivity per component, free-carrier cells, molecular cells with a given polarisation current and perfectly reflecting cells, random fields, 1-4 steps: every component against a double-precision reference over the unfolded domain; every case is non-trivial")
def step(c):
    def job(e):
        r = rng(c)
        if c["seed"] % 4 == 1 and not c["tri"]:  # a domain halved by a mirror and repeated with a phase
            a = c["seed"] // 4 % 2
            c["ax"][a].update(kind="torus", turn=c["ax"][a]["turn"] or 0.3)
            c["ax"][1 - a].update(kind="mirror")
        d = setup(e, c)
        eo, Z, dt = units(e)
        mol = c["mol"] and not d["bloch"]  # the engine feeds molecular currents back into real fields only
        arr = cells(r, d, c["back"], dict(c, mol=mol))
        arr["momega"] = np.where(arr["mepsilon"] > 0, 2 * r.random(d["keep"]), 0) / dt
        arr["mgamma"] = np.where(arr["mepsilon"] > 0, r.random(d["keep"]), 0) / dt
        if mol:
            for a in AX:
                for s in ("", "_old"):
                    arr["dP" + a + s] = r.normal(size=d["keep"]) * eo / dt
        for k, v in arr.items():
            e.write(k, v)
            arr[k] = e.read(k)
        e.coefficient()
        y = reference(e, d, arr)
        put(e, y, d, r)
        for _ in range(c["steps"]):
            (e.propagate_tri if d["tri"] is not None else e.propagate)()
            y.step()
        compare(e, y, d, f"fields after {c['steps']} steps")
        # node values, also next to the ends of a periodic or mirror-reduced domain
        for comp in E3 + H3:
            full = np.zeros(d["keep"], complex)
            spread(full, y.f[comp], c, d)
            mean = mean_at_nodes(full.real, comp)
            s = max(1e-9, max(np.abs(y.f[x]).max() for x in E3 + H3))
            last = [x.n if x.kind == "torus" else x.n - 1 for x in d["axes"]]
            for _ in range(6):
                p = tuple(int(1 + r.integers(n)) for n in last)
                close(e.grid_value(comp, *p) * y.units[comp[0]] / s, mean[p] / s, f"{comp} at node {p} after {c['steps']} steps", 5e-5, 0)
        for k in ("epsilonx", "epsilony", "epsilonz", "mepsilon", "momega", "mgamma"):
            close(e.read(k), arr[k], "materials changed by the propagation: " + k, 0, 0)
        e.field_initialization()
        for g in "EHDBJ":
            for a in AX:
                for im in ("", "i") if d["bloch"] else ("",):
                    expect(not e.read(im + g + a).any(), f"{im}{g}{a} is not zero after the initialisation")
        return ",".join(x.kind for x in d["axes"])

    return fdtd.run(job)


# --------------------------------------------------------------------- grids
def grid_nodes(cells, L, grid):
    """fractional cell index of a position along the refined axis (from its lower end), and the inverse"""
    pts = [(0.0, 0.0)]
    z, k, end = 0.0, 0.0, cells / L
    for a, b, n in sorted(grid):
        if a > z:
            k += (a - z) * L
            z = a
            pts.append((z, k))
        k += (b - a) * n
        z = b
        pts.append((z, k))
    if end > z:
        k += (end - z) * L
        pts.append((end, k))
    return pts


def z_to_k(pts, z, outer=None):
    """outer: cells per unit outside the domain (those of the adjacent interval by default)"""
    zs, ks = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    if z < zs[0]:
        return ks[0] + (z - zs[0]) * (outer or (ks[1] - ks[0]) / (zs[1] - zs[0]))
    if z > zs[-1]:
        return ks[-1] + (z - zs[-1]) * (outer or (ks[-1] - ks[-2]) / (zs[-1] - zs[-2]))
    return float(np.interp(z, zs, ks))


_GRID = st.fixed_dictionaries(dict(cells=st.integers(1, 60), lat=st.integers(1, 20), lx=st.integers(1, 20), ly=st.integers(1, 20), n=st.integers(0, 4), S=fl(1, 5, 2), seed=seeds))


@law("C31", _GRID, quick=250, cost=0.02,
     rule="1-60 cells along z with 0-4 refined intervals given in any order, adjacent or apart, also fractional ends: number of cells, position of every cell index and back (exact at the nodes, monotone between), spacings in one common unit along the three axes, the step bound; non-trivial with at least one refined interval")
def refined_grid(c):
    def job(e):
        r = rng(c)
        L, cells = c["lat"], c["cells"]
        n = min(c["n"], (cells + 1) // 2)
        cut = np.sort(r.choice(np.arange(cells + 1), size=2 * n, replace=False)) if n else []
        if n > 1 and r.random() < 0.4:
            cut[2] = cut[1]  # adjacent intervals
        grid = [(cut[2 * g] / L, cut[2 * g + 1] / L, L * int(r.integers(1, 5))) for g in range(n)]
        e.structure_size(7 / c["lx"], 5 / c["ly"], cells / L)
        e.lattice_size(c["lx"], c["ly"], L)
        for g in r.permutation(n):
            a, b, m = grid[g]
            e.non_uniform_grid("z", a - cells / L / 2, b - cells / L / 2, m)
        e.pml_size(0, 0, 0, 0, 0, 0)
        e.set_default_parameter(c["S"])
        pts = grid_nodes(cells, L, grid)
        K = int(round(pts[-1][1]))
        expect((e.num("isize", "i"), e.num("jsize", "i"), e.num("ksize", "i")) == (7, 5, K), f"cells {(e.num('isize', 'i'), e.num('jsize', 'i'), e.num('ksize', 'i'))} instead of {(7, 5, K)}")
        zs, ks = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
        for k in range(K + 1):
            z = float(np.interp(k, ks, zs)) - cells / L / 2
            expect(e.non_uniform_z_to_i(z) == k, f"the position {z} of node {k} belongs to cell {e.non_uniform_z_to_i(z)}")
            close(e.non_uniform_i_to_z(k), z, f"position of node {k}", 2e-5, 2e-6)
        for z in r.uniform(0, cells / L, 20):
            f = z_to_k(pts, z)
            if abs(f - np.floor(f) - 0.5) > 1e-2:
                got = e.non_uniform_z_to_i(z - cells / L / 2)
                expect(got == int(np.floor(f + 0.5)), f"position {z - cells / L / 2}: cell {got} instead of {int(np.floor(f + 0.5))}")
        finest = max([L] + [m for _, _, m in grid])
        unit = np.lcm.reduce([c["lx"], c["ly"], finest])
        close([e.num("ds_x"), e.num("ds_y"), e.num("ds_z")], [unit / c["lx"], unit / c["ly"], unit / finest], "spacings in the common unit", 1e-6)
        ds = e.line("ds_nz", K)
        # between nodes k and k+1; the cell at the face of a refined interval may count to either side
        for k in range(1, K - 1):
            lo = np.interp([k - 1, k, k + 1], ks, zs)
            d = {float(x) * unit for x in (lo[1] - lo[0], lo[2] - lo[1])}
            expect(min(abs(ds[k] - x) for x in d) < 1e-3 * ds[k], f"spacing {ds[k]} of cell {k} is none of {sorted(d)}")
        if not n:
            raise Trivial
        return f"{n} intervals"

    return fdtd.run(job)



# ---------------------------------------------------------------- structures
SHAPES = ("block", "rod", "donut", "ellipse", "cone", "rodX", "rodY", "sphere", "shell", "ellipsoidal", "contour")
STRETCH = ("block", "rod", "donut", "ellipse", "cone", "contour")  # allowed on refined grids
TOL = 2e-3  # in cells


def inside(o, g, X, Y, Z):
    """(certainly, possibly) inside object o at the cell positions X, Y, Z; g: description of the grid"""
    lat, half_, pts = g["lat"], g["half"], g["pts"]
    cx, cy = [(o["c"][a] + half_[a]) * lat[a] for a in range(2)]
    cz = (o["c"][2] + half_[2]) * lat[2]
    s = o["s"]

    def ball(q, r, axes=()):  # |q| <= radius (cells); which spacing counts on uneven axes is not documented
        u = [lat[a] for a in axes] or [1]
        return np.sqrt(q) < r * min(u) - TOL, np.sqrt(q) < r * max(u) + TOL

    def ring(q, r1, r2, axes):
        a, b = ball(q, r1, axes), ball(q, r2, axes)
        return b[0] & ~a[1], b[1] & ~a[0]

    def slab(v, c, h):
        d = np.abs(v - c) - h / 2
        return d < -TOL, d < TOL

    def layer(c, h):
        """the height is rounded to nodes of the (refined) grid"""
        out = []
        # which spacing continues outside a domain that ends in a refined interval is not documented
        for outer in (None, lat[2]):
            k = [z_to_k(pts, c + half_[2] + t * h / 2, outer) for t in (-1, 1)]
            if any(abs(x - np.floor(x) - 0.5) < 1e-2 for x in k):
                raise Trivial
            lo, hi = [int(np.floor(x + 0.5)) for x in k]
            out.append((Z >= lo) & (Z <= hi))
        return out[0] & out[1], out[0] | out[1]

    def both(*ms):
        return np.logical_and.reduce([m[0] for m in ms]), np.logical_and.reduce([m[1] for m in ms])

    sh = o["shape"]
    if o.get("angles"):
        a, b, c = np.radians(o["angles"])
        Rz = lambda t: np.array([[np.cos(t), np.sin(t), 0], [-np.sin(t), np.cos(t), 0], [0, 0, 1]])  # noqa
        Rx = np.array([[1, 0, 0], [0, np.cos(b), np.sin(b)], [0, -np.sin(b), np.cos(b)]])
        M = Rz(c) @ Rx @ Rz(a)  # passive z-x-z Euler rotation into the frame of the object
        d = np.stack([X - cx, Y - cy, Z - cz])
        P = np.tensordot(M, d, 1)
        if sh == "rod":
            return both(ball(P[0] ** 2 + P[1] ** 2, s[0] * lat[0]), slab(P[2], 0, s[1] * lat[2]))
        if sh == "ellipse":
            return both(ball(P[0] ** 2 + P[1] ** 2 / s[2] ** 2, s[0] * lat[0]), slab(P[2], 0, s[1] * lat[2]))
        if sh == "ellipsoidal":
            q = sum((P[i] / (s[i] * lat[i])) ** 2 for i in range(3))
            w = TOL / (min(s) * lat[0])
            return np.sqrt(q) < 1 - w, np.sqrt(q) < 1 + w
        return both(*[slab(P[i], 0, s[i] * lat[i]) for i in range(3)])
    if sh == "block":
        return both(slab(X, cx, s[0] * lat[0]), slab(Y, cy, s[1] * lat[1]), layer(o["c"][2], s[2]))
    q2 = (X - cx) ** 2 + (Y - cy) ** 2
    if sh == "rod":
        return both(ball(q2, s[0], (0, 1)), layer(o["c"][2], s[1]))
    if sh == "rodX":
        return both(ball((Y - cy) ** 2 + (Z - cz) ** 2, s[0], (1, 2)), slab(X, cx, s[1] * lat[0]))
    if sh == "rodY":
        return both(ball((X - cx) ** 2 + (Z - cz) ** 2, s[0], (0, 2)), slab(Y, cy, s[1] * lat[1]))
    if sh == "donut":
        return both(ring(q2, s[0], s[1], (0, 1)), layer(o["c"][2], s[2]))
    if sh == "ellipse":
        return both(ball((X - cx) ** 2 + (Y - cy) ** 2 / s[2] ** 2, s[0], (0, 1)), layer(o["c"][2], s[1]))
    if sh == "sphere":
        return ball(q2 + (Z - cz) ** 2, s[0], (0, 1, 2))
    if sh == "shell":
        return ring(q2 + (Z - cz) ** 2, s[0], s[1], (0, 1, 2))
    if sh == "ellipsoidal":
        q = ((X - cx) / (s[0] * lat[0])) ** 2 + ((Y - cy) / (s[1] * lat[1])) ** 2 + ((Z - cz) / (s[2] * lat[2])) ** 2
        w = TOL / min(s[i] * lat[i] for i in range(3))
        return np.sqrt(q) < 1 - w, np.sqrt(q) < 1 + w
    if sh == "cone":  # radius s[0] at the top, s[1] at the bottom; the engine looks it up at a whole cell
        zs, ks = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
        rad = []
        for K in (np.floor(Z), Z, np.ceil(Z)):
            z = np.interp(K, ks, zs) - half_[2]
            rad.append((0.5 * (s[0] + s[1]) + (s[0] - s[1]) * (z - o["c"][2]) / s[2]))
        rad = np.array(rad)
        lo, hi = np.where((rad < 0).any(0), 0, rad.min(0)), np.abs(rad).max(0)
        m = np.sqrt(q2) < lo * min(lat[:2]) - TOL, np.sqrt(q2) < hi * max(lat[:2]) + TOL
        return both(m, layer(o["c"][2], s[2]))
    if sh == "contour":  # level, height, cells per matrix element
        mat = np.asarray(o["mat"], float)  # first line is the top
        I = o["c"][0] + (X - half_[0] * lat[0]) / s[2]
        J = o["c"][1] + (Y - half_[1] * lat[1]) / s[2]
        tol = TOL / s[2]
        row, col = mat.shape
        val = lambda i, j: np.where((i >= 0) & (i < col) & (j >= 0) & (j < row), mat[(row - 1 - np.clip(j, 0, row - 1)).astype(int), np.clip(i, 0, col - 1).astype(int)], np.inf)  # noqa
        hits = np.array([val(np.floor(I + a), np.floor(J + b)) <= s[0] for a in (-tol, 0, tol) for b in (-tol, 0, tol)])
        return both((hits.all(0), hits.any(0)), layer(o["c"][2], s[1]))
    raise KeyError(sh)


@st.composite
def _objects(draw, metal=False):
    lat = draw(st.sampled_from(["equal", "xy", "free"]))
    L = draw(st.integers(2, 4))
    lats = dict(equal=[L] * 3, xy=[L, L, draw(st.integers(1, 4))], free=[draw(st.integers(1, 4)) for _ in range(3)])[lat]
    n = [draw(st.integers(3, 7)) for _ in range(3)]
    nug = draw(st.integers(0, 3)) == 0
    objs = []
    shapes = [s for s in SHAPES if not nug or s in STRETCH]
    for _ in range(draw(st.integers(1, 3))):
        sh = draw(st.sampled_from(shapes))
        size = [n[i] / lats[i] for i in range(3)]
        m = min(size)
        cen = [round(draw(fl(-0.6, 0.6, 3)) * size[i], 4) for i in range(3)]
        u = [draw(fl(0.05, 1.0, 3)) for _ in range(3)]
        o = dict(shape=sh, eps=draw(fl(1, 12, 2)), c=cen)
        if sh == "block":
            o["s"] = [round(u[i] * size[i] * 1.3, 4) for i in range(3)]
        elif sh in ("rod", "sphere"):
            o["s"] = [round(u[0] * m * 0.7, 4), round(u[1] * size[2] * 1.3, 4), 0.0]
        elif sh in ("rodX", "rodY"):
            o["s"] = [round(u[0] * m * 0.7, 4), round(u[1] * size["XY".index(sh[3])] * 1.3, 4), 0.0]
        elif sh == "donut" or sh == "shell":
            a = sorted(u[:2])
            o["s"] = [round(a[0] * m * 0.7, 4), round(a[1] * m * 0.9, 4), round(u[2] * size[2] * 1.3, 4)]
        elif sh == "ellipse":
            o["s"] = [round(u[0] * m * 0.7, 4), round(u[1] * size[2] * 1.3, 4), round(0.4 + u[2], 3)]
        elif sh == "ellipsoidal":
            o["s"] = [round(0.05 + u[i] * size[i] * 0.6, 4) for i in range(3)]
        elif sh == "cone":
            o["s"] = [round(u[0] * m * 0.8, 4), round(u[1] * m * 0.8, 4), round(0.2 + u[2] * size[2], 4)]
        else:
            rows, cols = draw(st.integers(1, 5)), draw(st.integers(1, 5))
            o["mat"] = [[draw(st.integers(0, 9)) for _ in range(cols)] for _ in range(rows)]
            o["s"] = [4.5, round(u[1] * size[2] * 1.3, 4), round(0.5 + 2 * u[2], 3)]
            o["c"] = [round(draw(fl(0, 1, 2)) * cols, 2), round(draw(fl(0, 1, 2)) * rows, 2), cen[2]]
        if not metal and lat == "equal" and not nug and sh in ("block", "rod", "ellipse", "ellipsoidal") and draw(st.booleans()):
            o["angles"] = [draw(fl(-180, 180, 1)) for _ in range(3)]
        if metal:
            o.update(wp=draw(fl(0.1, 9, 2)), gm=draw(fl(0, 2, 2)), kind=draw(st.sampled_from(["metal", "metal", "eraser", "wall"])), second=sh == "contour" or draw(st.booleans()))
        objs.append(o)
    return dict(lat=lats, n=n, nug=nug, fine=draw(st.integers(2, 3)), objs=objs, back=draw(fl(1, 4, 2)), mirror=draw(st.sampled_from([0, 0, 1, 2, 3])), seed=draw(seeds))


def prepare(e, c):
    """grid of a structure case"""
    lat, n = c["lat"], list(c["n"])
    size = [n[i] / lat[i] for i in range(3)]
    grid = []
    if c["nug"]:
        r = rng(c)
        a, b = np.sort(r.choice(np.arange(n[2] + 1), 2, replace=False))
        grid = [(a / lat[2], b / lat[2], lat[2] * c["fine"])]
    pts = grid_nodes(n[2], lat[2], grid)
    e.structure_size(*size)
    e.lattice_size(*lat)
    for a, b, m in grid:
        e.non_uniform_grid("z", a - size[2] / 2, b - size[2] / 2, m)
    e.pml_size(0, 0, 0, 0, 0, 0)
    e.set_default_parameter(2.0)
    n[2] = int(round(pts[-1][1]))
    if c.get("mirror") and n[c["mirror"] - 1] % 2 == 0 and not (c["mirror"] == 3 and grid):
        e.Hz_parity(*[int(i == c["mirror"] - 1) for i in range(3)])
    e.memory()
    e.background(c["back"])
    return dict(lat=lat, half=[x / 2 for x in size], pts=pts)


def matrix_file(o, i):
    if "mat" not in o:
        return ""
    name = f"m{i}.txt"
    with open(name, "w") as f:
        for row in o["mat"]:
            f.write("\t".join(str(x) for x in row) + "\n")
    return name


@law("C31", _objects(), quick=520, cost=0.12,
     rule="1-3 overlapping objects of eleven shapes, also Euler-rotated, on equal, uneven and refined grids, whole and mirror-reduced domains: the permittivity of every component in every cell against a ten-fold sampling of the shapes by their geometry (bracketed where a sample lies within 0.002 cells of a surface); non-trivial when some cell lies inside and some on the surface of an object")
def permittivity(c):
    def job(e):
        g = prepare(e, c)
        for i, o in enumerate(c["objs"]):
            if o.get("angles"):
                e.input_object_Euler_rotation(o["shape"], "", *o["c"], *o["s"], *o["angles"], o["eps"])
            else:
                e.input_object(o["shape"], matrix_file(o, i), *o["c"], *o["s"], o["eps"])
        e.make_epsilon()
        n = e.size()
        off = np.arange(10) * 0.1 - 0.45
        partial = full = 0
        for a in range(3):
            got = e.read("epsilon" + AX[a])
            base = np.stack(np.meshgrid(*[np.arange(k, dtype=float) for k in n], indexing="ij"), -1).reshape(-1, 3)
            base[:, a] += 0.5
            lo = np.full((len(base), 1000), c["back"])
            hi = lo.copy()
            S = np.stack(np.meshgrid(off, off, off, indexing="ij"), -1).reshape(-1, 3)
            C = np.array([[x, y, z] for x in (-0.5, 0.5) for y in (-0.5, 0.5) for z in (-0.5, 0.5)])
            for o in c["objs"]:
                P = base[:, None, :] + C
                cin, cmay = inside(o, g, P[..., 0], P[..., 1], P[..., 2])
                P = base[:, None, :] + S
                sin_, smay = inside(o, g, P[..., 0], P[..., 1], P[..., 2])
                out, allin = ~cmay.any(1), cin.all(1)
                mayfull, mayout = cmay.all(1), ~cin.any(1)
                ep = o["eps"]
                nlo, nhi = np.where(smay, np.minimum(lo, ep), lo), np.where(smay, np.maximum(hi, ep), hi)
                nlo, nhi = np.where(sin_, ep, nlo), np.where(sin_, ep, nhi)
                # a cell whose corners all lie outside (inside) may be taken as wholly outside (inside)
                keep = mayout[:, None]
                nlo, nhi = np.where(keep, np.minimum(nlo, lo), nlo), np.where(keep, np.maximum(nhi, hi), nhi)
                fill = mayfull[:, None]
                nlo, nhi = np.where(fill, np.minimum(nlo, ep), nlo), np.where(fill, np.maximum(nhi, ep), nhi)
                lo, hi = nlo, nhi
                partial += int((~out & ~allin).sum())
                full += int(allin.sum())
            lo, hi = lo.mean(1).reshape(n), hi.mean(1).reshape(n)
            bad = np.maximum(got - hi, lo - got)
            k = np.unravel_index(np.argmax(bad), n)
            expect(bad[k] < 2e-3, f"permittivity of E{AX[a]} in cell {tuple(int(x) for x in k)}: {got[k]:.5f} outside [{lo[k]:.5f}, {hi[k]:.5f}]")
        if not (partial and full):
            raise Trivial
        return "+".join(sorted({("R" if o.get("angles") else "") + o["shape"] for o in c["objs"]}))

    return fdtd.run(job)


@law("C31", _objects(metal=True), quick=450, cost=0.04,
     rule="1-3 overlapping free-carrier objects, erasers and reflectors of ten shapes and a molecule at a node: background permittivity, plasma frequency and damping of every node against the geometry and the conversion of frequencies to the grid's time unit, later objects replacing earlier ones; non-trivial when some node lies in an object and some outside all")
def free_carriers(c):
    def job(e):
        g = prepare(e, c)
        r = rng(c)
        n = e.size()
        ln = 4.0e-7
        unit = e.num("ds_x") * c["lat"][0]
        for i, o in enumerate(c["objs"]):
            eps, w, gm = {"metal": (o["eps"], o["wp"] * 1e15, o["gm"] * 1e13), "eraser": (0, 0, 0), "wall": (1000, 0, 0)}[o["kind"]]
            o["val"] = (eps, w * ln / unit, gm * ln / unit)
            if o["second"]:
                e.input_Drude_medium2(o["shape"], matrix_file(o, i), *o["c"], *o["s"], eps, w, gm, ln)
            else:
                e.input_Drude_medium(o["shape"], *o["c"], *o["s"], eps, w, gm, ln)
        mol = None
        if not c["nug"]:
            mol = [int(r.integers(0, n[i])) for i in range(3)]
            e.input_molecular("point", *[mol[i] / c["lat"][i] - g["half"][i] for i in range(3)], 0, 0, 0)
        e.make_metal_structure()
        P = np.stack(np.meshgrid(*[np.arange(k, dtype=float) for k in n], indexing="ij"))
        ref, unsure = np.zeros((3,) + n), np.zeros(n, bool)
        for o in c["objs"]:
            a, b = inside(o, g, *P)
            ref = np.where(a, np.array(o["val"]).reshape(3, 1, 1, 1), ref)
            unsure = (unsure | (b & ~a)) & ~a
        if mol:
            ref[:, mol[0], mol[1], mol[2]] = 100, 0, 0
            unsure[tuple(mol)] = False
        for k, name in enumerate(("mepsilon", "momega", "mgamma")):
            got = e.read(name)
            s = max(1e-30, np.abs(ref[k]).max())
            close(np.where(unsure, 0, got) / s, np.where(unsure, 0, ref[k]) / s, name, 1e-5, 1e-6)
        if not (ref[0].any() and (ref[0] == 0).any()):
            raise Trivial
        return "+".join(sorted({o["shape"] + ("2" if o["second"] else "") for o in c["objs"]}))

    return fdtd.run(job)


# ------------------------------------------------------- sources and monitors
_PULSE = dict(f=fl(0.02, 2, 3), phase=fl(-7, 7, 3), to=st.integers(-20, 60), td=st.integers(0, 30), t=st.integers(0, 120), when=st.sampled_from(["in", "in", "any", "edge"]))


def moment(c, shape):
    """time of the case: inside the pulse, anywhere, or at one of its ends"""
    to, td = c["to"], c["td"]
    if c["when"] == "any" or not td:
        return c["t"]
    if shape == "Gauss":
        ends = [to - 3 * td, to - 3 * td + 1, to + 3 * td - 1, to + 3 * td]
        inner = to - 3 * td + 1 + c["t"] % (6 * td - 1)
    else:
        ends = [to - 1, to, to + 8 * td - 1, to + 8 * td]
        inner = to + c["t"] % (8 * td)
    return ends[c["t"] % 4] if c["when"] == "edge" else inner


def pulse(e, c, shape, t, f, phase):
    """complex amplitude sin(.) - i cos(.) with its envelope"""
    unit = e.num("S_factor") * e.num("ds_x") * e.num("lattice_x", "i")
    to, td = c["to"], c["td"]
    if shape == "Gauss":
        if not (to - 3 * td < t < to + 3 * td):
            return 0j
        env, s = np.exp(-(((t - to) / td) ** 2)), t
    else:
        if td and not (to <= t < to + 8 * td):
            return 0j
        env, s = (np.exp(-(t - to) / td) if td else 1.0), t - to
    return -1j * env * np.exp(1j * (2 * np.pi * f * s / unit + phase))


_SRC = dict(_CFG, **_PULSE, wave=st.sampled_from([0, 0, 0.3, -0.2]), kind=st.sampled_from(["plane", "other", "other"]), off=st.lists(fl(-0.4, 0.4, 2), min_size=3, max_size=3), at=st.lists(fl(0, 0.999, 3), min_size=3, max_size=3), focus=fl(-2, 2, 2), waist=fl(0.3, 3, 2), index=fl(1, 3, 2))


@law("C32", st.fixed_dictionaries(_SRC), quick=260, cost=0.1,
     rule="point, line, plane-wave, focused-beam, random and externally driven sources of every component and sign with Gaussian and exponential envelope, inside, at the ends of and outside the pulse, on whole, mirror-reduced and Bloch-periodic uneven and refined grids: the change of every field array against the stated amplitude spread over the nearest samples; non-trivial when some amplitude does not vanish")
def sources(c):
    def job(e):
        c["tri"] = False
        if c["wave"]:
            c["ax"][c["seed"] % 2].update(kind="torus", turn=c["wave"])
        for a in c["ax"][:2]:
            if c["kind"] == "plane" and a["kind"] == "torus":
                a["lat"] = a["n"]  # the period is the unit of length, in which the wave vector is given
        d = setup(e, c)
        lat = [a["lat"] for a in d["ax"]]
        half_ = [e.num(x) for x in ("xcenter", "ycenter", "zcenter")]
        top = [min(m - 1, d["ax"][i]["n"] // 2 if d["ax"][i]["kind"] == "mirror" else m) for i, m in enumerate(d["keep"])]
        node = [1 + int(c["at"][i] * (top[i] - 1)) for i in range(3)]
        pos = [(node[i] + c["off"][i]) / lat[i] - half_[i] for i in range(3)]
        if d["grid"]:
            pts = grid_nodes(e.num("zsize") * lat[2], lat[2], [(a - d["z0"], b - d["z0"], m) for a, b, m in d["grid"]])
            pos[2] = float(np.interp(node[2] + c["off"][2], [p[1] for p in pts], [p[0] for p in pts])) - half_[2]
        strongest = 0
        for kind in ["plane"] if c["kind"] == "plane" else ["dipole", "line", "beam", "random", "given", "given_plane"]:
            if kind == "beam" and abs(pos[2] - c["focus"]) < 0.05:
                continue
            if kind == "random" and not c["td"]:
                continue
            for shape in ["Gauss"] if kind in ("random", "given", "given_plane") else ["Gauss", "Lorentz"]:
                strongest = max(strongest, source(e, c, d, kind, shape, node, pos, lat))
        if strongest < 1e-3:
            raise Trivial
        return c["kind"] + ("+Bloch" if d["bloch"] else "")

    return fdtd.run(job)


def source(e, c, d, kind, shape, node, pos, lat):
    """one kind of source on random fields; -> largest amplitude"""
    r = rng(c)
    n, names = d["keep"], [g + a for g in "EH" for a in AX]
    ref = {}
    adm = np.sqrt(e.num("eo") / e.num("uo"))
    bare = kind in ("dipole", "random") or (kind == "line" and shape == "Lorentz")  # magnetic amplitudes in units of H, not E
    for x in names:
        unit = adm if x[0] == "H" and not bare else 1.0
        v = unit * (0.1 * r.normal(size=n) + (0.1j * r.normal(size=n) if d["bloch"] else 0))
        e.write(x, v.real)
        if d["bloch"]:
            e.write("i" + x, v.imag)
        ref[x] = e.read(x) + (1j * e.read("i" + x) if d["bloch"] else 0)
    t = moment(c, shape)
    e.num("t", "l", t)

    def add(comp, p, a, z=1.0):
        s, comp = (-1, comp[1:]) if comp[0] == "-" else (1, comp)
        ax = [i for i in range(3) if half(comp, i)]
        w = s * a * (z if comp[0] == "H" else 1.0) / 2 ** len(ax)
        for m in range(2 ** len(ax)):
            q = list(p)
            for b, i in enumerate(ax):
                q[i] -= (m >> b) & 1
            if min(q) >= 0:
                ref[comp][tuple(q)] += w

    last = [e.num(x, "i") for x in ("pisize", "pjsize")]
    gauss = shape == "Gauss"
    amp = lambda f, phase: pulse(e, c, shape, t, f, phase)  # noqa
    a = 0
    order = [s + g + x for s in ("", "-") for g in "EH" for x in AX]
    for m in r.permutation(12):  # every component and sign, each with its own phase and frequency
        comp, f, ph = order[m], c["f"] * (1 + 0.07 * m), c["phase"] + 0.37 * m
        pair = "-" * (m % 2) + "H" + AX[int(r.integers(3))]
        if kind == "dipole":
            (e.Gaussian_dipole_source if gauss else e.Lorentzian_dipole_source)(comp, *pos, f, ph, c["to"], c["td"])
            add(comp, node, amp(f, ph))
        elif kind == "line":
            (e.Gaussian_line_source if gauss else e.Lorentzian_line_source)(comp, pos[0], pos[2], f, ph, c["to"], c["td"])
            for j in range(last[1] + 1):
                add(comp, (node[0], j, node[2]), amp(f, ph), 1.0 if bare else adm)
        elif kind == "plane":
            (e.Gaussian_planewave if gauss else e.Lorentzian_planewave)(comp, pair, pos[2], f, c["to"], c["td"])
            k = [d["ax"][i]["turn"] if d["bloch"] and d["ax"][i]["kind"] == "torus" else 0 for i in range(2)]
            for i in range(last[0] + 1):
                for j in range(last[1] + 1):
                    v = amp(f, 2 * np.pi * (k[0] * i / lat[0] + k[1] * j / lat[1]))
                    add(comp, (i, j, node[2]), v, adm), add(pair, (i, j, node[2]), v, adm)
        elif kind == "beam":
            w0, ri, z = c["waist"], c["index"], c["focus"] - pos[2]
            (e.Gaussian_beam_prop_Gauss if gauss else e.Gaussian_beam_prop_Lorentz)(comp, pair, *pos, c["focus"], w0, ri, f, c["to"], c["td"])
            z0 = np.pi * w0**2 * f * ri
            w = w0 * np.sqrt(1 + (z / z0) ** 2)
            R = z * (1 + (z0 / z) ** 2)
            for i in range(last[0] + 1):
                for j in range(last[1] + 1):
                    r2 = ((i - node[0]) / lat[0]) ** 2 + ((j - node[1]) / lat[1]) ** 2
                    v = w0 / w * np.exp(-r2 / w**2) * amp(f, -(2 * np.pi * z * f * ri - np.arctan(z / z0) + r2 * np.pi * f * ri / R))
                    add(comp, (i, j, node[2]), v, adm), add(pair, (i, j, node[2]), v, adm)
        else:
            break
        a = max(a, abs(amp(f, ph)))
    f, comp = c["f"], order[int(r.integers(3)) + 6 * int(r.integers(2))]
    if kind == "random":
        # all dipoles at one node: reproducible, and the phase is all that is random
        tw = []
        for _ in range(2):
            for x in names:
                e.write(x, np.zeros(n))
                if d["bloch"]:
                    e.write("i" + x, np.zeros(n))
            e.random_Gaussian_dipole(comp, f, c["td"], pos[0], pos[0], pos[1], pos[1], pos[2], pos[2], 1, c["seed"] % 1000)
            tw.append({x: e.read(x) for x in names})
        for x in names:
            close(tw[0][x], tw[1][x], "random source with the same seed: " + x, 0, 0)
            m = np.zeros(n)
            if x == comp[-2:]:
                i = "xyz".index(x[1])
                p = list(node)
                p[i] -= 1
                expect(abs(tw[0][x][tuple(node)] - tw[0][x][tuple(p)]) < 1e-6, "a random source is not centred on its node")
                env = np.exp(-(((t - 3 * c["td"]) / c["td"]) ** 2)) if 0 < t < 6 * c["td"] else 0
                expect(abs(tw[0][x][tuple(node)]) <= env / 2 + 1e-6, "amplitude of a random source exceeds its envelope")
                m[tuple(node)] = m[tuple(p)] = 1
            expect(not tw[0][x][m == 0].any(), "a random source acts elsewhere: " + x)
        return float(np.abs(tw[0][comp[-2:]]).max())
    if kind == "given":
        e.external_source("Ex", *pos, c["f"])
        add("Ex", node, c["f"])
    elif kind == "given_plane":
        e.external_planewave("Ex", "", pos[2], c["f"])
        for i in range(last[0] + 1):
            for j in range(last[1] + 1):
                add("Ex", (i, j, node[2]), c["f"])
    for x in names:
        got = e.read(x) + (1j * e.read("i" + x) if d["bloch"] else 0)
        unit = adm if x[0] == "H" and not bare else 1.0
        close(got / unit, (ref[x] if d["bloch"] else ref[x].real) / unit, f"{shape} {kind} source: field {x}", 2e-5, 2e-5)
    return a


def nodes_view(d, arr, comp=None, parity=True):
    """engine array -> array over all nodes of the domain, index = the engine's node number (mirrored halves unfolded)"""
    a = arr
    for i, x in enumerate(d["axes"]):
        if x.kind == "mirror":
            h = comp is not None and half(comp, i)
            a = x.unfold(a, h, sign(comp, i, x.parity) if comp is not None and parity else 1)
    return a


def mean_at_nodes(a, comp):
    """value at the nodes from the staggered samples around them (node 0 of the axes concerned is not used)"""
    for i in range(3):
        if half(comp, i):
            b = np.roll(a, 1, i)
            a = (a + b) / 2
    return a


def symmetric_cells(e, r, d, back, drude):
    """random materials that respect the mirrors, written into the engine; -> node views"""
    n = d["keep"]
    view = {}
    for name in ("epsilonx", "epsilony", "epsilonz"):
        a = np.where(r.random(n) < 0.5, back, 1 + 8 * r.random(n))
        comp = "E" + name[-1]
        w = nodes_view(d, a, comp, False)
        w = w[: n[0], : n[1], : n[2]]  # the kept part, with the mirrored samples beyond the mirror
        e.write(name, w)
        view[comp] = nodes_view(d, e.read(name), comp, False)
    me = np.where((r.random(n) < 0.3) & drude, 1 + 4 * r.random(n), 0)
    for name, a in (("mepsilon", me), ("momega", np.where(me > 0, 1 + r.random(n), 0)), ("mgamma", np.where(me > 0, r.random(n), 0))):
        if name != "mepsilon":
            a = a * e.num("light_speed") * 2 * np.pi / (e.num("ds_x") * d["ax"][0]["lat"])
        w = nodes_view(d, a)[: n[0], : n[1], : n[2]]
        e.write(name, w)
        view[name] = nodes_view(d, e.read(name))
    return view


def monitors(e, d, c, r):
    """fields and materials in the engine; -> every monitored quantity over the nodes"""
    view = symmetric_cells(e, r, d, c["back"], c["drude"])
    eo, uo = e.num("eo"), e.num("uo")
    f, im = {}, {}
    for g, s in (("E", 1.0), ("H", np.sqrt(eo / uo)), ("J", 1.0)):
        for x in AX:
            comp = ("E" if g == "J" else g) + x
            for part, out in (("", f), ("i", im)) if d["bloch"] else (("", f),):
                a = s * r.normal(size=d["keep"])
                w = nodes_view(d, a, comp)[: d["keep"][0], : d["keep"][1], : d["keep"][2]]
                for i, ax in enumerate(d["axes"]):  # odd components vanish on the mirror
                    if ax.kind == "mirror" and not half(comp, i) and sign(comp, i, ax.parity) < 0:
                        w[tuple(slice(None) if b != i else ax.n for b in range(3))] = 0
                e.write(part + g + x, w)
                out[g + x] = mean_at_nodes(nodes_view(d, e.read(part + g + x), comp), comp)
    eps = sum((view["E" + x] + np.roll(view["E" + x], 1, i)) / 6 for i, x in enumerate(AX))
    W = e.num("global_W") * 2 * np.pi * e.num("light_speed") / (e.num("ds_x") * d["ax"][0]["lat"])
    wp, g, me = view["momega"], view["mgamma"], view["mepsilon"]
    kin = wp**2 * (W**2 - g**2) / (W**2 + g**2) ** 2
    em = me - 0.5 * wp**2 / (W**2 + g**2) + 0.5 * kin
    return f, im, dict(eps=eps, me=me, em=em, kin=kin, eo=eo, uo=uo, momega=wp, mgamma=g)


def quantities(f, m):
    E2 = sum(f["E" + x] ** 2 for x in AX)
    H2 = sum(f["H" + x] ** 2 for x in AX)
    q = dict(f)
    q["E^2"], q["H^2"] = E2, H2
    q["J.E"] = sum(f["E" + x] * f["J" + x] for x in AX)
    for i, x in enumerate(AX):
        y, z = AX[(i + 1) % 3], AX[(i + 2) % 3]
        q["S" + x] = f["E" + y] * f["H" + z] - f["E" + z] * f["H" + y]
        for g in "EH":
            q[f"{g}{x}2{g}{y}2"] = f[g + x] ** 2 + f[g + y] ** 2
    metal = m["me"] != 0
    el = lambda a, b: 0.5 * m["eo"] * np.where(metal, a, b) * E2  # noqa
    mag = 0.5 * m["uo"] * H2
    q["E_Energy"], q["EM_Energy"] = el(m["em"], m["eps"]), el(m["em"], m["eps"]) + mag
    q["E_Energy2"], q["EM_Energy2"] = el(m["kin"], 0), np.where(metal, el(m["kin"], 0) + mag, 0)
    q["E_Energy3"], q["EM_Energy3"] = el(m["me"], 0), np.where(metal, el(m["me"], 0) + mag, 0)
    return q


def size_of(x, ref):
    return max(float(np.abs(ref).max()), 1e-30)


def table(name):
    return np.array([[float(x) for x in line.split()] for line in open(name)])


_MON = dict(_CFG, drude=st.booleans(), W=fl(0.1, 2, 2), t=st.integers(0, 99999), at=st.lists(fl(0, 0.999, 3), min_size=6, max_size=6), comp=st.integers(0, 999), reps=st.lists(st.integers(1, 3), min_size=2, max_size=2), times=st.integers(1, 4))


@law("C32", st.fixed_dictionaries(_MON), quick=250, cost=0.05,
     rule="random fields and materials, also free-carrier cells, on whole, mirror-reduced and periodic uneven and refined grids: every monitored quantity (fields at nodes, energies, Poynting vector, logarithms, pairs) at every node, and planes, points, repeated cells and permittivity maps written to files, against averages of the staggered samples over the unfolded domain; every case is non-trivial")
def monitored(c):
    def job(e):
        c["tri"] = False
        if c["comp"] % 3 == 1:  # a domain halved by a mirror and repeated with a phase
            a = c["comp"] // 3 % 2
            c["ax"] = [dict(x) for x in c["ax"]]
            c["ax"][a]["kind"], c["ax"][1 - a]["kind"] = "torus", "mirror"
            c["ax"][a]["turn"] = c["ax"][a]["turn"] or 0.3
            c["reps"] = [max(x, 2) for x in c["reps"]]
        d = setup(e, c)
        r = rng(c)
        e.real_space_param(400.0, c["W"])
        f, im, m = monitors(e, d, c, r)
        q = quantities(f, m)
        N = [a["n"] for a in d["ax"]]
        top = [N[i] if d["ax"][i]["kind"] == "torus" else N[i] - 1 for i in range(3)]
        names = sorted(q)
        inner = tuple(slice(1, t + 1) for t in top)
        pts = [tuple(int(1 + r.integers(t)) for t in top) for _ in range(12)]
        for x in names:
            s = size_of(x, q[x][inner])
            for p in pts:
                got = e.grid_value(x, *p)
                close(got / s, q[x][p] / s, f"{x} at node {p}", 2e-5, 0)
                if x in ("E^2", "H^2") or "2E" in x or "2H" in x:
                    if q[x][p] > 1e-3 * s:
                        close(e.grid_value("Log" + x, *p), np.log10(q[x][p]), f"Log{x} at node {p}", 2e-5, 1e-4)
        # files
        x = names[c["comp"] % len(names)]
        s = size_of(x, q[x][inner])
        e.num("t", "l", c["t"])
        lat = [a["lat"] for a in d["ax"]]
        half_ = [e.num(v) for v in ("xcenter", "ycenter", "zcenter")]
        node = [1 + int(c["at"][i] * top[i]) for i in range(3)]
        zk = grid_nodes(e.num("zsize") * lat[2], lat[2], [(a - d["z0"], b - d["z0"], mm) for a, b, mm in d["grid"]])

        def place(i, k, off):
            if i == 2:
                return float(np.interp(min(max(k + off, 0), zk[-1][1]), [p[1] for p in zk], [p[0] for p in zk])) - half_[2]
            return (k + off) / lat[i] - half_[i]

        dz = e.line("ds_nz", N[2] if d["ax"][2]["kind"] != "mirror" else N[2])
        reps = [int(dz[k] + 1e-4) for k in range(N[2])]
        for ip, pl in enumerate(AX):
            x = names[(c["comp"] + 11 * ip) % len(names)]
            s = size_of(x, q[x][inner])
            val = place(ip, node[ip], 0.8 * c["at"][3 + ip] - 0.4)

            def sheet(a):
                a = np.take(a, node[ip], ip)
                if pl == "z":  # rows: y from the top
                    return a[1 : top[0] + 1, 1 : top[1] + 1].T[::-1]
                a = a[1 : top[1 - ip] + 1]
                rows = [k for k in range(top[2], 0, -1) for _ in range(reps[k])]
                return a[:, rows].T

            e.out_plane(x, pl, val, ".o" + pl)
            close(table(f"{c['t']:07d}.o{pl}") / s, sheet(q[x]) / s, f"plane {pl} of {x}", 2e-5, 0)
            e.out_epsilon(pl, val, "eps.txt")
            close(table("eps.txt"), sheet(np.where(m["me"] == 0, m["eps"], m["me"])), f"permittivity map on a plane {pl}", 2e-5, 0)
            # repeated cells: every copy carries its Bloch phase
            if d["bloch"]:
                k = [d["ax"][i]["turn"] if d["ax"][i]["kind"] == "torus" and d["bloch"] else 0.0 for i in range(2)]
                mh, mv = c["reps"]
                made = {}
                more = [names[int(v)] for v in r.permutation(len(names))[:6]]
                for x in list(dict.fromkeys([x] + [n_ for n_ in sorted(f) if n_ in q] + more)):
                    s = size_of(x, q[x][inner])
                    e.out_plane_periodic(x, pl, val, ".p", mh, mv)
                    got = table(f"{c['t']:07d}.p")

                    def copy(h, v):
                        ph = 2 * np.pi * dict(x=h * k[1], y=h * k[0], z=h * k[0] + v * k[1])[pl]
                        if ph not in made:
                            made[ph] = quantities({n_: f[n_] * np.cos(ph) - im[n_] * np.sin(ph) for n_ in f}, m)
                        return sheet(made[ph][x])

                    rows = np.vstack([np.hstack([copy(h, v)[:, : sheet(q[x]).shape[1]] for h in range(mh)]) for v in range(mv if pl == "z" else 1)])
                    # the last node of a cell may be left out, since it is the first of the next
                    w = sheet(q[x]).shape
                    keepc = [i for i in range(rows.shape[1]) if got.shape[1] == rows.shape[1] or i % w[1] < w[1] - 1]
                    keepr = [i for i in range(rows.shape[0]) if got.shape[0] == rows.shape[0] or i % w[0] > 0]
                    close(got / s, rows[np.ix_(keepr, keepc)] / s, f"repeated plane {pl} of {x}", 2e-5, 0)
        # grid of points across the domain
        nx, ny = c["reps"]
        xs, ys = [c["at"][4 + i] * (N[i] - 3) / lat[i] for i in (0, 1)]
        ii = [(-0.5 * xs + a * xs / nx + half_[0]) * lat[0] for a in range(nx + 1)]
        jj = [(-0.5 * ys + a * ys / ny + half_[1]) * lat[1] for a in range(ny + 1)]
        ok = all(abs(v - np.floor(v) - 0.5) > 1e-3 for v in ii + jj) and min(ii + jj) > 0.5
        if ok and max(ii) < top[0] + 0.5 and max(jj) < top[1] + 0.5:
            for off, n_ in ((-1, 0), (0, 1), (1, 0)):
                e.num("t", "l", c["t"] - off)
                e.out_several_points(x, place(2, node[2], 0.3), xs, ys, nx, ny, c["t"], c["t"] + 1, f"s{off}.txt")
                expect(os.path.exists(f"s{off}.txt") == bool(n_), "points written outside their time window")
            close(table("s0.txt")[0] / s, np.array([q[x][int(a + 0.5), int(b + 0.5), node[2]] for a in ii for b in jj]) / s, f"several points of {x}", 2e-5, 0)
            e.num("t", "l", c["t"])
        # history at a point: starts afresh, one line per time in the window
        ti = c["t"]
        open("h.txt", "w").write("7 7\n")
        want = []
        for k in range(-1, c["times"] + 1):
            if k >= 0:
                g = {n_: e.read(n_) * 0.7 for n_ in [a + b for a in "EHJ" for b in AX]}
                for n_, v in g.items():
                    e.write(n_, v)
                f = {n_: v * 0.7 for n_, v in f.items()}
                q = quantities(f, m)
            e.num("t", "l", ti + k)
            if 0 <= k < c["times"]:
                want.append(q[x][tuple(node)])
            off = 0.4 - 0.8 * c["at"][3]
            e.out_point(x, place(0, node[0], off), place(1, node[1], -off), place(2, node[2], off), ti, ti + c["times"], "h.txt")
        close(table("h.txt")[:, 0] / s, np.array(want) / s, f"history of {x}", 2e-5, 0)
        T = c["S"] * e.num("ds_x") * lat[0] / c["W"]
        expect(abs(e.get_period_in_update(c["W"]) - T) <= 1 + 1 / c["W"], "period in time steps")
        return ",".join(a.kind for a in d["axes"])

    return fdtd.run(job)


_SUM = dict(_CFG, drude=st.booleans(), W=fl(0.1, 2, 2), t=st.integers(0, 99999), lo=st.lists(fl(0, 0.999, 3), min_size=3, max_size=3), hi=st.lists(fl(0, 0.999, 3), min_size=3, max_size=3), calls=st.integers(1, 3), theta=fl(0, 3.14, 2), phi=fl(0, 6.28, 2), R=fl(0, 1, 2))


@law("C32", st.fixed_dictionaries(_SUM), quick=250, cost=0.05,
     rule="random fields and materials on whole and mirror-reduced uneven and refined grids with absorbing layers: energies, free-carrier loss, largest energy density and its place, and fluxes through the domain, a block, its sides and its upper and lower parts, accumulated over 1-3 calls, and the directional flux on a sphere, against weighted sums over the nodes; every case is non-trivial")
def integrals(c):
    def job(e):
        c["tri"] = False
        for a in c["ax"]:
            if a["kind"] == "torus":
                a["kind"] = "wall"
            a["pl"], a["pr"] = max(1, a["pl"]), max(1, a["pr"])
            if a["kind"] == "mirror":
                a["pr"] = a["pl"]
            a["lat"] = 5 * (1 + (a["lat"] > 4))  # a fifth of the unit, the distance kept from the layers, is a whole number of cells
            a["n"] += 2 * (a["lat"] // 5) + 3
        d = setup(e, c)
        r = rng(c)
        e.real_space_param(400.0, c["W"])
        N = [a["n"] for a in d["ax"]]
        lat = [a["lat"] for a in d["ax"]]
        dz = e.line("ds_nz", N[2])
        w = [e.num("ds_x"), e.num("ds_y"), dz]
        half_ = [e.num(v) for v in ("xcenter", "ycenter", "zcenter")]
        zk = grid_nodes(e.num("zsize") * lat[2], lat[2], [(a - d["z0"], b - d["z0"], mm) for a, b, mm in d["grid"]])

        def place(i, k):
            if i == 2:
                return float(np.interp(min(max(k, 0), zk[-1][1]), [p[1] for p in zk], [p[0] for p in zk])) - half_[2]
            return k / lat[i] - half_[i]

        gap = [0.2 * x for x in lat]
        first = [int(1 + d["ax"][i]["pl"] + gap[i] + 1e-9) for i in range(3)]
        left = [int(d["ax"][i]["pl"] + gap[i] + 1e-9) for i in range(3)]
        last = [int(np.floor(N[i] - 2 - d["ax"][i]["pr"] - gap[i] + 1e-9)) for i in range(3)]
        if any(last[i] < first[i] for i in range(3)):
            raise Trivial
        # a block between nodes; its faces lie a quarter of a cell above them, where rounding and truncation agree
        lo = [1 + int(c["lo"][i] * (N[i] - 2)) for i in range(3)]
        hi = [lo[i] + int(c["hi"][i] * (N[i] - 1 - lo[i])) for i in range(3)]
        ends = [(place(i, lo[i] + 0.25), place(i, hi[i] + 0.25)) for i in range(3)]
        block = [(a + b) / 2 for a, b in ends] + [b - a for a, b in ends]
        for i in (0, 1):  # the same numbers in single precision must still be a quarter of a cell away
            for s_ in (-1, 1):
                v = (np.float32(block[i]) + half_[i] + s_ * 0.5 * np.float32(block[3 + i])) * lat[i]
                if abs(v - np.floor(v) - 0.25) > 0.1:
                    raise Trivial

        def vol(a, l, h, weight=True):
            sl = tuple(slice(x, y + 1) for x, y in zip(l, h))
            v = a[sl] * (w[0] * w[1] * dz[l[2] : h[2] + 1] if weight else 1)
            return v.sum(), np.abs(v).sum()

        def face(a, i, k, l, h):
            v = np.take(a, k, i)
            o = [b for b in range(3) if b != i]
            v = v[l[o[0]] : h[o[0]] + 1, l[o[1]] : h[o[1]] + 1]
            wt = [w[b] if b < 2 else dz[l[2] : h[2] + 1] for b in o]
            v = v * (wt[0] * wt[1])
            return v.sum(), np.abs(v).sum() + 1e-30

        acc = {k: np.zeros(2) for k in ("Sumx", "Sumy", "Sumz", "SideSumx", "SideSumy", "SumUpper", "SumLower")}
        val = [place(2, k + 0.2) for k in (lo[2], hi[2])]
        mid, reach = (val[0] + val[1]) / 2, (val[1] - val[0]) / 2
        files = {}
        for call in range(c["calls"]):
            t = c["t"] + call
            e.num("t", "l", t)
            f, im, m = monitors(e, d, c, r)
            q = quantities(f, m)
            for fn, file, x in (("total_E_energy", "total_eEE.en", "E_Energy"), ("total_EM_energy", "total_eEE_uHH.en", "EM_Energy"), ("total_E2", "total_EE.en", "E^2")):
                getattr(e, fn)()
                files.setdefault(file, []).append((t,) + vol(q[x], first, last))
            for fn, file, x in (("total_E_energy_block", "total_eEE_b.en", "E_Energy"), ("total_E_energy2_block", "total_eEE2_b.en", "E_Energy2"), ("total_E_energy3_block", "total_eEE3_b.en", "E_Energy3"),
                                ("total_EM_energy_block", "total_eEE_uHH_b.en", "EM_Energy"), ("Drude_energy_loss_in_block", "Drude_E_loss.en", "J.E")):
                getattr(e, fn)(*block)
                files.setdefault(file, []).append((t,) + vol(q[x], lo, hi))
            e.max_E_Energy_detector(*block)
            sub = q["E_Energy"][tuple(slice(a, b + 1) for a, b in zip(lo, hi))]
            got = table("max_detect.dat")[-1]
            expect(len(table("max_detect.dat")) == call + 1 and got[0] == t, "largest energy density: one line per call")
            if sub.max() > 0:
                close(got[4] / sub.max(), 1.0, "largest energy density", 3e-5, 0)
                close(q["E_Energy"][tuple(int(v) for v in got[1:4])] / sub.max(), 1.0, "energy density at the reported place", 3e-5, 0)
                expect(all(lo[i] <= got[1 + i] <= hi[i] for i in range(3)), "the reported place lies outside the block")
            # fluxes: outward through the right minus inward through the left face
            e.Poynting_total()
            e.Poynting_block(*block)
            for i, x in enumerate(AX):
                for l, h, fl_, fr in ((first, last, left[i], last[i]), (lo, hi, lo[i], hi[i])):
                    a, b = face(q["S" + x], i, fr, l, h), face(q["S" + x], i, fl_, l, h)
                    acc["Sum" + x] += [a[0] - b[0], a[1] + b[1]]
            e.Poynting_side(reach, mid)
            l, h = first[:2] + [lo[2]], last[:2] + [hi[2]]
            for i, x in enumerate("xy"):
                a, b = face(q["S" + x], i, last[i], l, h), face(q["S" + x], i, left[i], l, h)
                acc["SideSum" + x] += [a[0] - b[0], a[1] + b[1]]
            e.Poynting_UpDown(reach, mid)
            for name, sgn, k, l3, h3 in (("SumUpper", 1, last[2], hi[2], last[2]), ("SumLower", -1, left[2], first[2], lo[2])):
                a = face(q["Sz"], 2, k, first, last)
                acc[name] += [sgn * a[0], a[1]]
                l, h = first[:2] + [l3], last[:2] + [h3]
                if h3 >= l3:
                    for i, x in enumerate("xy"):
                        a, b = face(q["S" + x], i, last[i], l, h), face(q["S" + x], i, left[i], l, h)
                        acc[name] += [a[0] - b[0], a[1] + b[1]]
        for file, rows in files.items():
            got = table(file)
            expect(got.shape == (c["calls"], 2) and list(got[:, 0]) == [x[0] for x in rows], f"{file}: one line per call")
            for g, (t, v, s) in zip(got, rows):
                close(g[1] / max(s, 1e-30), v / max(s, 1e-30), file, 3e-5, 1e-5)
        for k, (v, s) in acc.items():
            s = max(s, 1e-2 * max(x[1] for x in acc.values()))
            close(e.num(k) / s, v / s, "accumulated flux " + k, 3e-5, 1e-5)
        e.print_energy()
        text = open("VQSQ.en").read().replace("\t", " ").replace("\n", " ")
        got = dict(p.split("=") for p in text.split() if "=" in p)
        tot = sum(acc["Sum" + x] for x in AX)
        side = acc["SideSumx"] + acc["SideSumy"]
        big = tot[1] + side[1]
        for k, (v, s) in list(acc.items()) + [("HorizontalLoss", side), ("VerticalLoss", tot - side)]:
            close(float(got[k]) / big, v / big, "reported " + k, 3e-5, 1e-5)
        # direction on a sphere about the axis
        R = c["R"] * min((N[i] / 2 - 2) / lat[i] for i in range(2))
        z0 = place(2, (1 + N[2]) / 2)
        x = np.array([np.sin(c["theta"]) * np.cos(c["phi"]), np.sin(c["theta"]) * np.sin(c["phi"]), np.cos(c["theta"])])
        p = [(R * x[i] + half_[i]) * lat[i] for i in range(2)] + [z_to_k(zk, R * x[2] + z0 + half_[2])]
        if all(abs(v - np.floor(v) - 0.5) > 1e-3 for v in p) and all(1 <= int(v + 0.5) <= N[i] - 1 for i, v in enumerate(p)):
            k = tuple(int(v + 0.5) for v in p)
            S = np.array([q["S" + a][k] for a in AX]) * [w[1] * dz[k[2]], dz[k[2]] * w[0], w[0] * w[1]]
            ct, st_, cp, sp = np.cos(c["theta"]), np.sin(c["theta"]), np.cos(c["phi"]), np.sin(c["phi"])
            for name, u in (("r", x), ("theta", [ct * cp, ct * sp, -st_]), ("phi", [-sp, cp, 0])):
                s = max(np.abs(S).sum(), max(np.abs(q["S" + a][2:-2, 2:-2, 2:-2]).max() for a in AX) * min(w[1] * dz[k[2]], w[0] * dz[k[2]], w[0] * w[1]))
                close(e.Poynting_half_sphere_point(name, z0, R, c["theta"], c["phi"]) / s, float(S @ np.array(u)) / s, f"flux along {name} on the sphere", 3e-5, 1e-5)
        return ",".join(a.kind for a in d["axes"])

    return fdtd.run(job)


_AVG = dict(_CFG, drude=st.booleans(), W=fl(0.1, 2, 2), t=st.integers(0, 99999), n_=st.integers(1, 3), at=st.lists(fl(0, 0.999, 3), min_size=6, max_size=6), comp=st.integers(0, 999), band=st.lists(fl(1, 9, 2), min_size=2, max_size=2), thick=fl(0.01, 0.4, 2),
            lo=st.lists(fl(0, 0.999, 3), min_size=3, max_size=3), hi=st.lists(fl(0, 0.999, 3), min_size=3, max_size=3), shift=st.integers(0, 2), reps=st.lists(st.integers(1, 2), min_size=2, max_size=2))


@law("C32", st.fixed_dictionaries(_AVG), quick=160, cost=0.06,
     rule="random fields over 1-3 times and materials on whole, mirror-reduced and periodic uneven and refined grids: planes averaged over time, on planes and on the topmost surface of the structure, energies of thin layers selected by permittivity, loss of free carriers at a given frequency, repeated permittivity maps; every case is non-trivial")
def averages(c):
    def job(e):
        c["tri"] = False
        d = setup(e, c)
        r = rng(c)
        e.real_space_param(400.0, c["W"])
        N = [a["n"] for a in d["ax"]]
        top = [N[i] if d["ax"][i]["kind"] == "torus" else N[i] - 1 for i in range(3)]
        lat = [a["lat"] for a in d["ax"]]
        half_ = [e.num(v) for v in ("xcenter", "ycenter", "zcenter")]
        zk = grid_nodes(e.num("zsize") * lat[2], lat[2], [(a - d["z0"], b - d["z0"], mm) for a, b, mm in d["grid"]])

        def place(i, k, off=0.0):
            if i == 2:
                return float(np.interp(min(max(k + off, 0), zk[-1][1]), [p[1] for p in zk], [p[0] for p in zk])) - half_[2]
            return (k + off) / lat[i] - half_[i]

        dz = e.line("ds_nz", N[2])
        reps = [int(dz[k] + 1e-4) for k in range(N[2])]
        node = [1 + int(c["at"][i] * top[i]) for i in range(3)]
        val = [place(i, node[i], 0.8 * c["at"][3 + i] - 0.4) for i in range(3)]

        def sheet(a, ip, cut=False):
            a = np.take(a, node[ip], ip)
            far = [N[i] - 1 if cut else top[i] for i in range(3)]
            if ip == 2:
                return a[1 : far[0] + 1, 1 : far[1] + 1].T[::-1]
            a = a[1 : far[1 - ip] + 1]
            return a[:, [k for k in range(top[2], 0, -1) for _ in range(reps[k])]].T

        start, end = c["t"], c["t"] + c["n_"]
        hold = [fdtd.ct.c_void_p() for _ in range(4)]
        names = None
        total = {}
        for t in range(start, end + 1):
            e.num("t", "l", t)
            f, im, m = monitors(e, d, dict(c), rng(c)) if t == start else (f, im, m)
            if t > start:
                for n_ in [a + b for a in "EHJ" for b in AX]:
                    v = float(r.normal())
                    for pre, store in (("", f), ("i", im)) if d["bloch"] else (("", f),):
                        e.write(pre + n_, e.read(pre + n_) * v)
                        store[n_] = store[n_] * v
            q = quantities(f, m)
            names = names or sorted(q)
            if t == start:
                # the topmost node at which the structure differs from its top layer
                sol = np.where(m["me"] != 0, -1, m["eps"])
                surf = np.zeros((N[0] + 1, N[1] + 1), int)
                sure = True
                for i in range(1, top[0] + 1):
                    for j in range(1, top[1] + 1):
                        for k in range(top[2] - 1, 0, -1):
                            jump = abs(m["eps"][i, j, k] - m["eps"][i, j, top[2]])
                            sure &= bool(m["me"][i, j, k] != 0 or abs(jump - 0.1) > 1e-4)
                            if m["me"][i, j, k] != 0 or jump > 0.1:
                                surf[i, j] = k - 1
                                break
                fit = sure and 1 <= (surf[1 : top[0] + 1, 1 : top[1] + 1] + c["shift"]).min() and (surf + c["shift"]).max() <= top[2]
            I, J = np.meshgrid(np.arange(1, top[0] + 1), np.arange(1, top[1] + 1), indexing="ij")
            on = lambda a, s_: a[I, J, surf[1 : top[0] + 1, 1 : top[1] + 1] + s_].T[::-1]  # noqa
            for ip, pl in enumerate(AX):
                x = names[(c["comp"] + 11 * ip) % len(names)]
                e.out_plane_time_average(x, pl, val[ip], start, end, fdtd.ct.byref(hold[ip]), ".a" + pl)
                if t > start:
                    total[pl] = total.get(pl, 0) + sheet(q[x], ip)
            x = names[c["comp"] % len(names)]
            if fit:
                e.out_plane_time_average_projection(x, "+z", start, end, fdtd.ct.byref(hold[3]), ".ap", c["shift"])
                if t > start:
                    total["p"] = total.get("p", 0) + on(q[x], c["shift"])
                e.out_plane_projection(x, "+z", ".pr", c["shift"])
                s = size_of(x, q[x])
                close(table(f"{t:07d}.pr") / s, on(q[x], c["shift"]) / s, f"{x} on the topmost surface", 2e-5, 0)
                if surf[1 : top[0] + 1, 1 : top[1] + 1].min() >= 1:
                    e.out_epsilon_projection("+z", "ep.txt")
                    close(table("ep.txt"), on(np.where(m["me"] == 0, m["eps"], m["me"]), 0), "permittivity on the topmost surface", 2e-5, 0)
        for pl, v in total.items():
            ref = v / c["n_"]
            got = table(f"{start:07d}.a{pl}")
            s = size_of(x, ref)
            close(got / s, ref / s, f"average over time on plane {pl}", 5e-5, 2e-5)
        # energy of a thin layer where the permittivity lies in a band
        lo = [1 + int(c["lo"][i] * (N[i] - 2)) for i in range(3)]
        hi = [lo[i] + int(c["hi"][i] * (N[i] - 1 - lo[i])) for i in range(3)]
        ends = [(place(i, lo[i] + 0.25), place(i, hi[i] + 0.25)) for i in range(3)]
        block = [(a + b) / 2 for a, b in ends] + [b - a for a, b in ends]
        good = True
        for i in (0, 1):
            for s_ in (-1, 1):
                v = (np.float32(block[i]) + half_[i] + s_ * 0.5 * np.float32(block[3 + i])) * lat[i]
                good &= abs(v - np.floor(v) - 0.25) < 0.1
        if not good:
            return "no block"
        sl = tuple(slice(a, b + 1) for a, b in zip(lo, hi))
        band = sorted(c["band"])
        kn, kp = lo[2], hi[2]
        edges = np.concatenate([m["eps"][sl[0], sl[1], k].ravel() for k in (kn, kp)])
        if min(np.abs(edges - b).min() for b in band) > 1e-4:
            layer = 0
            for k in (kn, kp):
                layer = layer + q["E_Energy"][sl[0], sl[1], k]
            inband = np.all([(m["eps"][sl[0], sl[1], k] >= band[0]) & (m["eps"][sl[0], sl[1], k] <= band[1]) for k in (kn, kp)], 0)
            u = 0.5 * e.num("ds_x") * e.num("ds_y") * block[5] * e.num("ds_x") * lat[0]
            e.total_E_energy_thin_block_z(*block, *band, "thin.en")
            s = max(u * np.abs(layer).sum(), 1e-30)
            got = table("thin.en")
            expect(got.shape == (1, 2) and got[0, 0] == end, "energy of a thin layer: one line per call")
            close(got[0, 1] / s, u * layer[inband].sum() / s, "energy of a thin layer", 5e-5, 2e-5)
        if all(a.kind != "mirror" for a in d["axes"]):  # the loss reads the material arrays of the kept part only
            ln = 400.0
            w_ = c["W"] * 2 * np.pi * e.num("light_speed") / (e.num("ds_x") * lat[0])
            imag = m["momega"][sl] ** 2 * m["mgamma"][sl] / (w_**3 + w_ * m["mgamma"][sl] ** 2)
            dv = e.num("ds_x") * e.num("ds_y") * dz[lo[2] : hi[2] + 1]
            ref = (2 * w_ * e.num("eo") * imag * dv * q["E^2"][sl]).sum()
            e.Drude_energy_loss_in_block2(*block, c["W"], ln)
            got = table("Drude_E_loss.en")
            if ref > 0:
                close(got[0, 1] / ref, 1.0, "loss of free carriers at a frequency", 3e-5, 0)
            else:
                close(got[0, 1], 0.0, "loss without free carriers", 0, 0)
        # repeated permittivity maps: whole copies side by side
        mh, mv = c["reps"]
        for ip, pl in enumerate(AX):
            e.out_epsilon_periodic(pl, val[ip], "rep.txt", mh, mv)
            got = table("rep.txt")
            one = sheet(np.where(m["me"] == 0, m["eps"], m["me"]), ip)
            rows, cols = got.shape[0] // mv, got.shape[1] // mh
            expect(got.shape == (rows * mv, cols * mh) and 0 <= one.shape[0] - rows <= 1 and 0 <= one.shape[1] - cols <= 1, "size of a repeated map")
            one = one[one.shape[0] - rows :, :cols]  # the last node of a cell may be left out
            close(got, np.tile(one, (mv, mh)), f"repeated permittivity map on a plane {pl}", 2e-5, 0)
        return "projected" if fit else "plain"

    return fdtd.run(job)
