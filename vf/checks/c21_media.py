"""C21: hyperbolic media; C22: spins; C23: classical and quantum propagation in time"""
import os

import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf.core import Trivial, attr, close, expect, get, law, rng
from vf.oracle import lower
from vf.rig import build_mol, cplx, fl, geometry, quiet_call, seeds, sym

# ------------------------------------------------------------------- C21
_HY = st.fixed_dictionaries(dict(nc=st.integers(1, 4), nw=st.integers(0, 9), eta=st.one_of(st.just(0.0), fl(0.001, 1.0, 3)), src=st.sampled_from(["freq", "density", "scalar"]),
                                 inter=st.integers(0, 3).map(lambda i: "array" if i else "none"), smass=st.booleans(), ddef=st.booleans(), seed=seeds))
EPS0, E_SI, ME, HBAR_EV = 8.8541878188e-12, 1.602176634e-19, 9.1093837139e-31, 6.582119569e-16


@law("C21", _HY, quick=400, cost=0.001,
     rule="1-4 axes, 0-9 frequencies, plasmon frequencies given, given as a scalar or derived from density and effective masses, with or without interband transitions, default or explicit (also zero) damping: conductivity against the stated formula evaluated separately per axis and frequency, independence of axes and frequencies, linearity in the strengths, non-negative dissipation; non-trivial when at least one frequency lies above and one below an interband transition")
def conductivity(c):
    H = get("openms.maxwell.hyperbolic:hyperbolicBase")
    r = rng(c)
    nc = 1 if c["src"] == "scalar" else c["nc"]
    wj, sj = 0.1 + 2 * r.random(nc), 5 * r.random(nc)
    w = 0.05 + 3 * r.random(c["nw"])
    kw = dict(interband_freqs=wj.copy(), interband_strengths=sj.copy()) if c["inter"] == "array" else {}
    eta = 0.1 if c["ddef"] else c["eta"]
    if not c["ddef"]:
        kw["damping"] = eta
    if c["src"] == "density":
        n = 10.0 ** r.uniform(-2, 2)
        m = float(0.1 + r.random()) if c["smass"] else 0.1 + r.random(nc)
        if c["smass"]:
            nc, wj, sj = 1, wj[:1], sj[:1]
            if kw.get("interband_freqs") is not None:
                kw.update(interband_freqs=wj.copy(), interband_strengths=sj.copy())
        kw.update(density=n, mass=m)
        P = np.atleast_1d(HBAR_EV * np.sqrt(n * 1e27 * E_SI**2 / (EPS0 * m * ME)))
    else:
        P = 10 * r.random(nc)
        kw["plasmon_freqs"] = float(P[0]) if c["src"] == "scalar" else P.copy()

    def run(ww, **over):
        return quiet_call(H(**dict(kw, **over)).get_conductivity, ww)

    w0 = w.copy()
    o = quiet_call(H, **kw)
    close(np.atleast_1d(o.plasmon_freqs), P, "plasmon frequencies", 1e-9, 1e-12)
    got = quiet_call(o.get_conductivity, w)
    close(w, w0, "caller's frequencies")

    def one(x, j):
        v = 1j * P[j] / (x + 1j * eta)
        if c["inter"] == "array":
            v += sj[j] * ((1.0 if x > wj[j] else 0.0) + 1j / np.pi * np.log(abs((x - wj[j]) / (x + wj[j]))))
        return v

    ref = np.array([[one(x, j) for j in range(nc)] for x in w]).reshape(len(w), nc)
    close(got, ref, "conductivity", 1e-10, 1e-10)
    expect(np.all(got.real >= -1e-12), "negative dissipation")
    close(quiet_call(o.get_conductivity, w[::-1]), got[::-1], "order of the frequencies", 1e-12)
    close(quiet_call(o.get_conductivity, list(w)), got, "repeated evaluation", 1e-12)
    if c["inter"] == "array":
        z = run(w, interband_strengths=0 * sj)
        close(run(w, interband_strengths=2.5 * sj) - z, 2.5 * (got - z), "linearity in the interband strengths", 1e-10)
        close(o.interband_freqs, wj, "caller's interband frequencies")
    if c["inter"] == "none" or not len(w) or not ((w[:, None] > wj).any() and (w[:, None] < wj).any()):
        raise Trivial


# ------------------------------------------------------------------- C22
def spin_ops(s):
    d = int(round(2 * s + 1))
    m = s - np.arange(d)
    p = np.zeros((d, d))
    for k in range(d - 1):
        p[k, k + 1] = np.sqrt(s * (s + 1) - m[k + 1] * (m[k + 1] + 1))
    return (p + p.T) / 2, (p - p.T) / 2j, np.diag(m)


_SP = st.fixed_dictionaries(dict(D=fl(-5000, 5000, 1), E=fl(-800, 800, 1), twoS=st.integers(1, 8), dform=st.sampled_from(["scalar", "array", "tensor"]),
                                 gform=st.sampled_from(["default", "scalar", "one", "diag", "iso", "aniso", "list"]), seed=seeds))


@law("C22", _SP, quick=400, cost=0.001,
     rule="spins 1/2 to 4 with scalar or tensor zero-field splitting and g-factors as scalar, vector, isotropic or anisotropic tensor: splitting tensor traceless with the stated D and E, levels of S.D.S, g-tensor, dimension, stored parameters, independence of two spins and of the caller's arrays; non-trivial: always")
def spin(c):
    S = "openms.spindy.spin:"
    r = rng(c)
    D, E, s = c["D"], c["E"], c["twoS"] / 2
    z = get(S + "zfs_tensor")
    if c["dform"] == "tensor":
        T = sym(r, 3, 3)
        close(z(T.copy()), T, "given splitting tensor")
        arg, kwE = T, {}
    else:
        arg = D if c["dform"] == "scalar" else np.array([D])[0:1].reshape(()) if r.integers(2) else np.array(D)
        T = z(arg, E)
        close(T, np.diag([-D / 3 + E, -D / 3 - E, 2 * D / 3]), "splitting tensor", 1e-12)
        close(np.trace(T), 0, "trace of the splitting tensor", 0, 1e-9)
        close(z(arg), np.diag([-D / 3, -D / 3, 2 * D / 3]), "axial splitting tensor", 1e-12)
        kwE = dict(E=E)
        X = spin_ops(s)
        H = sum(T[i, j] * X[i] @ X[j] for i in range(3) for j in range(3))
        ref = D * (X[2] @ X[2] - s * (s + 1) / 3 * np.eye(len(H))) + E * (X[0] @ X[0] - X[1] @ X[1])
        close(H, ref, "zero-field Hamiltonian", 1e-10, 1e-8)
    g0 = -2.00231930426256
    g = {"default": None, "scalar": float(r.standard_normal()), "one": r.standard_normal(1), "diag": r.standard_normal(3), "iso": float(r.standard_normal()) * np.eye(3),
         "aniso": sym(r, 3, 3), "list": [float(x) for x in r.standard_normal(3)]}[c["gform"]]
    kw = dict(kwE)
    if g is not None:
        kw["gfactor"] = g.copy() if isinstance(g, np.ndarray) else g
    A = get(S + "Spin")
    a = quiet_call(A, D=arg, spin=s, **kw)
    close(a._zfs, T, "splitting tensor of the spin", 1e-12)
    gm = g0 * np.eye(3) if g is None else np.asarray(g) if np.shape(g) == (3, 3) else np.eye(3) * g
    close(attr(a, "_gfactor"), gm, "g-tensor", 1e-12)
    expect(a.ndim == c["twoS"] + 1, f"dimension {a.ndim} of spin {s}")
    close(a.spin, s, "spin")
    if c["dform"] != "tensor":
        close(np.asarray(a.D, float), D, "stored splitting")
        close(np.asarray(a.E, float), E, "stored transverse splitting")
    close(a.coord, np.zeros(3), "default position")
    b = quiet_call(A)
    a.coord[int(r.integers(3))] += 1.5
    close(quiet_call(A).coord, np.zeros(3), "position of a new spin after moving another")
    close(b.coord, np.zeros(3), "position of an existing spin after moving another")
    x = r.standard_normal(3)
    close(quiet_call(A, coord=x).coord, x, "given position")
    # classification of g-factors
    chk = get(S + "check_gfactor")
    if c["gform"] in ("scalar", "one", "iso", "aniso"):
        v, iso = chk(kw["gfactor"])
        expect(bool(iso) == (c["gform"] != "aniso"), f"isotropy of a {c['gform']} g-factor")
        if iso:
            close(np.ravel(v), np.ravel(np.asarray(g))[:1], "isotropic g-factor")
        else:
            close(v, g, "anisotropic g-tensor")
    if c["gform"] == "aniso":
        d = np.diag([1.0, 1.0, 1.0 + r.random() + 0.01])
        expect(not chk(d)[1] and not chk(np.diag(np.diag(d)[[2, 0, 1]]))[1] and not chk(np.diag(np.diag(d)[[0, 2, 1]]))[1], "axial g-tensor taken for isotropic")
        k = np.stack([np.eye(3) * x for x in r.standard_normal(3)])
        v, iso = chk(k)
        expect(bool(iso), "stack of isotropic tensors")
        close(v, k[:, 0, 0], "isotropic g-factors of a stack")
        k[1, 0, 2] = 0.3
        expect(not chk(k)[1], "stack with one anisotropic tensor taken for isotropic")
    m = r.standard_normal((int(r.integers(1, 4)), 3))
    txt = "\n" + "\n".join("   ".join(repr(float(v)) for v in row) for row in m) + "\n  "
    close(get("openms.spindy.gtensorlibs:string_to_numpy_array")(txt), m, "tensor read from text")


# ------------------------------------------------------------------- C23
_RK = st.fixed_dictionaries(dict(n=st.integers(1, 5), kind=st.sampled_from(["poly", "linear", "generic", "scalar", "order"]), dt=fl(0.01, 0.8, 2), t0=fl(-3, 3, 1), seed=seeds))


@law("C23", _RK, quick=400, cost=0.001,
     rule="Runge-Kutta step on polynomials in time, linear real and complex systems, generic nonlinear time-dependent systems and scalars: exact where the method is exact, equal to the classical tableau otherwise, fifth-order local error, initial value left alone; non-trivial: always")
def rk4(c):
    f = get("openms.qmd.propagator:rk4")
    r = rng(c)
    n, t, h = c["n"], c["t0"], c["dt"]
    y = cplx(r, n)
    y0 = y.copy()
    k = c["kind"]
    if k == "poly":
        a = r.standard_normal((4, n))
        got = f(lambda s, v: sum(a[i] * s**i for i in range(4)), t, y, h)
        close(got, y + sum(a[i] * ((t + h) ** (i + 1) - t ** (i + 1)) / (i + 1) for i in range(4)), "cubic rates", 1e-11, 1e-11)
    elif k == "linear":
        A = cplx(r, n, n)
        got = f(lambda s, v: A @ v, t, y, h)
        ref, term = y.copy(), y.copy()
        for i in range(1, 5):
            term = h * A @ term / i
            ref = ref + term
        close(got, ref, "linear system", 1e-11)
    elif k == "order":
        # a Hermitian Hamiltonian varying in time; reference by many small exponential steps
        A, B = sym(r, n, n), sym(r, n, n)
        g = lambda s, v: -1j * ((A + np.sin(s) * B) @ v)
        from scipy.integrate import solve_ivp

        e = []
        for hh in (0.04, 0.02):
            s = solve_ivp(g, (t, t + hh), y, rtol=1e-12, atol=1e-14, method="DOP853")
            e.append(np.max(np.abs(f(g, t, y, hh) - s.y[:, -1])))
        expect(e[1] < e[0] / 20 + 1e-11, f"local errors {e} are not fifth order")
        got = None
    else:
        y, a, b = y.real, r.standard_normal(n), r.standard_normal(n)
        if k == "scalar":
            y = float(y[0])
            a, b = a[0], b[0]
        y0 = y if k == "scalar" else y.copy()
        g = lambda s, v: np.sin(a * v) * np.cos(b * s) + 0.3 * v
        k1 = g(t, y0)
        k2 = g(t + h / 2, y0 + h / 2 * k1)
        k3 = g(t + h / 2, y0 + h / 2 * k2)
        k4 = g(t + h, y0 + h * k3)
        got = f(g, t, y, h)
        close(got, y0 + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4), "nonlinear system", 1e-11)
    close(y, y0, "initial value")


class Quiet(dict):
    pass


def molecule(c, **kw):
    M = get("openms.lib.misc:Molecule")
    atoms, xyz, charge, spin = geometry(c)
    return quiet_call(M, atom=[(a, tuple(x)) for a, x in zip(atoms, xyz)], basis="sto-3g", charge=charge, spin=spin, verbose=0, **kw)


_MD = st.fixed_dictionaries(dict(mols=st.lists(st.sampled_from(["H2", "HeH+", "H3+", "LiH", "HF", "BH", "H4", "CH4", "C3H8", "NaCl", "H"]), min_size=1, max_size=3), ecp=st.sampled_from([None, None, None, "Na", "Zn", "Rb"]), gseed=st.integers(0, 999),
                                 steps=st.integers(1, 6), dt=fl(0.5, 20, 1), state=st.integers(0, 2), veloc=st.booleans(), seed=seeds))


@law("C23", _MD, quick=120, cost=0.02,
     rule="1-3 molecules in harmonic and coupled force fields, on a chosen electronic state: positions and velocities after several steps against velocity Verlet with independently tabulated masses, reversal of time, momentum under internal forces, kinetic energy, temperature and the final geometry file; non-trivial: always")
def dynamics(c):
    from pyscf.data import elements, nist

    r = rng(c)
    sts = c["state"] + 1
    mols, vs = [], []
    for i, m in enumerate(c["mols"]):
        kw = dict(nstates=sts)
        n = len(geometry(dict(mol=m))[0])
        v0 = 1e-3 * r.standard_normal((n, 3)) if c["veloc"] else np.zeros((n, 3))
        given = v0.copy()
        if c["veloc"]:
            kw["veloc"] = given
        mol = molecule(dict(mol=m, gseed=c["gseed"] + i), **kw)
        close(mol.veloc, v0, "initial velocities")
        if c["veloc"]:
            vs.append((given, v0))
        ms = np.array([elements.COMMON_ISOTOPE_MASSES[elements.charge(a)] for a in geometry(dict(mol=m))[0]]) * nist.AMU2AU
        close(mol.mass, ms, "masses", 1e-10)
        close(mol.coords, geometry(dict(mol=m, gseed=c["gseed"] + i))[1] / nist.BOHR, "positions", 1e-8)
        expect(mol.ndof == 3 * n and len(mol.states) == sts, "degrees of freedom or number of states")
        mols.append((mol, ms))
    md = quiet_call(get("openms.qmd.bomd:BaseMD"), [m for m, _ in mols], None, dt=c["dt"])
    # harmonic springs between all atoms of a molecule (no net force) for the chosen state, rubbish for the others
    x0 = [np.array(m.coords) for m, _ in mols]
    K = [0.1 * (0.2 + r.random((len(x), len(x)))) for x in x0]
    K = [k + k.T for k in K]

    def force(i, x):
        d = x[:, None] - x[None]
        d0 = x0[i][:, None] - x0[i][None]
        return -np.einsum("ab,abx->ax", K[i], d - 0.9 * d0)

    def setf():
        for i, (m, _) in enumerate(mols):
            for s in m.states:
                s.forces = 1e3 * r.standard_normal(np.shape(m.coords))
            m.states[c["state"]].forces = force(i, np.array(m.coords))

    xs, v = [x.copy() for x in x0], [np.array(m.veloc) for m, _ in mols]
    vstart = [a.copy() for a in v]
    h = c["dt"]

    def step():
        md.next_velocity_many_molecule(c["state"])
        md.next_position()
        setf()
        md.next_velocity_many_molecule(c["state"])

    setf()
    for k in range(c["steps"]):
        step()
        for i, (m, ms) in enumerate(mols):
            a = force(i, xs[i]) / ms[:, None]
            xn = xs[i] + h * v[i] + 0.5 * h * h * a
            v[i] = v[i] + 0.5 * h * (a + force(i, xn) / ms[:, None])
            xs[i] = xn
            close(m.coords, xs[i], f"positions after step {k+1}", 1e-10)
            close(m.veloc, v[i], f"velocities after step {k+1}", 1e-10, 1e-12)
            close(ms @ m.veloc, ms @ vstart[i], "total momentum", 1e-9, 1e-9)
    ek = 0.0
    for i, (m, ms) in enumerate(mols):
        m.get_ekin()
        e = 0.5 * np.sum(ms[:, None] * v[i] ** 2)
        close(m.ekin, e, "kinetic energy", 1e-10)
        ek += e
    T = quiet_call(attr(md, "temperature_many_molecule"))
    close(T, 2 * ek / sum(3 * len(x) for x in xs) * 3.15774646e5, "temperature", 1e-6, 1e-8)
    # geometry file of one molecule
    i = int(r.integers(len(mols)))
    one = quiet_call(get("openms.qmd.bomd:BaseMD"), mols[i][0], None)
    d = os.getcwd()
    quiet_call(one.write_final_xyz, d, 4)
    with open(os.path.join(d, "FINAL.xyz")) as f:
        L = f.read().splitlines()
    os.remove(os.path.join(d, "FINAL.xyz"))
    expect(int(L[0]) == len(xs[i]) and len(L) == 2 + len(xs[i]), "lines of the geometry file")
    rows = [l.split() for l in L[2:]]
    expect([q[0] for q in rows] == list(geometry(dict(mol=c["mols"][i]))[0]), "atoms of the geometry file")
    num = np.array([[float(t) for t in q[1:]] for q in rows])
    close(num[:, :3], xs[i] * 0.529177249, "positions of the geometry file", 1e-7, 2e-8)
    close(num[:, 3:], v[i], "velocities of the geometry file", 0, 6e-9)
    # reversal of time
    for m, _ in mols:
        m.veloc *= -1
    for k in range(c["steps"]):
        step()
    for i, (m, _) in enumerate(mols):
        close(m.coords, x0[i], "positions after reversing time", 1e-8, 1e-8)
        close(m.veloc, -vstart[i], "velocities after reversing time", 1e-8, 1e-9)
    for g, w in vs:
        close(g, w, "caller's velocities")
    if c["ecp"]:
        # atoms whose core electrons are replaced by a potential, and a ghost atom
        M = get("openms.lib.misc:Molecule")
        a = c["ecp"]
        m = quiet_call(M, atom=f"{a} 0 0 0; H 0 0 1.7; ghost-He 0 2 0", basis={a: "lanl2dz", "H": "sto-3g", "ghost-He": "sto-3g"}, ecp={a: "lanl2dz"}, verbose=0, spin=1 if a == "Zn" else 0)
        close(m.mass, np.array([elements.COMMON_ISOTOPE_MASSES[elements.charge(x)] for x in (a, "H")] + [0.0]) * nist.AMU2AU, "masses with an effective core potential", 1e-10)
