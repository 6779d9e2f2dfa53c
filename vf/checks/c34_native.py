"""C34: the compiled kernels compute what their Python counterparts do"""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st
from math import factorial
from scipy.special import eval_genlaguerre

from vf import native
from vf.core import Trivial, Unavailable, close, expect, get, law, rng
from vf.rig import fl, seeds

_DIM = dict(nw=st.integers(1, 6), n=st.integers(1, 6), m=st.integers(1, 5), nb=st.integers(1, 5), q=st.integers(1, 5), nc=st.integers(1, 5), strided=st.booleans(), seed=seeds)


def rnd(r, *s, real=False):
    return r.standard_normal(s) + (0 if real else 1j * r.standard_normal(s))


def strided(a, on):
    """the same values in memory that is not contiguous"""
    if not on:
        return a
    b = np.zeros(a.shape[:-1] + (2 * a.shape[-1] + 1,), a.dtype)
    b[..., 1::2] = a
    return b[..., 1::2]


def counterpart(path):
    """the function a run without the compiled kernels uses"""
    try:
        return get(path)
    except Unavailable:
        return None


def check(k, name, args, ref, what, py=None, tol=1e-10):
    """kernel against the plain sum, its inputs untouched, and the Python function it replaces"""
    old = [np.array(a) for a in args]
    f = getattr(k, name)
    out = f(*args)
    for a, o in zip(args, old):
        close(a, o, f"input of {name}", 0, 0)
    refs = ref if isinstance(ref, tuple) else (ref,)
    for x, y in zip(out if isinstance(out, tuple) else (out,), refs):
        expect(np.shape(x) == np.shape(y), f"{what}: shape {np.shape(x)} instead of {np.shape(y)}")
        close(x, y, f"{what} ({name})", tol, tol)
    g = counterpart(py) if py else None
    if g:
        o2 = g(*[np.array(a) for a in args])
        for x, y in zip(o2 if isinstance(o2, tuple) else (o2,), refs):
            close(x, y, f"{what} ({py})", tol, tol)


@law("C34", st.fixed_dictionaries(_DIM), quick=400, cost=0.012,
     rule="walkers, trials, integrals and fields of random shapes (also different numbers of alpha and beta electrons, memory that is not contiguous): one-body step, Coulomb and exchange energies, overlaps, half-rotated Green's functions and contracted fields of the compiled kernels, real and complex, against plain sums and the Python functions they replace; non-trivial with more than one orbital")
def kernels(c):
    r = rng(c)
    nw, n, nc = c["nw"], c["n"], c["nc"]
    m, nb = min(c["m"], n), min(c["nb"], n)
    S = lambda a: strided(a, c["strided"])
    op, phi = S(rnd(r, n, n)), S(rnd(r, nw, n, m))
    La, Lb, Ga, Gb = S(rnd(r, nc, n, m)), S(rnd(r, nc, n, nb)), S(rnd(r, nw, n, m)), S(rnd(r, nw, n, nb))
    psi, X, T = S(rnd(r, n, m)), S(rnd(r, nw, nc)), S(rnd(r, nc, n, c["q"]))

    def job(k):
        one = np.einsum("pq,zqi->zpi", op, phi)
        check(k, "propagate_onebody_complex", (op, phi), one, "one-body step", "openms.qmc.propagators:propagate_onebody")
        rop, rphi = S(np.ascontiguousarray(op.real)), S(np.ascontiguousarray(phi.real))
        rone = np.einsum("pq,zqi->zpi", rop, rphi)
        check(k, "propagate_onebody_return", (rop, rphi), rone, "real one-body step")
        own = np.array(rphi)
        k.propagate_onebody(rop, own)
        close(own, rone, "real one-body step in place", 1e-10, 1e-10)
        exx = lambda L, G: 0.5 * np.einsum("lpi,zpj,lqj,zqi->z", L, G, L, G, optimize=True)
        check(k, "exx_rltensor_Ghalf_complex", (La, Ga), exx(La, Ga), "exchange energy", "openms.qmc.estimators:exx_rltensor_Ghalf")
        check(k, "exx_rltensor_Ghalf", tuple(S(np.ascontiguousarray(a.real)) for a in (La, Ga)), exx(La.real, Ga.real), "real exchange energy")
        ja, jb = np.einsum("lpi,zpi->zl", La, Ga), np.einsum("lpi,zpi->zl", Lb, Gb)
        check(k, "ecoul_rltensor_Ghalf_complex", (La, Ga), 0.5 * np.sum(ja**2, axis=1), "Coulomb energy of one spin", "openms.qmc.estimators:ecoul_rltensor_uhf")
        check(k, "ecoul_rltensor_uhf_complex", (La, Ga, Lb, Gb), 0.5 * np.sum((ja + jb) ** 2, axis=1), "Coulomb energy of both spins", None)
        check(k, "tensordot_complex", (X, T), np.einsum("zn,npq->zpq", X, T), "contracted fields")
        ov = np.einsum("zpi,pj->zij", phi, psi.conj())
        check(k, "trial_walker_ovlp_base", (phi, psi), ov, "overlap matrices", "openms.qmc.trial:trial_walker_ovlp_base")
        if max(np.linalg.cond(o) for o in ov) < 1e4:
            gh = np.einsum("zij,zpj->zpi", np.linalg.inv(ov), phi)
            check(k, "trial_walker_ovlp_gf_base", (phi, psi), (ov, gh), "overlaps and half-rotated Green's functions", "openms.qmc.trial:trial_walker_ovlp_gf_base", 1e-8)
        bad = 0
        for name, args in (("propagate_onebody_complex", (rnd(r, n + 1, n + 1), phi)), ("exx_rltensor_Ghalf_complex", (rnd(r, nc, n + 1, m), Ga)), ("tensordot_complex", (rnd(r, nw, nc + 1), T)), ("trial_walker_ovlp_base", (phi, rnd(r, n + 1, m)))):
            try:
                getattr(k, name)(*args)
            except ValueError:
                bad += 1
        expect(bad == 4, "shapes that do not match were accepted")
        return "open shell" if m != nb else "closed shell"
    kind = native.run(job)
    if n == 1:
        raise Trivial
    return kind


@law("C34", st.fixed_dictionaries(dict(nw=st.integers(1, 5), n=st.integers(1, 6), m=st.integers(1, 4), order=st.integers(0, 12), size=fl(0.05, 1.2, 2), real=st.booleans(), seed=seeds)), quick=240, cost=0.012,
     rule="exponential of random operators, one per walker, on random orbitals, real and complex kernels of order 0 to 12, in place: the Taylor sum of that order, and the exponential itself within its remainder; non-trivial at order two and above")
def exponential(c):
    r = rng(c)
    nw, n, m, K = c["nw"], c["n"], c["m"], c["order"]
    A, phi = rnd(r, nw, n, n, real=c["real"]), rnd(r, nw, n, m, real=c["real"])
    A *= c["size"] / np.linalg.norm(A, 2, axis=(1, 2)).max()

    def job(k):
        x, a = np.array(phi), np.array(A)
        (k.propagate_exp_op if c["real"] else k.propagate_exp_op_complex)(x, a, K)
        close(a, A, "operator after the propagation", 0, 0)
        ref, t = np.array(phi), np.array(phi)
        for i in range(K):
            t = A @ t / (i + 1)
            ref = ref + t
        close(x, ref, f"Taylor sum of order {K}", 1e-10, 1e-10)
        rest = c["size"] ** (K + 1) / factorial(K + 1) * np.exp(c["size"]) * np.linalg.norm(phi)
        full = np.array([sl.expm(q) for q in A]) @ phi
        expect(np.max(abs(x - full)) <= 1.01 * rest + 1e-10, f"exponential off by {np.max(abs(x - full)):.2e} at order {K}")
        f = counterpart("openms.qmc.propagators:propagate_exp_op")
        if f:
            close(f(np.array(phi), np.array(A), K), ref, "Taylor sum of the Python function", 1e-10, 1e-10)
    native.run(job)
    if K < 2:
        raise Trivial


@law("C34", st.fixed_dictionaries(dict(nb=st.lists(st.integers(1, 5), min_size=1, max_size=3), im=st.integers(0, 2), nao=st.integers(1, 5), shift=st.one_of(st.just(None), fl(-1.0, 1.0, 2)), seed=seeds)), quick=240, cost=0.012,
     rule="displaced photon states of one of 1-3 modes with 1-5 states, random frequencies, squeezing, displacements, shifts and symmetric photon density matrices: every matrix element of the displacement operator (from its definition, not the closed form) and their sum with the density; non-trivial with more than one photon state")
def displacement(c):
    r = rng(c)
    nb, nao = c["nb"], c["nao"]
    im = c["im"] % len(nb)
    d = nb[im]
    w, vsq, eta = 0.5 + r.random(len(nb)), 0.4 * r.standard_normal(len(nb)), 0.5 * r.standard_normal((len(nb), nao))
    pdm = r.standard_normal((d, d))
    pdm = pdm + pdm.T
    sh = c["shift"]
    f = np.exp(vsq[im]) / w[im] * (eta[im][:, None] - eta[im][None] + (sh or 0.0))
    # <m|exp(-f (b^+ - b))|n> in a large space
    N = d + 45
    b = np.diag(np.sqrt(np.arange(1.0, N)), 1)
    D = np.array([[sl.expm(-x * (b.T - b))[:d, :d] for x in row] for row in f])

    def job(k):
        mat, val = k.displacement_matrix(nb, im, w, eta, pdm, vsq, *([] if sh is None else [sh]))
        expect(mat.shape == (d * (d + 1) // 2, nao, nao) and val.shape == (nao, nao), f"shapes {mat.shape}, {val.shape}")
        for i in range(d):
            for j in range(i + 1):
                close(mat[i * (i + 1) // 2 + j], D[:, :, i, j] * (1 if i == j else 2), f"element {i}, {j} of the displacement", 1e-9, 1e-9)
        ref = np.einsum("mn,pqmn->pq", np.tril(pdm) * (2 - np.eye(d)), D)
        close(val, ref, "displacement averaged over the photon density", 1e-9, 1e-9)
    native.run(job)
    if d < 2:
        raise Trivial
    return f"{d} states"
