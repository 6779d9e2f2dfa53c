"""C04: averaged over the auxiliary fields one step is exp(-dt H); C05: the phaseless step and its weights"""
import itertools

import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf.core import Trivial, Unavailable, attr, close, expect, get, law, rng
from vf.oracle import ManyBody, det_vector, lower, site_op
from vf.refqmc import Ref, inject, taylor_tol
from vf.rig import Synth, cplx, fl, seeds, sym, synth_strategy, unitary


def quad(nf, n):
    x, w = np.polynomial.hermite_e.hermegauss(n)
    w = w / w.sum()
    X = np.array(list(itertools.product(x, repeat=nf)))
    W = np.prod(np.array(list(itertools.product(w, repeat=nf))), axis=1)
    return X, W


def averaged_step(s, X, W):
    """dense vector of the field average of one real step from the (common) walker state"""
    T = s.trial_dets()
    got = {}

    def cap(walkers, ovlp, newovlp, cfb, cmf, eshift=0.0):
        got.update(o=np.array(ovlp), n=np.array(newovlp), f=np.array(cfb) + np.array(cmf))

    if not hasattr(s.prop, "update_weight"):
        raise Unavailable("update_weight")
    s.prop.update_weight = cap
    with inject(X):
        s.prop.propagate_walkers(s.trial, s.walkers, s.mc.ltensor, eshift=0.0)
    if "f" not in got:
        raise Unavailable("update_weight not called")
    a, b = s.dets()
    v = 0
    for q in range(len(W)):
        v = v + W[q] * np.exp(got["f"][q]) * np.kron(det_vector(a[q]), det_vector(b[q]))
    return v


def start(s, r, eps):
    """the same random determinant for all walkers; returns its dense vector"""
    a = np.array(s.trial.psia) + eps * cplx(r, s.nao, s.na)
    s.walkers.phiwa = np.ascontiguousarray(np.array([a] * s.nw))
    b = a
    if s.ncomp > 1:
        b = np.array(s.trial.psib) + eps * cplx(r, s.nao, s.nb)
        s.walkers.phiwb = np.ascontiguousarray(np.array([b] * s.nw))
    return np.kron(det_vector(a), det_vector(b))


def fit(v, ref):
    c = np.vdot(ref, v) / np.vdot(ref, ref)
    return c, np.linalg.norm(v - c * ref) / (abs(c) * np.linalg.norm(ref))


_C = dict(dt=st.sampled_from([0.005, 0.01, 0.02]), eps=fl(0.05, 0.6, 2), start2=seeds)


@law("C04", synth_strategy(4, 2, **_C), quick=192, cost=0.06,
     rule="one-body and interaction matrices sharing eigenvectors, so that the field average (Gauss-Hermite quadrature over 1-2 fields, injected as the drawn deviates) must equal exp(-dt H) up to a walker-independent constant; non-trivial: always")
def commuting_exact(c):
    X, W = quad(c["nchol"], 14 if c["nchol"] == 1 else 10)
    c["nw"] = len(W)
    s0 = Synth(c)
    r = s0.r
    # rebuild the integrals with common eigenvectors
    U = unitary(r, s0.nao)
    h = (U * (c["hs"] * r.standard_normal(s0.nao))) @ U.T
    L = np.array([(U * (c["ls"] * r.standard_normal(s0.nao))) @ U.T for _ in range(c["nchol"])])
    s = SynthWith(c, h, L, dt=c["dt"], taylor_order=14)
    mb = ManyBody(s.nao, s.na, s.nb)
    E = sl.expm(-c["dt"] * mb.hamiltonian(h, L))
    cs = []
    for k in range(2):
        phi = start(s, np.random.default_rng(c["start2"] + k), c["eps"])
        v = averaged_step(s, X, W)
        cc, err = fit(v, E @ phi)
        expect(err < 2e-6, f"the field average of a step differs from exp(-dt H) by {err:.3e}")
        cs.append(cc)
    expect(abs(cs[0].imag) < 1e-6 * abs(cs[0]) and cs[0].real > 0, f"normalisation of the averaged step is {cs[0]}")
    expect(abs(cs[1] / cs[0] - 1) < 1e-5, f"normalisation of the averaged step depends on the walker: {cs}")
    return f"nfields={c['nchol']} ncomp={s.ncomp}"


class SynthWith(Synth):
    def __init__(self, case, h, L, **kw):
        self._hl = (h, L)
        Synth.__init__(self, case, **kw)

    def integrals(self):
        return self._hl


@law("C04", synth_strategy(4, 2, **_C), quick=160, cost=0.12,
     rule="generic non-commuting integrals: the deviation of the field-averaged step from exp(-dt H) must shrink as dt^2 (by more than 9, up to 1e-7, when dt is divided by 4; a missing or wrong first-order term gives 4); non-trivial when the deviation exceeds 1e-9")
def second_order(c):
    c["na"] = min(c["na"], c["nao"] - 1)
    c["nb"] = min(c["nb"], c["na"])
    X, W = quad(c["nchol"], 12 if c["nchol"] == 1 else 8)
    c["nw"] = len(W)
    errs = []
    const = []
    for dt in (0.004, 0.001):
        s = Synth(c, dt=dt, taylor_order=10)
        mb = ManyBody(s.nao, s.na, s.nb)
        phi = start(s, np.random.default_rng(c["start2"]), c["eps"])
        v = averaged_step(s, X, W)
        cc, err = fit(v, sl.expm(-dt * mb.hamiltonian(s.h, s.L)) @ phi)
        errs.append(err)
    if errs[0] < 3e-8:
        raise Trivial()
    expect(errs[1] < errs[0] / 9 + 1e-7, f"deviation from exp(-dt H) is {errs[0]:.3e} at dt=0.004 and {errs[1]:.3e} at dt=0.001: not second order")
    return f"nfields={c['nchol']} ncomp={s.ncomp}"


_K = st.fixed_dictionaries(dict(n=st.integers(1, 6), k=st.integers(1, 4), nw=st.integers(1, 4), order=st.integers(1, 14), size=fl(0.0, 1.0, 2), seed=seeds))


@law("C04", _K, quick=100, cost=0.02, jit=True, rule="one-body and exponential kernels (compiled and plain) on random operators against matrix products and truncated exponential series; non-trivial: always")
def kernels(c):
    r = rng(c)
    n, k = c["n"], min(c["k"], c["n"])
    phi = np.ascontiguousarray(cplx(r, c["nw"], n, k))
    op = np.ascontiguousarray(cplx(r, c["nw"], n, n))
    op *= c["size"] / np.array([np.linalg.norm(o, 2) for o in op])[:, None, None]
    ref = []
    for z in range(c["nw"]):
        t = phi[z].copy()
        a = t.copy()
        for i in range(1, c["order"] + 1):
            t = op[z] @ t / i
            a = a + t
        ref.append(a)
    P = "openms.qmc.propagators:"
    ran = 0
    for nm in ("propagate_exp_op", "propagate_exp_op_numba", "propagate_HS_kernel"):
        try:
            f = get(P + nm)
        except Unavailable:
            continue
        ran += 1
        x = phi.copy()
        out = f(x, op.copy(), c["order"])
        close(out if out is not None else x, np.array(ref), nm, rtol=1e-10)
        close(x, np.array(ref), nm + " (walkers updated in place)", rtol=1e-10)
    one = np.ascontiguousarray(cplx(r, n, n))
    for nm in ("propagate_onebody", "propagate_onebody_numba", "propagate_onebody_kernel"):
        try:
            f = get(P + nm)
        except Unavailable:
            continue
        ran += 1
        close(f(one, phi.copy()), np.array([one @ p for p in phi]), nm, rtol=1e-10)
    Lr = sym(r, 3, n, n)
    xs = cplx(r, c["nw"], 3)
    for nm in ("build_HS", "build_HS_numba"):
        try:
            f = get(P + nm)
        except Unavailable:
            continue
        ran += 1
        close(f(xs, Lr.astype(complex), 0.3j), 0.3j * np.einsum("zn,npq->zpq", xs, Lr), nm, rtol=1e-10)
    try:
        f = get(P + "compute_GF_base")
        psi = unitary(r, n, True)[:, :k]
        close(f(phi.copy(), psi.conj().copy()), np.einsum("zqi,pi->zpq", phi, psi.conj()), "compute_GF_base", rtol=1e-10)
        ran += 1
    except Unavailable:
        pass
    if not ran:
        raise Unavailable("propagation kernels")
    return f"order {'low' if c['order'] < 6 else 'high'}"


# ------------------------------------------------------------------------ C05
_S = dict(dt=st.sampled_from([0.002, 0.01, 0.05, 0.2]), eps=fl(0.0, 0.6, 2), nstep=st.integers(1, 3), xs=fl(0.0, 3.0, 1),
          es=fl(-3.0, 3.0, 1), bound=st.sampled_from([1.0, 1.0, 0.3, 2.5]), big=st.sampled_from([1.0, 1.0, 3.0]), hsp=st.sampled_from([0.0, 0.7]))


def _reference(s, dt, bound=1.0):
    T = s.trial_dets()
    return Ref(s.h, s.L, T[0], T[1], dt, bound=bound, hb=s.hb)


@law("C05", synth_strategy(4, 4, **_S), quick=640, cost=0.016,
     rule="1-3 consecutive hybrid-scheme steps of 1-4 random walkers with random auxiliary fields (also large ones), force-bias bounds, energy shifts and time steps, against a plain reference of the documented phaseless step; non-trivial: always; labels say which bound was active")
def step_reference(c):
    c["ls"] *= c["big"]
    order = 18
    s = Synth(c, dt=c["dt"], taylor_order=order, propagator_options=dict(bias_bound=c["bound"])).scatter(c["eps"])
    r = s.r
    ref = _reference(s, c["dt"], c["bound"])
    w = s.walkers
    A, B = s.dets()
    A, B = list(A), list(B)
    wt = np.array(w.weights)
    eh = np.zeros(s.nw, complex)
    for k in range(c["nstep"]):
        xi = c["xs"] * r.standard_normal((s.nw, len(s.L)))
        es = c["es"] + r.standard_normal()
        with inject(xi):
            s.prop.propagate_walkers(s.trial, w, s.mc.ltensor, eshift=es)
        ov = np.empty(s.nw, complex)
        for z in range(s.nw):
            A[z], B[z], wt[z], eh[z], ov[z] = ref.step(A[z], B[z], wt[z], eh[z], es, xi[z])
        tt = taylor_tol(ref.opnorm, order)
        if tt > 1e-6:
            return "trivial"
        a, b = s.dets()
        scale = max(np.abs(A).max(), 1e-300)
        close(a / scale, np.array(A) / scale, f"walker determinants after step {k+1}", rtol=1e-7 + 20 * tt)
        close(b / scale, np.array(B) / scale, f"walker determinants (beta) after step {k+1}", rtol=1e-7 + 20 * tt)
        # an overlap close to zero has no defined phase
        okphase = abs(ov) > 1e-9 * np.array([np.linalg.norm(x) ** s.na * np.linalg.norm(y) ** s.nb for x, y in zip(A, B)])
        if not okphase.all():
            return "trivial"
        got = np.array(w.weights)
        expect(np.isrealobj(got), "weights became complex")
        expect(np.all(np.isfinite(got)) and np.all(got >= 0), f"invalid weights {got}")
        close(got / max(1e-3, wt.max()), wt / max(1e-3, wt.max()), f"weights after step {k+1}", rtol=2e-5 + 1e3 * tt, atol=2e-6)
        close(np.array(w.ehybrid).real, eh.real, f"hybrid energies after step {k+1}", rtol=1e-5 + 1e3 * tt / c["dt"], atol=1e-6 / c["dt"])
        close(np.array(w.ovlp) / abs(ov).max(), ov / abs(ov).max(), f"overlaps after step {k+1}", rtol=1e-6 + 100 * tt)
    return f"clip={ref.clipped > 0} bias={ref.biased > 0} killed={ref.killed > 0}"


@law("C05", synth_strategy(4, 4, dt=st.sampled_from([0.01, 0.05, 0.2]), eps=fl(0.05, 0.6, 2), order=st.integers(1, 9), xs=fl(0.3, 2.0, 1)), quick=320, cost=0.012,
     rule="one step with a requested order of 1-9 for the exponential of the fields: the orbitals of both spins are at least as close to the exact exponential as the remainder of the series of that order; non-trivial when the bound is below 0.3 of the orbitals' norm and the series leaves more than 1e-9")
def requested_order(c):
    s = Synth(c, dt=c["dt"], taylor_order=c["order"]).scatter(c["eps"])
    ref = _reference(s, c["dt"])
    A, B = s.dets()
    xi = c["xs"] * s.r.standard_normal((s.nw, len(s.L)))
    with inject(xi):
        s.prop.propagate_walkers(s.trial, s.walkers, s.mc.ltensor, eshift=0.0)
    a, b = s.dets()
    best = 0
    for z in range(s.nw):
        ref.opnorm = 0.0
        e = ref.step(A[z], B[z], 1.0, 0.0, 0.0, xi[z])
        tail = taylor_tol(ref.opnorm, c["order"])
        for nm, got, want, X, U in (("alpha", a[z], e[0], A[z], ref.eT), ("beta", b[z], e[1], B[z], ref.eTb)):
            bound = tail * np.linalg.norm(U, 2) * np.linalg.norm(U @ X)
            rel = bound / np.linalg.norm(want)
            if 1e-9 < rel < 0.3:
                best = max(best, rel)
            d = np.linalg.norm(got - want)
            expect(d <= bound * (1 + 1e-6) + 1e-9 * np.linalg.norm(want), f"{nm} orbitals of a step with series order {c['order']} deviate by {d:.3e}, the remainder allows {bound:.3e}")
    return f"order={c['order']}" if best else "trivial"


@law("C05", synth_strategy(4, 4, dt=st.sampled_from([0.005, 0.02, 0.1]), eps=fl(0.1, 0.6, 2), es=fl(-3, 3, 1), scheme=st.sampled_from(["local", "hybrid", None])), quick=320, cost=0.01,
     rule="weight update called with random overlaps, force-bias factors and energies in both energy schemes and the default (hybrid): result real, finite, non-negative, equal to the documented factor, zero exactly when the phase turns by more than 90 degrees; non-trivial: always")
def weight_update(c):
    c["nw"] = max(2, c["nw"] + 4)
    s = Synth(c, dt=c["dt"], energy_scheme=c["scheme"]).scatter(c["eps"])
    r, w = s.r, s.walkers
    dt = c["dt"]
    n = s.nw
    o0 = cplx(r, n)
    R = np.exp(r.standard_normal(n) * 0.3 + 1j * np.pi * r.uniform(-1, 1, n))
    o1 = o0 * R
    cfb, cmf = 0.2 * cplx(r, n), 0.5 * cplx(r, n)
    w0 = np.array(w.weights)
    el = r.standard_normal(n) * 3 + 0.3j * r.standard_normal(n)
    prev = r.standard_normal(n) * 2
    w.eloc, w.ehybrid = el.copy(), prev.copy()
    es = c["es"]
    s.prop.update_weight(w, o0.copy(), o1.copy(), cfb.copy(), cmf.copy(), es)
    ph = np.cos(np.angle(R * np.exp(1j * cmf.imag)))
    if c["scheme"] != "local":
        e = (-(np.log(R) + cfb + cmf) / dt).real
        b = np.sqrt(2 / dt)
        e = np.clip(e, es - b, es + b)
        fac = np.exp(-dt * (0.5 * (e + prev) - es))
        close(np.array(w.ehybrid).real, e, "hybrid energies")
    else:
        fac = np.exp(-dt * el.real)
    got = np.array(w.weights)
    expect(np.isrealobj(got), "weights became complex")
    close(got, w0 * fac * np.maximum(0, ph), "weights", rtol=1e-8)
    expect(np.all(got[ph < -1e-9] == 0), "a walker whose phase turned by more than 90 degrees kept its weight")
    close(np.array(w.ovlp), o1, "stored overlaps")
    return str(c["scheme"])


@law("C05", synth_strategy(4, 4, dt=st.sampled_from([0.005, 0.02, 0.1]), eps=fl(0.1, 0.6, 2)), quick=240, cost=0.024,
     rule="metamorphic: stepping a batch equals stepping each walker alone with its own fields (also after permuting them), and zero fields with no interaction give the deterministic one-body projection; non-trivial when >=2 walkers")
def batch_independence(c):
    c["nw"] = max(2, c["nw"])
    s = Synth(c, dt=c["dt"]).scatter(c["eps"])
    xi = s.r.standard_normal((s.nw, len(s.L)))
    w0 = np.array(s.walkers.weights)
    a0, b0 = s.dets()
    with inject(xi):
        s.prop.propagate_walkers(s.trial, s.walkers, s.mc.ltensor, eshift=0.3)
    a1, b1 = s.dets()
    w1 = np.array(s.walkers.weights)
    c1 = dict(c, nw=1)
    for z in range(s.nw):
        o = Synth(c1, dt=c["dt"])
        o.walkers.phiwa = a0[z:z + 1].copy()
        if o.ncomp > 1:
            o.walkers.phiwb = b0[z:z + 1].copy()
        o.walkers.weights = w0[z:z + 1].copy()
        with inject(xi[z]):
            o.prop.propagate_walkers(o.trial, o.walkers, o.mc.ltensor, eshift=0.3)
        a, b = o.dets()
        sc = abs(a1[z]).max()
        close(a[0] / sc, a1[z] / sc, "walker stepped alone", rtol=1e-9)
        close(b[0] / sc, b1[z] / sc, "walker stepped alone (beta)", rtol=1e-9)
        close(np.array(o.walkers.weights)[0], w1[z], "weight of a walker stepped alone", rtol=1e-8)
    return f"nw={s.nw}"


@law("C05", synth_strategy(4, 3, eps=fl(0.1, 1.5, 2), scale=fl(0.01, 30.0, 2)), quick=240, cost=0.012,
     rule="re-orthogonalisation: orthonormal orbitals spanning the same space, unchanged local energy and unchanged ratio of trial overlaps; non-trivial: always")
def orthogonalisation(c):
    s = Synth(c).scatter(c["eps"])
    w = s.walkers
    w.phiwa = np.array(w.phiwa) * c["scale"]
    a0, b0 = s.dets()
    w0 = np.array(w.weights)
    s.prop.local_energy(s.mc.h1e, s.mc.ltensor, w, s.trial, enuc=s.enuc)
    e0 = np.array(w.eloc)
    if np.abs(e0).max() > 1e4:
        return "trivial"
    s.mc.orthogonalization()
    a1, b1 = s.dets()
    for x0, x1 in zip(list(a0) + list(b0), list(a1) + list(b1)):
        k = x0.shape[1]
        close(x1.conj().T @ x1, np.eye(k, dtype=complex), "orthonormality of a walker's orbitals", rtol=1e-9)
        P = np.linalg.lstsq(x0, x1, rcond=None)[0]
        close(x0 @ P, x1, "span of a walker's orbitals", rtol=1e-7)
    close(np.array(w.weights), w0, "weights after re-orthogonalisation")
    s.prop.local_energy(s.mc.h1e, s.mc.ltensor, w, s.trial, enuc=s.enuc)
    close(np.array(w.eloc), e0, "local energy after re-orthogonalisation", rtol=1e-6, atol=1e-6)
    return f"ncomp={s.ncomp}"
