"""C08: coupled electron-boson propagation"""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf.core import Trivial, Unavailable, attr, close, expect, get, law, rng
from vf.oracle import lower
from vf.refqmc import Ref, gf, inject, taylor_tol
from vf.rig import build_mol, cplx, fl, make_mc, mol_strategy, quiet_call, seeds, sym
from vf.checks.c03_local_energy import EB, eb_case


def xop(n):
    return lower(n) + lower(n).T


class RefEB:
    """documented product-form step: bosons feel the population's mean electron density, electrons the
    population's mean boson displacement; the weight is the phaseless weight of the combined overlap"""

    def __init__(self, s, L, dt, off=False):
        self.s, self.dt, self.off = s, dt, off
        T = s.trial_dets()
        self.T = T
        self.psi = np.array(s.trial.boson_psi)
        self.ref = Ref(s.h, L, T[0], T[1], dt)
        self.geb = np.sqrt(s.w / 2)[:, None, None] * s.go
        self.Hb = np.concatenate([s.w[m] * np.arange(s.nphs[m]) for m in range(s.nm)])
        self.X = [np.zeros((sum(s.nphs),) * 2) for _ in range(s.nm)]
        for m in range(s.nm):
            self.X[m][s.sl[m], s.sl[m]] = xop(s.nphs[m])

    def step(self, A, B, b, w, eprev, eshift, xi):
        """A, B, b: lists over walkers"""
        R, dt = self.ref, self.dt
        nw = len(w)
        G = np.array([gf(R.ta, A[z]) + gf(R.tb, B[z]) for z in range(nw)])
        rho = np.einsum("z,zpq->pq", w, G) / w.sum()
        z_a = np.einsum("pq,npq->n", rho, self.geb)
        q = np.array([sum(w[z] * np.vdot(b[z], X @ b[z]) for z in range(nw)) / w.sum() for X in self.X])
        if self.off:
            q, z_a = 0 * q, 0 * z_a
        half = np.exp(-0.5 * dt * self.Hb) if not self.off else np.ones(len(self.Hb))
        mid = sl.expm(-dt * sum(z_a[m] * self.X[m] for m in range(len(q))))
        e1 = sl.expm(-0.5 * dt * (R.T + np.einsum("n,npq->pq", q, self.geb)))
        outA, outB, outb, wo, eo = [], [], [], [], []
        for z in range(nw):
            o0 = R.ovlp(A[z], B[z]) * (1 if self.off else np.vdot(self.psi, b[z]))
            v = np.einsum("npq,pq->n", R.L, G[z])
            F = -1j * np.sqrt(dt) * (v - R.mf)
            m = abs(F)
            F = np.where(m > R.bound, F / np.where(m > 0, m, 1) * R.bound, F)
            x = xi[z] - F
            op = 1j * np.sqrt(dt) * np.einsum("n,npq->pq", x, R.L)
            R.opnorm = max(R.opnorm, np.linalg.norm(op, 2))
            U = e1 @ sl.expm(op) @ e1
            a1, b1 = U @ A[z], U @ B[z]
            bb = half * (mid @ (half * b[z]))
            o1 = R.ovlp(a1, b1) * (1 if self.off else np.vdot(self.psi, bb))
            lnI = np.sum(xi[z] * F - 0.5 * F * F)
            lnM = -1j * np.sqrt(dt) * np.sum(x * R.mf)
            eh = -(np.log(o1 / o0) + lnI + lnM) / dt
            er = min(max(eh.real, np.real(eshift) - R.ebound), np.real(eshift) + R.ebound)
            c = np.cos(np.angle(o1 / o0 * np.exp(1j * lnM.imag)))
            outA.append(a1), outB.append(b1), outb.append(bb)
            wo.append(w[z] * np.exp(-dt * (0.5 * (er + np.real(eprev[z])) - np.real(eshift))) * max(0.0, c))
            eo.append(er + 1j * eh.imag)
        return outA, outB, outb, np.array(wo), np.array(eo)


_S = dict(dt=st.sampled_from([0.005, 0.02, 0.05]), nstep=st.integers(1, 3), fs=fl(0.2, 1.5, 1), real=st.booleans(), eps=fl(0.05, 0.4, 2), off=st.integers(0, 5))


@law("C08", eb_case(**_S), quick=200, cost=0.12,
     rule="1-3 steps of the product form from random (also complex) electron and boson walkers with random weights, 1-3 modes of 2-5 Fock states, injected fields, against a plain reference; non-trivial when the coupling is nonzero")
def step_reference(c):
    off = not c["off"]
    s = EB(c, dt=c["dt"], taylor_order=16, **(dict(propagator_options=dict(turnoff_bosons=True)) if off else {}))
    s.scatter(c["eps"])
    w = s.walkers
    if c["real"]:
        w.boson_phiw = np.array(w.boson_phiw).real.astype(complex)
    R = RefEB(s, np.array(s.mc.ltensor), c["dt"], off)
    A, B = s.dets()
    b, wt, eh = np.array(w.boson_phiw), np.array(w.weights), np.array(w.ehybrid, complex)
    nf = len(s.mc.ltensor)
    sh = -1.3
    for k in range(c["nstep"]):
        xi = c["fs"] * s.r.standard_normal((s.nw, nf))
        if not off and min(abs(np.vdot(R.psi, x)) for x in b) < 1e-2:
            raise Trivial()
        with inject(xi):
            s.prop.propagate_walkers(s.trial, w, s.mc.ltensor, eshift=sh)
        A, B, b, wt, eh = R.step(A, B, b, wt, eh, sh, xi)
        if taylor_tol(R.ref.opnorm, 16) > 1e-9:
            raise Trivial()
        if wt.sum() < 1e-6:
            raise Trivial()
        t = dict(rtol=1e-6, atol=1e-6)
        a2, b2 = s.dets()
        close(a2, np.array(A), "alpha orbitals after a step", **t)
        if s.ncomp > 1:
            close(b2, np.array(B), "beta orbitals after a step", **t)
        close(np.array(w.boson_phiw), np.array(b), "boson state after a step", **t)
        close(np.array(w.weights), wt, "weights after a step", **t)
        close(np.array(w.ehybrid), eh, "hybrid energies after a step", rtol=1e-5, atol=1e-5 / c["dt"] * 1e-1)
    return ("photons off" if off else f"{s.nm} modes") if c["gs"] else "trivial"


_RUN = dict(nstep=st.integers(2, 8), pf=st.integers(1, 3), n=st.integers(2, 6), dt=st.sampled_from([0.005, 0.02, 0.05]), renorm=st.integers(1, 5))


def run(c, g, X, **kw):
    mol = build_mol(c)
    uhf = c["uhf"] or mol.spin != 0
    nm = c["nmode"]
    mc = make_mc(mol, uhf=uhf, boson_freq=np.array(c["ws"][:nm]), gmat=g, nphoton=c["nph"] + 1, num_walkers=c["n"], chol_thresh=1e-9,
                 dt=c["dt"], total_time=(c["nstep"] + 0.5) * c["dt"], property_calc_freq=c["pf"], renorm_freq=c["renorm"], **kw)
    x = X(mc)
    with inject(x):
        t, e = quiet_call(mc.kernel)
    return mc, np.array(e, float)


@law("C08", eb_case(**_RUN), quick=64, cost=0.5,
     rule="whole runs: with zero coupling the energies are those of the bare electronic run driven by the same fields and the photons stay in the vacuum; changing the sign of all coupling matrices (and of the fields of the self-energy terms) leaves every energy unchanged; permuting the modes leaves every energy unchanged; non-trivial when energies were measured")
def limits_and_symmetries(c):
    mol = build_mol(c)
    uhf = c["uhf"] or mol.spin != 0
    nao, nm = mol.nao_nr(), c["nmode"]
    r = rng(c)
    bare = make_mc(mol, uhf=uhf, num_walkers=c["n"], chol_thresh=1e-9, dt=c["dt"], total_time=(c["nstep"] + 0.5) * c["dt"],
                   property_calc_freq=c["pf"], renorm_freq=c["renorm"])
    nf = len(bare.ltensor)
    F = r.standard_normal((c["nstep"], c["n"], nf + nm))
    with inject(F[:, :, :nf]):
        t, e0 = quiet_call(bare.kernel)
    if not len(e0):
        raise Trivial()
    tol = dict(rtol=1e-6, atol=1e-6)
    shape = [None]

    def fields(sign=1.0, perm=None):
        def mk(mc):
            if len(mc.ltensor) != nf + nm:
                raise Unavailable("number of fields")
            f = F.copy()
            f[:, :, nf:] = sign * f[:, :, nf:]
            if perm is not None:
                f[:, :, nf:] = f[:, :, nf:][:, :, perm]
            return f
        return mk

    mc, e = run(c, np.zeros((nm, nao, nao)), fields())
    close(e, np.array(e0, float), "energies of a run with zero coupling", **tol)
    b = np.array(mc.walkers.boson_phiw)
    # uncoupled photons: each mode's amplitudes decay with its frequency, so relative to the vacuum amplitude of the
    # trial nothing may appear that the trial does not contain
    n = c["nph"] + 1
    psi = np.array(mc.trial.boson_psi)
    expect(np.all(abs(b[:, abs(psi) < 1e-14]) < 1e-12), "photons appeared without coupling")
    g = c["gs"] * sym(r, nm, nao, nao)
    g0 = g.copy()
    m1, e1 = run(c, g, fields())
    expect(np.array_equal(g, g0), "the coupling matrices passed in were changed")
    ok = np.array(m1.walkers.weights).sum() > 1e-3 and np.all(np.isfinite(e1))
    if not ok:
        raise Trivial()
    m2, e2 = run(c, -g, fields(-1.0))
    close(e2, e1, "energies after changing the sign of the couplings", rtol=1e-5, atol=1e-5)
    if nm > 1:
        p = r.permutation(nm)
        c3 = dict(c, ws=[c["ws"][i] for i in p])
        m3, e3 = run(c3, g[p], fields(perm=p))
        close(e3, e1, "energies after permuting the modes", rtol=1e-5, atol=1e-5)
    # photons turned off: neither the sign of the couplings nor the way the coupling is decoupled plays a role
    off = dict(turnoff_bosons=True)
    m5, e5 = run(c, g, fields(), propagator_options=dict(off))
    m6, e6 = run(c, -g, fields(-1.0), propagator_options=dict(off))
    close(e6, e5, "energies with the photons off after changing the sign of the couplings", rtol=1e-5, atol=1e-5)
    m7, e7 = run(c, g, fields(), propagator_options=dict(off, decouple_bilinear=True, decouple_scheme=1 + c["seed"] % 2))
    close(e7, e5, "energies with the photons off and decoupled couplings", rtol=1e-5, atol=1e-5)
    m8, e8 = run(c, np.zeros((nm, nao, nao)), fields(), propagator_options=dict(off))
    close(e8, np.array(e0, float), "energies of a run with the photons off and zero coupling", **tol)
    # repeating gives the same
    m4, e4 = run(c, g, fields())
    close(e4, e1, "energies of the repeated run", rtol=1e-9, atol=1e-9)
    return f"{nm} modes"


@law("C08", st.fixed_dictionaries(dict(nm=st.integers(1, 3), n=st.integers(1, 4), scheme=st.sampled_from([1, 2]), mag=st.lists(st.sampled_from([0, 0, -1, -3, -5, 2]), min_size=3, max_size=3), seed=seeds)), quick=100, cost=0.005,
     rule="both documented decompositions of the bilinear coupling on random couplings, also weak and strong ones: the sum of the squares of the returned fields equals the product operator; non-trivial: always")
def decomposition(c):
    f = get("openms.qmc.tools:bilinear_decomposition")
    r = rng(c)
    nm, n = c["nm"], c["n"]
    A, B = 0.3 + r.random(nm), 0.2 + r.random(nm)
    scale = 10.0 ** np.array(c["mag"][:nm])
    g = sym(r, nm, n, n) * scale[:, None, None]
    E, Bf = quiet_call(f, A.copy(), B.copy(), g.copy(), c["scheme"])
    E, Bf = np.array(E), np.array(Bf)
    expect(len(E) == len(Bf) and len(E) % nm == 0, "numbers of electronic and bosonic fields differ")
    k = len(E) // nm
    for m in range(nm):
        e, b = E[m * k:(m + 1) * k], Bf[m * k:(m + 1) * k]
        # 1/2 sum (E_i + b_i X)^2 = 1/2 sum E_i(x)E_i + (sum b_i E_i) X + 1/2 (sum b_i^2) X^2
        # in units of the coupling
        e = e / scale[m]
        close(np.einsum("ipq,irs->pqrs", e, e), np.zeros((n,) * 4, complex), "electron-electron remainder of the decomposition")
        close(np.sum(b * b), 0j, "boson-boson remainder of the decomposition")
        close(np.einsum("i,ipq->pq", b, e), (A[m] * B[m] * g[m] / scale[m]).astype(complex), "coupling recovered from the decomposition")
    return f"scheme {c['scheme']}"


@law("C08", eb_case(), quick=80, cost=0.15,
     rule="random boson walkers: overlap, boson Green's function, mean displacement, displacement operator and normalisation against explicit sums; normalising keeps the state's direction and phase; non-trivial: always")
def boson_walkers(c):
    s = EB(c).scatter(0.3)
    w = s.walkers
    psi, b = np.array(s.trial.boson_psi), np.array(w.boson_phiw)
    close(np.linalg.norm(psi), 1.0, "norm of the boson trial")
    S = b @ psi.conj()
    close(np.array(s.trial.boson_ovlp_with_walkers(w)), S, "boson overlap")
    f = get("openms.qmc.propagators:boson_adag_plus_a")
    z = s.r.standard_normal(s.nm)
    ref = np.zeros((sum(s.nphs),) * 2)
    for m in range(s.nm):
        ref[s.sl[m], s.sl[m]] = z[m] * xop(s.nphs[m])
    close(np.array(f(s.nm, s.nphs, z)), ref.astype(complex), "displacement operator")
    if len(set(s.nphs)) == 1:
        close(np.array(f(s.nm, s.nphs[0], z)), ref.astype(complex), "displacement operator")
    wt = np.array(w.weights)
    q = [sum(wt[k] * np.vdot(b[k, s.sl[m]], xop(s.nphs[m]) @ b[k, s.sl[m]]) for k in range(s.nw)) / wt.sum() for m in range(s.nm)]
    close(np.array(w.get_boson_bdag_plus_b(s.trial, w.boson_phiw)), np.array(q), "mean boson displacement of the population")
    s.mc.orthogonalization()
    nb = np.array(w.boson_phiw)
    close(nb, b / np.linalg.norm(b, axis=1)[:, None], "boson walkers after normalisation")
    return f"{s.nm} modes"
