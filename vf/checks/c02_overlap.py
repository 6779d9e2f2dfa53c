"""C02: trial-walker overlaps, Green's functions and force bias"""
import numpy as np
from hypothesis import strategies as st

from vf.core import Unavailable, attr, close, expect, get, law, rng
from vf.oracle import det_vector, one_body_matrix
from vf.rig import Synth, cplx, fl, quiet_call, seeds, sym, synth_strategy, unitary


def _gf_ref(T, W):
    """G_pq = <T| a+_p a_q |W> / <T|W> from dense Fock vectors"""
    n, k = T.shape
    t, w = det_vector(T), det_vector(W)
    s = np.vdot(t, w)
    G = np.zeros((n, n), complex)
    for p in range(n):
        for q in range(n):
            E = np.zeros((n, n))
            E[p, q] = 1
            G[p, q] = t.conj() @ one_body_matrix(n, k, E) @ w / s
    return s, G


def _check(s, what=""):
    T = s.trial_dets()
    phi = s.dets()
    ov = np.array(s.trial.ovlp_with_walkers_gf(s.walkers))
    ov2 = np.array(s.trial.ovlp_with_walkers(s.walkers))
    ref = np.empty(s.nw, complex)
    Gs = [[], []]
    for z in range(s.nw):
        sa, Ga = _gf_ref(T[0], phi[0][z])
        sb, Gb = _gf_ref(T[1], phi[1][z])
        ref[z] = sa * sb
        Gs[0].append(Ga)
        Gs[1].append(Gb)
    close(ov, ref, what + "overlap returned with the Green's function", rtol=1e-9)
    close(ov2, ref, what + "overlap", rtol=1e-9)
    gh = [s.walkers.Ghalfa] + ([s.walkers.Ghalfb] if s.ncomp > 1 else [])
    for i, g in enumerate(gh):
        full = np.einsum("pi,zqi->zpq", T[i].conj(), np.array(g))
        close(full, np.array(Gs[i]), what + f"Green's function of spin {i}", rtol=1e-7, atol=1e-8)
    if hasattr(s.trial, "half_rotated"):
        # trials that were not half-rotated also store the full Green's functions
        was, s.trial.half_rotated = s.trial.half_rotated, False
        close(np.array(s.trial.ovlp_with_walkers_gf(s.walkers)), ref, what + "overlap without half rotation", rtol=1e-9)
        for nm, g in zip(("Ga", "Gb")[: s.ncomp], Gs):
            close(np.array(attr(s.walkers, nm)), np.array(g), what + "full Green's function " + nm, rtol=1e-7, atol=1e-8)
        s.trial.half_rotated = was
        s.trial.ovlp_with_walkers_gf(s.walkers)
    vb = np.array(s.trial.get_vbias(s.walkers, s.mc.ltensor))
    vref = np.einsum("npq,zpq->zn", s.L, np.array(Gs[0]) + np.array(Gs[1]))
    close(vb, vref, what + "force bias <L>", rtol=1e-7, atol=1e-8)
    return ref


RULE = "random integrals, 2-5 orbitals, 1-3 electrons per spin, RHF and (complex) UHF trials, 1-4 random complex walkers; non-trivial: always (walkers differ from the trial)"


@law("C02", synth_strategy(5, 4, eps=fl(0.05, 1.0, 2)), quick=640, cost=0.012, rule=RULE)
def dense_overlap_gf(c):
    s = Synth(c).scatter(c["eps"])
    _check(s)
    return f"ncomp={s.ncomp} nb{'=' if s.na == s.nb else '<'}na"


@law("C02", synth_strategy(5, 3, eps=fl(0.05, 0.8, 2), scale=fl(0.1, 5.0, 1)), quick=480, cost=0.012,
     rule="metamorphic: mixing a walker's occupied columns by an invertible matrix multiplies the overlap by its determinant and leaves G unchanged; rotating trial and walker by one unitary leaves both unchanged")
def covariance(c):
    s = Synth(c).scatter(c["eps"])
    w, r = s.walkers, s.r
    ov = np.array(s.trial.ovlp_with_walkers_gf(w))
    T = s.trial_dets()
    G0 = [np.einsum("pi,zqi->zpq", T[0].conj(), np.array(w.Ghalfa))]
    if s.ncomp > 1:
        G0.append(np.einsum("pi,zqi->zpq", T[1].conj(), np.array(w.Ghalfb)))
    vb = np.array(s.trial.get_vbias(w, s.mc.ltensor))
    A = np.array([c["scale"] * (np.eye(s.na) + 0.3 * cplx(r, s.na, s.na)) for _ in range(s.nw)])
    fac = np.linalg.det(A)
    w.phiwa = np.ascontiguousarray(np.array(w.phiwa) @ A)
    if s.ncomp > 1:
        B = np.array([c["scale"] * (np.eye(s.nb) + 0.3 * cplx(r, s.nb, s.nb)) for _ in range(s.nw)])
        w.phiwb = np.ascontiguousarray(np.array(w.phiwb) @ B)
        fac = fac * np.linalg.det(B)
    else:
        fac = fac**2
    ov1 = np.array(s.trial.ovlp_with_walkers_gf(w))
    close(ov1 / (ov * fac), np.ones(s.nw), "overlap under a column transformation of the walkers", rtol=1e-8)
    G1 = [np.einsum("pi,zqi->zpq", T[0].conj(), np.array(w.Ghalfa))]
    if s.ncomp > 1:
        G1.append(np.einsum("pi,zqi->zpq", T[1].conj(), np.array(w.Ghalfb)))
    for a, b in zip(G0, G1):
        close(b, a, "Green's function under a column transformation", rtol=1e-7, atol=1e-8)
    close(np.array(s.trial.get_vbias(w, s.mc.ltensor)), vb, "force bias under a column transformation", rtol=1e-7, atol=1e-8)
    return "mixed"


@law("C02", synth_strategy(5, 4, eps=fl(0.05, 1.0, 2), noao=st.booleans(), again=st.integers(0, 2)), quick=240, cost=0.012,
     rule="life of a trial: built in the orthogonalised or in the molecular-orbital basis (unequal spins included), its integrals rotated again and again with other tensors, its overlaps evaluated for other walkers in between; the trial spans the lowest orbitals, and everything evaluated afterwards equals a fresh evaluation; non-trivial: always")
def trial_history(c):
    s = Synth(c)
    r, t = s.r, s.trial
    if c["noao"]:
        T = get("openms.qmc.trial:TrialHF")
        t2 = quiet_call(T, s.mc.mol, mf=s.mf, ncomponents=s.ncomp, verbose=0, OAO=False)
        quiet_call(t2.build)
        want = np.eye(s.nao)
        for nm, k in (("psia", s.na), ("psib", s.nb)):
            a = np.array(attr(t2, nm))
            expect(a.shape == (s.nao, k), f"{nm} of a trial in molecular orbitals has shape {a.shape}")
            close(a @ a.T, want[:, :k] @ want[:, :k].T, f"space of {nm} in the molecular-orbital basis")
    t.build() if c["seed"] % 2 and not c.get("ctrial") else None
    for k in range(c["again"]):
        s.scatter(0.5)
        quiet_call(t.half_rotate_integrals, np.array([sym(r, s.nao, s.nao)] * s.ncomp), sym(r, len(s.L) + k, s.nao, s.nao))
        t.ovlp_with_walkers_gf(s.walkers)
    quiet_call(t.half_rotate_integrals, np.array([s.h] * s.ncomp), s.L)
    s.scatter(c["eps"])
    _check(s, "after other uses of the trial: ")
    return f"again={c['again']}" + (" MO" if c["noao"] else "")


@law("C02", synth_strategy(5, 3, eps=fl(0.05, 0.8, 2), perm=seeds), quick=320, cost=0.01,
     rule="metamorphic: permuting walkers permutes overlaps and Green's functions; a batch equals each walker treated alone; a walker equal to the trial has overlap 1")
def walkers_independent(c):
    c["nw"] = max(2, c["nw"])
    s = Synth(c).scatter(c["eps"])
    w = s.walkers
    k = s.nw - 1
    w.phiwa[k] = s.trial.psia
    if s.ncomp > 1:
        w.phiwb[k] = s.trial.psib
    ov = np.array(s.trial.ovlp_with_walkers_gf(w))
    Ga = np.array(w.Ghalfa)
    close(ov[k], 1.0 + 0j, "overlap of the trial with itself")
    p = np.random.default_rng(c["perm"]).permutation(s.nw)
    w.phiwa = np.ascontiguousarray(np.array(w.phiwa)[p])
    if s.ncomp > 1:
        w.phiwb = np.ascontiguousarray(np.array(w.phiwb)[p])
    ov1 = np.array(s.trial.ovlp_with_walkers_gf(w))
    close(ov1, ov[p], "overlaps after permuting walkers", rtol=1e-10)
    close(np.array(w.Ghalfa), Ga[p], "Green's functions after permuting walkers", rtol=1e-9)
    return "permuted"


_K = st.fixed_dictionaries(dict(n=st.integers(1, 6), k=st.integers(1, 4), nw=st.integers(1, 4), seed=seeds, cplx=st.booleans(), kind=st.sampled_from(["ov", "gf"])))


@law("C02", _K, quick=150, cost=0.01, jit=True, rule="every overlap/Green's function kernel (compiled and plain) on random matrices against determinants and inverses; non-trivial when nw>=1 (always)")
def kernels(c):
    r = rng(c)
    n = c["n"]
    k = min(c["k"], n)
    psi = unitary(r, n, c["cplx"])[:, :k].astype(complex)
    phi = np.ascontiguousarray(psi[None] + 0.4 * cplx(r, c["nw"], n, k))
    S = np.einsum("zpi,pj->zij", phi, psi.conj())
    names = [nm for nm in (("trial_walker_ovlp_base", "trial_walker_ovlp_base_numba", "trial_walker_ovlp_base_kernel") if c["kind"] == "ov"
             else ("trial_walker_ovlp_gf_base", "trial_walker_ovlp_gf_base_numba", "trial_walker_ovlp_gf_base_kernel"))]
    ran = 0
    for nm in names:
        try:
            f = get("openms.qmc.trial:" + nm)
        except Unavailable:
            continue
        ran += 1
        out = f(phi.copy(), psi.copy())
        if c["kind"] == "ov":
            close(np.linalg.det(out), np.linalg.det(S), nm + ": overlap determinant", rtol=1e-9)
        else:
            close(np.linalg.det(out[0]), np.linalg.det(S), nm + ": overlap determinant", rtol=1e-9)
            G = np.einsum("pi,zqi->zpq", psi.conj(), out[1])
            ref = np.array([(phi[z] @ np.linalg.inv(psi.conj().T @ phi[z]) @ psi.conj().T).T for z in range(c["nw"])])
            close(G, ref, nm + ": Green's function", rtol=1e-7, atol=1e-8)
    if not ran:
        raise Unavailable("overlap kernels")
    GF = get("openms.qmc.estimators:GF")
    g, gh = GF(psi, phi[0])
    ref = (phi[0] @ np.linalg.inv(psi.conj().T @ phi[0]) @ psi.conj().T).T
    close(g, ref, "estimators.GF", rtol=1e-7, atol=1e-8)
    return c["kind"]
