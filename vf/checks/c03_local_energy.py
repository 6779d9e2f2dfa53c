"""C03: local energies are exact mixed estimators of the Hamiltonian"""
import numpy as np
from hypothesis import strategies as st

from vf.core import Unavailable, attr, close, expect, get, law, rng
from vf.oracle import ManyBody, det_vector, lower
from vf.rig import (Synth, build_mol, cplx, fl, lowdin, make_mc, mol_strategy, quiet_call, seeds, sym, synth_strategy,
                    unitary)


def mixed(s, ops):
    """mixed estimators <T|O|W>/<T|W> of dense operators for all walkers"""
    T, phi = s.trial_dets(), s.dets()
    mb = ManyBody(s.nao, s.na, s.nb)
    t = mb.state(*T)
    out = []
    for z in range(s.nw):
        w = mb.state(phi[0][z], phi[1][z])
        d = np.vdot(t, w)
        out.append([np.vdot(t, O @ w) / d for O in ops])
    return np.array(out).T


RULE = "random integrals (alpha and beta one-body Hamiltonians equal or different), 2-5 orbitals, 1-3 electrons per spin, RHF and (complex) UHF trials, 1-4 random complex walkers with random weights; oracle: dense many-electron Hamiltonian; non-trivial: always (walkers differ from the trial)"


@law("C03", synth_strategy(5, 4, eps=fl(0.05, 1.0, 2), hsp=st.sampled_from([0.0, 0.7])), quick=480, cost=0.012, rule=RULE)
def electronic(c):
    s = Synth(c).scatter(c["eps"])
    mb = ManyBody(s.nao, s.na, s.nb)
    H1 = mb.onebody(s.h, s.hb)
    H2 = mb.hamiltonian(np.zeros_like(s.h), s.L)
    e1, e2 = mixed(s, [H1, H2])
    wt = np.array(s.walkers.weights)
    out = s.prop.local_energy(s.mc.h1e, s.mc.ltensor, s.walkers, s.trial, enuc=s.enuc)
    scale = dict(rtol=1e-7, atol=1e-7 * (1 + abs(e2).max() + abs(e1).max()))
    close(np.array(s.walkers.eloc), e1 + e2 + s.enuc, "local energy of each walker", **scale)
    close(out[0], wt @ (e1 + e2 + s.enuc).real, "weighted total energy", **scale)
    close(out[1], wt.sum(), "weight norm")
    close(out[2], wt @ e1.real, "weighted one-body energy", **scale)
    close(out[3], wt @ e2.real, "weighted two-body energy", **scale)
    close(np.array(s.walkers.weights), wt, "weights after an energy measurement")
    import inspect

    try:
        f = get("openms.qmc.estimators:" + ("local_energy_SD_UHF" if s.ncomp == 2 else "local_energy_SD_RHF"))
    except Unavailable:
        f = None
    if f and list(inspect.signature(f).parameters) == ["trial", "walkers", "enuc"]:
        f1, f2 = f(s.trial, s.walkers, enuc=s.enuc)
        close(np.asarray(f1) + np.asarray(f2), e1 + e2 + s.enuc, "local energy from the half-rotated integrals with a nuclear energy", **scale)
        f1, f2 = f(s.trial, s.walkers)
        close(np.asarray(f1) + np.asarray(f2), e1 + e2, "local energy from the half-rotated integrals", **scale)
    a, b = s.dets()
    return f"ncomp={s.ncomp}"


@law("C03", synth_strategy(5, 4, mixing=fl(0.0, 0.5, 2)), quick=240, cost=0.012,
     rule="zero variance: when the trial is an exact eigenstate of a one-body Hamiltonian (or H acts within the walkers' space) every walker has the same local energy; and an energy is unchanged by mixing occupied columns, by permuting walkers and by rescaling all weights; non-trivial: always")
def zero_variance(c):
    s = Synth(c).scatter(0.5)
    r = s.r
    # a one-body Hamiltonian: no two-electron part, trial = its eigenvectors
    hh = s.h
    ev, C = np.linalg.eigh(hh)
    s.trial.psia = np.ascontiguousarray(C[:, : s.na])
    s.trial.psib = np.ascontiguousarray(C[:, : s.nb])
    s.trial.psi = s.trial.psia if s.ncomp == 1 else np.hstack([s.trial.psia, s.trial.psib])
    s.scatter(0.5)
    s.trial.half_rotate_integrals(np.array([hh] * s.ncomp), np.zeros_like(s.L))
    s.prop.local_energy(s.mc.h1e, s.mc.ltensor, s.walkers, s.trial, enuc=s.enuc)
    ref = ev[: s.na].sum() + ev[: s.nb].sum() + s.enuc
    close(np.array(s.walkers.eloc), np.full(s.nw, ref, complex), "local energy with an exact trial", rtol=1e-7, atol=1e-7)
    # invariances with the full Hamiltonian
    s.trial.half_rotate_integrals(np.array([hh] * s.ncomp), s.L)
    out = s.prop.local_energy(s.mc.h1e, s.mc.ltensor, s.walkers, s.trial, enuc=s.enuc)
    el = np.array(s.walkers.eloc)
    p = r.permutation(s.nw)
    lam = 0.1 + 3 * r.random()
    A = np.eye(s.na) + 0.3 * cplx(r, s.na, s.na)
    w = s.walkers
    w.phiwa = np.ascontiguousarray((np.array(w.phiwa) @ A)[p])
    if s.ncomp > 1:
        w.phiwb = np.ascontiguousarray((np.array(w.phiwb) * (1.0 + 0.7j))[p])
    w.weights = np.array(w.weights)[p] * lam
    out2 = s.prop.local_energy(s.mc.h1e, s.mc.ltensor, w, s.trial, enuc=s.enuc)
    t = dict(rtol=1e-6, atol=1e-6 * (1 + abs(el).max()))
    close(np.array(w.eloc), el[p], "local energies after mixing columns and permuting walkers", **t)
    close(out2[0] / out2[1], out[0] / out[1], "energy after permuting walkers and rescaling weights", **t)
    return f"ncomp={s.ncomp}"


def eb_case(**extra):
    return mol_strategy(["H2", "HeH+", "H3+", "H2t"], ("sto-3g",), nmode=st.integers(1, 3), nph=st.integers(1, 4), uhf=st.booleans(), ragged=st.booleans(),
                        nw=st.integers(1, 3), gs=fl(0.0, 0.8, 2), ws=st.lists(fl(0.05, 2.0, 2), min_size=3, max_size=3), **extra)


class EB:
    """a real electron-boson AFQMC object with random couplings"""

    def __init__(self, c, **kw):
        self.mol = mol = build_mol(c)
        r = self.r = rng(c)
        self.nao = mol.nao_nr()
        self.na, self.nb = mol.nelec
        uhf = c["uhf"] or self.na != self.nb
        self.nm = c["nmode"]
        self.w = np.array(c["ws"][: self.nm])
        self.g = c["gs"] * sym(r, self.nm, self.nao, self.nao)
        nph = c["nph"] + 1
        self.nphs = [nph] * self.nm
        kw.update(uhf=uhf, num_walkers=c["nw"], chol_thresh=1e-10)
        if c.get("ragged"):
            # modes with their own photon truncations come in through a cavity object
            from pyscf import scf

            self.nphs = [int(k) for k in 2 + (nph + np.arange(self.nm) * (1 + c["seed"] % 3)) % 4]
            mf = scf.RHF(mol) if not mol.spin else scf.ROHF(mol)
            mf.kernel()
            vec = r.standard_normal((self.nm, 3))
            ph = quiet_call(get("openms.lib.boson:Photon"), mol, mf=mf, omega=self.w.copy(), vec=vec,
                            gfac=np.full(self.nm, 0.1), nboson_states=list(self.nphs))
            ph.gmat = self.g.copy()
            self.mc = make_mc(ph, mf=mf, **kw)
        else:
            self.mc = make_mc(mol, boson_freq=self.w.copy(), gmat=self.g.copy(), nphoton=nph, **kw)
        o = np.cumsum([0] + self.nphs)
        self.sl = [slice(o[m], o[m + 1]) for m in range(self.nm)]
        self.trial, self.walkers, self.prop = self.mc.trial, self.mc.walkers, self.mc.propagator
        self.ncomp = 2 if uhf else 1
        self.nw = self.walkers.nwalkers
        # exact operators in the Loewdin basis
        X = lowdin(mol)
        self.X = X
        self.go = np.einsum("pi,npq,qj->nij", X, self.g, X)
        h = X.T @ (mol.intor("int1e_kin") + mol.intor("int1e_nuc")) @ X
        self.h = h + 0.5 * np.einsum("npq,nqr->pr", self.go, self.go)
        self.L = np.array(self.mc.ltensor)[: self.mc.nbarefields]
        self.enuc = mol.energy_nuc()

    scatter_e = Synth.scatter
    dets, trial_dets = Synth.dets, Synth.trial_dets

    def scatter(self, eps=0.3):
        self.scatter_e(eps)
        # the boson trial: as built, a product of coherent states, or an arbitrary complex state
        k = self.r.integers(3)
        if k == 1:
            quiet_call(self.trial.initialize_boson_trial_with_z, 0.6 * cplx(self.r, self.nm), list(self.nphs))
        elif k == 2:
            b = np.array(self.trial.boson_psi) + 0.3 * cplx(self.r, sum(self.nphs))
            self.trial.boson_psi = b / np.linalg.norm(b)
        b = np.array(self.trial.boson_psi)
        self.walkers.boson_phiw = b[None] + 0.3 * cplx(self.r, self.nw, b.size)
        return self


@law("C03", eb_case(dec=st.integers(0, 2)), quick=256, cost=0.08,
     rule="electron-boson objects on 2-4 electron molecules with 1-3 modes of 2-5 Fock states and random couplings; bosonic and coupling energies against the dense photon-number and displacement operators; non-trivial when the coupling is nonzero")
def electron_boson(c):
    kw = {}
    if c["dec"] and c["nmode"] == 1:
        kw["propagator_options"] = dict(decouple_bilinear=True, decouple_scheme=c["dec"])
    s = EB(c, **kw).scatter(0.4)
    mb = ManyBody(s.nao, s.na, s.nb)
    ops = [mb.onebody(s.h), mb.hamiltonian(np.zeros_like(s.h), s.L)] + [mb.onebody(g) for g in s.go]
    res = mixed(s, ops)
    e1, e2, gx = res[0], res[1], res[2:]
    psi, phi = np.array(s.trial.boson_psi), np.array(s.walkers.boson_phiw)
    S = phi @ psi.conj()
    if abs(S).min() < 1e-3:
        return "trivial"
    eb = np.zeros(s.nw, complex)
    eg = np.zeros(s.nw, complex)
    for m in range(s.nm):
        sl, n = s.sl[m], s.nphs[m]
        x = lower(n) + lower(n).T
        eb += s.w[m] * (phi[:, sl] * np.arange(n)) @ psi[sl].conj() / S
        eg += np.sqrt(s.w[m] / 2) * gx[m] * ((phi[:, sl] @ x) @ psi[sl].conj()) / S
    wt = np.array(s.walkers.weights)
    out = s.prop.local_energy(s.mc.h1e, s.mc.ltensor, s.walkers, s.trial, enuc=s.enuc)
    expect(len(out) == 6, f"electron-boson measurement returned {len(out)} values")
    t = dict(rtol=1e-6, atol=1e-6)
    close(out[4], wt @ eb.real, "weighted boson energy", **t)
    close(out[5], wt @ eg.real, "weighted electron-boson coupling energy", **t)
    close(np.array(s.walkers.eloc), e1 + e2 + s.enuc + eb + eg, "local energy of each walker", **t)
    close(out[2], wt @ e1.real, "weighted one-body energy", **t)
    close(out[3], wt @ e2.real, "weighted two-body energy", **t)
    close(out[0], wt @ (e1 + e2 + s.enuc + eb + eg).real, "weighted total energy", **t)
    close(out[1], wt.sum(), "weight norm")
    return f"{s.nm} modes" if c["gs"] else "trivial"


_K = st.fixed_dictionaries(dict(n=st.integers(1, 6), k=st.integers(1, 4), nw=st.integers(1, 3), nc=st.integers(1, 4), seed=seeds,
                                cplx=st.booleans(), rank=st.integers(1, 3), frac=fl(0.1, 0.9, 1), band=st.integers(0, 5)))


@law("C03", _K, quick=120, cost=0.02, jit=True, rule="every Coulomb/exchange/one-body energy kernel (compiled, plain, low-rank/banded) on random tensors against explicit contractions; non-trivial: always")
def kernels(c):
    r = rng(c)
    n, k, nw, nc = c["n"], min(c["k"], c["n"]), c["nw"], c["nc"]
    psi = unitary(r, n, c["cplx"])[:, :k]
    L = sym(r, nc, n, n)
    h = sym(r, n, n)
    W = psi[None] + 0.4 * cplx(r, nw, n, k)
    Gh = np.array([w @ np.linalg.inv(psi.conj().T @ w) for w in W])  # q i
    G = np.einsum("pi,zqi->zpq", psi.conj(), Gh)
    rL = np.ascontiguousarray(np.einsum("pi,npq->nqi", psi.conj(), L).astype(complex))
    rh = np.einsum("pi,pq->qi", psi.conj(), h)
    x = np.einsum("npr,zps,nqs,zqr->z", L, G, L, G)
    j = np.einsum("npq,zpq->zn", L, G)
    e1 = np.einsum("pq,zpq->z", h, G)
    t = dict(rtol=1e-7, atol=1e-7 * (1 + abs(x).max()))
    E = "openms.qmc.estimators:"
    ran = 0

    def opt(nm):
        nonlocal ran
        try:
            f = get(E + nm)
        except Unavailable:
            return None
        ran += 1
        return f

    for nm in ("exx_rltensor_Ghalf", "exx_rltensor_Ghalf_numba", "exx_rltensor_Ghalf_kernel"):
        f = opt(nm)
        if f:
            close(f(rL.copy(), Gh.copy()), 0.5 * x, nm + ": exchange energy", **t)
    f = opt("ecoul_rltensor_uhf")
    if f:
        close(f(rL, Gh), 0.5 * (j**2).sum(1), "Coulomb energy of one spin", **t)
        close(f(rL, Gh, rL * 0.7, Gh), 0.5 * ((1.7 * j) ** 2).sum(1), "Coulomb energy of two spins", **t)
    f = opt("e_rh1e_Ghalf")
    if f:
        close(f(rh, Gh), e1, "one-body energy", **t)
    closed = 2 * e1 + 2 * (j**2).sum(1) - x
    f = opt("local_eng_elec_chol_new")
    if f:
        close(f(h, L, G), closed, "local_eng_elec_chol_new", **t)
    f = opt("local_eng_elec_chol")
    if f:
        TL = np.einsum("nqi,zqj->znij", rL, Gh)
        close(f(TL, h, j, G), closed, "local_eng_elec_chol", **t)
    f = opt("exx_mixed_rank_sparsity")
    if f:
        Ls = []
        for l in range(nc):
            if l % 2:
                a = r.standard_normal((n, min(c["rank"], n)))
                Ls.append(a @ a.T)
            else:
                a = sym(r, n, n)
                i = np.arange(n)
                a[abs(i[:, None] - i[None]) > c["band"]] = 0
                Ls.append(a)
        Ls = np.array(Ls)
        Gs = cplx(r, nw, n, n)
        bw = get("openms.qmc.tools:get_blksize")(Ls, 1e-12)
        plan, meta = quiet_call(get("openms.qmc.tools:build_Ltensor_plan"), Ls, bw, max_rank_fraction=c["frac"])
        LG = np.einsum("npq,zpr->znqr", Ls, Gs)
        close(f(Ls, Gs, plan, meta), 0.5 * np.einsum("znqr,znrq->z", LG, LG), "exchange energy with the low-rank/banded plan", rtol=1e-7, atol=1e-7)
    if not ran:
        raise Unavailable("energy kernels")
    return "kernels"
