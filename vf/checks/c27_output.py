"""C27: the output level changes nothing; C28: post-Hartree-Fock integrals of a molecule in a cavity"""
import io

import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf.checks.c11_qedhf import SMALL, modes, qedhf, rand_dm, ref_ops
from vf.core import Trivial, Unavailable, attr, close, expect, get, law, rng
from vf.oracle import ManyBody, lower
from vf.rig import build_mol, fl, make_mc, mol_strategy, quiet_call, seeds, sym

SC, VT = "openms.mqed.scqedhf:RHF", "openms.mqed.vtqedhf:RHF"
_M = dict(nm=st.integers(1, 2), lam=fl(0.01, 0.5, 2), w=fl(0.1, 2.0, 2), mseed=st.integers(0, 9999))


@law("C27", mol_strategy(["H2", "HeH+", "H3+", "LiH"], ("sto-3g", "6-31g"), verb=st.integers(1, 9), solver=st.sampled_from(["hf", "fock", "sc", "vt"]), flat=st.booleans(), cd=st.booleans(), opt=st.sampled_from([None, None, "origin", "basis", "nuc"]), **_M), quick=70, cost=0.4,
     rule="QED-HF in coherent and photon-number form, SC- and VT-QED-HF, full or Cholesky integrals, shifted origin, incomplete basis or electronic dipole only, also with couplings that are singular on the molecule: energies, orbital energies, densities and variational parameters of a silent and of a talkative run are identical; non-trivial when the talkative run wrote something")
def mean_field(c):
    k = c["solver"]
    v, w = modes(c, 1 if k in ("sc", "vt") or k == "fock" else None)
    mol0 = build_mol(c)
    if mol0.nao > 6:
        c = dict(c, basis="sto-3g")
    if c["flat"]:
        # planar molecule, polarisation out of the plane: no coupling between s functions
        v = np.linalg.norm(v, axis=1)[:, None] * np.array([[1.0, 0.0, 0.0]])
        c = dict(c, jitter=0.0)
    res, n = [], 0
    for verb in (0, c["verb"]):
        mol = build_mol(c)
        out = io.StringIO()
        if c["flat"]:
            xyz = mol.atom_coords(unit="ANG")
            xyz[:, 0] = 0.0
            mol = build_mol(c, xyz=xyz)
        mol.stdout = out
        mol.verbose = verb
        kw = {}
        if k == "fock":
            kw.update(use_cs=False, nboson_states=3)
        if k in ("sc", "vt") and c["cd"]:
            kw.update(CD_anyway=True, CD_thresh=1e-10)
        kw.update({"origin": dict(origin_shift=np.array([0.3, -0.2, 0.5])), "basis": dict(complete_basis=False), "nuc": dict(add_nuc_dipole=False)}.get(c["opt"], {}))
        cls = {"sc": SC, "vt": VT}.get(k, "openms.mqed.qedhf:RHF")
        mf = quiet_call(get(cls), mol, cavity_mode=v.copy(), cavity_freq=w.copy(), **kw)
        mf.verbose, mf.stdout = verb, out
        mf.max_cycle = 25
        quiet_call(mf.kernel)
        r = dict(energy=mf.e_tot, orbitals=np.asarray(mf.mo_energy), density=np.asarray(mf.make_rdm1()), converged=float(mf.converged))
        for nm in ("eta",):
            if hasattr(mf, nm) and getattr(mf, nm) is not None:
                r[nm] = np.asarray(getattr(mf, nm))
        if k == "vt":
            r["strength"] = np.asarray(mf.qed.couplings_var)
        res.append(r)
        n = len(out.getvalue())
    expect(res[0].keys() == res[1].keys(), "different results")
    for q in res[0]:
        close(res[1][q], res[0][q], f"{q} at output level {c['verb']}", 1e-9, 1e-9)
    if n == 0:
        raise Trivial


_QM = dict(verb=st.integers(1, 9), steps=st.integers(2, 6), pf=st.integers(1, 2), field=st.booleans(), kind=st.sampled_from(["bare", "boson"]), uhf=st.booleans(), nw=st.integers(2, 5), nm=st.integers(1, 2), nph=st.integers(1, 3), ws=st.lists(fl(0.1, 2, 2), min_size=2, max_size=2), thr=st.sampled_from([1e-9, 1e-6, 1e-3, 1e-2, 1e-1]), blk=st.booleans())


@law("C27", mol_strategy(["H2", "HeH+", "H3+", "LiH"], ("sto-3g",), **_QM), quick=60, cost=0.2,
     rule="AFQMC runs of molecules and of molecules coupled to photon modes with a fixed seed, one-shot or blocked decomposition, tight and loose thresholds: energies, walkers and weights of a silent and of a talkative run are identical; non-trivial when the talkative run wrote something")
def qmc(c):
    import contextlib

    nm = c["nm"]
    res, n = [], 0
    for verb in (0, c["verb"]):
        mol = build_mol(c)
        out = io.StringIO()
        mol.stdout, mol.verbose = out, verb
        r = rng(c)
        kw = dict(num_walkers=c["nw"], dt=0.01, total_time=0.01 * (c["steps"] + 0.5), uhf=c["uhf"] or mol.spin != 0, random_seed=c["seed"] % 2**31, verbose=verb, renorm_freq=2, property_calc_freq=c["pf"], chol_thresh=c["thr"], block_decompose_eri=c["blk"])
        if c["kind"] == "boson":
            g = 0.2 * sym(r, nm, mol.nao_nr(), mol.nao_nr())
            kw.update(boson_freq=np.array(c["ws"][:nm]), gmat=g, nphoton=c["nph"] + 1)
        with contextlib.redirect_stdout(out):
            mc = make_mc(mol, **kw)
            mc.verbose, mc.stdout = verb, out
            np.random.seed(c["seed"] % 2**31)
            e = mc.kernel()
        wk = mc.walkers
        d = dict(energies=np.asarray(e[1], complex), times=np.asarray(e[0], float), weights=np.asarray(wk.weights), walkers=np.asarray(wk.phiwa))
        if c["kind"] == "boson":
            d["photons"] = np.asarray(wk.boson_phiw)
        res.append(d)
        n = len(out.getvalue())
    for q in res[0]:
        close(res[1][q], res[0][q], f"{q} at output level {c['verb']}", 1e-9, 1e-9)
    if n == 0:
        raise Trivial


# ------------------------------------------------------------------- C28
def anti_so(eri, ca, cb):
    """antisymmetrised spin-orbital integrals <pq||rs> of orbitals of both spins"""
    n = ca.shape[1]
    C = (ca, cb)
    g = np.zeros((2 * n,) * 4)
    for a in (0, 1):
        for b in (0, 1):
            A, B = slice(a * n, a * n + n), slice(b * n, b * n + n)
            mo = np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, C[a], C[a], C[b], C[b], optimize=True)
            # <pq|rs> = (pr|qs)
            g[A, B, A, B] = mo.transpose(0, 2, 1, 3)
    return g - g.transpose(0, 1, 3, 2)


@law("C28", mol_strategy(["H2", "HeH+", "H3+", "H4", "LiH"], ("sto-3g", "6-31g"), rep=st.sampled_from(["cs", "fock", "cs", "fock", "bare"]), comp=st.booleans(), conv=st.sampled_from([False, False, True]), unres=st.booleans(), **_M), quick=300, cost=0.06,
     rule="photon objects of molecules with 1-2 modes on coherent-state, photon-vacuum and uncoupled references, converged or random orbitals, the latter also different for the two spins with any distribution of the electrons: core, mean-field and antisymmetrised two-electron integrals, electron-photon couplings and their mean field, frequencies and reference energy against the Pauli-Fierz Hamiltonian from the bare integrals; for two electrons the dense Hamiltonian rebuilt from them; non-trivial when the coupling changes the two-electron integrals by > 1e-8")
def posthf(c):
    mol = build_mol(c)
    if mol.nao > 8:
        mol = build_mol(dict(c, basis="sto-3g"))
    r = rng(c)
    v, w = modes(c)
    if c["rep"] == "bare":
        v = 0 * v
    mf = qedhf(mol, v, w, use_cs=c["rep"] != "fock", complete_basis=c["comp"])
    q = mf.qed
    no, n = mol.nelectron // 2, mol.nao
    if c["conv"]:
        mf.conv_tol = 1e-11
        mf.max_cycle = 100
        quiet_call(mf.kernel)
        if not mf.converged:
            raise Trivial
    else:
        s = mol.intor("int1e_ovlp")
        x = sl.inv(sl.sqrtm(s)).real
        k = r.standard_normal((n, n))
        mf.mo_coeff = x @ sl.expm(0.5 * (k - k.T))
        mf.mo_occ = np.array([2.0] * no + [0.0] * (n - no))
        mf.mo_energy = np.arange(n, dtype=float)
    C = np.array(mf.mo_coeff)
    Cb, nb_ = C, no
    unres = c["unres"] and not c["conv"]
    if unres:  # unrestricted determinant, possibly an open shell
        no = min(n, no + int(r.integers(0, 2)))
        nb_ = mol.nelectron - no
        k = r.standard_normal((n, n))
        Cb = x @ sl.expm(0.5 * (k - k.T))
        mf.mo_coeff = (C, Cb)
        mf.mo_occ = np.array([[1.0] * m + [0.0] * (n - m) for m in (no, nb_)])
    dm = C[:, :no] @ C[:, :no].T + Cb[:, :nb_] @ Cb[:, :nb_].T
    if n == no:
        raise Trivial
    h0 = np.array(mf.get_hcore())
    quiet_call(attr(q, "get_mos"))
    quiet_call(attr(q, "get_gmat_so"))
    d, quad = ref_ops(mol, v)
    if not c["comp"]:
        si = np.linalg.inv(mol.intor("int1e_ovlp"))
        quad = np.array([x @ si @ x for x in d])
    z = np.einsum("apq,pq->a", d, dm) if c["rep"] != "fock" else np.zeros(len(d))
    S = mol.intor("int1e_ovlp")
    h = mol.intor("int1e_kin") + mol.intor("int1e_nuc")
    close(h0, h, "core Hamiltonian", 1e-10)
    # (lambda.D - z)^2 / 2: one-electron part (constant spread over the electrons), two-electron part
    h1 = h + np.einsum("apq->pq", 0.5 * quad) - np.einsum("a,apq->pq", z, d) + 0.5 * np.sum(z * z) * S / mol.nelectron
    eri = mol.intor("int2e")
    eri2 = eri + np.einsum("apq,ars->pqrs", d, d)
    I = anti_so(eri2, C, Cb)
    O = list(range(no)) + list(range(n, n + nb_))
    V = list(range(no, n)) + list(range(n + nb_, 2 * n))
    so = lambda x: sl.block_diag(C.T @ x @ C, Cb.T @ x @ Cb)
    H1 = so(h1)
    F = H1 + np.einsum("piqi->pq", I[:, O][:, :, :, O])

    def blk(b, T, what):
        seen = 0
        for key in [k for k in vars(b) if set(k) <= set("ov") and getattr(b, k) is not None]:
            ix = [O if ch == "o" else V for ch in key]
            lead = [range(x) for x in T.shape[: T.ndim - len(key)]]
            close(getattr(b, key), T[np.ix_(*lead, *ix)], f"{what} {key}", 1e-8, 1e-8)
            seen += 1
        expect(seen >= 4, f"{what}: {seen} blocks")

    t = quiet_call(attr(q, "tmat"))
    T = np.zeros((2 * n, 2 * n))
    T[:n, :n] = T[n:, n:] = h
    close(t, T, "spin-orbital core Hamiltonian", 1e-9)
    blk(quiet_call(q.g_fock), F, "mean-field matrix")
    close(mf.get_hcore(), h, "core Hamiltonian after building the integrals", 1e-10)
    full = quiet_call(q.get_I, True)
    close(full, I, "two-electron integrals", 1e-8, 1e-8)
    close(full, -full.transpose(1, 0, 2, 3), "antisymmetry", 1e-9, 1e-9)
    blk(quiet_call(q.get_I), I, "two-electron integrals")
    g = np.zeros((len(d), 2 * n, 2 * n))
    for a in range(len(d)):
        g[a] = np.sqrt(w[a] / 2) * so(d[a])
    ga, gb = quiet_call(attr(q, "gint"))
    blk(ga, g, "coupling")
    blk(gb, g, "conjugate coupling")
    G = np.einsum("aii->a", g[:, O][:, :, O]) - np.sqrt(w / 2) * z
    for m in quiet_call(attr(q, "mfG")):
        close(m, G, "mean-field coupling", 1e-8, 1e-8)
    close(q.get_omega(), w, "frequencies")
    e = mol.energy_nuc() + np.sum(H1[O, O]) + 0.5 * np.einsum("ijij->", I[np.ix_(O, O, O, O)])
    close(quiet_call(attr(q, "hf_energy")), e, "reference energy", 1e-9, 1e-8)
    if c["conv"]:
        close(mf.e_tot, e, "reference energy vs converged mean field", 1e-8, 1e-7)
    if not unres and mol.nelectron == 2 and n <= 3 and len(d) == 1:
        # dense: reference energy + normal-ordered parts = Pauli-Fierz Hamiltonian with displaced photons
        mb = ManyBody(n, 1, 1)
        nb = 3
        b = lower(nb)
        cc = lambda x: C.T @ x @ C
        D = mb.onebody(cc(d[0])).real
        si = np.linalg.inv(S)
        D2 = mb.onebody(cc(quad[0])).real + D @ D - mb.onebody(cc(d[0] @ si @ d[0])).real
        ee, uu = np.linalg.eigh(np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, C, C, C, C, optimize=True).reshape(n * n, n * n))
        Ls = [(np.sqrt(x) * uu[:, i]).reshape(n, n) for i, x in enumerate(ee) if x > 1e-13]
        He = mb.hamiltonian(cc(h), Ls).real + mol.energy_nuc() * np.eye(len(D)) + 0.5 * (D2 - 2 * z[0] * D + z[0] ** 2 * np.eye(len(D)))
        PF = np.kron(He, np.eye(nb)) + w[0] * np.kron(np.eye(len(D)), np.diag(np.arange(nb))) + np.sqrt(w[0] / 2) * np.kron(D - z[0] * np.eye(len(D)), b + b.T)
        # from the integrals
        f = np.zeros((2 * n, 2 * n))
        fb = q.g_fock()
        for k in ("oo", "ov", "vo", "vv"):
            f[np.ix_(*[O if ch == "o" else V for ch in k])] = getattr(fb, k)
        one = f - np.einsum("piqi->pq", full[:, O][:, :, :, O])
        ee, uu = np.linalg.eigh(full[:n, n:, :n, n:].transpose(0, 2, 1, 3).reshape(n * n, n * n))
        Li = [(x, uu[:, i].reshape(n, n)) for i, x in enumerate(ee) if abs(x) > 1e-13]
        Hi = mb.onebody(one[:n, :n], one[n:, n:]).real
        zero = np.zeros((n, n))
        for x, L in Li:
            Hi = Hi + x * (mb.onebody(L, zero) @ mb.onebody(zero, L)).real
        gi = mb.onebody(g[0, :n, :n], g[0, n:, n:]).real
        gref = np.einsum("ii->", g[0][np.ix_(O, O)])
        X = gi + (G[0] - gref) * np.eye(len(gi))
        reb = np.kron(Hi + mol.energy_nuc() * np.eye(len(D)), np.eye(nb)) + np.kron(X, b + b.T) + w[0] * np.kron(np.eye(len(D)), np.diag(np.arange(nb)))
        close(reb, PF, "Hamiltonian rebuilt from the integrals", 1e-7, 1e-7)
    if np.max(np.abs(eri2 - eri)) < 1e-8:
        raise Trivial
