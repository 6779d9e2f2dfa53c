"""C01: the integrals a QMC run is built from represent the Hamiltonian"""
import numpy as np
from hypothesis import strategies as st

from vf.core import Trivial, close, expect, get, law, rng
from vf.rig import MOLS, build_mol, fl, lowdin, make_mc, mol_strategy, quiet_call, seeds, sym

SMALL = ["H2", "HeH+", "H3+", "H4", "LiH", "He2", "H3", "H2t", "BH"]
BASES = ("sto-3g", "6-31g", "6-31g**")


def _exact(mol, X):
    eri = mol.intor("int2e")
    h = X.T @ (mol.intor("int1e_kin") + mol.intor("int1e_nuc")) @ X
    eri = np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, X, X, X, X, optimize=True)
    return h, eri


def _g(r, nmode, nao, scale):
    return scale * sym(r, nmode, nao, nao)


@law("C01", mol_strategy(SMALL, BASES, lth=st.integers(3, 10), ng=st.integers(0, 3), blocked=st.booleans(), gs=fl(0.01, 1.0, 2)),
     quick=360, cost=0.048,
     rule="random small molecule/basis (s,p shells) x threshold 1e-3..1e-10 x 0-3 coupling matrices x full/blocked; always non-trivial")
def factorisation(c):
    if c["mol"] in ("LiH", "BH") and c["basis"] == "6-31g**" and c["blocked"] is False:
        c["basis"] = "6-31g"
    mol = build_mol(c)
    r = rng(c)
    nao = mol.nao_nr()
    g = _g(r, c["ng"], nao, c["gs"]) if c["ng"] else None
    g0 = None if g is None else g.copy()
    thr = 10.0 ** -c["lth"]
    chols = get("openms.qmc.tools:chols_blocked" if c["blocked"] else "openms.qmc.tools:chols_full")
    L = quiet_call(chols, mol, thresh=thr, g=g)
    ref = mol.intor("int2e")
    if g is not None:
        ref = ref + np.einsum("npq,nrs->pqrs", g0, g0)
        close(g, g0, "coupling matrices passed in were modified", atol=0, rtol=0)
    expect(L.ndim == 3 and L.shape[1:] == (nao, nao), f"factor shape {L.shape}")
    rec = np.einsum("npq,nrs->pqrs", L, L)
    # Cauchy-Schwarz: every element of the residual is bounded by the largest
    # diagonal one, which the threshold bounds (sum of dropped factors for SVD)
    tol = 2 * thr + 1e-8 * max(1, abs(ref).max()) + (0 if c["blocked"] else thr * nao**2)
    err = abs(rec - ref).max()
    expect(err <= tol, f"factorised two-electron integrals deviate by {err:.3e} (threshold {thr:g}, tol {tol:.3e})")
    close(L, np.swapaxes(L, 1, 2), "factors are not symmetric", atol=max(1e-7, 10 * thr**0.5 * 1e-2), rtol=1e-6)
    return "blocked" if c["blocked"] else "full"


@law("C01", mol_strategy(SMALL, BASES[:2], lth=st.integers(5, 10), blocked=st.booleans(), given=st.booleans()),
     quick=200, cost=0.048, rule="h1e/chol in the orthonormal (or a user-given) basis and nuclear energy vs dense transformation")
def basis_change(c):
    mol = build_mol(c)
    r = rng(c)
    X = lowdin(mol)
    if c["given"]:
        q, _ = np.linalg.qr(r.standard_normal(X.shape))
        X = X @ q
    fn = get("openms.qmc.tools:get_h1e_chols")
    thr = 10.0 ** -c["lth"]
    h, L, nuc = quiet_call(fn, mol, Xmat=X if c["given"] else None, thresh=thr, block_decompose_eri=c["blocked"])
    href, eref = _exact(mol, X)
    close(h, href, "one-electron integrals in the orthonormal basis")
    close(nuc, mol.energy_nuc(), "nuclear repulsion")
    amp = np.linalg.norm(X, 2) ** 4
    err = abs(np.einsum("npq,nrs->pqrs", L, L) - eref).max()
    tol = amp * (mol.nao_nr() ** 2 * 2 * thr + 1e-8)
    expect(err <= tol, f"two-electron integrals in the orthonormal basis deviate by {err:.3e} (tol {tol:.3e})")
    return "blocked" if c["blocked"] else "full"


@law("C01", mol_strategy(["H2", "HeH+", "H3+", "H4", "LiH", "He2"], BASES[:2], blocked=st.booleans(), uhf=st.booleans(),
                         nmode=st.integers(0, 3), gs=fl(0.01, 0.8, 2), decouple=st.integers(0, 2), via=st.sampled_from(["gmat", "photon"]),
                         ws=st.lists(fl(0.05, 2.0, 2), min_size=3, max_size=3), lth=st.integers(6, 10)),
     quick=224, cost=0.14,
     rule="AFQMC object built through its constructor, with 0-3 cavity modes given as coupling matrices or as a Photon object, with/without decoupled bilinear term; the operators it holds are compared with the Pauli-Fierz integrals; non-trivial when >=1 mode")
def pauli_fierz(c):
    mol = build_mol(c)
    r = rng(c)
    nao = mol.nao_nr()
    kw = dict(num_walkers=2, block_decompose_eri=c["blocked"], uhf=c["uhf"], chol_thresh=10.0 ** -c["lth"])
    nm = c["nmode"]
    g = None
    sysm = mol
    dec = c["decouple"] if nm else 0
    if nm:
        w = np.array(c["ws"][:nm])
        if c["via"] == "gmat":
            g = _g(r, nm, nao, c["gs"])
            kw.update(boson_freq=w, gmat=g.copy(), nphoton=3)
        else:
            from pyscf import scf
            mf = scf.RHF(mol)
            mf.kernel()
            vec = r.standard_normal((nm, 3))
            vec /= np.linalg.norm(vec, axis=1)[:, None]
            gf = c["gs"] * (0.5 + r.random(nm))
            Photon = get("openms.lib.boson:Photon")
            sysm = quiet_call(Photon, mol, mf=mf, omega=w.copy(), vec=vec.copy(), gfac=gf.copy(), n_boson_states=3)
            sysm.get_gmatao()
            chg, xyz = mol.atom_charges(), mol.atom_coords()
            with mol.with_common_orig(chg @ xyz / chg.sum()):
                d = -mol.intor("int1e_r")
            g = np.einsum("n,nx,xpq->npq", gf, vec, d)
            kw["mf"] = mf
        if dec:
            kw["propagator_options"] = dict(decouple_bilinear=True, decouple_scheme=dec)
            # the decoupled bosonic fields are only implemented for one mode
            if nm > 1:
                kw["propagator_options"] = None
                dec = 0
    mc = make_mc(sysm, **kw)
    X = lowdin(mol)
    h, eri = _exact(mol, X)
    if nm:
        go = np.einsum("pi,npq,qj->nij", X, g, X)
        h = h + 0.5 * np.einsum("npq,nqr->pr", go, go)
        eri = eri + np.einsum("npq,nrs->pqrs", go, go)
        close(mc.geb, go * np.sqrt(w / 2)[:, None, None], "electron-boson coupling operator")
    ncomp = 2 if c["uhf"] else 1
    close(mc.h1e, np.array([h] * ncomp), "one-electron operator of the run")
    close(mc.nuc_energy, mol.energy_nuc(), "nuclear repulsion of the run")
    nb = mc.nbarefields
    L = mc.ltensor
    amp = np.linalg.norm(X, 2) ** 4
    tol = amp * (nao**2 * 2 * 10.0 ** -c["lth"] + 1e-8)
    err = abs(np.einsum("npq,nrs->pqrs", L[:nb], L[:nb]) - eri).max()
    expect(err <= tol, f"two-electron operator of the run deviates by {err:.3e} (tol {tol:.3e})")
    # the extra fields of a decoupled bilinear term carry no electronic interaction
    if dec:
        ex = L[nb:]
        expect(len(ex) > 0, "decoupling the bilinear term added no field")
        close(np.einsum("npq,nrs->pqrs", ex, ex), np.zeros((nao,) * 4), "purely electronic part of the decoupled bilinear term")
    else:
        expect(len(L) == nb, f"{len(L)-nb} unexpected extra fields")
    if not nm:
        return "no cavity"
    return f"{nm} modes via {c['via']} dec={dec}"


_GC = st.fixed_dictionaries(dict(shells=st.lists(st.tuples(st.integers(0, 2), st.integers(1, 3), st.integers(1, 3), st.integers(0, 1)), min_size=1, max_size=4),
                                 lth=st.integers(4, 9), ng=st.integers(0, 2), fac=st.sampled_from([1, 2, 15, 15]), blocked=st.booleans(), bond=fl(0.8, 2.0, 1), seed=seeds))


@law("C01", _GC, quick=150, cost=0.03,
     rule="random basis sets (s, p, d shells with 1-3 primitives and 1-3 contractions each, in any order) on two atoms, with 0-2 coupling matrices and with a limit on the number of factors: factors reproduce the integrals, or, when the limit is reached, leave a residual that is positive and bounded by its diagonal; non-trivial with a generally contracted shell or a limit")
def general_basis(c):
    from pyscf import gto
    r = rng(c)
    bas = [[], []]
    nao = 0
    for l, npr, nct, at in c["shells"]:
        nct = min(nct, npr)
        if nao + nct * (2 * l + 1) > 12:
            continue
        nao += nct * (2 * l + 1)
        ex = 0.15 * 3.0 ** np.sort(r.random(npr) + np.arange(npr))[::-1]
        co = r.standard_normal((npr, nct)) * 0.3 + np.eye(npr, nct)
        bas[at].append([l] + [[float(e)] + [float(x) for x in row] for e, row in zip(ex, co)])
    bas = [b or [[0, [0.5, 1.0]]] for b in bas]
    mol = gto.M(atom=f"H 0 0 0; He 0.1 0.3 {c['bond']}", basis={"H": bas[0], "He": bas[1]}, spin=1, verbose=0)
    nao = mol.nao_nr()
    g = _g(r, c["ng"], nao, 0.3) if c["ng"] else None
    ref = mol.intor("int2e")
    if g is not None:
        ref = ref + np.einsum("npq,nrs->pqrs", g, g)
    thr = 10.0 ** -c["lth"]
    limited = c["blocked"] and c["fac"] < 15
    L = quiet_call(get("openms.qmc.tools:chols_blocked"), mol, thresh=thr, g=g, max_chol_fac=c["fac"]) if c["blocked"] else \
        quiet_call(get("openms.qmc.tools:chols_full"), mol, thresh=thr, g=g)
    R = (ref - np.einsum("npq,nrs->pqrs", L, L)).reshape(nao**2, nao**2)
    scale = max(1, abs(ref).max())
    tol = 2 * thr + 1e-8 * scale + (0 if c["blocked"] else thr * nao**2)
    err = abs(R).max()
    if not limited or len(L) < c["fac"] * nao - 1:
        expect(err <= tol, f"factorised integrals of a general basis deviate by {err:.3e} (threshold {thr:g}, tol {tol:.3e})")
    else:
        expect(len(L) <= c["fac"] * nao, f"{len(L)} factors exceed the limit of {c['fac'] * nao}")
        lo = np.linalg.eigvalsh(0.5 * (R + R.T))[0]
        expect(lo > -1e-6 * scale, f"the residual of a truncated factorisation is not positive: {lo:.3e}")
        expect(err <= R.diagonal().max() + 1e-7 * scale, "the residual of a truncated factorisation is not bounded by its diagonal")
    if not limited and all(n == 1 for _, p, n, _ in c["shells"]):
        raise Trivial
    return "limited" if limited else "blocked" if c["blocked"] else "full"
