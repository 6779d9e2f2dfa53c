"""C11: QED-HF energy functional; C12: invariances and limits of QED-HF"""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf.core import Trivial, Unavailable, attr, close, expect, get, law, rng
from vf.rig import build_mol, fl, geometry, mol_strategy, quiet_call, seeds

CLOSED = ["H2", "HeH+", "H3+", "H4", "LiH", "He2", "BH", "HF"]
SMALL = ["H2", "HeH+", "H3+", "H4", "LiH", "He2"]
_M = dict(nm=st.integers(1, 3), lam=fl(0.01, 0.6, 2), w=fl(0.05, 2.0, 2), mseed=st.integers(0, 9999))


def modes(c, nm=None):
    r = np.random.default_rng(c["mseed"])
    nm = nm or c["nm"]
    v = r.standard_normal((nm, 3))
    v *= (c["lam"] * (0.3 + r.random(nm)) / np.linalg.norm(v, axis=1))[:, None]
    w = c["w"] * (0.5 + r.random(nm))
    return v, w


def qedhf(mol, v, w, cls="openms.mqed.qedhf:RHF", **kw):
    mf = quiet_call(get(cls), mol, cavity_mode=np.array(v), cavity_freq=np.array(w), **kw)
    mf.verbose = 0
    return mf


def ref_ops(mol, v, origin_shift=None, add_nuc_dipole=True):
    """lambda.d and (lambda.d)^2 in the AO basis straight from the integrals over r"""
    o = np.zeros(3)
    if add_nuc_dipole:
        q = mol.atom_charges()
        o = q @ mol.atom_coords() / q.sum()
    if origin_shift is not None:
        o = o - np.asarray(origin_shift)
    with mol.with_common_orig(o):
        r1 = mol.intor("int1e_r")
        r2 = mol.intor("int1e_rr").reshape(3, 3, mol.nao, mol.nao)
    d = -np.einsum("ax,xpq->apq", v, r1)
    q = np.einsum("ax,ay,xypq->apq", v, v, r2)
    return d, q


def rand_dm(mol, r, spread=1.0):
    """idempotent closed-shell density of a random determinant"""
    s = mol.intor("int1e_ovlp")
    x = sl.inv(sl.sqrtm(s)).real
    k = spread * r.standard_normal((mol.nao, mol.nao))
    c = x @ sl.expm(0.5 * (k - k.T))[:, : mol.nelectron // 2]
    return 2 * c @ c.T


def ref_energy(mol, dm, d, q, z, w, pvec, add_dse=True, complete=True):
    """<HF|<p| D(z)^+ H_PF D(z) |p>|HF> for one photon vector per mode"""
    s = mol.intor("int1e_ovlp")
    h = mol.intor("int1e_kin") + mol.intor("int1e_nuc")
    eri = mol.intor("int2e")
    e = mol.energy_nuc() + np.einsum("pq,pq", h, dm)
    e += 0.5 * np.einsum("pqrs,pq,rs", eri, dm, dm) - 0.25 * np.einsum("pqrs,ps,rq", eri, dm, dm)
    for a in range(len(d)):
        m = np.einsum("pq,pq", d[a], dm)
        if add_dse:
            qa = q[a] if complete else d[a] @ np.linalg.inv(s) @ d[a]
            m2 = np.einsum("pq,pq", qa, dm) + m * m - 0.5 * np.einsum("pq,qr,rs,sp", d[a], dm, d[a], dm)
        else:
            m2 = 0.0
        e += 0.5 * (m2 - 2 * z[a] * m + z[a] ** 2)
        p = pvec[a]
        n = len(p)
        x = np.diag(np.sqrt(np.arange(1, n)), 1)
        e += w[a] * p @ (np.arange(n) * p) + np.sqrt(w[a] / 2) * (m - z[a]) * (p @ (x + x.T) @ p)
    return e


def energy(mf, dm):
    """the code's total energy of a density, with photons relaxed for it"""
    q = mf.qed
    if q.use_cs:
        quiet_call(q.update_cs, dm)
    quiet_call(q.update_boson_coeff, dm)
    h = quiet_call(mf.get_hcore, mf.mol, dm)
    v = quiet_call(mf.get_veff, mf.mol, dm)
    return float(quiet_call(mf.energy_tot, dm, h, v)), h, v


@law("C11", mol_strategy(CLOSED, ("sto-3g", "6-31g"), rep=st.sampled_from(["cs", "z", "fock"]), nb=st.integers(1, 6), dse=st.booleans(), comp=st.booleans(),
                         shift=st.booleans(), nuc=st.booleans(), **_M), quick=360, cost=0.03,
     rule="closed-shell molecules, 1-3 modes, coherent state, fixed displacement or photon-number representation (the last two with 1-6 photon states per mode), with and without self-energy, complete or projected self-energy, shifted origins: energy of a random determinant against the Pauli-Fierz expectation value from the bare integrals; non-trivial when the coupling contributes > 1e-6")
def functional(c):
    mol = build_mol(c)
    r = rng(c)
    nm = c["nm"]
    v, w = modes(c, nm)
    sh = r.standard_normal(3) if c["shift"] else None
    kw = dict(complete_basis=c["comp"], add_dse=c["dse"], add_nuc_dipole=c["nuc"])
    if sh is not None:
        kw["origin_shift"] = sh.copy()
    z = np.zeros(nm)
    nb = [1] * nm
    if c["rep"] == "z":
        z = 0.3 * r.standard_normal(nm)
        kw["z_alpha"] = z.copy()
    elif c["rep"] == "fock":
        kw["use_cs"] = False
    if c["rep"] == "fock" or (c["rep"] == "z" and c["mseed"] % 3):
        nb = [1 + (c["nb"] - 1 + 2 * a * c["mseed"]) % 6 for a in range(nm)]
    kw["nboson_states"] = nb if c["mseed"] % 2 or len(set(nb)) > 1 else nb[0]
    mf = qedhf(mol, v, w, **kw)
    dm = rand_dm(mol, r, 0.3)
    d, q = ref_ops(mol, v, sh, c["nuc"])
    close(attr(mf.qed, "gmat"), d, "coupling matrix", 1e-9, 1e-9)
    m = np.einsum("apq,pq->a", d, dm)
    if c["rep"] == "cs":
        z = m
    # photon vectors: ground state of the photon Hamiltonian in the field of the electrons
    pv = []
    for a in range(nm):
        x = np.diag(np.sqrt(np.arange(1, nb[a])), 1)
        hb = w[a] * np.diag(np.arange(nb[a])) + np.sqrt(w[a] / 2) * (m[a] - z[a]) * (x + x.T)
        pv.append(np.linalg.eigh(hb)[1][:, 0])
    e, h, vv = energy(mf, dm)
    ref = ref_energy(mol, dm, d, q, z, w, pv, c["dse"], c["comp"])
    close(e, ref, "energy of a determinant", 1e-9, 1e-8)
    # mean-field potential: derivative of the energy along changes of the density at
    # fixed photon state (electron number kept)
    s = mol.intor("int1e_ovlp")
    t = r.standard_normal(dm.shape)
    t = t + t.T
    t -= s * (np.sum(t * s) / np.sum(s * s))
    if c["rep"] != "cs":
        zz = lambda x: z
    else:
        zz = lambda x: np.einsum("apq,pq->a", d, x)
    ep = [ref_energy(mol, dm + k * 1e-3 * t, d, q, zz(dm + k * 1e-3 * t), w, pv, c["dse"], c["comp"]) for k in (1, -1, 2, -2)]
    g = (8 * (ep[0] - ep[1]) - (ep[2] - ep[3])) / 12e-3
    close(np.sum((h + vv) * t), g, "mean-field matrix is the derivative of the energy", 2e-6, 2e-6)
    e0 = ref_energy(mol, dm, 0 * d, 0 * q, 0 * z, w, [np.ones(1)] * nm, False)
    if abs(ref - e0) < 1e-6:
        raise Trivial


@law("C11", mol_strategy(CLOSED, ("sto-3g",), num=st.integers(1, 3), stack=st.booleans(), hermi=st.sampled_from([0, 0, 1, 2]), dse=st.booleans(), res=st.lists(fl(-0.3, 1.2, 2), min_size=3, max_size=3), **_M), quick=120, cost=0.01,
     rule="Coulomb and exchange matrices of one or a stack of 1-3 general, symmetric or antisymmetric density matrices, 1-3 modes, with and without self-energy, also scaled by residual couplings, against the same contractions of the full two-electron integrals plus self-energy; non-trivial when the self-energy part is > 1e-8")
def coulomb_exchange(c):
    mol = build_mol(c)
    r = rng(c)
    v, w = modes(c, c["nm"])
    n = mol.nao
    mf = qedhf(mol, v, w, add_dse=c["dse"])
    d, _ = ref_ops(mol, v)
    h = c["hermi"]
    dm = r.standard_normal((c["num"], n, n))
    if h:
        dm = dm + (1 if h == 1 else -1) * dm.transpose(0, 2, 1)
    if not c["stack"]:
        dm = dm[0]
    keep = dm.copy()
    D = dm.reshape(-1, n, n)
    eri = mol.intor("int2e")
    dse = np.einsum("apq,ars->pqrs", d, d)
    J = lambda x, t: np.einsum("pqrs,isr->ipq", x, t).reshape(dm.shape)
    K = lambda x, t: np.einsum("pqrs,iqr->ips", x, t).reshape(dm.shape)
    full = eri + dse if c["dse"] else eri
    vj, vk = quiet_call(mf.get_jk, mol, dm, hermi=h)
    close(vj, J(full, D), "Coulomb matrices", 1e-9, 1e-8)
    close(vk, K(full, D), "exchange matrices", 1e-9, 1e-8)
    bj, bk = quiet_call(attr(mf, "get_bare_jk"), mol, dm, hermi=h)
    close(bj, J(eri, D), "bare Coulomb matrices", 1e-9, 1e-8)
    close(bk, K(eri, D), "bare exchange matrices", 1e-9, 1e-8)
    if c["dse"] and h == 1:
        res = np.array(c["res"][: len(d)])
        mf.qed.couplings_var = 1.0 - res
        quiet_call(mf.qed.update_couplings)
        part = np.einsum("a,apq,ars->pqrs", res**2, d, d)
        for obj, what in ((mf.qed, "photon object"), (mf, "mean field")):
            for flag, x in ((False, dse), (True, part)):
                vj, vk = quiet_call(attr(obj, "get_dse_jk"), dm, residue=flag)
                close(vj, J(x, D), f"self-energy Coulomb matrices of the {what}", 1e-9, 1e-8)
                close(vk, K(x, D), f"self-energy exchange matrices of the {what}", 1e-9, 1e-8)
    close(dm, keep, "density matrices handed in")
    if np.max(np.abs(dse)) < 1e-8:
        raise Trivial


def solve(mf, dm0=None):
    mf.conv_tol = 1e-11
    mf.conv_tol_grad = 1e-7
    mf.max_cycle = 150
    e = quiet_call(mf.kernel, dm0) if dm0 is not None else quiet_call(mf.kernel)
    return float(e)


@law("C11", mol_strategy(SMALL, ("sto-3g", "6-31g"), nd=st.integers(1, 3), sh=st.booleans(), nuc=st.booleans(), **_M), quick=120, cost=0.03,
     rule="dipole, quadrupole, polarised, coupling and dipole self-energy matrices of every mode, with and without nuclear dipole and origin shift, and the self-energy Coulomb and exchange matrices of one or several densities, scalar or scaled by the residual coupling: against integrals over position and plain contractions; non-trivial: always")
def operators(c):
    mol = build_mol(c)
    v, w = modes(c)
    r = rng(c)
    kw = dict(add_nuc_dipole=c["nuc"])
    shift = 0.3 * r.standard_normal(3) if c["sh"] else None
    if c["sh"]:
        kw["origin_shift"] = shift.copy()
    mf = qedhf(mol, v, w, **kw)
    q = mf.qed
    d, qq = ref_ops(mol, v, shift, c["nuc"])
    o = np.zeros(3)
    if c["nuc"]:
        z = mol.atom_charges()
        o = z @ mol.atom_coords() / z.sum()
    if c["sh"]:
        o = o - shift
    with mol.with_common_orig(o):
        D, Q = -mol.intor("int1e_r"), -mol.intor("int1e_rr")  # of the negative electron
    close(attr(q, "get_dipole_ao")(), D, "dipole matrices")
    close(attr(q, "get_quadrupole_ao")(), Q, "quadrupole matrices")
    close(attr(q, "get_gmat_ao")(), d, "coupling matrices")
    close(attr(q, "get_q_lambda_ao")(), -qq, "polarised quadrupole matrices of all modes")
    n = mol.nao
    for a in range(len(w)):
        close(attr(q, "get_geb_ao")(a), np.sqrt(w[a] / 2) * d[a], f"bilinear coupling matrix of mode {a}")
        u = np.array(q.vec[a])
        close(np.array(q.couplings)[a] * q.get_polarized_dipole_ao(a), d[a], f"polarised dipole of mode {a}")
        close(np.array(q.couplings)[a] ** 2 * q.get_polarized_quadrupole_ao(a), -qq[a], f"polarised quadrupole of mode {a}")
    dms = r.standard_normal((c["nd"], n, n))
    dms = dms + dms.transpose(0, 2, 1)
    if c["nd"] == 1 and c["seed"] % 2:
        dms = dms[0]
    before = dms.copy()
    J = np.einsum("apq,ars,...rs->...pq", d, d, dms)
    K = np.einsum("apr,...rs,asq->...pq", d, dms, d)
    for f, what in ((attr(q, "get_dse_jk"), "photon object"), (attr(mf, "get_dse_jk"), "mean field")):
        j, k = f(dms)[:2]
        close(j, J, f"self-energy Coulomb matrix of the {what}", 1e-9, 1e-9)
        close(k, K, f"self-energy exchange matrix of the {what}", 1e-9, 1e-9)
    close(dms, before, "densities passed in")
    # the photon object on its own, with given transformation strengths
    vec = r.standard_normal((len(w), 3))
    vec /= np.linalg.norm(vec, axis=1)[:, None]
    gf, var = 0.1 * (0.5 + r.random(len(w))), np.round(r.uniform(0, 1, len(w)), 3)
    ph = quiet_call(get("openms.lib.boson:Photon"), mol, omega=w.copy(), vec=vec.copy(), gfac=gf.copy(), couplings_var=var.copy())
    quiet_call(attr(ph, "get_gmatao"))
    chg = mol.atom_charges()
    with mol.with_common_orig(chg @ mol.atom_coords() / chg.sum()):
        g = np.einsum("n,nx,xpq->npq", gf, vec, -mol.intor("int1e_r"))
    if np.ndim(dms) == 3:
        dms = dms[0]
    for flag, x in ((False, np.ones(len(w))), (True, 1 - var)):
        j, k = quiet_call(attr(ph, "get_dse_jk"), dms, residue=flag)[:2]
        close(np.reshape(j, dms.shape), np.einsum("a,apq,ars,rs->pq", x**2, g, g, dms), f"self-energy Coulomb matrix of a photon object alone (residual: {flag})", 1e-9, 1e-9)
        close(np.reshape(k, dms.shape), np.einsum("a,apr,rs,asq->pq", x**2, g, dms, g), f"self-energy exchange matrix of a photon object alone (residual: {flag})", 1e-9, 1e-9)


@law("C11", mol_strategy(SMALL, ("sto-3g", "6-31g"), rep=st.sampled_from(["cs", "fock"]), nb=st.integers(1, 4), ls=st.sampled_from([0, 0, 0.2]), mem=st.booleans(), **_M), quick=72, cost=0.15,
     rule="converged QED-HF calculations (also with level shift and with integrals that do not fit in memory): energy equals the Pauli-Fierz expectation value of the returned orbitals, orbitals orthonormal, stationary against random orbital rotations, occupied lowest; non-trivial when converged with at least one virtual orbital")
def converged(c):
    mol = build_mol(c)
    r = rng(c)
    nm = c["nm"]
    v, w = modes(c, nm)
    nb = [1 + (c["nb"] - 1 + a * c["mseed"]) % 4 if c["rep"] == "fock" else 1 for a in range(nm)]
    mf = qedhf(mol, v, w, use_cs=c["rep"] == "cs", nboson_states=nb)
    if c["ls"]:
        mf.level_shift = c["ls"]
    if c["mem"]:
        mf.max_memory = 0
        mf.direct_scf = bool(c["seed"] % 2)
    e = solve(mf)
    if not mf.converged or mol.nao == mol.nelectron // 2:
        raise Trivial
    C, occ = mf.mo_coeff, mf.mo_occ
    s = mol.intor("int1e_ovlp")
    close(C.T @ s @ C, np.eye(C.shape[1]), "orthonormal orbitals", 0, 1e-7)
    dm = np.asarray(mf.make_rdm1())
    close(np.sum(dm * s), mol.nelectron, "electron number", 0, 1e-7)
    d, q = ref_ops(mol, v)

    def E(x):
        m = np.einsum("apq,pq->a", d, x)
        z = m if c["rep"] == "cs" else np.zeros(nm)
        pv = []
        for a in range(nm):
            b = np.diag(np.sqrt(np.arange(1, nb[a])), 1)
            hb = w[a] * np.diag(np.arange(nb[a])) + np.sqrt(w[a] / 2) * (m[a] - z[a]) * (b + b.T)
            pv.append(np.linalg.eigh(hb)[1][:, 0])
        return ref_energy(mol, x, d, q, z, w, pv)

    close(e, E(dm), "energy of the returned orbitals", 1e-9, 2e-8)
    no = mol.nelectron // 2
    expect(np.sum(occ > 0) == no and np.all(occ[occ > 0] == 2), "occupation numbers")
    eo, ev = np.asarray(mf.mo_energy)[occ > 0], np.asarray(mf.mo_energy)[occ == 0]
    expect(eo.max() <= ev.min() + 1e-9, "an unoccupied orbital lies below an occupied one")
    k = r.standard_normal((C.shape[1],) * 2)
    k = (k - k.T) / np.linalg.norm(k)

    def rot(t):
        Cr = C @ sl.expm(t * k)
        Co = Cr[:, occ > 0]
        return E(2 * Co @ Co.T)

    g = (rot(1e-3) - rot(-1e-3)) / 2e-3
    expect(abs(g) < 5e-5, f"energy is not stationary against orbital rotations: slope {g:.2e}")


# ------------------------------------------------------------------- C12
def _euler(r):
    q, _ = np.linalg.qr(r.standard_normal((3, 3)))
    return q  # proper or improper: both are symmetries


@law("C12", mol_strategy(SMALL, ("sto-3g", "6-31g"), kind=st.sampled_from(["rotate", "translate", "origin", "order", "sign", "merge", "omega", "gfac", "zero", "units"]),
                         rep=st.sampled_from(["cs", "fock"]), **_M), quick=90, cost=0.25,
     rule="pairs of related QED-HF energies: rotated/reflected molecule and modes, translated molecule, shifted origin (coherent states), reordered modes, reversed polarisations, parallel modes merged, other frequencies (coherent states), coupling given as norm or as prefactor, zero coupling vs bare Hartree-Fock, bohr vs angstrom; non-trivial when the coupling changes the energy by > 1e-6")
def invariance(c):
    mol = build_mol(c)
    r = rng(c)
    v, w = modes(c)
    k = c["kind"]
    cs = c["rep"] == "cs" or k in ("origin", "omega", "merge")
    atoms, xyz, _, _ = geometry(c)
    kw = dict(use_cs=cs)
    # fixed determinants avoid comparing different SCF solutions: the same occupied
    # orbitals are followed through the transformation by starting from the converged density
    mf = qedhf(mol, v, w, **kw)
    dm = rand_dm(mol, r, 0.2)
    e0 = energy(mf, dm)[0]
    d, q = ref_ops(mol, v)
    z0 = np.zeros(len(v))
    bare = ref_energy(mol, dm, 0 * d, 0 * q, z0, w, [np.ones(1)] * len(v), False)
    scf0 = None
    if k == "zero":
        from pyscf import scf
        e = energy(qedhf(mol, 0 * v, w, **kw), dm)[0]
        close(e, bare, "zero coupling", 1e-10, 1e-8)
        h = scf.RHF(mol)
        h.conv_tol = 1e-11
        h.kernel()
        mz = qedhf(mol, 0 * v, w, **kw)
        ez = solve(mz, h.make_rdm1())
        if h.converged and mz.converged:
            close(ez, h.e_tot, "converged energy at zero coupling", 1e-9, 1e-8)
    elif k in ("rotate", "translate", "units"):
        U = _euler(r) if k == "rotate" else np.eye(3)
        x2 = xyz @ U.T + (3 * r.standard_normal(3) if k == "translate" else 0)
        mol2 = build_mol(c, xyz=x2)
        if k == "units":
            from pyscf import gto
            mol2 = gto.M(atom=[(a, tuple(x)) for a, x in zip(atoms, mol.atom_coords())], unit="Bohr", basis=c["basis"], charge=mol.charge, verbose=0)
        m1, m2 = qedhf(mol, v, w, **kw), qedhf(mol2, v @ U.T, w, **kw)
        E1 = solve(m1)
        E2 = solve(m2)
        if not (m1.converged and m2.converged):
            raise Trivial
        if abs(E1 - E2) > 1e-7:
            # two SCF solutions? restart both from the lower one's occupied energies
            raise Trivial if _several_minima(m1, m2) else AssertionError_(k, E1, E2)
    else:
        if k == "origin":
            m2 = qedhf(mol, v, w, origin_shift=2 * r.standard_normal(3), add_nuc_dipole=bool(r.integers(2)), **kw)
        elif k == "order":
            p = r.permutation(len(v))
            m2 = qedhf(mol, v[p], w[p], **kw)
        elif k == "sign":
            m2 = qedhf(mol, v * r.choice([-1, 1], len(v))[:, None], w, **kw)
        elif k == "merge":
            f = r.random() * 2 * np.pi
            v2 = np.vstack([v[0] * np.cos(f), v[0] * np.sin(f), v[1:]])
            m2 = qedhf(mol, v2, np.concatenate([[0.3], w]), **kw)
        elif k == "omega":
            m2 = qedhf(mol, v, w * (0.2 + 3 * r.random(len(v))), **kw)
        else:
            n = np.linalg.norm(v, axis=1)
            m2 = qedhf(mol, v * (0.1 + 5 * r.random((len(v), 1))), w, gfac=n.copy(), **kw)
        close(energy(m2, dm)[0], e0, f"energy of a determinant after '{k}'", 1e-10, 1e-8)
        E1 = solve(mf)
        E2 = solve(m2, np.asarray(mf.make_rdm1()))
        if mf.converged and m2.converged:
            close(E2, E1, f"converged energy after '{k}'", 1e-9, 5e-8)
    if abs(e0 - bare) < 1e-6:
        raise Trivial


def AssertionError_(k, a, b):
    from vf.core import Violated
    return Violated(f"converged energy after '{k}': {a:.10f} vs {b:.10f}")


def _several_minima(m1, m2):
    """do the two converged states differ as states (not only as energies)?  compared through
    rotation-invariant one-electron quantities"""
    def f(m):
        dm = np.asarray(m.make_rdm1())
        return np.array([np.sum(dm * m.mol.intor("int1e_kin")), np.sum(dm * m.mol.intor("int1e_nuc"))])
    return bool(np.max(np.abs(f(m1) - f(m2))) > 1e-3)


@law("C12", mol_strategy(SMALL, ("sto-3g", "6-31g"), **_M), quick=100, cost=0.05,
     rule="1-3 modes: energies of a fixed determinant in photon-number spaces of 1..14 states per mode fall monotonically and approach the coherent-state energy; cavity energies exceed or equal the bare energy in coherent states; non-trivial when the determinant has a dipole moment")
def limits(c):
    mol = build_mol(c)
    r = rng(c)
    v, w = modes(c, c["nm"])
    dm = rand_dm(mol, r, 0.2)
    d, q = ref_ops(mol, v)
    ecs = energy(qedhf(mol, v, w), dm)[0]
    z = np.zeros(len(w))
    bare = ref_energy(mol, dm, 0 * d, 0 * q, z, w, [np.ones(1)] * len(w), False)
    expect(ecs >= bare - 1e-9, f"the coherent-state self-energy is negative: {ecs - bare:.3e}")
    prev = np.inf
    for nb in (1, 2, 3, 5, 14):
        e = energy(qedhf(mol, v, w, use_cs=False, nboson_states=nb), dm)[0]
        expect(e <= prev + 1e-9, f"energy rises from {prev:.10f} to {e:.10f} with {nb} photon states")
        expect(e >= ecs - 1e-9, f"energy {e:.10f} below the coherent-state limit {ecs:.10f} with {nb} photon states")
        prev = e
    m = np.einsum("apq,pq->a", d, dm)
    al2 = m * m / (2 * w)  # mean photon numbers of the exact displaced vacuum
    if np.max(al2) < 0.5:
        close(e, ecs, "photon-number energies approach the coherent-state energy", 0, 1e-7)
    if np.max(np.abs(m)) < 1e-4:
        raise Trivial
