"""C17: QED-FCI solves the electron-boson Hamiltonian; C18: its density matrices"""
import functools

import numpy as np
from hypothesis import strategies as st

from vf.checks.c11_qedhf import _M, modes, ref_ops
from vf.core import Trivial, attr, close, expect, get, law, rng
from vf.oracle import lower, occs, one_body_matrix, site_op
from vf.rig import build_mol, fl, lowdin, mol_strategy, quiet_call, seeds, sym

F = "openms.mqed.qedfci:"


def perm(norb, n):
    """positions of the occupation lists in order of the bit strings used by the CI code"""
    return np.argsort([sum(1 << o for o in b) for b in occs(norb, n)])


class Space:
    """dense operators in the basis (alpha string, beta string, boson 1, ..., boson n)"""

    def __init__(self, norb, na, nb, nbos):
        self.norb, self.na, self.nb = norb, na, nb
        self.pa, self.pb = perm(norb, na), perm(norb, nb)
        self.dims = [b + 1 for b in nbos]
        self.shape = (len(self.pa), len(self.pb)) + tuple(self.dims)
        self.nboson = int(np.prod(self.dims))
        self.ne = self.shape[0] * self.shape[1]

    def e1(self, fa, fb=None):
        fb = fa if fb is None else fb
        A = one_body_matrix(self.norb, self.na, fa)[np.ix_(self.pa, self.pa)]
        B = one_body_matrix(self.norb, self.nb, fb)[np.ix_(self.pb, self.pb)]
        return np.kron(A, np.eye(len(self.pb))) + np.kron(np.eye(len(self.pa)), B)

    @functools.cached_property
    def E(self):
        n = self.norb
        out = np.zeros((2, n, n, self.ne, self.ne))
        z = np.zeros((n, n))
        for p in range(n):
            for q in range(n):
                u = z.copy()
                u[p, q] = 1.0
                out[0, p, q] = self.e1(u, z)
                out[1, p, q] = self.e1(z, u)
        return out

    def e2(self, eri):
        """1/2 sum (pq|rs) a+p a+r as aq"""
        E = self.E[0] + self.E[1]
        n = self.norb
        t = np.einsum("pqrs,rsij->pqij", eri, E, optimize=True)
        H = 0.5 * np.einsum("pqij,pqjk->ik", E, t, optimize=True)
        return H - 0.5 * self.e1(np.einsum("pqqs->ps", eri))

    def b(self, i):
        return site_op(lower(self.dims[i]), i, self.dims)

    def full_e(self, H):
        return np.kron(H, np.eye(self.nboson))

    def full_b(self, B):
        return np.kron(np.eye(self.ne), B)

    def boson(self, hbb, lin=None):
        B = np.zeros((self.nboson,) * 2)
        n = len(self.dims)
        for i in range(n):
            for j in range(n):
                # truncated space: apply the annihilator first
                B += hbb[i, j] * self.b(i).T @ self.b(j)
            if lin is not None:
                B += lin[i] * (self.b(i) + self.b(i).T)
        return B

    def hamiltonian(self, h, eri, g, hbb, lin=None):
        H = self.full_e(self.e1(h) + self.e2(eri)) + self.full_b(self.boson(hbb, lin))
        for i in range(len(self.dims)):
            H += np.kron(self.e1(g[i]), self.b(i) + self.b(i).T)
        return H


def eri8(r, n, scale=0.5):
    k = r.integers(1, 4)
    L = scale * sym(r, k, n, n)
    return np.einsum("xpq,xrs->pqrs", L, L)


_C = st.fixed_dictionaries(dict(norb=st.integers(2, 4), na=st.integers(0, 3), nb=st.integers(0, 3), nmode=st.integers(1, 3), seed=seeds,
                                hs=fl(0.1, 1.5, 1), gs=fl(0.0, 0.6, 1), offdiag=st.booleans(), cs=st.booleans(), oned=st.booleans(), intn=st.booleans()))


def system(c, maxdim=400):
    r = rng(c)
    norb, nm = c["norb"], c["nmode"]
    na, nb = min(c["na"], norb), min(c["nb"], norb)
    if na + nb == 0:
        na = 1
    nbos = [int(x) for x in r.integers(1, 4, nm)]
    while True:
        S = Space(norb, na, nb, nbos)
        if S.ne * S.nboson <= maxdim:
            break
        if max(nbos) > 1:
            nbos[int(np.argmax(nbos))] -= 1
        elif len(nbos) > 1:
            nbos.pop()
        else:
            norb -= 1
            na, nb = min(na, norb), min(nb, norb)
    nm = len(nbos)
    h, eri = c["hs"] * sym(r, norb, norb), eri8(r, norb)
    g = c["gs"] * sym(r, nm, norb, norb)
    w = 0.2 + r.random(nm)
    hbb = np.diag(w)
    if c["offdiag"]:
        o = 0.1 * sym(r, nm, nm)
        hbb = hbb + o - np.diag(np.diag(o))
    return r, S, nbos, h, eri, g, w, hbb


def electrons(c, S):
    """(alpha, beta), or their number for a closed shell"""
    return S.na + S.nb if c["intn"] and S.na == S.nb else (S.na, S.nb)


@law("C17", _C, quick=150, cost=0.05,
     rule="random Hamiltonians of 2-4 orbitals, 1-6 electrons (any spin), 1-3 boson modes with 2-4 states each: every contraction of a random CI vector (one- and two-electron, also spin-resolved and Hubbard, electron-boson, boson with mode mixing and coherent shift, creation, annihilation) against dense matrices; non-trivial: always")
def contractions(c):
    r, S, nbos, h, eri, g, w, hbb = system(c)
    n, nel, nm = S.norb, electrons(c, S), len(nbos)
    bs = np.array(nbos)
    expect(tuple(int(x) for x in get(F + "fboson_ci_shape")(n, nel, nm, bs)) == S.shape, "shape of the CI vector")
    close(np.prod(get(F + "fboson_ci_shape")(n, nel, nm, int(bs[0]))), S.ne * (bs[0] + 1) ** nm, "size with equal cut-offs")
    ci = r.standard_normal(S.shape)
    c0 = ci.copy()
    v = ci.ravel()

    def same(out, M, what):
        close(np.ravel(out), M @ v, what, 1e-10, 1e-10)

    q = lambda f, *a: quiet_call(get(F + f), *a)
    same(q("contract_1e", h, ci, n, nel, nm, bs), S.full_e(S.e1(h)), "one-electron contraction")
    h2 = q("absorb_h1e", h, eri, n, nel, 0.5)
    M = S.full_e(S.e1(h) + S.e2(eri))
    same(q("contract_2e", h2, ci, n, nel, nm, bs), M, "electronic contraction")
    same(q("contract_2e_spin0", h2, ci, n, nel, nm, bs), M, "electronic contraction (spin-summed)")
    base = r.standard_normal(S.shape)
    acc = q("contract_2e_spin0", h2, ci, n, nel, nm, bs, base.copy())
    close(np.ravel(acc), base.ravel() + M @ v, "contraction added to a given vector", 1e-10, 1e-10)
    ga, gab, gb = eri8(r, n), eri8(r, n), eri8(r, n)
    # alpha-beta integrals between different spatial orbitals: (pq|rs) != (rs|pq)
    x1, x2 = r.standard_normal((2, 2, n, n))
    gab = gab + np.einsum("kpq,krs->pqrs", x1 + x1.transpose(0, 2, 1), x2 + x2.transpose(0, 2, 1))
    T = np.zeros((S.ne, S.ne))
    for (s, t), x in {(0, 0): ga, (0, 1): gab, (1, 0): gab.transpose(2, 3, 0, 1), (1, 1): gb}.items():
        T += np.einsum("pqrs,pqij,rsjk->ik", x, S.E[s], S.E[t], optimize=True)
    same(q("contract_2e", [ga, gab, gb], ci, n, nel, nm, bs), S.full_e(T), "spin-resolved contraction")
    u = float(r.standard_normal())
    U = sum(S.E[0, i, i] @ S.E[1, i, i] for i in range(n))
    same(q("contract_2e_hubbard", u, ci, n, nel, nm, bs), u * S.full_e(U), "Hubbard contraction")
    B = sum(np.kron(S.e1(g[i]), S.b(i) + S.b(i).T) for i in range(nm))
    same(q("contract_eb", g, ci, n, nel, nm, bs), B, "electron-boson contraction")
    hb = w if c["oned"] else hbb
    hm = np.diag(w) if c["oned"] else hbb
    same(q("contract_bb", hb, ci, n, nel, nm, bs), S.full_b(S.boson(hm)), "boson contraction")
    z = r.standard_normal(nm)
    same(q("contract_bb", hb, ci, n, nel, nm, bs, z), S.full_b(S.boson(hm, hm @ z)), "boson contraction with coherent shift")
    same(q("contract_all", h, h2, g, hb, ci, n, nel, nm, bs), M + B + S.full_b(S.boson(hm)), "complete Hamiltonian")
    for i in range(nm):
        same(q("cre_boson", ci, n, nel, nm, bs, i), S.full_b(S.b(i).T), "creation")
        same(q("des_boson", ci, n, nel, nm, bs, i), S.full_b(S.b(i)), "annihilation")
    close(ci, c0, "caller's vector")


@law("C17", _C, quick=100, cost=0.15,
     rule="same Hamiltonians solved from a random starting vector, plain or in the coherent-state representation: returned energies and vectors are eigenpairs of the dense Hamiltonian, the lowest one is the ground state; bare electronic energy; inputs unchanged; non-trivial when converged to the ground state")
def solver(c):
    r, S, nbos, h, eri, g, w, hbb = system(c)
    n, nel, nm = S.norb, electrons(c, S), len(nbos)
    ec = float(r.standard_normal())
    ci0 = r.standard_normal(S.shape)
    hb = w if c["oned"] else hbb
    hm = np.diag(w) if c["oned"] else hbb
    args = [np.array(x) for x in (h, eri, g, hb)]
    e0, e, cv = quiet_call(get(F + "kernel"), h, eri, n, nel, nm, np.array(nbos), g, hb, verbose=0, ecore=ec, tol=1e-12, max_cycle=300, max_space=40,
                           coherent_state=c["cs"], init_ci=ci0)
    for a, b in zip(args, (h, eri, g, hb)):
        close(a, b, "caller's integrals")
    He = S.e1(h) + S.e2(eri)
    ev, evec = np.linalg.eigh(He)
    close(e0, ev[0] + ec, "bare electronic energy", 1e-7, 1e-7)
    # the representation's density is that of the electronic ground state
    if c["cs"]:
        if len(ev) > 1 and ev[1] - ev[0] < 1e-3:
            raise Trivial
        x = evec[:, 0]
        d = np.einsum("i,pqij,j->pq", x, S.E[0] + S.E[1], x)
        z = np.linalg.solve(hm, -np.einsum("xpq,pq->x", g, d))
        H = S.hamiltonian(h + 2 * np.einsum("x,xpq->pq", z, g), eri, g, hm, hm @ z)
        ec2 = ec + z @ hm @ z
    else:
        H, ec2 = S.hamiltonian(h, eri, g, hm), ec
    E, V = np.linalg.eigh(H)
    cv = np.ravel(cv)
    if abs(e - ec2 - E[0]) > 1e-6:
        res = np.linalg.norm(H @ cv - (e - ec2) * cv)
        # an unconverged or excited eigenpair of the right Hamiltonian is a matter of the eigensolver
        expect(e - ec2 > E[0] - 1e-6 and res < 5e-2, f"ground-state energy {e} instead of {E[0] + ec2} (residual {res:.2e})")
        raise Trivial
    close(np.linalg.norm(cv), 1.0, "norm of the CI vector", 1e-6)
    close(H @ cv, (e - ec2) * cv, "eigenvector", 2e-4, 2e-4)


@law("C17", st.fixed_dictionaries(dict(nroots=st.integers(1, 4), given=st.booleans(), sys=_C)), quick=60, cost=0.3,
     rule="several roots at once (1-4) and the built-in starting vector: energies in ascending order, every returned vector an eigenvector of the dense Hamiltonian with that energy, none below the exact root of its rank, the coherent representation built from the lowest electronic state; electronic part alone; non-trivial when every root is the exact one of its rank")
def roots(c):
    k, given, c = c["nroots"], c["given"], c["sys"]
    r, S, nbos, h, eri, g, w, hbb = system(c, 150)
    if S.ne <= k:
        raise Trivial
    n, nel, nm = S.norb, electrons(c, S), len(nbos)
    ec = float(r.standard_normal())
    kw = dict(verbose=0, ecore=ec, tol=1e-12, max_cycle=300, max_space=60, nroots=k)
    if given:
        kw["init_ci"] = r.standard_normal(S.shape)
    a = (h, eri, n, nel, nm, np.array(nbos), g, hbb)
    e0, e, cv = quiet_call(get(F + "kernel"), *a, coherent_state=c["cs"], **kw)
    He = S.e1(h) + S.e2(eri)
    ev, evec = np.linalg.eigh(He)
    e0 = np.atleast_1d(e0)
    expect(np.all(np.diff(e0) > -1e-9), "order of the electronic energies")
    expect(np.all(e0 - ec > ev[: len(e0)] - 1e-6), f"electronic energies {e0 - ec} below the exact ones {ev[: len(e0)]}")
    close(e0[0], ev[0] + ec, "lowest electronic energy", 1e-6, 1e-6)
    alone = quiet_call(get(F + "kernel"), *a, electron_only=True, **kw)[0]
    close(np.atleast_1d(alone)[0], e0[0], "electronic part alone", 1e-8, 1e-8)
    if c["cs"]:
        if ev[1] - ev[0] < 1e-3:
            raise Trivial
        x = evec[:, 0]
        d = np.einsum("i,pqij,j->pq", x, S.E[0] + S.E[1], x)
        z = np.linalg.solve(hbb, -np.einsum("xpq,pq->x", g, d))
        H, ec = S.hamiltonian(h + 2 * np.einsum("x,xpq->pq", z, g), eri, g, hbb, hbb @ z), ec + z @ hbb @ z
    else:
        H = S.hamiltonian(h, eri, g, hbb)
    E = np.linalg.eigvalsh(H)
    e = np.atleast_1d(e) - ec
    cv = [np.ravel(cv)] if k == 1 else [np.ravel(x) for x in cv]
    expect(len(cv) == len(e) <= k, f"{len(e)} energies and {len(cv)} vectors for {k} roots")
    expect(np.all(np.diff(e) > -1e-8), "order of the energies")
    expect(np.all(e > E[: len(e)] - 1e-6), f"energies {e} below the exact ones {E[: len(e)]}")
    # an unconverged eigenpair is a matter of the eigensolver
    res = [np.linalg.norm(H @ x - y * x) for x, y in zip(cv, e)]
    expect(max(res) < 5e-2, f"eigenvectors: residuals {res}")
    for i, x in enumerate(cv):
        for j, y in enumerate(cv):
            close(x @ y, float(i == j), "orthonormal eigenvectors", 1e-5, 1e-5)
    if len(e) < k or np.max(np.abs(e - E[:k])) > 1e-6:
        raise Trivial
    close(res, np.zeros(k), "eigenvectors", 0, 3e-4)


@law("C17", mol_strategy(["H2", "HeH+", "H3+", "LiH", "H4"], ("sto-3g",), thr=st.sampled_from([None, None, 1e-8]), **_M), quick=60, cost=0.08,
     rule="integrals for QED-FCI of molecules with 1-3 modes: dense Pauli-Fierz Hamiltonian rebuilt from the bare integrals, nuclear repulsion, orthonormality, initial density; non-trivial: always")
def integrals(c):
    mol = build_mol(c)
    v, w = modes(c)
    v0, w0 = v.copy(), w.copy()
    enuc, s, h, eri, g, dm = quiet_call(get("openms.lib.boson:get_integrals4fci"), mol, w, v, **({"chol_thresh": c["thr"]} if c["thr"] else {}))
    close(v, v0, "caller's mode vectors")
    close(w, w0, "caller's frequencies")
    n = mol.nao
    close(enuc, mol.energy_nuc(), "nuclear repulsion")
    close(s, np.eye(n), "overlap", 0, 1e-8)
    U = lowdin(mol)
    from pyscf import scf

    SU = mol.intor("int1e_ovlp") @ U
    close(dm, SU.T @ scf.hf.get_init_guess(mol) @ SU, "initial density", 1e-8, 1e-8)
    d, _ = ref_ops(mol, v)
    tr = lambda m: U.T @ m @ U
    dl = np.array([tr(x) for x in d])
    close(h, tr(mol.intor("int1e_kin") + mol.intor("int1e_nuc")) + 0.5 * np.einsum("xpq,xqs->ps", dl, dl), "one-electron integrals", 1e-8, 1e-8)
    e = np.einsum("pqrs,pi,qj,rk,sl->ijkl", mol.intor("int2e"), U, U, U, U, optimize=True) + np.einsum("xpq,xrs->pqrs", dl, dl)
    close(np.reshape(eri, (n,) * 4), e, "two-electron integrals", 1e-8, 1e-6 if c["thr"] else 1e-8)
    close(g, dl * np.sqrt(w / 2)[:, None, None], "coupling", 1e-9, 1e-9)


# ------------------------------------------------------------------- C18
@law("C18", _C, quick=150, cost=0.05,
     rule="random normalised CI vectors of 2-4 orbitals, 1-6 electrons, 1-3 modes: one- and two-electron and boson density matrices against dense expectation values; energy, traces and partial traces; non-trivial: always")
def densities(c):
    r, S, nbos, h, eri, g, w, hbb = system(c, 300)
    n, nel, nm = S.norb, electrons(c, S), len(nbos)
    ci = r.standard_normal(S.shape)
    ci /= np.linalg.norm(ci)
    c0 = ci.copy()
    v = ci.reshape(S.ne, -1)
    E = S.E[0] + S.E[1]
    ref1 = np.einsum("ix,pqij,jx->pq", v, E, v, optimize=True)
    d1 = quiet_call(get(F + "make_rdm1e"), ci, n, nel)
    close(d1, ref1, "one-electron density", 1e-10, 1e-10)
    Ev = np.einsum("pqij,jx->pqix", E, v)
    # <p+ r+ s q> = <E_pq E_rs> - delta_qr <E_ps>
    ref2 = np.einsum("qpix,rsix->pqrs", Ev, Ev, optimize=True)
    ref2 -= np.einsum("qr,ps->pqrs", np.eye(n), ref1)
    a1, a2 = quiet_call(get(F + "make_rdm12e"), ci, n, nel)
    close(a1, ref1, "one-electron density (pair routine)", 1e-10, 1e-10)
    close(a2, ref2, "two-electron density", 1e-10, 1e-10)
    ne = S.na + S.nb
    close(np.trace(d1), ne, "trace", 1e-10)
    close(np.einsum("pqrr->pq", a2), (ne - 1) * d1, "partial trace", 1e-10, 1e-10)
    H = S.full_e(S.e1(h) + S.e2(eri))
    close(np.sum(h * d1) + 0.5 * np.sum(eri * a2), ci.ravel() @ H @ ci.ravel(), "energy from the densities", 1e-10, 1e-10)
    refb = np.zeros((nm, nm))
    x = [S.full_b(S.b(i)) @ ci.ravel() for i in range(nm)]
    for i in range(nm):
        for j in range(nm):
            refb[i, j] = x[i] @ x[j]
    close(quiet_call(get(F + "make_rdm1p"), ci, n, nel, nm, np.array(nbos)), refb, "boson density", 1e-10, 1e-10)
    close(ci, c0, "caller's vector")
