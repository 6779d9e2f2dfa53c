"""C13: photon operators; C14: SC/VT-QED-HF energies and gradients; C15: limits of the variational transformation"""
import math

import numpy as np
import scipy.linalg as sl
from scipy.special import eval_genlaguerre
from hypothesis import strategies as st

from vf.checks.c11_qedhf import SMALL, _M, energy, modes, qedhf, rand_dm, ref_energy, ref_ops, solve
from vf.core import Trivial, Unavailable, attr, close, expect, get, law, rng
from vf.oracle import ManyBody, lower
from vf.rig import build_mol, fl, mol_strategy, quiet_call, seeds, sym

SC, VT = "openms.mqed.scqedhf:RHF", "openms.mqed.vtqedhf:RHF"


# ------------------------------------------------------------------- C13
def photon(nb, w=0.5, nm=1):
    mol = build_mol(dict(mol="H2"))
    P = get("openms.lib.boson:Photon")
    return quiet_call(P, mol, omega=np.full(nm, w), vec=np.tile([0.0, 0.0, 0.1], (nm, 1)), nboson_states=nb)


def fc(m, n, a):
    """documented element: sqrt(min!/max!) (-a)^|m-n| L_min^{|m-n|}(a^2) exp(-a^2/2)"""
    lo, hi = min(m, n), max(m, n)
    return np.sqrt(math.factorial(lo) / math.factorial(hi)) * (-a) ** (hi - lo) * eval_genlaguerre(lo, hi - lo, a * a) * np.exp(-a * a / 2)


_D = st.fixed_dictionaries(dict(nb=st.integers(1, 7), amp=fl(0.05, 2.0, 2), shape=st.sampled_from([1, 2, 4]), diag=st.booleans(), w=fl(0.1, 2, 1), seed=seeds))


@law("C13", _D, quick=250, cost=0.006,
     rule="1-7 photon states, displacement arrays of rank 1, 2 and 4, number-diagonal and coherent photon densities: expectation value of the displacement operator and its derivative against the exponential of the ladder operators, the closed form and finite differences; non-trivial with >= 2 photon states")
def displacement(c):
    nb = c["nb"]
    q = photon(nb, c["w"])
    r = rng(c)
    A = c["amp"] * r.standard_normal((3,) * c["shape"] if c["shape"] < 4 else (2,) * 4)
    x = r.standard_normal((nb, nb))
    rho = np.diag(r.random(nb)) if c["diag"] else x @ x.T
    rho = rho / np.trace(rho)
    ref = sum(rho[m, n] * fc(m, n, A) for m in range(nb) for n in range(nb))
    a0 = A.copy()
    p0 = rho.copy()
    if nb == 1 and len(A.shape) > 2:
        pass
    for nm in ("displacement_matrix", "displacement_exp_val"):
        close(attr(q, nm)(0, A, rho), ref, nm, 1e-9, 1e-10)
    close(A, a0, "caller's displacements")
    close(rho, p0, "caller's density")
    if c["diag"]:
        # <n|exp(a(b^+ - b))|n> in a large space
        N = 60
        b = lower(N)
        i = tuple(r.integers(0, s) for s in A.shape)
        D = sl.expm(A[i] * (b.T - b))
        close(attr(q, "displacement_exp_val")(0, A, rho)[i], np.sum(np.diag(D)[:nb] * np.diag(rho)), "number-diagonal expectation of the displacement", 1e-8, 1e-8)
    h = 1e-4
    F = lambda y: sum(rho[m, n] * fc(m, n, y) for m in range(nb) for n in range(nb))
    dref = (8 * (F(A + h) - F(A - h)) - (F(A + 2 * h) - F(A - 2 * h))) / (12 * h)
    close(attr(q, "displacement_deriv_kernel")(0, A, rho), dref, "derivative of the displacement", 1e-7, 1e-7)
    close(attr(q, "displacement_deriv_vt")(0, A, rho), A * dref, "logarithmic derivative (transformation)", 1e-7, 1e-7)
    close(attr(q, "displacement_deriv_vsq")(0, A, rho), A * dref, "logarithmic derivative (squeezing)", 1e-7, 1e-7)
    if nb == 1:
        raise Trivial


@law("C13", st.fixed_dictionaries(dict(n=st.integers(1, 8), nm=st.integers(1, 3), nb=st.integers(1, 6), seed=seeds)), quick=200, cost=0.003,
     rule="random symmetric matrices (packing round trip), random photon Hamiltonians of 1-3 modes with squeezing: matrix elements against ladder operators; photon density and occupation from the stored eigenvector")
def operators(c):
    B = "openms.lib.boson:"
    r = rng(c)
    m = sym(r, c["n"], c["n"])
    p = get(B + "pack_symmetric")(m)
    close(get(B + "unpack_symmetric")(p, c["n"]), m, "packing round trip")
    k = get(B + "packed_index")
    for i in range(c["n"]):
        for j in range(c["n"]):
            close(p[k(i, j)], m[i, j], "packed index")
    u = get(B + "unpack_symmetric")(p, c["n"], fac=2.0)
    close(u, 0.5 * m + 0.5 * np.diag(np.diag(m)), "off-diagonal factor of unpacking")
    nm, nb = c["nm"], [int(x) for x in r.integers(1, c["nb"] + 1, c["nm"])]
    w, za, F = 0.1 + r.random(nm), r.standard_normal(nm), 0.4 * r.standard_normal(nm)
    H = get(B + "get_bosonic_Ham")(nm, nb, w, za, F)
    ref = []
    for a in range(nm):
        b = lower(nb[a])
        ref.append(w[a] * (np.cosh(2 * F[a]) * np.diag(np.arange(nb[a])) + np.sinh(F[a]) ** 2 * np.eye(nb[a])) + za[a] * (b + b.T))
    close(H, sl.block_diag(*ref), "photon Hamiltonian", 1e-10, 1e-10)
    # photon density of one mode
    q = photon(c["nb"])
    v = r.standard_normal(c["nb"])
    v /= np.linalg.norm(v)
    q.boson_coeff = np.linalg.qr(np.column_stack([v, r.standard_normal((c["nb"], c["nb"] - 1))]))[0]
    v = q.boson_coeff[:, 0]
    close(quiet_call(attr(q, "get_boson_dm"), 0), np.outer(v, v), "photon density", 1e-12)
    close(quiet_call(attr(q, "get_boson_occ")), [v**2 @ np.arange(c["nb"])], "photon number", 1e-12)


@law("C13", mol_strategy(["H2", "HeH+", "H3+"], ("sto-3g",), nbs=st.lists(st.integers(1, 6), min_size=1, max_size=3), sq=st.lists(fl(-0.6, 0.6, 2), min_size=3, max_size=3), res=st.lists(fl(0.0, 1.0, 2), min_size=3, max_size=3), cs=st.booleans(), lam=fl(0.05, 0.8, 2), w=fl(0.1, 2.0, 2), mseed=st.integers(0, 9999)), quick=160, cost=0.02,
     rule="photon states of 1-3 modes in the field of a random determinant, 1-6 photon states each, squeezed or not, residual couplings in [0, 1]: ground state of the photon Hamiltonian of every mode, its energy in the squeezed oscillator, the derivative of that energy with respect to the squeezing, densities and photon numbers; non-trivial with >= 2 photon states")
def photon_state(c):
    mol = build_mol(c)
    r = rng(c)
    nbs = c["nbs"]
    nm = len(nbs)
    v, w = modes(c, nm)
    mf = qedhf(mol, v, w, nboson_states=list(nbs), use_cs=c["cs"])
    q = mf.qed
    dm = rand_dm(mol, r, 0.4)
    quiet_call(q.update_cs, rand_dm(mol, r, 0.1))  # displacement of another density
    attr(q, "couplings_res"), attr(q, "squeezed_var")
    q.couplings_res = np.array(c["res"][:nm])
    q.squeezed_var = np.array(c["sq"][:nm])
    quiet_call(q.update_boson_coeff, dm)
    d, _ = ref_ops(mol, v)
    z = np.ravel(np.asarray(q.z_alpha, float))
    coeff = np.array(attr(q, "boson_coeff"))
    en, i, occ = 0.0, 0, []
    for a, n in enumerate(nbs):
        F, b = c["sq"][a], lower(n)
        num = np.diag(np.arange(n) + 0.5)
        H = w[a] * (np.cosh(2 * F) * num - 0.5 * np.eye(n)) + c["res"][a] * np.sqrt(w[a] / 2) * (np.sum(d[a] * dm) - z[a]) * (b + b.T)
        e, U = np.linalg.eigh(H)
        if n > 1 and e[1] - e[0] < 1e-3:
            raise Trivial
        p = U[:, 0]
        close(abs(p @ coeff[i : i + n, 0]), 1.0, f"photon ground state of mode {a}", 1e-8)
        close(quiet_call(attr(q, "get_boson_dm"), a), np.outer(p, p), f"photon density of mode {a}", 1e-7, 1e-7)
        en += w[a] * (np.cosh(2 * F) * (p @ num @ p) - 0.5)
        occ.append(p**2 @ np.arange(n))
        close(np.ravel(attr(q, "e_boson_grad_r"))[a], w[a] * 2 * np.sinh(2 * F) * (p @ num @ p), "derivative of the photon energy with respect to the squeezing", 1e-7, 1e-8)
        i += n
    close(attr(q, "e_boson"), en, "photon energy", 1e-7, 1e-8)
    close(quiet_call(attr(q, "get_boson_occ")), occ, "photon numbers", 1e-7, 1e-7)
    if max(nbs) == 1:
        raise Trivial


# ------------------------------------------------------------------- C14
def prepared(c, cls, dm, v, w, **kw):
    mf = qedhf(c if not isinstance(c, dict) else build_mol(c), v, w, cls=cls, **kw)
    quiet_call(attr(mf, "get_cholesky"))
    quiet_call(mf.init_var_params, dm)
    return mf


def tenergy(mf, dm, eta=None, fa=None, vsq=None, full=False):
    """the code's electronic energy of a density at given transformation parameters"""
    if eta is not None:
        mf.eta = np.array(eta)
    if fa is not None:
        mf.qed.couplings_var = np.array([fa])
        mf.qed.update_couplings()
    if vsq is not None:
        mf.qed.squeezed_var = np.array([vsq])
    if mf.qed.use_cs:
        mf.qed.update_cs(dm)
    mf.get_h1e_DO(mf.mol, dm=dm)
    h = mf.get_hcore(mf.mol, dm, dress=True)
    v = mf.get_veff(mf.mol, dm)
    e = float(mf.energy_tot(dm, h, v))
    return (e, h, v) if full else e


_SC = dict(lam=fl(0.02, 0.8, 2), w=fl(0.1, 2.0, 2), mseed=st.integers(0, 9999), de=fl(0.0, 0.3, 2), cd=st.booleans())


def lowdin_mo(mol):
    s = mol.intor("int1e_ovlp")
    ww, vv = np.linalg.eigh(s)
    return (vv * ww**-0.5) @ vv.T


def cholesky_eri(eri, n):
    e, u = np.linalg.eigh(eri.reshape(n * n, n * n))
    k = e > 1e-12
    return [(np.sqrt(e[i]) * u[:, i]).reshape(n, n) for i in np.where(k)[0]]


@law("C14", mol_strategy(["H2", "HeH+", "H3+", "LiH"], ("sto-3g",), **_SC), quick=60, cost=0.15,
     rule="SC-QED-HF energy of random determinants at random displacement parameters, from full integrals or their Cholesky factors, against the expectation value of the unitarily transformed Pauli-Fierz Hamiltonian in the dense electron-photon space; non-trivial when the dressing changes the energy by > 1e-7")
def sc_energy(c):
    mol = build_mol(c)
    r = rng(c)
    v, w = modes(c, 1)
    if mol.nao > 4:
        c = dict(c, mol="H3+")
        mol = build_mol(c)
    dm = rand_dm(mol, r, 0.5)
    mf = prepared(mol, SC, dm, v, w, **({"CD_anyway": True, "CD_thresh": 1e-11} if c["cd"] else {}))
    U = np.array(mf.ao2dipole[0])
    s = mol.intor("int1e_ovlp")
    n = mol.nao
    close(U.T @ s @ U, np.eye(n), "dipole basis is orthonormal", 0, 1e-7)
    d, _ = ref_ops(mol, v)
    g = U.T @ d[0] @ U
    close(g, np.diag(np.diag(g)), "dipole basis diagonalises the coupling", 0, 1e-7)
    close(np.ravel(mf.eta[0]), np.diag(g) * np.sqrt(w[0] / 2), "initial displacements", 1e-7, 1e-8)
    eta = np.array(mf.eta) + c["de"] * r.standard_normal(mf.eta.shape)
    e = quiet_call(tenergy, mf, dm, eta)
    # dense oracle in the dipole basis: exp(-X) H exp(X), X = sum_p eta_p/w n_p (b^+ - b) acting
    # on determinant x vacuum
    ne = mol.nelectron // 2
    mb = ManyBody(n, ne, ne)
    h = U.T @ (mol.intor("int1e_kin") + mol.intor("int1e_nuc")) @ U
    eri = np.einsum("pqrs,pi,qj,rk,sl->ijkl", mol.intor("int2e"), U, U, U, U, optimize=True)
    H = mb.hamiltonian(h, cholesky_eri(eri, n)).real
    Dop = np.diag(mb.onebody(np.diag(np.diag(g)))).real
    Eop = np.diag(mb.onebody(np.diag(eta[0] / w[0]))).real  # diagonal: displacement of every configuration
    x = U.T @ s @ dm @ s @ U
    ev, evec = np.linalg.eigh(x)
    co = evec[:, -ne:]
    psi = mb.state(co, co).real
    psi /= np.linalg.norm(psi)
    # electronic part dressed by <0|D(E_i)^+ D(E_j)|0>
    G = np.exp(-0.5 * (Eop[:, None] - Eop[None, :]) ** 2)
    ref = psi @ ((H * G) @ psi)
    # photon parts: w a^2 + sqrt(w/2) d 2 (-a) + d^2/2 with a = E
    ref += psi @ ((w[0] * Eop**2 - 2 * np.sqrt(w[0] / 2) * Dop * Eop + 0.5 * Dop**2) * psi)
    ref += mol.energy_nuc()
    close(e, ref, "energy of the transformed Hamiltonian", 1e-7 if c["cd"] else 1e-9, 1e-7)
    bare = psi @ (H @ psi) + mol.energy_nuc()
    if abs(ref - bare) < 1e-7:
        raise Trivial


def ladder(n):
    b = np.diag(np.sqrt(np.arange(1.0, n)), 1)
    return b + b.T


def unpacked(a, n):
    """symmetric matrix of a packed lower triangle whose off-diagonal entries stand for both halves"""
    m = np.zeros((n, n))
    m[np.tril_indices(n)] = np.asarray(a)
    return 0.5 * (m + m.T)


def fd(f, x, h=2e-4):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


@law("C14", mol_strategy(["H2", "HeH+", "H3+", "LiH", "H4"], ("sto-3g", "6-31g"), nb=st.integers(1, 3), f=fl(0.1, 1.0, 2), vt=st.booleans(), sq=fl(-0.6, 0.6, 2), cs=st.booleans(), **_SC), quick=80, cost=0.15,
     rule="SC- and VT-QED-HF at random densities, displacements, transformation strengths and squeezing, 1-3 photon states, full or Cholesky integrals: reported gradients and mean-field matrix against finite differences of the reported energy; non-trivial when the gradient is not zero")
def gradients(c):
    mol = build_mol(c)
    if mol.nao > 6:
        mol = build_mol(dict(c, basis="sto-3g"))
    r = rng(c)
    v, w = modes(c, 1)
    dm = rand_dm(mol, r, 0.3)
    nb = c["nb"]
    kw = dict(nboson_states=nb)
    if c["vt"]:
        kw["use_cs"] = c["cs"]
    if c["cd"]:
        kw.update(CD_anyway=True, CD_thresh=1e-11)
    mf = prepared(mol, VT if c["vt"] else SC, dm, v, w, **kw)
    f = c["f"] if c["vt"] else 1.0
    if c["vt"] and abs(1 - f) < 2e-4:
        f = 0.9
    sq = c["sq"] if c["vt"] and nb == 1 else 0.0
    if nb > 1:
        # photon states of definite parity: for others the dressing factor of the code is not
        # symmetric (a limitation its comments acknowledge)
        p = r.standard_normal(nb)
        p[(int(r.integers(2)) + np.arange(nb)) % 2 == 1] = 0
        if nb == 2:
            p = np.eye(2)[int(r.integers(2))]
        x = r.standard_normal((nb, nb))
        x[:, 0] = p
        mf.qed.boson_coeff = np.linalg.qr(x)[0]
    eta = np.array(mf.eta) * (f / 0.5 if c["vt"] else 1.0) + c["de"] * r.standard_normal(mf.eta.shape)
    E = lambda **k: quiet_call(tenergy, mf, dm, **k)
    e0, h, vv = quiet_call(tenergy, mf, dm, eta=eta, fa=f if c["vt"] else None, vsq=sq, full=True)
    if nb > 1:
        # the effective photon Hamiltonian of the dressed electrons carries the dependence of the
        # energy on the photon state, and does not itself depend on that state
        C0 = np.array(mf.qed.boson_coeff)
        hp = unpacked(attr(mf.qed, "Hph_sc"), nb)
        za = (1 - f) * np.sqrt(w[0] / 2) * float(np.ravel(np.einsum("pq,xpq->x", dm, mf.qed.gmat) - mf.qed.z_alpha)[0])
        hr = hp + za * ladder(nb)  # what the transformation leaves of the coupling
        q = r.standard_normal(nb)
        q /= np.linalg.norm(q)
        x = r.standard_normal((nb, nb))
        x[:, 0] = q
        mf.qed.boson_coeff = np.linalg.qr(x)[0]
        e1 = E(eta=eta, fa=f if c["vt"] else None, vsq=sq)
        p = C0[:, 0]
        close(unpacked(mf.qed.Hph_sc, nb), hp, "effective photon Hamiltonian for another photon state", 1e-9, 1e-9)
        close(e1 - e0, q @ hr @ q - p @ hr @ p, "effective photon Hamiltonian between two photon states", 1e-7 if c["cd"] else 1e-9, 1e-8)
        mf.qed.boson_coeff = C0
        E(eta=eta, fa=f if c["vt"] else None, vsq=sq)
    if c["vt"]:
        mf.qed.optimize_varf = True
        mf.qed.optimize_vsq = nb == 1
        if nb == 1:
            mf.qed.update_boson_coeff(dm)  # energy of the squeezed vacuum
            e0, h, vv = quiet_call(tenergy, mf, dm, eta=eta, fa=f, vsq=sq, full=True)
    quiet_call(mf.grad_var_params, mf.dm_do, mf.g_dipole, dm=dm)
    geta = np.array(mf.eta_grad[0])
    gf = float(np.ravel(mf.vlf_grad)[0]) if c["vt"] else None
    gs = float(np.ravel(mf.vsq_grad)[0]) if c["vt"] and nb == 1 else None
    tol = dict(rtol=2e-5, atol=2e-6)
    k = int(r.integers(eta.shape[1]))
    u = np.zeros_like(eta)
    u[0, k] = 1
    close(geta[k], fd(lambda t: E(eta=eta + t * u), 0.0), "gradient with respect to a displacement", **tol)
    if c["vt"]:
        fn = lambda t: E(eta=eta * ((f + t) / f), fa=f + t)
        close(gf, fd(fn, 0.0), "gradient with respect to the transformation strength", **tol)
        E(eta=eta, fa=f)
        if nb == 1:

            def fs(t):
                mf.qed.squeezed_var = np.array([sq + t])
                mf.qed.update_boson_coeff(dm)
                return E(eta=eta, fa=f, vsq=sq + t)

            close(gs, fd(fs, 0.0), "gradient with respect to the squeezing", **tol)
            fs(0.0)
    # the mean-field matrix is the derivative with respect to the density
    t = r.standard_normal(dm.shape)
    t = t + t.T
    s = mol.intor("int1e_ovlp")
    t -= s * (np.sum(t * s) / np.sum(s * s))
    e_t = lambda x: quiet_call(tenergy, mf, dm + x * t, eta=eta)
    close(np.sum((h + vv) * t), fd(e_t, 0.0, 1e-3), "mean-field matrix is the derivative of the energy", 1e-5, 1e-6)
    if np.max(np.abs(geta)) < 1e-7:
        raise Trivial


# ------------------------------------------------------------------- C15
def dense_vt(mol, dm, U, g, w, f, cs=True):
    """<H> of determinant x vacuum after exp(f d/sqrt(2w) (b - b^+)), residual coupling in its coherent state"""
    s = mol.intor("int1e_ovlp")
    n, ne = mol.nao, mol.nelectron // 2
    mb = ManyBody(n, ne, ne)
    h = U.T @ (mol.intor("int1e_kin") + mol.intor("int1e_nuc")) @ U
    eri = np.einsum("pqrs,pi,qj,rk,sl->ijkl", mol.intor("int2e"), U, U, U, U, optimize=True)
    H = mb.hamiltonian(h, cholesky_eri(eri, n)).real
    Dop = np.diag(mb.onebody(np.diag(np.diag(g)))).real
    x = U.T @ s @ dm @ s @ U
    co = np.linalg.eigh(x)[1][:, -ne:]
    psi = mb.state(co, co).real
    psi /= np.linalg.norm(psi)
    G = np.exp(-0.5 * f * f * (Dop[:, None] - Dop[None, :]) ** 2 / (2 * w))
    e = psi @ ((H * G) @ psi) + mol.energy_nuc()
    m, m2 = psi**2 @ Dop, psi**2 @ Dop**2
    return e + 0.5 * (1 - f) ** 2 * (m2 - (m * m if cs else 0.0))


@law("C15", mol_strategy(["H2", "HeH+", "H3+"], ("sto-3g", "6-31g"), f=fl(0.0, 1.0, 2), cs=st.booleans(), comp=st.booleans(), **_SC), quick=90, cost=0.12,
     rule="energy of random determinants at transformation strength f in [0, 1] with the matching displacements, full or Cholesky integrals, against the dense partially transformed Pauli-Fierz Hamiltonian; at f=0 equal to QED-HF, at f=1 to SC-QED-HF; non-trivial when the determinant's energy differs from the bare one by > 1e-7")
def vt_energy(c):
    mol = build_mol(c)
    if mol.nao > 4:
        mol = build_mol(dict(c, basis="sto-3g"))
    r = rng(c)
    v, w = modes(c, 1)
    dm = rand_dm(mol, r, 0.5)
    cd = {"CD_anyway": True, "CD_thresh": 1e-11} if c["cd"] else {}
    f = c["f"]
    cd["complete_basis"] = c["comp"]
    mf = prepared(mol, VT, dm, v, w, use_cs=c["cs"], **cd)
    close(mf.qed.couplings_var, [0.5], "default transformation strength")
    U = np.array(mf.ao2dipole[0])
    d, quad = ref_ops(mol, v)
    g = U.T @ d[0] @ U
    eig = np.diag(g) * np.sqrt(w[0] / 2)
    close(np.ravel(mf.eta[0]), 0.5 * eig, "initial displacements", 1e-7, 1e-8)
    e, h, vv = quiet_call(tenergy, mf, dm, eta=(f * eig)[None], fa=f, full=True)
    ref = dense_vt(mol, dm, U, g, w[0], f, c["cs"])
    if c["comp"]:
        # the residual self-energy uses the operator (lambda.d)^2 itself
        ref += 0.5 * (1 - f) ** 2 * np.sum((quad[0] - d[0] @ np.linalg.inv(mol.intor("int1e_ovlp")) @ d[0]) * dm)
    close(e, ref, "energy of the partially transformed Hamiltonian", 1e-7, 1e-7)
    # limits
    sc = prepared(mol, SC, dm, v, w, **cd)
    esc = quiet_call(tenergy, sc, dm)
    e1 = quiet_call(tenergy, mf, dm, eta=eig[None], fa=1.0)
    close(e1, esc, "full transformation vs SC-QED-HF", 1e-8, 1e-8)
    hf = qedhf(mol, v, w, use_cs=c["cs"], complete_basis=c["comp"])
    ehf, hh, hv = energy(hf, dm)
    e2, h0, v0 = quiet_call(tenergy, mf, dm, eta=0 * eig[None], fa=0.0, full=True)
    close(e2, ehf, "no transformation vs QED-HF", 1e-7, 1e-7)
    if c["cs"]:
        close(h0 + v0, hh + hv, "mean-field matrix without transformation vs QED-HF", 1e-6, 1e-6)
    if abs(ref - dense_vt(mol, dm, U, 0 * g, w[0], 0.0)) < 1e-7:
        raise Trivial


@law("C15", mol_strategy(["H2", "HeH+", "H3+", "H4"], ("sto-3g",), nm=st.integers(1, 2), vt=st.booleans(), of=st.booleans(), os=st.booleans(), **{k: _SC[k] for k in ("lam", "w", "mseed")}), quick=60, cost=0.02,
     rule="the vector of variational parameters handed to the convergence accelerator, changed at random and set back, with any combination of optimised parameters and 1-2 modes: every optimised parameter takes its new value, all others keep theirs; non-trivial: always")
def parameters(c):
    mol = build_mol(c)
    r = rng(c)
    v, w = modes(c, c["nm"])
    dm = rand_dm(mol, r, 0.3)
    kw = {}
    if c["vt"] and not c["of"]:
        kw["couplings_var"] = np.full(c["nm"], 0.7)
    mf = prepared(mol, VT if c["vt"] else SC, dm, v, w, **kw)
    q = mf.qed
    if c["vt"]:
        q.optimize_vsq = c["os"]
        q.squeezed_var = 0.1 * r.standard_normal(c["nm"])
        mf.vlf_grad, mf.vsq_grad = r.standard_normal(c["nm"]), r.standard_normal(c["nm"])
    mf.eta_grad = r.standard_normal(mf.eta.shape)
    e0, f0, s0 = np.array(mf.eta), np.array(q.couplings_var), np.array(q.squeezed_var)
    var, grad = mf.pre_update_var_params()
    var, grad = np.ravel(var).copy(), np.ravel(grad).copy()
    want = [mf.eta_grad.ravel()]
    vals = [e0.ravel()]
    if c["vt"] and c["of"]:
        want.append(mf.vlf_grad), vals.append(f0)
    if c["vt"] and c["os"]:
        want.append(mf.vsq_grad), vals.append(s0)
    close(var, np.hstack(vals), "packed parameters")
    close(grad, np.hstack(want), "packed gradients")
    residual = lambda how: close(q.couplings_res, 1.0 - np.array(q.couplings_var), how + ": residual coupling strength")
    residual("start")
    # a plain gradient step
    mf.precond = float(r.uniform(0.01, 0.3))
    quiet_call(mf.update_var_params)
    close(np.array(mf.eta), e0 - mf.precond * mf.eta_grad, "gradient step of the displacements")
    if c["vt"]:
        close(q.couplings_var, f0 - mf.precond * mf.vlf_grad if c["of"] else f0, "gradient step of the transformation strengths")
        close(q.squeezed_var, s0 - mf.precond * mf.vsq_grad if c["os"] else s0, "gradient step of the squeezing")
    residual("gradient step")
    mf.eta, q.couplings_var, q.squeezed_var = e0.copy(), f0.copy(), s0.copy()
    q.update_couplings()
    for how in ("set_var_params", "set_params"):
        new = var + r.standard_normal(var.size) * 0.05
        fock = r.standard_normal((mol.nao, mol.nao))
        if how == "set_var_params":
            quiet_call(mf.set_var_params, [new])
        else:
            got = quiet_call(mf.set_params, np.hstack([fock.ravel(), new]), fock.shape)
            close(got, fock, "mean-field matrix unpacked")
        k = e0.size
        close(np.array(mf.eta), new[:k].reshape(e0.shape), how + ": displacements")
        if c["vt"] and c["of"]:
            close(q.couplings_var, new[k : k + c["nm"]], how + ": transformation strengths")
            k += c["nm"]
        else:
            close(q.couplings_var, f0, how + ": fixed transformation strengths")
        residual(how)
        if c["vt"] and c["os"]:
            close(q.squeezed_var, new[k:], how + ": squeezing")
        else:
            close(q.squeezed_var, s0, how + ": fixed squeezing")


def run_sc(mol, v, w, cls, dm0=None, **kw):
    mf = qedhf(mol, v, w, cls=cls, **kw)
    mf.conv_tol = 1e-10
    mf.max_cycle = 300
    quiet_call(mf.kernel, dm0=dm0)
    return mf


def same_state(a, b):
    """the determinants of two converged runs overlap: one of them is not an excited solution"""
    n = a.mol.nelectron // 2
    x = np.array(a.mo_coeff)[:, :n].T @ a.mol.intor("int1e_ovlp") @ np.array(b.mo_coeff)[:, :n]
    return np.linalg.det(x) ** 2 > 0.8


def optimised(c, mol, v, w):
    """VT-QED-HF with optimised strength and possibly squeezing"""
    osq = c["osq"]
    kw = dict(CD_anyway=True, CD_thresh=1e-11) if c["cd"] else {}

    def new():
        m = qedhf(mol, v, w, cls=VT, **kw)
        m.conv_tol, m.max_cycle, m.qed.optimize_vsq = 1e-10, 300, osq
        return m

    a = new()
    quiet_call(a.kernel)
    if not a.converged:
        raise Trivial
    dm, eta = a.make_rdm1(), np.array(a.eta)
    f, s = float(a.qed.couplings_var[0]), float(np.ravel(a.qed.squeezed_var)[0])
    expect(osq or s == 0, "squeezing changed although it is not optimised")

    def E(ee=eta, ff=f, ss=s):
        a.qed.squeezed_var = np.array([ss])
        a.qed.update_boson_coeff(dm)
        return quiet_call(tenergy, a, dm, eta=ee, fa=ff, vsq=ss)

    close(E(), a.e_tot, "energy of the returned density and parameters", 0, 1e-7)
    u = rng(c).standard_normal(eta.shape)
    u /= np.linalg.norm(u)
    close(fd(lambda t: E(ee=eta + t * u), 0.0, 1e-3), 0, "derivative with respect to the displacements at convergence", 0, 5e-5)
    if abs(f) > 1e-2 and abs(1 - f) > 1e-3:
        close(fd(lambda t: E(ff=f + t, ee=eta * ((f + t) / f)), 0.0, 1e-3), 0, "derivative with respect to the transformation strength at convergence", 0, 5e-5)
    if osq:
        close(fd(lambda t: E(ss=s + t), 0.0, 1e-3), 0, "derivative with respect to the squeezing at convergence", 0, 5e-5)
    hf, sc = qedhf(mol, v, w), run_sc(mol, v, w, SC)
    solve(hf)
    if hf.converged and abs(f) > 1e-2:
        x = new()
        quiet_call(x.kernel, dm0=hf.make_rdm1(), init_params=[0 * eta, np.array([0.02])] + ([np.array([0.0])] if osq else []))
        if x.converged and same_state(x, hf):
            expect(x.e_tot < hf.e_tot + 1e-7, f"optimised energy {x.e_tot} above the one without transformation {hf.e_tot}")
    b = new()
    if not osq:
        b.max_cycle = 0
    quiet_call(b.kernel, dm0=dm.copy(), init_params=[eta.copy(), np.array([f])] + ([np.array([s])] if osq else []))
    if not osq:
        close(b.e_tot, a.e_tot, "restart from density and parameters without iterations", 0, 1e-7)
        close(b.qed.couplings_var, [f], "restart strength", 1e-12)
        close(b.eta, eta, "restart displacements", 1e-12)
    elif b.converged and same_state(a, b):
        expect(b.e_tot < a.e_tot + 1e-6, f"restart converges to a higher energy: {b.e_tot} > {a.e_tot}")
    g = float(np.random.default_rng(c["seed"]).uniform(0.1, 0.95))
    x = qedhf(mol, v, w, cls=VT, couplings_var=[g])
    x.conv_tol, x.max_cycle = 1e-10, 300
    quiet_call(x.kernel)
    close(x.qed.couplings_var, [g], "given transformation strength after a run", 1e-12)
    close(np.ravel(x.qed.squeezed_var), [0.0], "squeezing after a run without squeezing", 0, 1e-14)


@law("C15", mol_strategy(["H2", "HeH+", "H3+", "LiH"], ("sto-3g", "6-31g"), nb=st.integers(2, 5), vt=st.booleans(), of=st.booleans(), cd=st.booleans(), **{k: _SC[k] for k in ("lam", "w", "mseed")}), quick=30, cost=0.8,
     rule="converged SC- and VT-QED-HF (fixed or optimised strength) with 2-5 photon states: from scratch and from the neighbourhood of the solution with the vacuum only; the latter lower than the vacuum solution, equal to it with two states, reported energy of the returned state, photon state in the ground state of its effective Hamiltonian, displacements stationary; non-trivial when the photon state gains > 1e-8")
def photon_states(c):
    mol = build_mol(c)
    if mol.nao > 6:
        mol = build_mol(dict(c, basis="sto-3g"))
    v, w = modes(c, 1)
    r = rng(c)
    kw = dict(CD_anyway=True, CD_thresh=1e-11) if c["cd"] and mol.nao < 5 else {}
    if c["vt"] and not c["of"]:
        kw["couplings_var"] = [float(r.uniform(0.2, 0.95))]
    nb = c["nb"]

    def run(n, **k):
        m = qedhf(mol, v, w, cls=VT if c["vt"] else SC, nboson_states=n, **kw)
        m.conv_tol, m.max_cycle = 1e-10, 300
        quiet_call(m.kernel, **k)
        return m

    a = run(1)
    if not a.converged:
        raise Trivial
    # close to the solution, not at it: convergence is judged before the photon state has changed
    par = [np.array(a.eta) + 0.02 * w[0] * r.standard_normal(np.shape(a.eta))] + ([np.array(a.qed.couplings_var)] if c["vt"] and c["of"] else [])
    back = run(1, dm0=a.make_rdm1(), init_params=[y.copy() for y in par])
    if not back.converged or abs(back.e_tot - a.e_tot) > 1e-7:
        raise Trivial  # this start does not even lead back with the vacuum only
    b = run(nb, dm0=a.make_rdm1(), init_params=par)
    expect(np.isfinite(b.e_tot), "energy is not finite")
    if b.converged:
        expect(b.e_tot < a.e_tot + 1e-6, f"{nb} photon states, started from the vacuum solution: energy {b.e_tot} above {a.e_tot}")
    x = run(nb)
    expect(np.isfinite(x.e_tot), "energy is not finite")
    gain = 0.0
    for m in (b, x):
        if not m.converged:
            continue
        if nb == 2 and m is b and same_state(a, b):
            close(m.e_tot, a.e_tot, "energy with one photon allowed (excluded by parity)", 0, 1e-6)
        dm, eta = m.make_rdm1(), np.array(m.eta)
        q = np.array(m.qed.boson_coeff)[:, 0]
        close(np.linalg.norm(q), 1.0, "norm of the photon state", 0, 1e-9)
        E = lambda ee=eta: quiet_call(tenergy, m, dm, eta=ee)
        close(E(), m.e_tot, "energy of the returned state", 0, 1e-7)
        H = unpacked(attr(m.qed, "Hph_sc"), nb) + w[0] * np.diag(np.arange(nb))
        close(q @ H @ q, np.linalg.eigvalsh(H)[0], "photon state in the ground state of its effective Hamiltonian", 0, 1e-6)
        u = r.standard_normal(eta.shape)
        u /= np.linalg.norm(u)
        close(fd(lambda t: E(eta + t * u), 0.0, 1e-3), 0, "derivative with respect to the displacements at convergence", 0, 5e-5)
        gain = max(gain, 1 - q[0] ** 2)
    if gain < 1e-8:
        raise Trivial


@law("C15", mol_strategy(["H2", "HeH+", "H3+", "H4", "LiH"], ("sto-3g", "6-31g"), kind=st.sampled_from(["f0", "f1", "cd", "zero", "restart", "guess", "opt", "opt"]), cd=st.booleans(), osq=st.booleans(), **{k: _SC[k] for k in ("lam", "w", "mseed")}), quick=60, cost=0.6,
     rule="converged SC/VT-QED-HF calculations: strength fixed at ~0 vs QED-HF and at 1 vs SC-QED-HF, Cholesky vs full integrals, zero coupling vs bare Hartree-Fock, restart from the converged density and parameters (given back as initial parameters: the same energy without an iteration), fully optimised strength and squeezing: no first-order change of the energy with any optimised parameter, lower than either limit, fixed parameters untouched; core-Hamiltonian guess; stationary gradients at convergence; non-trivial when converged")
def vt_converged(c):
    mol = build_mol(c)
    if mol.nao > 6:
        mol = build_mol(dict(c, basis="sto-3g"))
    v, w = modes(c, 1)
    k = c["kind"]
    if k == "guess":
        from pyscf import scf

        sc = qedhf(mol, v, w, cls=SC)
        close(quiet_call(sc.init_guess_by_1e, mol), scf.RHF(mol).init_guess_by_1e(mol), "core-Hamiltonian guess", 1e-6, 1e-6)
        return
    if k == "zero":
        from pyscf import scf

        ref = scf.RHF(mol).set(verbose=0, conv_tol=1e-11).run()
        a = run_sc(mol, 1e-9 * v, w, SC)
        if not (a.converged and ref.converged):
            raise Trivial
        if a.e_tot > ref.e_tot + 1e-7 or a.e_tot < ref.e_tot - 1e-7:
            b = scf.RHF(mol).set(verbose=0, conv_tol=1e-11).run(dm0=a.make_rdm1())
            close(a.e_tot, b.e_tot, "vanishing coupling vs bare Hartree-Fock", 0, 3e-7)
        return
    if k == "opt":
        return optimised(c, mol, v, w)
    a = run_sc(mol, v, w, SC)
    if not a.converged:
        raise Trivial
    dm = a.make_rdm1()
    eta = np.array(a.eta)
    E = lambda dd, ee: quiet_call(tenergy, a, dd, eta=ee)
    if k == "restart":
        close(E(dm, eta), a.e_tot, "energy of the returned density and parameters", 0, 1e-7)
        b = qedhf(mol, v, w, cls=SC)
        b.max_cycle = 0
        quiet_call(b.kernel, dm0=dm.copy(), init_params=[eta.copy()])
        close(b.e_tot, a.e_tot, "restart from density and parameters without iterations", 0, 1e-7)
        close(b.eta, eta, "restart parameters", 1e-12)
        b = qedhf(mol, v, w, cls=SC)
        b.conv_tol = 1e-10
        b.max_cycle = 300
        quiet_call(b.kernel, dm0=dm.copy(), init_params=[eta.copy()])
        if b.converged and same_state(a, b):
            close(b.e_tot, a.e_tot, "restart from a converged density and parameters", 0, 1e-6)
        # stationary: no first-order change along random orbital rotations and displacements
        r = rng(c)
        s = mol.intor("int1e_ovlp")
        n, no = mol.nao, mol.nelectron // 2
        K = r.standard_normal((n, n))
        K = 0.5 * (K - K.T)
        C = np.array(a.mo_coeff)
        de = r.standard_normal(eta.shape)

        def along(t):
            o = (C @ sl.expm(t * K))[:, :no]
            return E(2 * o @ o.T, eta + t * de)

        close(fd(along, 0.0, 1e-3), 0.0, "first-order change at convergence", 0, 2e-3)
        expect(along(0.0) <= min(along(0.02), along(-0.02)) + 2e-4, "not a minimum along a random direction")
        return
    if k in ("cd", "f1"):
        # the same state, found again with other integrals or by the other class from where the first run ended
        what, cls, kw = ("Cholesky vs full integrals", SC, dict(CD_anyway=True, CD_thresh=1e-11)) if k == "cd" else ("full transformation vs SC-QED-HF", VT, dict(couplings_var=[1.0]))
        for n in (0, 300):
            b = qedhf(mol, v, w, cls=cls, **kw)
            b.conv_tol, b.max_cycle = 1e-10, n
            quiet_call(b.kernel, dm0=dm.copy(), init_params=[eta.copy()])
            if n == 0 or b.converged and same_state(a, b):
                close(b.e_tot, a.e_tot, what + (" (converged)" if n else ""), 0, 1e-6)
    elif k == "f0":
        hf = qedhf(mol, v, w)
        solve(hf)
        b = qedhf(mol, v, w, cls=VT, couplings_var=[0.0])
        dm = hf.make_rdm1()
        quiet_call(b.get_cholesky)
        quiet_call(b.init_var_params, dm)
        e = quiet_call(tenergy, b, dm, fa=0.0)
        close(e, hf.e_tot, "no transformation: energy of the QED-HF solution", 0, 1e-7)


def coherent(nf, a):
    return np.exp(-a * a / 2) * np.array([a**m / math.sqrt(math.factorial(m)) for m in range(nf)])


@law("C13", mol_strategy(["H2", "HeH+", "H3+", "LiH"], ("sto-3g",), which=st.sampled_from(["hf", "sc", "vt", "vsq"]), nf=st.sampled_from(list(range(1, 13)) + [24]), sq=fl(-0.8, 0.6, 2), **{k: _SC[k] for k in ("lam", "w", "mseed")}), quick=90, cost=0.05,
     rule="electron-photon density of random determinants in the photon-number basis after QED-HF (coherent state) and SC/VT-QED-HF (displacement of every dipole orbital; with squeezing the electron block): photon and electron blocks, normalisation and mean photon number against explicit coherent states; non-trivial when the displacement is > 1e-3")
def fock_density(c):
    mol = build_mol(c)
    r = rng(c)
    v, w = modes(c, 1)
    nf, no = c["nf"], mol.nelectron // 2
    s = mol.intor("int1e_ovlp")
    dm = rand_dm(mol, r, 0.5)
    C = np.linalg.eigh(sl.sqrtm(s).real @ dm @ sl.sqrtm(s).real)[1][:, ::-1]
    C = sl.inv(sl.sqrtm(s).real) @ C
    occ = np.zeros(mol.nao)
    occ[:no] = 2
    if c["which"] == "hf":
        mf = qedhf(mol, v, w)
        quiet_call(mf.qed.update_cs, dm)
        m = np.sum(ref_ops(mol, v)[0][0] * dm)
        amp = np.full(mol.nao, -m / np.sqrt(2 * w[0]))
        U = lowdin_mo(mol)
    else:
        mf = prepared(mol, SC if c["which"] == "sc" else VT, dm, v, w)
        U = np.array(mf.ao2dipole[0])
        amp = -np.ravel(mf.eta[0]) / w[0]
    mf.mo_coeff, mf.mo_occ = C, occ
    if c["which"] == "vsq":
        # squeezed: the electron block is damped by the squeezed overlap of the displacements
        a = np.exp(c["sq"]) * amp
        if np.max(np.abs(a)) > 2 or abs(c["sq"]) < 0.01:
            raise Trivial
        mf.qed.squeezed_var = np.array([c["sq"]])
        tot, re, rb = quiet_call(mf.make_rdm1_org, C, occ, nfock=30)
        x = U.T @ s @ dm @ s @ U * np.exp(-0.5 * (a[:, None] - a[None, :]) ** 2)
        close(re, U @ x @ U.T, "electron density of the squeezed state", 1e-7, 1e-7)
        close(np.trace(rb), 1.0, "trace of the photon density of the squeezed state", 0, 1e-7)
        if np.max(np.abs(a)) < 1e-3:
            raise Trivial
        return
    tot, re, rb = quiet_call(mf.make_rdm1_org, C, occ, nfock=nf)
    x = U.T @ s @ dm @ s @ U
    coh = np.array([coherent(nf, a) for a in amp])
    ref = np.einsum("pm,qn,pq,up,vq->munv", coh, coh, x, U, U, optimize=True)
    close(tot, ref, "electron-photon density", 1e-8, 1e-8)
    close(re, np.einsum("mumv->uv", ref), "electron density", 1e-8, 1e-8)
    close(rb, np.einsum("munv,uv->mn", ref, s) / mol.nelectron, "photon density", 1e-8, 1e-8)
    if hasattr(mf, "make_boson_nocc_org"):
        n = quiet_call(mf.make_boson_nocc_org, nf)
        close(n, np.dot(np.diag(rb), np.arange(nf)), "photon number", 1e-8)
    if np.max(np.abs(amp)) < 1e-3:
        raise Trivial
