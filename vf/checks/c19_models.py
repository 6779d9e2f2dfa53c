"""C19: lattice models represent their Hamiltonians; C20: molecular aggregates"""
import itertools
import random

import numpy as np
from hypothesis import strategies as st

from vf.core import Trivial, attr, close, expect, get, law, rng
from vf.oracle import ManyBody
from vf.rig import cplx, fl, quiet_call, seeds, sym, unitary


def chain(L, bc, double2=False):
    t = np.zeros((L, L))
    for i in range(L - 1):
        t[i, i + 1] = t[i + 1, i] = -1.0
    if bc == "p":
        if L == 2:
            if double2:
                t[0, 1] = t[1, 0] = -2.0
        else:
            t[0, L - 1] = t[L - 1, 0] = -1.0
    return t


def det_energy(t, U, ca, cb, shift=None):
    """<H> of two determinants on the lattice, dense when small, by contraction otherwise"""
    L = t.shape[0]
    na, nb = ca.shape[1], cb.shape[1]
    if L <= 5 and 0 < na and 0 < nb:
        mb = ManyBody(L, na, nb)
        H = mb.onebody(t)
        for i in range(L):
            n = np.zeros((L, L))
            n[i, i] = 1
            z = np.zeros((L, L))
            H = H + U * mb.onebody(n, z) @ mb.onebody(z, n)
        psi = mb.state(ca, cb)
        return float(np.real(psi.conj() @ H @ psi))
    pa, pb = ca @ ca.T, cb @ cb.T
    return float(np.sum(t * (pa + pb)) + U * np.sum(np.diag(pa) * np.diag(pb)))


OV = {"o": 0, "v": 1}


def check_blocks(blk, tot, occ, vir, what):
    """every block the container holds against the indexed full tensor; occ/vir per axis"""
    for name in [k for k in vars(blk) if set(k) <= set("ov")]:
        b = getattr(blk, name)
        if b is None:
            continue
        off = tot.ndim - len(name)
        ix = np.ix_(*[range(n) for n in tot.shape[:off]], *[(occ, vir)[OV[ch]][ax] for ax, ch in enumerate(name)])
        close(b, tot[ix], f"{what} {name}", 1e-9, 1e-9)


_H = st.fixed_dictionaries(dict(L=st.sampled_from([2, 3, 3, 4]), N=st.integers(2, 8), U=fl(-2, 8, 1), bc=st.sampled_from(["p", None]), seed=seeds))


@law("C19", _H, quick=60, cost=0.2,
     rule="Hubbard chains of 2-4 sites, any filling, open and periodic, random orbitals: hopping and repulsion, mean-field energy against the dense lattice Hamiltonian, mean-field matrix as its derivative, molecular-orbital integrals and every occupied/virtual block; non-trivial: always")
def hubbard(c):
    r = rng(c)
    L = c["L"]
    N = min(c["N"], 2 * L - 2)
    ca, cb = unitary(r, L), unitary(r, L)
    m = get("openms.models.hubbard:Hubbard1D")(L, N, c["U"], bc=c["bc"], ca=ca, cb=cb)
    nb = N // 2
    na = N - nb
    U = c["U"]
    expect((m.na, m.nb) == (na, nb), "electron numbers")
    t = chain(L, c["bc"])
    close(m.tmatS(), t, "hopping")
    o2 = np.kron(np.eye(2), t)
    close(m.tmat(), o2, "hopping (spin orbitals)")
    e = det_energy(t, U, ca[:, :na], cb[:, :nb])
    close(m.hf_energy(), e, "mean-field energy", 1e-9, 1e-9)
    pa, pb = ca[:, :na] @ ca[:, :na].T, cb[:, :nb] @ cb[:, :nb].T
    F = m.fock()
    Fa, Fb = t + U * np.diag(np.diag(pb)), t + U * np.diag(np.diag(pa))
    z = np.zeros((L, L))
    Fref = np.block([[Fa, z], [z, Fb]])
    close(F, Fref, "mean-field matrix", 1e-9, 1e-9)
    C = np.block([[ca, z], [z, cb]])
    o = list(range(na)) + [L + i for i in range(nb)]
    v = [i for i in range(2 * L) if i not in o]
    check_blocks(m.g_fock(), C.T @ Fref @ C, [o] * 2, [v] * 2, "mean-field matrix")
    A, B = m.u_fock()
    oa, va, ob, vb = range(na), range(na, L), range(nb), range(nb, L)
    check_blocks(A, ca.T @ Fa @ ca, [oa] * 2, [va] * 2, "alpha mean-field matrix")
    check_blocks(B, cb.T @ Fb @ cb, [ob] * 2, [vb] * 2, "beta mean-field matrix")
    close(m.u_hcore_tot()[0], ca.T @ t @ ca, "alpha hopping in orbitals")
    close(m.u_hcore_tot()[1], cb.T @ t @ cb, "beta hopping in orbitals")
    close(m.g_hcore_tot(), C.T @ o2 @ C, "hopping in orbitals")
    # physicists' integrals <pq|rs> = U sum_i
    I = lambda w, x, y, z_: U * np.einsum("ip,iq,ir,is->pqrs", w, x, y, z_)
    ab = I(ca, cb, ca, cb)
    raw = m.u_int_tot()
    for got, ref, w in zip(raw, (I(ca, ca, ca, ca), I(cb, cb, cb, cb), ab), ("aa", "bb", "ab")):
        close(got, ref, "integrals " + w, 1e-9, 1e-9)
    # antisymmetrised same-spin integrals of an on-site repulsion vanish
    anti = m.u_aint_tot()
    close(anti[0], 0 * ab, "antisymmetrised aa", 0, 1e-9)
    close(anti[1], 0 * ab, "antisymmetrised bb", 0, 1e-9)
    close(anti[2], ab, "antisymmetrised ab", 1e-9, 1e-9)
    blk = m.u_aint()
    check_blocks(blk[0], anti[0], [oa] * 4, [va] * 4, "aa")
    check_blocks(blk[1], anti[1], [ob] * 4, [vb] * 4, "bb")
    check_blocks(blk[2], ab, [oa, ob] * 2, [va, vb] * 2, "ab")
    g = m.g_aint_tot()
    n = 2 * L
    ref = np.zeros((n,) * 4)
    s = [slice(0, L), slice(L, n)]
    ref[s[0], s[1], s[0], s[1]] = ab
    ref[s[1], s[0], s[1], s[0]] = ab.transpose(1, 0, 3, 2)
    ref = ref - ref.transpose(0, 1, 3, 2)
    close(g, ref, "antisymmetrised spin-orbital integrals", 1e-9, 1e-9)
    gi = m.g_int_tot()
    close(gi - gi.transpose(0, 1, 3, 2), ref, "spin-orbital integrals", 1e-9, 1e-9)
    check_blocks(m.g_aint(), ref, [o] * 4, [v] * 4, "spin-orbital integrals")
    # energy from the integrals
    e2 = np.einsum("ii", (C.T @ o2 @ C)[np.ix_(o, o)]) + 0.5 * np.einsum("ijij", g[np.ix_(o, o, o, o)])
    close(e2, e, "energy from the integrals", 1e-9, 1e-9)


_HH = st.fixed_dictionaries(dict(L=st.integers(2, 5), N=st.integers(1, 4), U=fl(0, 6, 1), w=fl(0.1, 2, 1), g=fl(-1, 1, 1), gij=st.one_of(st.none(), fl(-0.5, 0.5, 1)),
                                 bc=st.sampled_from(["p", None]), shift=st.booleans(), own=st.booleans(), brk=st.booleans(), seed=seeds))


@law("C19", _HH, quick=120, cost=0.05,
     rule="Hubbard-Holstein chains of 2-5 sites, open and periodic, with and without bond coupling and coherent shift, random or self-consistent orbitals: mean-field energy against the dense electron part and coherent phonons, mean-field matrix as its derivative, coupling, blocks, stationary self-consistent orbitals; non-trivial when the coupling is not zero")
def holstein(c):
    r = rng(c)
    L = c["L"]
    na = max(1, min(c["N"], L - 1))
    N = 2 * na
    ca, cb = (unitary(r, L), unitary(r, L)) if c["own"] else (None, None)
    U, w = c["U"], c["w"]
    m = quiet_call(get("openms.models.hh_model:HHModel"), L, L, N, U, w, g=c["g"], bc=c["bc"], ca=ca, cb=cb, gij=c["gij"], shift=c["shift"], breaksym=c["brk"])
    t = chain(L, c["bc"], True)
    close(m.tmatS(), t, "hopping")
    if not c["own"]:
        ca, cb = m.ca, m.cb
        for x in (ca, cb):
            close(x.T @ x, np.eye(L), "orthonormal orbitals", 0, 1e-8)
        pa, pb = ca[:, :na] @ ca[:, :na].T, cb[:, :na] @ cb[:, :na].T
        # self-consistent orbitals of the bare chain: converged unless the mean field gave up
        fa, fb = t + U * np.diag(np.diag(pb)), t + U * np.diag(np.diag(pa))
        ga = ca[:, na:].T @ fa @ ca[:, :na]
        gb = cb[:, na:].T @ fb @ cb[:, :na]
        ea = np.diag(ca.T @ fa @ ca)
        if min(ea[na:]) - max(ea[:na]) > 0.05 and U <= 4:
            close(ga, 0 * ga, "stationary alpha orbitals", 0, 1e-3)
            close(gb, 0 * gb, "stationary beta orbitals", 0, 1e-3)
    oa, ob = ca[:, :na], cb[:, :na]
    n = 2 * L
    z = np.zeros((L, L))
    # coupling of mode I: g n_I (both spins) plus bond coupling
    G = np.zeros((L, n, n))
    for i in range(L):
        G[i, i, i] += c["g"]
        G[i, i + L, i + L] += c["g"]
        if c["gij"] is not None:
            for a in range(L):
                for b in range(L):
                    if abs(a - b) == 1 or (c["bc"] == "p" and abs(a - b) == L - 1):
                        G[i, a, b] = G[i, a + L, b + L] = c["gij"]
    close(m.gmat, G, "coupling")
    pa, pb = oa @ oa.T, ob @ ob.T
    P = np.block([[pa, z], [z, pb]])
    x = np.einsum("Iab,ab->I", G, P)
    ph = -np.sum(x**2) / w if c["shift"] else 0.0
    e = det_energy(t, U, oa, ob)
    close(m.hf_energy(), e + ph, "mean-field energy", 1e-9, 1e-9)
    C = np.block([[ca, z], [z, cb]])
    o = list(range(na)) + [L + i for i in range(na)]
    v = [i for i in range(n) if i not in o]
    F = np.block([[t + U * np.diag(np.diag(pb)), z], [z, t + U * np.diag(np.diag(pa))]])
    close(m.fock(), F, "mean-field matrix", 1e-9, 1e-9)
    if c["shift"]:
        F = F - 2 * np.einsum("I,Iab->ab", x / w, G)
    FM = C.T @ F @ C
    check_blocks(m.g_fock(), FM, [o] * 2, [v] * 2, "mean-field matrix with phonons")
    eo, ev = m.energies()
    close(eo, np.diag(FM)[o], "occupied energies", 1e-9, 1e-9)
    close(ev, np.diag(FM)[v], "virtual energies", 1e-9, 1e-9)
    close(m.omega(), np.full(L, w), "frequencies")
    for q in m.mfG():
        close(q, 0 * x if c["shift"] else x, "mean coupling", 1e-9, 1e-9)
    GM = np.einsum("Iab,ap,bq->Ipq", G, C, C)
    close(m.gint_tot(), GM, "coupling in orbitals", 1e-9, 1e-9)
    for q in m.gint():
        check_blocks(q, GM, [o] * 2, [v] * 2, "coupling")
    ab = U * np.einsum("ip,iq,ir,is->pqrs", ca, cb, ca, cb)
    ref = np.zeros((n,) * 4)
    ref[:L, L:, :L, L:] = ab
    ref[L:, :L, L:, :L] = ab.transpose(1, 0, 3, 2)
    check_blocks(m.g_aint(), ref - ref.transpose(0, 1, 3, 2), [o] * 4, [v] * 4, "integrals")
    HC = np.block([[t, z], [z, t]])
    close(m.g_hcore_tot(), C.T @ HC @ C, "hopping in orbitals")
    close(m.u_hcore_tot()[0], ca.T @ t @ ca, "alpha hopping in orbitals")
    close(m.u_hcore_tot()[1], cb.T @ t @ cb, "beta hopping in orbitals")
    if abs(c["g"]) + abs(c["gij"] or 0) == 0:
        raise Trivial


@law("C19", st.fixed_dictionaries(dict(n=st.lists(st.integers(1, 3), min_size=4, max_size=4), m=st.lists(st.integers(1, 3), min_size=4, max_size=4), seed=seeds)), quick=100, cost=0.003,
     rule="random two-electron tensors with different occupied/virtual sizes per index cut into blocks: each named block is the named part of the tensor, the blocks add up to the whole; block-diagonal joins; non-trivial: always")
def blocks(c):
    r = rng(c)
    n, m = c["n"], c["m"]
    T = r.standard_normal([a + b for a, b in zip(n, m)])
    o = [range(a) for a in n]
    v = [range(a, a + b) for a, b in zip(n, m)]
    a = [x for p in zip(n, m) for x in p]
    full = get("openms.lib.ov_blocks:make_two_e_blocks_full")(T, *a)
    check_blocks(full, T, o, v, "block")
    tot = sum(np.sum(getattr(full, "".join(k)) ** 2) for k in itertools.product("ov", repeat=4))
    close(tot, np.sum(T * T), "all blocks together", 1e-10)
    part = get("openms.lib.ov_blocks:make_two_e_blocks")(T, *a)
    check_blocks(part, T, o, v, "block")
    A, B = r.standard_normal((n[0], m[0])), r.standard_normal((n[1], m[1]))
    D = get("openms.lib.ov_blocks:block_diag")(A, B)
    ref = np.zeros((n[0] + n[1], m[0] + m[1]))
    ref[: n[0], : m[0]] = A
    ref[n[0] :, m[0] :] = B
    close(D, ref, "block-diagonal join")


# ------------------------------------------------------------------- C20
_A = st.fixed_dictionaries(dict(n=st.integers(1, 14), nexc=st.integers(1, 16), eps=fl(-1, 2, 2), t=fl(-0.5, 0.5, 2), sigma=fl(0, 2, 2), gam=fl(0.001, 0.2, 3), again=st.integers(0, 3), seed=seeds))


@law("C20", _A, quick=200, cost=0.01,
     rule="disordered chains of 1-14 sites: Hamiltonian, eigenpairs, orthonormality, transition dipoles and their sum rule, ordering by strength, absorption of all or selected states against a Green's function, disorder statistics from the injected generator, all of it again after a second realisation on the same object; non-trivial with >= 2 coupled sites")
def aggregate(c):
    r = rng(c)
    n = c["n"]
    D = get("openms.models.aggregates:DMA")
    t = c["t"] if abs(c["t"]) > 0.01 else 0.05
    draws = []
    g0 = random.gauss
    try:
        pr = random.Random(c["seed"])

        def gauss(mu, sd):
            draws.append((mu, sd, pr.gauss(mu, sd)))
            return draws[-1][2]

        random.gauss = gauss
        m = quiet_call(D, n, c["nexc"], epsilon=c["eps"], hopping=t, sigma=c["sigma"])
        quiet_call(m.kernel)
    finally:
        random.gauss = g0
    A = np.array(m.A)
    off = A - np.diag(np.diag(A))
    ref = np.zeros((n, n))
    for i in range(n - 1):
        ref[i, i + 1] = ref[i + 1, i] = t
    close(off, ref, "hopping")
    if len(draws) == n:
        close([x[0] for x in draws], [c["eps"]] * n, "mean of the site energies")
        close([x[1] for x in draws], [c["sigma"] * abs(t)] * n, "spread of the site energies")
        close(np.diag(A), [x[2] for x in draws], "site energies")
    if c["sigma"] == 0:
        close(np.diag(A), [c["eps"]] * n, "site energies without disorder")
    ev, U = np.linalg.eigh(A)
    close(m.evals, ev, "energies", 1e-8, 1e-8)
    close(A @ m.evecs, m.evecs * ev, "eigenstates", 1e-7, 1e-7)
    close(m.evecs.T @ m.evecs, np.eye(n), "orthonormal states", 0, 1e-5)
    k = min(n, c["nexc"])
    close(m.energies(), ev[:k], "lowest energies", 1e-8, 1e-8)
    quiet_call(m.sortdipole)
    d2 = np.abs(np.sum(m.evecs, axis=0)) ** 2
    close(m.excdipole1, np.sum(m.evecs, axis=0), "transition dipoles", 1e-8, 1e-9)
    close(m.totdip, n, "sum rule of the transition dipoles", 1e-5, 1e-5)
    s = np.asarray(m.dipsortidx)
    expect(sorted(s.tolist()) == list(range(n)), "ordering is a permutation")
    expect(np.all(np.diff(d2[s]) <= 1e-9), "ordering by strength")
    el = np.linspace(ev[0] - 0.3, ev[-1] + 0.3, 15)
    sel = [int(i) for i in np.sort(r.permutation(n)[: r.integers(1, n + 1)])]
    sp = quiet_call(m.linearabs, el, range(n), c["gam"])
    one = np.ones(n)
    gf = [-np.imag(one @ np.linalg.solve((e + 1j * c["gam"]) * np.eye(n) - A, one)) for e in el]
    close(sp, gf, "absorption vs Green's function", 1e-5, 1e-6)
    lor = lambda states: [sum(d2[j] * c["gam"] / ((e - ev[j]) ** 2 + c["gam"] ** 2) for j in states) for e in el]
    close(quiet_call(m.linearabs, el, sel, c["gam"]), lor(sel), "absorption of selected states", 1e-7, 1e-8)
    close(quiet_call(m.linearabs, el, gamma=c["gam"]), lor(range(k)), "absorption of the lowest states", 1e-7, 1e-8)
    if c["again"]:
        # a second realisation on the same object forgets the first
        if c["again"] > 1:
            m.hopping = t = -1.3 * t
        quiet_call(m.kernel)
        A = np.array(m.A)
        if c["again"] > 2:
            quiet_call(m.spdfselection)
        close(A - np.diag(np.diag(A)), ref * (t / ref[0, 1] if n > 1 else 1), "hopping of a second realisation")
        sp = quiet_call(m.linearabs, el, range(n), c["gam"])
        gf = [-np.imag(one @ np.linalg.solve((e + 1j * c["gam"]) * np.eye(n) - A, one)) for e in el]
        close(sp, gf, "absorption of a second realisation vs Green's function", 1e-5, 1e-6)
        quiet_call(m.sortdipole)
        d2 = np.abs(np.sum(m.evecs, axis=0)) ** 2
        close(m.excdipole1, np.sum(m.evecs, axis=0), "transition dipoles of a second realisation", 1e-8, 1e-9)
    if n < 2:
        raise Trivial


_T2 = st.fixed_dictionaries(dict(n=st.integers(1, 5), nuv=st.integers(0, 4), ne=st.integers(1, 24), gam=fl(0.005, 0.3, 3), seed=seeds))


@law("C20", _T2, quick=150, cost=0.01,
     rule="two-dimensional spectra of random one- and two-exciton levels for any selection and order of states against the sum over pathways (bleach and emission positive, excited-state absorption negative), on non-uniform energy grids; non-trivial with >= 1 two-exciton state and >= 2 energies")
def two_dimensional(c):
    r = rng(c)
    n, g = c["n"], c["gam"]
    ev, d1 = r.standard_normal(n), r.standard_normal(n)
    E = r.standard_normal(c["ne"])
    sel = [int(i) for i in r.permutation(n)[: r.integers(1, n + 1)]]
    e2, d2 = r.standard_normal((len(sel), c["nuv"])), r.standard_normal((len(sel), c["nuv"]))
    s = quiet_call(get("openms.models.aggregates:tdes"), E, sel, ev, d1, c["nuv"], e2, d2, g)
    line = lambda x: g / (x * x + g * g)
    ex = d1[sel] ** 2 * line(E[:, None] - ev[sel])  # energies x states
    sa = np.sum(d2**2 * line(E[:, None, None] - e2), axis=2)
    close(s, (2 * ex - sa) @ ex.T, "two-dimensional spectrum", 1e-9, 1e-9)
    if c["nuv"] == 0 or c["ne"] < 2:
        raise Trivial
