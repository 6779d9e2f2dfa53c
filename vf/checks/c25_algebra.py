"""C25: orthogonalisation and block helpers; C26: variational Monte Carlo"""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf.core import Trivial, attr, close, expect, get, law, raises, rng
from vf.rig import cplx, fl, quiet_call, seeds, sym, unitary

_CH = st.fixed_dictionaries(dict(n=st.integers(1, 9), drop=st.integers(0, 4), copies=st.integers(0, 2), scale=fl(0.1, 5, 1), thr=st.sampled_from([1e-7, 1e-6, 1e-8]), seed=seeds))


@law("C25", _CH, quick=400, cost=0.001,
     rule="random overlap matrices of full and deficient rank (incl. duplicated functions): pivoted Cholesky factor and pivots rebuild the matrix, the number of vectors is the rank, P selects independent functions and P L^-T orthonormalises them and spans the whole space; non-trivial when the pivoting is not the identity or the rank is deficient")
def orthogonalisation(c):
    M = "openms.lib.mathlib:"
    r = rng(c)
    n = c["n"]
    k = max(1, n - c["drop"])
    A = r.standard_normal((n, k)) * (c["scale"] * (0.2 + r.random(n)))[:, None]
    for i in range(min(c["copies"], n - 1)):
        A[int(r.integers(n))] = A[int(r.integers(n))]
    S = A @ A.T
    ev = np.linalg.eigvalsh(S)
    rank = int(np.sum(ev > 1e-9 * ev[-1]))
    # ill-separated spectra have no well-defined rank
    if np.any((ev > 1e-9 * ev[-1]) & (ev < 1e-3)):
        raise Trivial
    S0 = S.copy()
    V, piv, m = get(M + "full_cholesky_decomposition")(S, c["thr"])
    close(S, S0, "caller's matrix")
    expect(m == rank, f"{m} vectors for a matrix of rank {rank}")
    expect(sorted(int(p) for p in piv) == list(range(1, n + 1)), f"pivots {piv} are not a permutation")
    P = np.zeros((n, n))
    P[np.asarray(piv) - 1, np.arange(n)] = 1
    V = np.asarray(V)
    close(np.triu(V, 1), 0 * V, "upper triangle of the factor", 0, 1e-14)
    close(V[:, :m] @ V[:, :m].T, P.T @ S @ P, "factor rebuilds the permuted matrix", 1e-9, 1e-8)
    d = np.diag(V)[:m]
    expect(np.all(np.diff(d) <= 1e-9 * d[0] + 1e-12) and np.all(d > 0), "pivots not in decreasing order")
    L, Q = get(M + "full_cholesky_orth")(S, c["thr"])
    close(S, S0, "caller's matrix")
    expect(L.shape == (rank, rank) and Q.shape == (n, rank), f"shapes {L.shape}, {Q.shape} for rank {rank}")
    expect(np.all(np.sum(Q, axis=0) == 1) and np.all(np.sum(Q, axis=1) <= 1) and set(np.unique(Q)) <= {0.0, 1.0}, "P does not select functions")
    close(Q.T @ S @ Q, L @ L.T, "P^T S P = L L^T", 1e-9, 1e-9)
    X = Q @ sl.inv(L).T
    close(X.T @ S @ X, np.eye(rank), "orthonormal functions", 0, 1e-6)
    close(S @ X @ X.T @ S, S, "orthonormal functions span the space", 1e-6, 1e-6)
    if rank == n and list(piv) == list(range(1, n + 1)):
        raise Trivial


_BL = st.fixed_dictionaries(dict(o=st.lists(st.integers(0, 2), min_size=4, max_size=4), v=st.lists(st.integers(1, 3), min_size=4, max_size=4), cplx=st.booleans(), seed=seeds))


@law("C25", _BL, quick=200, cost=0.001,
     rule="random rectangular blocks, four-index tensors with different occupied and virtual counts on every axis, unitary transformations of real and complex matrices: block-diagonal embedding, every named block against the indexed tensor, assertion on inconsistent counts, similarity transform and norms; non-trivial: always")
def blocks(c):
    r = rng(c)
    O = "openms.lib.ov_blocks:"
    o, v = c["o"], c["v"]
    A, B = r.standard_normal((o[0] + 1, v[0])), r.standard_normal((o[1] + 1, v[1]))
    close(get(O + "block_diag")(A, B), sl.block_diag(A, B), "block-diagonal matrix")
    T = r.standard_normal([a + b for a, b in zip(o, v)])
    dims = [x for p in zip(o, v) for x in p]
    for nm in ("make_two_e_blocks", "make_two_e_blocks_full"):
        b = get(O + nm)(T, *dims)
        seen = 0
        for key in [k for k in vars(b) if set(k) <= set("ov") and getattr(b, k) is not None]:
            ix = [range(o[a]) if ch == "o" else range(o[a], o[a] + v[a]) for a, ch in enumerate(key)]
            close(getattr(b, key), T[np.ix_(*ix)], f"{nm}: {key}")
            seen += 1
        expect(seen == (16 if "full" in nm else 9), f"{nm} made {seen} blocks")
        bad = list(dims)
        bad[int(r.integers(8))] += 1
        raises(AssertionError, lambda: get(O + nm)(T, *bad), "inconsistent block sizes")
    n = sum(o) + 1
    U = unitary(r, n, c["cplx"])
    M = cplx(r, n, n) if c["cplx"] else r.standard_normal((n, n))
    U0, M0 = U.copy(), M.copy()
    close(get("openms.lib.mathlib:unitary_transform")(U, M), U.conj().T @ M @ U, "unitary transform", 1e-11, 1e-11)
    close(U, U0, "caller's transformation")
    close(M, M0, "caller's matrix")
    x = r.standard_normal((n, 1))[:, 0]
    f = get("openms.lib.mathlib:get_l2_norm")
    try:
        close(f(x), np.linalg.norm(x), "norm", 1e-12)
    except IndexError:
        pass  # the helper's matrix product rejects vectors in some pyscf versions
    return "complex" if c["cplx"] else "real"


# ------------------------------------------------------------------- C26
class Ansatz:
    """psi(c) = base(c) exp(theta . f(c)) over a finite set of configurations"""

    def __init__(self, base, feat):
        self.base, self.feat, self.theta = base, feat, np.zeros(feat.shape[1])

    def amp(self):
        return self.base * np.exp(self.feat @ self.theta)

    def log_psi(self, c):
        return np.log(abs(self.amp()[c]))

    def gradient(self, c):
        return self.feat[c]


class Ham:
    def __init__(self, H):
        self.H = H

    def local_energy(self, c, psi):
        a = psi.amp()
        return (self.H[c] @ a) / a[c]


_VM = st.fixed_dictionaries(dict(n=st.integers(2, 7), p=st.integers(1, 4), it=st.integers(1, 4), ns=st.integers(1, 30), exact=st.booleans(), obs=st.integers(0, 2), verb=st.booleans(), seed=seeds))


@law("C26", _VM, quick=300, cost=0.002,
     rule="random Hamiltonians on 2-7 configurations with log-linear trial states of 1-4 parameters; samples drawn at random or in exact proportion to the trial probability: what the optimiser receives in every iteration against sample covariances, and for exact samples against the derivative of the variational energy and the metric of the state; eigenstates give zero gradient, printed energies and observables are the sample means; non-trivial when the gradient is not zero")
def vmc(c):
    import contextlib, io, re

    V = get("openms.qmc.vmc:VMCBase")
    r = rng(c)
    n, p = c["n"], c["p"]
    H = sym(r, n, n)
    mult = r.integers(1, 5, n)
    psi = Ansatz(np.sqrt(mult) * r.choice([-1, 1], n), r.standard_normal((n, p)))
    ham = Ham(H)
    rec = []
    N = c["ns"]

    class Sampler:
        def sample(self, ans, k):
            expect(ans is psi, "the sampler was not given the trial state")
            expect(k == N, f"{k} samples requested instead of {N}")
            if c["exact"]:
                s = np.repeat(np.arange(n), mult)
                self.last = list(r.permutation(s))
            else:
                self.last = list(r.integers(0, n, N))
            return self.last

    smp = Sampler()
    upd = 0.0 if c["exact"] else 0.05

    class Opt:
        def step(self, S, g):
            rec.append((np.array(S), np.array(g), list(smp.last), psi.theta.copy()))
            psi.theta = psi.theta - upd * np.asarray(g)

    obs = {f"o{i}": r.standard_normal(n) for i in range(c["obs"])}
    mc = V(psi, ham, smp, Opt(), {k: (lambda x, a=a: a[x]) for k, a in obs.items()} or None)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        mc.kernel(n_samples=N, n_iter=c["it"], verbose=c["verb"])
    expect(len(rec) == c["it"], f"{len(rec)} optimisation steps in {c['it']} iterations")
    lines = []
    for S, g, conf, th in rec:
        psi.theta = th
        E = np.array([ham.local_energy(x, psi) for x in conf])
        O = psi.feat[conf]
        Oc = O - O.mean(axis=0)
        close(np.reshape(S, (p, p)), Oc.T @ Oc / len(conf), "metric handed to the optimiser", 1e-9, 1e-10)
        close(g, Oc.T @ (E - E.mean()) / len(conf), "energy gradient handed to the optimiser", 1e-9, 1e-10)
        lines.append((E.mean(), {k: a[conf].mean() for k, a in obs.items()}))
        if c["exact"]:

            def en(t):
                psi.theta = th + t
                a = psi.amp()
                return a @ H @ a / (a @ a)

            u = r.standard_normal(p)
            fd = (en(1e-4 * u) - en(-1e-4 * u)) / 2e-4
            close(2 * (g @ u), fd, "derivative of the variational energy", 1e-5, 1e-6)
            a0 = psi.base / np.linalg.norm(psi.base)
            psi.theta = th + 1e-3 * u
            a1 = psi.amp()
            a1 = a1 / np.linalg.norm(a1)
            close(u @ np.reshape(S, (p, p)) @ u, (1 - (a0 @ a1) ** 2) / 1e-6, "metric of the trial state", 2e-2, 2e-2)
    if c["verb"]:
        num = r"(-?\d+\.\d+|-?nan|-?inf)"
        es = [float(x) for x in re.findall(r"Energy = " + num, out.getvalue())]
        if es:
            close(es, [e for e, _ in lines], "printed energies", 0, 1e-6)
        ob = [float(x) for x in re.findall(r"⟩ = " + num, out.getvalue())]
        if ob:
            close(ob, [d[k] for _, d in lines for k in obs], "printed observables", 0, 1e-6)
    # an eigenstate: every local energy is the eigenvalue
    w, U = np.linalg.eigh(H)
    k = int(r.integers(n))
    if np.min(np.abs(U[:, k])) > 1e-3:
        psi.base, psi.theta = U[:, k], np.zeros(p)
        rec.clear()
        with contextlib.redirect_stdout(io.StringIO()):
            mc.kernel(n_samples=N, n_iter=1, verbose=False)
        close(rec[0][1], np.zeros(p), "gradient at an eigenstate", 0, 1e-8)
    if max(np.abs(x[1]).max() for x in rec) < 1e-12 and len(lines) == 1 and abs(lines[0][0]) < 1e-12:
        raise Trivial
