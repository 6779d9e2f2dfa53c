"""C09: error analysis of energy series; C10: boson trial functions; C24: integral files"""
import math
import os
import tempfile

import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf.core import Trivial, Unavailable, attr, close, expect, get, law, rng
from vf.oracle import lower
from vf.rig import build_mol, cplx, fl, lowdin, mol_strategy, quiet_call, seeds, sym

T = "openms.qmc.tools:"
KINDS = ["white", "ar", "anti", "const", "outlier", "trend", "alternate", "heavy"]


def series(c):
    r = rng(c)
    n, k = c["n"], c["kind"]
    x = r.standard_normal(n)
    if k in ("ar", "anti"):
        a = c["a"] if k == "ar" else -c["a"]
        for i in range(1, n):
            x[i] += a * x[i - 1]
    elif k == "const":
        x = np.zeros(n)
    elif k == "outlier":
        x[r.integers(n)] += 300.0 * (1 if r.random() < 0.5 else -1)
    elif k == "trend":
        x = np.linspace(0, 3, n) + 0.1 * x
    elif k == "alternate":
        x = (-1.0) ** np.arange(n) + 1e-3 * x
    elif k == "heavy":
        x = np.clip(r.standard_cauchy(n), -1e3, 1e3)
    return c["off"] + c["sc"] * x


_Y = st.fixed_dictionaries(dict(n=st.integers(4, 300), kind=st.sampled_from(KINDS), a=fl(0.1, 0.95, 2), off=fl(-80, 5, 1), sc=fl(0.01, 3, 2),
                                th=fl(0.5, 12.0, 1), meth=st.sampled_from(["zscore", "iqr"]), seed=seeds))


def ref_acf(x):
    d = x - x.mean()
    n = len(x)
    return np.array([np.dot(d[: n - k], d[k:]) for k in range(n)])


def ref_time(x, c=5.0):
    a = ref_acf(x)
    a = a / a[0] if a[0] > 1e-300 else np.eye(1, len(a))[0]
    t = 2 * np.cumsum(a) - 1
    for k in range(len(t)):
        if not k < c * t[k]:
            return t[k], k
    return t[-1], len(t) - 1


@law("C09", _Y, quick=600, cost=0.004,
     rule="energy series (white, correlated, anticorrelated, constant, with outliers, trends, heavy tails) of 4-300 points: autocorrelation function and integrated time against direct sums; non-trivial when the series is not constant")
def autocorrelation(c):
    x = series(c)
    x0 = x.copy()
    ref = ref_acf(x)
    a = np.array(get(T + "autocorr_func")(x))
    expect(np.array_equal(x, x0), "the series passed in was changed")
    if np.ptp(x) == 0:
        expect(np.all(np.isfinite(a)) and abs(a[0] - 1) < 1e-12, "autocorrelation of a constant series")
        return "trivial"
    close(a, ref / ref[0], "normalised autocorrelation function", rtol=1e-7, atol=1e-8)
    u = np.array(get(T + "autocorr_func")(x, normalize=False))
    close(u / u[0], ref / ref[0], "autocorrelation function", rtol=1e-7, atol=1e-8)
    t, k = ref_time(x)
    # a window decided by a rounding-level comparison may go either way
    tt = 2 * np.cumsum(ref / ref[0]) - 1
    if np.min(abs(np.arange(len(tt)) - 5.0 * tt)) < 1e-6:
        raise Trivial()
    close(float(get(T + "get_autocorr_time")(x)), t, "integrated autocorrelation time", rtol=1e-6, atol=1e-6)
    close(int(get(T + "auto_window")(tt, 5.0)), k, "window")
    return c["kind"]


def ref_clean(x, meth, th):
    if meth == "zscore":
        s = x.std()
        return x if s == 0 else x[abs(x - x.mean()) < th * s]
    q1, q3 = np.percentile(x, [25, 75])
    return x[(x >= q1 - th * (q3 - q1)) & (x <= q3 + th * (q3 - q1))]


@law("C09", _Y, quick=600, cost=0.004,
     rule="same series: outlier removal, block size, blocked mean and standard error against direct computation; mean and error follow a change of origin and unit; every finite series is analysed; non-trivial when the series is not constant")
def blocking(c):
    y = series(c)
    th = c["th"] if c["kind"] != "const" else 10.0
    y0 = y.copy()
    clean = np.array(get(T + "remove_outliers")(y, method=c["meth"], threshold=th))
    z = abs(y - y.mean()) / (y.std() if y.std() > 0 else 1)
    edge = c["meth"] == "zscore" and np.min(abs(z - th)) < 1e-9
    if not edge:
        ref = ref_clean(y, c["meth"], th)
        close(clean, ref, "series after removal of outliers")
    if len(clean) < 4 or (np.ptp(y) > 0 and np.ptp(clean) < 1e-9):
        raise Trivial()
    f = get(T + "analysis_autocorr")
    out = f(y, name="e", method=c["meth"], threshold=th)
    expect(np.array_equal(y, y0), "the series passed in was changed")
    m, e, n, b = [out[k][0] for k in ("e", "e_error", "e_nsamp", "ac_sampsize")]
    expect(b >= 1 and n >= 1, f"block size {b}, {n} blocks")
    if np.ptp(y) == 0:
        # rounding decides the block size; mean and error may not depend on it
        close(float(m), y[0], "mean of a constant series")
        close(float(e), 0.0, "error of a constant series")
        return "trivial"
    tau, _ = ref_time(clean)
    if np.ptp(clean) > 0:
        tt = 2 * np.cumsum(ref_acf(clean) / ref_acf(clean)[0]) - 1
        if np.min(abs(np.arange(len(tt)) - 5.0 * tt)) < 1e-6 or abs(tau - round(tau)) < 1e-6:
            raise Trivial()
    B = max(1, int(math.ceil(tau)))
    expect(b == B, f"block size {b} for autocorrelation time {tau}")
    k = len(clean) // B
    if k < 1:
        raise Trivial()
    bl = clean[: k * B].reshape(k, B).mean(1)
    expect(n == k, f"{n} blocks of {len(clean)} points and block size {B}")
    close(float(m), bl.mean(), "blocked mean")
    close(float(e), bl.std() / np.sqrt(k), "standard error of the blocked mean", rtol=1e-8, atol=1e-10)
    a, s = 7.25, -2.0
    o2 = f(a + s * y, name="e", method=c["meth"], threshold=th)
    if not edge and o2["ac_sampsize"][0] == b and c["meth"] == "zscore":
        close(float(o2["e"][0]), a + s * m, "mean after a change of origin and unit", rtol=1e-7, atol=1e-7)
        close(float(o2["e_error"][0]), abs(s) * e, "error after a change of origin and unit", rtol=1e-6, atol=1e-8)
    return c["kind"] if np.ptp(y) else "trivial"


@law("C09", st.fixed_dictionaries(dict(n=st.integers(1, 80), N=st.integers(1, 30), seed=seeds, cp=st.booleans(), lst=st.booleans())), quick=200, cost=0.002,
     rule="mean and spread of the last 1/N of (real or complex) energies; non-trivial when more than one point is used")
def tail_average(c):
    r = rng(c)
    e = r.standard_normal(c["n"]) + (1j * r.standard_normal(c["n"]) if c["cp"] else 0)
    m, s = get(T + "get_mean_std")(list(e) if c["lst"] else e, N=c["N"])
    k = max(1, c["n"] // c["N"])
    t = e[c["n"] - k:].real
    close(float(m), t.mean(), "mean of the last energies")
    close(float(s), t.std(), "spread of the last energies")
    return "ok" if k > 1 else "trivial"


# ------------------------------------------------------------------------ C10
B = "openms.qmc.trial_boson:"
_Q = st.fixed_dictionaries(dict(n=st.integers(1, 4), m=fl(0.3, 3.0, 1), w=fl(0.2, 2.5, 1), sh=fl(-1.0, 1.0, 1), vec=st.booleans(), seed=seeds))


def fd(logf, x):
    """gradient and diagonal second derivative of ln f by complex-free central differences"""
    h = 1e-3
    g, d = np.zeros_like(x), np.zeros_like(x)
    f0 = logf(x)
    for i in range(len(x)):
        e = np.zeros_like(x)
        e[i] = h
        fp, fm = logf(x + e), logf(x - e)
        g[i] = (fp - fm) / (2 * h)
        d[i] = (fp - 2 * f0 + fm) / h**2
    return g, d


@law("C10", _Q, quick=200, cost=0.003,
     rule="oscillator trial functions in position and momentum space with random masses, frequencies and displacements: gradient, Laplacian and local energy against finite differences of the function's logarithm, zero variance without displacement; non-trivial: always")
def oscillator(c):
    r = rng(c)
    n, m, w = c["n"], c["m"], c["w"]
    sh = c["sh"] * r.standard_normal(n) if c["vec"] else c["sh"]
    x = 0.7 * r.standard_normal(n)
    t = dict(rtol=1e-5, atol=1e-5)
    tq = quiet_call(get(B + "TrialQ"), mass=m, freq=w)
    tq.update_Q_shift(np.asarray(sh))
    g, d = fd(lambda q: np.log(tq.qvalue(q)), x)
    close(np.array(tq.gradient(x)) * np.ones(n), g, "gradient of the position-space trial", **t)
    close(np.array(tq.laplacian(x)) * np.ones(n), d + g * g, "Laplacian of the position-space trial", **t)
    e = np.sum(-0.5 / m * (d + g * g) + 0.5 * m * w**2 * x**2) - 0.5 * w * n
    close(float(tq.local_energy(x)), e, "local energy of the position-space trial", **t)
    tp = quiet_call(get(B + "TrialP"), mass=m, freq=w, pshift=sh)
    g, d = fd(lambda q: np.log(tp.pvalue(q)), x)
    close(np.array(tp.gradient(x)) * np.ones(n), g, "gradient of the momentum-space trial", **t)
    close(np.array(tp.laplacian(x)) * np.ones(n), d + g * g, "Laplacian of the momentum-space trial", **t)
    e = np.sum(x**2 / (2 * m) - 0.5 * m * w**2 * (d + g * g)) - 0.5 * w * n
    close(float(tp.local_energy(x)), e, "local energy of the momentum-space trial", **t)
    z = quiet_call(get(B + "TrialQ"), mass=m, freq=w)
    close(float(z.local_energy(x)), 0.0, "local energy of the exact ground state (position)", atol=1e-8)
    z = quiet_call(get(B + "TrialP"), mass=m, freq=w)
    close(float(z.local_energy(x)), 0.0, "local energy of the exact ground state (momentum)", atol=1e-8)
    return f"{n} oscillators"


@law("C10", st.fixed_dictionaries(dict(nm=st.integers(1, 3), nf=st.integers(1, 6), a=fl(0.0, 1.2, 2), cp=st.booleans(), small=st.booleans(), seed=seeds)), quick=150, cost=0.01,
     rule="coherent-state trials with random real or complex amplitudes in 1-3 modes: Fock coefficients against the displacement operator exp(a b+ - a* b) applied to the vacuum; overlaps; non-trivial when an amplitude is nonzero")
def coherent(c):
    r = rng(c)
    nm, nf = c["nm"], c["nf"]
    al = c["a"] * (cplx(r, nm) if c["cp"] else r.standard_normal(nm))
    al = np.clip(al.real, -1.5, 1.5) + (1j * np.clip(al.imag, -1.5, 1.5) if c["cp"] else 0)
    N = 60
    b = lower(N)
    full = [sl.expm(a * b.T - np.conj(a) * b)[:, 0] for a in al]
    modes = [m[:nf] for m in full]
    ref = modes[0]
    for v in modes[1:]:
        ref = np.kron(ref, v)
    t = quiet_call(get(B + "TrivialFock"), nm, nf)
    quiet_call(t.build, alpha=al)
    close(np.array(t.boson_psi).astype(complex), ref.astype(complex), "Fock coefficients of a coherent state", atol=1e-8)
    f = get(B + "coherent_state_coeff")
    for n in range(nf):
        close(complex(f(n, al[0])), complex(modes[0][n]), "coherent-state coefficient", atol=1e-8)
    z = get("openms.qmc.trial:initialize_boson_trial_with_z")
    ns = [int(x) for x in r.integers(1, (nf if c["small"] else 45) + 1, nm)]
    v = np.array(z(al, ns))
    cat = np.concatenate([m[:k] for m, k in zip(full, ns)])
    close(v.astype(complex), (cat / np.linalg.norm(cat)).astype(complex), "boson trial built from displacements", atol=1e-8)
    phi = cplx(r, 3, ref.size)
    psi = np.array(t.boson_psi)
    close(np.array(get(B + "calc_trial_walker_ovlp")(phi, psi)), phi @ psi.conj(), "overlap with boson walkers")
    return f"{nm} modes" if np.any(al) else "trivial"


# ------------------------------------------------------------------------ C24
@law("C24", st.fixed_dictionaries(dict(n=st.integers(1, 5), seed=seeds, sparse=fl(0.0, 0.8, 1), shuffle=st.booleans(), src=st.sampled_from(["rand", "mol"]),
                                       mol=st.sampled_from(["H2", "H4", "LiH", "HeH+"]), bond=fl(0.7, 2.0, 1))), quick=100, cost=0.03,
     rule="integral files written by pyscf for random (dense and sparse) symmetric integrals and for molecules, read back, also after reordering entries and equivalent indices and adding orbital energies: one-, two-electron integrals with all eight permutations and core energy recovered; non-trivial when n > 1")
def fcidump(c):
    from pyscf import ao2mo
    from pyscf.tools import fcidump as fd_

    r = rng(c)
    if c["src"] == "mol":
        mol = build_mol(dict(c, gseed=c["seed"] % 1000, jitter=0.2))
        X = lowdin(mol)
        h = X.T @ (mol.intor("int1e_kin") + mol.intor("int1e_nuc")) @ X
        n = h.shape[0]
        eri = ao2mo.restore(1, ao2mo.kernel(mol, X, verbose=0), n)
        nuc, ne = mol.energy_nuc(), mol.nelectron
    else:
        n = c["n"]
        h = sym(r, n, n)
        e8 = r.standard_normal(n * (n + 1) // 2 * (n * (n + 1) // 2 + 1) // 2)
        e8[r.random(e8.size) < c["sparse"]] = 0.0
        eri = ao2mo.restore(1, e8, n)
        nuc, ne = float(r.standard_normal()), 2
        if abs(nuc) < 1e-6:
            nuc = 1.0
    d = tempfile.mkdtemp()
    p = os.path.join(d, "FCIDUMP")
    fd_.from_integrals(p, h, ao2mo.restore(8, eri, n), n, ne, nuc=nuc, float_format=" %.17g")
    if c["shuffle"]:
        # the format fixes neither the order of the entries nor of equivalent indices, and
        # allows orbital energies (one index) among them
        lines = open(p).read().splitlines()
        head, body = lines[:4], lines[4:]
        body += [f" {x:.12g} {k + 1} 0 0 0" for k, x in enumerate(r.standard_normal(n))]
        out = []
        for k in r.permutation(len(body)):
            x, i, j, a, b = body[k].split()
            if j != "0" and r.random() < 0.5:
                i, j = j, i
            if b != "0" and r.random() < 0.5:
                a, b = b, a
            if b != "0" and r.random() < 0.5:
                i, j, a, b = a, b, i, j
            out.append(f" {x} {i} {j} {a} {b}")
        open(p, "w").write("\n".join(head + out) + "\n")
    h2, e2, nuc2 = get(T + "read_fcidump")(p, n)
    close(np.array(h2), h, "one-electron integrals read back", atol=1e-12)
    close(np.array(e2), eri, "two-electron integrals read back", atol=1e-12)
    close(float(nuc2), nuc, "core energy read back", atol=1e-12)
    return c["src"] if n > 1 else "trivial"
