"""C16: cavity coupled-cluster residuals are the projections of exp(-T) H exp(T) |reference, vacuum>"""
import functools
import inspect
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vf.core import Trivial, Unavailable, close, expect, get, law, rng
from vf.oracle import lower, occs, site_op
from vf.rig import seeds

P = "openms.mqed."


@functools.lru_cache(maxsize=None)
def excitations(no, nv):
    """E[p][q] = a+_p a_q on the determinants of `no` electrons in no+nv spin orbitals"""
    n = no + nv
    dets = [tuple(int(x) for x in b) for b in occs(n, no)]
    ix = {b: i for i, b in enumerate(dets)}
    E = np.zeros((n, n, len(dets), len(dets)))
    for j, bb in enumerate(dets):
        for q in bb:
            k = bb.index(q)
            rest = bb[:k] + bb[k + 1:]
            for p in range(n):
                if p in rest:
                    continue
                m = sum(1 for r in rest if r < p)
                E[p, q, ix[rest[:m] + (p,) + rest[m:]], j] = (-1.0) ** (k + m)
    return E, ix[tuple(range(no))]


class Box:
    pass


def blocks(t, no, off=0):
    """named occupied/virtual blocks of a tensor"""
    b = Box()
    o, v = slice(0, no), slice(no, None)
    for name in itertools.product("ov", repeat=t.ndim - off):
        setattr(b, "".join(name), t[(slice(None),) * off + tuple(o if c == "o" else v for c in name)].copy())
    return b


def alt(t):
    """antisymmetrise the last four axes a b i j"""
    t = t - np.swapaxes(t, -4, -3)
    return t - np.swapaxes(t, -2, -1)


def symm(t, k):
    """symmetrise the first k (mode) axes"""
    return sum(np.transpose(t, list(p) + list(range(k, t.ndim))) for p in itertools.permutations(range(k))) / math.factorial(k)


def build(case):
    r = rng(case)
    no, nv, nm, n1, n2, u2 = (case[k] for k in ("no", "nv", "nm", "n1", "n2", "u2"))
    n, sc = no + nv, case["size"]
    F = r.normal(size=(n, n))
    v = r.normal(size=(n,) * 4)
    v = v - v.transpose(1, 0, 2, 3)
    v = v - v.transpose(0, 1, 3, 2)
    g = r.normal(size=(nm, n, n))
    amp = (
        r.normal(size=(nv, no)) * sc,
        alt(r.normal(size=(nv, nv, no, no))) * sc / 2,
        [symm(r.normal(size=(nm,) * (k + 1)), k + 1) * sc for k in range(n1)],
        [symm(r.normal(size=(nm,) * (k + 1) + (nv, no)), k + 1) * sc for k in range(n2)],
        [symm(alt(r.normal(size=(nm,) * (k + 1) + (nv, nv, no, no))), k + 1) * sc / 2 if u2 else None for k in range(n2)],
    )
    return F + F.T, (v + v.transpose(2, 3, 0, 1)) / 4, r.uniform(0.2, 1.5, nm), g + g.transpose(0, 2, 1), amp


def residuals(case, F, I, w, g, amp):
    """dense similarity-transformed Hamiltonian acting on the reference, projected"""
    no, nv, nm, n1, n2 = (case[k] for k in ("no", "nv", "nm", "n1", "n2"))
    T1, T2, S, U1, U2 = amp
    E, ref = excitations(no, nv)
    nd = E.shape[2]
    M = max(n1, n2) + 1
    dims = [M + 1] * nm
    npho = int(np.prod(dims))
    cr = [site_op(lower(M + 1), a, dims).T for a in range(nm)]
    ie, ip = np.eye(nd), np.eye(npho)
    one = lambda f: np.einsum("pq,pqij->ij", f, E)
    n = no + nv
    # 1/4 <pq||rs> p+ q+ s r
    A = np.einsum("pqrs,qsjk->prjk", I, E)
    two = 0.25 * (np.einsum("prij,prjk->ik", E, A) - one(np.einsum("pqqs->ps", I)))
    H = one(F - np.einsum("piqi->pq", I[:, :no, :, :no])) + two
    H = np.kron(H - H[ref, ref] * ie, ip)
    for a in range(nm):
        ge = one(g[a])
        H = H + w[a] * np.kron(ie, cr[a] @ cr[a].T) + np.kron(ge - ge[ref, ref] * ie, cr[a] + cr[a].T)
    X = E[no:, :no]

    def exc(s, d):
        m = np.einsum("ai,aikl->kl", s, X) if s is not None else 0 * ie
        if d is not None:
            m = m + 0.25 * np.einsum("abij,aikl,bjlm->km", d, X, X, optimize=True)
        return m

    def power(ix):
        m = ip
        for a in ix:
            m = m @ cr[a]
        return m

    T = np.kron(exc(T1, T2), ip)
    for k, t in enumerate(S):
        for ix in itertools.product(range(nm), repeat=k + 1):
            T = T + t[ix] / math.factorial(k + 1) * np.kron(ie, power(ix))
    for k, t in enumerate(U1):
        for ix in itertools.product(range(nm), repeat=k + 1):
            T = T + np.kron(exc(t[ix], None if U2[k] is None else U2[k][ix]), power(ix)) / math.factorial(k + 1)
    v0 = np.zeros(nd * npho)
    v0[ref * npho] = 1

    def expo(B, v):
        out, x, k = v.copy(), v, 1
        while np.abs(x).max() > 0:
            x = B @ x / k
            out = out + x
            k += 1
            if k > 200:
                raise RuntimeError("excitation operator is not nilpotent")
        return out

    R = expo(-T, H @ expo(T, v0)).reshape(nd, npho)
    vac = np.zeros(npho)
    vac[0] = 1
    one_ = X[:, :, :, ref]
    two_ = np.einsum("aikl,bjl->abijk", X, X[:, :, :, ref])

    def proj(k, kind):
        out = []
        for ix in itertools.product(range(nm), repeat=k):
            q = R @ (power(ix) @ vac)
            out.append(q[ref] if kind == 0 else one_ @ q if kind == 1 else two_ @ q)
        out = np.array(out)
        return out.reshape((nm,) * k + out.shape[1:])

    return dict(
        T1=proj(0, 1), T2=proj(0, 2), Sn=[proj(k + 1, 0) for k in range(n1)],
        U1n=[proj(k + 1, 1) for k in range(n2)], U2n=[proj(k + 1, 2) for k in range(n2)],
    )


def args(case, F, I, w, g, amp):
    no, nm = case["no"], case["nm"]
    z = np.zeros(nm)
    b = blocks(g, no, 1)
    return (blocks(F, no), blocks(I, no), w, b, b, z, z, case["n1"], case["n2"], amp)


def compare(case, what, got, want):
    """second-order doubles are implemented for one mode only"""
    if isinstance(want, list):
        expect(len(got) == len(want), f"{what}: {len(got)} orders instead of {len(want)}")
        for k, (x, y) in enumerate(zip(got, want)):
            if what.endswith("U2n") and k > 0 and case["nm"] > 1:
                continue
            close(x, y, f"{what} of photon order {k + 1}", rtol=1e-9)
    else:
        close(got, want, what, rtol=1e-9)


def config(maxmode=3):
    def fix(c):
        # second order doubles with several modes are outside of what the equations support
        if c["nm"] > 1 and c["u2"] and c["entry"] == 0:
            c["n2"] = 1
        if c["nm"] == 3:
            c["n1"] = c["n2"] = 1
        if c["nm"] > 1 and max(c["n1"], c["n2"]) > 1:
            c["no"] = min(c["no"], 2)
            c["nv"] = min(c["nv"], 3)
        return c

    return st.fixed_dictionaries(
        dict(
            no=st.sampled_from([2, 2, 3, 1]), nv=st.sampled_from([2, 2, 3, 1]),
            nm=st.sampled_from([x for x in (1, 1, 1, 2, 2, 3) if x <= maxmode]), n1=st.sampled_from([2, 2, 1]),
            n2=st.sampled_from([2, 2, 1]), u2=st.sampled_from([True, True, False]), size=st.sampled_from([0.1, 0.4, 1.0]), entry=st.integers(0, 2), seed=seeds,
        )
    ).map(fix)


ENTRY = ["qedcc_equations:qedccsd_sn_u2n", "myqedcc_equations:new_qedccsd_sn_u2n", "myqedcc_equations_opt:new_qedccsd_sn_u2n"]


def wanted(case, F, I, w, g, amp):
    want = residuals(case, F, I, w, g, amp)
    if not case["u2"]:
        want.pop("U2n")
    return want


@law("C16", config(), quick=60, thorough=800, cost=0.25,
     rule="at least one occupied and one virtual orbital: always")
def residuals_of_all_amplitudes(case):
    s = build(case)
    before = [x.copy() for x in (s[4][0], s[4][1], *s[4][2], *s[4][3])]
    out = get(P + ENTRY[case["entry"]])(*args(case, *s))
    for x, y in zip(before, (s[4][0], s[4][1], *s[4][2], *s[4][3])):
        close(y, x, "amplitudes passed in", rtol=0, atol=0)
    want = wanted(case, *s)
    for k, name in enumerate(("T1", "T2", "Sn", "U1n", "U2n")):
        if name in want:
            compare(case, ENTRY[case["entry"]].split(":")[0] + " residual " + name, out[k], want[name])


PARTS = [
    (m, f, p, single)
    for m, fs in (
        ("qedcc_equations", ["T1", "T2", "T1T2_opt", "Sn", "U1n", "U2n", "single_U1n", "single_U2n"]),
        ("myqedcc_equations", ["T1", "T2", "T1T2_opt", "Sn", "U1n", "U2n", "single_U1n", "single_U2n", "U1n_opt", "U2n_opt"]),
        ("myqedcc_equations_opt", ["T1", "T2", "T1T2_opt", "Sn", "U1n", "U2n", "single_U1n", "single_U2n", "U1n_opt", "U2n_opt"]),
    )
    for f in fs
    for p, single in [(next(x for x in ("T1T2", "U1n", "U2n", "Sn", "T1", "T2") if x in f), f.startswith("single"))]
]


@law("C16", config(), quick=40, thorough=500, cost=0.5,
     rule="at least one occupied and one virtual orbital: always")
def residuals_of_every_variant(case):
    """each hand-optimised variant of each residual equation gives the same residual"""
    s = build(case)
    want = wanted(case, *s)
    a = args(case, *s)
    done = 0
    for mod, fn, part, single in PARTS:
        if single and case["nm"] > 1:
            continue
        if part == "U2n" and ("U2n" not in want or (mod == "qedcc_equations" and case["nm"] > 1 and case["n2"] > 1)):
            continue
        try:
            f = get(P + mod + ":" + ("single_qedccsd_" + fn[7:] if single else "qedccsd_" + fn))
            x = a
            if "imds" in inspect.signature(f).parameters:
                im = get(P + mod + ":Imds")(*a)
                im.build(*a)
                x = a + (im,)
        except Unavailable:
            continue
        done += 1
        out = f(*x)
        if part == "T1T2":
            compare(case, f"{mod} {fn}: T1", out[0], want["T1"])
            compare(case, f"{mod} {fn}: T2", out[1], want["T2"])
        else:
            compare(case, f"{mod} {fn}: {part}", out, want[part])
    if not done:
        raise Unavailable("coupled-cluster residual equations")
