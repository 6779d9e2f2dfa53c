"""C06: population and weight control; C07: whole runs"""
import numpy as np
from hypothesis import strategies as st

from vf.core import Trivial, Unavailable, attr, close, expect, get, law, rng
from vf.refqmc import Ref, inject, taylor_tol
from vf.rig import first_run, Synth, build_mol, cplx, fl, make_mc, mol_strategy, quiet_call, seeds, sym, synth_strategy, unitary

METHODS = ["branching", "reconfiguration", "comb"]
_W = st.one_of(
    st.lists(st.one_of(fl(0.0, 0.3, 3), fl(0.3, 2.0, 2), fl(2.0, 20.0, 1)), min_size=1, max_size=12),
    # one or two heavy walkers among many nearly dead ones
    st.tuples(st.lists(fl(0.0, 0.06, 3), min_size=2, max_size=10), st.lists(fl(0.5, 10.0, 1), min_size=1, max_size=2)).map(lambda t: t[0] + t[1]),
    st.lists(fl(0.0, 0.05, 3), min_size=2, max_size=8),
)


def paired(w, lo, hi):
    """sorted weights after pairing the lightest with the heaviest until the remaining ones are within the bounds"""
    x = np.sort(np.array(w, float))
    s, e = 0, len(x) - 1
    while s < e and (x[s] < lo or x[e] > hi):
        x[s] = x[e] = 0.5 * (x[s] + x[e])
        s, e = s + 1, e - 1
    return np.sort(x)


def bounds_of(f, lo, hi):
    import inspect

    d = {k: v.default for k, v in inspect.signature(f).parameters.items()}
    lo, hi = d.get("min_weight", lo), d.get("max_weight", hi)
    return (lo, hi) if isinstance(lo, (int, float)) and isinstance(hi, (int, float)) else None


def control(method):
    d = get("openms.qmc.population_control:control_func_dict")
    if method not in d:
        raise Unavailable(method)
    return d[method]


@law("C06", st.fixed_dictionaries(dict(w=_W, method=st.sampled_from(METHODS), seed=seeds)), quick=120, cost=0.08,
     rule="random weight vectors (including zeros and very unequal ones), every registered method, 2000 independent draws each: number of walkers and total weight conserved in each draw, weights non-negative, survivors are copies of inputs, systematic methods give floor/ceil copies, and the mean weight of every input walker equals its weight (deviation bound with false-alarm probability < 1e-15); non-trivial when the weights differ")
def unbiased(c):
    w = np.array(c["w"])
    n = len(w)
    if w.sum() < 1e-2:
        raise Trivial()
    f = control(c["method"])
    np.random.seed(c["seed"])
    M = 2000
    acc = np.zeros(n)
    bd = bounds_of(f, 0.1, 2.0) if c["method"] == "branching" else None
    for k in range(M):
        win = w.copy()
        nw, nwt = f([("id", i) for i in range(n)], win)
        nwt = np.asarray(nwt, float)
        expect(len(nw) == n and nwt.shape == (n,), f"{len(nw)} walkers and {nwt.shape} weights after control of {n}")
        expect(abs(nwt.sum() - w.sum()) <= 1e-9 * w.sum(), f"total weight {w.sum()} became {nwt.sum()}")
        expect(nwt.min() >= 0, "negative weight")
        if k == 0:
            expect(np.array_equal(win, w), "the weights passed in were modified")
        if bd and k < 5:
            close(np.sort(nwt), paired(w, *bd), "weights after pairing light and heavy walkers")
        ids = [x[1] for x in nw]
        cnt = np.bincount(ids, minlength=n)
        if c["method"] != "branching":
            e = n * w / w.sum()
            expect(np.all(cnt >= np.floor(e - 1e-9)) and np.all(cnt <= np.ceil(e + 1e-9)), f"copies {cnt} for expected {e}")
            close(nwt, np.full(n, w.sum() / n), "uniform weights after resampling")
        np.add.at(acc, ids, nwt)
    mean = acc / M
    # each sample of walker i's weight lies in an interval of length <= W
    span = w.sum() / n if c["method"] != "branching" else (w.max() + w)
    tol = 0.1 * span
    expect(np.all(abs(mean - w) <= tol), f"mean weights after control {mean} for weights {w}: biased")
    return c["method"] if np.ptp(w) > 1e-6 else "trivial"


_VAR = ["branching_dp_constant", "branching_dp_dynamics", "systematic_resampling", "branching_population_control", "energy_offset"]


@law("C06", st.fixed_dictionaries(dict(w=_W, kind=st.sampled_from(_VAR), lo=fl(0.05, 0.5, 2), hi=fl(1.5, 4.0, 1), dt=fl(0.001, 0.2, 3), target=fl(0.5, 3.0, 1), seed=seeds)), quick=80, cost=0.25,
     rule="the further resampling functions of the module (pair branching with constant or target population, systematic, threshold branching, resampling after an energy offset): walkers and weights conserved (in every draw, or in the mean for threshold branching), mean weight of every input walker equals its weight, inputs left alone; non-trivial when the weights differ")
def variants(c):
    import random as pyrandom

    w = np.array(c["w"])
    n = len(w)
    if w.sum() < 1e-2:
        raise Trivial()
    k = c["kind"]
    P = "openms.qmc.population_control:"
    r = rng(c)
    np.random.seed(c["seed"])
    pyrandom.seed(c["seed"])
    M = 1500
    ref, span = w.copy(), w.max() + w
    tags = [np.full(2, float(i)) for i in range(n)]
    if k == "energy_offset":
        f, off = get(P + "energy_offset_adjustment_with_resampling"), get(P + "adjust_energy_offset")
        el = r.standard_normal(n)
        o = off(tags, w, c["target"])
        close(o, np.log(w.mean() / c["target"]), "energy offset")
        ref = w * np.exp(-c["dt"] * (el - o))
        span = ref.sum() / n
        go = lambda x: f(np.arange(n, dtype=float)[:, None] * np.ones(2), x, el, c["dt"], target_population=c["target"])
    elif k == "branching_population_control":
        f = get(P + "branching_population_control")

        class Wk:
            phiw = np.array(tags)
            weights = None

        def go(x):
            Wk.weights = x
            return f(Wk, upper_bound=c["hi"], lower_bound=c["lo"])
        span = np.full(n, c["lo"])
    elif k == "systematic_resampling":
        f = get(P + k)
        span = w.sum() / n
        go = lambda x: f(tags, x)
    else:
        f = get(P + k)
        go = lambda x: f(tags, x, min_weight=c["lo"], max_weight=c["hi"])
    acc = np.zeros(n)
    for j in range(M):
        win = w.copy()
        nw, nwt = go(win)
        nwt = np.asarray(nwt, float)
        ids = np.array([int(round(x[0])) for x in nw], int)
        expect(len(ids) == len(nwt), f"{len(ids)} walkers with {len(nwt)} weights")
        expect(np.array_equal(win, w), "the weights passed in were modified")
        if k == "branching_population_control":
            for i in range(n):
                mine = nwt[ids == i]
                if w[i] > c["hi"]:
                    close(mine.sum(), w[i], "weight of a split walker")
                    expect(np.all(mine < 2 * c["hi"] + 1e-9), "a split walker is still heavy")
                elif w[i] < c["lo"]:
                    expect(len(mine) <= 1, "a light walker was copied")
                else:
                    expect(len(mine) == 1 and abs(mine[0] - w[i]) < 1e-12, "an ordinary walker was changed")
        else:
            expect(len(ids) == n, f"{len(ids)} walkers after control of {n}")
            expect(abs(nwt.sum() - ref.sum()) <= 1e-9 * ref.sum(), f"total weight {ref.sum()} became {nwt.sum()}")
        if k.startswith("branching_dp") and j < 5:
            close(np.sort(nwt), paired(w, c["lo"], c["hi"]), "weights after pairing light and heavy walkers")
        if k in ("systematic_resampling", "energy_offset"):
            close(nwt, np.full(n, ref.sum() / n), "uniform weights after resampling")
            e = n * ref / ref.sum()
            cnt = np.bincount(ids, minlength=n)
            expect(np.all(cnt >= np.floor(e - 1e-9)) and np.all(cnt <= np.ceil(e + 1e-9)), f"copies {cnt} for expected {e}")
        expect(np.all(nwt >= 0), "negative weight")
        np.add.at(acc, ids, nwt)
    expect(np.all(np.abs(acc / M - ref) <= 0.12 * span), f"mean weights after {k} {acc / M} for weights {ref}: biased")
    return k if np.ptp(w) > 1e-6 else "trivial"


class Hist:
    """labels the walkers through all their components"""

    def __init__(self, c):
        self.s = s = Synth(c)
        w = self.w = s.walkers
        n = self.n = s.nw
        self.bos = c["bos"]
        self.lab = np.arange(n)
        for k, nm in enumerate(["phiwa", "phiwb"][: s.ncomp]):
            a = np.array(getattr(w, nm))
            a[...] = (1 + np.arange(n))[:, None, None] * (k + 1)
            setattr(w, nm, a)
        if self.bos:
            w.boson_phiw = np.repeat((1 + np.arange(n))[:, None] * 5.0, 3, axis=1).astype(complex)
        w.ehybrid = 1.0 + np.arange(n)
        w.eloc = 1.0 + np.arange(n)

    def labels(self):
        w, out = self.w, []
        out.append(np.array(w.phiwa)[:, 0, 0].real)
        if self.s.ncomp > 1:
            out.append(np.array(w.phiwb)[:, 0, 0].real / 2)
        if self.bos:
            out.append(np.array(w.boson_phiw)[:, 0].real / 5)
        for i, a in enumerate(out):
            full = np.array([w.phiwa, w.phiwb if self.s.ncomp > 1 else w.phiwa][0]).reshape(self.n, -1)
            expect(np.all(full == full[:, :1]), "orbitals of different walkers were mixed")
        return out


_OPS = st.lists(st.tuples(fl(0.05, 1.0, 2), st.booleans(), seeds), min_size=1, max_size=8)


@law("C06", synth_strategy(3, 2, ops=_OPS, freq=st.integers(1, 4), method=st.sampled_from([None] + METHODS), bos=st.booleans(),
                           n=st.integers(2, 30)), quick=440, cost=0.012,
     rule="histories of weight updates and weight-control calls on real walker objects (electron-only and electron-boson): model of the clipping/normalisation schedule, total weight restored to the number of walkers, raw norm kept for the record, components and energies of a walker stay together; non-trivial when a control step happened")
def history(c):
    c["nw"] = c["n"]
    H = Hist(c)
    w, n = H.w, H.n
    total = float(n)
    did = 0
    np.random.seed(c["seed"] % 2**31)
    for step, (spread, kill, sd) in enumerate(c["ops"]):
        r = np.random.default_rng(sd)
        fac = np.exp(2 * spread * r.standard_normal(n))
        if kill and np.sum(np.array(w.weights) > 0) > 2:
            fac[r.integers(n)] = 0.0
        w.weights = np.array(w.weights) * fac
        m = np.array(w.weights)
        if step > 0:
            m = np.clip(m, -0.1 * total, 0.1 * total)
        before = [x.copy() for x in H.labels()]
        eh0 = np.array(w.ehybrid)
        quiet_call(w.weight_control, step, freq=c["freq"], method=c["method"])
        got = np.array(w.weights)
        expect(got.shape == (n,) and np.array(w.phiwa).shape[0] == n and w.nwalkers == n, "number of walkers changed")
        expect(np.isrealobj(got) and np.all(np.isfinite(got)) and np.all(got >= 0), f"invalid weights {got}")
        labs = H.labels()
        for o in labs[1:]:
            close(o, labs[0], "a walker's components were separated")
        if (step + 1) % c["freq"]:
            close(got, m, "weights between control steps")
            close(labs[0], before[0], "walkers between control steps")
            continue
        did += 1
        total = m.sum()
        close(np.array(w.weights_org), m, "recorded raw weights")
        close(got.sum(), float(n), "total weight after control")
        close(float(w.raw_norm), m.sum(), "recorded raw norm")
        if c["method"] is None:
            close(got, m * n / m.sum(), "weights after normalisation")
            close(labs[0], before[0], "walkers after normalisation")
        else:
            expect(set(np.round(labs[0])) <= set(np.round(before[0])), "a walker appeared that did not exist")
            # no walker of zero weight may survive resampling (reconfiguration, comb)
            if c["method"] != "branching":
                dead = {int(round(l)) for l in before[0]} - {int(round(l)) for l, x in zip(before[0], m) if x > 0}
                expect(not dead & {int(round(l)) for l in labs[0]}, "a walker of zero weight was kept")
        close(np.array(w.ehybrid).real, labs[0], "energies carried by the walkers after control")
        close(np.array(w.eloc).real, labs[0], "local energies carried by the walkers after control")
    return f"{c['method']}" if did else "trivial"


# ------------------------------------------------------------------------ C07
_R = dict(dt=st.sampled_from([0.005, 0.02, 0.05]), nstep=st.integers(2, 14), renorm=st.integers(1, 6), popf=st.integers(1, 6),
          pf=st.integers(1, 4), n=st.integers(2, 14), rseed=st.integers(0, 10000))


def _mk(c, **kw):
    c = dict(c, nw=c["n"])
    return Synth(c, dt=c["dt"], total_time=(c["nstep"] + 0.5) * c["dt"], renorm_freq=kw.pop("renorm", c["renorm"]),
                 pop_control_freq=c["popf"], property_calc_freq=c["pf"], random_seed=kw.pop("rseed", c["rseed"]), **kw)


@law("C07", synth_strategy(3, 3, **_R, hsp=st.sampled_from([0.0, 0.7])), quick=240, cost=0.06,
     rule="whole runs of 2-14 steps on random Hamiltonians with random renormalisation, population-control and measurement frequencies, fields injected, against a plain reference run; non-trivial when at least one energy was measured")
def run_reference(c):
    s = _mk(c, taylor_order=16)
    T = s.trial_dets()
    ref = Ref(s.h, s.L, T[0], T[1], c["dt"], enuc=s.enuc, hb=s.hb)
    n = s.nw
    r = np.random.default_rng(c["rseed"])
    X = r.standard_normal((c["nstep"], n, len(s.L)))
    A, B = [np.array(T[0], complex)] * n, [np.array(T[1], complex)] * n
    wt, eh = np.ones(n), np.zeros(n, complex)
    total, es, hs, ws = float(n), 0.0, 0.0, 0.0
    tl, el = [], []
    for k in range(c["nstep"]):
        for z in range(n):
            a, b, wt[z], eh[z], _ = ref.step(A[z], B[z], wt[z], eh[z], es, X[k, z])
            A[z], B[z] = np.linalg.qr(a)[0], np.linalg.qr(b)[0]
        if k > 0:
            wt = np.clip(wt, -0.1 * total, 0.1 * total)
        if (k + 1) % c["popf"] == 0:
            total = wt.sum()
            wt = wt * n / total
        if not (wt.sum() > 1e-4):
            return "trivial"
        ws += wt.sum()
        hs += (wt * eh.real).sum()
        if (k + 1) % c["pf"] == 0:
            es, hs, ws = hs / ws, 0.0, 0.0
            e = np.array([ref.eloc(A[z], B[z]).real for z in range(n)])
            tl.append(c["dt"] * k)
            el.append(wt @ e / wt.sum())
    if taylor_tol(ref.opnorm, 16) > 1e-9:
        return "trivial"
    with inject(X):
        t, e = quiet_call(s.mc.kernel)
    close(np.array(t, float), np.array(tl), "measurement times")
    if not el:
        return "trivial"
    close(np.array(e, float), np.array(el), "energies of the run", rtol=2e-5, atol=2e-5)
    close(np.array(s.walkers.weights) / n, wt / n, "final weights", rtol=2e-4, atol=2e-5)
    return f"ncomp={s.ncomp} meas={min(len(el), 3)}"


@law("C07", synth_strategy(3, 3, **_R, junk=seeds, method=st.sampled_from([None] + METHODS)), quick=200, cost=0.06,
     rule="histories of runs in one process: a run repeated after other runs with other options and after disturbing the global random state gives identical energies; another seed gives other energies; passed integrals, trial and options are not changed; non-trivial when energies were measured")
def reproducible(c):
    c["nstep"] = max(c["nstep"], c["pf"])
    kw = dict(pop_control_method=c["method"])
    opts = dict(nwalkers=c["n"], weight_min=0.07)
    snap = dict(opts)
    s1 = _mk(c, walker_options=opts, **kw)
    h0, L0, p0 = np.array(s1.mc.h1e), np.array(s1.mc.ltensor), [x.copy() for x in s1.trial_dets()]
    t1, e1 = first_run(s1.mc)
    expect(opts == snap, "the options passed in were changed")
    close(np.array(s1.mc.h1e), h0, "one-electron integrals after a run")
    close(np.array(s1.mc.ltensor), L0, "interaction tensor after a run")
    for x, y in zip(s1.trial_dets(), p0):
        close(x, y, "trial orbitals after a run")
    # something else in between
    c2 = dict(c, n=c["n"] + 3, seed=c["seed"] + 1)
    o = _mk(c2, rseed=c["rseed"] + 17, pop_control_method="comb", walker_options=dict(nwalkers=5, junk=1))
    first_run(o.mc)
    np.random.seed(c["junk"] % 2**31)
    np.random.rand(5)
    s2 = _mk(c, walker_options=dict(snap), **kw)
    t2, e2 = quiet_call(s2.mc.kernel)
    expect(s2.mc.walker_options.get("junk") is None, "options of another run leaked into this one")
    expect(list(t1) == list(t2) and len(e1) == len(e2) and np.allclose(e1, e2, rtol=1e-9, atol=1e-9, equal_nan=True),
           f"repeating a run with the same seed gave {list(e2)[:3]} instead of {list(e1)[:3]}")
    close(np.array(s2.walkers.weights), np.array(s1.walkers.weights), "final weights of the repeated run", rtol=1e-7)
    s3 = _mk(c, rseed=c["rseed"] + 1, **kw)
    t3, e3 = first_run(s3.mc)
    if len(e1) and s1.na + s1.nb < 2 * s1.nao and c["ls"] > 0.15 and c["nstep"] > 1 and np.ptp(np.array(s1.walkers.eloc)) > 1e-6:
        expect(not np.allclose(e1, e3, rtol=1e-13, atol=0), "another random seed gave the same energies")
    return f"{c['method']}" if len(e1) else "trivial"


@law("C07", synth_strategy(4, 3, **_R, renorm2=st.integers(1, 20)), quick=200, cost=0.06,
     rule="metamorphic: the energies of a run do not depend on how often walkers are re-orthogonalised, nor on whether a closed shell is run with one or two spin components, nor on extra unused fields being drawn; non-trivial when energies were measured")
def run_invariances(c):
    c["nb"] = c["na"]
    c["rhf"], c["nstep"] = True, max(c["nstep"], c["pf"])
    n = c["n"]
    X = np.random.default_rng(c["rseed"]).standard_normal((c["nstep"], n, c["nchol"]))
    s1 = _mk(c)
    with inject(X):
        t1, e1 = first_run(s1.mc)
    s2 = _mk(c, renorm=c["renorm2"])
    with inject(X):
        t2, e2 = quiet_call(s2.mc.kernel)
    if not np.all(np.isfinite(e1)) or np.array(s1.walkers.weights).sum() < 1e-3:
        return "trivial"
    tol = dict(rtol=1e-6, atol=1e-6)
    close(np.array(e2), np.array(e1), f"energies with re-orthogonalisation every {c['renorm2']} instead of {c['renorm']} steps", **tol)
    c3 = dict(c, rhf=False, utrial=False)
    s3 = _mk(c3)
    s3.h, s3.L = s1.h, s1.L
    s3.trial.psia, s3.trial.psib = np.array(s1.trial.psia), np.array(s1.trial.psia)
    s3.trial.psi = np.hstack([s3.trial.psia, s3.trial.psib])
    s3.mc.h1e, s3.mc.ltensor, s3.mc.nuc_energy = np.array([s1.h] * 2), s1.L.copy(), s1.enuc
    s3.trial.half_rotate_integrals(s3.mc.h1e, s3.mc.ltensor)
    s3.walkers.phiwa = np.array([s3.trial.psia] * n, complex)
    s3.walkers.phiwb = np.array([s3.trial.psib] * n, complex)
    with inject(X):
        t3, e3 = quiet_call(s3.mc.kernel)
    close(np.array(e3), np.array(e1), "energies of a closed shell with two spin components", **tol)
    Xf = np.concatenate([X, np.random.default_rng(1).standard_normal((c["nstep"], n, 2))], axis=2)
    s4 = _mk(c, propagator_options=dict(num_fake_fields=2))
    with inject(Xf):
        t4, e4 = quiet_call(s4.mc.kernel)
    close(np.array(e4), np.array(e1), "energies with two unused fields drawn per step", **tol)
    return f"meas={min(len(e1), 3)}"


@law("C07", synth_strategy(4, 3, **_R, other=seeds, how=st.integers(0, 3)), quick=160, cost=0.08,
     rule="a run whose trial, propagator or integrals are exchanged after the object was built equals the run of an object built with them; non-trivial when energies were measured")
def exchanged_parts(c):
    c["nstep"] = max(c["nstep"], c["pf"])
    n = c["n"]
    X = np.random.default_rng(c["rseed"]).standard_normal((c["nstep"], n, c["nchol"]))
    c2 = dict(c, seed=c["other"])
    s2 = _mk(c2)
    s1 = _mk(c)
    mc, t2 = s1.mc, s2.trial
    # walkers of the first object, put where those of the second start
    w = s1.walkers
    fresh = _mk(c2).walkers
    w.phiwa = np.array(fresh.phiwa)
    if s1.ncomp > 1:
        w.phiwb = np.array(fresh.phiwb)
    mc.h1e, mc.ltensor, mc.nuc_energy = np.array(s2.mc.h1e), np.array(s2.mc.ltensor), s2.enuc
    kw = {}
    if c["how"] == 0:
        mc.trial = t2
    else:
        kw["trial_wf"] = t2
    if c["how"] == 3:
        kw["propagator"] = _mk(c).prop
    with inject(X):
        ta, ea = first_run(s2.mc)
    with inject(X):
        tb, eb = quiet_call(mc.kernel, **kw)
    if not len(ea) or not np.all(np.isfinite(ea)) or np.array(s2.walkers.weights).sum() < 1e-3:
        return "trivial"
    close(np.array(tb, float), np.array(ta, float), "measurement times")
    close(np.array(eb), np.array(ea), "energies of a run with exchanged parts", rtol=1e-7, atol=1e-7)
    return ("trial set", "trial passed", "trial passed", "trial and propagator passed")[c["how"]]


@law("C07", mol_strategy(["H2", "HeH+", "H4", "LiH", "H3", "H2t", "H4t"], uhf=st.booleans(), nstep=st.integers(2, 8), pf=st.integers(1, 3),
                         n=st.integers(2, 6), dt=st.sampled_from([0.005, 0.02, 0.05])), quick=128, cost=0.14,
     rule="runs on generated molecules in the symmetrically orthogonalised and in the molecular-orbital basis, driven by the same fields, give the same energies; the molecule passed in is not changed; the energies follow the nuclear repulsion when it is shifted; non-trivial when energies were measured")
def basis_independent(c):
    mol = build_mol(c)
    atoms = mol.atom_coords().copy()
    uhf = c["uhf"] or mol.spin != 0
    es = []
    shift = 0.37
    for oao, sh in ((True, 0.0), (False, 0.0), (True, shift)):
        mc = make_mc(mol, OAO=oao, uhf=uhf, num_walkers=c["n"], dt=c["dt"], total_time=(c["nstep"] + 0.5) * c["dt"],
                     property_calc_freq=c["pf"], chol_thresh=1e-9)
        mc.nuc_energy = mc.nuc_energy + sh
        X = np.random.default_rng(c["seed"]).standard_normal((c["nstep"], c["n"], len(mc.ltensor)))
        with inject(X):
            t, e = quiet_call(mc.kernel) if es else first_run(mc)
        es.append(np.array(e, float))
    expect(np.array_equal(mol.atom_coords(), atoms), "the molecule was changed by a run")
    expect(es[0].size == c["nstep"] // c["pf"], f"{es[0].size} measurements in {c['nstep']} steps, one every {c['pf']}")
    if not es[0].size:
        return "trivial"
    close(es[1], es[0], "energies of the run in the molecular-orbital basis", rtol=1e-6, atol=1e-6)
    close(es[2], es[0] + shift, "energies after shifting the nuclear repulsion", rtol=1e-6, atol=1e-6)
    return c["mol"]
