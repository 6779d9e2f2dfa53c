"""C29: runs distributed over several ranks"""
import numpy as np
from hypothesis import strategies as st

from vf.core import Trivial, Unavailable, close, expect, get, law, rng
from vf.ranks import run_ranks
from vf.refqmc import inject
from vf.rig import build_mol, make_mc, quiet_call, seeds, sym, synth_strategy
from vf.checks.c03_local_energy import eb_case
from vf.checks.c06_population import METHODS, _R, _mk

_RANKS = dict(_R, size=st.integers(2, 3), extra=st.integers(0, 6))


DEAD = dict(dead=True)


def run_state(mc):
    """the run, or DEAD when the whole (tiny) population died out and could not be normalised"""
    try:
        t, e = quiet_call(mc.kernel)
    except AssertionError as x:
        if "NaN detected" not in str(x):
            raise
        return DEAD
    return state(mc, t, e)


def alive(parts):
    """trivial when the population died out, on every rank alike"""
    dead = [bool(p.get("dead")) for p in parts]
    if any(dead):
        expect(all(dead), f"the population died out on some ranks only: {dead}")
        raise Trivial()
    return parts


def state(mc, t, e):
    w = mc.walkers
    d = dict(t=np.array(t, float), e=np.array(e), w=np.array(w.weights), a=np.array(w.phiwa), eloc=np.array(w.eloc),
             eh=np.array(w.ehybrid), raw=float(np.real(w.raw_norm)), sh=complex(mc.eshift), n=int(w.nwalkers))
    d["b"] = np.array(w.phiwb) if w.phiwb is not None and w.ncomponents > 1 else None
    d["bo"] = np.array(w.boson_phiw) if w.boson_phiw is not None else None
    return d


def joined(parts, key):
    return np.concatenate([p[key] for p in parts])


def same_run(parts, serial, n, tol):
    expect(not any(p.get("dead") for p in parts), "the population of the distributed run became invalid, that of one process did not")
    counts = [p["n"] for p in parts]
    expect(sum(counts) == n and max(counts) - min(counts) <= 1, f"{n} walkers were distributed as {counts}")
    for k, p in enumerate(parts):
        close(p["t"], serial["t"], f"measurement times on rank {k}")
        close(p["e"], serial["e"], f"energies reported by rank {k} of {len(parts)}, compared with one process", **tol)
        close(p["sh"], serial["sh"], f"energy shift on rank {k}", **tol)
        close(p["raw"], serial["raw"], f"unscaled norm on rank {k}", **tol)
    close(joined(parts, "w"), serial["w"], "weights of all ranks, compared with one process", **tol)
    close(joined(parts, "eh"), serial["eh"], "hybrid energies of all ranks", **tol)
    close(joined(parts, "a"), serial["a"], "walkers of all ranks, compared with one process", **tol)
    if serial["b"] is not None:
        close(joined(parts, "b"), serial["b"], "beta walkers of all ranks, compared with one process", **tol)
    if serial["bo"] is not None:
        close(joined(parts, "bo"), serial["bo"], "boson states of all ranks, compared with one process", **tol)


class Record:
    """records the normal deviates drawn"""

    def __enter__(self):
        self.out, self.saved = [], np.random.normal

        def normal(loc=0.0, scale=1.0, size=None):
            v = self.saved(loc, scale, size)
            if size is not None:
                self.out.append(np.ravel(np.array(v)).copy())
            return v

        np.random.normal = normal
        return self

    def __exit__(self, *a):
        np.random.normal = self.saved


TOL = dict(rtol=1e-7, atol=1e-7)


@law("C29", synth_strategy(3, 3, **_RANKS, fake=st.integers(0, 2)), quick=110, cost=0.15,
     rule="whole runs on random Hamiltonians on 2-3 ranks (forked processes with a real communicator) in the mode in which rank 0 hands out the auxiliary fields, with weight normalisation, against the same run in one process: energies, energy shift, norm on every rank, all walkers and weights; non-trivial when energies were measured")
def shared_fields(c):
    n = c["n"] = c["size"] + c["extra"]
    c["nstep"] = max(c["nstep"], c["pf"])

    def job(rank=0):
        s = _mk(c, propagator_options=dict(num_fake_fields=c["fake"]))
        if not hasattr(s.prop, "debug_mpi"):
            raise Unavailable("debug_mpi")
        s.prop.debug_mpi = True
        return run_state(s.mc)


    # in one process rank 0's own numbers are used: the scatter of the stand-in communicator of the code
    # does not implement them, so one forked rank is the reference
    serial, = alive(run_ranks(1, job))
    if not np.isfinite(serial["w"]).all() or serial["w"].sum() < 1e-3 or not len(serial["e"]):
        raise Trivial()
    same_run(run_ranks(c["size"], job), serial, n, TOL)
    return f"{c['size']} ranks"


@law("C29", synth_strategy(3, 3, **_RANKS, junk=seeds), quick=110, cost=0.2,
     rule="the same in production mode (each rank draws its own fields): the run repeated with the same seed, after disturbing the random state, gives the same energies on all ranks; the fields of different ranks differ and so do those of another seed; a run in one process driven by the recorded fields gives the same energies, walkers and weights; non-trivial when energies were measured")
def own_fields(c):
    n = c["n"] = c["size"] + c["extra"]
    c["nstep"] = max(c["nstep"], c["pf"])

    def job(junk, rseed):
        def f(rank):
            s = _mk(c, rseed=rseed)
            np.random.seed((c["junk"] + 7919 * junk + 13 * rank) % 2**32)
            with Record() as r:
                d = run_state(s.mc)
            return dict(d, x=r.out)
        return f

    p1 = alive(run_ranks(c["size"], job(1, c["rseed"])))
    if not np.isfinite(p1[0]["e"]).all() or not len(p1[0]["e"]) or joined(p1, "w").sum() < 1e-3:
        raise Trivial()
    p2 = run_ranks(c["size"], job(2, c["rseed"]))
    expect(not any(p.get("dead") for p in p2), "the population became invalid when the run was repeated with the same seed")
    for k in range(c["size"]):
        close(p2[k]["e"], p1[k]["e"], f"energies on rank {k} when the run is repeated with the same seed", **TOL)
        close(p2[k]["w"], p1[k]["w"], f"weights on rank {k} when the run is repeated with the same seed", **TOL)
        close(p1[k]["e"], p1[0]["e"], f"energies on rank {k} compared with rank 0", **TOL)
    if all(len(p["x"]) == c["nstep"] for p in p1):
        for k in range(1, c["size"]):
            expect(not np.intersect1d(np.concatenate(p1[k]["x"]), np.concatenate(p1[k - 1]["x"])).size,
                   f"ranks {k - 1} and {k} were driven by the same random numbers")
        nf = len(p1[0]["x"][0]) // p1[0]["n"]
        X = np.array([np.concatenate([p["x"][i].reshape(p["n"], nf) for p in p1]) for i in range(c["nstep"])])
        s = _mk(c)
        with inject(X):
            t, e = quiet_call(s.mc.kernel)
        same_run(p1, state(s.mc, t, e), n, TOL)
        p3 = alive(run_ranks(c["size"], job(1, c["rseed"] + 1)))
        expect(not np.intersect1d(np.concatenate(p3[0]["x"]), np.concatenate(p1[0]["x"])).size, "another seed gave the same fields")
    return f"{c['size']} ranks"


@law("C29", eb_case(size=st.integers(2, 3), extra=st.integers(0, 4), nstep=st.integers(1, 5), pf=st.integers(1, 2), renorm=st.integers(1, 4),
                    popf=st.integers(1, 4), dt=st.sampled_from([0.005, 0.02, 0.05]), rseed=st.integers(0, 9999), dec=st.integers(0, 2)), quick=60, cost=0.5,
     rule="whole electron-photon runs (1-3 modes, random couplings) on 2-3 ranks with fields handed out by rank 0 against one process; non-trivial when the coupling is nonzero")
def electron_boson_ranks(c):
    n = c["size"] + c["extra"]
    mol = build_mol(c)
    nm, nao = c["nmode"], mol.nao_nr()
    g = c["gs"] * sym(rng(c), nm, nao, nao)
    c["nstep"] = max(c["nstep"], c["pf"])
    kw = {}
    if c["dec"] and nm == 1:
        kw["propagator_options"] = dict(decouple_bilinear=True, decouple_scheme=c["dec"])

    def job(rank):
        mc = make_mc(mol, uhf=c["uhf"] or mol.spin != 0, boson_freq=np.array(c["ws"][:nm]), gmat=g.copy(), nphoton=c["nph"] + 1, num_walkers=n,
                     chol_thresh=1e-9, dt=c["dt"], total_time=(c["nstep"] + 0.5) * c["dt"], property_calc_freq=c["pf"], renorm_freq=c["renorm"],
                     pop_control_freq=c["popf"], random_seed=c["rseed"], **kw)
        if not hasattr(mc.propagator, "debug_mpi"):
            raise Unavailable("debug_mpi")
        mc.propagator.debug_mpi = True
        return run_state(mc)

    serial, = alive(run_ranks(1, job))
    if not np.isfinite(serial["w"]).all() or serial["w"].sum() < 1e-3 or not len(serial["e"]):
        raise Trivial()
    same_run(run_ranks(c["size"], job), serial, n, dict(rtol=1e-6, atol=1e-6))
    return f"{nm} modes" if c["gs"] else "trivial"


@law("C29", synth_strategy(3, 3, **_RANKS, method=st.sampled_from([m for m in METHODS if m])), quick=60, cost=0.1,
     rule="runs on 2-3 ranks with resampling: every rank keeps its number of walkers, all ranks report the same energies, and after a control step the weights of all ranks add up to the number of walkers; non-trivial when a control step happened")
def resampled_ranks(c):
    n = c["n"] = c["size"] + 2 + c["extra"]
    c["nstep"] = k = max(c["nstep"], c["pf"]) // c["popf"] * c["popf"]
    if not k:
        raise Trivial()

    def job(rank):
        s = _mk(c, pop_control_method=c["method"])
        return run_state(s.mc)

    p = alive(run_ranks(c["size"], job))
    if not all(np.isfinite(x["w"]).all() for x in p) or min(x["w"].sum() for x in p) < 1e-3 or p[0]["raw"] < 1e-3 * n:
        raise Trivial()
    counts = [len(x["w"]) for x in p]
    expect(sum(counts) == n and max(counts) - min(counts) <= 1, f"{n} walkers, after resampling distributed as {counts}")
    for x in p:
        expect(len(x["a"]) == len(x["w"]) == len(x["eloc"]), "walkers and weights of a rank do not match")
        close(x["e"], p[0]["e"], "energies of the ranks", **TOL)
    close(joined(p, "w").sum(), float(n), "sum of the weights of all ranks after population control", rtol=1e-8)
    return c["method"]
