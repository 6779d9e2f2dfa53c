"""python -m vf.run C01 [--tier quick|thorough] [--replay FILE] [--law NAME] [--jobs N]

exit 0: held; exit 1 + VIOLATION line: broken; exit 3: error of the check.
"""
import argparse, hashlib, importlib, json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import boot as B

PY = sys.executable


def load(prop):
    from vf import core

    for f in sorted(os.listdir(os.path.join(B.HERE, "vf", "checks"))):
        if f.endswith(".py") and f != "__init__.py":
            src = open(os.path.join(B.HERE, "vf", "checks", f)).read()
            if f'"{prop}"' in src:
                importlib.import_module("vf.checks." + f[:-3])
    return core.LAWS.get(prop, {})


def worker(args):
    """run one shard: list of law names, write results as JSON"""
    B.boot(args.scratch)
    from vf import core

    laws = load(args.prop)
    out = []
    for spec in args.worker.split(","):
        nm, n, shard = spec.split(":")
        out.append(core.explore(laws[nm], int(n), f"{args.seed}.{shard}" if shard != "0" else args.seed, args.budget))
        with open(args.out, "w") as f:
            json.dump(out, f, default=str)
        if out[-1]["violation"]:
            break
    return 0


def replay(args):
    scratch = tempfile.mkdtemp(prefix="vf_")
    try:
        from vf import core

        rec = json.load(open(args.replay))
        lw = load(rec["property"])[rec["law"]]
        os.environ.update(B.numba_env(lw.jit))
        B.boot(scratch)
        st, msg = core.run_case(lw, rec["case"])
        print(st, msg)
        return {"ok": 0, "trivial": 0, "unavailable": 0, "violation": 1}.get(st, 3)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--law")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--worker")
    ap.add_argument("--scratch")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=0)
    args = ap.parse_args()
    args.replay = os.path.abspath(args.replay) if args.replay else None
    if args.worker:
        return worker(args)
    if args.replay:
        return replay(args)

    t0 = time.time()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    budget = 420.0 if tier == "quick" else 3000.0
    laws = load(args.prop)  # strategies only; openms is not imported here
    if args.law:
        laws = {args.law: laws[args.law]}
    if not laws:
        print("no laws for", args.prop)
        return 3
    # shards: (law, n, shard#) balanced by declared cost (seconds per case)
    shards = []
    for lw in laws.values():
        n = max(1, int((lw.quick if tier == "quick" else lw.thorough) * args.scale))
        tot = n * lw.cost
        k = min(n, args.jobs, max(1, int(tot / 6.0 + 0.5)))
        for i in range(k):
            m = n // k + (1 if i < n % k else 0)
            if m:
                shards.append((m * lw.cost, f"{lw.name}:{m}:{i}", lw.jit))
    shards.sort(key=lambda x: (-x[0], x[1]))
    bins = []
    for jit in (True, False):
        mine = [s for s in shards if s[2] == jit]
        if not mine:
            continue
        mb = [[0.0, [], jit] for _ in range(min(args.jobs, len(mine), max(1, int(sum(s[0] for s in mine) / 3.0 + 0.5))))]
        for c, s, _ in mine:
            b = min(mb, key=lambda x: x[0])
            b[0] += c
            b[1].append(s)
        bins += mb
    scratch = tempfile.mkdtemp(prefix="vf_")
    results, errors = [], []
    try:
        procs = []
        for i, b in enumerate(bins):
            sd = os.path.join(scratch, f"w{i}")
            os.makedirs(sd)
            out = os.path.join(sd, "out.json")
            env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", **B.numba_env(b[2]))
            log = open(os.path.join(sd, "log"), "w")
            p = subprocess.Popen(
                [PY, "-m", "vf.run", args.prop, "--worker", ",".join(b[1]), "--scratch", sd, "--out", out,
                 "--seed", str(args.seed), "--budget", str(budget)],
                cwd=B.HERE, env=env, stdout=log, stderr=subprocess.STDOUT,
            )
            procs.append((p, out, sd, b[1]))
        for p, out, sd, specs in procs:
            try:
                p.wait(timeout=max(5, budget + 180 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            got = json.load(open(out)) if os.path.exists(out) else []
            results += got
            viol = any(r["violation"] for r in got)
            if not viol and (p.returncode != 0 or len(got) != len(specs)):
                if p.returncode == -9 and not got:
                    pass
                tail = open(os.path.join(sd, "log")).read()[-3000:]
                errors.append(f"worker {specs} rc={p.returncode}\n{tail}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    for r in results:
        if r["error"]:
            errors.append(r["error"])
    viols = [r["violation"] for r in results if r["violation"]]
    known = []
    kf = os.path.join(B.HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == args.prop]
    hit, fresh = [], []
    for v in viols:
        m = [k for k in known if k["law"] == v["law"] and k["match"] in v["message"]]
        (hit if m else fresh).append(v)
    # laws that exercise a listed finding on purpose return its label
    for k in known:
        print(f"KNOWN-FINDING: property={args.prop} {k['what']}")

    bylaw = {}
    for r in results:
        d = bylaw.setdefault(r["law"], dict(evaluations=0, nontrivial=0, wall_s=0.0, labels={}, unavailable=None, stopped_early=False))
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += r["nontrivial"]
        d["wall_s"] = round(d["wall_s"] + r["wall_s"], 2)
        d["unavailable"] = d["unavailable"] or r["unavailable"]
        d["stopped_early"] = d["stopped_early"] or r["stopped_early"]
        for l, c in r["labels"].items():
            d["labels"][l] = d["labels"].get(l, 0) + c
    for d in bylaw.values():
        if len(d["labels"]) > 12:
            d["labels"] = dict(sorted(d["labels"].items(), key=lambda x: -x[1])[:12])
    samples = []
    for nm in bylaw:
        s = [s for r in results if r["law"] == nm for s in r["samples"]]
        samples += s[:2]
    ev = dict(
        property=args.prop, tier=tier, seed=int(args.seed), level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in bylaw.values()),
            distinct_nontrivial=sum(d["nontrivial"] for d in bylaw.values()),
            rule="; ".join(f"{n}: {laws[n].rule}" for n in laws),
            samples=samples, laws=bylaw,
        ),
        assumptions=["numpy/scipy/pyscf integrals and linear algebra are correct",
                     "floating-point comparison tolerances as stated in the laws"],
        wall_s=round(time.time() - t0, 2), violations=len(fresh),
    )
    os.makedirs(os.path.join(B.HERE, "evidence"), exist_ok=True)
    with open(os.path.join(B.HERE, "evidence", args.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n, d in bylaw.items():
        print(f"  {args.prop}.{n}: {d['evaluations']} cases, {d['nontrivial']} non-trivial, {d['wall_s']} s"
              + (f" UNAVAILABLE {d['unavailable']}" if d["unavailable"] else "")
              + (" (time budget hit)" if d["stopped_early"] else ""))
    if fresh:
        rd = os.path.join(B.HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for v in fresh[:3]:
            rec = dict(property=args.prop, law=v["law"], case=v["case"], message=v["message"])
            h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rd, f"{args.prop}_{v['law']}_{h}.json")
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print(f"  {v['law']}: {v['message']}\n  case {json.dumps(v['case'])}")
            print(f"VIOLATION property={args.prop} replay={path}")
        return 1
    if errors:
        print("HARNESS-ERROR\n" + "\n".join(errors))
        return 3
    print(f"{args.prop}: held on {ev['coverage']['evaluations']} cases ({ev['wall_s']} s, seed {args.seed}, {tier})")
    return 0


if __name__ == "__main__":
    sys.exit(main())
