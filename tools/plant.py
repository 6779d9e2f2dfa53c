"""Development aid: turn (file, old, new) edits plus a demo into seeded/<id>/.

usage: plant.py SPEC.py [ID...]   (SPEC defines a list BUGS of dicts)
Each bug is applied to a scratch copy of /repo; its demo has to pass on /repo
and fail on the copy, and every replaced text must exist in the first commit.
"""
import json, os, shutil, subprocess, sys, runpy
W = "/tmp/plant"
R = os.environ.get("REPO", "/repo")
BASE = subprocess.run(f"git -C {R} rev-list --max-parents=0 HEAD | tail -1", shell=True, capture_output=True, text=True).stdout.strip()
HEAD = """import os, sys
sys.path.insert(0, os.getcwd())
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
import warnings; warnings.simplefilter("ignore")
import numpy as np
"""
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cwd, demo):
    r = subprocess.run(["/opt/venv/bin/python", demo], cwd=cwd, capture_output=True, text=True, timeout=280)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for b in bugs:
        if want and b["id"] not in want:
            continue
        shutil.rmtree(W, ignore_errors=True)
        subprocess.run(["cp", "-a", R, W], check=True)
        ok = True
        for f, old, new in b["edits"]:
            p = f"{W}/{f}"
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            base = subprocess.run(["git", "-C", R, "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout
            if s.count(old) != 1:
                print(b["id"], "old text occurs", s.count(old), "times in", f); ok = False; break
            if old.strip() not in base:
                print(b["id"], "WARNING old text not in the first commit (check lines)", f)
            s = s.replace(old, new)
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        if not ok:
            continue
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.py", "w").write(HEAD + b["demo"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write(SH)
        for f in b.get("files", []):
            subprocess.run(["cp", "-r", f, d + "/"], check=True)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        c0, o0 = run(R, d + "/demo.py")
        c1, o1 = run(W, d + "/demo.py")
        good = c0 == 0 and c1 != 0
        print(b["id"], "ok" if good else "BAD", "clean", c0, "bug", c1)
        if not good or "AssertionError" not in o1:
            print("   clean:", o0.replace("\n", " | ") if c0 else "", "\n   bug:", o1.replace("\n", " | "))
    shutil.rmtree(W, ignore_errors=True)


main()
