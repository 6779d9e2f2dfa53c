"""process set-up shared by runner and workers: import /repo's working tree."""
import os, sys, tempfile

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.append(os.path.join(HERE, "vendor"))


def numba_env(jit):
    return {"NUMBA_DISABLE_JIT": "0", "NUMBA_NUM_THREADS": "4", "NUMBA_OPT": "1"} if jit else {
        "NUMBA_DISABLE_JIT": "1", "NUMBA_NUM_THREADS": "1"}


def boot(scratch):
    """import third parties from their caches, then openms from source only"""
    import numpy, scipy, scipy.linalg, scipy.special, h5py  # noqa
    import pyscf, pyscf.gto, pyscf.scf, pyscf.fci, pyscf.ao2mo, pyscf.lo, pyscf.mcscf  # noqa
    import pyscf.dft, pyscf.tools, pyscf.lib  # noqa
    import numba  # noqa
    import logging

    sys.dont_write_bytecode = True
    # never trust byte code lying in /repo: always compile the working tree
    sys.pycache_prefix = os.path.join(scratch, "nopyc")
    sys.path.insert(0, REPO)
    os.chdir(scratch)
    pyscf.lib.param.TMPDIR = scratch
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    cov = os.environ.get("VERIF_COV")
    if cov:
        record_lines(cov)
    import openms  # noqa

    assert os.path.abspath(openms.__file__).startswith(os.path.join(REPO, "openms") + os.sep), openms.__file__


def record_lines(folder):
    """development aid: note which lines of openms ran (once each) in folder"""
    import atexit, json

    mon, seen, root = sys.monitoring, {}, os.path.join(REPO, "openms") + os.sep
    mon.use_tool_id(3, "vf")

    def line(code, n):
        if code.co_filename.startswith(root) and code.co_name != "<module>":
            seen.setdefault(code.co_filename[len(root):], set()).add(n)
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    atexit.register(lambda: json.dump({k: sorted(v) for k, v in seen.items()}, open(os.path.join(folder, f"{os.getpid()}.json"), "w")))
