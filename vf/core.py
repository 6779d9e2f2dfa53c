"""Common machinery of the checks.

A *law* is a Hypothesis strategy producing a plain JSON case plus a function
that runs the real code of /repo on the case and compares it with an oracle
through `expect`/`close`.  Laws are registered per property with `@law`.

Outcomes of one case:
  * the function returns            -> the property held on the case
  * it raises Violated              -> the property is broken (VIOLATION)
  * the code under test raises (a frame of /repo/openms is on the stack and
    the exception was not raised by the harness frame itself) -> VIOLATION,
    because every generated case is a valid input
  * it raises Unavailable           -> an internal helper the law calls does
    not exist (any more): the law is skipped and the evidence says so
  * the harness fails on what came back: AttributeError, TypeError, KeyError ->
    unavailable; ValueError, IndexError, LinAlgError -> VIOLATION (malformed)
  * anything else                   -> error of the harness (exit 3)
"""

import functools
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violated(Exception):
    pass


class Unavailable(Exception):
    pass


class Trivial(Exception):
    """raised by a law to say the case exercised nothing"""


LAWS = {}


class Law:
    def __init__(self, prop, name, strategy, func, quick, thorough, rule, cost, jit=False):
        self.jit = jit
        self.prop, self.name, self.strategy, self.func = prop, name, strategy, func
        self.quick, self.thorough, self.rule, self.cost = quick, thorough, rule, cost


def law(prop, strategy, quick=50, thorough=None, rule="", cost=1.0, name=None, jit=False):
    """register a law. quick/thorough: number of generated cases; cost: seconds per case.
    jit: run with the numba kernels compiled (4 threads); otherwise the same kernels run
    interpreted, which avoids 10-40 s of compilation per process."""

    def deco(func):
        nm = name or func.__name__
        LAWS.setdefault(prop, {})[nm] = Law(
            prop, nm, strategy, func, quick, thorough or quick * 8, rule, cost, jit
        )
        return func

    return deco


def expect(cond, msg):
    if not cond:
        raise Violated(msg)


def close(a, b, what, rtol=1e-8, atol=1e-9):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violated(f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not fb.all():
        raise RuntimeError(f"oracle produced non-finite values in {what}")
    if not fa.all():
        raise Violated(f"{what}: non-finite values returned")
    scale = max(1.0, float(np.max(np.abs(b))))
    err = float(np.max(np.abs(a - b)))
    if err > atol + rtol * scale:
        k = np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape) if a.ndim else ()
        raise Violated(
            f"{what}: max deviation {err:.3e} (scale {scale:.3e}) at {tuple(int(i) for i in k)}: "
            f"got {a[k] if a.ndim else a}, expected {b[k] if b.ndim else b}"
        )


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    raise Violated(f"{what}: accepted")


@functools.lru_cache(maxsize=None)
def _resolve(path):
    mod, _, attr = path.partition(":")
    m = importlib.import_module(mod)
    obj = m
    for part in attr.split(".") if attr else []:
        if not hasattr(obj, part):
            raise Unavailable(path)
        obj = getattr(obj, part)
    return obj


def get(path):
    """resolve 'module:attr'; a missing *internal* name makes the law unavailable"""
    return _resolve(path)


def attr(obj, name):
    if not hasattr(obj, name):
        raise Unavailable(f"{type(obj).__name__}.{name}")
    return getattr(obj, name)


def rng(case):
    return np.random.default_rng(case["seed"])


def crash_in_code_under_test(exc):
    """True if the exception was raised below a call into /repo/openms"""
    tb = traceback.extract_tb(exc.__traceback__)
    root = os.path.join(REPO, "openms") + os.sep
    return any(os.path.abspath(f.filename).startswith(root) for f in tb)


def stand_in(obj):
    """True for stand-in objects made by the harness (they carry only what the code read when the harness was written)"""
    t = type(obj)
    return t.__name__ == "SimpleNamespace" or t.__module__.split(".")[0] == "vf"


def run_case(lw, case):
    """-> (status, message); status in ok, trivial, violation, unavailable, error"""
    import io, contextlib, warnings

    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                r = lw.func(dict(case))
        if r == "trivial":
            return "trivial", ""
        return "ok", (r if isinstance(r, str) else "")
    except Trivial as e:
        return "trivial", str(e)
    except Violated as e:
        return "violation", str(e)
    except Unavailable as e:
        return "unavailable", str(e)
    except Exception as e:  # noqa
        if isinstance(e, MemoryError):
            return "error", "MemoryError"
        if any(f.filename.endswith("pyscf/lib/diis.py") and f.name == "extrapolate"
               for f in traceback.extract_tb(e.__traceback__)):
            return "trivial", "pyscf's DIIS met a singular subspace"  # third-party accelerator, says nothing about the property
        if isinstance(e, AttributeError) and stand_in(getattr(e, "obj", None)):
            return "unavailable", f"code under test reads {type(e.obj).__name__}.{e.name} of a stand-in of the harness"
        if crash_in_code_under_test(e):
            return "violation", "code under test raised " + "".join(
                traceback.format_exception_only(type(e), e)
            ).strip() + " | " + " <- ".join(
                f"{os.path.relpath(f.filename, REPO)}:{f.lineno}"
                for f in reversed(traceback.extract_tb(e.__traceback__)[-3:])
                if f.filename.startswith(REPO)
            )
        # the code under test returned, but the harness could not use what it
        # returned.  A missing name or another signature is an interface change
        # (law unavailable); a malformed value is a wrong result.
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if isinstance(e, NameError) and os.path.abspath(last).startswith(os.path.join(VERIF, "vf") + os.sep):
            return "error", traceback.format_exc(limit=-2)
        if isinstance(e, (AttributeError, TypeError, ImportError, KeyError, NameError)):
            return "unavailable", traceback.format_exc(limit=-2)
        if isinstance(e, (ValueError, IndexError, ArithmeticError, AssertionError, np.linalg.LinAlgError)):
            return "violation", "unusable result: " + traceback.format_exc(limit=-2)
        return "error", traceback.format_exc()


class _Stop(BaseException):
    pass


def explore(lw, n, seed, budget_s):
    """run law lw on n generated cases.  Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    t0 = time.time()
    res = dict(
        law=lw.name, evaluations=0, nontrivial=0, distinct=set(), samples=[],
        violation=None, error=None, unavailable=None, stopped_early=False, labels={},
    )
    state = dict(fail_t=None)

    def body(case):
        if state["fail_t"] is None and time.time() - t0 > budget_s:
            res["stopped_early"] = True
            raise _Stop()
        if state["fail_t"] is not None and time.time() - state["fail_t"] > 45:
            raise _Stop()
        st, msg = run_case(lw, case)
        if state["fail_t"] is None:
            res["evaluations"] += 1
            key = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()
            if st == "ok":
                if key not in res["distinct"]:
                    res["distinct"].add(key)
                    if len(res["samples"]) < 3:
                        res["samples"].append({"law": lw.name, "case": case, "seen": msg})
                if msg:
                    res["labels"][msg] = res["labels"].get(msg, 0) + 1
        if st == "unavailable":
            res["unavailable"] = msg
            raise _Stop()
        if st == "error":
            res["error"] = f"law {lw.name} case {json.dumps(case)}\n{msg}"
            raise _Stop()
        if st == "violation":
            if state["fail_t"] is None:
                state["fail_t"] = time.time()
            res["violation"] = dict(law=lw.name, case=case, message=msg)
            raise Violated(msg)

    s = int(hashlib.sha256(f"{seed}/{lw.prop}/{lw.name}".encode()).hexdigest()[:8], 16)
    test = hypothesis.seed(s)(
        settings(
            max_examples=n, database=None, deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False, print_blob=False,
        )(hypothesis.given(lw.strategy)(body))
    )
    try:
        test()
    except _Stop:
        pass
    except Violated:
        pass
    except BaseException as e:  # noqa
        if res["violation"] is None and res["error"] is None:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    res["nontrivial"] = len(res["distinct"])
    del res["distinct"]
    res["wall_s"] = time.time() - t0
    return res
