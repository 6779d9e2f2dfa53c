"""The compiled kernels (openms/lib/qmclibs) of /repo's working tree, built against
plain stand-ins for pybind11, BLAS and GSL (vf/cstub/native) and called in a forked
process per case."""
import ctypes as ct
import fcntl
import hashlib
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from . import fdtd
from .core import REPO, VERIF, Unavailable, Violated

SRC = os.path.join(REPO, "openms", "lib", "qmclibs", "src")
STUB = os.path.join(VERIF, "vf", "cstub", "native")
FLAGS = ["-fPIC", "-O1", "-w", "-std=c++17", "-fopenmp", "-DUSE_OPENBLAS", "-I", STUB, "-I", SRC, "-I", "/usr/include/eigen3"]
_lib = {}


def library():
    if "path" in _lib:
        return _lib["path"]
    if not os.path.isdir(SRC):
        raise Unavailable("openms/lib/qmclibs")
    names = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith((".cpp", ".hpp", ".h"))]
    stub = [os.path.join(d, f) for d, _, fs in sorted(os.walk(STUB)) for f in sorted(fs)]
    h = hashlib.sha256(" ".join(FLAGS).encode())
    for f in names + stub:
        h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
    root = os.path.join(VERIF, ".vf_build")
    try:
        os.makedirs(root, exist_ok=True)
    except OSError:
        root = tempfile.mkdtemp()
    so = os.path.join(root, f"qmclib-{h.hexdigest()[:16]}.so")
    if not os.path.exists(so):
        with open(os.path.join(root, "lock-qmclib"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not os.path.exists(so):
                for old in os.listdir(root):
                    if old.startswith("qmclib-") and old.endswith(".so"):
                        os.unlink(os.path.join(root, old))
                with tempfile.TemporaryDirectory(dir=root) as d:
                    cpp = [f for f in names if f.endswith(".cpp")] + [os.path.join(STUB, "driver.cpp")]

                    def one(k):
                        return subprocess.run(["g++", *FLAGS, "-c", cpp[k], "-o", os.path.join(d, f"{k}.o")], capture_output=True, text=True)
                    with ThreadPoolExecutor(8) as ex:
                        for r in ex.map(one, range(len(cpp))):
                            if r.returncode:
                                raise Unavailable("the kernels do not compile: " + r.stderr[:300])
                    r = subprocess.run(["g++", "-shared", "-fopenmp", "-o", os.path.join(d, "x.so"), *[os.path.join(d, f"{k}.o") for k in range(len(cpp))]], capture_output=True, text=True)
                    if r.returncode:
                        raise Unavailable("the kernels do not link: " + r.stderr[:300])
                    os.rename(os.path.join(d, "x.so"), so)
    _lib["path"] = so
    return so


class Kernels:
    def __init__(self):
        d = self.d = ct.CDLL(library())
        for n in ("vf_names", "vf_message"):
            getattr(d, n).restype = ct.c_char_p
        d.vf_kind.restype, d.vf_number.restype, d.vf_data.restype, d.vf_shape.restype = ct.c_char, ct.c_double, ct.c_void_p, ct.c_long
        self.names = set(d.vf_names().decode().split())

    def __getattr__(self, name):
        if name not in self.names:
            raise Unavailable(f"kernel {name}")
        d = self.d

        def call(*args):
            d.vf_reset()
            keep = []
            for a in args:
                if isinstance(a, (bool, int, np.integer)):
                    d.vf_int(ct.c_long(int(a)))
                elif isinstance(a, (float, np.floating)):
                    d.vf_float(ct.c_double(float(a)))
                else:
                    if isinstance(a, (list, tuple)):
                        a = np.array(a, np.int32)
                    kind = {"f": b"d", "c": b"z", "i": b"I"}[a.dtype.kind]
                    b = a if a.flags.c_contiguous else np.ascontiguousarray(a)
                    keep.append(b)
                    d.vf_array(ct.c_char(kind), b.ndim, (ct.c_long * b.ndim)(*b.shape), ct.c_void_p(b.ctypes.data))
            n = d.vf_call(name.encode())
            if n < 0:
                raise ValueError(d.vf_message().decode())
            out = []
            for k in range(n):
                kind = d.vf_kind(k)
                if kind in b"dz":
                    shape = tuple(d.vf_shape(k, i) for i in range(d.vf_ndim(k)))
                    dt = np.dtype(float if kind == b"d" else complex)
                    m = int(np.prod(shape, dtype=int))
                    raw = np.frombuffer(ct.string_at(d.vf_data(k) - 16 * dt.itemsize, (m + 32) * dt.itemsize), dt)
                    if np.any(raw[:16] != -7.25e7) or np.any(raw[16 + m:] != -7.25e7):
                        raise Violated(f"{name} wrote beyond its result")
                    out.append(raw[16:16 + m].reshape(shape).copy())
                else:
                    out.append(d.vf_number(k))
            return out[0] if n == 1 else tuple(out)
        return call


def run(job, timeout=60):
    library()
    return fdtd.forked(lambda: job(Kernels()), timeout)
