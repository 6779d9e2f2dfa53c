"""The tiled tensors (openms/lib/tensor++) of /repo's working tree behind a plain C interface."""
import ctypes as ct
import fcntl
import hashlib
import os
import subprocess
import tempfile

import numpy as np

from . import fdtd
from .core import REPO, VERIF, Unavailable, Violated

SRC = os.path.join(REPO, "openms", "lib", "tensor++")
DRIVER = os.path.join(VERIF, "vf", "cstub", "tiles", "driver.cpp")
FLAGS = ["-fPIC", "-shared", "-O0", "-w", "-std=c++17", "-I", os.path.join(SRC, "include"), "-I", "/usr/include/eigen3"]
_lib = {}


def library():
    if "path" in _lib:
        return _lib["path"]
    inc = os.path.join(SRC, "include")
    if not os.path.isdir(inc):
        raise Unavailable("openms/lib/tensor++")
    h = hashlib.sha256(" ".join(FLAGS).encode())
    for f in [DRIVER] + [os.path.join(inc, f) for f in sorted(os.listdir(inc))]:
        h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
    root = os.path.join(VERIF, ".vf_build")
    try:
        os.makedirs(root, exist_ok=True)
    except OSError:
        root = tempfile.mkdtemp()
    so = os.path.join(root, f"tiles-{h.hexdigest()[:16]}.so")
    with open(os.path.join(root, "lock-tiles"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(so):
            for old in os.listdir(root):
                if old.startswith("tiles-") and old.endswith(".so"):
                    os.unlink(os.path.join(root, old))
            r = subprocess.run(["g++", *FLAGS, DRIVER, "-o", so + ".tmp"], capture_output=True, text=True)
            if r.returncode:
                raise Unavailable("the tiled tensors do not compile: " + r.stderr[:300])
            os.rename(so + ".tmp", so)
    _lib["path"] = so
    return so


class Lib:
    def __init__(self, dbl, rank):
        d = self.d = ct.CDLL(library())
        d.tl_error.restype = ct.c_char_p
        for n in ("tl_new", "tl_get", "tl_tile", "tl_data", "tl_add", "tl_mul", "tl_transpose"):
            getattr(d, n).restype = ct.c_void_p
        for n in ("tl_all", "tl_count"):
            getattr(d, n).restype = ct.c_long
        self.k, self.rank, self.dt = int(dbl), rank, np.dtype(np.float64 if dbl else np.float32)

    @staticmethod
    def ints(x):
        return (ct.c_int * len(x))(*x)

    def all(self, shape, tile):
        s, t = self.ints(shape), self.ints(tile)
        n = self.d.tl_all(self.rank, s, t, None, 0)
        o = (ct.c_int * (n * self.rank + 1))()
        self.d.tl_all(self.rank, s, t, o, n)
        return [tuple(o[k * self.rank:(k + 1) * self.rank]) for k in range(n)]

    def tensor(self, shape, tile, init, mod):
        p = self.d.tl_new(self.k, self.rank, self.ints(shape), self.ints(tile), int(init), mod)
        if not p:
            raise Violated(f"a tensor of shape {tuple(shape)} with tiles {tuple(tile)} {'with' if init else 'without'} initialiser is refused: {self.d.tl_error().decode()}")
        return ct.c_void_p(p)

    def indices(self, x):
        n = self.d.tl_count(x)
        o = (ct.c_int * (n * self.rank + 1))()
        self.d.tl_indices(x, o)
        return [tuple(o[k * self.rank:(k + 1) * self.rank]) for k in range(n)]

    def dims(self, x):
        o = (ct.c_int * (2 * self.rank))()
        self.d.tl_dims(x, o)
        return tuple(o[:self.rank]), tuple(o[self.rank:])

    def get(self, x, i):
        p = self.d.tl_get(x, self.ints(i))
        return ct.c_void_p(p) if p else None

    def set(self, x, i, t):
        self.d.tl_set(x, self.ints(i), t)

    def tile(self, a):
        t = ct.c_void_p(self.d.tl_tile(self.k, self.rank, self.ints(a.shape)))
        blank = self.value(t)
        a = np.ascontiguousarray(a, self.dt)
        ct.memmove(self.d.tl_data(self.k, self.rank, t), a.ctypes.data, a.nbytes)
        return t, blank

    def value(self, t):
        o = (ct.c_int * (2 * self.rank))()
        self.d.tl_shape(self.k, self.rank, t, o)
        s = tuple(o[:self.rank])
        if s != tuple(o[self.rank:]):
            return None
        n = int(np.prod(s))
        return np.frombuffer(ct.string_at(self.d.tl_data(self.k, self.rank, t), n * self.dt.itemsize), self.dt).reshape(s).copy() if n else np.zeros(s, self.dt)

    def fill(self, t, v):
        self.d.tl_fill(self.k, self.rank, t, ct.c_double(v))

    def add(self, a, b):
        return ct.c_void_p(self.d.tl_add(self.k, self.rank, a, b))

    def mul(self, a, v):
        return ct.c_void_p(self.d.tl_mul(self.k, self.rank, a, ct.c_double(v)))

    def transpose(self, a, p):
        return ct.c_void_p(self.d.tl_transpose(self.k, self.rank, a, self.ints(p)))


def run(job, timeout=60):
    library()
    return fdtd.forked(job, timeout)
