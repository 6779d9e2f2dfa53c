"""Several MPI ranks without MPI: each rank is a forked process whose communicator
(put in place of openms.__mpi__.MPI.COMM_WORLD) sends every collective call to the
parent, which combines the contributions of all ranks and answers.  Ranks that do
not make the same sequence of collective calls are reported."""
import io
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np

from .core import Unavailable, Violated, crash_in_code_under_test, get

TIMEOUT = 120


def _send(fd, obj):
    b = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def _recv(fd):
    (n,) = struct.unpack("<q", _read(fd, 8))
    return pickle.loads(_read(fd, n))


def _buf(x):
    """the array of a buffer argument [array, counts, displs, type]"""
    return x[0] if isinstance(x, (list, tuple)) else x


class Req:
    def wait(self):
        pass

    Wait = wait


class Comm:
    """communicator of one rank"""

    def __init__(self, rank, size, fin, fout):
        self.rank, self.size, self._in, self._out = rank, size, fin, fout

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _all(self, op, x):
        _send(self._out, ("call", op, x))
        return _recv(self._in)

    def barrier(self):
        self._all("barrier", None)

    Barrier = barrier

    def Split(self, color=0, key=0):
        if len(set(self._all("split", color))) > 1:
            raise Unavailable("communicator split into several colours")
        return self

    Dup = Split

    @staticmethod
    def _sum(parts):
        out = parts[0]
        if isinstance(out, np.ndarray):
            out = out.copy()
        for p in parts[1:]:
            out = out + p
        return out

    def allreduce(self, x, op=None, root=0):
        return self._sum(self._all("allreduce", x))

    def reduce(self, x, op=None, root=0):
        parts = self._all("reduce", x)
        return self._sum(parts) if self.rank == root else None

    def Allreduce(self, x, out, op=None, root=0):
        if not isinstance(_buf(x), np.ndarray):  # MPI.IN_PLACE
            x = out
        _buf(out)[...] = self._sum(self._all("Allreduce", np.array(_buf(x))))

    def Reduce(self, x, out, op=None, root=0):
        parts = self._all("Reduce", np.array(_buf(x)))
        if self.rank == root:
            _buf(out)[...] = self._sum(parts)

    def allgather(self, x):
        return self._all("allgather", x)

    def gather(self, x, root=0):
        parts = self._all("gather", x)
        return parts if self.rank == root else None

    def Allgather(self, x, out, root=0):
        parts = self._all("Allgather", np.array(_buf(x)))
        o = _buf(out)
        o[...] = np.concatenate([np.ravel(p) for p in parts]).reshape(o.shape)

    Allgatherv = Allgather

    def Gather(self, x, out, root=0):
        parts = self._all("Gather", np.array(_buf(x)))
        if self.rank == root:
            o = _buf(out)
            o[...] = np.concatenate([np.ravel(p) for p in parts]).reshape(o.shape)

    Gatherv = Gather

    def bcast(self, x, root=0):
        return self._all("bcast", x if self.rank == root else None)[root]

    def Bcast(self, x, root=0):
        a = _buf(x)
        parts = self._all("Bcast", np.array(a) if self.rank == root else None)
        a[...] = parts[root]
        return x

    def scatter(self, x, root=0):
        return self._all("scatter", x if self.rank == root else None)[root][self.rank]

    def Scatter(self, x, out, root=0):
        full = self._all("Scatter", np.array(_buf(x)) if self.rank == root else None)[root].ravel()
        o = _buf(out)
        n = full.size // self.size
        o[...] = full[self.rank * n:(self.rank + 1) * n].reshape(o.shape)

    def Scatterv(self, x, out, root=0):
        full, counts, displs = self._all("Scatterv", (np.array(x[0]), list(x[1]), list(x[2])) if self.rank == root else None)[root]
        k = self.rank
        o = _buf(out)
        o[...] = full.ravel()[int(displs[k]):int(displs[k]) + int(counts[k])].reshape(o.shape)


def run_ranks(size, job):
    """job(rank) is run on `size` ranks; list of its results.  Exceptions are raised here."""
    MPI = get("openms.__mpi__:MPI")
    kids = []
    for k in range(size):
        cr, pw = os.pipe()
        pr, cw = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.alarm(TIMEOUT)
                os.close(pw), os.close(pr)
                for _, a, b in kids:
                    os.close(a), os.close(b)
                sys.stdout = io.StringIO()
                MPI.COMM_WORLD = Comm(k, size, cr, cw)
                try:
                    out = ("done", None, job(k))
                except Violated as e:
                    out = ("violated", None, str(e))
                except Unavailable as e:
                    out = ("unavailable", None, str(e))
                except Exception as e:  # noqa
                    kind = "crash" if crash_in_code_under_test(e) else "harness"
                    out = (kind, None, "".join(traceback.format_exception_only(type(e), e)).strip() + " | " + traceback.format_exc(limit=-3))
                _send(cw, out)
            except BaseException:  # noqa
                code = 1
            finally:
                os._exit(code)
        os.close(cr), os.close(cw)
        kids.append((pid, pr, pw))
    results, t0 = [None] * size, time.time()
    try:
        while True:
            msgs = []
            for pid, pr, pw in kids:
                if not select.select([pr], [], [], max(0.0, TIMEOUT + 5 - (time.time() - t0)))[0]:
                    raise Unavailable("a rank of the distributed run does not answer in time")
                try:
                    msgs.append(_recv(pr))
                except EOFError:
                    raise Unavailable("a rank of the distributed run was ended") from None
            for m in msgs:
                if m[0] == "crash":
                    raise Violated("a rank of the distributed run raised " + m[2])
            for kind, exc in (("violated", Violated), ("unavailable", Unavailable), ("harness", Unavailable)):
                for m in msgs:
                    if m[0] == kind:
                        raise exc(m[2])
            ops = [m[1] for m in msgs]
            if len(set(ops)) > 1:
                raise Violated(f"the ranks do not make the same collective calls: {ops}")
            if ops[0] is None:
                return [m[2] for m in msgs]
            parts = [m[2] for m in msgs]
            for pid, pr, pw in kids:
                _send(pw, parts)
    finally:
        for pid, pr, pw in kids:
            os.close(pr), os.close(pw)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
