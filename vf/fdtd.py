"""The C time-domain Maxwell engine (openms/lib/fdtd) of /repo's working tree:
compiled once per content into a folder of /verif that git ignores, and run in a
forked process per case, because its whole state is global."""
import ctypes as ct
import fcntl
import hashlib
import os
import pickle
import shutil
import signal
import struct
import subprocess
import tempfile
import traceback

import numpy as np

from .core import REPO, VERIF, Trivial, Unavailable, Violated

SRC = os.path.join(REPO, "openms", "lib", "fdtd")
STUB = os.path.join(VERIF, "vf", "cstub")
GUARD = os.path.join(STUB, "guard")
FLAGS = ["-shared", "-fPIC", "-O1", "-w", "-std=gnu11", "-fcommon"]
_lib = {}


def sources():
    if not os.path.isdir(SRC):
        raise Unavailable("openms/lib/fdtd")
    return sorted(f for f in os.listdir(SRC) if f.endswith((".c", ".h")) and not f.endswith("_wrap.c"))


def library():
    """path of the compiled engine"""
    if "path" in _lib:
        return _lib["path"]
    names = sources()
    h = hashlib.sha256(" ".join(FLAGS).encode())
    for d, f in [(SRC, n) for n in names] + [(os.path.join(STUB, "gsl"), n) for n in sorted(os.listdir(os.path.join(STUB, "gsl")))] + [(GUARD, n) for n in sorted(os.listdir(GUARD))]:
        h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    root = os.path.join(VERIF, ".vf_build")
    try:
        os.makedirs(root, exist_ok=True)
    except OSError:
        root = tempfile.mkdtemp()
    so = os.path.join(root, f"fdtd-{h.hexdigest()[:16]}.so")
    if not os.path.exists(so):
        with open(os.path.join(root, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not os.path.exists(so):
                for old in os.listdir(root):
                    if old.startswith("fdtd-") and old.endswith(".so"):
                        os.unlink(os.path.join(root, old))
                tmp = so + f".{os.getpid()}"
                cmd = ["gcc", *FLAGS, "-I", STUB, "-include", os.path.join(GUARD, "guard.h"), "-o", tmp, *[os.path.join(SRC, n) for n in names if n.endswith(".c")], os.path.join(GUARD, "guard.c"), "-lm"]
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise Unavailable("the FDTD sources do not compile: " + r.stderr[:300])
                os.rename(tmp, so)
    _lib["path"] = so
    return so


FN = dict(
    structure_size="fff", lattice_size="iii", non_uniform_grid="sffi", non_uniform_z_to_i="f:i", non_uniform_i_to_z="i:f", pml_size="iiiiii",
    set_default_parameter="f", set_sigma_order="ffffff", set_sigma_max="ffffff", set_kappa="fff", Hz_parity="iii", periodic_boundary="iiff",
    memory="", make_epsilon="", make_metal_structure="", background="f", input_object="ssfffffff", input_object_Euler_rotation="ssffffffffff",
    input_molecular="sffffff", input_Drude_medium="sffffffffff"[:11], input_Drude_medium2="ssffffffffff", coefficient="", propagate="",
    propagate_tri="", field_initialization="", Gaussian_dipole_source="sfffffll", Lorentzian_dipole_source="sfffffll", Gaussian_line_source="sffffll",
    Lorentzian_line_source="sffffll", Gaussian_planewave="ssffll", Lorentzian_planewave="ssffll", external_source="sffff", external_planewave="ssff",
    Lorentzian_phase="fl:f", Gaussian_phase="fl:f", Gauss_amp="ffll:f", Lorentz_amp="ffll:f", iGauss_amp="ffll:f", iLorentz_amp="ffll:f",
    grid_value="siii:f", eps="iii:f", eps_m="iii:f", meps="iii:f", out_point="sfffllS", out_plane="ssfs", out_epsilon="sfs", total_E_energy="",
    total_EM_energy="", total_E2="", total_E_energy_block="ffffff", total_E_energy2_block="ffffff", total_E_energy3_block="ffffff",
    total_EM_energy_block="ffffff", Drude_energy_loss_in_block="ffffff", max_E_Energy_detector="ffffff", Poynting_total="", Poynting_block="ffffff",
    Poynting_side="ff", Poynting_UpDown="ff", Poynting_half_sphere_point="sffff:f", real_space_param="ff", get_period_in_update="f:i",
    out_several_points="sfffiills", out_plane_periodic="ssfsii", out_epsilon_projection="ss", out_plane_projection="sssi", out_plane_time_average="ssfllps", out_plane_time_average_projection="ssllpsi", out_epsilon_periodic="sfsii", Drude_energy_loss_in_block2="ffffffff", total_E_energy_thin_block_z="ffffffffs", random_object="sfffffffffii", random_Gaussian_dipole="sffffffffii", Gaussian_beam_prop_Gauss="ssfffffffll", Gaussian_beam_prop_Lorentz="ssfffffffll", print_energy="", sigmax="f:f", sigmay="f:f", sigmaz="f:f",
)
FN.update(far_field_param="af", far_field_FFT="iffai", print_amp_and_phase="i", print_real_and_imag="i", print_real_and_imag_2n_size="ii", make_2n_size="ii",
          transform_farfield="iisi", add_farfield="is", out_plane_time_average="ssfllps", out_plane_time_average_projection="ssllpsi", Drude_energy_loss_in_block2="ffffffff",
          incoherent_point_dipole="sffffllff", find_k_projection="iii:i")
FN["input_Drude_medium"] = "sffffffffff"
FN["out_point"] = "sffflls"
TYPES = dict(f=ct.c_float, i=ct.c_int, l=ct.c_long, s=ct.c_char_p, a=ct.POINTER(ct.c_float), p=ct.c_void_p)
P3 = ct.POINTER(ct.POINTER(ct.POINTER(ct.c_float)))


class Engine:
    """the engine inside a forked process"""

    def __init__(self, path):
        self._dll = ct.CDLL(path)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        sig = FN[name]
        args, _, ret = sig.partition(":")
        try:
            f = getattr(self._dll, name)
        except AttributeError:
            raise Unavailable(name) from None
        f.argtypes = [TYPES[a] for a in args]
        f.restype = TYPES[ret] if ret else None

        def call(*a):
            if len(a) != len(args):
                raise TypeError(f"{name} takes {len(args)} arguments")
            if "a" in args:
                a = [(ct.c_float * len(x))(*x) if k == "a" else x for x, k in zip(a, args)]
            return f(*[x.encode() if isinstance(x, str) else (float(x) if k == "f" else int(x) if k in "il" else x) for x, k in zip(a, args)])

        setattr(self, name, call)
        return call

    def _var(self, typ, name):
        try:
            return typ.in_dll(self._dll, name)
        except ValueError:
            raise Unavailable(name) from None

    def num(self, name, typ="f", value=None):
        v = self._var(TYPES[typ], name)
        if value is not None:
            v.value = value
        return v.value

    def size(self):
        return tuple(self.num(n, "i") for n in ("misize", "mjsize", "mksize"))

    def line(self, name, n):
        return np.array(self._var(ct.POINTER(ct.c_float), name)[:n])

    def read(self, name, shape=None):
        p = self._var(P3, name)
        n = shape or self.size()
        return np.array([[np.ctypeslib.as_array(p[i][j], (n[2],)) for j in range(n[1])] for i in range(n[0])], dtype=np.float64)

    def write(self, name, a):
        p = self._var(P3, name)
        a = np.asarray(a, dtype=np.float32)
        n = self.size()
        assert a.shape == n, (a.shape, n)
        for i in range(n[0]):
            for j in range(n[1]):
                np.ctypeslib.as_array(p[i][j], (n[2],))[:] = a[i, j]


def run(job, timeout=120):
    """job(engine) in a forked process in an empty scratch folder; its result"""
    so = library()

    def go():
        e = Engine(so)
        val = job(e)
        if e._dll.vf_damaged():
            raise Violated(f"the engine wrote beyond {e._dll.vf_damaged()} of its arrays")
        return val
    return forked(go, timeout)


def forked(go, timeout=120):
    r, w = os.pipe()
    d = tempfile.mkdtemp(prefix="fdtd")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.chdir(d)
            signal.alarm(timeout)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1), os.dup2(null, 2)
            try:
                out = ("done", go())
            except Violated as e:
                out = ("violated", str(e))
            except Trivial as e:
                out = ("trivial", str(e))
            except Unavailable as e:
                out = ("unavailable", str(e))
            except BaseException as e:  # noqa
                out = ("harness", repr(e) + traceback.format_exc(limit=-4))
            b = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<q", len(b)) + b)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            head = f.read(8)
            body = f.read(struct.unpack("<q", head)[0]) if len(head) == 8 else b""
        _, status = os.waitpid(pid, 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not body:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            raise Violated(f"the compiled code crashed with signal {sig}")
        raise Unavailable(f"the compiled code was ended (status {status})")
    kind, val = pickle.loads(body)
    if kind == "done":
        return val
    raise {"violated": Violated, "trivial": Trivial, "unavailable": Unavailable, "harness": RuntimeError}[kind](val)
