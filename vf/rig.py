"""construction of real OpenMS objects from plain JSON cases"""
import contextlib
import functools
import io

import numpy as np

from hypothesis import strategies as st

from .core import Trivial, Unavailable, attr, close, expect, get, rng

seeds = st.integers(0, 2**31 - 1)


def fl(lo, hi, digits=3):
    """floats on a decimal grid: shrinks well, JSON exact"""
    k = 10**digits
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


# ------------------------------------------------------------- molecules
# every entry: atoms, charge, 2S; geometry = generated bond length + jitter
MOLS = {
    "H2": (["H", "H"], 0, 0),
    "HeH+": (["He", "H"], 1, 0),
    "H3+": (["H", "H", "H"], 1, 0),
    "H4": (["H"] * 4, 0, 0),
    "LiH": (["Li", "H"], 0, 0),
    "He2": (["He", "He"], 0, 0),
    "H3": (["H"] * 3, 0, 1),
    "H2t": (["H", "H"], 0, 2),
    "H4t": (["H"] * 4, 0, 2),
    "BH": (["B", "H"], 0, 0),
    "HF": (["H", "F"], 0, 0),
    "CH4": (["C"] + ["H"] * 4, 0, 0),
    "C3H8": (["C", "H", "H", "H", "C", "H", "H", "C", "H", "H", "H"], 0, 0),
    "NaCl": (["Na", "Cl"], 0, 0),
    "H": (["H"], 0, 1),
}


def geometry(case):
    atoms, charge, spin = MOLS[case["mol"]]
    r = np.random.default_rng(case.get("gseed", 0))
    n = len(atoms)
    d = case.get("bond", 0.9)
    # zig-zag chain with bounded jitter: no coalescence possible
    xyz = np.array([[0.35 * (i % 2) * d, 0.15 * (i // 2) * d, i * d] for i in range(n)])
    xyz = xyz + case.get("jitter", 0.1) * d * (r.random((n, 3)) - 0.5)
    return atoms, xyz, charge, spin


def build_mol(case, **over):
    from pyscf import gto

    atoms, xyz, charge, spin = geometry(case)
    if "xyz" in over:
        xyz = over["xyz"]
    mol = gto.M(
        atom=[(a, tuple(x)) for a, x in zip(atoms, xyz)], basis=case.get("basis", "sto-3g"),
        charge=charge, spin=spin, unit="Angstrom", verbose=0, max_memory=4000,
    )
    return mol


def mol_strategy(names, bases=("sto-3g",), **extra):
    return st.fixed_dictionaries(
        dict(
            mol=st.sampled_from(list(names)), bond=fl(0.7, 2.0, 2), gseed=st.integers(0, 9999),
            jitter=fl(0.0, 0.3, 2), basis=st.sampled_from(list(bases)), seed=seeds, **extra,
        )
    )


def lowdin(mol):
    s = mol.intor("int1e_ovlp")
    w, v = np.linalg.eigh(s)
    return (v * w**-0.5) @ v.T


def quiet_call(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def first_run(mc, **kw):
    """a run that others are compared with; trivial when its whole (tiny) population died out"""
    try:
        return quiet_call(mc.kernel, **kw)
    except AssertionError as e:
        if "NaN detected" in str(e):
            raise Trivial()
        raise


def sym(r, *shape):
    a = r.standard_normal(shape)
    return 0.5 * (a + np.swapaxes(a, -1, -2))


def cplx(r, *shape):
    return r.standard_normal(shape) + 1j * r.standard_normal(shape)


def make_mc(mol, **kw):
    AFQMC = get("openms.qmc.afqmc:AFQMC")
    kw.setdefault("verbose", 0)
    kw.setdefault("energy_scheme", "hybrid")
    return quiet_call(AFQMC, mol, **kw)


# ------------------------------------------------- synthetic electronic systems
@functools.lru_cache(maxsize=None)
def _host_mol(nao, na, nb):
    """a pyscf molecule with nao basis functions and (na, nb) electrons; only its
    electron and orbital counts are used (integrals are injected)"""
    from pyscf import gto

    return gto.M(
        atom=[("H", (0.0, 0.3 * (i % 2), 1.1 * i)) for i in range(nao)], basis="sto-3g",
        charge=nao - na - nb, spin=na - nb, verbose=0,
    )


class FakeMF:
    """mean-field stand-in in an orthonormal basis with prescribed orbitals"""

    def __init__(self, mol, mo):
        self.mol, self.mo_coeff = mol, mo
        self.mo_occ = np.zeros(mo.shape[1])
        self.mo_occ[: mol.nelec[0]] += 1
        self.mo_occ[: mol.nelec[1]] += 1
        self.e_tot = 0.0

    def get_ovlp(self, *a):
        return np.eye(self.mo_coeff.shape[0])


def unitary(r, n, complex_=False):
    a = cplx(r, n, n) if complex_ else r.standard_normal((n, n))
    q, _ = np.linalg.qr(a)
    return q


class Synth:
    """a real AFQMC object over random integrals, with random walkers"""

    def __init__(self, case, **kw):
        r = self.r = rng(case)
        nao, na = case["nao"], case["na"]
        nb = case.get("nb", na)
        rhf = case.get("rhf", False) and na == nb
        self.ncomp = 1 if rhf else 2
        self.nao, self.na, self.nb = nao, na, nb
        mol = _host_mol(nao, na, nb).copy()
        mo = unitary(r, nao)
        self.mf = FakeMF(mol, mo)
        hs, ls = case.get("hs", 1.0), case.get("ls", 0.5)
        self.h = hs * sym(r, nao, nao)
        self.L = ls * sym(r, case["nchol"], nao, nao)
        hl = self.integrals()
        if hl is not None:
            self.h, self.L = hl
        self.enuc = float(r.standard_normal())
        # beta electrons may see their own one-body Hamiltonian
        hsp = case.get("hsp", 0.0) if self.ncomp > 1 else 0.0
        self.hb = self.h + hsp * sym(r, nao, nao) if hsp else self.h
        h1e = np.array([self.h, self.hb][: self.ncomp])
        opts = dict(case.get("opts", {}))
        opts.update(kw)
        trial = None
        if not rhf and case.get("utrial", True):
            # genuinely different (optionally complex) alpha and beta orbitals
            T = get("openms.qmc.trial:TrialHF")
            trial = quiet_call(T, mol, mf=self.mf, ncomponents=2, verbose=0)
            quiet_call(trial.build)
            c = case.get("ctrial", False)
            trial.psia = unitary(r, nao, c)[:, :na]
            trial.psib = unitary(r, nao, c)[:, :nb]
            trial.psi = np.hstack([trial.psia, trial.psib])
        opts.setdefault("num_walkers", case.get("nw", 3))
        self.mc = make_mc(
            mol, mf=self.mf, uhf=not rhf, integrals_func=lambda: (h1e.copy(), self.L.copy()),
            **({"trial": trial} if trial is not None else {}), **opts,
        )
        self.mc.nuc_energy = self.enuc
        self.trial, self.walkers, self.prop = self.mc.trial, self.mc.walkers, self.mc.propagator
        self.nw = self.walkers.nwalkers

    def integrals(self):
        return None

    def scatter(self, eps=0.4, norm=True):
        """replace the walkers by random complex determinants near the trial"""
        w, t, r = self.walkers, self.trial, self.r
        w.phiwa = np.ascontiguousarray(np.array(t.psia)[None] + eps * cplx(r, self.nw, self.nao, self.na))
        if self.ncomp > 1:
            w.phiwb = np.ascontiguousarray(np.array(t.psib)[None] + eps * cplx(r, self.nw, self.nao, self.nb))
        w.weights = 0.2 + 2 * r.random(self.nw)
        return self

    def dets(self):
        """copies of (phia, phib) of all walkers"""
        w = self.walkers
        a = np.array(w.phiwa)
        return a, (np.array(w.phiwb) if self.ncomp > 1 else a)

    def trial_dets(self):
        t = self.trial
        return np.array(t.psia), np.array(t.psib if self.ncomp > 1 else t.psia)


def synth_strategy(maxorb=4, maxchol=5, **extra):
    def fin(d):
        d["na"] = min(d["na"], d["nao"])
        d["nb"] = min(d["nb"], d["na"])
        # at least one electron of each spin is needed by the code (documented: nb>=1 path)
        d["nb"] = max(1, d["nb"])
        return d

    return st.fixed_dictionaries(
        dict(
            nao=st.integers(2, maxorb), na=st.integers(1, 3), nb=st.integers(1, 3), rhf=st.booleans(),
            nchol=st.integers(1, maxchol), nw=st.integers(1, 4), hs=fl(0.1, 1.5, 1), ls=fl(0.1, 1.0, 1),
            ctrial=st.booleans(), seed=seeds, **extra,
        )
    ).map(fin)
