"""planted changes, second batch, input of tools/plant.py"""
Q = "openms/qmc/"
BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="b22", prop="C02", edits=[(Q + "trial.py",
"            ovlp[z] = phiw[z].T @ psi.conj().astype(np.complex128)\n        return ovlp\n",
"            ovlp[z] = phiw[z].T @ psi.astype(np.complex128)\n        return ovlp\n")],
needs="a complex trial state and the overlap computed without the Green's function",
breaks="overlap with a complex trial is not conjugated, so it disagrees with the one that comes with the Green's function",
demo="""
from types import SimpleNamespace as N
from openms.qmc import trial as T
r = np.random.default_rng(1)
q = np.linalg.qr(r.standard_normal((4, 2)) + 1j * r.standard_normal((4, 2)))[0]
t = N(psia=q, psi=q, ncomponents=1, half_rotated=False, boson_psi=None)
w = N(phiwa=r.standard_normal((3, 4, 2)) + 1j * r.standard_normal((3, 4, 2)), logshift=np.zeros(3), nwalkers=3)
a, b = T.calc_trial_walker_ovlp(w, t), T.calc_trial_walker_ovlp_gf(w, t)
ref = np.array([np.linalg.det(q.conj().T @ x) ** 2 for x in w.phiwa])
assert np.allclose(b, ref), (b, ref)
assert np.allclose(a, ref), (a, ref)
""")

bug(id="b23", prop="C02", edits=[(Q + "trial.py",
"""            walker.Gb = backend.einsum("pi, nqi->npq", trial.psib.conj(), walker.Ghalfb)

        ovlp = sign_a""",
"""            walker.Gb = backend.einsum("pi, nqi->npq", trial.psib, walker.Ghalfb)

        ovlp = sign_a""")],
needs="a complex unrestricted trial with full (not half-rotated) Green's functions",
breaks="the spin-down Green's function of complex trials is wrong",
demo="""
from types import SimpleNamespace as N
from openms.qmc import trial as T
r = np.random.default_rng(1)
c = lambda *s: r.standard_normal(s) + 1j * r.standard_normal(s)
qa, qb = np.linalg.qr(c(4, 2))[0], np.linalg.qr(c(4, 1))[0]
t = N(psia=qa, psib=qb, ncomponents=2, half_rotated=False, boson_psi=None)
w = N(phiwa=c(3, 4, 2), phiwb=c(3, 4, 1), logshift=np.zeros(3), nwalkers=3)
T.calc_trial_walker_ovlp_gf(w, t)
for x, g in zip(w.phiwb, w.Gb):
    ref = (x @ np.linalg.inv(qb.conj().T @ x) @ qb.conj().T).T
    assert np.allclose(g, ref), (g, ref)
""")

bug(id="b24", prop="C15", edits=[("openms/mqed/vtqedhf.py",
"""        if abs(1.0 - self.qed.couplings_var[0]) > 1.0e-4 and self.vhf_dse is not None:
            # only works for nmode == 1
""",
"""        if abs(1.0 - self.qed.couplings_var[0]) > 1.0e-1 and self.vhf_dse is not None:
            # only works for nmode == 1
""")],
needs="a transformation strength within 0.1 of full transformation",
breaks="close to full transformation the gradient with respect to the strength drops the residual self-energy, so optimised runs stop at a non-stationary strength",
demo="""
import io, contextlib
from pyscf import gto
from openms.mqed import vtqedhf
mol = gto.M(atom="H 0 0 0; He 0 0 0.9", charge=1, basis="sto-3g", verbose=0)
with contextlib.redirect_stdout(io.StringIO()):
    mf = vtqedhf.RHF(mol, omega=np.array([0.3]), vec=np.array([[0.0, 0.0, 0.4]]), couplings_var=[0.95])
    mf.conv_tol = 1e-11; mf.max_cycle = 200
    mf.kernel()
    q = mf.qed; q.optimize_varf = True
    dm, eta = mf.make_rdm1(), np.array(mf.eta)
    def E(f):
        mf.eta = eta * f / 0.95; q.couplings_var = np.array([f]); q.update_couplings()
        if q.use_cs: q.update_cs(dm)
        mf.get_h1e_DO(mol, dm=dm)
        h, v = mf.get_hcore(mol, dm, dress=True), mf.get_veff(mol, dm)
        return mf.energy_tot(dm, h, v)
    d = (E(0.951) - E(0.949)) / 0.002
    E(0.95)
    mf.grad_var_params(mf.dm_do, mf.g_dipole, dm=dm)
assert abs(mf.vlf_grad[0] - d) < 1e-5, (mf.vlf_grad, d)
""")

bug(id="b25", prop="C21", edits=[("openms/maxwell/hyperbolic.py",
"""        self.damping = kwargs.get("damping", 0.1)
""",
"""        self.damping = kwargs.get("damping") or 0.1
""")],
needs="an undamped medium (damping given as zero)",
breaks="an explicit damping of zero is replaced by the default",
demo="""
import io, contextlib
from openms.maxwell.hyperbolic import hyperbolicBase
with contextlib.redirect_stdout(io.StringIO()):
    s = hyperbolicBase(plasmon_freqs=np.array([2.0]), damping=0.0).get_conductivity(np.array([0.5]))
assert abs(s[0, 0] - 4j) < 1e-12, s
""")

bug(id="b26", prop="C23", edits=[("openms/qmd/bomd.py",
"""            ndof += mol.ndof
""",
"""            ndof = max(ndof, mol.ndof)
""")],
needs="more than one molecule in the dynamics",
breaks="temperature of several molecules is divided by the degrees of freedom of the largest only",
demo="""
import io, contextlib
from openms.lib.misc import Molecule
from openms.qmd.bomd import BaseMD
with contextlib.redirect_stdout(io.StringIO()):
    f = lambda: Molecule(atom="H 0 0 0; H 0 0 0.74", basis="sto-3g", veloc=1e-3 * np.ones((2, 3)), verbose=0)
    a = BaseMD([f()], None).temperature_many_molecule()
    b = BaseMD([f(), f()], None).temperature_many_molecule()
assert abs(a - b) < 1e-8 * a, (a, b)
""")

bug(id="b27", prop="C22", edits=[("openms/spindy/spin.py",
"""            same_check = ((gfactor[..., 0, 0] == gfactor[..., 1, 1]) & (gfactor[..., 1, 1] == gfactor[..., 2, 2])).all()
""",
"""            same_check = ((gfactor[..., 0, 0] == gfactor[..., 1, 1]) & (gfactor[..., 0, 0] == gfactor[..., 1, 1])).all()
""")],
needs="an axial g-tensor whose unique axis is z",
breaks="axial g-tensors are taken for isotropic ones",
demo="""
from openms.spindy.spin import check_gfactor
g, iso = check_gfactor(np.diag([2.0, 2.0, 2.3]))
assert not iso and np.allclose(g, np.diag([2.0, 2.0, 2.3])), (g, iso)
""")

bug(id="b28", prop="C23", edits=[("openms/qmd/bomd.py",
"""            force = mol.states[current_state].forces
""",
"""            force = mol.states[mol.current_state].forces
""")],
needs="propagation on an excited state chosen by the caller",
breaks="nuclei move on the ground-state force whatever state is asked for",
demo="""
import io, contextlib
from openms.lib.misc import Molecule
from openms.qmd.bomd import BaseMD
with contextlib.redirect_stdout(io.StringIO()):
    m = Molecule(atom="H 0 0 0; H 0 0 0.74", basis="sto-3g", nstates=2, verbose=0)
    m.states[0].forces = np.zeros((2, 3)); m.states[1].forces = np.ones((2, 3))
    md = BaseMD([m], None, dt=2.0)
    md.next_velocity_many_molecule(1)
assert np.allclose(m.veloc, 1.0 / m.mass[:, None]), m.veloc
""")

bug(id="b30", prop="C25", edits=[("openms/lib/ov_blocks.py",
"""    Iovov = Itot[:n1o, n2o:, :n3o, n4o:]
    Ioovv = Itot[:n1o, :n2o, n3o:, n4o:]
    Ivooo = Itot[n1o:, :n2o, :n3o, :n4o]
    Iovoo = Itot[:n1o, n2o:, :n3o, :n4o]
""",
"""    Iovov = Itot[:n1o, n2o:, :n1o, n4o:]
    Ioovv = Itot[:n1o, :n2o, n3o:, n4o:]
    Ivooo = Itot[n1o:, :n2o, :n3o, :n4o]
    Iovoo = Itot[:n1o, n2o:, :n3o, :n4o]
""")],
needs="different occupied counts on the first and third index (mixed-spin tensors of open shells)",
breaks="the ovov block of a full block set has the wrong shape",
demo="""
from openms.lib.ov_blocks import make_two_e_blocks_full
T = np.random.default_rng(0).standard_normal((3, 3, 4, 4))
b = make_two_e_blocks_full(T, 1, 2, 1, 2, 2, 2, 2, 2)
assert b.ovov.shape == (1, 2, 2, 2) and np.allclose(b.ovov, T[:1, 1:, :2, 2:]), b.ovov.shape
""")

bug(id="b31", prop="C26", edits=[(Q + "vmc.py",
"""            S = np.cov(grad_Oks.T, bias=True)
""",
"""            S = np.cov(grad_Oks.T)
""")],
needs="few samples (the metric is off by N/(N-1))",
breaks="the metric handed to the optimiser is not the covariance over the samples",
demo="""
import io, contextlib
from openms.qmc import vmc
K = [c for c in vars(vmc).values() if isinstance(c, type) and hasattr(c, "kernel")][0]
X = np.random.default_rng(0).standard_normal((5, 3))
class S:
    def sample(self, a, n): return list(range(5))
class A:
    def log_psi(self, c): return 0.0
    def gradient(self, c): return X[c]
class H:
    def local_energy(self, c, a): return float(X[c].sum())
got = []
class O:
    def step(self, S, g): got.append((S, g))
with contextlib.redirect_stdout(io.StringIO()):
    K(A(), H(), S(), O()).kernel(n_samples=5, n_iter=1)
assert np.allclose(got[0][0], (X - X.mean(0)).T @ (X - X.mean(0)) / 5), got[0][0]
""")

bug(id="b32", prop="C27", edits=[(Q + "tools.py",
"""        if mol.verbose > 3 and nchol % max(2, nao // 2) == 0:
            print(f"# Iteration {nchol:5d}: delta_max = {delta_max:13.8e}: time = {step_time:13.8e}")
""",
"""        if mol.verbose > 3 and nchol % max(2, nao // 2) == 0:
            delta_max = delta_max / nao
            print(f"# Iteration {nchol:5d}: delta_max per orbital = {delta_max:13.8e}: time = {step_time:13.8e}")
""")],
needs="debug output of the molecule, blocked Cholesky decomposition and a threshold that the rescaled residual passes first",
breaks="a talkative run stops the Cholesky decomposition earlier than a silent one",
demo="""
import io, contextlib
from pyscf import gto
from openms.qmc.tools import chols_blocked
bad = 0
for v in (0, 5):
    mol = gto.M(atom="Li 0 0 0; H 0 0 1.6", basis="6-31g", verbose=0)
    mol.verbose = v
    with contextlib.redirect_stdout(io.StringIO()):
        n = [len(chols_blocked(mol, thresh=t, max_chol_fac=15)) for t in (1e-1, 3e-2, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 3e-5, 1e-5, 1e-6)]
    if v == 0: ref = n
    else: assert n == ref, (n, ref)
""")

bug(id="b33", prop="C28", edits=[("openms/lib/boson.py",
"""           block_diag(
               self.gmat[i] * numpy.sqrt(self.omega[i] / 2),
               self.gmat[i] * numpy.sqrt(self.omega[i] / 2),
           )
""",
"""           block_diag(
               *[self.gmat[i] * numpy.sqrt(self.omega[s] / 2) for s in (i, i - i % 2)]
           )
""")],
needs="two modes of different frequency (the second mode's spin-down block)",
breaks="electron-photon coupling of spin-down electrons to the second mode is scaled with the frequency of the first",
demo="""
import io, contextlib
from pyscf import gto
from openms.mqed import qedhf
with contextlib.redirect_stdout(io.StringIO()):
    mol = gto.M(atom="H 0 0 0; He 0 0 0.9", charge=1, basis="sto-3g", verbose=0)
    mf = qedhf.RHF(mol, omega=np.array([0.3, 0.9]), vec=np.array([[0, 0, 0.1], [0, 0.1, 0.1]]))
    mf.kernel()
    mf.qed._mf = mf
    mf.qed.kernel()
g = mf.qed.gmatso
n = mol.nao
assert np.allclose(g[:, :n, :n], g[:, n:, n:]), g
""")
