"""planted changes, input of tools/plant.py"""
Q = "openms/qmc/"
BUGS = []


def bug(**k):
    BUGS.append(k)


bug(id="b01", prop="C06", edits=[(Q + "population_control.py",
"""                # Clone large weight walker
                sort_walker_info[end]['weight'] = 0.5 * w_se
""",
"""                # Clone large weight walker
                sort_walker_info[end]['weight'] = max(0.5 * w_se, 0.5 * min_weight)
""")],
needs="pair branching in which both partners of a pair are below the lower bound (one very heavy walker, several nearly dead ones)",
breaks="total weight is not conserved by pair branching",
demo="""
from openms.qmc.population_control import branching_dp0
w = np.array([0.01, 0.012, 0.014, 0.02, 0.018, 5.926])
for s in range(40):
    np.random.seed(s)
    out, nw = branching_dp0([np.full(2, float(i)) for i in range(6)], w.copy())
    assert abs(np.sum(nw) - np.sum(w)) < 1e-9, (s, np.sum(nw))
    assert len(out) == 6
""")

bug(id="b02", prop="C05", edits=[(Q + "propagators.py",
"""                a_max=eshift.real + self.ebound,
""",
"""                a_max=self.ebound,
""")],
needs="a large positive energy shift together with a walker whose hybrid energy lies between the two cut-offs",
breaks="the cap on the hybrid energy is not centred on the energy shift, so ordinary walkers get a wrong weight",
demo="""
import contextlib, io
from openms.qmc import propagators as P
class W: pass
p = object.__new__(P.Phaseless)
p.dt = 0.01; p.energy_scheme = "hybrid"; p.ebound = (2.0 / p.dt) ** 0.5
nw = 3
w = W(); w.weights = np.ones(nw); w.ehybrid = np.full(nw, 20.0 + 0j)
ov = np.ones(nw, complex)
eh = np.array([20.1, 19.7, 20.4])
new = np.exp(-p.dt * eh).astype(complex)
w.ovlp = ov
p.update_weight(w, ov, new, np.zeros(nw, complex), np.zeros(nw, complex), eshift=np.float64(20.0))
ref = np.exp(-p.dt * (0.5 * (eh + 20.0) - 20.0))
assert np.allclose(w.weights, ref, rtol=1e-10), (w.weights, ref)
""")

bug(id="b03", prop="C05", edits=[(Q + "propagators.py",
"""        idx_to_rescale = absf > self.bias_bound
""",
"""        idx_to_rescale = backend.abs(fbias.real) > self.bias_bound
""")],
needs="a force bias whose modulus exceeds the bound while its real part does not (dominantly imaginary bias)",
breaks="large complex force biases are not capped at the bound",
demo="""
from openms.qmc import propagators as P
p = object.__new__(P.Phaseless)
p.bias_bound = 1.0; p.nfbound = 0
f = np.array([[0.3 + 2.0j, 0.1 - 0.2j, -4.0 + 0.1j]])
g = p.rescale_fbias(f.copy())
assert np.all(np.abs(g) <= 1 + 1e-12), g
assert np.allclose(g[0, 0], f[0, 0] / abs(f[0, 0]))
assert np.allclose(g[0, 1], f[0, 1])
assert np.allclose(g[0, 2], f[0, 2] / abs(f[0, 2]))
""")

bug(id="b04", prop="C08", edits=[(Q + "propagators.py",
"""                backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
                / backend.sum(walkers.weights)
""",
"""                backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
                / walkers.total_weight
""")],
needs="walker weights whose sum differs from the reference population (after several steps without population control)",
breaks="the electron density felt by the bosons is scaled by the drift of the total weight",
demo="""
import contextlib, io
from pyscf import gto
from openms.qmc.afqmc import AFQMC
mol = gto.M(atom="Li 0 0 0; H 0 0 1.6", basis="sto-3g", verbose=0)
r = np.random.default_rng(0)
g = r.standard_normal((1, 6, 6)); g = 0.1 * (g + g.transpose(0, 2, 1))
with contextlib.redirect_stdout(io.StringIO()):
    mc = AFQMC(mol, num_walkers=4, boson_freq=np.array([0.5]), gmat=g, nphoton=3, verbose=0,
               energy_scheme="hybrid", propagator_options=dict(decouple_bilinear=False))
    mc.propagator.build(mc.h1e, mc.ltensor, mc.trial, mc.geb)
    w, t = mc.walkers, mc.trial
    t.ovlp_with_walkers_gf(w)
    w.weights = np.array([0.5, 0.7, 1.1, 0.2])
    mc.propagator.update_GF(t, w) if hasattr(mc.propagator, "update_GF") else None
n = np.trace(w.rho).real
assert abs(n - 4) < 1e-8, n
""")

bug(id="b05", prop="C01", edits=[(Q + "tools.py",
"""        end_index += (2 * l + 1) * nc
""",
"""        end_index += (2 * l + 1) * max(1, nc - (l > 0))
""")],
needs="a generally contracted basis with a contracted p shell and block-decomposed integrals",
breaks="Cholesky factors of the two-electron integrals are built from the wrong shells",
demo="""
import contextlib, io
from pyscf import gto
from openms.qmc.tools import chols_blocked
mol = gto.M(atom="H 0 0 0; Be 0 0 1.4", basis={"H": "sto-3g", "Be": gto.basis.parse('''
Be    S
     30.1678710              0.15432897  0.0
      5.4951153              0.53532814  0.2
      1.4871927              0.44463454  1.0
Be    P
      1.3148331              0.15591627  0.0
      0.3055389              0.60768372  0.1
      0.0993707              0.39195739  1.0
''')}, spin=1, verbose=0)
with contextlib.redirect_stdout(io.StringIO()):
    L = chols_blocked(mol, thresh=1e-8)
e = mol.intor("int2e")
assert abs(np.einsum("npq,nrs->pqrs", L, L) - e).max() < 1e-6
""")

bug(id="b06", prop="C01", edits=[(Q + "tools.py",
"""            g_diag = numpy.einsum("nij,nij->ij", g, g)  # Summing over n
""",
"""            g_diag = numpy.sum(g, axis=0) ** 2  # Summing over n
""")],
needs="two or more cavity modes with block-decomposed integrals",
breaks="dipole self-energy of several modes is mixed up in the blocked Cholesky decomposition",
demo="""
import contextlib, io
from pyscf import gto
from openms.qmc.tools import chols_blocked
mol = gto.M(atom="H 0 0 0; H 0 0 1; H 0 0.4 2; H 0 0 3", basis="sto-3g", verbose=0)
r = np.random.default_rng(3)
g = r.standard_normal((2, 4, 4)); g = 0.4 * (g + g.transpose(0, 2, 1))
with contextlib.redirect_stdout(io.StringIO()):
    L = chols_blocked(mol, thresh=1e-9, g=g)
e = mol.intor("int2e") + np.einsum("npq,nrs->pqrs", g, g)
err = abs(np.einsum("npq,nrs->pqrs", L, L) - e).max()
assert err < 1e-6, err
""")

bug(id="b07", prop="C09", edits=[(Q + "tools.py",
"""    nblocks = len(y_clean) // block_size
""",
"""    nblocks = len(y) // block_size
""")],
needs="a series with outliers that are removed before blocking",
breaks="more blocks are formed than there are samples left, so the mean is not a number",
demo="""
from openms.qmc.tools import analysis_autocorr
r = np.random.default_rng(1)
y = r.standard_normal(400); y[::7] += 60.0 * (r.random(58) < 0.2)
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    d = analysis_autocorr(y, threshold=4.0)
assert np.isfinite(d["etot"][0]) and abs(d["etot"][0]) < 0.5, d
assert d["etot_nsamp"][0] * d["ac_sampsize"][0] <= np.sum(abs(y - y.mean()) < 4 * y.std()), d
""")

bug(id="b08", prop="C10", edits=[(Q + "trial.py",
"""    norm_factor = backend.sqrt(backend.sum(backend.abs(coefficients)**2))
    return coefficients / norm_factor

class TrialWFBase""",
"""    norm_factor = backend.sqrt(abs(backend.sum(coefficients**2)))
    return coefficients / norm_factor

class TrialWFBase""")],
needs="a complex coherent-state displacement",
breaks="the photon trial state is not normalised",
demo="""
from openms.qmc.trial import initialize_boson_trial_with_z
z = 0.4 + 0.3j
c = initialize_boson_trial_with_z([z], [20])
n = np.arange(20)
assert abs(np.linalg.norm(c) - 1) < 1e-8
b = np.sum(np.conj(c[:-1]) * np.sqrt(n[1:]) * c[1:])
assert abs(b - z) < 1e-8, b
""")

bug(id="b09", prop="C13", edits=[("openms/lib/boson.py",
"""                        (2.0 * factor) * genlaguerre(n=(i_n - 1), alpha=(i_m - i_n + 1))(factor**2)
""",
"""                        (2.0 * factor) * genlaguerre(n=(i_n - 1), alpha=max(1, i_m - i_n))(factor**2)
""")],
needs="at least three photon states with a populated off-diagonal element above the first excited state",
breaks="derivative of the displacement-operator expectation value in the photon-number basis",
demo="""
import contextlib, io
from pyscf import gto
from openms.mqed import scqedhf
mol = gto.M(atom="H 0 0 0; H 0 0 1", basis="sto-3g", verbose=0)
with contextlib.redirect_stdout(io.StringIO()):
    mf = scqedhf.RHF(mol, cavity_mode=np.array([[0, 0, 0.1]]), cavity_freq=np.array([0.5]), nboson_states=5)
q = mf.qed
r = np.random.default_rng(0)
p = r.standard_normal((5, 5)); p = p + p.T
from math import factorial
from scipy.special import eval_genlaguerre
def f(a):
    t = 0.0
    for m in range(5):
        for n in range(5):
            lo, hi = min(m, n), max(m, n)
            t += p[m, n] * np.sqrt(factorial(lo) / factorial(hi)) * (-a) ** (hi - lo) * eval_genlaguerre(lo, hi - lo, a * a) * np.exp(-a * a / 2)
    return t
num = (f(0.3 + 1e-4) - f(0.3 - 1e-4)) / 2e-4
got = float(np.ravel(q.displacement_deriv_kernel(0, np.array([[0.3]]), p))[0])
assert abs(got - num) < 1e-5, (got, num)
""")

bug(id="b10", prop="C11", edits=[("openms/lib/boson.py",
"""        # the following part comes from the DSE
        if self.add_dse:
            if self.complete_basis:
                tmp_term = - self.q_lambda_ao
                # oei -= 0.5 * lib.einsum("Xpq, X->pq", self.q_lambda_ao, gvar2)
            else:
                s_eval, s_evec = scipy.linalg.eigh(s1e)
                idx = s_eval > 1e-15
""",
"""        # the following part comes from the DSE
        if self.add_dse:
            if self.complete_basis:
                tmp_term = - self.q_lambda_ao
                # oei -= 0.5 * lib.einsum("Xpq, X->pq", self.q_lambda_ao, gvar2)
            else:
                s_eval, s_evec = scipy.linalg.eigh(s1e)
                idx = s_eval > 0.1
""")],
needs="the projected (incomplete-basis) self-energy in a basis with a small overlap eigenvalue",
breaks="the dipole self-energy loses the contribution of nearly dependent basis functions",
demo="""
import contextlib, io
from pyscf import gto
from openms.mqed import qedhf
mol = gto.M(atom="H 0 0 0; H 0 0 0.45", basis="6-31g", verbose=0)
s = mol.intor("int1e_ovlp")
assert np.linalg.eigvalsh(s).min() < 0.1
v = np.array([[0.05, 0.1, 0.4]])
with contextlib.redirect_stdout(io.StringIO()):
    mf = qedhf.RHF(mol, cavity_mode=v, cavity_freq=np.array([0.5]), complete_basis=False)
    r = np.random.default_rng(1); a = r.standard_normal(4); a /= np.sqrt(a @ s @ a)
    dm = 2 * np.outer(a, a)
    q = mf.qed
    q.update_cs(dm); q.update_boson_coeff(dm)
    h = mf.get_hcore(mol, dm); vv = mf.get_veff(mol, dm)
    e = mf.energy_tot(dm, h, vv)
c = mol.atom_charges() @ mol.atom_coords() / 2
with mol.with_common_orig(c):
    d = -np.einsum("x,xpq->pq", v[0], mol.intor("int1e_r"))
m = np.sum(d * dm)
m2 = np.sum((d @ np.linalg.inv(s) @ d) * dm) + m * m - 0.5 * np.einsum("pq,qr,rs,sp", d, dm, d, dm)
eri = mol.intor("int2e")
ref = mol.energy_nuc() + np.sum((mol.intor("int1e_kin") + mol.intor("int1e_nuc")) * dm)
ref += 0.25 * np.einsum("pqrs,pq,rs", eri, dm, dm) + 0.5 * (m2 - m * m)
assert abs(e - ref) < 1e-7, (e, ref)
""")

bug(id="b11", prop="C12", edits=[("openms/lib/boson.py",
"""    # Shift away from origin
    if origin_shift is not None:
        origin -= origin_shift

    with mol.with_common_orig(origin):
        quadrupole_ao = -mol.intor("int1e_rr")
""",
"""    # Shift away from origin
    if origin_shift is not None:
        origin += origin_shift

    with mol.with_common_orig(origin):
        quadrupole_ao = -mol.intor("int1e_rr")
""")],
needs="an origin shift",
breaks="dipole and quadrupole parts of the self-energy use different origins, so the energy depends on the origin",
demo="""
import contextlib, io
from pyscf import gto
from openms.mqed import qedhf
mol = gto.M(atom="Li 0 0 0; H 0.1 0 1.6", basis="sto-3g", verbose=0)
e = []
for sh in (None, np.array([0.5, -1.0, 2.0])):
    with contextlib.redirect_stdout(io.StringIO()):
        kw = {} if sh is None else dict(origin_shift=sh)
        mf = qedhf.RHF(mol, cavity_mode=np.array([[0.05, 0.1, 0.2]]), cavity_freq=np.array([0.5]), **kw)
        mf.conv_tol = 1e-10; mf.verbose = 0
        e.append(float(mf.kernel()))
assert abs(e[0] - e[1]) < 1e-6, e
""")

bug(id="b12", prop="C14", edits=[("openms/mqed/vtqedhf.py",
"""            diff_eta = eta[imode, p] - eta[imode, q] + eta[imode, r] - eta[imode, s]
        diff_eta += shift

        tau = numpy.exp(self.qed.squeezed_var[imode])
        tmp = tau / self.qed.omega[imode]
""",
"""            diff_eta = eta[imode, p] - eta[imode, q] + eta[imode, r] - eta[imode, s]
        diff_eta += shift

        tau = 1.0 + self.qed.squeezed_var[imode]
        tmp = tau / self.qed.omega[imode]
""")],
needs="gradient with respect to the transformation strength of a squeezed mode",
breaks="the gradient of the energy with respect to the transformation strength is not the derivative of the energy when the mode is squeezed",
demo="""
import contextlib, io
from openms.mqed import vtqedhf
class Q: pass
mf = object.__new__(vtqedhf.RHF)
q = mf.qed = Q()
q.gmat = np.zeros((1, 2, 2)); q.nboson_states = [1]; q.omega = np.array([0.7]); q.couplings_var = np.array([0.4]); q.squeezed_var = np.array([0.5])
mf.nao = 2
eta1 = np.array([[0.3, -0.8]])
def G(f):
    d = f / 0.4 * (eta1[0][:, None] - eta1[0][None, :])
    return np.exp(-0.5 * (np.exp(0.5) * d / 0.7) ** 2)
ref = (G(0.4 + 1e-5) - G(0.4 - 1e-5)) / 2e-5
got = mf.gaussian_derivative_f_vector(eta1, 0)
assert np.allclose(got, ref, atol=1e-6), (got, ref)
""")

bug(id="b13", prop="C16", edits=[("openms/mqed/qedcc_equations.py",
"""    S2 += -1.0*einsum('ijab,Ibi,Jaj->IJ', I.oovv, U1nold[0], U1nold[0], optimize=True)
""",
"""    S2 += -1.0*einsum('ijab,Iai,Jbj->IJ', I.oovv, U1nold[0], U1nold[0], optimize=True)
""")],
needs="two photon orders and coupled electron-photon singles",
breaks="sign of the exchange-like two-photon contribution of products of coupled singles",
demo="""
from openms.mqed import qedcc_equations as A, myqedcc_equations as B
r = np.random.default_rng(0)
no, nv, nm = 2, 2, 1
n = no + nv
class Box: pass
def blocks(t, off):
    import itertools
    b = Box()
    for nm_ in itertools.product("ov", repeat=t.ndim - off):
        setattr(b, "".join(nm_), t[(slice(None),) * off + tuple(slice(0, no) if c == "o" else slice(no, None) for c in nm_)].copy())
    return b
F = r.normal(size=(n, n)); F = F + F.T
v = r.normal(size=(n,) * 4); v = v - v.transpose(1, 0, 2, 3); v = v - v.transpose(0, 1, 3, 2); v = v + v.transpose(2, 3, 0, 1)
g = r.normal(size=(nm, n, n)); g = g + g.transpose(0, 2, 1)
w = np.array([0.7])
alt = lambda t: (lambda u: u - u.swapaxes(-2, -1))(t - t.swapaxes(-4, -3))
amp = (0.3 * r.normal(size=(nv, no)), 0.2 * alt(r.normal(size=(nv, nv, no, no))),
       [0.3 * r.normal(size=(nm,)), 0.3 * r.normal(size=(nm, nm))],
       [0.3 * r.normal(size=(nm, nv, no)), 0.3 * r.normal(size=(nm, nm, nv, no))],
       [0.2 * alt(r.normal(size=(nm, nv, nv, no, no))), 0.2 * alt(r.normal(size=(nm, nm, nv, nv, no, no)))])
z = np.zeros(nm)
out = []
for m in (A.qedccsd_sn_u2n, B.new_qedccsd_sn_u2n):
    a = (blocks(F, 0), blocks(v, 0), w, blocks(g, 1), blocks(g, 1), z, z, 2, 2, tuple([x.copy() for x in y] if isinstance(y, list) else y.copy() for y in amp))
    out.append(m(*a))
x, y = out
for p, q in zip(x, y):
    p, q = (p, q) if isinstance(p, list) else ([p], [q])
    for s, t in zip(p, q):
        assert np.allclose(s, t, atol=1e-8), abs(np.asarray(s) - np.asarray(t)).max()
""")

bug(id="b14", prop="C17", edits=[("openms/mqed/qedfci.py",
"""        t2b = numpy.dot(g2e_ab.reshape(norb**2, -1).T, t1a.reshape(norb**2, -1))
""",
"""        t2b = numpy.dot(g2e_ab.reshape(norb**2, -1), t1a.reshape(norb**2, -1))
""")],
needs="spin-dependent two-electron integrals given as a list, with (pq|rs) of opposite spins not symmetric under exchange of the pairs",
breaks="the opposite-spin repulsion acts differently on the two spins, so the Hamiltonian is not Hermitian",
demo="""
from openms.mqed.qedfci import contract_2e, fboson_ci_shape
r = np.random.default_rng(0)
n = 3
def g4(sym):
    a = r.standard_normal((n,) * 4)
    a = a + a.transpose(1, 0, 2, 3); a = a + a.transpose(0, 1, 3, 2)
    return a + a.transpose(2, 3, 0, 1) if sym else a
g = [g4(True), g4(False), g4(True)]
from pyscf.fci import direct_uhf
from pyscf import ao2mo
sh = fboson_ci_shape(n, (2, 1), 1, [0])
x = r.standard_normal(sh)
got = contract_2e(g, x, n, (2, 1), 1, [0]).reshape(sh[:2])
ref = direct_uhf.contract_2e([ao2mo.restore(4, k, n) for k in g], x.reshape(sh[:2]), n, (2, 1))
assert np.allclose(got, ref, atol=1e-9), abs(got - ref).max()
""")

bug(id="b15", prop="C18", edits=[("openms/mqed/qedfci.py",
"""    t1 = numpy.zeros((nmode,) + cishape)
    for imode in range(nmode):
        nboson = boson_states[imode]
        boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
        for i in range(nboson):
            slices1 = slices_for_cre(imode, nmode, i)
            slices0 = slices_for(imode, nmode, i)
            t1[(imode,) + slices0] += ci0[slices1] * boson_cre[i]

    rdm1 = lib""",
"""    t1 = numpy.zeros((nmode,) + cishape)
    nboson = min(boson_states) if nmode else 0
    boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
    for imode in range(nmode):
        for i in range(nboson):
            slices1 = slices_for_cre(imode, nmode, i)
            slices0 = slices_for(imode, nmode, i)
            t1[(imode,) + slices0] += ci0[slices1] * boson_cre[i]

    rdm1 = lib""")],
needs="several modes with different photon truncations and population above the smallest one",
breaks="photon numbers of the modes with the larger truncation are too small",
demo="""
from openms.mqed.qedfci import make_rdm1p, fboson_ci_shape
sh = fboson_ci_shape(2, (1, 1), 2, [1, 3])
c = np.zeros(sh); c[0, 0, 0, 3] = 1.0
d = make_rdm1p(c, 2, (1, 1), 2, [1, 3])
assert abs(d[1, 1] - 3) < 1e-10, d
""")

bug(id="b16", prop="C19", edits=[("openms/models/hh_model.py",
"""                self.gmat[:, L, -1] = self.gmat[:, -1, L] = gij
""",
"""                self.gmat[:, L, -1] = self.gmat[:, L - 1, L] = gij
""")],
needs="periodic boundary conditions with a non-local electron-phonon coupling",
breaks="spin-down coupling across the boundary is lost and mixed into the spin-up block",
demo="""
from openms.models.hh_model import HHModel
L = 4
m = HHModel(L, L, L, 1.0, 0.5, g=0.2, gij=0.3, bc="p", ca=np.eye(L), cb=np.eye(L))
g = m.gmat
assert np.allclose(g, g.transpose(0, 2, 1))
assert np.allclose(g[:, :L, :L], g[:, L:, L:])
assert np.allclose(g[:, :L, L:], 0)
""")

bug(id="b17", prop="C20", edits=[("openms/models/aggregates.py",
"""                for uv in range(nuv):
                    deltae = eng2[v1, uv]
""",
"""                for uv in range(nuv):
                    deltae = eng2[j, uv]
""")],
needs="a selection of one-exciton states that is not 0,1,2,... in order, with two-exciton states",
breaks="two-dimensional spectra take excited-state absorption from the wrong one-exciton state",
demo="""
import contextlib, io
from openms.models.aggregates import tdes
r = np.random.default_rng(0)
E = np.array([0.1, 0.4, 0.9]); ev = np.array([0.2, 0.5, 0.8]); d1 = r.standard_normal(3)
e2 = r.random((3, 2)); d2 = r.standard_normal((3, 2)); gm = 0.1
state = [2, 0, 1]
with contextlib.redirect_stdout(io.StringIO()):
    s = tdes(E, state, ev, d1, 2, e2, d2, gm)
lor = lambda d, x: d * d * gm / (x * x + gm * gm)
ref = np.zeros((3, 3))
for m in range(3):
    for n in range(3):
        for k, j in enumerate(state):
            b = 2 * lor(d1[j], E[n] - ev[j]) - sum(lor(d2[k, u], E[n] - e2[k, u]) for u in range(2))
            ref[n, m] += b * lor(d1[j], E[m] - ev[j])
assert np.allclose(s, ref), abs(s - ref).max()
""")

bug(id="b18", prop="C24", edits=[(Q + "tools.py",
"""                eri[q - 1, p - 1, s - 1, r - 1] = integral
""",
"""                eri[q - 1, p - 1, r - 1, s - 1] = integral
""")],
needs="an integral (pq|rs) with all four indices different in one position class only",
breaks="integrals read from a file are not symmetric",
demo="""
import tempfile
from pyscf.tools import fcidump
from openms.qmc.tools import read_fcidump
r = np.random.default_rng(0); n = 3
h = r.standard_normal((n, n)); h = h + h.T
e = r.standard_normal((n,) * 4)
e = e + e.transpose(1, 0, 2, 3); e = e + e.transpose(0, 1, 3, 2); e = e + e.transpose(2, 3, 0, 1)
with tempfile.TemporaryDirectory() as d:
    fcidump.from_integrals(d + "/F", h, e, n, 2, nuc=1.5)
    h1, e1, nuc = read_fcidump(d + "/F", n)
assert np.allclose(e1, e, atol=1e-10), abs(e1 - e).max()
assert np.allclose(h1, h) and abs(nuc - 1.5) < 1e-12
""")

bug(id="b19", prop="C03", edits=[(Q + "trial.py",
"""        rotated_h1b = backend.einsum("Jpi, pq->Jqi", psib.conj(), h1e[1])
""",
"""        rotated_h1b = backend.einsum("Jpi, pq->Jqi", psib.conj(), h1e[0])
""")],
needs="spin-dependent one-electron integrals",
breaks="the local energy of spin-down electrons uses the spin-up one-electron operator",
demo="""
from openms.qmc.trial import half_rotate_integrals
r = np.random.default_rng(0)
h = r.standard_normal((2, 4, 4)); L = r.standard_normal((3, 4, 4))
pa, pb = r.standard_normal((1, 4, 2)), r.standard_normal((1, 4, 2)) 
(ha, hb), _ = half_rotate_integrals(2, pa, pb, h, L)
assert np.allclose(hb[0], h[1].T @ pb[0]), hb
assert np.allclose(ha[0], h[0].T @ pa[0]), ha
""")

bug(id="b20", prop="C04", edits=[(Q + "propagators.py",
"""            for i in range(order):
                temp = backend.dot(op[iw], temp) / (i + 1.0)
                phiw[iw] += temp
""",
"""            for i in range(min(order, 6)):
                temp = backend.dot(op[iw], temp) / (i + 1.0)
                phiw[iw] += temp
"""), (Q + "propagators.py",
"""            temp = phiw[iw].copy()
            for i in range(order):
                temp = op[iw] @ temp / (i + 1.0)
                phiw[iw] += temp
""",
"""            temp = phiw[iw].copy()
            for i in range(min(order, 6)):
                temp = op[iw] @ temp / (i + 1.0)
                phiw[iw] += temp
""")],
needs="a Taylor order above the default",
breaks="raising the Taylor order of the propagator no longer improves the step",
demo="""
from scipy.linalg import expm
from openms.qmc import propagators as P
r = np.random.default_rng(0)
A = 0.8 * (r.standard_normal((2, 4, 4)) + 1j * r.standard_normal((2, 4, 4)))
x = (r.standard_normal((2, 4, 2)) + 0j)
ref = np.array([expm(a) @ y for a, y in zip(A, x)])
for n in ("propagate_HS_kernel", "propagate_exp_op"):
    got = getattr(P, n)(x.copy(), A, 30)
    assert np.allclose(got, ref, atol=1e-8), abs(got - ref).max()
""")

bug(id="b21", prop="C07", edits=[(Q + "qmc.py",
"""            for idx, name in enumerate(self.stacked_variables):
                if "weights" in name:
                    self.property_buffer[idx] /= self.property_calc_freq
""",
"""            for idx, name in enumerate(self.stacked_variables):
                if "weight" in name or "hybrid" in name:
                    self.property_buffer[idx] /= self.property_calc_freq
""")],
needs="more than one step between property reductions",
breaks="the energy shift of the propagation is the hybrid energy divided by the reduction interval",
demo="""
import contextlib, io
from pyscf import gto
from openms.qmc.afqmc import AFQMC
mol = gto.M(atom="H 0 0 0; H 0 0 1.4", basis="sto-3g", verbose=0)
with contextlib.redirect_stdout(io.StringIO()):
    mc = AFQMC(mol, num_walkers=5, dt=0.01, verbose=0, energy_scheme="hybrid")
mc.property_calc_freq = 4
w = mc.walkers
mc.property_buffer = np.zeros(len(mc.stacked_variables), complex)
r = np.random.default_rng(1); num = den = 0
for s in range(4):
    w.weights = r.random(5); w.ehybrid = -1.1 + 0.1 * r.random(5)
    num += np.sum(w.weights * w.ehybrid); den += np.sum(w.weights)
    mc.property_stack(w, s)
assert abs(mc.eshift - num / den) < 1e-10, (mc.eshift, num / den)
""")
