"""planted bugs of the compiled kernels"""
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = [H + "/tools/kerneldemo/kern.py", H + "/vf/cstub/native"]
S = "openms/lib/qmclibs/src/"
C = '''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from kern import Kernels
k = Kernels()
r = np.random.default_rng(1)
z = lambda *s: r.standard_normal(s) + 1j * r.standard_normal(s)
'''
BUGS = [
    dict(id="b56", prop="C34", files=FILES, edits=[(S + "trial.cpp", "phi_mat * inv_ovlp.transpose();", "phi_mat * inv_ovlp;")],
         needs="at least two electrons of a spin and an overlap matrix that is not symmetric", breaks="the half-rotated Green's function of the compiled library uses the inverse overlap instead of its transpose",
         demo=C + '''
phi, psi = z(3, 4, 2), z(4, 2)
o, g = k("trial_walker_ovlp_gf_base", phi, psi)
ref = np.einsum("zij,zpj->zpi", np.linalg.inv(np.einsum("zpi,pj->zij", phi, psi.conj())), phi)
assert np.allclose(g, ref)
'''),
    dict(id="b57", prop="C34", files=FILES, edits=[(S + "qedhf.cpp", "                        * std::pow(-f, m - n)\n                        * gsl_sf_laguerre_n(n, m - n, f * f);\n                }\n\n                slice", "                        * std::pow(std::abs(f), m - n)\n                        * gsl_sf_laguerre_n(n, m - n, f * f);\n                }\n\n                slice")],
         needs="at least two photon states, an odd change of the photon number and a positive displacement", breaks="the displacement matrix elements lose their sign",
         demo=C + '''
eta, one = np.array([[0.1, 0.7]]), np.ones(1)
m, v = k("displacement_matrix", np.array([3], np.int32), 0, one, eta, np.eye(3), 0 * one, 0.2)
f = eta[0][:, None] - eta[0][None] + 0.2
assert np.allclose(m[1], -2 * f * np.exp(-0.5 * f * f)), (m[1], f)
'''),
    dict(id="b58", prop="C34", files=FILES, edits=[(S + "estimators.cpp", "                    acc += LG[x * no + y] * LG[y * no + x];\n                }\n            }\n            /*\n            double tmp", "                    acc += LG[x * no + y] * LG[x * no + y];\n                }\n            }\n            /*\n            double tmp")],
         needs="the real kernel with at least two electrons and a walker other than the trial", breaks="the real exchange energy sums squares instead of products of transposed elements",
         demo=C + '''
L, G = r.standard_normal((2, 4, 3)), r.standard_normal((5, 4, 3))
e, = k("exx_rltensor_Ghalf", L, G)
f = np.einsum("lpi,zpj->zlij", L, G)
assert np.allclose(e, 0.5 * np.einsum("zlij,zlji->z", f, f))
'''),
]
