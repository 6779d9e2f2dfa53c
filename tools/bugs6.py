"""more planted bugs (see bugs4.py for the harness of the engine's demonstrations)"""
import os
import runpy

C = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))["C"]
D = "openms/lib/fdtd/"
BUGS = [
    dict(id="b49", prop="C32", edits=[(D + "output.c", """        for (i = 0; i < i_range + 1; i++)
          (*field_avg)[k][i] = 0.0;
    }

    if (t > start && t <= end) {""", """        for (i = 0; i < i_range + 1; i++)
          (*field_avg)[k][i] = 0.0;
    }

    if (t >= start && t <= end) {""")],
         needs="a time average over a plane normal to y, called from the first step of the window on", breaks="the average takes one sample more than it divides by",
         demo=C + '''
import ctypes
for plane in "xyz":
    e = grid((6, 5, 4), (2, 2, 2))
    e("coefficient")
    for x in "xyz":
        e.put("E" + x, np.ones(e.n()))
    p = ct.POINTER(ct.POINTER(ct.c_float))()
    f = e.d.out_plane_time_average
    f.restype = None
    f.argtypes = [ct.c_char_p, ct.c_char_p, ct.c_float, ct.c_long, ct.c_long, ct.c_void_p, ct.c_char_p]
    for t in range(3, 9):
        ct.c_long.in_dll(e.d, "t").value = t
        f(b"Ex", plane.encode(), 0.0, 4, 7, ct.cast(ct.pointer(p), ct.c_void_p), (".a" + plane).encode())
    m = np.array([[float(x) for x in l.split()] for l in open("0000004.a" + plane)])
    assert abs(m - 1).max() < 1e-5, (plane, m.ravel()[:3])
'''),
    dict(id="b50", prop="C32", edits=[(D + "energy.c", "wr * mgamma[i][j][k] * mgamma[i][j][k] * temp_fac * temp_fac);\n        Eloss = Eloss + 2 *", "wr * mgamma[i][j][k] * mgamma[i][j][k] * temp_fac);\n        Eloss = Eloss + 2 *")],
         needs="free carriers whose damping is not small against the frequency of the loss", breaks="the damping is compared with the frequency in different units, so the loss of strongly damped carriers is wrong",
         demo=C + '''
# the loss follows wp^2 g / (w^3 + w g^2) of the medium
def loss(g):
    e = grid((8, 8, 8), (4, 4, 4))
    a = 4.0e-7
    e("input_Drude_medium", "block", 0.0, 0.0, 0.0, 2.0, 2.0, 2.0, 1.0, 3.0e15, g, a)
    e("make_metal_structure")
    e("coefficient")
    for x in "xyz":
        e.put("E" + x, np.full(e.n(), 1.0e9))
    if os.path.exists("Drude_E_loss.en"):
        os.remove("Drude_E_loss.en")
    e("Drude_energy_loss_in_block2", 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 0.4, a)
    return float(open("Drude_E_loss.en").read().split()[1])


w = 0.4 * 2 * np.pi * 299792458 / 4.0e-7
f = lambda g: g / (w**3 + w * g**2)
x, y = loss(1.0e14), loss(2.0e15)
assert x > 0 and abs(y / x - f(2.0e15) / f(1.0e14)) < 1e-2 * (y / x), (x, y, f(2.0e15) / f(1.0e14))
'''),
    dict(id="b51", prop="C30", edits=[(D + "timeupdate.c", "          -Hx[i - Uxh][jsize][k] * sin_ph2 + iHx[i - Uxh][jsize][k] * cos_ph2;", "          -Hx[i - Uxh][jsize][k] * sin_ph1 + iHx[i - Uxh][jsize][k] * cos_ph2;")],
         needs="a triangular lattice with a Bloch phase along x as well as y", breaks="the imaginary part of Hx wraps around with the phase of the other half of the cell",
         demo=C + '''
def go(swap):
    e = grid((6, 6, 5), (2, 2, 2), bloch=(1, 1, 0.3, -0.2))
    e("coefficient")
    m = e.n()
    q = np.random.default_rng(2)
    for g, s in (("E", 1.0), ("H", np.sqrt(e.f("eo") / e.f("uo")))):
        for x in "xyz":
            v = (q.normal(size=m) + 1j * q.normal(size=m)) * s * (1j if swap else 1)
            e.put(g + x, v.real), e.put("i" + g + x, v.imag)
    for _ in range(3):
        e("propagate_tri")
    return np.array([e.get("E" + x) + 1j * e.get("iE" + x) for x in "xyz"])


a, b = go(0), go(1)
assert np.abs(1j * a - b)[:, 1:-1, 1:-1, 1:-1].max() < 1e-4 * np.abs(a).max()
'''),
    dict(id="b52", prop="C31", edits=[(D + "input.c", """    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
    object[objectn - 1].centerj = (centery + ycenter) * lattice_y;
    object[objectn - 1].centerk = (centerz);       // for non_uniform_grid()""", """    object[objectn - 1].centeri = (centerx + xcenter) * lattice_x;
    object[objectn - 1].centerj = (centery + ycenter) * lattice_x;
    object[objectn - 1].centerk = (centerz);       // for non_uniform_grid()""")],
         needs="a cone on a lattice with different spacings along x and y", breaks="the cone is centred with the spacing of the other axis and lands elsewhere",
         demo=C + '''
# a cone in the middle of the domain is symmetric about it
for lat in ((4, 4, 4), (4, 2, 4), (2, 4, 4)):
    e = grid([3 * l for l in lat], lat)
    e("input_object", "cone", "", 0.0, 0.0, 0.0, 0.6, 1.0, 2.0, 9.0)
    e("make_epsilon")
    a = e.get("epsilonz")
    n = [3 * l for l in lat]
    x = a[1 : n[0], 1 : n[1], n[2] // 2]
    assert x.max() > 2 and np.abs(x - x[::-1]).max() < 1e-3 and np.abs(x - x[:, ::-1]).max() < 1e-3, lat
'''),
    dict(id="b53", prop="C11", edits=[("openms/lib/boson.py", "            self.couplings_res[a] = 1.0 - self.couplings_var[a]", "            self.couplings_res[a] = 1.0 - self.couplings_var[0]")],
         needs="a photon object with several modes and different transformation strengths, used on its own", breaks="the residual coupling of every mode is that of the first",
         demo='''
from pyscf import gto
from openms.lib.boson import Photon
mol = gto.M(atom="H 0 0 0; F 0.3 0.2 0.9", basis="sto-3g", verbose=0)
w, v = np.array([0.3, 0.5]), np.array([[0.6, 0, 0.8], [0, 1.0, 0]])
f = np.array([0.2, 0.7])
dm = np.eye(mol.nao)
ph = Photon(mol, omega=w.copy(), vec=v.copy(), gfac=np.array([0.1, 0.2]), couplings_var=f.copy())
ph.get_gmatao()
j, k = ph.get_dse_jk(dm, residue=True)
ref = 0
for a in range(2):
    g = ph.gmat[a]
    ref = ref + (1 - f[a]) ** 2 * g * np.sum(g * dm)
assert np.abs(np.reshape(j, ref.shape) - ref).max() < 1e-10
'''),
    dict(id="b54", prop="C06", edits=[("openms/qmc/population_control.py", """        if (sort_walker_info[start]['weight'] < min_weight or
            sort_walker_info[end]['weight'] > max_weight):""", """        if (sort_walker_info[start]['weight'] < min_weight and
            sort_walker_info[end]['weight'] > max_weight):""")],
         needs="walkers on one side only of the weight bounds: nearly dead ones without a heavy one, or the reverse", breaks="such walkers are never merged, so weights drift out of the bounds",
         demo="""from openms.qmc.population_control import branching_dp0
for w in ([0.01, 0.02, 1.5, 1.9], [0.5, 0.9, 1.0, 7.0]):
    for s in range(10):
        np.random.seed(s)
        out, nw = branching_dp0([np.full(2, float(i)) for i in range(4)], np.array(w))
        assert min(nw) > 0.1 and max(nw) < 5, (w, nw)
"""),
    dict(id="b55", prop="C08", edits=[("openms/qmc/generic_walkers.py", """                "wi,wj->wij", boson_mode_phiw, backend.conj(boson_mode_phiw)
            )  # Shape: [nwalkers, mode_size, mode_size]""", """                "wi,wj->wij", boson_mode_phiw, boson_mode_phiw
            )  # Shape: [nwalkers, mode_size, mode_size]""")],
         needs="photon amplitudes with an imaginary part, as the phases of the walkers give them after some steps", breaks="the displacement of a mode is computed without the complex conjugate and drives the electrons with the wrong field",
         demo="""from types import SimpleNamespace as N
from openms.qmc import generic_walkers as g
cls = [c for c in vars(g).values() if isinstance(c, type) and hasattr(c, "get_boson_dm")][0]
r = np.random.default_rng(1)
phi = r.standard_normal((3, 7)) + 1j * r.standard_normal((3, 7))
wt = np.array([0.5, 1.0, 2.0])
tr = N(mol=N(nmodes=2, nboson_states=[3, 4]), verbose=0)
w = object.__new__(cls)
w.nwalkers, w.weights, w.verbose, w._mpi = 3, wt, 0, N(size=1)
Q = cls.get_boson_bdag_plus_b(w, tr, phi)
ref = []
for o, n in ((0, 3), (3, 4)):
    X = np.diag(np.sqrt(np.arange(1, n)), 1)
    X = X + X.T
    ref.append(sum(wt[z] * np.vdot(phi[z, o:o + n], X @ phi[z, o:o + n]) for z in range(3)) / wt.sum())
assert np.allclose(Q, ref), (Q, ref)
"""),
]
