"""planted bugs for C33 (see bugs4.py for the harness of the demonstrations)"""
import os
import runpy

C = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))["C"]
C += '''
def plane(cells, lat, pml=(0,) * 6, om=(0.7,)):
    e = Engine()
    ct.c_int.in_dll(e.d, "SpecN").value = len(om)
    e("structure_size", *[c / l for c, l in zip(cells, lat)])
    e("lattice_size", *lat)
    e("pml_size", *pml)
    e("set_default_parameter", 3.0)
    e("memory")
    e("background", 1.0)
    e("coefficient")
    e.om = (ct.c_float * len(om))(*om)
    e.d.far_field_param.argtypes = [ct.c_void_p, ct.c_float]
    return e


def table(name):
    return np.array([[float(x) for x in l.split()] for l in open(name)])


def P(e, name):
    p = P3.in_dll(e.d, name)
    n = e.n()
    return np.array([[p[i][j][0] for j in range(1, n[1] - 1)] for i in range(1, n[0] - 1)])


'''
F, O = "openms/lib/fdtd/farfield.c", "openms/lib/fdtd/output.c"
BUGS = [
    dict(id="b46", prop="C33", edits=[(F, "            grid_value(\"Hy\", i, j, k) *\n            sin(2 * pi * OMEGA[mm] * t / S_factor / ds_x / lattice_x);", "            grid_value(\"Hy\", i, j, k) *\n            sin(2 * pi * OMEGA[mm] * t / S_factor / ds_x / lattice_y);")],
         needs="different numbers of cells per period along x and y", breaks="the sine transform of Hy on the detection plane uses the wrong time unit, so the far field mixes two frequencies",
         demo=C + '''
e = plane((8, 6, 6), (4, 3, 2))
r = np.random.default_rng(1)
a = r.normal(size=e.n()) + 3
e.put("Hx", 0 * a + 1)
e.put("Hy", 0 * a + 1)
ct.c_long.in_dll(e.d, "t").value = 5
e.d.far_field_param(e.om, 0.0)
x, y = [(P(e, c + "_cos") + 1j * P(e, c + "_sin")) for c in ("Hx", "Hy")]
assert abs(x[3, 2]) > 0.1
assert abs(np.angle(x[3, 2]) - np.angle(y[3, 2])) < 1e-4, (np.angle(x[3, 2]), np.angle(y[3, 2]))
'''),
    dict(id="b47", prop="C33", edits=[(F, "          Nfree * Nfree * k * k)\n        ephi[i][j] = ", "          Nfree * k * k)\n        ephi[i][j] = ")],
         needs="a medium with a refractive index other than one and radiation close to the rim of its light cone", breaks="the azimuthal part of the far field is cut off inside the light cone of the medium",
         demo=C + '''
# total = polar + azimuthal intensity, in every direction
e = plane((8, 8, 8), (8, 4, 4))
N, k = 64, 3
r = np.random.default_rng(2)
for x in ("Ex", "Ey", "Hx", "Hy"):
    for p in ("real", "imag"):
        np.savetxt("%s_%s.ri00" % (x, p), r.normal(size=(N, N)) * (377 if x[0] == "E" else 1), delimiter="\\t")
om = (ct.c_float * 1)((k + 0.5) * 8 / N)
e.d.far_field_FFT.argtypes = [ct.c_int, ct.c_float, ct.c_float, ct.c_void_p, ct.c_int]
e.d.far_field_FFT(N, 1.0, 1.5, om, 0)
t, a, b = [table("rad_%s_.ri00" % n) for n in ("tot", "Et", "Ep")]
assert t.max() > 0
assert np.abs(t - a - b).max() < 1e-3 * t.max(), np.abs(t - a - b).max() / t.max()
'''),
    dict(id="b48", prop="C33", edits=[(O, "          (j >= pmljl && j <= jsize - pmljr)) {\n        fprintf(amp, \"%f\\t\",\n                sqrt(pow(Hx_cos[i][j][mm], 2)", "          (j >= pmljl && j <= jsize - pmljl)) {\n        fprintf(amp, \"%f\\t\",\n                sqrt(pow(Hx_cos[i][j][mm], 2)")],
         needs="absorbing layers of different thickness on the two sides along y", breaks="the amplitude map of Hx loses rows next to the thinner layer (or shows rows inside the thicker one)",
         demo=C + '''
e = plane((8, 14, 6), (2, 2, 2), (0, 0, 4, 1, 0, 0))
one = np.ones(e.n())
for c in ("Ex", "Ey", "Hx", "Hy"):
    e.put(c, one)
ct.c_long.in_dll(e.d, "t").value = 2
e.d.far_field_param(e.om, 0.0)
e("print_amp_and_phase", 0)
shown = {c: table("j%s_amp.ap00" % c) > 0 for c in ("Ex", "Ey", "Hx", "Hy")}
rows = {c: int(s[:, 4].sum()) for c, s in shown.items()}
assert rows["Ex"] > 4 and len(set(rows.values())) == 1, rows
'''),
]
