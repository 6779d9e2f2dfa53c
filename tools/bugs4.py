C = '''
import ctypes as ct, glob, subprocess, tempfile, shutil, atexit
W = tempfile.mkdtemp(); atexit.register(shutil.rmtree, W, True)
os.makedirs(W + "/gsl")
open(W + "/gsl/gsl_rng.h", "w").write("""#ifndef A_R
#define A_R
#include <stdlib.h>
typedef struct { int u; } gsl_rng_type; typedef struct { unsigned long s; } gsl_rng;
static const gsl_rng_type a_t = {0}; static const gsl_rng_type *const a_d = &a_t;
#define gsl_rng_default a_d
static inline const gsl_rng_type *gsl_rng_env_setup(void) { return a_d; }
static inline gsl_rng *gsl_rng_alloc(const gsl_rng_type *t) { return (gsl_rng *)calloc(1, sizeof(gsl_rng)); }
static inline void gsl_rng_set(gsl_rng *r, unsigned long s) { r->s = s; }
static inline double gsl_rng_uniform(gsl_rng *r) { r->s = r->s * 6364136223846793005UL + 1442695040888963407UL; return (double)(r->s >> 11) / 9007199254740992.0; }
#endif
""")
open(W + "/gsl/gsl_randist.h", "w").write("""#ifndef A_D
#define A_D
#include "gsl_rng.h"
#include <math.h>
static inline double gsl_ran_gaussian(gsl_rng *r, double s) { double u = gsl_rng_uniform(r) + 1e-300, v = gsl_rng_uniform(r); return s * sqrt(-2.0 * log(u)) * cos(6.283185307179586 * v); }
#endif
""")
src = [f for f in glob.glob(os.getcwd() + "/openms/lib/fdtd/*.c") if not f.endswith("_wrap.c")]
subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-std=gnu11", "-fcommon", "-I", W, "-o", W + "/f.so", *src, "-lm"], check=True)
os.chdir(W)
P3 = ct.POINTER(ct.POINTER(ct.POINTER(ct.c_float)))
count = [0]


class Engine:
    """a fresh copy of the engine (its state is global); floats are passed as C floats, ints as ints"""

    def __init__(self):
        count[0] += 1
        so = W + "/f%d.so" % count[0]
        shutil.copy(W + "/f.so", so)
        self.d = ct.CDLL(so)

    def __call__(self, name, *a, ret=None):
        f = getattr(self.d, name)
        f.restype = ret
        conv = [x.encode() if isinstance(x, str) else ct.c_long(x[0]) if isinstance(x, list) else ct.c_float(x) if isinstance(x, float) else int(x) for x in a]
        f.argtypes = [ct.c_char_p if isinstance(x, bytes) else ct.c_float if isinstance(x, ct.c_float) else ct.c_long if isinstance(x, ct.c_long) else ct.c_int for x in conv]
        return f(*conv)

    def f(self, n):
        return ct.c_float.in_dll(self.d, n).value

    def n(self):
        return tuple(ct.c_int.in_dll(self.d, x).value for x in ("misize", "mjsize", "mksize"))

    def get(self, name):
        p, n = P3.in_dll(self.d, name), self.n()
        return np.array([[np.ctypeslib.as_array(p[i][j], (n[2],)) for j in range(n[1])] for i in range(n[0])], dtype=float)

    def put(self, name, a):
        p, n = P3.in_dll(self.d, name), self.n()
        for i in range(n[0]):
            for j in range(n[1]):
                np.ctypeslib.as_array(p[i][j], (n[2],))[:] = np.asarray(a)[i, j]


def grid(cells, lat, pml=(0,) * 6, S=3.0, parity=None, bloch=None, fine=()):
    e = Engine()
    e("structure_size", *[c / l for c, l in zip(cells, lat)])
    e("lattice_size", *lat)
    for g in fine:
        e("non_uniform_grid", "z", *g)
    e("pml_size", *pml)
    e("set_default_parameter", S)
    if parity:
        e("Hz_parity", *parity)
    if bloch:
        e("periodic_boundary", *bloch)
    e("memory")
    e("background", 1.0)
    return e


'''
T = "openms/lib/fdtd/timeupdate.c"
BUGS = [
    dict(id="b37", prop="C30", edits=[(T, "          kky[j] = ky + dt * sigmay(j) / 2 / eo;", "          kky[j] = ky + dt * sigmay(j + 0.5) / 2 / eo;")],
         needs="absorbing layers along y with a field inside them", breaks="one coefficient of the absorbing layer along y is taken half a cell away, so the layer is no longer matched along y",
         demo=C + '''
# rotating the three axes into each other must rotate the field
r = np.random.default_rng(0)
n = (12, 12, 12)
init = {g + str(a): r.normal(size=n) for g in "EH" for a in range(3)}


def go(shift):
    e = grid(n, (4, 4, 4), (3,) * 6)
    e("coefficient")
    adm = np.sqrt(e.f("eo") / e.f("uo"))
    for g in "EH":
        for a in range(3):
            v = np.zeros(n)
            v[1:-1, 1:-1, 1:-1] = np.transpose(init[g + str(a)], np.argsort([(b + shift) % 3 for b in range(3)]))[1:-1, 1:-1, 1:-1]
            e.put(g + "xyz"[(a + shift) % 3], v * (adm if g == "H" else 1))
    for _ in range(6):
        e("propagate")
    return {g + str(a): np.transpose(e.get(g + "xyz"[(a + shift) % 3]), [(b + shift) % 3 for b in range(3)]) / (adm if g == "H" else 1) for g in "EH" for a in range(3)}


a = go(0)
for s in (1, 2):
    b = go(s)
    for k in a:
        assert np.abs(a[k] - b[k]).max() < 1e-4, (s, k, np.abs(a[k] - b[k]).max())
'''),
    dict(id="b38", prop="C30", edits=[(T, """  iJy[i][j][k] = km * iJy[i][j][k] + bm * (iEy[i][j][k] + iEy_temp);
""", """  iJy[i][j][k] = km * iJy[i][j][k] + bm * (iEy[i][j][k] + iEx_temp);
""")],
         needs="free-carrier cells in a periodic cell with a Bloch phase, so that fields are complex", breaks="the imaginary part of the y current is driven by the previous x field",
         demo=C + '''
# multiplying a complex field by i must commute with propagation
r = np.random.default_rng(1)
n = (6, 5, 7)


def go(swap):
    e = grid(n, (2, 2, 2), bloch=(1, 1, 0.3, -0.2))
    m = e.n()
    e.put("mepsilon", np.where(np.indices(m).sum(0) % 3 == 0, 2.0, 0))
    e.put("momega", np.full(m, 0.8 / e.f("dt")))
    e.put("mgamma", np.full(m, 0.2 / e.f("dt")))
    e("coefficient")
    q = np.random.default_rng(2)
    for g, s in (("E", 1.0), ("H", np.sqrt(e.f("eo") / e.f("uo")))):
        for x in "xyz":
            v = (q.normal(size=m) + 1j * q.normal(size=m)) * s * (1j if swap else 1)
            e.put(g + x, v.real), e.put("i" + g + x, v.imag)
    for _ in range(3):
        e("propagate")
    return np.array([e.get("E" + x) + 1j * e.get("iE" + x) for x in "xyz"])


a, b = go(0), go(1)
assert np.abs(1j * a - b)[:, 1:-1, 1:-1, 1:-1].max() < 1e-4 * np.abs(a).max()
'''),
    dict(id="b39", prop="C30", edits=[(T, """      for (i = 1; i < pisize; i++) {
        Hz[i][cjsize][k] = -Hz[i][cjsize - 1][k];
        Hx[i][cjsize][k] = -Hx[i][cjsize - 1][k];
      }
  }

  if (zparity == 1) {
    for (i = 1; i < pisize; i++)
      for (j = 1; j < pjsize; j++) {
        Hx[i][j][cksize] = Hx[i][j][cksize - 1];""", """      for (i = 1; i < pisize; i++) {
        Hz[i][cjsize][k] = -Hz[i][cjsize - 1][k];
        Hx[i][cjsize][k] = -Hx[i][cjsize][k - 1];
      }
  }

  if (zparity == 1) {
    for (i = 1; i < pisize; i++)
      for (j = 1; j < pjsize; j++) {
        Hx[i][j][cksize] = Hx[i][j][cksize - 1];""")],
         needs="the domain halved by an odd mirror along y", breaks="the x component of H beyond an odd y mirror is copied from the wrong neighbour, so the halved domain no longer reproduces the whole one",
         demo=C + '''
# a field even about the middle of y in the whole domain, and in the halved one
n = (10, 20, 10)


def fields(full):
    e = grid(n, (2, 2, 2), parity=None if full else (0, -1, 0))
    e("coefficient")
    for t in range(6):
        v = e.get("Ez")
        v[4, 9, 5] += np.cos(t)
        if v.shape[1] > 11:
            v[4, 11, 5] += np.cos(t)
        else:
            v[4, 10, 5] += 0
        e.put("Ez", v)
        e("propagate")
    return e


w, h = fields(True), fields(False)
s = np.abs(w.get("Ez")).max()
for c in ("Ex", "Ey", "Ez"):
    d = w.get(c)[:, :10] - h.get(c)[:, :10]
    assert np.abs(d).max() < 1e-4 * s, (c, np.abs(d).max() / s)
'''),
    dict(id="b40", prop="C31", edits=[("openms/lib/fdtd/input.c", """      epsilon = object[n].epsilon;
      for (m = 0; m < 1000; m++)
        partial_epsilon[m] = object[n].epsilon;
      partial = 0;""", """      epsilon = object[n].epsilon;
      partial = 0;""")],
         needs="an object whose surface cuts a cell lying wholly inside an earlier object", breaks="the surface cell is averaged with the background instead of with the object underneath",
         demo=C + '''
e = grid((10, 6, 6), (2, 2, 2))
e("input_object", "block", "", 0.0, 0.0, 0.0, 6.0, 4.0, 4.0, 9.0)
e("input_object", "block", "", -0.9, 0.0, 0.0, 2.0, 4.0, 4.0, 5.0)
e("make_epsilon")
a = e.get("epsilony")[:, 2, 3]
assert a.min() > 4.9, a
'''),
    dict(id="b41", prop="C31", edits=[("openms/lib/fdtd/parameter.c", """      return (((float)(non_uniform_z_to_i(ngrid[n].nz_start) - base_grid[n])) /
                  ((float)lattice_z) +""", """      return (((float)(non_uniform_z_to_i(ngrid[n].nz_start) - base_grid[0])) /
                  ((float)lattice_z) +""")],
         needs="at least two refined intervals along z and a conversion of a cell index inside the second one", breaks="the position of cells in the second refined interval is counted from the start of the domain",
         demo=C + '''
e = grid((4, 4, 12), (2, 2, 2), fine=[(-2.0, -1.0, 6), (1.0, 2.0, 4)])
z = [e("non_uniform_i_to_z", k, ret=ct.c_float) for k in range(e.n()[2])]
assert np.all(np.diff(z) > 0) and np.all(np.diff(z) < 0.51), z
'''),
    dict(id="b42", prop="C31", edits=[("openms/lib/fdtd/metalobj.c", """            me = mobject[n].epsilon_b;
            mw = mobject[n].omega_p;
            mr = mobject[n].gamma_0;
          }""", """            me = mobject[n].epsilon_b;
            if (me != 0.0) {
              mw = mobject[n].omega_p;
              mr = mobject[n].gamma_0;
            }
          }""")],
         needs="an eraser laid over a free-carrier object", breaks="erased cells keep the plasma frequency and damping of the erased object",
         demo=C + '''
e = grid((8, 8, 8), (2, 2, 2))
e("input_Drude_medium", "block", 0.0, 0.0, 0.0, 9.0, 9.0, 9.0, 3.0, 2e15, 1e13, 4e-7)
e("input_Drude_medium", "block", 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 4e-7)
e("make_metal_structure")
hole = e.get("mepsilon") == 0
assert hole.any() and not e.get("momega")[hole].any() and not e.get("mgamma")[hole].any()
'''),
    dict(id="b43", prop="C32", edits=[("openms/lib/fdtd/energy.c", """      DnStripXn +=
          (ds_y * ds_nz[k]) * grid_value("Sx", pmlil + 0.2 * lattice_x, j, k);""", """      DnStripXn +=
          (ds_y * ds_nz[k]) * grid_value("Sx", pmlir + 0.2 * lattice_x, j, k);""")],
         needs="absorbing layers of different thickness on the two sides along x and a flux through the lower strip", breaks="the inward flux through the lower strip is taken inside the layer or domain rather than at its edge",
         demo=C + '''
e = grid((20, 14, 14), (5, 5, 5), (3, 1, 2, 2, 2, 2))
m = e.n()
i = np.indices(m)
e.put("Ey", 1.0 + i[0] * 1.0), e.put("Hz", np.ones(m))
e("Poynting_UpDown", 0.2, 0.0)
q = lambda i, j, k: e("grid_value", "Sx", i, j, k, ret=ct.c_float)
lo = 3 + 1
want = sum(q(20 - 2 - 1 - 1, j, k) - q(lo, j, k) for j in range(4, 14 - 2 - 2) for k in range(4, e("non_uniform_z_to_i", -0.2, ret=ct.c_int) + 1)) * e.f("ds_y") * e.f("ds_z")
got = e.f("SumLower")
assert abs(got - want) < 1e-3 * abs(want), (got, want)
'''),
    dict(id="b44", prop="C32", edits=[("openms/lib/fdtd/output.c", """  if (pjsize <= j && (yparity == 1 || yparity == -1)) {
    j = jsize - j;
    p = p * (-yparity);
  }
  if (pksize <= k && (zparity == 1 || zparity == -1)) {
    k = ksize - k;
    p = p * zparity;
  }

  return p *
         (iHy[i][j][k] + iHy[i][j][k - 1] + iHy[i - 1][j][k] +""", """  if (pjsize <= j && (yparity == 1 || yparity == -1)) {
    j = jsize - j;
    p = p * yparity;
  }
  if (pksize <= k && (zparity == 1 || zparity == -1)) {
    k = ksize - k;
    p = p * zparity;
  }

  return p *
         (iHy[i][j][k] + iHy[i][j][k - 1] + iHy[i - 1][j][k] +""")],
         needs="a domain halved by a y mirror and repeated along x with a Bloch phase, output of repeated cells", breaks="the imaginary Hy is mirrored with the wrong sign, so repeated cells are wrong in the reflected half",
         demo=C + '''
e = grid((6, 8, 6), (2, 2, 2), parity=(0, 1, 0), bloch=(1, 0, 0.25, 0.0))
m = e.n()
r = np.random.default_rng(0)
e.put("iHy", r.normal(size=m) * np.ones(m))
v = lambda j, h: e("grid_value_periodic_x", "Hy", 3, j, 3, h, ret=ct.c_float)
# Hy is odd under an even y mirror, whatever the copy
for j in (1, 2, 3):
    assert abs(v(j, 1)) > 1e-3 and abs(v(j, 1) + v(8 - j, 1)) < 1e-5, (j, v(j, 1), v(8 - j, 1))
'''),
    dict(id="b45", prop="C32", edits=[("openms/lib/fdtd/source.c", """  zo = pi * wo * wo * frequency * n;
  ic = floor(0.5 + ((x + xcenter) * lattice_x));
  jc = floor(0.5 + ((y + ycenter) * lattice_y));
  ////////////////////////////////////
  /// some parameters which depend only on 'z'
  eta_z = atan((z_c - z) / zo);
  w_z = wo * sqrt(1 + ((z_c - z) / zo) * ((z_c - z) / zo));
  R_z = (z_c - z) * (1 + (zo / (z_c - z)) * (zo / (z_c - z)));

  /*//////////////////////////////////
  amp = (wo/w_z)*exp[ -r^2 / w_z^2 ]
  phase = kz - eta_z + r^2 * k / (2 R_z)
  For further details, see Yariv's book.
  ////////////////////////////////// */

  for (i = 0; i <= pisize; i++)
    for (j = 0; j <= pjsize; j++) {
      r2 = (i - ic) * (i - ic) / ((float)(lattice_x * lattice_x)) +
           (j - jc) * (j - jc) / ((float)(lattice_y * lattice_y));
      amp = (wo / w_z) * exp(-r2 / (w_z * w_z));
      phase = -(2 * pi * (z_c - z) * frequency * n - eta_z +
                r2 * 2 * pi * frequency * n / (2 * R_z));
      Lorentzian_dipole""", """  zo = pi * wo * wo * frequency * n;
  ic = floor(0.5 + ((x + xcenter) * lattice_x));
  jc = floor(0.5 + ((y + ycenter) * lattice_y));
  ////////////////////////////////////
  /// some parameters which depend only on 'z'
  eta_z = atan((z_c - z) / zo);
  w_z = wo * sqrt(1 + ((z_c - z) / zo) * ((z_c - z) / zo));
  R_z = (z_c - z) * (1 + (zo / (z_c - z)) * (zo / (z_c - z)));

  /*//////////////////////////////////
  amp = (wo/w_z)*exp[ -r^2 / w_z^2 ]
  phase = kz - eta_z + r^2 * k / (2 R_z)
  For further details, see Yariv's book.
  ////////////////////////////////// */

  for (i = 0; i <= pisize; i++)
    for (j = 0; j <= pjsize; j++) {
      r2 = (i - ic) * (i - ic) / ((float)(lattice_x * lattice_x)) +
           (j - jc) * (j - jc) / ((float)(lattice_x * lattice_y));
      amp = (wo / w_z) * exp(-r2 / (w_z * w_z));
      phase = -(2 * pi * (z_c - z) * frequency * n - eta_z +
                r2 * 2 * pi * frequency * n / (2 * R_z));
      Lorentzian_dipole""")],
         needs="a focused beam with an exponential envelope on a lattice with different spacings along x and y", breaks="the beam profile along y is measured with the wrong spacing and is no longer round",
         demo=C + '''
e = grid((16, 24, 8), (2, 3, 2))
e("Gaussian_beam_prop_Lorentz", "Ez", "Ez", 0.0, 0.0, 0.0, 1.0, 1.5, 1.0, 0.5, [0], [10])
a = e.get("Ez").sum(2)
# two cells along x and three along y are the same distance
c = a[8, 12]
assert abs(a[10, 12] - a[8, 15]) < 1e-4 * abs(c), (a[10, 12], a[8, 15], c)
'''),
]
