"""Reference for the time-domain Maxwell engine, in double precision and natural units
(E, Z0*H, D/eps0, c*B, J*dt/eps0; the vacuum step is 1/S).  One description covers every
boundary: a reduced (mirror-symmetric) domain is unfolded into the whole one, a periodic
axis is a torus with a Bloch phase."""
import numpy as np

E3, H3 = ("Ex", "Ey", "Ez"), ("Hx", "Hy", "Hz")
AX = "xyz"
FREE, MOL, DRUDE, WALL, STILL, PML = range(6)


def half(comp, axis):
    """is the component sampled at half-integer positions of the axis?"""
    return (AX[axis] == comp[1]) == (comp[0] == "E")


def mirror_sign(comp, axis, parity):
    return parity if ((AX[axis] == comp[1]) == (comp[0] == "E")) else -parity


# sign convention: Hz_parity=+1 leaves the components of H parallel to the mirror even
def sign(comp, axis, parity):
    along = AX[axis] == comp[1]
    if comp[0] == "H":
        return -parity if along else parity
    return parity if along else -parity


class Axis:
    """one axis of the domain seen by the reference
    kind: wall, mirror, torus; n: points kept by the engine (wall: nodes 0..n-1; mirror: c, where the
    engine keeps 0..c+1; torus: nodes 1..n)"""

    def __init__(self, kind, n, axis, parity=0, turn=0.0):
        self.kind, self.axis, self.parity, self.turn = kind, axis, parity, turn
        self.n = n
        self.N = {"wall": n, "mirror": 2 * n + 1, "torus": n}[kind]

    def unfold(self, a, h, s=1):
        """array of the engine -> array of the whole axis (h: half-integer sampling)"""
        a = np.moveaxis(a, self.axis, 0)
        if self.kind == "wall":
            out = a[: self.N]
        elif self.kind == "torus":
            out = a[1 : self.n + 1]
        else:
            c = self.n
            if h:
                left = a[:c]  # half positions 0..c-1 mirror to 2c-1-i
                out = np.concatenate([left, s * left[::-1], 0 * left[:1]])
            else:
                left = a[: c + 1]
                out = np.concatenate([left, s * left[:-1][::-1]])
        return np.moveaxis(np.ascontiguousarray(out), 0, self.axis)

    def fold(self, a, h):
        """part of the whole axis that the engine updates"""
        a = np.moveaxis(a, self.axis, 0)
        if self.kind == "wall":
            out = a[1 : self.N - 1]
        elif self.kind == "torus":
            out = a
        else:
            out = a[1 : self.n] if h else a[1 : self.n + 1]
        return np.moveaxis(out, 0, self.axis)

    def part(self, a, h):
        """the same part of an engine array"""
        a = np.moveaxis(a, self.axis, 0)
        if self.kind == "wall":
            out = a[1 : self.n - 1]
        elif self.kind == "torus":
            out = a[1 : self.n + 1]
        else:
            out = a[1 : self.n] if h else a[1 : self.n + 1]
        return np.moveaxis(out, 0, self.axis)

    def live(self, h):
        m = np.ones(self.N, bool)
        if self.kind == "wall":
            m[[0, -1]] = False
        elif self.kind == "mirror":
            m[0] = m[-1] = False
            if h:
                m[2 * self.n - 1] = False
        return m


class Yee:
    """axes: 3 Axis; ds: (dx, dy, dz array of the whole axis); S: inverse vacuum step;
    kind[c], eps[E], sig[axis] = (integer, half) conductivity*dt/eps0; kappa; drude[E] = (epsb, wdt, gdt)"""

    def __init__(self, axes, ds, S, kind, eps, sig, kappa, drude, pol=None, tri=None):
        self.axes, self.S, self.kind, self.eps, self.sig, self.kappa, self.drude, self.pol, self.tri = axes, S, kind, eps, sig, kappa, drude, pol, tri
        dz = np.asarray(ds[2], float)
        self.h = [(ds[0], ds[0]), (ds[1], ds[1]), (np.r_[dz[0], (dz[:-1] + dz[1:]) / 2], dz)]
        shape = tuple(a.N for a in axes)
        self.shape = shape
        self.mask = {}
        for c in E3 + H3:
            m = np.ones(shape, bool)
            for a in range(3):
                v = axes[a].live(half(c, a))
                m &= v.reshape([-1 if b == a else 1 for b in range(3)])
            self.mask[c] = m
        self.f = {c: np.zeros(shape, complex) for c in E3 + H3}
        self.aux = {c: np.zeros(shape, complex) for c in E3 + H3}
        self.J = {c: np.zeros(shape, complex) for c in E3}

    def diff(self, f, axis, forward):
        ax = self.axes[axis]
        g = np.roll(f, -1 if forward else 1, axis)
        edge = [slice(None)] * 3
        edge[axis] = -1 if forward else 0
        edge = tuple(edge)
        if ax.kind != "torus":
            g[edge] = 0
        elif axis == 1 and self.tri is not None:
            kx, ky = self.tri
            n, u = ax_n(self.axes[0]), ax_n(self.axes[0]) // 2
            src = f[:, 0 if forward else -1, :]
            out = np.zeros_like(src)
            for i in range(n):  # f(r + a2) = exp(2 pi i (kx/2+ky)) f(r), a2 = (n/2, ny)
                if forward:
                    j, wrap = (i - u, 0) if i - u >= 0 else (i - u + n, -1)
                    out[i] = src[j] * np.exp(2j * np.pi * (0.5 * kx + ky + wrap * kx))
                else:
                    j, wrap = (i + u, 0) if i + u < n else (i + u - n, 1)
                    out[i] = src[j] * np.exp(-2j * np.pi * (0.5 * kx + ky - wrap * kx))
            g[edge] = out
        else:
            g[edge] *= np.exp((2j if forward else -2j) * np.pi * ax.turn)
        d = (g - f) if forward else (f - g)
        w = self.h[axis][1 if forward else 0]
        return d / (w if np.ndim(w) == 0 else w.reshape([-1 if b == axis else 1 for b in range(3)]))

    def curl(self, letter, a, forward):
        b, c = (a + 1) % 3, (a + 2) % 3
        return self.diff(self.f[letter + AX[c]], b, forward) - self.diff(self.f[letter + AX[b]], c, forward)

    def row(self, axis, h):
        return np.asarray(self.sig[axis][1 if h else 0]).reshape([-1 if b == axis else 1 for b in range(3)])

    def update(self, letter):
        dirn = 1 if letter == "E" else -1
        new, aux, J = {}, {}, {}
        for a in range(3):
            c = letter + AX[a]
            f, k = self.f[c], self.kind[c]
            rot = dirn * self.curl("H" if letter == "E" else "E", a, letter == "H") / self.S
            e = self.eps[c] if letter == "E" else 1.0
            out = f + rot / e
            # absorbing layer: D (B) with the conductivity of the next axis, E (H) with those of the other two
            b, d = (a + 1) % 3, (a + 2) % 3
            kb, kd, ka = self.kappa[b], self.kappa[d], self.kappa[a]
            sb, sd, sa = self.row(b, half(c, b)), self.row(d, half(c, d)), self.row(a, half(c, a))
            Dn = ((2 * kb - sb) * self.aux[c] + 2 * rot) / (2 * kb + sb)
            layer = ((2 * kd - sd) * f + 2 / e * ((ka + sa / 2) * Dn - (ka - sa / 2) * self.aux[c])) / (2 * kd + sd)
            out = np.where(k == PML, layer, out)
            aux[c] = np.where((k == PML) & self.mask[c], Dn, self.aux[c])
            if letter == "E":
                if self.pol is not None:
                    out = np.where(k == MOL, f + (rot - self.pol[c]) / e, out)
                eb, w, g = self.drude[c]
                # trapezoidal: eb (E1-E0) = rot - (J0+J1)/2 ; J1-J0 = -g (J0+J1)/2 + w^2 (E0+E1)/2
                km, bm = (2 - g) / (2 + g), w**2 / (2 + g)
                E1 = ((2 * eb - bm) * f + 2 * rot - (1 + km) * self.J[c]) / (2 * eb + bm)
                J1 = km * self.J[c] + bm * (E1 + f)
                out = np.where(k == DRUDE, E1, out)
                J[c] = np.where((k == DRUDE) & self.mask[c], J1, self.J[c])
            out = np.where(k == WALL, 0, out)
            out = np.where(k == STILL, f, out)
            new[c] = np.where(self.mask[c], out, f)
        self.f.update(new)
        self.aux.update(aux)
        self.J.update(J)

    def step(self):
        self.update("E")
        self.update("H")


def ax_n(a):
    return a.N
