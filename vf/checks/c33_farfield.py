"""C33: spectra on a detection plane, their maps, and the far-field radiation pattern"""
import os

import numpy as np
from hypothesis import strategies as st

from vf import fdtd
from vf.checks.c30_fdtd import _CFG, grid_nodes, monitors, setup, size_of, table
from vf.core import Trivial, Violated, close, expect, law, rng
from vf.rig import fl, seeds
from vf.yee import AX

COMPS = ("Ex", "Ey", "Hx", "Hy")


def rows(a):
    """plane as it is written: the largest second coordinate first"""
    return a.T[::-1]


@law("C33", st.fixed_dictionaries(dict(_CFG, times=st.integers(1, 4), t0=st.integers(0, 100), freqs=st.lists(fl(0.05, 2, 3), min_size=1, max_size=3), at=fl(0, 0.999, 3), off=fl(-0.4, 0.4, 2), mm=st.integers(0, 2), wide=st.booleans(), pad=st.integers(0, 5))), quick=140, cost=0.2,
     rule="random fields at 1-4 times on whole, mirror-reduced and periodic uneven grids, a random detection plane and 1-3 frequencies: the accumulated cosine and sine transforms of the tangential fields, and the amplitude, phase, plain and padded maps written from them, against sums over the node averages; non-trivial when the plane carries a field")
def detected(c):
    def job(e):
        c["tri"] = False
        for a in c["ax"][:2]:
            if a["kind"] == "torus":
                a["kind"] = "wall"
            if c["wide"]:  # wide enough for the trimmed window
                a["n"] += 22 + a["pl"] + a["pr"]
        n = len(c["freqs"])
        e.num("SpecN", "i", n)
        d = setup(e, c)
        r = rng(c)
        e.real_space_param(400.0, 1.0)
        N = [a["n"] for a in d["ax"]]
        lat = [a["lat"] for a in d["ax"]]
        half_ = e.num("zcenter")
        top = N[2] - 1
        k = 1 + int(c["at"] * top)
        zk = grid_nodes(e.num("zsize") * lat[2], lat[2], [(a - d["z0"], b - d["z0"], mm) for a, b, mm in d["grid"]])
        z = float(np.interp(min(max(k + c["off"], 0), zk[-1][1]), [p[1] for p in zk], [p[0] for p in zk])) - half_
        if k >= N[2]:
            raise Trivial
        ref = {x: np.zeros((N[0], N[1], n), complex) for x in COMPS}
        size = {x: 0.0 for x in COMPS}
        om = np.array([np.float32(v) for v in c["freqs"]], dtype=float)
        t = c["t0"]
        S, dx = e.num("S_factor"), e.num("ds_x")
        for _ in range(c["times"]):
            t += 1 + int(r.integers(30))
            e.num("t", "l", t)
            f, im, m = monitors(e, d, dict(c, drude=False), r)
            for g in "EH":
                for x in AX:
                    e.write(g + x, e.read(g + x) * 1000)
            e.far_field_param([float(v) for v in om], z)
            for x in COMPS:
                a = 1000 * f[x][1 : N[0] - 1, 1 : N[1] - 1, k]
                size[x] += float(np.abs(a).max()) if a.size else 0.0
                ref[x][1 : N[0] - 1, 1 : N[1] - 1] += a[:, :, None] * np.exp(2j * np.pi * om * t / (S * dx * lat[0]))
        tol = 3e-5 + 4e-7 * 2 * np.pi * om.max() * t / (S * dx * lat[0])  # the engine's pi has seven digits
        for x in COMPS:
            if not size[x]:
                raise Trivial
            got = e.read(x + "_cos", (N[0], N[1], n)) + 1j * e.read(x + "_sin", (N[0], N[1], n))
            close(got / size[x], ref[x] / size[x], f"transform of {x} on the plane", tol, 0)
        mm = c["mm"] % n
        pl = [(d["ax"][i]["pl"], d["ax"][i]["pr"]) for i in (0, 1)]
        i, j = [np.arange(N[a]) for a in (0, 1)]
        seen = ((i >= pl[0][0]) & (i <= N[0] - pl[0][1]))[:, None] & ((j >= pl[1][0]) & (j <= N[1] - pl[1][1]))[None]
        e.print_amp_and_phase(mm)
        e.print_real_and_imag(mm)
        plane = {}
        for x in COMPS:
            s = size[x]
            v = np.where(seen, ref[x][:, :, mm], 0)[1:-1, 1:-1]
            plane[x] = v
            amp, ph = table(f"j{x}_amp.ap{mm:02d}"), table(f"j{x}_phase.ap{mm:02d}")
            close(amp / s, rows(np.abs(v)) / s, f"amplitude map of {x}", tol, 0)
            close(np.where(amp > 0, amp * np.exp(-1j * ph), 0) / s, rows(v) / s, f"phase map of {x}", 2 * tol, 0)
            got = table(f"t{x}_real.ri{mm:02d}") + 1j * table(f"t{x}_imag.ri{mm:02d}")
            close(got / s, rows(v) / s, f"real and imaginary maps of {x}", tol, 0)
        # the plain maps centred in a square of zeros
        size2 = max(N[0], N[1]) - 2 + c["pad"]
        e.make_2n_size(size2, mm)
        box = [(size2 - (N[a] - 2)) // 2 for a in (0, 1)]
        for x in COMPS:
            want = np.zeros((size2, size2), complex)
            want[box[0] : box[0] + N[0] - 2, box[1] : box[1] + N[1] - 2] = plane[x]
            for p, f in (("real", np.real), ("imag", np.imag)):
                got = np.array([float(v) for v in open(f"{x}_{p}.ri{mm:02d}").read().split()])
                expect(got.size == size2**2, f"enlarged map of {x} has {got.size} numbers instead of {size2 ** 2}")
                w = f(want).copy()
                alt = w.copy()  # the first row and column may be left out
                alt[box[0]], alt[:, box[1]] = 0, 0
                got = got.reshape(size2, size2)[::-1].T / size[x]
                if not (np.abs(got - w / size[x]).max() < tol or np.abs(got - alt / size[x]).max() < tol):
                    raise Violated(f"enlarged map of {x} ({p}): not the plane centred in zeros")
        if c["wide"]:  # the window without the layers and ten more cells, centred in a square of zeros
            first = [pl[a][0] + 10 for a in (0, 1)]
            shift = [(size2 - (N[a] - 2)) // 2 + (pl[a][0] + pl[a][1] + 20) // 2 for a in (0, 1)]
            e.print_real_and_imag_2n_size(size2, mm)
            for x in COMPS:
                want = np.zeros((size2, size2), complex)
                w = [size2 - 2 * shift[a] for a in (0, 1)]
                want[shift[0] : shift[0] + w[0], shift[1] : shift[1] + w[1]] = ref[x][first[0] : first[0] + w[0], first[1] : first[1] + w[1], mm]
                for p, f in (("real", np.real), ("imag", np.imag)):
                    close(table(f"{x}_{p}.ri{mm:02d}") / size[x], rows(f(want)) / size[x], f"window of {x} ({p})", tol, 0)
        return ",".join(a.kind for a in d["axes"]) + (",wide" if c["wide"] else "")

    return fdtd.run(job)


@law("C33", st.fixed_dictionaries(dict(size=st.sampled_from([32, 64, 64, 128]), lat=st.integers(3, 20), k=st.integers(1, 6), n=st.sampled_from([1.0, 1.0, 1.25, 1.33, 1.375, 1.5, 2.0]), mm=st.integers(0, 3), holes=st.booleans(), sparse=st.booleans(), seed=seeds)), quick=150, cost=0.08,
     rule="random complex tangential fields on a square plane, any refractive index and light-cone radius: far-field intensities in every direction (total, polar, azimuthal, both Cartesian components), radiated powers, and normalised momentum-space maps against an independent Fourier transform; non-trivial when the light cone holds more than its axis")
def radiation(c):
    n, k = float(np.float32(c["n"])), c["k"]
    while 10 * n * k > c["size"]:
        k -= 1
    if k < 1 or (c["n"] == 1.33 and k == 10):
        raise Trivial

    def job(e):
        N, lat, mm = c["size"], c["lat"], c["mm"]
        r = rng(c)
        e.structure_size(2.0, 2.0, 2.0)
        e.lattice_size(lat, lat, lat)
        e.set_default_parameter(2.0)
        om = [0.123] * mm + [(k + 0.5) * lat / N]
        F = {}
        for x in COMPS:
            a = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
            if c["sparse"]:
                a = np.where(r.random((N, N)) < 0.02, a, 0)
                a[N // 3, N // 5] = 1.0
            a *= 377.0 if x[0] == "E" else 1.0
            for p, part in (("real", a.real), ("imag", a.imag)):
                text = [["%.9g" % v for v in row] for row in rows(part)]
                if c["holes"]:  # undefined numbers count as zero
                    b = rows(part).copy()
                    for _ in range(3):
                        u, v = r.integers(N, size=2)
                        text[u][v], b[u, v] = "nan", 0.0
                    part = b[::-1].T
                open(f"{x}_{p}.ri{mm:02d}", "w").write("\n".join("\t".join(row) for row in text) + "\n")
                a = part + 1j * a.imag if p == "real" else a.real + 1j * part
            F[x] = np.fft.fftshift(np.fft.fft2(a)) / N**2
        e.far_field_FFT(N, 1.0, n, om, mm)
        h = int(5 * n * k)
        idx = (np.arange(-h, h + 1) + N // 2) % N
        F = {x: v[np.ix_(idx, idx)] for x, v in F.items()}
        u, v = np.meshgrid(np.arange(-h, h + 1), np.arange(-h, h + 1), indexing="ij")
        # momentum-space maps
        for g in "EH":
            I = np.abs(F[g + "x"]) ** 2 + np.abs(F[g + "y"]) ** 2
            got = table(f"FFT_{g}_int2_.ri{mm:02d}")
            expect(got.shape[0] >= 2 * h + 1 and got.shape[1] >= 2 * h + 1, f"momentum-space map of {g}: {got.shape}")
            close(got, rows(I / I.max()), f"momentum-space map of {g}", 3e-5, 0)
            log = table(f"FFT_{g}_log_.ri{mm:02d}")
            ok = rows(I / I.max()) > 1e-4
            close(log[ok], np.log10(rows(I / I.max())[ok]), f"logarithmic momentum-space map of {g}", 1e-2, 1e-3)
        R = n * k
        rho2 = u**2 + v**2
        cone = rho2 < R**2 - 1e-6
        rho = np.sqrt(np.where(rho2 == 0, 1, rho2))
        cp, sp = np.where(rho2 == 0, 2**-0.5, u / rho), np.where(rho2 == 0, 2**-0.5, v / rho)
        ct = np.sqrt(np.where(cone, 1 - rho2 / R**2, 1))
        eta = 377 / n
        Nx, Ny, Lx, Ly = -F["Hy"], F["Hx"], F["Ey"], -F["Ex"]
        th = (Nx * cp + Ny * sp) * ct + (-Lx * sp + Ly * cp) / eta
        ph = (-Nx * sp + Ny * cp) - (Lx * cp + Ly * sp) * ct / eta
        ex, ey = -ph * sp + th * ct * cp, ph * cp + th * ct * sp
        m = int(R)
        cut = slice(h - m + 1, h + m)
        want = dict(tot=np.abs(th) ** 2 + np.abs(ph) ** 2, Et=np.abs(th) ** 2, Ep=np.abs(ph) ** 2, Ex=np.abs(ex) ** 2, Ey=np.abs(ey) ** 2)
        scale = want["tot"][cone].max()
        if not scale:
            raise Trivial
        for name, w in want.items():
            got = table(f"rad_{name}_.ri{mm:02d}")
            close(got / scale, rows(np.where(cone, w, 0)[cut, cut]) / scale, f"far-field intensity {name}", 1e-4, 0)
        for name, w in (("tot", "tot"), ("the", "Et"), ("phi", "Ep")):
            p = (want[w] / ct)[cone].sum()
            got = float(open(f"P_{name}_.ri{mm:02d}").read())
            close(got / (scale * cone.sum()), p / (scale * cone.sum()), f"radiated power {name}", 1e-4, 1e-4)
        if m < 2:
            raise Trivial
        return f"N={N}"

    return fdtd.run(job)


@law("C33", st.fixed_dictionaries(dict(half=st.integers(2, 14), tnum=st.integers(8, 40), mm=st.integers(0, 9), nspec=st.integers(1, 4), name=st.sampled_from(["rad_tot_", "rad_Ex_", "a", "rad_pattern_"]), seed=seeds)), quick=150, cost=0.02,
     rule="random square direction maps of odd size: the map against the polar angle as radius, by interpolation between the four nearest directions, and its sum over frequencies; non-trivial when the drawn circle holds at least nine points")
def polar_map(c):
    def job(e):
        r = rng(c)
        e.structure_size(2.0, 2.0, 2.0)
        e.lattice_size(4, 4, 4)
        e.set_default_parameter(2.0)
        n, T = 2 * c["half"] + 1, c["tnum"]
        tot = np.zeros((T, T))
        tr = T // 2
        i, j = np.meshgrid(np.arange(T), np.arange(T), indexing="ij")
        rho = np.sqrt((i - tr) ** 2 + (j - tr) ** 2)
        theta = rho * np.pi / 2 / tr
        e.num("SpecN", "i", c["nspec"])
        todo = list(range(c["nspec"]))
        if c["mm"] not in todo:
            todo.append(c["mm"])
        for mm in todo:
            a = r.normal(size=(n, n))
            open(f"{c['name']}.ri{mm:02d}", "w").write("\n".join("\t".join("%.9g" % v for v in row) + "\t" for row in rows(a)) + "\n")
            e.transform_farfield(64, T, c["name"], mm)
            got = table(f"{c['name']}.sas{mm:02d}")[::-1].T
            safe = np.where(rho == 0, 1, rho)
            p, q = [c["half"] * np.sin(np.minimum(theta, np.pi / 2)) * (x - tr) / safe + c["half"] for x in (i, j)]
            fp, fq = np.minimum(np.floor(p).astype(int), n - 2), np.minimum(np.floor(q).astype(int), n - 2)
            u, v = p - fp, q - fq
            want = (a[fp, fq] * (1 - u) + a[fp + 1, fq] * u) * (1 - v) + (a[fp, fq + 1] * (1 - u) + a[fp + 1, fq + 1] * u) * v
            want = np.where(theta < 0.02, a[c["half"], c["half"]], want)
            want = np.where(rho**2 > (tr - 1) ** 2 + 0.1, 0, want)
            expect(got.shape == (T, T), f"map of {got.shape} points instead of {T}")
            close(got, want, "direction map", 1e-4, 0)
            if mm < c["nspec"]:
                tot += want
        e.add_farfield(T, c["name"])
        close(table(c["name"] + "sum.sas")[::-1].T, tot, "sum of the direction maps", 3e-4, 0)
        if tr < 3:
            raise Trivial
        return f"T={T}"

    return fdtd.run(job)
