"""Plain reference implementation of the documented phaseless AFQMC step, and
injection of auxiliary fields into the real code."""
import contextlib

import numpy as np
import scipy.linalg as sl

from .core import Unavailable


@contextlib.contextmanager
def inject(values):
    """hand the given numbers, in order, to every normal deviate drawn from numpy"""
    q = np.asarray(values, float).ravel()
    pos = [0]
    saved = {k: getattr(np.random, k) for k in ("normal", "standard_normal", "randn")}

    def take(n):
        n = int(np.prod(n)) if n is not None else 1
        if pos[0] + n > q.size:
            raise Unavailable("more normal deviates drawn than fields injected")
        out = q[pos[0]: pos[0] + n].copy()
        pos[0] += n
        return out

    def normal(loc=0.0, scale=1.0, size=None):
        v = take(size)
        v = loc + scale * (v.reshape(size) if size is not None else v[0])
        return v

    def standard_normal(size=None):
        return normal(0.0, 1.0, size)

    def randn(*s):
        return normal(0.0, 1.0, s if s else None)

    np.random.normal, np.random.standard_normal, np.random.randn = normal, standard_normal, randn
    try:
        yield pos
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)
    if pos[0] != q.size:
        raise Unavailable(f"{pos[0]} of {q.size} injected fields used")


def gf(T, W):
    return (W @ np.linalg.inv(T.conj().T @ W) @ T.conj().T).T


class Ref:
    def __init__(self, h, L, psia, psib, dt, bound=1.0, enuc=0.0, hb=None):
        self.hb = h if hb is None else hb
        self.h, self.L, self.ta, self.tb, self.dt, self.bound, self.enuc = h, L, psia, psib, dt, bound, enuc
        rho = psia @ psia.conj().T + psib @ psib.conj().T
        # <L> of the trial: the real code contracts L_pq rho_pq
        self.mf = np.einsum("npq,pq->n", L, rho)
        self.T = h - 0.5 * np.einsum("npr,nrq->pq", L, L) + np.einsum("n,npq->pq", self.mf, L)
        self.eT = sl.expm(-0.5 * dt * self.T)
        self.eTb = sl.expm(-0.5 * dt * (self.T + self.hb - h))
        self.ebound = np.sqrt(2.0 / dt)
        self.opnorm = 0.0
        self.clipped = self.biased = self.killed = 0

    def ovlp(self, a, b):
        return np.linalg.det(self.ta.conj().T @ a) * np.linalg.det(self.tb.conj().T @ b)

    def eloc(self, a, b):
        Ga, Gb = gf(self.ta, a), gf(self.tb, b)
        e = np.sum(self.h * Ga) + np.sum(self.hb * Gb)
        for L in self.L:
            e = e + 0.5 * (np.sum(L * (Ga + Gb)) ** 2)
            for G in (Ga, Gb):
                e = e - 0.5 * np.sum((L.T @ G) * (L.T @ G).T)
        return e + self.enuc

    def step(self, a, b, w, eprev, eshift, xi):
        """one walker, one step -> a, b, w, ehybrid (complex, real part bounded), overlap"""
        dt = self.dt
        o0 = self.ovlp(a, b)
        G = gf(self.ta, a) + gf(self.tb, b)
        v = np.einsum("npq,pq->n", self.L, G)
        F = -1j * np.sqrt(dt) * (v - self.mf)
        m = abs(F)
        big = m > self.bound
        self.biased += int(big.sum())
        F = np.where(big, F / np.where(m > 0, m, 1) * self.bound, F)
        x = xi - F
        A = 1j * np.sqrt(dt) * np.einsum("n,npq->pq", x, self.L)
        self.opnorm = max(self.opnorm, np.linalg.norm(A, 2))
        X = sl.expm(A)
        a, b = self.eT @ X @ self.eT @ a, self.eTb @ X @ self.eTb @ b
        o1 = self.ovlp(a, b)
        lnI = np.sum(xi * F - 0.5 * F * F)
        lnM = -1j * np.sqrt(dt) * np.sum(x * self.mf)
        R = o1 / o0
        eh = -(np.log(R) + lnI + lnM) / dt
        er = min(max(eh.real, np.real(eshift) - self.ebound), np.real(eshift) + self.ebound)
        self.clipped += er != eh.real
        c = np.cos(np.angle(R * np.exp(1j * lnM.imag)))
        self.killed += c <= 0
        w = w * np.exp(-dt * (0.5 * (er + np.real(eprev)) - np.real(eshift))) * max(0.0, c)
        return a, b, w, er + 1j * eh.imag, o1


def taylor_tol(opnorm, order):
    """bound on the relative error of a truncated exponential"""
    t, s = 1.0, 0.0
    for k in range(1, order + 40):
        t *= opnorm / k
        if k > order:
            s += t
    return s
