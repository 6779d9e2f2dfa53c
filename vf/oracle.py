"""Independent reference computations (no openms code)."""
import itertools

import numpy as np


# ---------------------------------------------------------------- Fock space
def occs(norb, n):
    return list(itertools.combinations(range(norb), n))


def det_vector(orbs):
    """orbs (norb, n) -> coefficients over C(norb, n) occupations"""
    norb, n = orbs.shape
    if n == 0:
        return np.ones(1, dtype=complex)
    return np.array([np.linalg.det(orbs[list(o), :]) for o in occs(norb, n)], dtype=complex)


def one_body_matrix(norb, n, f):
    """matrix of sum_pq f_pq a+_p a_q in the n-particle space (dense)"""
    basis = occs(norb, n)
    idx = {b: i for i, b in enumerate(basis)}
    m = np.zeros((len(basis), len(basis)), dtype=np.result_type(np.asarray(f).dtype, float))
    for j, b in enumerate(basis):
        for qi, q in enumerate(b):
            rest = b[:qi] + b[qi + 1:]
            s1 = (-1) ** qi
            for p in range(norb):
                if p in rest:
                    continue
                k = sum(1 for r in rest if r < p)
                new = rest[:k] + (p,) + rest[k:]
                m[idx[new], j] += s1 * (-1) ** k * f[p, q]
    return m


class ManyBody:
    """dense electronic operators on alpha x beta determinants"""

    def __init__(self, norb, na, nb):
        self.norb, self.na, self.nb = norb, na, nb
        self.da, self.db = len(occs(norb, na)), len(occs(norb, nb))
        self._E = None

    def onebody(self, fa, fb=None):
        fb = fa if fb is None else fb
        A = one_body_matrix(self.norb, self.na, np.asarray(fa))
        B = one_body_matrix(self.norb, self.nb, np.asarray(fb))
        return np.kron(A, np.eye(self.db)) + np.kron(np.eye(self.da), B)

    def hamiltonian(self, h, Ls, hb=None):
        """sum h_pq a+p aq + 1/2 sum_g sum L_pq L_rs a+p a+r as aq  (normal ordered)"""
        H = self.onebody(h, hb).astype(complex)
        for L in Ls:
            O = self.onebody(L)
            H = H + 0.5 * (O @ O - self.onebody(L @ L))
        return H

    def state(self, ca, cb):
        return np.kron(det_vector(ca), det_vector(cb))


# ---------------------------------------------------------------- bosons
def lower(n):
    return np.diag(np.sqrt(np.arange(1.0, n)), 1)


def site_op(op, i, dims):
    m = np.eye(1)
    for j, d in enumerate(dims):
        m = np.kron(m, op if j == i else np.eye(d))
    return m
