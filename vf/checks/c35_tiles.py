"""C35: tiled tensors hold every element in exactly one tile"""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import tiles
from vf.core import Trivial, expect, law, rng
from vf.rig import seeds

_SH = st.integers(2, 4).flatmap(lambda r: st.lists(st.tuples(st.integers(1, 7), st.integers(1, 8)), min_size=r, max_size=r))


def same(a, b, what):
    expect(a is not None, f"{what}: shape of the tile is not the shape of its data")
    expect(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    expect(np.array_equal(a, b), f"{what}: {a.ravel()[:6]} instead of {b.ravel()[:6]}")


@law("C35", st.fixed_dictionaries(dict(dims=_SH, dbl=st.booleans(), init=st.booleans(), mod=st.sampled_from([0, 0, 2, 3]),
                                       ops=st.lists(st.tuples(st.sampled_from(["set", "get", "miss"]), st.integers(0, 10 ** 6)), max_size=12), seed=seeds)), quick=500, cost=0.012,
     rule="tensors of rank 2-4, extents 1-7, tiles of 1-8 (dividing the extent or not, or larger than it), with and without initialiser and filter, then histories of tiles stored and read, against a dictionary of dense blocks: every element in exactly one tile, edge tiles cut to what is left, filtered tiles absent, other tiles untouched by a store; non-trivial with more than one tile")
def partition(c):
    r = rng(c)
    shape, ts = zip(*c["dims"])
    rank, dt = len(shape), np.dtype(np.float64 if c["dbl"] else np.float32)
    cells = list(itertools.product(*[range(-(-s // t)) for s, t in zip(shape, ts)]))

    def code(i, b):
        return sum(k * b ** (rank - 1 - n) for n, k in enumerate(i))

    def job():
        L = tiles.Lib(c["dbl"], rank)
        got = L.all(shape, ts)
        expect(sorted(got) == cells, f"tile positions {got[:8]} of shape {shape}, tiles {ts}")
        x = L.tensor(shape, ts, c["init"], c["mod"])
        expect(L.dims(x) == (shape, ts), f"shapes {L.dims(x)}")
        model, cover = {}, np.zeros(shape, int)
        for i in cells:
            if c["mod"] and code(i, 3) % c["mod"] == 0:
                continue
            block = np.zeros([min(t, s - k * t) for k, s, t in zip(i, shape, ts)], dt)
            if c["init"]:
                block[...] = 10 ** rank + code(i, 10)
            model[i] = block
        def look():
            ind = L.indices(x)
            expect(sorted(ind) == sorted(model), f"stored tiles {ind[:8]}")
            for i in cells:
                t = L.get(x, i)
                expect((t is None) == (i not in model), f"tile {i} is {'missing' if t is None else 'there'}")
                if t is not None:
                    same(L.value(t), model[i], f"tile {i}")
        look()
        for i, b in model.items():
            cover[tuple(slice(k * t, k * t + n) for k, t, n in zip(i, ts, b.shape))] += 1
        expect(cover.max(initial=0) <= 1 and (c["mod"] or cover.min() == 1), "tiles overlap or leave gaps")
        for op, k in c["ops"]:
            i = cells[k % len(cells)]
            if op == "set":
                a = r.standard_normal([min(t, s - q * t) for q, s, t in zip(i, shape, ts)]).astype(dt)
                t, blank = L.tile(a)
                same(blank, np.zeros(a.shape, dt), "new tile")
                L.set(x, i, t)
                L.fill(t, 3.0)  # the tensor keeps its own copy
                model[i] = a
            elif op == "get" and i in model:
                t = L.get(x, i)
                L.fill(t, -1.0)
            else:
                j = tuple(n + -(-s // t) for n, s, t in zip(i, shape, ts))
                expect(L.get(x, j) is None, f"tile {j} outside the tensor is there")
        look()
    tiles.run(job)
    if len(cells) < 2:
        raise Trivial
    return f"rank {rank}"


@law("C35", st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 6), min_size=2, max_size=4), perm=st.integers(0, 23), dbl=st.booleans(), v=st.integers(-4, 4).map(lambda k: k / 2), seed=seeds)), quick=300, cost=0.012,
     rule="tiles of rank 2-4 and any permutation of their dimensions: transposition, sum, product with a number and fill against numpy, operands untouched; non-trivial when the permutation moves something")
def algebra(c):
    r = rng(c)
    n = len(c["shape"])
    perms = list(itertools.permutations(range(n)))
    p = perms[c["perm"] % len(perms)]
    dt = np.dtype(np.float64 if c["dbl"] else np.float32)
    a, b = r.standard_normal((2, *c["shape"])).astype(dt)

    def job():
        L = tiles.Lib(c["dbl"], n)
        (ta, _), (tb, _) = L.tile(a), L.tile(b)
        t = L.transpose(ta, p)
        same(L.value(t), a.transpose(p), f"transpose {p}")
        back = L.transpose(t, tuple(np.argsort(p)))
        same(L.value(back), a, "transposed there and back")
        same(L.value(L.add(ta, tb)), a + b, "sum")
        same(L.value(L.mul(ta, c["v"])), a * dt.type(c["v"]), "product with a number")
        same(L.value(ta), a, "first operand")
        same(L.value(tb), b, "second operand")
        L.fill(tb, c["v"])
        same(L.value(tb), np.full(b.shape, c["v"], dt), "fill")
    tiles.run(job)
    if p == tuple(range(n)):
        raise Trivial
