"""planted changes, third batch, input of tools/plant.py"""
Q = "openms/qmc/"
BUGS = []


def bug(**k):
    BUGS.append(k)


RANKS = '''
import io, contextlib, multiprocessing as mp
from pyscf import gto
import openms.__mpi__ as M
fork = mp.get_context("fork")


class Comm:
    def __init__(self, rank, size, pipe): self.rank, self.size, self.pipe = rank, size, pipe
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def Split(self, color=0, key=0): return self
    def Barrier(self): self.meet(None)
    barrier = Barrier
    def meet(self, x): self.pipe.send(("meet", x)); return self.pipe.recv()
    def allreduce(self, x, op=None, root=0): return sum(self.meet(x))
    def allgather(self, x): return self.meet(x)
    def bcast(self, x, root=0): return self.meet(x)[root]

    def Scatterv(self, x, out, root=0):
        full, cnt, dis = self.meet((x[0], list(x[1]), list(x[2])))[root]
        k = self.rank
        out[:] = full[int(dis[k]):int(dis[k]) + int(cnt[k])]


def child(rank, size, pipe, job):
    M.MPI.COMM_WORLD = Comm(rank, size, pipe)
    with contextlib.redirect_stdout(io.StringIO()):
        out = job(rank)
    pipe.send(("done", out))


def ranks(size, job):
    pipes = [fork.Pipe() for _ in range(size)]
    ps = [fork.Process(target=child, args=(k, size, pipes[k][1], job)) for k in range(size)]
    [p.start() for p in ps]
    try:
        while True:
            for a, _ in pipes:
                assert a.poll(60), "a rank does not answer"
            msgs = [a.recv() for a, _ in pipes]
            kinds = {m[0] for m in msgs}
            assert len(kinds) == 1, "ranks do not meet"
            if kinds == {"done"}:
                return [m[1] for m in msgs]
            for a, _ in pipes:
                a.send([m[1] for m in msgs])
    finally:
        [p.kill() for p in ps]


def h4(**k):
    from openms.qmc.afqmc import AFQMC
    mol = gto.M(atom="H 0 0 0; H 0 0 1.2; H 0 1.5 0; H 0 1.5 1.3", basis="sto-3g", verbose=0)
    for a, b in dict(num_walkers=5, dt=0.02, total_time=0.13, property_calc_freq=2, renorm_freq=2, pop_control_freq=4, random_seed=7,
                     verbose=0, energy_scheme="hybrid").items():
        k.setdefault(a, b)
    mc = AFQMC(mol, **k)
    mc.propagator.debug_mpi = True
    return mc
'''

bug(id="b34", prop="C29", edits=[(Q + "propagators.py",
"            displs = [0] + list(backend.cumsum(counts))[:-1]\n",
"            displs = [self.nfields * nw for nw in walkers.displs]\n")],
needs="several ranks and padding (fake) fields",
breaks="the random fields handed to the ranks overlap, so the walkers of a distributed run are correlated and the run differs from the one in one process",
demo=RANKS + '''
def job(rank):
    mc = h4(propagator_options=dict(num_fake_fields=3))
    t, e = mc.kernel()
    return np.array(e), np.array(mc.walkers.weights)
(e1, w1), = ranks(1, job)
p = ranks(2, job)
assert np.allclose(np.concatenate([w for _, w in p]), w1, rtol=1e-6), (p, w1)
assert np.allclose(p[0][0], e1, rtol=1e-6), (p[0][0], e1)
''')

bug(id="b35", prop="C29", edits=[(Q + "generic_walkers.py",
"        self.total_weight = self.global_nwalkers\n",
"        self.total_weight = self.nwalkers\n")],
needs="several ranks and a walker that carries more than a tenth of the walkers of its own rank",
breaks="until the first population control the weights of a distributed run are clipped at a bound that shrinks with the number of ranks",
demo=RANKS + '''
def job(rank):
    mc = h4(num_walkers=16, dt=0.02, pop_control_freq=20)
    t, e = mc.kernel()
    return np.array(e), np.array(mc.walkers.weights)
(e1, w1), = ranks(1, job)
p = ranks(2, job)
assert np.allclose(np.concatenate([w for _, w in p]), w1, rtol=1e-6), (p, w1)
assert np.allclose(p[0][0], e1, rtol=1e-6), (p[0][0], e1)
''')

bug(id="b36", prop="C29", edits=[(Q + "qmc.py",
"                self.property_buffer = reduced_buffer\n",
"                if walkers._mpi.rank == 0:\n                    self.property_buffer = reduced_buffer\n")],
needs="several ranks and at least two measurement periods",
breaks="the energy shift of the other ranks follows their own walkers instead of all of them, so weights drift apart between the ranks",
demo=RANKS + '''
def job(rank):
    mc = h4()
    t, e = mc.kernel()
    return complex(mc.eshift), np.array(mc.walkers.weights)
(s1, w1), = ranks(1, job)
p = ranks(2, job)
for s, _ in p:
    assert np.isclose(s, s1, rtol=1e-7), (p, s1)
assert np.allclose(np.concatenate([w for _, w in p]), w1, rtol=1e-6), (p, w1)
''')
