"""a communicator of n ranks run as threads of one process"""
import logging
import copy
import functools
import pickle
import threading

import numpy as np


def reduction(op, MPI):
    if op is None or op == MPI.SUM:
        return lambda x, y: x + y
    if op == MPI.PROD:
        return lambda x, y: x * y
    if op == MPI.MAX:
        return np.maximum
    if op == MPI.MIN:
        return np.minimum
    raise NotImplementedError('reduction')


class Group(object):
    def __init__(self, n):
        self.n = n
        self.bar = threading.Barrier(n, timeout=60)
        self.slots = [None] * n


class Comm(object):
    def __init__(self, group, rank):
        self.g, self.r = group, rank

    def Get_size(self):
        return self.g.n

    def Get_rank(self):
        return self.r

    def _exchange(self, x):
        # like mpi4py: everybody gets a copy
        self.g.slots[self.r] = pickle.dumps(x)
        self.g.bar.wait()
        out = [pickle.loads(s) for s in self.g.slots]
        self.g.bar.wait()
        return out

    def bcast(self, x, root=0):
        return self._exchange(x)[root]

    def allgather(self, x):
        return self._exchange(x)

    def gather(self, x, root=0):
        out = self._exchange(x)
        return out if self.r == root else None

    def Allreduce(self, send, buf, op=None):
        from mpi4py import MPI
        a = buf[0] if isinstance(buf, (list, tuple)) else buf
        b = send[0] if isinstance(send, (list, tuple)) else send
        if isinstance(b, np.ndarray):
            a[...] = b
        parts = self._exchange(a.copy())
        f = reduction(op, MPI)
        x = parts[0]
        for p in parts[1:]:
            x = f(x, p)
        a[...] = x

    def allreduce(self, x, op=None):
        from mpi4py import MPI
        f = reduction(op, MPI)
        return functools.reduce(f, self._exchange(x))

    def reduce(self, x, op=None, root=0):
        out = self.allreduce(x, op)
        return out if self.r == root else None

    def Reduce(self, send, buf, op=None, root=0):
        a = buf[0] if isinstance(buf, (list, tuple)) else buf
        old = None if a is None else a.copy()
        b = send[0] if isinstance(send, (list, tuple)) else send
        x = self._exchange(b if isinstance(b, np.ndarray) else a)
        from mpi4py import MPI
        f = reduction(op, MPI)
        if self.r == root:
            a[...] = functools.reduce(f, x)
        elif old is not None:
            a[...] = old

    def Bcast(self, buf, root=0):
        a = buf[0] if isinstance(buf, (list, tuple)) else buf
        a[...] = self._exchange(a)[root]

    def scatter(self, x, root=0):
        return self._exchange(x)[root][self.r]

    def barrier(self):
        self._exchange(None)
    Barrier = barrier


def run_ranks(n, f):
    """f(comm) on n ranks; list of the results"""
    g = Group(n)
    out, err = [None] * n, []

    def go(r):
        try:
            out[r] = f(Comm(g, r))
        except BaseException as e:
            err.append(e)
            g.bar.abort()
    if n == 1:
        return [f(Comm(g, 0))]
    ts = [threading.Thread(target=go, args=(r,)) for r in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    real = [e for e in err if not isinstance(e, threading.BrokenBarrierError)]
    if err:
        raise (real or err)[0]
    return out


def quiet_logger():
    log = logging.getLogger('pyvc.quiet')
    log.setLevel(logging.CRITICAL + 1)
    return log


def correlator(c, comm, options, sampling_rate, **kw):
    """a Correlator without its file system set-up"""
    K = c.fn('seismic.correlate.correlate:Correlator')
    x = K.__new__(K)
    x.comm, x.rank, x.psize = comm, comm.Get_rank(), comm.Get_size()
    x.options = options
    x.sampling_rate = sampling_rate
    x.logger = quiet_logger()
    x.rcombis = None
    x.save_comps_separately = False
    x._allow_different_params = False
    for k, v in kw.items():
        setattr(x, k, v)
    return x


class Alone(Comm):
    """the only rank: every collective gives its own contribution back"""
    def __init__(self):
        Comm.__init__(self, Group(1), 0)

    def _exchange(self, x):
        return [x]

    def Allreduce(self, send, buf, op=None):
        pass


class _Again(BaseException):
    pass


class Replayed(Comm):
    """rank r of n ranks that run one after another: the k-th collective
    call returns the exchange of all ranks once everybody has reached it,
    and stops the rank until then (each rank is a deterministic function)"""
    def __init__(self, n, r, log):
        Comm.__init__(self, Group(1), r)
        self.n, self.log, self.k = n, log, 0

    def Get_size(self):
        return self.n

    def _exchange(self, x):
        k, self.k = self.k, self.k + 1
        if k == len(self.log):
            self.log.append({})
        self.log[k].setdefault(self.r, x)
        if len(self.log[k]) < self.n:
            raise _Again()
        return [copy.deepcopy(self.log[k][i]) if not hasattr(
            self.log[k][i], 'getter') else self.log[k][i]
            for i in range(self.n)]

    def Allreduce(self, send, buf, op=None):
        a = buf[0] if isinstance(buf, (list, tuple)) else buf
        if str(op) not in ('SUM', 'None'):
            raise NotImplementedError('reduction')
        x = self._exchange(a.copy())
        t = x[0]
        for y in x[1:]:
            t = t + y
        a[...] = t


def ranks(c, n, f):
    """f(comm) on n ranks: threads, or one after another for the proofs"""
    if not c.symbolic:
        return run_ranks(n, f)
    log, out = [], [None] * n
    done = set()
    for turn in range(40):
        before = sum(len(x) for x in log), len(log), len(done)
        for r in range(n):
            if r in done:
                continue
            try:
                out[r] = f(Replayed(n, r, log))
                done.add(r)
            except _Again:
                pass
        if len(done) == n:
            return out
        if before == (sum(len(x) for x in log), len(log), len(done)):
            raise RuntimeError('deadlock: ranks wait for different calls')
    raise RuntimeError('too many collective calls')
