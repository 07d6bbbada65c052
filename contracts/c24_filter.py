"""C24 the correlations that are asked for enter the monitoring, once."""
import fnmatch
import os

from .common import contract
from .mpi import run_ranks

MON = 'seismic.monitor.monitor:'
CFF = MON + 'corr_find_filter'
CODES = ['A', 'AB', 'B', 'BA']
PATS = ['A', 'AB', 'B', 'A*', '*B', '?', '*', 'BA', 'a']


def asked(code, want):
    want = [want] if isinstance(want, str) else want
    return any(fnmatch.fnmatchcase(code, w) for w in want)


@contract('C24', 'files found', [CFF], proof=False, cases=400,
          bound='up to 8 files, lists of up to 3 patterns')
def found(c):
    d = c.tmpdir()
    names = set()
    for k in range(c.int('files', 0, gen=(0, 8))):
        names.add(tuple(c.choice('%s%d%d' % (x, k, i), CODES)
                        for x in 'ns' for i in (0, 1)))
    comp = c.flag('components in the name')
    for n in names:
        open(os.path.join(d, '%s-%s.%s-%s%s.h5' % (
            n + ('.HHZ-HHZ' if comp else '',))), 'w').close()
    for junk in ('params.txt', 'A.B.h5', 'A-A.B-B.txt'):
        if c.flag(junk):
            open(os.path.join(d, junk), 'w').close()
    net = {}
    for key in ('network', 'station'):
        if c.flag(key + ' list'):
            net[key] = [c.choice('%s%d' % (key, i), PATS) for i in range(
                c.int('n' + key, 0, gen=(0, 3)))]
        else:
            net[key] = c.choice(key, PATS)
    nets, stats, files = c.fn(CFF)(d, net, co=1, dv={})
    want = {n for n in names if all(asked(x, net['network']) for x in n[:2])
            and all(asked(x, net['station']) for x in n[2:])}
    got = [tuple(n.split('-') + s.split('-')) for n, s in zip(nets, stats)]
    c.check('no pair missing', want <= set(got), sorted(want - set(got)))
    c.check('no pair too many', set(got) <= want, sorted(set(got) - want))
    c.check('none twice', len(got) == len(set(got)))
    c.check('lists belong together', len(nets) == len(stats) == len(files)
            and all(os.path.basename(f).startswith('%s.%s' % ns)
                    and os.path.isfile(f) for f, *ns in [
                        (f, n, s) for f, n, s in zip(files, nets, stats)]
                    for ns in [tuple(ns)]))


class Base(object):
    def __init__(self, chans):
        self.chans = chans

    def __call__(self, path, *a, **k):
        return self.Open(self.chans[path])

    class Open(object):
        def __init__(self, ch):
            self.ch = ch

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def get_available_channels(self, tag, n, s):
            return list(self.ch)


@contract('C24', 'every correlation is processed once by some process',
          [MON + 'Monitor.compute_velocity_change_bulk'], proof=False,
          cases=300, bound='up to 4 files of 4 channels, up to 7 processes')
def distribution(c):
    import logging
    Mon = c.fn(MON + 'Monitor')
    P = c.int('processes', 1, gen=(1, 7))
    n = c.int('files', 0, gen=(0, 4))
    chans, nets, stats = {}, [], []
    want = []
    for k in range(n):
        f = '/f%d.h5' % k
        chans[f] = ['C%d' % q for q in range(c.int('ch%d' % k, 0,
                                                   gen=(0, 4)))]
        nets.append('N%d' % k)
        stats.append('S%d' % k)
        want += [(f, 'N%d' % k, 'S%d' % k, q) for q in chans[f]]
    fails = c.int('failing', 0, gen=(0, 20))
    c.patch(MON + 'CorrelationDataBase', Base(chans))
    c.patch(MON + 'tqdm', lambda x: x)
    done = []
    lg = logging.getLogger('pyvc.silent')
    lg.disabled = True

    def go(comm):
        m = Mon.__new__(Mon)
        m.comm, m.rank, m.psize = comm, comm.Get_rank(), comm.Get_size()
        m.infiles, m.netlist, m.statlist = list(chans), nets, stats
        m.logger = lg
        m.options = {}

        def one(f, tag, net, sta, cha):
            done.append((f, net, sta, cha))
            if len(done) == fails:
                raise (KeyError if fails % 2 else ValueError)('x')
        m.compute_velocity_change = one
        m.compute_velocity_change_bulk()
    run_ranks(P, go)
    c.check('each once', sorted(done) == sorted(want))
