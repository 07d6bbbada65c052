"""C32 re-running a correlation adds what is missing, and nothing else."""
from copy import deepcopy
import os

from .common import contract
from .c30_mpi import make_data, pipe_options, pipeline, K, Client  # noqa

CC = 'seismic.correlate.correlate:'


def same(c, a, b, tag, values=True):
    import numpy as np
    c.check(tag + 'same correlations', sorted(a) == sorted(b), (
        'missing', sorted(set(a) - set(b))[:3],
        'new', sorted(set(b) - set(a))[:3]))
    if not values:
        return
    for k in a:
        c.check(tag + 'same samples', np.allclose(a[k][0], b[k][0],
                                                  atol=1e-5))
        for key, v in a[k][1].items():
            c.check(tag + 'same header', np.array_equal(
                np.asarray(v), np.asarray(b[k][1][key])))


@contract('C32', 'running again changes nothing',
          [K + 'pxcorr', K + 'find_existing_times', K + '_generate_data',
           CC + '_compare_existing_data', CC + 'calc_cross_combis'],
          proof=False, cases=50, thorough=600,
          bound='up to 4 traces of 240 s, up to 3 processes')
def again(c):
    import numpy as np
    sr = 5.
    t0, st, raw = make_data(c, np, sr)
    opt = pipe_options(c, t0, sr, 240, c.flag('subdiv'))
    sep = c.flag('separate')
    d = c.tmpdir() + '/a'
    one, dup = pipeline(c, c.int('p1', 1, 3), opt, st, raw, d, sr,
                        save_comps_separately=sep)
    written = []
    DB = c.fn('seismic.db.corr_hdf5:DBHandler')
    old = DB.add_correlation

    def add(self, data, tag='subdivision'):
        written.append(len(data))
        return old(self, data, tag)
    DB.add_correlation = add
    try:
        two, dup = pipeline(c, c.int('p2', 1, 3), opt, st, raw, d, sr,
                            save_comps_separately=sep)
    finally:
        DB.add_correlation = old
    same(c, one, two, '')
    c.check('nothing computed twice', not sum(written), written)


class Crash(Exception):
    pass


@contract('C32', 'an interrupted run can be completed',
          [K + 'pxcorr', K + 'find_existing_times', K + '_generate_data',
           K + '_write', CC + '_compare_existing_data'],
          proof=False, cases=60, thorough=600,
          bound='up to 4 traces of 240 s, stop before any write')
def resume(c):
    import numpy as np
    sr = 5.
    t0, st, raw = make_data(c, np, sr)
    opt = pipe_options(c, t0, sr, 240, False)
    sep = c.flag('separate')
    d = c.tmpdir()
    full, dup = pipeline(c, 1, opt, st, raw, d + '/full', sr,
                         save_comps_separately=sep)
    Co = c.fn(CC + 'Correlator')
    old = Co._write
    left = [c.int('writes', 0, 4)]
    how = c.choice('crash', ['before', 'one file'])

    def write(self, cst):
        if left[0] == 0:
            if how == 'one file':
                M = c.mod('seismic.correlate.correlate')
                db, n = M.CorrelationDataBase, [0]

                def one(*a, **k):
                    n[0] += 1
                    if n[0] > 1:
                        raise Crash()
                    return db(*a, **k)
                M.CorrelationDataBase = one
                try:
                    old(self, cst)
                finally:
                    M.CorrelationDataBase = db
            raise Crash()
        left[0] -= 1
        return old(self, cst)
    Co._write = write
    try:
        pipeline(c, 1, opt, st, raw, d + '/a', sr, save_comps_separately=sep)
    except Crash:
        pass
    finally:
        Co._write = old
    got, dup = pipeline(c, c.int('p2', 1, 3), opt, st, raw, d + '/a', sr,
                        save_comps_separately=sep)
    c.check('nothing twice', not dup)
    same(c, full, got, '')


@contract('C32', 'new data is added to an existing database',
          [K + 'pxcorr', K + 'find_existing_times', K + '_generate_data'],
          proof=False, cases=50, thorough=500,
          bound='up to 4 traces of 240 s')
def extend(c):
    import numpy as np
    sr = 5.
    t0, st, raw = make_data(c, np, sr)
    opt = pipe_options(c, t0, sr, 240, c.flag('subdiv'))
    sep = c.flag('separate')
    d = c.tmpdir()
    full, dup = pipeline(c, 1, opt, st, raw, d + '/full', sr,
                         save_comps_separately=sep)
    o1 = deepcopy(opt)
    o1['read_end'] = str(t0 + 120)
    some = [r for i, r in enumerate(raw) if c.flag('early%d' % i)]
    if c.flag('all early') or not some:
        some = raw
    early, dup = pipeline(c, 1, o1, st, some, d + '/a', sr,
                          save_comps_separately=sep)
    o2 = deepcopy(opt)
    if c.flag('start later'):
        pipeline(c, 1, o1, st, raw, d + '/a', sr, save_comps_separately=sep)
        o2['read_start'] = str(t0 + 120)
    got, dup = pipeline(c, 1, o2, st, raw, d + '/a', sr,
                        save_comps_separately=sep)
    if not opt['preprocess_subdiv']:
        same(c, full, got, '')
    # (cut to windows first, short pieces of data are discarded)
    c.check('only correlations of the full run', set(got) <= set(full))
    for k, (x, h) in early.items():
        c.check('what existed stays', k in got and np.array_equal(
            x, got[k][0]))
