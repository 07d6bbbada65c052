"""C20 the correlation data base returns what was stored."""
from copy import deepcopy
import fnmatch
import warnings

from .common import contract

H5 = 'seismic.db.corr_hdf5:'
CDB = H5 + 'CorrelationDataBase'
DBH = H5 + 'DBHandler.'
S = 'seismic.correlate.stream:'
NETS = ['A-A', 'A-B', 'AA-B']
STAS = ['S-S', 'S-T', 'ST-T']
CHAS = ['HHE-HHZ', 'HHZ-HHZ', 'HH-HHZ']
TAGS = ['subdivision', 'recombined']


def key(st):
    return (st.network, st.station, st.channel, st.corr_start.timestamp,
            st.corr_end.timestamp)


def options():
    return {'subdir': 'x', 'sampling_rate': 5, 'corr_args': {
        'lengthToSave': 3, 'combinations': [(0, 1)]}, 'subdivision': {
            'corr_len': 10, 'recombine_subdivision': True},
            'preProcessing': [{'function': 'a.b', 'args': {'x': 1.5}},
                              {'function': 'q.stream_mask_at_utc',
                               'args': {}},
                              {'function': 'p.stream_mask_at_utc',
                               'args': {'n': 2}}]}


def traces(c, tag, most=6):
    np = c.np()
    UTC = c.ext('obspy', 'UTCDateTime')
    Tr, Stats = c.fn(S + 'CorrTrace'), c.fn(
        'seismic.correlate.stats:CorrStats')
    out = {}
    alike, alike_s = c.flag('same codes' + tag), c.flag('one station' + tag)
    for k in range(c.int('n' + tag, 0, gen=(0, most))):
        n = c.int('npts%s%d' % (tag, k), 1, gen=(1, 6))
        t0 = UTC(2020, 1, 1) + c.choice('t%s%d' % (tag, k), [
            0., 3600., 7200.25, 1e6 + 1e-4])
        h = dict(network=c.choice('net%s%d' % (tag, k), NETS),
                 station=c.choice('sta%s%d' % (tag, k), STAS),
                 channel=c.choice('cha%s%d' % (tag, k), CHAS),
                 location='-00', corr_start=t0,
                 corr_end=t0 + c.choice('e%s%d' % (tag, k), [60., 90.5]),
                 start_lag=-c.int('lag%s%d' % (tag, k), 0, gen=(0, 5)) / 2.,
                 sampling_rate=c.choice('sr%s%d' % (tag, k),
                                        [.1, 2., 25.]),
                 stla=1.5, stlo=-2.25, evla=0., evlo=1e-3, stel=100.,
                 evel=-5., dist=c.real('dist%s%d' % (tag, k), gen=(0, 9)),
                 az=10., baz=190.)
        if alike:
            h.update(network=NETS[0], station=STAS[
                c.int('alikes%s%d' % (tag, k), 0, gen=(0, 1)) * alike_s],
                     channel=CHAS[
                c.int('alike%s%d' % (tag, k), 0, gen=(0, 1))])
        x = c.array('x%s%d' % (tag, k), (n,))
        if c.flag('single%s%d' % (tag, k)):
            x = x.astype('f4')
        tr = Tr(x, _header=Stats(h))
        if c.flag('processed%s%d' % (tag, k)):
            tr.stats.processing = ['first step', 'second']
        out.setdefault(key(tr.stats), tr)
    if not out:
        c.assume(False)
    return out


def same(c, tr, old, name):
    np = c.np()
    c.check(name + ': samples', tr.data.dtype == old.data.dtype and
            np.array_equal(tr.data, old.data), (tr.data, old.data))
    a, b = dict(tr.stats), dict(old.stats)
    bad = [k for k in set(a) | set(b) if k not in a or k not in b or
           not np.array_equal(np.asarray(a[k]), np.asarray(b[k]))]
    c.check(name + ': header', not bad,
            [(k, a.get(k), b.get(k)) for k in bad])


def fill(c, db, all_):
    for tag in all_:
        t = all_[tag]
        if len(t) == 1 and c.flag('single trace ' + tag):
            db.add_correlation(list(t.values())[0], tag)
        else:
            db.add_correlation(c.fn(S + 'CorrStream')(list(t.values())), tag)


def content(db):
    out = {}

    def walk(name, o):
        if hasattr(o, 'shape') and name != 'co':
            out[name] = (o[()].tobytes(), sorted(
                (k, str(v)) for k, v in o.attrs.items()))
    db.visititems(walk)
    return out


def missing(c, f):
    """result of f, None where nothing is there"""
    try:
        return f()
    except KeyError:
        return []




@contract('C20', 'stored correlations are returned as they were',
          [DBH + 'add_correlation', DBH + 'get_data',
           H5 + 'convert_header_to_hdf5', H5 + 'read_hdf5_header', CDB,
           H5 + 'all_traces_recursive'], proof=False,
          cases=60, thorough=800, bound='up to 6 correlations per tag')
def round_trip(c):
    d = c.tmpdir() + '/x' + c.choice('suffix', ['', '.h5'])
    all_ = {t: traces(c, t) for t in TAGS[:c.int('tags', 1, gen=(1, 2))]}
    comp = c.choice('compression', ['gzip3', 'gzip9', None])
    DB = c.fn(CDB)
    co = options()
    with DB(d, corr_options=co, compression=comp) as db:
        fill(c, db, all_)
        early = c.flag('read at once')
        if early:
            check(c, db, all_)
    with DB(d, mode='r') as db:
        check(c, db, all_)
        c.check('options', db.get_corr_options() == c.fn(
            H5 + 'co_to_hdf5')(co))
    c.check('options as given', co == options())


def check(c, db, all_):
    tag = c.choice('tag', sorted(all_))
    t = all_[tag]
    k = list(t)[c.int('which', 0, gen=(0, 9)) % len(t)]
    tr = t[k]
    st = tr.stats
    n, s, ch = k[:3]
    if c.flag('other order'):
        n, s, ch = ['-'.join(reversed(x.split('-'))) for x in (n, s, ch)]
    mode = c.choice('ask', ['all', 'no times', 'start', 'end', 'channel',
                            'network',
                            'station', 'channel part', 'question'])
    kw = dict(corr_start=st.corr_start, corr_end=st.corr_end)
    if mode == 'all':
        kw = c.choice('order', [kw, kw])
    want = {k: tr}
    if mode == 'no times':
        kw = {}
        want = {q: v for q, v in t.items() if q[:3] == k[:3]}
    elif mode == 'start':
        del kw['corr_end']
        want = {q: v for q, v in t.items() if q[:4] == k[:4]}
    elif mode == 'end':
        del kw['corr_start']
        want = {q: v for q, v in t.items() if q[:3] + q[4:] ==
                k[:3] + k[4:]}
    elif mode != 'all':
        kw = {}
        n, s, ch = k[:3]
        pat = {'channel': '*', 'station': '*', 'network': '*', 'channel part':
               c.choice('part', ['HH*', '*-HHZ', 'HHZ*', 'HH*-HHZ',
                                  'HHE-HH*']),
               'question': c.choice('q', ['HH?-HHZ', 'HHZ-HH?', '???-???'])}[
                   mode]
        want = {q: v for q, v in t.items() if q[:2] == k[:2] and
                fnmatch.fnmatchcase(q[2], pat)}
        ch = pat
        if mode == 'question' and c.flag('times too'):
            kw = dict(corr_start=st.corr_start, corr_end=st.corr_end)
            want = {q: v for q, v in want.items() if q[3:] == k[3:]}
        if mode == 'network':
            n, ch = '*', k[2]
            want = {q: v for q, v in t.items() if q[1:3] == k[1:3]}
        elif mode == 'station':
            s = '*'
            want = {q: v for q, v in t.items() if q[0] == n}
    got = missing(c, lambda: db.get_data(n, s, ch, tag, **kw))
    res = {}
    for x in got:
        c.check('none twice', key(x.stats) not in res)
        res[key(x.stats)] = x
    c.check('exactly the correlations asked for', set(res) == set(want),
            (mode, n, s, ch, sorted(res), sorted(want)))
    for q in want:
        same(c, res[q], want[q], 'as stored')
        if 'processing' in want[q].stats:
            c.check('history can be continued', isinstance(
                res[q].stats.processing, list))
    n, s = k[:2]
    have = {q[2] for q in t if q[:2] == k[:2]}
    c.check('channels', set(db.get_available_channels(tag, n, s)) == have)
    pat = c.choice('channels', ['*', 'HHZ*', 'list', 'one', 'HH?-*',
                                  'HH?-HHZ', 'none', '*-HH', 'H?Z'])
    p = {'list': CHAS[:2], 'one': k[2], 'none': 'XXX-XXX'}.get(pat, pat)
    ps = [p] if isinstance(p, str) else p
    out = db.get_available_starttimes(n, s, tag, p)
    names = {x for x in have if any(fnmatch.fnmatchcase(x, y) for y in ps)}
    c.check('channels of the times', set(out) == names, (p, out, names))
    UTC = c.ext('obspy', 'UTCDateTime')
    for x in names:
        c.check('start times', sorted(UTC(y).timestamp for y in out[x]) ==
                sorted({q[3] for q in t if q[:3] == (n, s, x)}), out[x])
    c.check('nothing under unknown codes', not missing(
        c, lambda: db.get_data('X-X', s, '*', tag)) and
        not db.get_available_channels(tag, n, 'X-X')
        and not db.get_available_starttimes(n, 'X-X', tag))


@contract('C20', 'adding never changes what is stored',
          [DBH + 'add_correlation'], proof=False, cases=60, thorough=800,
          bound='up to 6 correlations')
def add(c):
    d = c.tmpdir() + '/x.h5'
    old, new = traces(c, 'old'), traces(c, 'new')
    DB = c.fn(CDB)
    with DB(d, corr_options=options()) as db:
        fill(c, db, {'subdivision': old})
        before = content(db)
    with DB(d, corr_options=options()) as db:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            fill(c, db, {'subdivision': new})
        after = content(db)
        c.check('stored data untouched', all(
            after.get(k) == v for k, v in before.items()))
        both = dict(new)
        both.update(old)
        c.check('new data added', len(after) == len(both))
        c.check('reported', len([x for x in w if issubclass(
            x.category, UserWarning)]) == len(set(old) & set(new)))
        for q, tr in both.items():
            st = tr.stats
            same(c, db.get_data(*q[:3], 'subdivision', st.corr_start,
                                st.corr_end)[0], tr, 'as stored')


@contract('C20', 'removing deletes what matches', [DBH + 'remove_data'],
          proof=False, cases=60, thorough=800, bound='up to 6 correlations')
def remove(c):
    d = c.tmpdir() + '/x.h5'
    t = traces(c, '')
    for q in list(t):           # unambiguous start times
        for v in t:
            if v != q and v[:4] == q[:4]:
                del t[q]
                break
    other = {k: t[k] for k in list(t)[:1]}
    k = list(t)[c.int('which', 0, gen=(0, 9)) % len(t)]
    n, s, ch = k[:3]
    how = c.choice('times', ['time', 'text', 'all', 'some', 'some',
                             'absent'])
    st = t[k].stats.corr_start
    arg = {'time': st, 'text': st.format_fissures(), 'all': '*',
           'some': c.choice('pattern', ['2020001*', '2020*T00*',
                                        '*T0?0000.*', '2021*',
                                        '*0000.0000', '*T0*00', '2020001']),
           'absent': st + 5}[how]
    fis = lambda q: t[q].stats.corr_start.format_fissures()  # noqa
    if isinstance(arg, str):
        gone = {q for q in t if q[:3] == k[:3] and fnmatch.fnmatchcase(
            fis(q), arg)}
    else:
        gone = {q for q in t if q[:3] == k[:3] and q[3] == arg.timestamp}
    if c.flag('other order'):
        n, s, ch = ['-'.join(reversed(x.split('-'))) for x in (n, s, ch)]
    DB = c.fn(CDB)
    with DB(d, corr_options=options()) as db:
        fill(c, db, {'subdivision': t, 'recombined': other})
        before = content(db)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            db.remove_data(n, s, ch, 'subdivision', arg)
        after = content(db)
    c.check('rest untouched', all(before[q] == after[q] for q in after))
    c.check('exactly these', len(before) - len(after) == len(gone),
            (arg, len(before), len(after), gone))
    with DB(d, mode='r') as db:
        for q in t:
            c.check('removed', (q in gone) == (not missing(
                c, lambda: db.get_data(
                    *q[:3], 'subdivision', t[q].stats.corr_start))))


CHANGES = ['sampling_rate', 'corr_args', 'new key', 'lost key', 'function',
           'any entry', 'any entry', 'similar name',
           'argument', 'ignored', 'mask', 'nothing']


MORE_OPTIONS = {'remove_response': True, 'tapering': 'cos', 'limit': 1.5}
CORR_ARGS = {
    'center_correlation': True, 'normalize_correlation': False,
    'TDpreProcessing': [{'function': 'a.td', 'args': {'x': 1}}],
    'FDpreProcessing': [{'function': 'a.fd', 'args': {'x': 1}}],
    'allow_different_lengths': False}
SUBDIVISION = {'corr_inc': 5, 'corr_overlap': .5, 'method': 'x'}


@contract('C20', 'a file never mixes processing options',
          [H5 + 'DBHandler.__init__', H5 + 'co_to_hdf5',
           DBH + 'add_corr_options', DBH + 'get_corr_options'], proof=False,
          cases=100, thorough=600, bound='one change of the options')
def opts(c):
    d = c.tmpdir() + '/x.h5'
    one = options()
    two = deepcopy(one)
    ch = c.choice('change', CHANGES)
    force = c.flag('force')
    if ch == 'sampling_rate':
        two[ch] = 7
    elif ch == 'corr_args':
        two[ch]['lengthToSave'] = 4
    elif ch == 'new key':
        two['new'] = 1
    elif ch == 'lost key':
        del two['sampling_rate']
    elif ch == 'function':
        two['preProcessing'].insert(0, {'function': 'a.c', 'args': {}})
    elif ch == 'any entry':
        one.update(MORE_OPTIONS)
        one['corr_args'].update(CORR_ARGS)
        one['subdivision'].update(SUBDIVISION)
        two = deepcopy(one)
        where, q, v = c.choice('entry', [
            (w, q, v) for w, x in (
                (None, MORE_OPTIONS), ('corr_args', CORR_ARGS),
                ('subdivision', SUBDIVISION)) for q, v in x.items()])
        other = {bool: lambda: not v, int: lambda: v + 1, float: lambda:
                 v + .5, str: lambda: v + '0', list: lambda: [
                     dict(s, args=dict(s['args'], y=0)) for s in v]}[type(v)]
        (two[where] if where else two)[q] = other()
    elif ch == 'similar name':
        two['preProcessing'].append({'function': c.choice('similar', [
            'q.stream_mask', 'q.mask_at_utc', 'q.at_utc_mask']), 'args': {}})
    elif ch == 'argument':
        two['preProcessing'][0]['args']['x'] = 2
    elif ch == 'ignored':
        two.update(subdir='z', read_start='2015', combinations=[1])
        two['subdivision']['recombine_subdivision'] = False
        two['corr_args']['combinations'] = [(3, 4)]
    elif ch == 'mask':
        two['preProcessing'] = two['preProcessing'][:1]
    c_two = deepcopy(two)
    DB = c.fn(CDB)
    t = traces(c, 'a', 2)
    if c.flag('swap'):
        one, two = two, one
        c_two = deepcopy(two)
    with DB(d, corr_options=one) as db:
        fill(c, db, {'subdivision': t})
        before = content(db)
    same_ = ch in ('ignored', 'mask', 'nothing')

    def go():
        with DB(d, corr_options=two, _force=force) as db:
            c.check('nothing lost', content(db) == before)
    if same_ or force:
        go()
    else:
        c.expect_raises(PermissionError, go, 'refused')
    c.check('options of the caller as they were', two == c_two)
    with DB(d, mode='r') as db:
        c.check('file as it was', content(db) == before)
        c.check('options of the file kept', db.get_corr_options() == c.fn(
            H5 + 'co_to_hdf5')(one))


class Stop(Exception):
    pass


@contract('C20', 'an error leaves the finished writes in a readable file',
          [H5 + 'CorrelationDataBase.__exit__'], proof=False, cases=30,
          thorough=200, bound='up to 6 correlations')
def stop(c):
    d = c.tmpdir() + '/x.h5'
    t = traces(c, '')
    DB = c.fn(CDB)

    def go():
        with DB(d, corr_options=options()) as db:
            fill(c, db, {'subdivision': t})
            raise Stop()
    c.expect_raises(Stop, go, 'error is passed on')
    with DB(d, mode='r') as db:
        c.check('all there', len(content(db)) == len(t))

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with DB(d) as db:
            before = content(db)
            try:
                db.add_correlation(list(t.values())[0], 'other')
            except Exception:
                pass
            c.check('read only without options', content(db) == before)


@contract('C20', 'compression', [H5 + 'DBHandler.__init__', CDB,
                                 DBH + 'add_correlation'], proof=False,
          cases=40, thorough=200, bound='up to 6 correlations')
def compression(c):
    """the closest level of gzip, none unless asked for; other methods are
    refused; the data are the same"""
    d = c.tmpdir() + '/x.h5'
    t = traces(c, '')
    db = c.fn(CDB)
    level = c.int('level', 0, gen=(0, 12))
    kind = c.choice('kind', ['gzip', 'gzip', 'none', 'other'])
    co = options()
    if kind == 'other':
        c.expect_raises(ValueError, lambda: db(
            d, co, 'a', 'lzf%d' % level).__enter__(), 'other method')
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with db(d, co, 'a', 'gzip%d' % level if kind == 'gzip' else
                None) as x:
            fill(c, x, {TAGS[0]: t})
            found = []
            x.visititems(lambda name, o: found.append(
                (o.compression, o.compression_opts)) if hasattr(
                    o, 'shape') and name != 'co' else None)
    want = ('gzip', min(max(level, 1), 9)) if kind == 'gzip' else (None, None)
    c.check('compressed as asked for', found == [want] * len(t),
            (found, want))
    c.check('another level is announced', any(
        'level' in str(q.message) for q in w) == (
            kind == 'gzip' and not 1 <= level <= 9))
    with db(d, mode='r') as x:
        for tr in t.values():
            s = tr.stats
            out = x.get_data(s.network, s.station, s.channel, TAGS[0],
                             s.corr_start, s.corr_end)
            c.check('one correlation', len(out) == 1)
            same(c, out[0], tr, 'compressed')
    c.expect_raises(TypeError, lambda: put(db, d, co, 'no correlation'),
                    'other data')
    c.expect_raises(TypeError, lambda: put(
        db, d, co, c.ext('obspy', 'Trace')()), 'other trace')


def put(db, d, co, what):
    with db(d, co, 'a', None) as x:
        x.add_correlation(what, TAGS[0])


@contract('C20', 'times of a request', [DBH + 'get_data', DBH +
                                        'remove_data'], proof=False,
          cases=60, thorough=300, bound='up to 6 correlations')
def request_times(c):
    """start and end select exactly the correlation with these times"""
    d = c.tmpdir() + '/x.h5'
    t = traces(c, '')
    db, co = c.fn(CDB), options()
    with db(d, co, 'a', None) as x:
        fill(c, x, {TAGS[0]: t})
        tr = list(t.values())[c.int('which', 0, gen=(0, 9)) % len(t)]
        s = tr.stats
        code = (s.network, s.station, s.channel)

        def want(a, b):
            return sorted(k for k in t if k[:3] == code and (
                not a or k[3] == s.corr_start.timestamp) and (
                not b or k[4] == s.corr_end.timestamp))
        for a in (False, True):
            for b in (False, True):
                got = x.get_data(*code, TAGS[0],
                                 corr_start=s.corr_start if a else None,
                                 corr_end=s.corr_end if b else None)
                c.check('requested times', sorted(
                    key(q.stats) for q in got) == want(a, b), (a, b))
        got = x.get_data('*', '*', '*', TAGS[0], s.corr_start, s.corr_end)
        c.check('requested times of all codes', sorted(
            key(q.stats) for q in got) == sorted(
                k for k in t if k[3:] == key(s)[3:]))
        quiet_remove(x, code, s.corr_start)
        got = x.get_data('*', '*', '*', TAGS[0]) if len(t) > len(
            want(True, False)) else None
        if got is not None:
            c.check('only what matches is gone', sorted(
                key(q.stats) for q in got) == sorted(
                    set(t) - set(want(True, False))))
        for bad in (None, 3.5):
            c.expect_raises(TypeError, lambda: x.remove_data(
                *code, TAGS[0], bad), 'no time')


def quiet_remove(x, code, t):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x.remove_data(*code, TAGS[0], t)
