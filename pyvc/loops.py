"""Loops and comprehensions over ranges of symbolic length.

Rule (synthesised invariant).  The body is executed once for an arbitrary
iteration k (all of its paths).  If every access of the iteration to storage
that is written in the loop lies in the slab  axis == k  of that storage, the
invariant "slab j holds F(j) for j < k and its initial value otherwise" is
inductive, and after the loop the storage is F(j) on 0 <= j < n.  Lists that
receive one append per iteration become lists of length n.  Numeric
accumulators x <- x + e(k) become x0 + sum_j e(j).  Everything else is
reported as unsupported (undecided), never as a violation.
"""
import numpy as np
import z3
from .values import (Sym, SNum, SBool, SCplx, STime, Unsupported, num, lift,
                     ite, py, z_and, toreal, TRUE, FALSE)
from .engine import E, Infeasible
from . import arrays as A


class SIter(object):
    """iterable of symbolic length"""

    def __init__(self, n, item):
        self.n = A.ival(n)
        self.item = item

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.item(k) for k in range(self.n)])
        raise Unsupported('iteration over a symbolic range outside a loop')

    def __len__(self):
        return num(self.n).__index__()


class SRange(SIter):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if not isinstance(step, int):
            raise Unsupported('symbolic range step')
        d = (stop - start) if step > 0 else (start - stop)
        n = (d + (abs(step) - 1)) // abs(step)
        n = A._nonneg(py(n) if isinstance(n, Sym) else n)
        SIter.__init__(self, n, lambda k: py(start + k * step)
                       if isinstance(start + k * step, Sym)
                       else start + k * step)

    def __contains__(self, x):
        raise Unsupported('in range')

    def __getitem__(self, k):
        return self.item(k)


def as_iter(it):
    """SIter for a symbolic iterable, None for an ordinary one"""
    if isinstance(it, SIter):
        if isinstance(it.n, int):
            return None
        return it
    if isinstance(it, A.SArray):
        if isinstance(it.shape[0], int):
            return None
        return SIter(it.shape[0], lambda k: it[k])
    if isinstance(it, A.SList):
        if isinstance(it.n, int):
            return None
        return SIter(it.n, lambda k: it[k])
    return None


class LoopCtx(object):
    def __init__(self, k):
        self.k = k
        self.records = []
        self.appends = {}

    def note(self, arr, vidx, write):
        for ctx in E.loop_stack:
            if ctx in arr.st.loop:
                continue
            desc = []
            if vidx is not None:
                s = arr._sidx(vidx)
                desc = list(s)
            else:
                for a in arr.axes:
                    desc.append(a[1] if a[0] == 'fix' else None)
            ctx.records.append((arr.st, desc, write))


def subst(o, k, kk):
    """o with loop variable k replaced by kk"""
    if isinstance(o, SNum):
        t = z3.substitute(o.t, (k, kk))
        return SNum(t, None if o.nan is None else
                    z3.substitute(o.nan, (k, kk)))
    if isinstance(o, SBool):
        return SBool(z3.substitute(o.t, (k, kk)))
    if isinstance(o, SCplx):
        return SCplx(subst(o.re, k, kk), subst(o.im, k, kk))
    if isinstance(o, STime):
        return STime(subst(o.s, k, kk))
    if isinstance(o, A.SArray):
        g = o.getter()
        return A.SArray([subst(s, k, kk) if isinstance(s, Sym) else s
                         for s in o.shape],
                        lambda *v: subst(g(*v), k, kk), o.kind)
    if isinstance(o, A.SList):
        fn = o.fn
        return A.SList(subst(o.n, k, kk) if isinstance(o.n, Sym) else o.n,
                       lambda i: subst(fn(i), k, kk))
    if isinstance(o, tuple):
        return tuple(subst(x, k, kk) for x in o)
    if isinstance(o, list):
        return [subst(x, k, kk) for x in o]
    if isinstance(o, dict):
        return {a: subst(b, k, kk) for a, b in o.items()}
    return o


def merge(alts):
    """[(cond term, value)] exhaustive/exclusive -> value"""
    if len(alts) == 1:
        return alts[0][1]
    v0 = alts[-1][1]
    if isinstance(v0, (A.SArray, np.ndarray)):
        arrs = [(c, A.as_sarray(v)) for c, v in alts]
        sh = arrs[0][1].shape
        for c, a in arrs[1:]:
            if a.ndim != len(sh) or any(
                    A.dim_eq(x, y) is not True for x, y in zip(a.shape, sh)):
                raise Unsupported('paths give arrays of different shape')
        gs = [(c, a.getter()) for c, a in arrs]

        def f(*v):
            out = gs[-1][1](*v)
            for c, g in reversed(gs[:-1]):
                out = ite(SBool(c), g(*v), out)
            return out
        return A.SArray(sh, f, A._kmax(*[a.kind for _, a in arrs]))
    if isinstance(v0, (tuple, list)):
        return type(v0)(merge([(c, v[i]) for c, v in alts])
                        for i in range(len(v0)))
    if all(v is v0 for _, v in alts):
        return v0
    if isinstance(v0, str) or v0 is None:
        if all(v == v0 for _, v in alts):
            return v0
        raise Unsupported('paths give different objects')
    out = v0
    for c, v in reversed(alts[:-1]):
        out = ite(SBool(c), v, out)
    return out


class Carried(object):
    pass


def run_body(n, call):
    """all paths of one arbitrary iteration: (ctx, k, outs)"""
    d = len(E.loop_stack)
    k = z3.Int('$l%d_%d' % (d, next(E.fresh_n)))
    ctx = LoopCtx(k)
    E.loop_stack.append(ctx)
    mark = len(E.pc)
    try:
        E.pc.append(z3.And(k >= 0, k < A.zi(n)))

        def one():
            ctx.appends = {}
            r = call(SNum(k))
            return r, dict(ctx.appends)
        outs = E.sub_explore(one)
    finally:
        del E.pc[mark:]
        E.loop_stack.pop()
    return ctx, k, outs


def finish(n, ctx, k, outs):
    """handle exceptions and stores of the loop; returns normal outcomes"""
    good = []
    for cond, kind, res, writes in outs:
        c = z_and(*cond)
        if kind == 'exc':
            bad = A.any_over((n,), lambda j: SBool(z3.substitute(
                c, (k, A.zi(j)))))
            if E.decide(bad.t):
                raise res
        else:
            good.append((c, res, writes))
    if not good:
        # every iteration raises: the loop is empty on this path
        return []
    written = []
    for c, res, writes in good:
        for st in writes:
            if ctx not in st.loop and st not in written:
                written.append(st)
    for st in written:
        recs = [(d, w) for s, d, w in ctx.records if s is st]
        axis = None
        for p in range(len(st.shape)):
            if all(d[p] is not None and not isinstance(d[p], int) and (
                    d[p].t.eq(k) or z3.simplify(d[p].t).eq(k))
                    for d, w in recs):
                axis = p
                break
        if axis is None:
            raise Unsupported('loop-carried dependency on an array')
        old = st.fn
        alts = [(c, (writes[st][1] if st in writes else old))
                for c, res, writes in good]

        # the loop runs over the whole axis: no element keeps its old value
        # (values at positions outside the array are never used)
        full = A.dim_eq(st.shape[axis], n) is True

        def f(*sidx, alts=alts, old=old, axis=axis, full=full):
            kk = sidx[axis]
            inr = TRUE if full else z3.simplify(
                z3.And(A.zi(kk) >= 0, A.zi(kk) < A.zi(n)))
            if z3.is_false(inr):
                return old(*sidx)
            loc = list(sidx)
            loc[axis] = SNum(k)
            vals = [(z3.substitute(c, (k, A.zi(kk))),
                     subst(lift(g(*loc)), k, A.zi(kk))) for c, g in alts]
            out = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                out = ite(SBool(z3.simplify(c)), v, out)
            if z3.is_true(inr):
                return out
            return ite(SBool(inr), out, old(*sidx))
        st.write(f)
        if E.loop_stack:
            for octx in E.loop_stack:
                if octx in st.loop:
                    continue
                for d, w in recs:
                    dd = list(d)
                    dd[axis] = None
                    octx.records.append((st, dd, w))
    # reads of storage not written: propagate to outer loops
    if E.loop_stack:
        for s, d, w in ctx.records:
            if s in written:
                continue
            for octx in E.loop_stack:
                if octx not in s.loop:
                    octx.records.append((s, d, w))
    return good


class LoopResult(object):
    def __init__(self):
        self.lists = {}


BRK = object()
_results = {}


def for_loop(it, body, uid, names, lists, getters=None, setters=None):
    """names: locals assigned in the body that are carried or live after"""
    si = as_iter(it)
    if si is None:
        if isinstance(it, SIter):
            it = list(it)
        for x in it:
            r = body(x)
            if r is BRK:
                return BRK
            if r is not None:
                return r
        return None
    n = si.n
    if E.known(A.zi(n) <= 0) is True:
        return None
    acc = {}
    if names:
        for nm in names:
            try:
                acc[nm] = getters[nm]()
            except NameError:
                acc[nm] = None
    carried0 = dict(acc)
    fresh = {}
    for nm, v in acc.items():
        if isinstance(v, (SNum, int, float, np.number)) and \
                not isinstance(v, bool):
            fv = SNum(z3.Const('$l_acc_%s_%d' % (nm, next(E.fresh_n)),
                               num(v).t.sort() if isinstance(v, SNum) and
                               not v.is_int else z3.RealSort()))
            fresh[nm] = fv
        elif isinstance(v, A.SArray):
            raise Unsupported('array accumulator %s' % nm)
        elif v is None:
            fresh[nm] = None
        else:
            raise Unsupported('loop-carried variable %s' % nm)

    def call(k):
        for nm, fv in fresh.items():
            if fv is not None:
                setters[nm](fv)
        r = body(si.item(k))
        if r is not None:
            raise Unsupported('break/return inside a symbolic loop')
        return {nm: getters[nm]() for nm in names}
    ctx, k, outs = run_body(n, call)
    good = finish(n, ctx, k, outs)
    for nm in names:
        if fresh.get(nm) is None:
            raise Unsupported('variable %s is live after a symbolic loop'
                              % nm)
        fv = fresh[nm].t
        deltas = []
        for c, (vals, app), w in good:
            d = z3.simplify(toreal(num(vals[nm]).t) - toreal(fv))
            if num(vals[nm]).nan is not None:
                raise Unsupported('NaN accumulator')
            if _occurs(d, fv) or _occurs(c, fv):
                raise Unsupported('loop-carried variable %s' % nm)
            deltas.append((c, SNum(d)))
        if not deltas:
            setters[nm](carried0[nm])
            continue
        e = merge(deltas)
        tot = A.sum_over((n,), lambda j: subst(e, k, A.zi(j)))
        setters[nm](num(carried0[nm]) + tot)
    for c, (vals, app), w in good:
        for key in app:
            if key not in lists:
                raise Unsupported('append inside a symbolic loop')
    for nm in lists:
        per = []
        for c, (vals, app), w in good:
            a = app.get(nm, [])
            if len(a) != 1:
                raise Unsupported('not exactly one append per iteration')
            per.append((c, a[0]))
        _results[(uid, nm)] = _mk_list(n, k, per)
    return None


def _occurs(t, v):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False


def _mk_list(n, k, per):
    val = merge(per) if per else None
    if not per:
        return A.SList(0, lambda i: None)
    return A.SList(n, lambda i: subst(val, k, A.zi(i)))


def append(name, lst, val):
    if E.loop_stack and getattr(lst, '_loops', None) is None:
        pass
    if E.loop_stack and not _created_in_loop(lst):
        E.loop_stack[-1].appends.setdefault(name, []).append(val)
        return
    if isinstance(lst, A.SList):
        fn, n = lst.fn, lst.n
        raise Unsupported('append to a symbolic list')
    lst.append(val)


_fresh_lists = {}


def _created_in_loop(lst):
    return id(lst) in _fresh_lists and _fresh_lists[id(lst)][1] is \
        E.loop_stack[-1]


def newlist(x):
    if E.loop_stack:
        _fresh_lists[id(x)] = (x, E.loop_stack[-1])
    return x


def after_append(uid, nm, cur):
    r = _results.pop((uid, nm), None)
    if r is None:
        return cur
    if isinstance(cur, list) and len(cur) == 0:
        return r
    raise Unsupported('append to a non-empty list in a symbolic loop')


def comp(it, elt, conds):
    si = as_iter(it)
    if si is None:
        out = []
        for x in it:
            if all(bool(c(x)) for c in conds):
                out.append(elt(x))
        return out
    if conds:
        raise Unsupported('filtered comprehension over a symbolic range')
    n = si.n
    ctx, k, outs = run_body(n, lambda kk: elt(si.item(kk)))
    good = finish(n, ctx, k, outs)
    per = [(c, r[0]) for c, r, w in good]
    return _mk_list(n, k, per)
