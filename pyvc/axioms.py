"""Instances of the axioms of array operators and elementary functions.

Every formula produced here is a ground instance of a fact that holds for the
finite sum / maximum / ... over an index range, for the stated elementary
functions, or of congruence (an operator applied to equal arrays gives equal
results), so adding them is sound; leaving some out only costs completeness.
"""
import itertools
import math
import z3
from .values import toreal, z_and, z_or

I0 = z3.IntVal(0)


def _w(name, sort=None):
    return z3.Const('i_' + name, sort or z3.IntSort())


def _rng(idx, bounds):
    return z3.And(*[z3.And(i >= 0, i < b) for i, b in zip(idx, bounds)])


def _key(inst):
    return inst.app.get_id()


def differ(i1, i2, ci, wit):
    """array argument ci of the two instances differs at wit (in range)"""
    b1, v1, t1 = i1.comps[ci]
    b2, v2, t2 = i2.comps[ci]
    alts = []
    if len(t1) == 2 and t1[1].sort() == z3.BoolSort() and \
            i1.opts.get('nanpair'):
        x1, n1 = i1.body(ci, wit, 0), i1.body(ci, wit, 1)
        x2, n2 = i2.body(ci, wit, 0), i2.body(ci, wit, 1)
        alts = [n1 != n2, z3.And(z3.Not(n1), x1 != x2)]
    else:
        for k in range(len(t1)):
            x1, x2 = i1.body(ci, wit, k), i2.body(ci, wit, k)
            if x1.eq(x2):
                continue
            if x1.sort() != x2.sort():
                x1, x2 = toreal(x1), toreal(x2)
            alts.append(x1 != x2)
    if not alts:
        return None
    return z3.And(_rng(wit, b1), z3.Or(*alts))


def congruence(i1, i2, loose=False):
    if i1.app.eq(i2.app) or i1.app.sort() != i2.app.sort():
        return None
    if len(i1.comps) != len(i2.comps) or len(i1.scalars) != len(i2.scalars):
        return None
    alts = [i1.app == i2.app]
    for a, b in zip(i1.scalars, i2.scalars):
        if a.sort() != b.sort():
            if not (z3.is_arith(a) and z3.is_arith(b)):
                return None
            a, b = toreal(a), toreal(b)
        if not a.eq(b):
            alts.append(a != b)
    for ci in range(len(i1.comps)):
        b1, v1, t1 = i1.comps[ci]
        b2, v2, t2 = i2.comps[ci]
        if len(b1) != len(b2) or len(t1) != len(t2):
            return None
        if [v.get_id() for v in v1] != [v.get_id() for v in v2]:
            # different binder depth: rename
            sub = list(zip(v2, v1))
            t2r = [z3.substitute(t, *sub) for t in t2]
        else:
            t2r = t2
        for a, b in zip(b1, b2):
            if not a.eq(b):
                from .engine import E
                if E.same(a, b):
                    continue
                if not loose:
                    return None
                alts.append(a != b)
        if all(x.eq(y) for x, y in zip(t1, t2r)):
            continue
        wit = [_w('cg_%d_%d_%d_%d' % (_key(i1), _key(i2), ci, k))
               for k in range(len(b1))]
        d = differ(i1, i2, ci, wit)
        if d is not None:
            alts.append(d)
    return z3.Or(*alts)


def _is_nth(t):
    return z3.is_app(t) and t.decl().name().startswith('nth!')


def per_instance(i, pool):
    """(axiom key, formula) for one operator application"""
    k = i.kind
    a = i.app
    nm = '%s_%d' % (k, _key(i))
    out = []

    def add(tag, f):
        out.append((nm + '/' + tag, f))

    if k == 'sum':
        (bounds, vs, bodies), = i.comps
        if len(bounds) == 1:
            n = bounds[0]
            add('empty', z3.Implies(n <= 0, a == 0))
            add('one', z3.Implies(n == 1, a == i.body(0, [I0])))
            w = _w(nm)
            neg = z3.And(w >= 0, w < n, i.body(0, [w]) < 0)
            add('nonneg', z3.Or(a >= 0, neg))
            w2 = _w(nm + 'z')
            add('zero', z3.Or(a == 0, z3.And(
                w2 >= 0, w2 < n, i.body(0, [w2]) != 0)))
            for t in pool.values():
                # one position holds all there is
                if _is_nth(t):
                    w3 = _w('%s_s%d' % (nm, t.get_id()))
                    add('single%d' % t.get_id(), z3.Or(
                        t < 0, t >= n, a == i.body(0, [t]), z3.And(
                            w3 >= 0, w3 < n, w3 != t,
                            i.body(0, [w3]) != 0)))
            if i.opts.get('ge'):
                for t in pool.values():
                    add('ge%d' % t.get_id(), z3.Or(
                        a >= i.body(0, [t]), neg, t < 0, t >= n))
    elif k in ('max', 'min'):
        (bounds, vs, bodies), = i.comps
        ws = [_w(nm + '_%d' % j) for j in range(len(bounds))]
        ne = z3.And(*[b > 0 for b in bounds])
        add('att', z3.Implies(ne, z3.And(
            _rng(ws, bounds), a == i.body(0, ws))))
        for ts in itertools.islice(itertools.product(
                list(pool.values()), repeat=len(bounds)), 400):
            b = i.body(0, list(ts))
            add('bd%s' % '_'.join(str(t.get_id()) for t in ts), z3.Implies(
                _rng(ts, bounds), (b <= a) if k == 'max' else (b >= a)))
    elif k in ('mext_max', 'mext_min'):
        # extremum over the selected positions (unspecified if there is none)
        (bounds, vs, bodies), = i.comps
        ws = [_w(nm + '_%d' % j) for j in range(len(bounds))]
        att = z3.And(_rng(ws, bounds), i.body(0, ws, 1),
                     a == i.body(0, ws, 0))
        for ts in itertools.islice(itertools.product(
                list(pool.values()), repeat=len(bounds)), 400):
            b = i.body(0, list(ts))
            add('bd%s' % '_'.join(str(t.get_id()) for t in ts), z3.Implies(
                z3.And(_rng(ts, bounds), i.body(0, list(ts), 1)), z3.And(
                    (b <= a) if k == 'mext_max' else (b >= a), att)))
    elif k in ('argmax', 'argmin'):
        (bounds, vs, bodies), = i.comps
        n = bounds[0]
        add('rng', z3.Implies(n > 0, z3.And(a >= 0, a < n)))
        ba = i.body(0, [a])
        for t in pool.values():
            b = i.body(0, [t])
            le = (b <= ba) if k == 'argmax' else (b >= ba)
            lt = (b < ba) if k == 'argmax' else (b > ba)
            add('bd%d' % t.get_id(), z3.Implies(
                z3.And(t >= 0, t < n), z3.And(
                    le, z3.Implies(t < a, lt))))
    elif k in ('margmax', 'margmin'):
        # first extremum of the selected (unspecified if there is none)
        (bounds, vs, bodies), = i.comps
        n = bounds[0]
        ba = i.body(0, [a], 0)
        ok = z3.And(a >= 0, a < n, i.body(0, [a], 1))
        for t in pool.values():
            b = i.body(0, [t], 0)
            le = (b <= ba) if k == 'margmax' else (b >= ba)
            lt = (b < ba) if k == 'margmax' else (b > ba)
            add('bd%d' % t.get_id(), z3.Implies(
                z3.And(t >= 0, t < n, i.body(0, [t], 1)), z3.And(
                    ok, le, z3.Implies(t < a, lt))))
    elif k == 'any':
        (bounds, vs, bodies), = i.comps
        ws = [_w(nm + '_%d' % j) for j in range(len(bounds))]
        add('wit', z3.Implies(a, z3.And(
            _rng(ws, bounds), i.body(0, ws))))
        for ts in itertools.islice(itertools.product(
                list(pool.values()), repeat=len(bounds)), 400):
            add('in%s' % '_'.join(str(t.get_id()) for t in ts), z3.Implies(
                z3.And(_rng(ts, bounds), i.body(0, list(ts))), a))
    elif k == 'count':
        (bounds, vs, bodies), = i.comps
        n = bounds[0]
        add('rng', z3.And(a >= 0, z3.Or(a <= n, n < 0)))
        w = _w(nm + 'w')
        add('pos', z3.Or(a == 0, z3.And(w >= 0, w < n, i.body(0, [w]))))
        w2 = _w(nm + 'f')
        add('full', z3.Or(a >= n, z3.And(
            w2 >= 0, w2 < n, z3.Not(i.body(0, [w2])))))
        for t in pool.values():
            if _is_nth(t):
                w3 = _w('%s_s%d' % (nm, t.get_id()))
                add('single%d' % t.get_id(), z3.Or(
                    t < 0, t >= n, a == z3.If(i.body(0, [t]), 1, 0),
                    z3.And(w3 >= 0, w3 < n, w3 != t, i.body(0, [w3]))))
                for q in pool.values():
                    if not q.eq(t):
                        add('two%d_%d' % (t.get_id(), q.get_id()), z3.Or(
                            a >= 2, t < 0, t >= n, q < 0, q >= n, t == q,
                            z3.Not(i.body(0, [t])), z3.Not(i.body(0, [q]))))
            add('ge1%d' % t.get_id(), z3.Implies(
                z3.And(t >= 0, t < n, i.body(0, [t])), a >= 1))
            add('lt%d' % t.get_id(), z3.Implies(
                z3.And(t >= 0, t < n, z3.Not(i.body(0, [t]))), a < n))
    elif k.startswith('spline_') or k.startswith('interp1d_linear_'):
        # interpolation through the points (abscissae increase)
        (bx, vx, _), (by, vy, _) = i.comps
        n, p = bx[0], i.scalars[-1]
        lin = k.startswith('interp1d')
        if lin or '_s0_' in k:
            for t in pool.values():
                add('knot%d' % t.get_id(), z3.Implies(z3.And(
                    t >= 0, t < n, p == i.body(0, [t])),
                    a == i.body(1, [t])))
        x0, xn = i.body(0, [I0]), i.body(0, [n - 1])
        fill = None
        if k.endswith('_e1') and not lin:
            fill = z3.RealVal(0)
        elif lin and k.startswith('interp1d_linear_fv') and \
                k.endswith('_False'):
            fill = i.scalars[0]
        if fill is not None:
            add('out', z3.Implies(z3.And(n > 0, z3.Or(p < x0, p > xn)),
                                  a == fill))
        if lin:
            for t in list(pool.values()) + [I0, n - 2]:
                xa, xb = i.body(0, [t]), i.body(0, [t + 1])
                ya, yb = i.body(1, [t]), i.body(1, [t + 1])
                ins = z3.And(xa <= p, p <= xb)
                if 'extrapolate' in k:
                    ins = z3.Or(ins, z3.And(t == 0, p <= xa),
                                z3.And(t == n - 2, p >= xb))
                add('seg%d' % t.get_id(), z3.Implies(z3.And(
                    t >= 0, t + 1 < n, ins),
                    (a - ya) * (xb - xa) == (yb - ya) * (p - xa)))
    elif k == 'nth':
        # scalars: [j, count]
        (bounds, vs, bodies), = i.comps
        j, cnt = i.scalars
        add('in', z3.Implies(z3.And(j >= 0, j < cnt), z3.And(
            a >= 0, a < bounds[0], i.body(0, [a]))))
    elif k == 'rank':
        # number of set positions before scalars[0]
        pass
    return out


def pair_axioms(i1, i2):
    out = []
    if i1.kind == i2.kind == 'nth':
        j1, j2 = i1.scalars[0], i2.scalars[0]
        if i1.fd.comps[0][2][0].eq(i2.fd.comps[0][2][0]):
            c = i1.scalars[1]
            out.append(z3.Implies(
                z3.And(j1 >= 0, j1 < j2, j2 < c), i1.app < i2.app))
            out.append(z3.Implies(
                z3.And(j2 >= 0, j2 < j1, j1 < c), i2.app < i1.app))
    return out


def math_axioms(x):
    nm = x.decl().name()
    out = []
    a = x.arg(0)
    if nm == 'm_sqrt':
        out.append(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
    elif nm == 'm_exp':
        out.append(x > 0)
        out.append(z3.Implies(a == 0, x == 1))
        out.append(z3.Implies(a < 0, x < 1))
        out.append(z3.Implies(a > 0, x > 1))
    elif nm == 'm_log':
        pass
    elif nm == 'm_cospi':
        out.append(z3.And(x <= 1, x >= -1))
        out.append(z3.Implies(a == 0, x == 1))
        out.append(z3.Implies(z3.Or(a == 1, a == -1), x == -1))
    elif nm in ('m_cos', 'm_sin'):
        out.append(z3.And(x <= 1, x >= -1))
        if nm == 'm_cos':
            out.append(z3.Implies(a == 0, x == 1))
        else:
            out.append(z3.Implies(a == 0, x == 0))
            # the double nearest to pi lies below pi
            out.append(z3.Implies(z3.And(
                a >= 0, a <= z3.RealVal('%.50f' % math.pi)),
                x >= 0))
    return out


def math_pairs(x, y):
    nm = x.decl().name()
    if y.decl().name() != nm:
        return []
    a, b = x.arg(0), y.arg(0)
    if nm == 'm_exp':
        return [z3.Implies(a < b, x < y), z3.Implies(b < a, y < x)]
    if nm == 'm_log':
        return [z3.Implies(z3.And(0 < a, a < b), x < y),
                z3.Implies(z3.And(0 < b, b < a), y < x)]
    if nm == 'm_sqrt':
        return [z3.Implies(z3.And(0 <= a, a < b), x < y),
                z3.Implies(z3.And(0 <= b, b < a), y < x)]
    return []


def generate(E, insts, pool, maths, done, light):
    out = []

    def add(key, f):
        if key in done:
            return
        done.add(key)
        out.append(f)

    il = list(insts.values())
    order = sorted(pool.items(), key=lambda x: z3.is_const(x[1]) and
                   x[1].decl().name().startswith('i_cg_'))
    plim = dict(order[:60])
    for i in il:
        for key, f in per_instance(i, {} if light else plim):
            add(key, f)
    by = {}
    for i in il:
        by.setdefault(i.kind, []).append(i)
    for kind, group in by.items():
        if light and len(group) > 6:
            continue
        for i1, i2 in itertools.islice(
                itertools.combinations(group, 2), 1500):
            key = ('cg', _key(i1), _key(i2))
            if key in done:
                continue
            done.add(key)
            c = congruence(i1, i2, len(group) <= 8)
            if c is not None:
                out.append(c)
            out += pair_axioms(i1, i2)
    for ext in ('max', 'min'):
        for i1 in by.get(ext, []):
            for i2 in by.get('arg' + ext, []):
                b1, b2 = i1.comps[0], i2.comps[0]
                if len(b1[0]) == 1 and len(b2[0]) == 1 and \
                        b1[0][0].eq(b2[0][0]) and i1.body(0, [I0]).eq(
                            i2.body(0, [I0])) and i1.body(
                                0, [i2.app]).eq(i2.body(0, [i2.app])):
                    add(('am', _key(i1), _key(i2)), z3.Implies(
                        b1[0][0] > 0, i1.app == i2.body(0, [i2.app])))
    ml = list(maths.values())
    for x in ml:
        key = ('m', x.get_id())
        if key not in done:
            done.add(key)
            out += math_axioms(x)
    if not light:
        for x, y in itertools.islice(itertools.combinations(ml, 2), 600):
            key = ('mp', x.get_id(), y.get_id())
            if key not in done:
                done.add(key)
                out += math_pairs(x, y)
    return out
