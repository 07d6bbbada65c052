"""Elementary functions: exact for floor/ceil/round, axiomatised otherwise."""
import math
from fractions import Fraction
import z3
from .values import (SNum, SBool, SCplx, Unsupported, num, lift, toreal,
                     z_or, z_and, z_not, TRUE, is_pynum, ite)

_R = z3.RealSort()
_decls = {}


def decl(name, n=1):
    k = 'm_' + name
    if k not in _decls:
        _decls[k] = z3.Function(k, *([_R] * (n + 1)))
    return _decls[k]


_PY = {'exp': math.exp, 'log': math.log, 'cos': math.cos, 'sin': math.sin}


def uf(name, *args):
    if all(is_pynum(a) for a in args) and name in _PY:
        return _PY[name](*args)
    a = [num(x) for x in args]
    t = decl(name, len(a))(*[toreal(z3.simplify(x.t)) for x in a])
    return SNum(t, z_or(*[x.nan for x in a]))


def sexp(x):
    if isinstance(x, SCplx):
        return SCplx(uf('exp', x.re) * uf('cos', x.im),
                     uf('exp', x.re) * uf('sin', x.im))
    return uf('exp', x)


def slog(x):
    x = num(x)
    r = uf('log', x)
    return SNum(r.t, z_or(r.nan, z3.Not(x.t > 0)))


def ssqrt(x):
    if is_pynum(x):
        return math.sqrt(x) if x >= 0 else float('nan')
    if isinstance(x, SCplx):
        raise Unsupported('complex sqrt')
    x = num(x)
    t = decl('sqrt')(toreal(z3.simplify(x.t)))
    return SNum(t, z_or(x.nan, x.t < 0))


def as_int(t, depth=12):
    """Int term equal to an integral real term, or None"""
    if t.sort() == z3.IntSort():
        return t
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) \
            if t.denominator_as_long() == 1 else None
    if depth == 0 or not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        a = [as_int(x, depth - 1) for x in t.children()]
        if any(x is None for x in a):
            return None
        r = a[0]
        if k == z3.Z3_OP_UMINUS:
            return -r
        for x in a[1:]:
            r = r + x if k == z3.Z3_OP_ADD else (
                r - x if k == z3.Z3_OP_SUB else r * x)
        return r
    if k == z3.Z3_OP_ITE:
        a, b = as_int(t.arg(1), depth - 1), as_int(t.arg(2), depth - 1)
        if a is not None and b is not None:
            return z3.If(t.arg(0), a, b)
    return None


def laurent(t, limit=48):
    """real term as a sum of monomials (products of powers of atoms), with
    t / d cancelled against d where d is known not to vanish:
    ({((atom id, power), ...): coefficient}, {atom id: atom}) or None"""
    from .engine import E
    atoms, nz = {}, {}

    def mul(a, b):
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = dict(m1)
                for k, e in m2:
                    d[k] = d.get(k, 0) + e
                m = tuple(sorted((k, e) for k, e in d.items() if e))
                out[m] = out.get(m, 0) + c1 * c2
        if len(out) > limit:
            return None
        return {m: c for m, c in out.items() if c}

    def go(t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return {(): f} if f else {}
        if z3.is_int_value(t):
            return {(): Fraction(t.as_long())} if t.as_long() else {}
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_TO_REAL:
            return go(t.arg(0))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            out = None
            for i, c in enumerate(t.children()):
                p = go(c)
                if p is None:
                    return None
                if out is None:
                    out = dict(p)
                    continue
                for m, v in p.items():
                    v = out.get(m, 0) + (v if k == z3.Z3_OP_ADD else -v)
                    out[m] = v
            if len(out) > limit:
                return None
            return {m: c for m, c in out.items() if c}
        if k == z3.Z3_OP_UMINUS:
            p = go(t.arg(0))
            return None if p is None else {m: -c for m, c in p.items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for c in t.children():
                p = go(c)
                if p is None:
                    return None
                out = mul(out, p)
                if out is None:
                    return None
            return out
        if k == z3.Z3_OP_DIV:
            p, q = go(t.arg(0)), go(t.arg(1))
            if p is None or q is None or len(q) != 1:
                return atom(t)
            (m, c), = q.items()
            for a, e in m:
                if a not in nz:
                    x = atoms[a]
                    nz[a] = E.known(x != 0) is True
                if not nz[a]:
                    return atom(t)
            return mul(p, {tuple((a, -e) for a, e in m): 1 / c})
        if k == z3.Z3_OP_ITE:
            v = E.known(t.arg(0))
            if v is not None:
                return go(t.arg(1) if v else t.arg(2))
        return atom(t)

    def atom(t):
        atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}
    r = go(t)
    return None if r is None else (r, atoms)


def poly_cmp(f, a, b):
    """f(a, b) for a comparison f of real terms with quotients, without the
    positive factors both sides share (None: no simplification)"""
    if not (_has_div(a) or _has_div(b)):
        return None
    r = laurent(toreal(a) - toreal(b))
    if r is None:
        return None
    t = positive_part(*r)
    if t is None:
        return None
    i = as_int(t)
    ops = {z3.Z3_OP_LE: lambda x, y: x <= y, z3.Z3_OP_LT: lambda x, y: x < y,
           z3.Z3_OP_GE: lambda x, y: x >= y, z3.Z3_OP_GT: lambda x, y: x > y,
           z3.Z3_OP_EQ: lambda x, y: x == y,
           z3.Z3_OP_DISTINCT: lambda x, y: x != y}
    if isinstance(f, z3.FuncDeclRef):
        f = ops[f.kind()]
    return z3.simplify(f(i, z3.IntVal(0)) if i is not None else
                       f(t, z3.RealVal(0)))


def positive_part(poly, atoms):
    """term of a sum of monomials without its common positive factor"""
    from .engine import E
    if not poly:
        return z3.RealVal(0)
    common = None
    for m in poly:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {k: min(e, d.get(k, 0)) for k, e in common.items()}
            for k, e in d.items():
                if e < 0 and k not in common:
                    common[k] = e
    common = {k: e for k, e in common.items() if e and E.known(
        atoms[k] > 0) is True}
    tot = z3.RealVal(0)
    den = math.lcm(*[c.denominator for c in poly.values()])
    for m, c in sorted(poly.items()):
        d = dict(m)
        for k, e in common.items():
            d[k] = d.get(k, 0) - e
        f = z3.RealVal(str(c * den))
        for k, e in sorted(d.items()):
            x = toreal(atoms[k])
            for _ in range(abs(e)):
                f = f * x if e > 0 else f / x
        tot = tot + f
    return z3.simplify(tot)


def _integral(x):
    """x as an Int value if its term is integral, else None"""
    s = z3.simplify(x.t)
    t = as_int(s)
    if t is None and _has_div(s):
        r = laurent(s)
        if r is not None:
            poly, atoms = r
            tot = z3.IntVal(0)
            for m, c in sorted(poly.items()):
                if c.denominator != 1:
                    return None
                f = z3.IntVal(c.numerator)
                for a, e in m:
                    if e < 0 or atoms[a].sort() != z3.IntSort():
                        return None
                    for _ in range(e):
                        f = f * atoms[a]
                tot = tot + f
            t = z3.simplify(tot)
    return None if t is None else SNum(t, x.nan)


def _has_div(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DIV:
                return True
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL,
                                   z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL,
                                   z3.Z3_OP_ITE):
                stack.extend(x.children())
    return False


def sfloor(x):
    """floor as an Int"""
    x = num(x)
    if x.is_int:
        return x
    r = _integral(x)
    if r is not None:
        return r
    return SNum(z3.ToInt(x.t), x.nan)


def sceil(x):
    x = num(x)
    if x.is_int:
        return x
    r = _integral(x)
    if r is not None:
        return r
    return SNum(-z3.ToInt(-x.t), x.nan)


def strunc(x):
    x = num(x)
    if x.is_int:
        return x
    r = _integral(x)
    if r is not None:
        return r
    return SNum(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)), x.nan)


def sround(x, n=None):
    """python/numpy rounding: half to even"""
    if n not in (None, 0):
        f = 10 ** int(n)
        r = sround(num(x) * f)
        return SNum(toreal(r.t), r.nan) / f
    x = num(x)
    if x.is_int:
        return x
    r = _integral(x)
    if r is not None:
        return r
    f = z3.ToInt(x.t)
    fr = x.t - z3.ToReal(f)
    half = z3.RealVal('1/2')
    t = z3.If(fr < half, f, z3.If(fr > half, f + 1,
                                  z3.If(f % 2 == 0, f, f + 1)))
    return SNum(t, x.nan)


def ssign(x):
    x = num(x)
    return SNum(z3.If(x.t > 0, z3.RealVal(1), z3.If(
        x.t < 0, z3.RealVal(-1), z3.RealVal(0))), x.nan)


def smin(a, b):
    a, b = num(a), num(b)
    return ite(a <= b, a, b)


def smax(a, b):
    a, b = num(a), num(b)
    return ite(a >= b, a, b)
