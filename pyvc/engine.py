"""Path exploration, obligations and the interface to the solvers."""
import itertools
import os
import subprocess
import tempfile
import math
import time
import z3

from .values import (Unsupported, SNum, SBool, SCplx, STime, TRUE, FALSE,
                     z_and, z_or, z_not, toreal, is_const, const_of)


class Infeasible(BaseException):
    """The current path has no states (assume(False) or dead branch)."""


class PathLimit(Unsupported):
    pass


def has_bound(t):
    """does the term mention a variable bound by an array operator?  (loop
    variables, '$l', are arbitrary but fixed inside their loop body)"""
    return any(not v.decl().name().startswith('$l') for v in bound_vars(t))


_bv_cache = {}
_bv_keep = []


def bound_vars(t):
    """frozenset of '$' constants in t (as terms)."""
    key = t.get_id()
    r = _bv_cache.get(key)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        k = x.get_id()
        if k in _bv_cache:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            _bv_cache[k] = frozenset()
            _bv_keep.append(x)
            stack.pop()
            continue
        ch = x.children()
        pend = [c for c in ch if c.get_id() not in _bv_cache]
        if pend:
            stack.extend(pend)
            continue
        if not ch and z3.is_const(x) and \
                x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                x.decl().name().startswith('$'):
            s = frozenset([x])
        else:
            s = frozenset()
            for c in ch:
                s |= _bv_cache[c.get_id()]
        _bv_cache[k] = s
        _bv_keep.append(x)
        stack.pop()
    return _bv_cache[key]


INT = z3.IntSort()
_fv_cache = {}


def free_vars(t):
    """does the term mention variables of operators or index constants?"""
    key = t.get_id()
    r = _fv_cache.get(key)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        k = x.get_id()
        if k in _fv_cache:
            stack.pop()
            continue
        ch = [] if z3.is_quantifier(x) else x.children()
        pend = [c for c in ch if c.get_id() not in _fv_cache]
        if pend:
            stack.extend(pend)
            continue
        if z3.is_quantifier(x):
            r = False
        elif not ch:
            nm = x.decl().name() if z3.is_app(x) and \
                x.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
            r = nm.startswith('$') or (
                nm.startswith('i_') and x.sort() == z3.IntSort())
        else:
            r = any(_fv_cache[c.get_id()] for c in ch)
        _fv_cache[k] = r
        _bv_keep.append(x)
        stack.pop()
    return _fv_cache[key]


class FunDef(object):
    """An operator on whole arrays (sum, max, FFT bin, spline value, ...).

    comps: list of (bounds, vars, bodies): the array arguments, as terms over
    canonical bound variables; scalars: plain terms; params: free bound
    variables of an enclosing binder.
    """

    def __init__(self, kind, sort, decl, params, comps, scalars, fid, opts):
        self.kind, self.sort, self.decl = kind, sort, decl
        self.params, self.comps, self.scalars = params, comps, scalars
        self.fid, self.opts = fid, opts


class Inst(object):
    def __init__(self, fd, args, app):
        self.fd, self.app = fd, app
        sub = [(p, a) for p, a in zip(fd.params, args) if not p.eq(a)]
        self.subst = sub

        def s(t):
            return z3.substitute(t, *sub) if sub else t
        self.comps = [([s(b) for b in bounds], vs, [s(x) for x in bodies])
                      for bounds, vs, bodies in fd.comps]
        self.scalars = [s(x) for x in fd.scalars]
        self.kind = fd.kind
        self.opts = fd.opts

    def body(self, ci, idx, bi=0):
        bounds, vs, bodies = self.comps[ci]
        return z3.substitute(bodies[bi], *list(zip(vs, idx)))


class Obligation(object):
    def __init__(self, name, status, backend, secs, model=None, note='',
                 exact=True):
        self.name, self.status, self.backend = name, status, backend
        self.secs, self.model, self.note = secs, model, note
        self.exact = exact


class Engine(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.funs = {}          # decl name -> FunDef
        self.fun_keys = {}
        self.keep = []
        self.in_arrays = {}     # decl name -> arity (input arrays)
        self.fresh_n = itertools.count()
        self.known_cache = {}
        self.obligations = []
        self.timeout_ms = 10000
        self.feas_ms = 1500
        self.max_paths = 400
        self.max_depth = 120
        self.use_cvc5 = True
        self.assumed = set()    # names of assumed dependency contracts used
        self.called = set()     # functions of the code executed symbolically
        self.stats = dict(paths=0, dead=0, solver_s=0.0)
        self.axiom_opts = set()
        self.reset_path()

    def reset_path(self):
        self.pc = []
        self.prefix = []
        self.pos = 0
        self.trace = []
        self.work = []
        self.journal = []
        self.loop_stack = []
        self.bdepth = 0
        self.inputs = {}
        self.path_local_n = 0
        self.fresh_n = itertools.count()

    # ------------------------------------------------------------------
    # symbols
    def fresh(self, base, sort=None):
        n = '%s!%d' % (base, next(self.fresh_n))
        return z3.Const(n, sort if sort is not None else z3.IntSort())

    # ------------------------------------------------------------------
    # paths
    def explore(self, run):
        """run() once per feasible path; yields nothing, collects."""
        work = [[]]
        n = 0
        outs = []
        while work:
            prefix = work.pop()
            self.reset_path()
            self.prefix = list(prefix)
            self.work = work
            n += 1
            if n > self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            try:
                outs.append(run())
                self.stats['paths'] += 1
            except Infeasible:
                self.stats['dead'] += 1
        return outs

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.pc.append(cond if v else z3.Not(cond))
            return v
        if has_bound(cond):
            raise Unsupported('branch on an element inside an array operator')
        if len(self.trace) > self.max_depth:
            raise PathLimit('path deeper than %d decisions' % self.max_depth)
        ct = self.feasible(cond)
        cf = self.feasible(z3.Not(cond))
        if not ct and not cf:
            raise Infeasible()
        if ct and cf:
            self.work.append(self.trace + [False])
            v = True
        else:
            v = ct
        self.pos += 1
        self.prefix = self.prefix + [v]
        self.trace.append(v)
        self.pc.append(cond if v else z3.Not(cond))
        return v

    def choose(self, n, label='choice'):
        """demonic choice of 0..n-1, every value explored"""
        c = self.fresh(label)
        for i in range(n - 1):
            if self.decide(c == i):
                return i
        self.pc.append(c == n - 1)
        return n - 1

    def sub_explore(self, run):
        """Explore all paths of run() from the current state; state changes
        to array storage are journaled, collected and undone."""
        saved = (self.prefix, self.pos, self.trace, self.work)
        work = [[]]
        outs = []
        n = 0
        mark = len(self.pc)
        try:
            while work:
                prefix = work.pop()
                n += 1
                if n > 64:
                    raise PathLimit('loop body with more than 64 paths')
                self.prefix, self.pos, self.trace, self.work = \
                    list(prefix), 0, [], work
                j = len(self.journal)
                kind, res = 'ok', None
                try:
                    res = run()
                except Infeasible:
                    kind = 'dead'
                except Exception as e:
                    kind, res = 'exc', e
                cond = self.pc[mark:]
                del self.pc[mark:]
                writes = {}
                for st, old in self.journal[j:]:
                    writes.setdefault(st, [old, None])
                for st in writes:
                    writes[st][1] = st.fn
                for st, old in reversed(self.journal[j:]):
                    st.fn = old
                del self.journal[j:]
                if kind != 'dead':
                    outs.append((cond, kind, res, writes))
        finally:
            del self.pc[mark:]
            self.prefix, self.pos, self.trace, self.work = saved
        return outs

    def assume(self, cond):
        if isinstance(cond, SBool):
            cond = cond.t
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        c = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if z3.is_false(c):
            raise Infeasible()
        if not z3.is_true(c):
            self.pc.append(c)

    def feasible(self, cond):
        key = (tuple(p.get_id() for p in self.pc), cond.get_id(), 'f')
        if key in self.known_cache:
            return self.known_cache[key]
        s = z3.Solver()
        s.set('timeout', self.feas_ms)
        t0 = time.time()
        s.add(*self.pc)
        s.add(cond)
        r = s.check()
        if r == z3.sat and self.funs:
            ax = self.axioms(self.pc + [cond], rounds=1, light=True)
            if ax:
                s.add(*ax)
                r = s.check()
        self.stats['solver_s'] += time.time() - t0
        self.keep.append(cond)
        self.keep.extend(self.pc)
        self.known_cache[key] = (r != z3.unsat)
        return r != z3.unsat

    def same(self, a, b):
        """the path condition alone makes the integers equal"""
        d = z3.simplify(a - b)
        if is_const(d):
            return d.as_long() == 0
        key = (tuple(p.get_id() for p in self.pc), d.get_id(), 's')
        if key not in self.known_cache:
            s = z3.Solver()
            s.set('timeout', 300)
            s.add(*[p for p in self.pc if not z3.is_quantifier(p)])
            s.add(d != 0)
            self.keep.append(d)
            self.keep.extend(self.pc)
            self.known_cache[key] = s.check() == z3.unsat
        return self.known_cache[key]

    def known(self, cond):
        """True/False when entailed by the path condition, else None."""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SBool):
            cond = cond.t
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.feasible(z3.Not(cond)):
            return True
        if not self.feasible(cond):
            return False
        return None

    def unique_value(self, t):
        s = z3.Solver()
        s.set('timeout', self.feas_ms)
        s.add(*self.pc)
        if s.check() != z3.sat:
            return None
        v = s.model().eval(t, model_completion=True)
        if not is_const(v):
            return None
        s.add(t != v)
        if s.check() == z3.unsat:
            return const_of(v)
        return None

    # ------------------------------------------------------------------
    # operators on arrays
    def make_fun(self, kind, comps, scalars, sort, opts=None):
        """comps: list of (bounds, vars, bodies) -> application term.

        The definition is closed over everything that varies: variables of
        enclosing operators and index constants become parameters, all with
        canonical names, so that equal operators get the same symbol."""
        pool, order, own_ids = {}, [], set()
        # 1. own variables get canonical names
        ren = []
        for ci, (bounds, vs, bodies) in enumerate(comps):
            ws = [z3.Const('$v%d_%d' % (ci, k), v.sort())
                  for k, v in enumerate(vs)]
            sub = list(zip(vs, ws))
            own_ids |= set(w.get_id() for w in ws)
            ren.append((list(bounds), ws, [
                z3.substitute(b, *sub) if sub else b for b in bodies]))
        # 2. parameters, in the order of their first occurrence: variables and
        # whole index terms that do not depend on the own variables
        seen = set()

        def param(x):
            if x.get_id() not in pool:
                pool[x.get_id()] = x
                order.append(x)

        def mine(x):
            return any(v.get_id() in own_ids for v in bound_vars(x))

        def walk(t, own):
            stack = [t]
            while stack:
                x = stack.pop()
                k = x.get_id()
                if k in seen or k in pool or z3.is_quantifier(x) or \
                        z3.is_var(x):
                    continue
                seen.add(k)
                if x.num_args() == 0:
                    if free_vars(x):
                        if own and k in own_ids:
                            seen.discard(k)
                        else:
                            param(x)
                    continue
                ch = x.children()
                nm = x.decl().name()
                if nm in self.in_arrays or nm in self.funs:
                    rest = []
                    for c in ch:
                        if c.sort() == INT and c.num_args() and \
                                not (own and mine(c)):
                            param(c)
                        else:
                            rest.append(c)
                    ch = rest
                stack.extend(reversed(ch))
        for t in scalars:
            walk(t, False)
        for bounds, ws, bodies in ren:
            for t in bounds:
                walk(t, False)
        if any(k in own_ids for k in pool):
            raise Unsupported('capture of a bound variable')
        for bounds, ws, bodies in ren:
            for t in bodies:
                walk(t, True)
        args = order
        params = [z3.Const('$q%d' % k, a.sort()) for k, a in enumerate(args)]
        sub = list(zip(args, params))

        def f(t):
            return z3.simplify(z3.substitute(t, *sub)) if sub else \
                z3.simplify(t)
        comps = [([f(b) for b in bounds], ws, [f(b) for b in bodies])
                 for bounds, ws, bodies in ren]
        scalars = [f(t) for t in scalars]
        key = (kind, str(sort), tuple(s.get_id() for s in scalars), tuple(
            (tuple(b.get_id() for b in bounds),
             tuple(v.get_id() for v in vs),
             tuple(b.get_id() for b in bodies))
            for bounds, vs, bodies in comps),
            tuple(str(p.sort()) for p in params))
        fd = self.fun_keys.get(key)
        if fd is None:
            fid = len(self.funs)
            name = '%s!f%d' % (kind, fid)
            decl = z3.Function(
                name, *([p.sort() for p in params] + [sort]))
            fd = FunDef(kind, sort, decl, params, comps, list(scalars), fid,
                        opts or {})
            self.funs[name] = fd
            self.fun_keys[key] = fd
            self.keep.append((comps, scalars))
        return fd.decl(*args)

    # ------------------------------------------------------------------
    # axioms
    def scan(self, terms, seen, insts, pool, maths):
        stack = list(terms)
        while stack:
            x = stack.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen[k] = x
            if z3.is_quantifier(x):
                continue
            if not z3.is_app(x):
                continue
            d = x.decl()
            ch = x.children()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                if nm in self.funs:
                    if not has_bound(x):
                        insts[k] = i = Inst(self.funs[nm], ch, x)
                        if i.kind in ('argmax', 'argmin'):
                            pool[k] = x
                        # operators that do not depend on the index
                        for bounds, vs, bodies in i.comps:
                            stack += list(bounds) + list(bodies)
                        stack += i.scalars
                elif nm in self.in_arrays:
                    for c in ch:
                        if c.sort() == z3.IntSort() and not has_bound(c):
                            pool[c.get_id()] = c
                elif nm.startswith('m_'):
                    if not has_bound(x):
                        maths[k] = x
                elif not ch and nm.startswith('i_') and \
                        x.sort() == z3.IntSort():
                    pool[k] = x
            stack.extend(ch)

    def merge_funs(self, facts):
        """operator symbols that denote the same function on this path (their
        array arguments agree everywhere) -> list of (symbol, definition) for
        substitute_funs"""
        from . import axioms as A
        todo, fds, seen = list(facts), {}, set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            nm = x.decl().name()
            fd = self.funs.get(nm)
            if fd is not None and fd.fid not in fds:
                fds[fd.fid] = fd
                for bounds, vs, bodies in fd.comps:
                    todo += list(bounds) + list(bodies)
                todo += fd.scalars
            todo.extend(x.children())
        M, groups, tries = [], {}, 0
        for fid in sorted(fds):
            fd = fds[fid]
            sig = (fd.kind, str(fd.sort), len(fd.params), len(fd.scalars),
                   tuple((len(c[0]), len(c[2])) for c in fd.comps))
            me = self._view(fd, M)
            for rep, rv in groups.setdefault(sig, []):
                if tries > 200:
                    break
                tries += 1
                if self._same_op(A, me, rv):
                    M.append((fd.decl, rep.decl(*[
                        z3.Var(k, p.sort()) for k, p in enumerate(
                            fd.params)])))
                    break
            else:
                groups[sig].append((fd, me))
        return M

    def _view(self, fd, M):
        """the definition with canonical parameter and index names"""
        ps = [z3.Const('$q%d' % k, p.sort()) for k, p in enumerate(fd.params)]
        par = list(zip(fd.params, ps))
        i = Inst(fd, ps, fd.decl(*ps))

        def fix(t, own):
            t = z3.substitute(t, *(own + par)) if own + par else t
            return z3.substitute_funs(t, *M) if M else t
        i.comps = []
        for ci, (bounds, vs, bodies) in enumerate(fd.comps):
            ws = [z3.Const('$v%d_%d' % (ci, k), v.sort())
                  for k, v in enumerate(vs)]
            own = list(zip(vs, ws))
            ids = set(v.get_id() for v in vs)
            i.comps.append((
                [fix(b, []) for b in bounds], ws,
                [fix(b, own) if not any(p.get_id() in ids for p in fd.params)
                 else fix(z3.substitute(b, *own), []) for b in bodies]))
        i.scalars = [fix(x, []) for x in fd.scalars]
        return i

    def axiom_rounds(self, facts, M=(), rounds=3, light=False):
        """cumulative instances of the axioms after each round"""
        from . import axioms as A
        seen, insts, pool, maths = {}, {}, {}, {}
        done = set()
        out = []
        todo = list(facts)
        for rnd in range(rounds):
            self.scan(todo, seen, insts, pool, maths)
            new = A.generate(self, insts, pool, maths, done, light)
            if M:
                new = [z3.substitute_funs(x, *M) for x in new]
            if not new:
                break
            out += new
            todo = new
            yield list(out)
            if len(out) > 6000:
                break

    def axioms(self, facts, rounds=3, light=False, M=()):
        out = []
        for out in self.axiom_rounds(facts, M, rounds, light):
            pass
        return out

    # ------------------------------------------------------------------
    # obligations
    def prove(self, name, cond, note='', hints=()):
        if isinstance(cond, SBool):
            cond = cond.t
        if cond is True:
            cond = TRUE
        elif cond is False:
            cond = FALSE
        t0 = time.time()
        ob = self._prove(name, cond, hints)
        ob.secs = time.time() - t0
        ob.note = note
        ob.pc = list(self.pc)
        ob.cond = cond
        ob.inputs = dict(self.inputs)
        self.stats['solver_s'] += ob.secs
        self.obligations.append(ob)
        return ob.status == 'proved'

    def _prove(self, name, cond, hints):
        g = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if z3.is_true(g):
            return Obligation(name, 'proved', 'simplify', 0)
        if self.algebra(g) or self.algebra(cond):
            return Obligation(name, 'proved', 'algebra', 0)
        facts = list(self.pc) + list(hints) + [z3.Not(g)]
        # stage 1: without axioms
        s = z3.Solver()
        s.set('timeout', min(self.timeout_ms, 3000))
        s.add(*facts)
        r = s.check()
        if r == z3.unsat:
            return Obligation(name, 'proved', 'z3', 0)
        if self.rounded(facts[:-1] + [z3.Not(cond)]):
            return Obligation(name, 'proved', 'z3-nra', 0)
        M = self.merge_funs(facts)
        if M:
            facts = [z3.substitute_funs(f, *M) for f in facts]
        eqs, facts = self.sweep(facts)
        if eqs or M:
            g = z3.simplify(z3.And(*facts))
            if z3.is_false(g):
                return Obligation(name, 'proved', 'z3', 0)
        facts = self.units(facts)
        if any(z3.is_false(f) for f in facts):
            return Obligation(name, 'proved', 'z3', 0)
        if self.nra(facts):
            return Obligation(name, 'proved', 'z3-nra', 0)
        ax, last = [], None
        rel = self.relevant(facts)
        for fs in ([rel, facts] if len(rel) < len(facts) else [facts]):
            for k, ax in enumerate(self.axiom_rounds(fs, M)):
                if (k == 2 and fs is not facts) or len(ax) > 6000:
                    break
                last = (fs, ax)
                if self.linear_uf(fs + ax + eqs, 2000 + 2000 * k):
                    return Obligation(name, 'proved', 'z3-uf', 0)
        ax = (last[1] if last else []) + eqs
        exact = not ax
        if ax:
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            s.add(*facts)
            s.add(*ax)
            r = s.check()
            if r == z3.unsat:
                return Obligation(name, 'proved', 'z3', 0)
        elif r == z3.unknown:
            s.set('timeout', self.timeout_ms)
            r = s.check()
            if r == z3.unsat:
                return Obligation(name, 'proved', 'z3', 0)
        if r == z3.sat:
            m = s.model()
            return Obligation(name, 'refuted', 'z3', 0, m, exact=exact)
        # second back end
        if self.use_cvc5:
            c = self.cvc5(s)
            if c == 'unsat':
                return Obligation(name, 'proved', 'cvc5', 0)
        return Obligation(name, 'unknown', 'z3', 0, None, exact=exact)

    def units(self, facts):
        """facts with the truth values of the literals among them filled
        in"""
        for _ in range(2):
            lits, todo = {}, list(facts)
            while todo:
                f = todo.pop()
                if z3.is_and(f):
                    todo.extend(f.children())
                elif z3.is_not(f):
                    if z3.is_or(f.arg(0)):
                        todo.extend(z3.Not(x) for x in f.arg(0).children())
                    elif not z3.is_and(f.arg(0)):
                        lits[f.arg(0).get_id()] = (f.arg(0), FALSE)
                elif not z3.is_or(f) and not z3.is_quantifier(f):
                    lits[f.get_id()] = (f, TRUE)
            lits = [v for v in lits.values() if z3.is_app(v[0]) and (
                v[0].num_args() == 0 or
                v[0].decl().kind() == z3.Z3_OP_UNINTERPRETED)
                and not z3.is_true(v[0]) and not z3.is_false(v[0])]
            if not lits:
                break
            own = [v[0] if z3.is_true(v[1]) else z3.Not(v[0]) for v in lits]
            new = [f if z3.is_quantifier(f) else
                   z3.simplify(z3.substitute(f, *lits)) for f in facts]
            goal = new[-1]
            new = [f for f in new[:-1] if not z3.is_true(f)] + own + [goal]
            if len(new) == len(facts) and all(
                    a.eq(b) for a, b in zip(new, facts)):
                break
            facts = new
        return facts

    def relevant(self, facts):
        """facts whose operators all occur in the goal (the last fact)"""
        def ops(t):
            out, stack, seen = set(), [t], set()
            while stack:
                x = stack.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                nm = x.decl().name()
                if nm in self.funs:
                    out.add(nm)
                    fd = self.funs[nm]
                    for bounds, vs, bodies in fd.comps:
                        stack += list(bounds) + list(bodies)
                    stack += fd.scalars
                stack.extend(x.children())
            return out
        g = ops(facts[-1])
        return [f for f in facts[:-1] if ops(f) <= g] + [facts[-1]]

    def linear_uf(self, fs, ms=8000):
        """refute with products and quotients of unknowns replaced by
        uninterpreted functions (a generalisation)"""
        cache, comm = {}, []

        def const(t):
            return z3.is_int_value(t) or z3.is_rational_value(t)

        def fun(name, args, sort):
            return z3.Function('%s%d_%s' % (name, len(args), sort), *(
                [a.sort() for a in args] + [sort]))(*args)

        def signs(r, xs):
            if len(xs) == 2:
                a, b = xs
                if a.eq(b):
                    return [r >= 0, z3.Implies(r == 0, a == 0)]
                return [z3.Implies(z3.And(a >= 0, b >= 0), r >= 0),
                        z3.Implies(z3.And(a <= 0, b <= 0), r >= 0),
                        z3.Implies(z3.And(a >= 0, b <= 0), r <= 0),
                        z3.Implies(z3.And(a <= 0, b >= 0), r <= 0),
                        (r == 0) == z3.Or(a == 0, b == 0)]
            return [z3.Implies(z3.And(*[a >= 0 for a in xs]), r >= 0),
                    z3.Implies(z3.And(*[a > 0 for a in xs]), r > 0)]

        def tr(t):
            k = t.get_id()
            r = cache.get(k)
            if r is not None:
                return r[1]
            if not z3.is_app(t) or t.num_args() == 0:
                r = t
            else:
                ch = [tr(c) for c in t.children()]
                op = t.decl().kind()
                r = None
                if op == z3.Z3_OP_MUL:
                    cs = [c for c in ch if const(c)]
                    xs = [c for c in ch if not const(c)]
                    if len(xs) > 1:
                        xs.sort(key=lambda c: (c.decl().name(), c.get_id()))
                        r = fun('nlmul', xs, t.sort())
                        if len(xs) == 2 and xs[0].decl().eq(xs[1].decl()):
                            comm.append(r == fun('nlmul', xs[::-1],
                                                 t.sort()))
                        comm.extend(signs(r, xs))
                        for c in cs:
                            r = c * r
                elif op in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
                            z3.Z3_OP_POWER) and not const(ch[1]):
                    r = fun('nl%d' % op, ch, t.sort())
                    if op == z3.Z3_OP_DIV:
                        a, b = ch
                        comm.extend([
                            z3.Implies(z3.And(b > 0, a >= 0), r >= 0),
                            z3.Implies(z3.And(b > 0, a <= 0), r <= 0),
                            z3.Implies(z3.And(b > 0, a > 0), r > 0)])
                if r is None:
                    r = t if all(a.eq(b) for a, b in zip(
                        ch, t.children())) else t.decl()(*ch)
            cache[k] = (t, r)
            return r
        try:
            gs = [f if z3.is_quantifier(f) else tr(z3.simplify(f))
                  for f in fs] + comm
            # the search is sensitive to chance: several attempts
            for seed, solver in ((0, 6), (3, 2), (11, 6)):
                s = z3.Solver()
                s.set('timeout', min(self.timeout_ms, ms))
                s.set('random_seed', seed)
                s.set('arith.solver', solver)
                s.add(*gs)
                r = s.check()
                if r != z3.unknown:
                    return r == z3.unsat
            return False
        except z3.Z3Exception:
            return False

    def nra(self, facts, ms=4000):
        """refute the facts in pure real arithmetic: everything that is not
        real arithmetic is replaced by a fresh constant (a generalisation)"""
        from . import axioms as A
        goal = facts[-1]
        seen, insts, pool, maths = {}, {}, {}, {}
        self.scan([goal], seen, insts, pool, maths)
        ax = []
        ml = list(maths.values())[:12]
        for x in ml:
            ax += A.math_axioms(x)
        for k, x in enumerate(ml):
            for y in ml[k + 1:]:
                ax += A.math_pairs(x, y)
        cache, extra = {}, []
        AR = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS,
              z3.Z3_OP_DIV)
        BO = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES,
              z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_XOR)
        CM = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
              z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)
        REAL, BOOL = z3.RealSort(), z3.BoolSort()

        def pur(t):
            k = t.get_id()
            if k in cache:
                return cache[k][1]
            op = t.decl().kind() if z3.is_app(t) else None
            so = t.sort()
            num_ = so == REAL or so == INT
            ch = t.children() if z3.is_app(t) else []
            if z3.is_rational_value(t):
                r = t
            elif z3.is_int_value(t):
                r = z3.RealVal(t.as_long())
            elif op == z3.Z3_OP_TO_REAL:
                r = pur(ch[0])
            elif num_ and op in AR:
                c = [pur(x) for x in ch]
                if op == z3.Z3_OP_UMINUS:
                    r = -c[0]
                elif op == z3.Z3_OP_DIV:
                    r = c[0] / c[1]
                elif op == z3.Z3_OP_ADD:
                    r = z3.Sum(c)
                elif op == z3.Z3_OP_MUL:
                    r = z3.Product(c)
                else:
                    r = c[0]
                    for x in c[1:]:
                        r = r - x
            elif op == z3.Z3_OP_ITE and (num_ or so == BOOL):
                r = z3.If(*[pur(x) for x in ch])
            elif op in BO and so == BOOL:
                r = t.decl()(*[pur(x) for x in ch]) if ch else t
            elif op in CM and ch[0].sort() in (REAL, INT, BOOL):
                a, b = pur(ch[0]), pur(ch[1])
                r = {z3.Z3_OP_LE: lambda: a <= b, z3.Z3_OP_GE: lambda: a >= b,
                     z3.Z3_OP_LT: lambda: a < b, z3.Z3_OP_GT: lambda: a > b,
                     z3.Z3_OP_EQ: lambda: a == b,
                     z3.Z3_OP_DISTINCT: lambda: a != b}[op]()
            elif num_:
                r = z3.Const('p!%d' % k, REAL)
                if op == z3.Z3_OP_TO_INT:
                    x = pur(ch[0])
                    extra.extend([r <= x, x < r + 1])
                elif op == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and \
                        ch[1].as_long() > 0:
                    x, c = pur(ch[0]), ch[1].as_long()
                    extra.extend([c * r <= x, x <= c * r + c - 1])
                elif op == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and \
                        ch[1].as_long() > 0:
                    extra.extend([r >= 0, r <= ch[1].as_long() - 1])
            elif so == BOOL:
                r = z3.Const('p!%d' % k, BOOL)
            else:
                r = None
            cache[k] = (t, r)
            return r
        try:
            fs = [pur(z3.simplify(f)) for f in facts + ax
                  if not z3.is_quantifier(f)]
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', min(self.timeout_ms, ms))
            s.add(*(fs + extra))
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False

    def algebra(self, g):
        """equation of real terms that cancels to 0 = 0"""
        from .mathfun import laurent
        if z3.is_and(g):
            return all(self.algebra(x) for x in g.children())
        if z3.is_or(g):
            return any(self.algebra(x) for x in g.children())
        if z3.is_true(g):
            return True
        if z3.is_eq(g) and g.arg(0).eq(g.arg(1)):
            return True
        if not z3.is_eq(g) or g.arg(0).sort() != z3.RealSort():
            return False
        r = laurent(g.arg(0) - g.arg(1))
        return r is not None and not r[0]

    def named_rounds(self, facts):
        """facts with each rounded value (floor, round, conditional number)
        replaced by a constant, the same one for equal arguments, and the
        facts that define those constants"""
        from .mathfun import laurent, as_int, poly_cmp
        cache, names, defs = {}, {}, []
        keep = []
        REAL, BOOL = z3.RealSort(), z3.BoolSort()
        CM = {z3.Z3_OP_LE: lambda a: a <= 0, z3.Z3_OP_GE: lambda a: a >= 0,
              z3.Z3_OP_LT: lambda a: a < 0, z3.Z3_OP_GT: lambda a: a > 0,
              z3.Z3_OP_EQ: lambda a: a == 0,
              z3.Z3_OP_DISTINCT: lambda a: a != 0}

        def poly(t):
            r = laurent(t, 60)
            if r is None:
                return None, t
            ps, atoms = r
            tot = []
            for m, c in sorted(ps.items()):
                f = [z3.RealVal(str(c))]
                for a, e in m:
                    x = atoms[a]
                    x = z3.ToReal(x) if x.sort() == INT else x
                    f += [x if e > 0 else 1 / x] * abs(e)
                tot.append(z3.Product(f) if len(f) > 1 else f[0])
            keep.append(atoms)
            return tuple(sorted(ps.items())), (
                z3.Sum(tot) if tot else z3.RealVal(0))

        known = {}

        def decided(c0, c):
            k = c0.get_id()
            if k not in known:
                v = z3.simplify(c)
                v = True if z3.is_true(v) else (
                    False if z3.is_false(v) else None)
                if v is None and len(known) < 30:
                    v = self.known(c0)
                known[k] = (c0, v)
            return known[k][1]

        def lcd(t):
            """common denominator if t is a fraction of integers"""
            r = laurent(t, 60)
            if r is None:
                return None
            q = 1
            for m, c in r[0].items():
                if any(e < 0 or r[1][a].sort() != INT for a, e in m):
                    return None
                q = math.lcm(q, c.denominator)
            return q

        def go(t):
            k = t.get_id()
            if k in cache:
                return cache[k][1]
            r = t
            if z3.is_app(t) and t.num_args():
                ch = [go(x) for x in t.children()]
                op = t.decl().kind()
                if op == z3.Z3_OP_TO_INT:
                    key, x = poly(ch[0])
                    if lcd(ch[0]) == 1:
                        r = as_int(x)
                        if r is not None:
                            cache[k] = (t, r)
                            return r
                    key = ('int', key if key is not None else x.get_id())
                    if key not in names:
                        r = z3.Int('r!%d' % len(names))
                        names[key] = (r, x)
                        defs.extend([z3.ToReal(r) <= x, x < r + 1])
                        q = lcd(ch[0])
                        if q:
                            defs.append(x <= z3.ToReal(r) + z3.RealVal(
                                '%d/%d' % (q - 1, q)))
                    r = names[key][0]
                elif op == z3.Z3_OP_ITE and t.sort() in (REAL, INT) and \
                        decided(t.arg(0), ch[0]) is not None:
                    r = ch[1] if decided(t.arg(0), ch[0]) else ch[2]
                elif op == z3.Z3_OP_ITE and t.sort() in (REAL, INT):
                    key = ('if',) + tuple(x.get_id() for x in ch)
                    if key not in names:
                        r = z3.Const('r!%d' % len(names), t.sort())
                        names[key] = (r, ch)
                        defs.extend([z3.Implies(ch[0], r == ch[1]),
                                     z3.Or(ch[0], r == ch[2])])
                    r = names[key][0]
                elif op in CM and ch[0].sort() == REAL:
                    key, x = poly(ch[0] - ch[1])
                    r = poly_cmp(t.decl(), ch[0], ch[1])
                    if r is None:
                        r = CM[op](x)
                else:
                    r = t.decl()(*ch)
            cache[k] = (t, r)
            return r
        out = [go(f) for f in facts]
        self._named = [v for k, v in names.items() if k[0] == 'int']
        return (out, defs) if names else (None, None)

    def rounded(self, facts):
        if not any('to_int' in f.sexpr() for f in facts):
            return False
        fs, defs = self.named_rounds(
            [f for f in facts if not z3.is_quantifier(f)])
        if fs is None:
            return False
        g = z3.simplify(fs[-1])
        if z3.is_false(g) or z3.is_not(g) and self.algebra(g.arg(0)):
            return True
        if self.nra(fs[:-1] + defs + [fs[-1]]):
            return True
        if z3.is_not(g) and z3.is_and(g.arg(0)) and all(
                self.nra(fs[:-1] + defs + [z3.Not(x)], 2000)
                for x in g.arg(0).children()):
            return True
        # rounding is monotonic
        order, tries = [], 0
        named = list(self._named)
        base = [f for f in fs[:-1] if self._no_int(f)]
        for (r1, x1) in named:
            for (r2, x2) in named:
                if r1.eq(r2) or tries >= 12:
                    continue
                tries += 1
                if self.nra(base + [x1 > x2], 1000):
                    order += [x1 <= x2, r1 <= r2]
        if not order:
            return False
        return self.linear_uf(fs[:-1] + defs + order + [fs[-1]], 2000)

    def _no_int(self, f):
        stack = [f]
        while stack:
            x = stack.pop()
            if x.sort() == INT and not z3.is_int_value(x):
                return False
            stack.extend(x.children())
        return True

    def sweep(self, facts):
        """operator applications that are equal because their arguments are
        (one small query per pair) -> (equalities, facts over the
        representatives)"""
        from . import axioms as A
        seen, insts, pool, maths = {}, {}, {}, {}
        self.scan(facts, seen, insts, pool, maths)
        groups = {}
        for i in sorted(insts.values(), key=lambda i: i.fd.fid):
            groups.setdefault(i.kind, []).append(i)
        eqs, sub = [], []
        tries = 0
        for kind, gr in groups.items():
            reps = []
            for i in gr:
                for r in reps:
                    tries += 1
                    if tries > 80:
                        break
                    if self._same_op(A, i, r):
                        eqs.append(i.app == r.app)
                        sub.append((i.app, r.app))
                        break
                else:
                    reps.append(i)
        if not sub:
            return [], facts
        return eqs, [z3.substitute(f, *sub) for f in facts]

    def _same_op(self, A, i1, i2):
        c = A.congruence(i1, i2)
        if c is None:
            return False
        key = ('same', i1.app.get_id(), i2.app.get_id(), tuple(
            p.get_id() for p in self.pc))
        r = self.known_cache.get(key)
        if r is None:
            alts = [x for x in (c.children() if z3.is_or(c) else [c])
                    if not x.eq(i1.app == i2.app)]
            d = z3.simplify(z3.Or(*alts)) if alts else FALSE
            if z3.is_false(d):
                r = True
            else:
                s = z3.Solver()
                s.set('timeout', 1000)
                s.add(*self.pc)
                s.add(d)
                r = s.check() == z3.unsat
            self.known_cache[key] = r
            self.keep.append((i1.app, i2.app, list(self.pc)))
        return r

    def cvc5(self, s):
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2')
        try:
            os.write(fd, txt.encode())
            os.close(fd)
            out = subprocess.run(
                ['cvc5', '--tlimit=%d' % min(self.timeout_ms, 6000), p],
                capture_output=True, text=True,
                timeout=self.timeout_ms / 1000 + 10).stdout
            return out.strip().split('\n')[-1].strip()
        except Exception:
            return 'error'
        finally:
            os.unlink(p)

    def small_model(self, ob):
        """a model of the refuted obligation with small dimensions"""
        dims = ob.inputs.get('__dims__', [])
        for lim in (4, 7, 12, 24):
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            facts = list(ob.pc) + [z3.Not(ob.cond)]
            s.add(*facts)
            s.add(*self.axioms(facts))
            for d in dims:
                s.add(d <= lim)
            if s.check() == z3.sat:
                return s.model()
        return ob.model


E = Engine()
