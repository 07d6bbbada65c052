"""Loads /repo's current source for symbolic execution.

What is rewritten (and nothing else): annotations are dropped; subscripts,
subscript/attribute stores and list appends go through helpers so that a
symbolic index works on any container; `for` bodies and comprehension elements
become closures so that a loop over a symbolic range can be executed for one
arbitrary iteration.  Branches need no rewriting (SBool.__bool__ forks).
Names resolved at import time: numpy, scipy, obspy.UTCDateTime, mpi4py and the
numeric builtins are replaced by the contracts in npshim/extern/builtins_shim.
"""
import ast
import builtins
import os
import sys
import types
import importlib

from .values import Sym, SNum, SBool, Unsupported, num, ite
from .engine import E
from . import arrays as A, loops, builtins_shim as B

REPO_SRC = os.environ.get('PYVC_SRC', '/repo/src')


class PV(object):
    """runtime helpers visible to the rewritten code as __pv"""
    BRK = loops.BRK
    for_loop = staticmethod(loops.for_loop)
    comp = staticmethod(loops.comp)
    append = staticmethod(loops.append)
    after_append = staticmethod(loops.after_append)
    newlist = staticmethod(loops.newlist)

    @staticmethod
    def getitem(o, k):
        if isinstance(o, (list, tuple)) and isinstance(k, Sym):
            k = A.ival(k)
            if not isinstance(k, int):
                n = len(o)
                k = A.as_sarray([0] * n)._index(k, n)
                if not isinstance(k, int):
                    return loops.merge(
                        [((num(k) == i).t, v) for i, v in enumerate(o)])
            return o[k]
        if isinstance(o, _np.ndarray) and _symkey(k):
            return A.as_sarray(o)[k]
        return o[k]

    @staticmethod
    def setitem(o, k, v):
        if E.loop_stack and not isinstance(o, A.SArray):
            if not loops._created_in_loop(o):
                raise Unsupported('store into %s inside a symbolic loop'
                                  % type(o).__name__)
        if isinstance(k, SNum) and isinstance(o, list):
            c = A.ival(k)
            if isinstance(c, int):
                k = c
            else:
                for i in range(len(o)):
                    o[i] = ite(num(c) == i, v, o[i])
                return
        o[k] = v

    @staticmethod
    def setattr(o, k, v):
        if E.loop_stack:
            raise Unsupported('attribute store inside a symbolic loop')
        setattr(o, k, v)

    @staticmethod
    def augitem(o, k, f, v):
        cur = PV.getitem(o, k)
        r = f(cur, v)
        PV.setitem(o, k, r)

    @staticmethod
    def mut(o):
        if E.loop_stack and isinstance(o, (list, dict, set)) and \
                not loops._created_in_loop(o):
            raise Unsupported('container mutated inside a symbolic loop')
        return o

    @staticmethod
    def enter(name):
        E.called.add(name)


def _symkey(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, tuple):
        return any(_symkey(x) for x in k)
    if isinstance(k, slice):
        return any(isinstance(x, Sym) for x in (k.start, k.stop, k.step))
    return False


import numpy as _np  # noqa: E402

_OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
        ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
        ast.BitAnd: 'and_', ast.BitOr: 'or_', ast.BitXor: 'xor',
        ast.LShift: 'lshift', ast.RShift: 'rshift', ast.MatMult: 'matmul'}
_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'update', 'sort',
        'clear', 'add', 'setdefault', 'popitem', 'reverse'}


def _pv(name):
    return ast.Attribute(ast.Name('__pv__', ast.Load()), name, ast.Load())


def _stored(nodes):
    """names bound in statements (not descending into functions)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)
        visit_AsyncFunctionDef = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if nm not in out:
                    out.append(nm)
        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def _comp(self, n):
            pass
        visit_ListComp = visit_SetComp = visit_DictComp = _comp
        visit_GeneratorExp = _comp
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def _loads(node):
    return {n.id for n in ast.walk(node)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def _aug(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            out.add(n.target.id)
    return out


def _definitely_assigns(stmt, name):
    if isinstance(stmt, ast.Assign):
        return any(name in _stored([t]) for t in stmt.targets)
    if isinstance(stmt, ast.With):
        return any(_definitely_assigns(s, name) for s in stmt.body)
    if isinstance(stmt, ast.If):
        return bool(stmt.orelse) and any(
            _definitely_assigns(s, name) for s in stmt.body) and any(
            _definitely_assigns(s, name) for s in stmt.orelse)
    return False


def _first_use(stmts, name):
    """'load', 'store' or None: how the statement list first uses name"""
    for s in stmts:
        if isinstance(s, ast.If):
            if name in _loads(s.test):
                return 'load'
            a = _first_use(s.body, name)
            b = _first_use(s.orelse, name)
            if 'load' in (a, b):
                return 'load'
            if a == 'store' and b == 'store':
                return 'store'
            continue
        if isinstance(s, (ast.For, ast.While)):
            hd = s.iter if isinstance(s, ast.For) else s.test
            if name in _loads(hd):
                return 'load'
            if isinstance(s, ast.For) and name in _stored([s.target]):
                continue
            if _first_use(s.body, name) == 'load':
                return 'load'
            continue
        if isinstance(s, ast.With):
            for it in s.items:
                if name in _loads(it.context_expr):
                    return 'load'
            r = _first_use(s.body, name)
            if r:
                return r
            continue
        if isinstance(s, ast.Try):
            r = _first_use(s.body, name)
            if r == 'load':
                return r
            for h in s.handlers:
                if _first_use(h.body, name) == 'load':
                    return 'load'
            continue
        if name in _loads(s) or name in _aug(s):
            return 'load'
        if _definitely_assigns(s, name):
            return 'store'
    return None


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.infn = 0
        self.loopdepth = 0
        self.qual = []
        self.after = []      # stack of (following statements) lists

    # -- functions
    def visit_FunctionDef(self, node):
        node.returns = None
        for a in (node.args.posonlyargs + node.args.args +
                  node.args.kwonlyargs):
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        saved = (self.loopdepth, self.after)
        self.loopdepth, self.after = 0, []
        self.infn += 1
        self.qual.append(node.name)
        node.body = self.block(node.body)
        enter = ast.Expr(ast.Call(_pv('enter'), [ast.Constant(
            self.mod + ':' + '.'.join(self.qual))], []))
        i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and
                  isinstance(node.body[0].value, ast.Constant)) else 0
        node.body.insert(i, enter)
        self.qual.pop()
        self.infn -= 1
        self.loopdepth, self.after = saved
        return node

    def visit_ClassDef(self, node):
        saved = self.infn
        self.infn = 0
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        self.infn = saved
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.Assign([node.target], node.value))

    def block(self, stmts):
        out = []
        for i, s in enumerate(stmts):
            self.after.append(stmts[i + 1:])
            r = self.visit(s)
            self.after.pop()
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        self.after.append(node.body)
        node.body = self.block(node.body)
        self.after.pop()
        node.orelse = self.block(node.orelse)
        return node

    def visit_With(self, node):
        node.items = [self.visit(i) for i in node.items]
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.block(h.body)
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    # -- loops
    def visit_For(self, node):
        has = any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await))
                  for b in node.body for n in ast.walk(b))
        names = _stored(node.body + [node.target])
        simple = self.infn and not has and not any(
            isinstance(n, ast.Delete) and any(
                isinstance(t, ast.Name) for t in n.targets)
            for b in node.body for n in ast.walk(b))
        if not simple:
            node.iter = self.visit(node.iter)
            self.after.append(node.body)
            node.body = self.block(node.body)
            self.after.pop()
            node.orelse = self.block(node.orelse)
            return node
        self.n += 1
        uid = self.n
        tnames = _stored([node.target])
        live = []
        for nm in names:
            fu = _first_use(node.body, nm)
            if nm in tnames:
                fu = None
            lv = False
            for rest in reversed(self.after):
                u = _first_use(rest, nm)
                if u == 'load':
                    lv = True
                    break
                if u == 'store':
                    break
            if fu == 'load' or lv:
                live.append(nm)
        lists = []
        for b in node.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == 'append' \
                        and isinstance(n.func.value, ast.Name):
                    nm = n.func.value.id
                    if nm not in lists and nm not in names:
                        lists.append(nm)
        it = self.visit(node.iter)
        self.loopdepth += 1
        self.after.append(node.body)
        body = self.block(node.body)
        self.after.pop()
        orelse_depth = self.loopdepth
        self.loopdepth -= 1
        orelse = self.block(node.orelse)
        body = [_Flow().visit(b) for b in body]
        flat = []
        for b in body:
            flat += b if isinstance(b, list) else [b]
        fn = 'pv_body_%d' % uid
        arg = 'pv_it_%d' % uid
        res = 'pv_r_%d' % uid
        pre = []
        if names or lists:
            pre.append(ast.If(ast.Constant(0), [ast.Assign(
                [ast.Name(n, ast.Store()) for n in names + lists],
                ast.Constant(None))], []))
        inner = []
        if names:
            inner.append(ast.Nonlocal(list(names)))
        inner.append(ast.Assign([node.target], ast.Name(arg, ast.Load())))
        inner += flat
        args = ast.arguments([], [ast.arg(arg)], None, [], [], None, [])
        pre.append(ast.FunctionDef(fn, args, inner, [], None, None,
                                   type_params=[]))
        gets = ast.Constant(None)
        sets = ast.Constant(None)
        if live:
            gk, gv, sk, sv = [], [], [], []
            for nm in live:
                gk.append(ast.Constant(nm))
                gv.append(ast.Lambda(ast.arguments(
                    [], [], None, [], [], None, []),
                    ast.Name(nm, ast.Load())))
                s = 'pv_set_%d_%s' % (uid, nm)
                pre.append(ast.FunctionDef(
                    s, ast.arguments([], [ast.arg('__v__')], None, [], [],
                                     None, []),
                    [ast.Nonlocal([nm]), ast.Assign(
                        [ast.Name(nm, ast.Store())],
                        ast.Name('__v__', ast.Load()))], [], None, None,
                    type_params=[]))
                sk.append(ast.Constant(nm))
                sv.append(ast.Name(s, ast.Load()))
            gets = ast.Dict(gk, gv)
            sets = ast.Dict(sk, sv)
        call = ast.Call(_pv('for_loop'), [
            it, ast.Name(fn, ast.Load()), ast.Constant(uid),
            ast.List([ast.Constant(n) for n in live], ast.Load()),
            ast.List([ast.Constant(n) for n in lists], ast.Load()),
            gets, sets], [])
        pre.append(ast.Assign([ast.Name(res, ast.Store())], call))
        for nm in lists:
            pre.append(ast.Assign([ast.Name(nm, ast.Store())], ast.Call(
                _pv('after_append'), [ast.Constant(uid), ast.Constant(nm),
                                      ast.Name(nm, ast.Load())], [])))
        isret = ast.Call(ast.Name('isinstance_', ast.Load()), [
            ast.Name(res, ast.Load()), ast.Name('tuple_', ast.Load())], [])
        isret = ast.Compare(ast.Call(ast.Name('type', ast.Load()), [
            ast.Name(res, ast.Load())], []), [ast.Is()],
            [ast.Attribute(ast.Name('__pv__', ast.Load()), 'Tup',
                           ast.Load())])
        r = ast.Return(ast.Name(res, ast.Load()) if self.loopdepth else
                       ast.Subscript(ast.Name(res, ast.Load()),
                                     ast.Constant(1), ast.Load()))
        r._pv_final = True
        pre.append(ast.If(isret, [r], []))
        if orelse:
            pre.append(ast.If(ast.Compare(
                ast.Name(res, ast.Load()), [ast.IsNot()],
                [_pv('BRK')]), orelse, []))
        return pre

    # -- comprehensions
    def _comp(self, node, wrap=None):
        if len(node.generators) != 1 or not self.infn or \
                node.generators[0].is_async:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        tn = _stored([g.target])

        def lam(e):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments(
                    [], [ast.arg(g.target.id)], None, [], [], None, []), e)
            if isinstance(g.target, ast.Tuple) and all(
                    isinstance(x, ast.Name) for x in g.target.elts):
                inner = ast.Lambda(ast.arguments(
                    [], [ast.arg(x.id) for x in g.target.elts], None, [], [],
                    None, []), e)
                return ast.Lambda(ast.arguments(
                    [], [ast.arg('__it__')], None, [], [], None, []),
                    ast.Call(inner, [ast.Starred(ast.Name(
                        '__it__', ast.Load()), ast.Load())], []))
            return None
        if lam(node.elt) is None:
            self.generic_visit(node)
            return node
        elt = lam(self.visit(node.elt))
        conds = [lam(self.visit(c)) for c in g.ifs]
        return ast.Call(_pv('comp'), [self.visit(g.iter), elt,
                                      ast.List(conds, ast.Load())], [])

    def visit_ListComp(self, node):
        return self._comp(node)

    def visit_GeneratorExp(self, node):
        return self._comp(node)

    # -- containers
    def visit_List(self, node):
        self.generic_visit(node)
        if self.infn and not node.elts and isinstance(node.ctx, ast.Load):
            return ast.Call(_pv('newlist'), [node], [])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.infn:
            return ast.Call(_pv('getitem'), [node.value, _key(node.slice)],
                            [])
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        targets = []
        post = []
        if not self.infn:
            node.targets = [self.visit(t) for t in node.targets]
            return node
        if len(node.targets) == 1:
            st = self._store(node.targets[0], node.value)
            if st is not None:
                return st
        for t in node.targets:
            t = self.visit(t)
            if isinstance(t, (ast.Tuple, ast.List)) and any(
                    isinstance(x, (ast.Subscript, ast.Attribute))
                    for x in t.elts):
                self.n += 1
                for i, x in enumerate(t.elts):
                    if isinstance(x, (ast.Subscript, ast.Attribute)):
                        nm = 'pv_t_%d_%d' % (self.n, i)
                        t.elts[i] = ast.Name(nm, ast.Store())
                        post.append(self._store(x, ast.Name(
                            nm, ast.Load()), True))
                targets.append(t)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                self.n += 1
                nm = 'pv_t_%d' % self.n
                targets.append(ast.Name(nm, ast.Store()))
                post.append(self._store(t, ast.Name(nm, ast.Load()), True))
            else:
                targets.append(t)
        node.targets = targets
        return [node] + post if post else node

    def _store(self, t, value, visited=False):
        if isinstance(t, ast.Subscript):
            v = t.value if visited else self.visit(t.value)
            k = t.slice if visited else self.visit(t.slice)
            return ast.Expr(ast.Call(_pv('setitem'), [
                v, _key(k), value], []))
        if isinstance(t, ast.Attribute):
            v = t.value if visited else self.visit(t.value)
            return ast.Expr(ast.Call(_pv('setattr'), [
                v, ast.Constant(t.attr), value], []))
        return None

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript) and self.infn:
            v = self.visit(node.target.value)
            k = self.visit(node.target.slice)
            val = self.visit(node.value)
            return ast.Expr(ast.Call(_pv('augitem'), [
                v, _key(k), ast.Attribute(ast.Name('__op__', ast.Load()),
                                          'i' + _OPS[type(node.op)].strip(
                                              '_'), ast.Load()), val], []))
        if isinstance(node.target, ast.Attribute) and self.infn:
            v = self.visit(node.target.value)
            val = self.visit(node.value)
            return ast.Expr(ast.Call(_pv('setattr'), [
                v, ast.Constant(node.target.attr), ast.Call(
                    ast.Attribute(ast.Name('__op__', ast.Load()), 'i' + _OPS[
                        type(node.op)].strip('_'), ast.Load()),
                    [ast.Attribute(v, node.target.attr, ast.Load()), val],
                    [])], []))
        node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.infn and isinstance(f, ast.Attribute) and f.attr in _MUT:
            if f.attr == 'append' and isinstance(f.value, ast.Name) and \
                    len(node.args) == 1 and not node.keywords:
                return ast.Call(_pv('append'), [
                    ast.Constant(f.value.id), f.value, node.args[0]], [])
            f.value = ast.Call(_pv('mut'), [f.value], [])
        return node


class _Flow(ast.NodeTransformer):
    """break/continue/return of a loop body turned into closure results"""

    def visit_FunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        return node

    def visit_For(self, node):
        node.body = [_flat(_FlowRet().visit(b)) for b in node.body]
        node.body = [x for y in node.body for x in y]
        return node
    visit_While = visit_For

    def visit_Break(self, node):
        return ast.Return(_pv('BRK'))

    def visit_Continue(self, node):
        return ast.Return(ast.Constant(None))

    def visit_Return(self, node):
        if getattr(node, '_pv_final', False):
            return node
        return ast.Return(ast.Tuple([
            ast.Constant('ret'), node.value or ast.Constant(None)],
            ast.Load()))


class _FlowRet(_Flow):
    def visit_Break(self, node):
        return node

    def visit_Continue(self, node):
        return node


def _flat(x):
    return x if isinstance(x, list) else [x]


def _key(k):
    if isinstance(k, ast.Slice):
        return ast.Call(ast.Name('__slice__', ast.Load()), [
            k.lower or ast.Constant(None), k.upper or ast.Constant(None),
            k.step or ast.Constant(None)], [])
    if isinstance(k, ast.Tuple):
        return ast.Tuple([_key(e) for e in k.elts], ast.Load())
    return k


PV.Tup = tuple


# ----------------------------------------------------------------------
_mods = {}


class _OpI(object):
    """in-place operators"""


def _mkop():
    import operator
    for nm in set(_OPS.values()):
        b = nm.strip('_')
        setattr(_OpI, 'i' + b, staticmethod(getattr(operator, 'i' + b)))


_mkop()


def shadow(name):
    """the rewritten module for dotted name `name` (package 'seismic')"""
    if name in _mods:
        return _mods[name]
    rel = name.split('.')
    base = os.path.join(REPO_SRC, *rel)
    m = types.ModuleType(name)
    _mods[name] = m
    if os.path.isdir(base):
        m.__path__ = [base]
        m.__package__ = name
        return m
    path = base + '.py'
    with open(path) as fh:
        src = fh.read()
    tree = ast.parse(src, path)
    tree = Rewriter(name).visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, 'exec')
    m.__file__ = path
    m.__package__ = '.'.join(rel[:-1])
    bd = dict(vars(builtins))
    bd.update(B.OVERRIDES)
    bd['__import__'] = _import
    m.__dict__['__builtins__'] = bd
    m.__dict__['__pv__'] = PV
    m.__dict__['__op__'] = _OpI
    m.__dict__['__slice__'] = slice
    try:
        exec(code, m.__dict__)
    except BaseException:
        _mods.pop(name, None)
        raise
    if len(rel) > 1:
        setattr(shadow('.'.join(rel[:-1])), rel[-1], m)
    return m


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    from . import extern
    if level:
        raise Unsupported('relative import')
    if name == 'seismic' or (name.startswith('seismic.') and
                             not name.startswith('seismic.plot')):
        m = shadow(name)
        if fromlist:
            for a in fromlist:
                if not hasattr(m, a) and os.path.exists(os.path.join(
                        REPO_SRC, *(name.split('.') + [a + '.py']))):
                    if name + '.' + a not in _mods:
                        setattr(m, a, shadow(name + '.' + a))
                    else:
                        setattr(m, a, _mods[name + '.' + a])
                elif not hasattr(m, a) and os.path.isdir(os.path.join(
                        REPO_SRC, *(name.split('.') + [a]))):
                    setattr(m, a, shadow(name + '.' + a))
            return m
        parts = name.split('.')
        for i in range(1, len(parts)):
            p = shadow('.'.join(parts[:i]))
            c = shadow('.'.join(parts[:i + 1]))
            if not hasattr(p, parts[i]):
                setattr(p, parts[i], c)
        return shadow(parts[0])
    r = extern.override_import(name, fromlist)
    if r is not None:
        return r
    return builtins.__import__(name, globals, locals, fromlist, level)


def function(path):
    """'pkg.mod:Class.func' -> shadow object"""
    mod, q = path.split(':')
    o = shadow(mod)
    for p in q.split('.'):
        o = getattr(o, p)
    return o


def real(path):
    mod, q = path.split(':')
    o = importlib.import_module(mod)
    for p in q.split('.'):
        o = getattr(o, p)
    return o


def reset():
    _mods.clear()
