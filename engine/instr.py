"""Mechanical extraction: loads the modules of /repo/bayesloop from source on every run and makes them executable on
symbolic values.  What the transformation changes (and nothing else):
  * `for` statements over symbolic sequences become calls of the loop rule (engine/loops.py); concrete ones stay loops,
  * list displays build VList (a list subclass), single-generator comprehensions go through __vc.listcomp/genexp,
  * a bare `except:` becomes `except Exception:` (so that engine signals pass through),
  * the builtins listed in BUILTINS and the imports listed in IMPORTS are replaced by their contracts,
  * docstrings are kept, print() is dropped.
Every other statement is executed by CPython as written."""
import ast
import builtins
import copy
import os
import sys
import operator
import types
import numpy as np
from . import terms as T
from .terms import ZERO, ONE, num, to_p, the_atom
from . import sym, loops
from .sym import S, SArr, SSeq, VList, Unsupported, Infeasible, mkS, num_ok, dt_of, as_seq, is_sym, Frame
from .snp import snp, has_sym, plain
from . import snp as snpm

REPO = os.environ.get('VC_REPO', '/repo')


# ------------------------------------------------------------------------------------------------ AST transformation
def local_names(fn):
    """names bound in the function's own scope"""
    names, glob = set(), set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n is fn:
                for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                    names.add(a.arg)
                for a in (n.args.vararg, n.args.kwarg):
                    if a:
                        names.add(a.arg)
                for s in n.body:
                    self.visit(s)
            else:
                names.add(n.name)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            names.add(n.name)

        def _comp(self, n):
            self.visit(n.generators[0].iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            glob.update(n.names)
    V().visit(fn)
    return names - glob


def is_generator(fn):
    class V(ast.NodeVisitor):
        found = False

        def visit_FunctionDef(self, n):
            if n is fn:
                self.generic_visit(n)

        def visit_Lambda(self, n):
            pass

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield
    v = V()
    v.visit(fn)
    return v.found


def stores(stmts):
    names = set()
    f = ast.FunctionDef(name='_', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=list(stmts), decorator_list=[])
    return local_names(f)


def call(fn, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name('_vc', ast.Load()), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.n = 0

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        self.fn.append({'locals': local_names(n), 'gen': is_generator(n), 'depth': 0})
        n.body = self.block(n.body)
        self.fn.pop()
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_ExceptHandler(self, n):
        if n.type is None:
            n.type = ast.Name('Exception', ast.Load())
        self.generic_visit(n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call('mklist', n)
        return n

    def _comp(self, n, kind):
        g = n.generators
        if len(g) == 1 and not g[0].is_async:
            pat, names = self.pattern(g[0].target)
            if pat is not None:
                it = self.visit(g[0].iter)
                elt = self.visit(n.elt)
                conds = [self.visit(c) for c in g[0].ifs]
                args = ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])
                f = ast.Lambda(args=args, body=elt)
                if conds:
                    import copy
                    c = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
                    cf = ast.Lambda(args=copy.deepcopy(args), body=c)
                else:
                    cf = ast.Constant(None)
                return call(kind, it, f, cf, pat)
        self.generic_visit(n)
        return n

    def visit_ListComp(self, n):
        return self._comp(n, 'listcomp')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'genexp')

    def pattern(self, t):
        if isinstance(t, ast.Name):
            return ast.Constant(None), [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            ps, ns = [], []
            for e in t.elts:
                p, n = self.pattern(e)
                if p is None:
                    return None, None
                ps.append(p)
                ns += n
            if len(set(ns)) != len(ns):
                ns = [x + '_%d' % i if ns.index(x) != i else x for i, x in enumerate(ns)]
            return ast.Tuple(ps, ast.Load()), ns
        return None, None

    def visit_For(self, n):
        if not self.fn or self.fn[-1]['gen'] or n.orelse:
            self.generic_visit(n)
            n.iter = call('native', n.iter)
            return n
        import copy
        fr = self.fn[-1]
        self.n += 1
        k = self.n
        assigned = sorted((stores([n]) & fr['locals']))
        allnames = sorted(fr['locals'])
        it = '_vc_it%d' % k
        kk, b, gt, st, r = ['_vc_%s%d' % (x, k) for x in ('k', 'body', 'get', 'set', 'r')]
        # symbolic version
        body = [copy.deepcopy(s) for s in n.body]
        body = self.block(body)
        body = Ret(loop=True).run(body)
        target = copy.deepcopy(n.target)
        item = ast.Assign(targets=[target], value=call('item', ast.Name(it, ast.Load()), ast.Name(kk, ast.Load())))
        fbody = []
        if assigned:
            fbody.append(ast.Nonlocal(list(assigned)))
        fbody.append(item)
        fbody += body
        fbody.append(ret('nrm'))
        fdef = ast.FunctionDef(name=b, args=ast.arguments(posonlyargs=[], args=[ast.arg(kk)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=fbody, decorator_list=[])
        getb = [ast.Assign([ast.Name('_vc_d', ast.Store())], ast.Dict([], []))]
        for x in allnames:
            getb.append(ast.Try(body=[ast.Assign([ast.Subscript(ast.Name('_vc_d', ast.Load()), ast.Constant(x), ast.Store())], ast.Name(x, ast.Load()))],
                                handlers=[ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])], orelse=[], finalbody=[]))
        getb.append(ast.Return(ast.Name('_vc_d', ast.Load())))
        gdef = ast.FunctionDef(name=gt, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=getb, decorator_list=[])
        setb = [ast.Nonlocal(list(assigned))] if assigned else []
        for x in assigned:
            setb.append(ast.If(test=ast.Compare(ast.Constant(x), [ast.In()], [ast.Name('_vc_d', ast.Load())]),
                               body=[ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(ast.Name('_vc_d', ast.Load()), ast.Constant(x), ast.Load()))],
                               orelse=[ast.Try(body=[ast.Delete([ast.Name(x, ast.Del())])],
                                               handlers=[ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])],
                                               orelse=[], finalbody=[])]))
        setb.append(ast.Pass())
        sdef = ast.FunctionDef(name=st, args=ast.arguments(posonlyargs=[], args=[ast.arg('_vc_d')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=setb, decorator_list=[])
        run = ast.Assign([ast.Name(r, ast.Store())], call('loop', ast.Name(it, ast.Load()), ast.Name(b, ast.Load()), ast.Name(gt, ast.Load()),
                                                          ast.Name(st, ast.Load()), ast.Constant(getattr(n, 'lineno', 0))))
        iff = ast.If(test=ast.Compare(ast.Subscript(ast.Name(r, ast.Load()), ast.Constant(0), ast.Load()), [ast.Eq()], [ast.Constant('ret')]),
                     body=[ast.Return(ast.Subscript(ast.Name(r, ast.Load()), ast.Constant(1), ast.Load()))], orelse=[])
        native = ast.For(target=n.target, iter=ast.Name(it, ast.Load()), body=self.block(n.body), orelse=[])
        out = [ast.Assign([ast.Name(it, ast.Store())], call('iter', self.visit(n.iter))),
               ast.If(test=call('issym', ast.Name(it, ast.Load())), body=[fdef, gdef, sdef, run, iff], orelse=[native])]
        return out


def ret(kind, val=None):
    return ast.Return(ast.Tuple([ast.Constant(kind), val if val is not None else ast.Constant(None)], ast.Load()))


class Ret(ast.NodeTransformer):
    """return/break/continue of a loop body turned into status values"""

    def __init__(self, loop):
        self.depth = 0

    def run(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, n):
        return n        # nested (already transformed) bodies have their own statuses

    def visit_Lambda(self, n):
        return n

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_While = visit_For

    def visit_Return(self, n):
        return ret('ret', n.value)

    def visit_Break(self, n):
        return n if self.depth else ret('brk')

    def visit_Continue(self, n):
        return n if self.depth else ret('nrm')


class Counted(ast.NodeTransformer):
    """while loops with a counter become for loops:  while i < n: body; i += 1   (n not changed by the body, no break/continue)"""
    count = 0

    def visit_While(self, n):
        self.generic_visit(n)
        t = n.test
        if n.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
            return n
        i, op, end = t.left.id, type(t.ops[0]), t.comparators[0]

        def step(x, sgn):
            return isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i and isinstance(x.op, sgn) \
                and isinstance(x.value, ast.Constant) and x.value.value == 1 and type(x.value.value) is int
        up = op in (ast.Lt, ast.LtE) and step(n.body[-1], ast.Add)
        down = op in (ast.Gt, ast.GtE) and step(n.body[-1], ast.Sub)
        first = op is ast.Gt and step(n.body[0], ast.Sub)
        if not (up or down or first) or len(n.body) < 2:
            return n
        body = n.body[1:] if first else n.body[:-1]
        mod = ast.Module(body=body, type_ignores=[])
        names = {x.id for x in ast.walk(mod) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        attrs = {x.attr for x in ast.walk(mod) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        if i in names or any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(mod)):
            return n
        for x in ast.walk(end):
            if isinstance(x, ast.Name) and (x.id in names or x.id == i) or isinstance(x, ast.Attribute) and x.attr in attrs:
                return n
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len'):
                return n

        def leaves(x, top=True):
            if isinstance(x, (ast.Break, ast.Continue)):
                return True
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                return False
            return any(leaves(y) for y in ast.iter_child_nodes(x))
        if leaves(mod):
            return n
        Counted.count += 1
        a, z = '_vcw_a%d' % Counted.count, '_vcw_z%d' % Counted.count
        L = lambda v: ast.Name(v, ast.Load())
        one = ast.Constant(1)
        plus = lambda e, o=ast.Add: ast.BinOp(e, o(), one)
        last = end if op in (ast.Lt, ast.Gt) else plus(end, ast.Add if up else ast.Sub)
        pre = [ast.Assign([ast.Name(a, ast.Store())], call('counter', L(i))), ast.Assign([ast.Name(z, ast.Store())], call('counter', last))]
        body = body + [ast.Expr(call('unchanged', L(z), copy.deepcopy(last)))]      # the bound of the loop is checked after every iteration
        rng = lambda u, v: ast.Call(ast.Name('range', ast.Load()), [u, v], [])
        if up:
            it = rng(L(a), L(z))
        else:       # values a, a-1, .., z+1 (or a-1, .., z when the counter is decremented first)
            it = ast.Call(L('reversed'), [rng(L(z), L(a)) if first else rng(plus(L(z)), plus(L(a)))], [])
        loop = ast.For(target=ast.Name(i, ast.Store()), iter=it, body=body, orelse=[])
        post = ast.If(test=ast.Compare(L(a), [ast.Lt() if up else ast.Gt()], [L(z)]), body=[ast.Assign([ast.Name(i, ast.Store())], L(z))], orelse=[])
        out = pre + [loop, post]
        for x in out:
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return out


def transform(src, filename):
    tree = Counted().visit(ast.parse(src, filename))
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


# ------------------------------------------------------------------------------------------------- run-time support
class VC:
    @staticmethod
    def mklist(x):
        return VList(x)

    @staticmethod
    def iter(x):
        if isinstance(x, (SSeq,)):
            return x if x.n.const() is None else list(x)
        if isinstance(x, VList):
            return x.sym if x.sym is not None else x
        if isinstance(x, SArr):
            if not x.dims:
                raise TypeError('iteration over a 0-d array')
            s = sym.seq_of_arr(x)
            return s if s.n.const() is None else [e for e in iter(x)]
        return x

    @staticmethod
    def counter(x):
        if isinstance(x, (bool, float)) or not num_ok(x) or isinstance(x, S) and dt_of(x) != 'i':
            raise Unsupported('counter of a while loop is not an integer')
        return x

    @staticmethod
    def unchanged(z, e):
        if not num_ok(e) or (to_p(z) - to_p(e)).const() != 0:
            raise Unsupported('bound of a counted while loop changes')

    @staticmethod
    def native(x):
        y = VC.iter(x)
        if VC.issym(y):
            raise Unsupported('loop over a symbolic sequence in a generator or with else')
        return y

    @staticmethod
    def issym(x):
        return isinstance(x, SSeq)

    @staticmethod
    def item(it, k):
        return it.elem(to_p(k))

    @staticmethod
    def loop(it, body, get, set_, line=0):
        return loops.loop(it, body, get, set_, 'line %s' % line)

    @staticmethod
    def flat(pat, v):
        if pat is None:
            return [v]
        v = list(v)
        if len(v) != len(pat):
            raise ValueError('unpacking')
        out = []
        for p, x in zip(pat, v):
            out += VC.flat(p, x)
        return out

    @staticmethod
    def listcomp(it, f, c, pat):
        it = VC.iter(it)
        if not VC.issym(it):
            return VList(f(*a) for a in (VC.flat(pat, x) for x in it) if c is None or c(*a))
        return VList.of(VC.symcomp(it, f, c, pat))

    @staticmethod
    def genexp(it, f, c, pat):
        it = VC.iter(it)
        if not VC.issym(it):
            return (f(*a) for a in (VC.flat(pat, x) for x in it) if c is None or c(*a))
        return VC.symcomp(it, f, c, pat)

    @staticmethod
    def symcomp(it, f, c, pat):
        if c is not None:
            raise Unsupported('filtered comprehension over a symbolic sequence')
        k = T.fresh_index()
        ka = the_atom(k)
        outs = generic(lambda: freeze(f(*VC.flat(pat, it.elem(k)))), [T.le0(k - it.n + 1)])
        v = merge(outs)
        return SSeq(it.n, lambda i: loops.map_value(v, lambda t: T.subst(t, {ka: i})))


def freeze(v):
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, VList) and v.sym is None:
        return VList(freeze(x) for x in list.__iter__(v))
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def generic(f, assume):
    """all paths of f() under extra assumptions: [(condition, value)]"""
    ctx = sym.CTX
    out, work, cnt = [], [[]], 0
    while work:
        prefix = work.pop()
        cnt += 1
        if cnt > 32:
            raise Unsupported('too many paths in a comprehension')
        mk = ctx.mark()
        fr = Frame(prefix)
        ctx.frames.append(fr)
        try:
            for a in assume:
                ctx.assume(a)
            base = len(ctx.trail)
            try:
                v = f()
            except Infeasible:
                work.extend(fr.alts)
                continue
            work.extend(fr.alts)
            cond = ONE
            for a in ctx.trail[base:]:
                ap = T.atom_p(a)
                cond = cond * (ap if ctx.lits[a] else ONE - ap)
            out.append((cond, v))
        finally:
            ctx.frames.pop()
            ctx.undo(mk)
    return out


def merge(outs):
    v = outs[-1][1]
    for c, w in reversed(outs[:-1]):
        v = sym.val_merge(c, w, v)
    return v


# ----------------------------------------------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, (SArr, SSeq)) or (isinstance(x, VList) and x.sym is not None):
        return x.slen()
    if isinstance(x, snpm.Pieces):
        return x.n
    return len(x)


class RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, range)


def b_range(*a):
    if not any(isinstance(x, S) for x in a):
        return range(*[int(x) if isinstance(x, float) and False else x for x in a])
    if len(a) == 1:
        st, en, sp = 0, a[0], 1
    elif len(a) == 2:
        st, en, sp = a[0], a[1], 1
    else:
        st, en, sp = a
    for x in (st, en, sp):
        if dt_of(x) == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
    sp = to_p(sp).const()
    st, en = to_p(st), to_p(en)
    if sp == 1:
        n = en - st
        sg = 1
    elif sp == -1:
        n = st - en
        sg = -1
    else:
        raise Unsupported('range step')
    c = n.const()
    if c is not None:
        n = num(max(0, c))
    elif sym.CTX.fork(T.lt0(n)):
        n = ZERO
    if n.const() is not None:
        return [mkS(st + num(sg * i), 'i') for i in range(int(n.const()))]
    return SSeq(n, lambda k: mkS(st + num(sg) * k, 'i'))


def b_enumerate(x, start=0):
    y = VC.iter(x)
    if VC.issym(y):
        s = to_p(start)
        return SSeq(y.n, lambda k: (mkS(k + s, 'i'), y.elem(k)))
    return enumerate(y, start)


def b_zip(*xs):
    ys = [VC.iter(x) for x in xs]
    if any(VC.issym(y) for y in ys):
        seqs = [as_seq(y) if not isinstance(y, SSeq) else y for y in ys]
        n = seqs[0].n
        for s in seqs[1:]:
            if s.n == n:
                continue
            if sym.CTX.fork(T.lt0(s.n - n)):
                n = s.n
        if n.const() is not None:
            return [tuple(s.elem(num(i)) for s in seqs) for i in range(int(n.const()))]
        return SSeq(n, lambda k: tuple(s.elem(k) for s in seqs))
    return zip(*ys)


class ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)

    def __subclasscheck__(cls, c):
        return issubclass(c, list)

    def __call__(cls, x=()):
        y = VC.iter(x)
        if VC.issym(y):
            if isinstance(x, SArr):
                return sym.seq_of(x)
            return VList.of(y)
        return VList(y)

    def __eq__(cls, o):
        return o is cls or o is list or o is VList

    def __hash__(cls):
        return hash(list)


class b_list(metaclass=ListMeta):
    pass


def b_tuple(x=()):
    y = VC.iter(x)
    if VC.issym(y):
        raise Unsupported('tuple of symbolic length')
    return tuple(y)


def b_sum(x, start=0):
    y = VC.iter(x)
    if VC.issym(y):
        a = sym.seq_to_arr(y)
        return sym.a_sum(a, 0) + start
    r = start
    for e in y:
        r = r + e
    return r


def b_max(*a, **kw):
    if len(a) == 1:
        y = VC.iter(a[0])
        if VC.issym(y):
            return sym.a_max(sym.seq_to_arr(y))
        a = list(y)
    if not has_sym(a):
        return max(a, **kw)
    r = a[0]
    for x in a[1:]:
        r = snp.maximum(r, x) if not kw else bad('max key')
    return r


def b_min(*a, **kw):
    if len(a) == 1:
        y = VC.iter(a[0])
        if VC.issym(y):
            return -sym.a_max(-sym.seq_to_arr(y))
        a = list(y)
    if not has_sym(a):
        return min(a, **kw)
    r = a[0]
    for x in a[1:]:
        r = snp.minimum(r, x) if not kw else bad('min key')
    return r


def bad(m):
    raise Unsupported(m)


def b_sorted(x, **kw):
    y = VC.iter(x)
    if VC.issym(y) or has_sym(list(y)):
        raise Unsupported('sorted')
    return VList(sorted(y, **kw))


def b_any(x):
    y = VC.iter(x)
    if VC.issym(y):
        k = T.fresh_index()
        return sym.CTX.fork(sym.exists([k], [y.n], tr(y.elem(k))))
    acc = ZERO
    for e in y:
        if isinstance(e, S):
            acc = T.bor(acc, tr(e))
        elif e:
            return True
    return mkS(acc, 'b') if acc.const() is None else bool(acc.const())


def b_all(x):
    y = VC.iter(x)
    if VC.issym(y):
        k = T.fresh_index()
        return sym.CTX.fork(ONE - sym.exists([k], [y.n], ONE - tr(y.elem(k))))
    acc = ONE
    for e in y:
        if isinstance(e, S):
            acc = T.band(acc, tr(e))
        elif not e:
            return False
    return mkS(acc, 'b') if acc.const() is None else bool(acc.const())


def tr(v):
    if isinstance(v, (bool, np.bool_)):
        return ONE if v else ZERO
    if isinstance(v, S):
        return v._p_ if v.dt == 'b' else ONE - T.eq0(v._p_)
    raise Unsupported('truth value in a symbolic sequence')


def b_print(*a, **kw):
    pass


def b_isinstance(x, t):
    if isinstance(x, Poison):
        raise Unsupported('use of poisoned value')
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, S):
        for c in ts:
            if c is b_float or c is float or c is np.floating or c is np.float64:
                if x.dt == 'f':
                    return True
            elif c is b_int or c is int:
                if x.dt == 'i':
                    return True
            elif c in (np.integer, np.int64):
                if x.dt == 'i':
                    return True
            elif c in (bool, np.bool_):
                if x.dt == 'b':
                    return True
            elif c is object:
                return True
            elif getattr(c, '__name__', '') in ('Number', 'Real'):
                return True
        return False
    if isinstance(x, SArr):
        for c in ts:
            if isinstance(c, type) and issubclass(c, SArr) and isinstance(x, c):
                return True
            if c is snpm.ndarray or c is object or getattr(c, '__name__', '') in ('Iterable', 'Sized', 'Container', 'Collection'):
                return True
        return False
    if isinstance(x, SSeq):
        return any(getattr(c, '__name__', '') in ('Iterable',) for c in ts)
    out = []
    for c in ts:
        if c is b_list:
            c = list
        elif c is b_float:
            c = float
        elif c is b_int:
            c = int
        elif c is b_tuple:
            c = tuple
        elif c is snpm.ndarray:
            c = np.ndarray
        out.append(c)
    return isinstance(x, tuple(out))


from .loops import Poison  # noqa: E402


def b_float(x=0.0):
    if isinstance(x, S):
        return S(x._p_, 'f') if x.dt != 'f' else x
    if isinstance(x, SArr):
        return b_float(x.item())
    return float(x)


def b_int(x=0, *a):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, S):
        if x.dt == 'i':
            return x
        if x.dt == 'b':
            return S(x._p_, 'i')
        if x._p_.is_int():
            return mkS(x._p_, 'i')
        # truncation towards zero of a non-negative value is the floor
        if T.sign(x._p_) in ('pos', 'nonneg'):
            return mkS(T.app('floor', x._p_, sort='int', sign='nonneg'), 'i')
        return mkS(T.app('trunc', x._p_, sort='int'), 'i')
    return int(x, *a)


b_float._builtin_ = float
b_int._builtin_ = int


def b_round(x, n=None):
    if isinstance(x, S):
        return x.round(n or 0) if n else mkS(T.app('round', x._p_, sort='int'), 'i')
    return round(x, n) if n is not None else round(x)


def b_reversed(x):
    y = VC.iter(x)
    if VC.issym(y):
        return SSeq(y.n, lambda k: y.elem(y.n - 1 - k))
    return reversed(y)


def b_abs(x):
    return x.__abs__() if isinstance(x, (S, SArr)) else abs(x)


def b_set(x=()):
    y = VC.iter(x)
    if VC.issym(y) or has_sym(list(y)):
        raise Unsupported('set of symbolic values')
    return set(y)


def b_map(f, *xs):
    ys = b_zip(*xs)
    if VC.issym(ys):
        return SSeq(ys.n, lambda k: f(*ys.elem(k)))
    return VList([f(*t) for t in ys])


def b_divmod(a, b):
    return a // b, a % b


def b_filter(f, x):
    y = VC.iter(x)
    if VC.issym(y):
        raise Unsupported('filter of a symbolic sequence')
    return VList([e for e in y if (e if f is None else f(e))])


def b_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


BUILTINS = dict(map=b_map, divmod=b_divmod, filter=b_filter, pow=b_pow,
                len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, list=b_list, tuple=b_tuple, sum=b_sum, min=b_min,
                max=b_max, abs=b_abs, sorted=b_sorted, any=b_any, all=b_all, print=b_print, isinstance=b_isinstance,
                float=b_float, int=b_int, round=b_round, reversed=b_reversed, set=b_set)


# ------------------------------------------------------------------------------------------------------ imports
class Dummy:
    _vc_opaque = True

    def __init__(self, name='dummy'):
        self.__dict__['_n'] = name

    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        return Dummy(self._n + '.' + k)

    def __call__(self, *a, **kw):
        return Dummy(self._n + '()')

    def __getitem__(self, k):
        return Dummy(self._n + '[]')

    def __iter__(self):
        return iter(())

    def __deepcopy__(self, memo):
        return self


def table_of(a):
    a = sym.as_sarr(a)
    vs = sym.fresh(len(a.dims))
    return T.lam(vs, a.at(*vs), a.dims), a


def gaussian_filter1d(x, sigma, axis=-1, **kw):
    if kw:
        raise Unsupported('gaussian_filter1d arguments')
    if not has_sym([x, sigma]):
        from scipy.ndimage import gaussian_filter1d as real
        return real(x, sigma, axis=axis)
    snpm.USED.add('scipy.ndimage.gaussian_filter1d')
    t, a = table_of(x)
    ax = int(axis) % len(a.dims)
    s = to_p(sigma)
    return SArr.make(a.dims, lambda *i: T.app('gauss1d:%d' % ax, t, s, *i, sign='nonneg' if pos(a) else None), 'f')


def pos(a):
    vs = sym.fresh(len(a.dims))
    return T.sign(a.at(*vs)) in ('pos', 'nonneg')


def shift(x, d, order=3, mode='constant', cval=0.0, **kw):
    if kw or not isinstance(order, int):
        raise Unsupported('shift arguments')
    if not has_sym([x, d]):
        from scipy.ndimage import shift as real
        return real(x, plain(d), order=order, mode=mode, cval=cval)
    snpm.USED.add('scipy.ndimage.shift')
    t, a = table_of(x)
    ds = [to_p(v) for v in d] if not num_ok(d) else [to_p(d)] * len(a.dims)
    return SArr.make(a.dims, lambda *i: T.app('shift:%d:%s' % (order, mode), t, *(ds + list(i))), 'f')


def fftconvolve(x, y, mode='full'):
    if not has_sym([x, y]):
        from scipy.signal import fftconvolve as real
        return real(x, y, mode=mode)
    if mode != 'same':
        raise Unsupported('fftconvolve mode')
    snpm.USED.add('scipy.signal.fftconvolve')
    t, a = table_of(x)
    u, b = table_of(y)
    return SArr.make(a.dims, lambda *i: T.app('fftconvolve', t, u, *i), 'f')


def convolve2d(x, y, mode='full', boundary='fill', fillvalue=0):
    if not has_sym([x, y]):
        from scipy.signal import convolve2d as real
        return real(x, y, mode=mode, boundary=boundary, fillvalue=fillvalue)
    if mode != 'same':
        raise Unsupported('convolve2d mode')
    snpm.USED.add('scipy.signal.convolve2d')
    t, a = table_of(x)
    u, b = table_of(y)
    nm = 'convolve2d:%s:%s' % (boundary, fillvalue)
    return SArr.make(a.dims, lambda *i: T.app(nm, t, u, *i, sign='nonneg' if pos(a) and pos(b) else None), 'f')


def minimize(*a, **kw):
    raise Unsupported('scipy.optimize.minimize')


def lambdify(args, expr, modules=None, **kw):
    """contract of sympy.lambdify: the value of the expression with the arguments bound by position"""
    import sympy
    real = sympy.lambdify(args, expr, modules=modules, **kw)
    args = list(VC.native(args) if not isinstance(args, (list, tuple)) else list.__iter__(args) if isinstance(args, VList) else args)
    own = {}
    for m in (modules or []):
        if isinstance(m, dict):
            own.update(m)
    fun = dict(exp=snp.exp, log=snp.log, Abs=snp.abs, sqrt=snp.sqrt)

    def ev(e, env):
        if e in env:
            return env[e]
        if e.is_Rational:
            return S(num(T.Fraction(int(e.p), int(e.q))), 'f') if not e.is_Integer else int(e)
        if e is sympy.pi:
            return snp.pi
        if e.is_Add or e.is_Mul:
            r = None
            for a in e.args:
                v = ev(a, env)
                r = v if r is None else (r + v if e.is_Add else r * v)
            return r
        if e.is_Pow:
            if e.exp == sympy.Rational(1, 2):
                return snp.sqrt(ev(e.base, env))
            if e.exp == -sympy.Rational(1, 2):
                return 1 / snp.sqrt(ev(e.base, env))
            return ev(e.base, env) ** ev(e.exp, env)
        nm = type(e).__name__
        if nm == 'Piecewise':
            r = None
            for x, c in reversed(e.args):
                c = cond(c, env)
                if c is True:
                    r = ev(x, env)
                elif c is not False:
                    if r is None:
                        raise Unsupported('incomplete case distinction')
                    r = snp.where(c, ev(x, env), r)
            return r
        if e.is_Function and getattr(e.func, '_imp_', None) is not None:
            return e.func._imp_(*[ev(a, env) for a in e.args])
        if e.is_Function and (nm in own or nm in fun):
            return (own.get(nm) or fun[nm])(*[ev(a, env) for a in e.args])
        raise Unsupported('sympy expression %s' % nm)

    def cond(c, env):
        if c == sympy.true or c == sympy.false:
            return bool(c)
        if isinstance(c, (sympy.And, sympy.Or)):
            r = None
            for x in c.args:
                v = cond(x, env)
                r = v if r is None else (r & v if isinstance(c, sympy.And) else r | v)
            return r
        if isinstance(c, sympy.Not):
            return ~cond(c.args[0], env)
        rel = {'<=': operator.le, '<': operator.lt, '>=': operator.ge, '>': operator.gt}.get(getattr(c, 'rel_op', None))
        if rel is None:
            raise Unsupported('sympy condition %s' % c)
        if c.lhs in (sympy.oo, -sympy.oo) or c.rhs in (sympy.oo, -sympy.oo):
            # all values are finite
            return bool(rel(*[v if v in (sympy.oo, -sympy.oo) else 0 for v in (c.lhs, c.rhs)]))
        return rel(ev(c.lhs, env), ev(c.rhs, env))

    def call(*vals):
        if not has_sym(vals):
            return real(*vals)
        if len(vals) != len(args):
            raise TypeError('wrong number of arguments')
        snpm.USED.add('sympy.lambdify')
        return ev(expr, dict(zip(args, vals)))
    return call


class MVN:
    def __call__(self, mean=None, cov=1, **kw):
        if not has_sym([mean, cov]):
            from scipy.stats import multivariate_normal as real
            return real(mean=plain(mean), cov=plain(cov), **kw)
        if kw:
            raise Unsupported('multivariate_normal arguments')
        return FrozenMVN(mean, cov)

    def pdf(self, x, mean=None, cov=None):
        if not has_sym([x, mean, cov]):
            from scipy.stats import multivariate_normal as real
            return real.pdf(x, mean=plain(mean), cov=plain(cov))
        snpm.USED.add('scipy.stats.multivariate_normal.pdf')
        X = sym.as_sarr(x)
        c = [to_p(v) for row in cov for v in row]
        k = int(round(len(c) ** .5))
        m = [to_p(v) for v in mean] if mean is not None else [ZERO] * k
        if len(m) != k or X.dims[-1] != num(k):
            raise Unsupported('multivariate_normal shapes')
        return SArr.make(X.dims[:-1], lambda *i: T.app('mvnpdf', *([X.at(*(list(i) + [num(k)])) for k in range(len(m))] + m + c), sign='nonneg'), 'f')


class FrozenMVN:
    def __init__(self, mean, cov):
        self.a = mean, cov

    def pdf(self, x):
        return MVN().pdf(x, mean=self.a[0], cov=self.a[1])


def tqdm(it=None, *a, **kw):
    if it is None:
        return Dummy('tqdm')
    y = VC.iter(it)
    if VC.issym(y):
        return SSeq(y.n, y.elem)

    class Bar(list):
        def close(self):
            pass
    return Bar(y)


def fake_module(name, **attrs):
    m = types.ModuleType(name)

    def ga(k):
        raise Unsupported('%s.%s is outside the verified subset' % (name, k)) if not k.startswith('__') else AttributeError(k)
    m.__dict__.update(attrs)
    m.__getattr__ = ga
    return m


def real_module(name):
    return __import__(name, fromlist=['x'])


class SpecialMod(types.ModuleType):
    def __dir__(self):
        import scipy.special as sp
        return dir(sp)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        import scipy.special as sp
        r = getattr(sp, k)

        def f(*a, **kw):
            if has_sym(a) or has_sym(kw):
                raise Unsupported('scipy.special.%s of symbolic values' % k)
            return r(*plain(a), **kw)
        return f if callable(r) else r


def special():
    m = SpecialMod('scipy.special')
    m.logsumexp = snpm.logsumexp
    m.factorial = snpm.factorial

    def gammaln(x):
        if not has_sym(x):
            import scipy.special as sp
            return sp.gammaln(x)
        snpm.USED.add('scipy.special.gammaln')
        return snpm.lift(lambda p: T.app('gammaln', p))(x)

    def gamma(x):
        if not has_sym(x):
            import scipy.special as sp
            return sp.gamma(x)
        snpm.USED.add('scipy.special.gamma')
        return snpm.lift(lambda p: T.app('gammafn', p))(x)
    m.gammaln = gammaln
    m.gamma = gamma
    return m


POOLS = []


class Pool:
    """contract of pathos ProcessPool.map: the results of the calls in order; every call runs on its own copy of the arguments"""
    _vc_opaque = True

    def __init__(self, nodes=None, *a, **kw):
        self.nodes = nodes
        POOLS.append(self)

    def map(self, f, *its):
        import copy
        snpm.USED.add('pathos.ProcessPool.map')
        out = VList()
        obj = getattr(f, '__self__', None)
        its = [list(VC.native(i)) for i in its]
        for args in zip(*its):
            if obj is not None:
                o = copy.deepcopy(obj)
                out.append(getattr(o, f.__name__)(*args))
            else:
                out.append(f(*args))
        return out

    def imap(self, f, *its):
        return self.map(f, *its)

    def uimap(self, f, *its):
        # unordered: any permutation of the results
        return VList(reversed(list(list.__iter__(self.map(f, *its)))))

    def close(self):
        pass
    join = clear = terminate = restart = close


def shim(real, name):
    m = types.ModuleType(name)
    m.__getattr__ = lambda k: getattr(real, k)
    return m


def it_product(*xs, repeat=1):
    ys = [VC.iter(x) for x in xs] * repeat
    if not any(VC.issym(y) for y in ys):
        import itertools
        return itertools.product(*ys)
    ss = [as_seq(y) for y in ys]
    dims = tuple(to_p(s.n) for s in ss)
    n = ONE
    for d in dims:
        n = n * d
    return SSeq(n, lambda k: tuple(s.elem(sym.unflat(dims, j, k)) for j, s in enumerate(ss)))


def it_chain(*xs):
    ys = [VC.iter(x) for x in xs]
    if not any(VC.issym(y) for y in ys):
        import itertools
        return itertools.chain(*ys)
    r = as_seq(ys[0])
    for y in ys[1:]:
        r = sym.seq_concat(r, as_seq(y))
    return r


def itertools_module():
    import itertools
    m = shim(itertools, 'itertools')
    m.product = it_product

    class chain:
        def __new__(cls, *xs):
            return it_chain(*xs)

        @staticmethod
        def from_iterable(x):
            y = VC.iter(x)
            if VC.issym(y):
                raise Unsupported('chain.from_iterable of a symbolic sequence')
            return it_chain(*y)
    m.chain = chain
    m.starmap = lambda f, xs: b_map(lambda t: f(*t), xs)
    m.count = lambda *a: bad('itertools.count')

    def repeat(x, n=None):
        if isinstance(n, S):
            return SSeq(n._p_, lambda k: x)
        return itertools.repeat(x) if n is None else itertools.repeat(x, n)
    m.repeat = repeat
    for k in ('accumulate', 'islice', 'groupby', 'takewhile', 'dropwhile', 'compress', 'zip_longest', 'combinations', 'permutations',
              'tee', 'cycle', 'filterfalse'):
        def g(*a, _f=getattr(itertools, k), _k=k, **kw):
            if any(VC.issym(VC.iter(x)) if isinstance(x, (list, tuple, SArr, SSeq)) else False for x in a):
                raise Unsupported('itertools.%s of a symbolic sequence' % _k)
            return _f(*a, **kw)
        setattr(m, k, g)
    return m


def functools_module():
    import functools
    import operator as o
    m = shim(functools, 'functools')

    def reduce(f, x, *init):
        y = VC.iter(x)
        if not VC.issym(y):
            return functools.reduce(f, y, *init)
        a = sym.seq_to_arr(y)
        nm = getattr(f, '__name__', '')
        if f is o.add:
            nm = 'add'
        elif f is o.mul:
            nm = 'multiply'
        if nm not in snpm.REDUCE or not (f in (o.add, o.mul) or hasattr(f, 'real')):
            raise Unsupported('functools.reduce of a symbolic sequence')
        r = snpm.REDUCE[nm](a, 0, False)
        for e in init:
            r = getattr(snp, nm)(e, r)
        return r
    m.reduce = reduce
    return m


def math_module():
    import math
    m = shim(math, 'math')
    for k, n in dict(log='log', exp='exp', sqrt='sqrt', fabs='absolute', log10='log10', ceil='ceil', floor='floor', isnan='isnan',
                     isinf='isinf', isfinite='isfinite').items():
        def g(x, *a, _r=getattr(math, k), _s=getattr(snp, n)):
            return _s(x, *a) if snpm.has_sym(x) else _r(x, *a)
        setattr(m, k, g)
    m.pi = snp.pi

    def prod(x, start=1):
        r = start
        y = VC.iter(x)
        if VC.issym(y):
            return sym.a_prod(sym.seq_to_arr(y)) * start
        for e in y:
            r = r * e
        return r

    def fsum(x):
        return b_sum(x)
    m.prod, m.fsum = prod, fsum
    return m


class World:
    """one fresh copy of the instrumented package"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.cache = {}
        b = dict(builtins.__dict__)
        b.update(BUILTINS)
        b['__import__'] = self.imp
        self.builtins = b

    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            path = os.path.join(self.repo, 'bayesloop', name + '.py')
            src = open(path).read()
            m = types.ModuleType('bayesloop.' + name)
            m.__file__ = path
            m.__package__ = 'bayesloop'
            m.__dict__['__builtins__'] = self.builtins
            m.__dict__['_vc'] = VC
            self.mods[name] = m
            exec(transform(src, path), m.__dict__)
        return m

    def lib(self, name):
        if name in self.cache:
            return self.cache[name]
        r = self._lib(name)
        self.cache[name] = r
        return r

    def _lib(self, name):
        if name == 'numpy':
            return snp
        if name == 'scipy.special':
            return special()
        if name == 'itertools':
            return itertools_module()
        if name == 'functools':
            return functools_module()
        if name == 'math':
            return math_module()
        if name == 'sympy':
            import sympy
            m = types.ModuleType('sympy')
            m.__getattr__ = lambda k: getattr(sympy, k)
            m.lambdify = lambdify
            return m
        if name == 'scipy.signal':
            return fake_module(name, fftconvolve=fftconvolve, convolve2d=convolve2d)
        if name in ('scipy.ndimage', 'scipy.ndimage.filters', 'scipy.ndimage.interpolation', 'scipy.ndimage._filters'):
            return fake_module(name, gaussian_filter1d=gaussian_filter1d, shift=shift)
        if name == 'scipy.stats':
            return fake_module(name, multivariate_normal=MVN())
        if name == 'scipy.optimize':
            return fake_module(name, minimize=minimize)
        if name.split('.')[0] == 'tqdm':
            return fake_module(name, tqdm=tqdm)
        if name.split('.')[0] == 'matplotlib':
            return Dummy(name)
        if name in ('cloudpickle', 'dill', 'pickle'):
            from . import pickling
            snpm.USED.add('cloudpickle.dump, cloudpickle.load')
            return fake_module(name, dump=pickling.dump, dumps=pickling.dumps, load=pickling.load, loads=pickling.loads)
        if name.split('.')[0] in ('pathos',):
            return fake_module(name, ProcessPool=Pool, ProcessingPool=Pool, Pool=Pool)
        return None

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name.split('.')[0] == 'bayesloop':
            if name.split('.')[0] == 'bayesloop':
                name = '.'.join(name.split('.')[1:])
            if name:
                return self.module(name)
            ns = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(ns, f, self.module(f))
            return ns
        m = self.lib(name)
        if m is None and '.' not in name and name == 'scipy':
            ns = types.SimpleNamespace(special=self.lib('scipy.special'), signal=self.lib('scipy.signal'),
                                       ndimage=self.lib('scipy.ndimage'), stats=self.lib('scipy.stats'))
            return ns
        if m is not None:
            if fromlist or '.' not in name:
                return m
            # import a.b.c  (binds a)
            top = name.split('.')[0]
            if top == 'scipy':
                return self.imp('scipy')
            if top == 'matplotlib':
                return Dummy('matplotlib')
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)


def load(repo=None):
    return World(repo)
