"""Query parser on arbitrary fitted studies: every query evaluates to the posterior probability of the event it describes."""
import re
from engine import terms as T
from engine.evalm import _h
from engine.sym import unflat
from engine.terms import ZERO, ONE, num, to_p


T.ROWS = True


class Block:
    """one independent set of joint values: value columns v[name](k), weight w(k), k over the dimensions dims"""

    def __init__(self, dims, cols, w):
        self.dims, self.cols, self.w = dims, cols, w


class St:
    """a study with arbitrary grid, posterior sequence and timestamps"""

    def __init__(self, b, tag, names, cls='Study', times='any'):
        self.b, self.tag, self.names = b, tag, names
        self.N = b.size('N' + tag)
        self.G = [b.size('G%s%d' % (tag, k)) for k in range(len(names))]
        for g in self.G:
            b.assume(T.le0(num(2) - g))
        self.gv = [b.uf('g%s%d' % (tag, k)) for k in range(len(names))]
        self.PS = b.uf('PS' + tag, 'pos')
        if times == 'any':
            self.ts = b.uf('ts' + tag, mono=True)
        else:
            self.t0 = b.int('t0' + tag)
            self.ts = lambda i: to_p(i) + self.t0
        S = self.S = getattr(b.mod('core'), cls)(silent=True)
        S.gridSize = b.list([b.val(g, 'i') for g in self.G])
        S.marginalGrid = b.list([b.array((g,), (lambda f: lambda i: f(i))(f)) for g, f in zip(self.G, self.gv)])
        S.grid = b.list([b.array(self.G, (lambda k, f: lambda *i: f(i[k]))(k, f)) for k, f in enumerate(self.gv)])
        S.posteriorSequence = b.array([self.N] + self.G, lambda i, *x: self.PS(i, *x))
        S.formattedTimestamps = b.array((self.N,), lambda i: self.ts(i)) if times == 'any' else b.array((self.N,), lambda i: self.ts(i), 'i')

        class OM:
            parameterNames = b.list(names)
        S.observationModel = OM()

    def at(self, i):
        """the joint parameter values at time step i"""
        return Block(self.G, {n: (lambda k: lambda *x: self.gv[k](x[k]))(k) for k, n in enumerate(self.names)}, lambda *x: self.PS(i, *x))

    def kept(self):
        self.b.eq('posterior sequence of study %s is not modified' % self.tag, self.S.posteriorSequence, lambda i, *x: self.PS(i, *x), [self.N] + self.G)
        for k, f in enumerate(self.gv):
            self.b.eq('grid %d of study %s is not modified' % (k, self.tag), self.S.grid[k], lambda *x: f(x[k]), self.G)


class V:
    """arithmetic on terms in the order of Python's own expression grammar (the reference for operator precedence)"""

    def __init__(self, p):
        self.p = to_p(p)

    def _o(self, o):
        return o.p if isinstance(o, V) else num(o) if isinstance(o, int) else T.num(T.Fraction(o))

    def __add__(self, o): return V(self.p + self._o(o))
    __radd__ = __add__
    def __sub__(self, o): return V(self.p - self._o(o))
    def __rsub__(self, o): return V(self._o(o) - self.p)
    def __mul__(self, o): return V(self.p * self._o(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return V(self.p / self._o(o))
    def __rtruediv__(self, o): return V(self._o(o) / self.p)
    def __pow__(self, o): return V(T.mk_pow(self.p, self._o(o).const()))
    def __neg__(self): return V(-self.p)
    def __pos__(self): return self


FUN = dict(exp=lambda v: V(T.mk_exp(v.p)), abs=lambda v: V(T.mk_abs(v.p)), sqrt=lambda v: V(T.mk_pow(v.p, T.Fraction(1, 2))), log=lambda v: V(T.mk_log(v.p)),
           square=lambda v: v * v, negative=lambda v: -v)
REL = {'>=': lambda p: T.le0(-p), '<=': lambda p: T.le0(p), '==': lambda p: T.eq0(p), '>': lambda p: T.lt0(-p), '<': lambda p: T.lt0(p)}


def probability(query, blocks, norm=True):
    """blocks: list of (Block, {name in the query: column})"""
    rel = [r for r in ('>=', '<=', '==', '>', '<') if r in query][0]
    lhs, rhs = [re.sub(r'@\s*[0-9.]+', lambda m: '_at_' + m.group(0)[1:].strip().replace('.', '_'), q).replace('^', '**') for q in query.split(rel)]
    env, vs, ds, w, z = dict(FUN), [], [], ONE, ONE
    for bl, names in blocks:
        ix = [T.fresh_index() for _ in bl.dims]
        for nm, col in names.items():
            env[nm] = V(bl.cols[col](*ix))
        vs += ix
        ds += list(bl.dims)
        w = w * bl.w(*ix)
        z = z * T.mk_sum(ix, list(bl.dims), bl.w(*ix))
    side = lambda e: eval(e, {'__builtins__': {}}, env)
    l, r = side(lhs), side(rhs)
    d = (l if isinstance(l, V) else V(T.num(T.Fraction(l)))) - r
    return T.mk_sum(vs, ds, REL[rel](d.p) * w) / (z if norm else ONE)


def small(m):
    for q in ('k', 'k2', 'k3'):
        m.values[q] = int(_h(m.seed, q) * 3)


def step(b, s, nm='k'):
    k = b.int(nm, 'nonneg')
    b.assume(T.lt0(k - s.N))
    return k


def joint(query, names):
    """one study, all parameters at the time given by the keyword"""
    def c(b):
        s = St(b, 'A', names)
        k = step(b, s)
        P = b.mod('parser').Parser(s.S)
        p = P(query, t=b.val(s.ts(k)), silent=True)
        b.eq('P(%s)' % query, p, lambda: probability(query, [(s.at(k), {n: n for n in names})], norm=False))
        s.kept()
    return c


def pos(b, s, t):
    """the step of study s with timestamp t"""
    b.assume(T.in_range(num(t) - s.t0, s.N))
    return num(t) - s.t0


def at_times(query, spec):
    """spec: {study tag: ({names}, [times])}; every name@time of the query belongs to one block per (study, time)"""
    def c(b):
        sts, blocks = [], []
        for tag, (names, times) in spec.items():
            s = St(b, tag, names, times='shift')
            sts.append(s)
            for t in times:
                blocks.append((s.at(pos(b, s, t)), {'%s_at_%d' % (n, t): n for n in names}))
        P = b.mod('parser').Parser(*[s.S for s in sts])
        p = P(query, silent=True)
        b.eq('P(%s)' % query, p, lambda: probability(query, blocks, norm=len(blocks) > 1))
        for s in sts:
            s.kept()
    return c


def common_time(query, spec):
    """several studies, the time is given by the keyword and looked up in each study's own timestamps"""
    def c(b):
        sts, blocks = [], []
        t = b.int('t')
        for tag, names in spec.items():
            s = St(b, tag, names, times='shift')
            sts.append(s)
            b.assume(T.in_range(t - s.t0, s.N))
            blocks.append((s.at(t - s.t0), {n: n for n in names}))
        P = b.mod('parser').Parser(*[s.S for s in sts])
        p = P(query, t=b.val(t, 'i'), silent=True)
        b.eq('P(%s)' % query, p, lambda: probability(query, blocks, norm=len(blocks) > 1))
        for s in sts:
            s.kept()
    return c


def rejected(query, names, kind=('ConfigurationError', 'ParseException'), **kw):
    def c(b):
        s = St(b, 'A', names)
        P = b.mod('parser').Parser(s.S)
        r = b.call(lambda: P(query, silent=True, **kw))
        b.true('%s is rejected' % query, r[0] == 'exc' and type(r[1]).__name__ in kind)
    return c


class Hs(St):
    """a hyper-study (class cls) with nh hyper-parameters: values hv(k, j), distribution D(k)"""

    def __init__(self, b, tag, names, hnames, cls, **kw):
        b.uf('D' + tag, 'pos')
        St.__init__(self, b, tag, names, cls, **kw)
        S, self.hnames = self.S, hnames
        self.n = b.size('n' + tag)
        self.hv, self.D = b.uf('hv' + tag), b.uf('D' + tag, 'pos')

        class TM:
            hyperParameterNames = b.list(hnames)
            hyperParameterValues = b.list([0] * len(hnames))
        S.transitionModel = TM()
        S.flatHyperParameterNames = b.list(hnames)
        S.hyperParameterDistribution = b.array((self.n,), lambda k: self.D(k))
        hgv = b.array((self.n, num(len(hnames))), lambda k, j: self.hv(k, j))
        if cls == 'ChangepointStudy':
            # impossible combinations are listed with probability zero
            S.allHyperGridValues = hgv
            m = b.size('m' + tag)
            S.hyperGridValues = b.array((m, num(len(hnames))), lambda k, j: b.uf('other')(k, j))
        else:
            S.hyperGridValues = hgv

    def hyper(self):
        return Block([self.n], {h: (lambda j: lambda k: self.hv(k, num(j)))(j) for j, h in enumerate(self.hnames)}, lambda k: self.D(k))

    def kept(self):
        St.kept(self)
        self.b.eq('hyper-parameter distribution of study %s is not modified' % self.tag, self.S.hyperParameterDistribution, lambda k: self.D(k), [self.n])


class Os(St):
    """an online study with transition models models=[[names],..]; hyper-parameter sequences hs(i, m, k)"""

    def __init__(self, b, tag, names, models, history=True):
        b.uf('hs' + tag, 'pos'), b.uf('hc' + tag, 'pos'), b.uf('mp' + tag, 'pos')
        St.__init__(self, b, tag, names, 'OnlineStudy', times='shift')
        S, self.models, self.history = self.S, models, history
        S.storeHistory = history
        self.n = [b.size('n%s%d' % (tag, m)) for m in range(len(models))]
        self.hv, self.hs, self.hc, self.mp = [b.uf(q + tag) for q in ('hv', 'hs', 'hc', 'mp')]

        class TM:
            def __init__(self, hn):
                self.hyperParameterNames = b.list(hn)
                self.hyperParameterValues = b.list([0] * len(hn))
        S.transitionModels = b.list([TM(hn) for hn in models])
        S.hyperParameterNames = b.list([b.list(hn) for hn in models])
        S.hyperParameterValues = b.list([b.array((n, num(len(hn))), (lambda m: lambda k, j: self.hv(num(m), k, j))(m)) for m, (n, hn) in enumerate(zip(self.n, models))])
        if history:
            S.posteriorSequence = b.seq(self.N, lambda i: b.array(self.G, lambda *x: self.PS(i, *x)))
            S.formattedTimestamps = b.seq(self.N, lambda i: b.val(self.ts(i), 'i'))
            S.hyperParameterSequence = b.seq(self.N, lambda i: b.list([b.array((n,), (lambda m: lambda k: self.hs(i, num(m), k))(m)) for m, n in enumerate(self.n)]))
        else:
            S.posteriorSequence = b.list([])
            S.hyperParameterSequence = b.list([])
            self.b.assume(T.lt0(-self.N))
        S.marginalizedPosterior = b.array(self.G, lambda *x: self.mp(*x))
        S.hyperParameterDistribution = b.list([b.array((n,), (lambda m: lambda k: self.hc(num(m), k))(m)) for m, n in enumerate(self.n)])

    def now(self):
        bl = self.at(ZERO)
        bl.w = lambda *x: self.mp(*x)
        return bl

    def hyper(self, m, i):
        return Block([self.n[m]], {h: (lambda j: lambda k: self.hv(num(m), k, num(j)))(j) for j, h in enumerate(self.models[m])},
                     (lambda k: self.hs(i, num(m), k)) if i is not None else (lambda k: self.hc(num(m), k)))

    def kept(self):
        if self.history:
            St.kept(self)
        self.b.eq('current posterior is not modified', self.S.marginalizedPosterior, lambda *x: self.mp(*x), self.G)
        for m, n in enumerate(self.n):
            self.b.eq('current hyper-parameter distribution %d is not modified' % m, self.S.hyperParameterDistribution[m], lambda k: self.hc(num(m), k), [n])


def hyper_query(query, cls, names, hnames, timed):
    def c(b):
        s = Hs(b, 'A', names, hnames, cls)
        P = b.mod('parser').Parser(s.S)
        blocks = []
        if any(h in query for h in hnames):
            blocks.append((s.hyper(), {h: h for h in hnames}))
        if timed:
            k = step(b, s)
            blocks.append((s.at(k), {n: n for n in names}))
            p = P(query, t=b.val(s.ts(k)), silent=True)
        else:
            p = P(query, silent=True)
        b.eq('P(%s)' % query, p, lambda: probability(query, blocks))
        s.kept()
    return c


def online_query(query, models, mode, use):
    """mode: 'now' (no history), 't' (keyword), '@' (time in the query); use: blocks in the query, 'p' or a model number"""
    def c(b):
        s = Os(b, 'A', ['a', 'b'], models, history=mode != 'now')
        P = b.mod('parser').Parser(s.S)
        if mode == 'now':
            i, sfx, kw = None, '', {}
        elif mode == 't':
            i = step(b, s)
            sfx, kw = '', {'t': b.val(s.ts(i), 'i')}
        else:
            i, sfx, kw = pos(b, s, 2), '_at_2', {}
        blocks = []
        for u in use:
            bl = (s.now() if i is None else s.at(i)) if u == 'p' else s.hyper(u, i)
            blocks.append((bl, {n + sfx: n for n in bl.cols}))
        p = P(query, silent=True, **kw)
        b.eq('P(%s)' % query, p, lambda: probability(query, blocks, norm=len(blocks) > 1 or use[0] != 'p'))
        s.kept()
    return c


# ------------------------------------------------------------------------------------------- modular: evaluation of a parsed query
class Operand:
    """an operand of _operation. kind: 'num', 'par' (parameter of study s at time t), 'hyp', 'der' (derived)"""

    def __init__(self, b, tag, kind, study=None, time=None):
        self.kind, self.study, self.time = kind, study, time
        pm = b.mod('parser')
        if kind == 'num':
            self.x = b.real('c' + tag)
            self.obj = b.val(self.x)
            return
        self.n = b.size('n' + tag)
        self.v, self.w = b.uf('v' + tag), b.uf('w' + tag, 'pos')
        arr, w = b.array((self.n,), lambda k: self.v(k)), b.array((self.n,), lambda k: self.w(k))
        if kind == 'der':
            self.obj = pm.Parameter(arr, w, name='_derived')
        else:
            self.obj = (pm.Parameter if kind == 'par' else pm.HyperParameter)(arr, w, name=tag, study=study, time=time)

    def at(self, k):
        return self.x if self.kind == 'num' else self.v(k)

    def same(self, o, b):
        """same joint distribution (same size, same weights)"""
        o.n = self.n
        o.w = self.w
        o.obj = (b.mod('parser').Parameter if self.kind == 'par' else b.mod('parser').HyperParameter)(
            b.array((o.n,), lambda k: o.v(k)), b.array((o.n,), lambda k: o.w(k)), name='o', study=o.study, time=o.time)


OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '^': lambda x, y: T.mk_pow(x, y.const())}


def operation(ka, kb):
    """ka, kb: (kind, study, time) of the operands"""
    def c(b):
        S1 = St(b, 'A', ['a', 'b'])
        S2 = St(b, 'B', ['c'])
        sts = {1: S1.S, 2: S2.S, None: None}
        P = b.mod('parser').Parser(S1.S, S2.S)
        x, y = [Operand(b, t, k[0], sts[k[1]] if len(k) > 1 else None, k[2] if len(k) > 2 else None) for t, k in (('x', ka), ('y', kb))]
        for sym, f in OPS.items():
            if sym == '^' and kb[0] != 'num':
                continue
            if ka[0] == kb[0] and ka[0] in ('par', 'hyp') and ka == kb:
                x.same(y, b)
                r = P._operation(sym, x.obj, y.obj)
                b.eq(sym + ': values', r, lambda k: f(x.at(k), y.at(k)), [x.n])
                b.eq(sym + ': probabilities', r.prob, lambda k: x.w(k), [x.n])
                b.true(sym + ': still belongs to the joint distribution', r.study is x.study and r.time == x.time and type(r) is type(x.obj))
            elif 'num' in (ka[0], kb[0]):
                if sym == '^' and kb[0] == 'num':
                    y.obj, y.x = 2.0, num(2)
                r = P._operation(sym, x.obj, y.obj)
                if ka[0] == kb[0]:
                    b.eq(sym + ': value', r, lambda: f(x.x, y.x))
                    continue
                o = x if kb[0] == 'num' else y
                b.eq(sym + ': values', r, lambda k: f(x.at(k), y.at(k)), [o.n])
                b.eq(sym + ': probabilities', r.prob, lambda k: o.w(k), [o.n])
                b.true(sym + ': still belongs to the joint distribution', r.study is o.study and r.time == o.time and type(r) is type(o.obj) and r.name == o.obj.name)
            else:
                r = P._operation(sym, x.obj, y.obj)
                i, j = T.fresh_index(), T.fresh_index()
                z = T.mk_sum([i], [x.n], x.w(i)) * T.mk_sum([j], [y.n], y.w(j))
                d = (x.n, y.n)
                b.eq(sym + ': values of all pairs', r, lambda k: f(x.at(unflat(d, 0, k)), y.at(unflat(d, 1, k))), [x.n * y.n])
                b.eq(sym + ': probabilities of independent pairs', r.prob, lambda k: x.w(unflat(d, 0, k)) * y.w(unflat(d, 1, k)) / z, [x.n * y.n])
                b.true(sym + ': belongs to no study', r.study is None and r.name == '_derived' and type(r) is b.mod('parser').Parameter)
            for o in (x, y):
                if o.kind != 'num':
                    b.eq(sym + ': operand %s is not modified' % ('x' if o is x else 'y'), o.obj, lambda k: o.v(k), [o.n])
                    b.eq(sym + ': probabilities of operand %s are not modified' % ('x' if o is x else 'y'), o.obj.prob, lambda k: o.w(k), [o.n])
    return c


def timestamp(hyp):
    """x@t selects the distribution at the step with timestamp t of the own study, in a copy"""
    def c(b):
        s = St(b, 'A', ['a', 'b'])
        pm = b.mod('parser')
        P = pm.Parser(s.S)
        k = step(b, s)
        n, v, w = b.size('n'), b.uf('v'), b.uf('w', 'pos')
        x = (pm.HyperParameter if hyp else pm.Parameter)(b.array((n,), lambda i: v(i)), b.array((s.N, n), lambda i, j: w(i, j)), name='a', study=s.S)
        P.parameters = b.list([x])
        r = P._operation('@', 'a', b.val(s.ts(k)))
        b.eq('values', r, lambda i: v(i), [n])
        b.eq('probabilities of the time step', r.prob, lambda j: w(k, j), [n])
        b.eq('the parameter keeps all time steps', x.prob, lambda i, j: w(i, j), [s.N, n])
        b.true('time is set', r.study is s.S and r.time is not None and x.time is None)
        r = b.call(P._operation, '+', x, 1.0)
        b.true('arithmetic without a time is rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
        r = b.call(P._operation, '+', 1.0, x)
        b.true('arithmetic without a time is rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
    return c


def tree(node):
    """Python's expression tree in terms of the operations"""
    import ast
    if isinstance(node, ast.BinOp):
        op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '^', ast.MatMult: '@'}[type(node.op)]
        return (op, tree(node.left), tree(node.right))
    if isinstance(node, ast.UnaryOp):
        return ('*', '-1' if isinstance(node.op, ast.USub) else '1', tree(node.operand))
    if isinstance(node, ast.Call):
        return ('func', node.func.id, tree(node.args[0]))
    if isinstance(node, ast.Name):
        return node.id.replace('_at_', '@') if '_at_' not in node.id else ('@',) + tuple(node.id.split('_at_'))
    return str(node.value)


def grammar(exprs):
    def c(b):
        import ast
        s = St(b, 'A', ['a', 'b', 'c'])
        P = b.mod('parser').Parser(s.S)
        P._operation = lambda op, x, y: (op, x, y)
        wrong = []
        for e in exprs:
            e = '-1*(b)+' + e               # the form in which a query reaches the evaluation
            py = re.sub(r'@\s*([0-9]+)', r'_at_\1', e).replace('^', '**')
            want = tree(ast.parse(py, mode='eval').body)
            got = P._evaluate(P.expr.parseString(e, parseAll=True).asList()[0])
            if got != want:
                wrong.append('%s gives %s' % (e, got))
        b.true('expressions are evaluated in the standard order', not wrong, '; '.join(wrong[:3]))
    return c


def chains():
    """all expressions of up to four operands with binary operators, and of up to three operands with signs, functions and times"""
    import itertools
    out = []
    for n in (2, 3, 4):
        for ops in itertools.product('+-*/', repeat=n - 1):
            out.append(' '.join(x for q in zip('abca', ops + ('',)) for x in q).strip())
    for o1, o2 in itertools.product('+-*/^', repeat=2):
        out += ['a%s(b%sc)' % (o1, o2), '(a%sb)%sc' % (o1, o2), 'a%sb%sc' % (o1, o2), '-a%sb%sc' % (o1, o2), 'exp(a)%sb%ssin(c)' % (o1, o2),
                'a@1%sb@2%sc@3' % (o1, o2), 'a%s-b%sc' % (o1, o2) if o1 in '*/' else 'a%s(-b)%sc' % (o1, o2), '-a@2%s3%sc' % (o1, o2), '2%sexp(a%sb)' % (o1, o2)]
    for ops in itertools.product('+-', repeat=6):
        out.append(''.join(x for q in zip('abcabca', ops + ('',)) for x in q))
    out.append('*'.join('abc' * 5))
    return sorted(set(out))


F = 'parser.Parser.__init__, __call__, _evaluate, _convert, _operation'
CONTRACTS = []
for q in ('a > 0', 'a >= 1.5', 'a < b', 'b <= a', 'a + b*2 > 3', '(a + b)*2 > 3', 'a - b - 1 > 0', 'a - (b - 1) < 2', 'a == b', '-a < b', '-a^2 < b', 'a/2/b > 1',
          'a/(2/b) < 1', 'exp(a) > b', '2*a^2 + b > 1', 'a*b - b*a + a > -1', '3 > a'):
    CONTRACTS.append(dict(name='joint %s' % q, function=F, fn=joint(q, ['a', 'b']), sizes=(2, 4), model=small))
for q, sp in (('a@2 > b@2', {'A': (['a', 'b'], [2])}), ('a@2 - a@1 > 0', {'A': (['a'], [1, 2])}), ('a@2 + b@2 - a@1*b@1 < 1', {'A': (['a', 'b'], [1, 2])}),
              ('a@2 < c@1', {'A': (['a', 'b'], [2]), 'B': (['c'], [1])}), ('2*a@2 - c@2/3 >= 1', {'A': (['a'], [2]), 'B': (['c'], [2])}),
              ('a@1 + a@2 + a@3 > 1', {'A': (['a'], [1, 2, 3])}), ('a@1*(a@2 - c@1) > 1', {'A': (['a'], [1, 2]), 'B': (['c'], [1])}),
              ('exp(a@2) > 1', {'A': (['a'], [2])}), ('a@2 == c@1', {'A': (['a'], [2]), 'B': (['c'], [1])})):
    CONTRACTS.append(dict(name='times %s' % q, function=F, fn=at_times(q, sp), sizes=(2, 3)))
for q, sp in (('a > c', {'A': ['a', 'b'], 'B': ['c']}), ('a*b - c < 1', {'A': ['a', 'b'], 'B': ['c']}), ('a + c + d > 1', {'A': ['a'], 'B': ['c'], 'C': ['d']}),
              ('c - a == 0', {'A': ['a'], 'B': ['c', 'd']})):
    CONTRACTS.append(dict(name='studies %s' % q, function=F, fn=common_time(q, sp), sizes=(2, 3)))
for q in ('a > 0', 'a + 1 > 0', 'a*b < 2', 'a > 0 > b', 'a > b)'):
    CONTRACTS.append(dict(name='rejected %s' % q, function=F, fn=rejected(q, ['a', 'b']), sizes=(2, 3)))

for cls in ('HyperStudy', 'ChangepointStudy'):
    for q, timed in (('h > 0', False), ('g - 2*h < 1', False), ('h*g >= 1', False), ('a > h', True), ('a*b - h/g < 1', True), ('h + a > 0', True)):
        CONTRACTS.append(dict(name='%s %s' % (cls, q), function=F, fn=hyper_query(q, cls, ['a', 'b'], ['h', 'g'], timed), sizes=(2, 3), model=small))
MS = [['h'], [], ['g', 'u']]
for mode, sfx in (('now', ''), ('t', ''), ('@', '@2')):
    for q, use in (('a%s > b%s', ['p']), ('h%s > 1', [0]), ('g%s - u%s < 1', [2]), ('u%s*(a%s - b%s) > 1', [2, 'p']), ('a%s - g%s*2 >= 1', ['p', 2])):
        q = q.replace('%s', sfx)
        CONTRACTS.append(dict(name='online (%s) %s' % (mode, q), function=F, fn=online_query(q, MS, mode, use), sizes=(2, 3), model=small))

FO = 'parser.Parser._operation, parser.Parameter, parser.HyperParameter'
KINDS = {'joint parameters': (('par', 1, 3.0), ('par', 1, 3.0)), 'joint hyper-parameters': (('hyp', 1), ('hyp', 1)), 'different times': (('par', 1, 3.0), ('par', 1, 4.0)),
         'different studies': (('par', 1, 3.0), ('par', 2, 3.0)), 'hyper-parameters of different studies': (('hyp', 1), ('hyp', 2)), 'parameter and hyper-parameter': (('par', 1, 3.0), ('hyp', 1)),
         'hyper-parameter and parameter': (('hyp', 1), ('par', 1, 3.0)), 'hyper-parameters at different times': (('hyp', 1, 3.0), ('hyp', 1, 4.0)),
         'derived and parameter': (('der',), ('par', 1, 3.0)), 'parameter and derived': (('par', 1, 3.0), ('der',)), 'derived and hyper-parameter': (('der',), ('hyp', 1)),
         'hyper-parameter and derived': (('hyp', 1), ('der',)), 'two derived': (('der',), ('der',)), 'number and parameter': (('num',), ('par', 1, 3.0)),
         'parameter and number': (('par', 1, 3.0), ('num',)), 'hyper-parameter and number': (('hyp', 1), ('num',)), 'number and hyper-parameter': (('num',), ('hyp', 1)),
         'derived and number': (('der',), ('num',)), 'number and derived': (('num',), ('der',)), 'two numbers': (('num',), ('num',))}
for nm, (ka, kb) in KINDS.items():
    CONTRACTS.append(dict(name=nm, function=FO, fn=operation(ka, kb), sizes=(2, 4), private=True))
CONTRACTS.append(dict(name='time of a parameter', function=FO + ', parser.Parser._convert', fn=timestamp(False), sizes=(2, 4), model=small, private=True))
CONTRACTS.append(dict(name='time of a hyper-parameter', function=FO + ', parser.Parser._convert', fn=timestamp(True), sizes=(2, 4), model=small, private=True))
CONTRACTS.append(dict(name='order of evaluation', function='parser.Parser._evaluate, parser.Parser.__init__', fn=grammar(chains()), sizes=(2, 3), private=True))
BOUNDED = ['order of evaluation: the parse tree of pyparsing is compared with Python\'s own for %d expressions (all chains of up to four operands with + - * /, and '
           'combinations of two operators with signs, powers, functions, times and parentheses); longer chains and deeper nesting follow the same recursion of _evaluate' % len(chains())]
