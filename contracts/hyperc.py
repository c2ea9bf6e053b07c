"""Hyper-studies: stub transition-model trees whose effect depends on the current hyper-parameter values."""
from fractions import Fraction
from engine import terms as T
from engine.sym import unflat
from engine.terms import ZERO, ONE, num
from .fitc import Fit
from .C07 import families, arbitrary


class Axis:
    """one hyper-parameter. kind: 'lin' equally spaced values, 'free' arbitrary values, 'all' all timestamps but the last,
    'one' a single number. prior: None (uniform), 'fun' (Python function), 'arr' (array), 'sym' (SymPy random variable; its density is used as it is),
    'any' (SymPy random variable with an arbitrary density)"""

    def __init__(self, b, j, kind='lin', prior=None):
        self.b, self.j, self.kind, self.prior = b, j, kind, prior
        self.name = 'h%d' % j

    def setup(self, f):
        b, j = self.b, self.j
        if self.kind == 'all':
            self.n = f.N - 1
            self.val = lambda i: f.time(i)
        elif self.kind == 'one':
            self.n = ONE
            v = b.real('v%d' % j)
            self.val = lambda i: v
        else:
            self.n = b.size('n%d' % j)
            b.assume(T.le0(num(2) - self.n))
            if self.kind == 'lin':
                a, s = b.real('a%d' % j), b.real('s%d' % j)
                b.nonzero(s)
                self.val = lambda i: a + s * i
                self.lin = s
            else:
                u = b.uf('u%d' % j)
                self.val = lambda i: u(i)
        if self.prior == 'any':
            self.rv, dens = arbitrary(b, j)
            self.p = lambda i: dens(self.val(i))
            self.const = self.spacing()
            return
        if self.prior == 'arr':
            w = b.uf('w%d' % j, 'nonneg')
            self.raw = lambda i: w(i)
        elif self.prior == 'fun':
            w = b.uf('hp%d' % j, 'nonneg')
            self.raw = lambda i: w(self.val(i))
        elif self.prior == 'sym':
            self.rv = list(families().values())[j % 3]
            self.const = self.spacing()
            self.p = lambda i: self.rv[1](self.val(i))
            return
        else:
            self.raw = lambda i: ONE
        k = T.fresh_index()
        self.z = T.mk_sum([k], [self.n], self.raw(k))
        b.assume(T.lt0(-self.z))
        self.const = self.spacing()
        self.p = lambda i: self.raw(i) / self.z / self.const

    def spacing(self):
        b = self.b
        if self.kind == 'one':
            return ONE
        if self.kind == 'lin':
            return T.mk_abs(self.lin)
        v = self.val
        if self.kind == 'all' and b.fork(T.le0(self.n - 1)):
            return ONE
        d2 = lambda i: T.mk_abs(v(i + 2) - v(i + 1) * 2 + v(i))
        reg = b.forall(self.n - 2, lambda i: T.lt0(d2(i) - num(Fraction(1, 10 ** 10)))) if not b.fork(T.le0(self.n - 2)) else True
        return T.mk_abs(v(ONE) - v(ZERO)) if reg else ONE

    def user(self, lst=False):
        b = self.b
        if self.kind == 'all':
            return 'all'
        if self.kind == 'one':
            return b.val(self.val(ZERO))
        return b.array((self.n,), lambda i: self.val(i))

    def userprior(self):
        b, j = self.b, self.j
        if self.prior == 'arr':
            return b.array((self.n,), lambda i: self.raw(i))
        if self.prior == 'fun':
            w = b.uf('hp%d' % j, 'nonneg')

            def hyperprior(x):
                return b.val(w(b.term(x)))
            return hyperprior
        if self.prior == 'any':
            return self.rv
        if self.prior == 'sym':
            return self.rv[0]('hrv%d' % j)
        return None


class HStudy(Fit):
    def __init__(self, b, axes, rank=1, seg=1, group=None, labels=()):
        Fit.__init__(self, b, rank, seg)
        self.axes = axes
        self.group = group or [[j] for j in range(len(axes))]
        self.labels = dict(labels)
        self.ts = b.uf('ts', mono=True)
        for a in axes:
            a.setup(self)
        self.n = [a.n for a in axes]
        self.tot = ONE
        for n in self.n:
            self.tot = self.tot * n
        self.hvol = ONE
        for a in axes:
            self.hvol = self.hvol * a.const

    def tm(self):
        me, b = self, self.b
        base = Fit.tm(self)
        axes = self.axes

        class Sub:
            def __init__(self, js, label):
                self.label = label
                self.hyperParameterNames = b.list([axes[j].name for j in js])
                self.hyperParameterValues = b.list([axes[j].user() for j in js])
                ps = [axes[j].userprior() for j in js]
                self.prior = ps[0] if len(ps) == 1 else b.list(ps)

            def __str__(self):
                return self.label

        class Root(base.__class__):
            def current(self):
                return [b.term(v) for s in self.models for v in s.hyperParameterValues]

            def computeForwardPrior(self, post, t):
                p, t, h = b.table(post), b.term(t), self.current()
                return b.array(me.G, lambda *x: b.uf('TFh', 'nonneg')(p, t, *(h + list(x))))

            def computeBackwardPrior(self, post, t):
                p, t, h = b.table(post), b.term(t), self.current()
                return b.array(me.G, lambda *x: b.uf('TBh', 'nonneg')(p, t, *(h + list(x))))
        r = Root()
        r.models = b.list([Sub(js, me.labels.get(i, 'sub-model')) for i, js in enumerate(self.group)])
        return r

    def idx(self, k, j):
        """value index of hyper-parameter j in combination k (row-major order)"""
        if len(self.n) == 1:
            return k
        return unflat(self.n, j, k)

    def h(self, k):
        return [a.val(self.idx(k, j)) for j, a in enumerate(self.axes)]

    def prior(self, k):
        p = ONE
        for j, a in enumerate(self.axes):
            p = p * a.p(self.idx(k, j))
        return p

    def at(self, h):
        g = Fit(self.b, self.rank, self.seg)
        g.ts = self.ts
        g.TF = lambda p, t, *x: self.b.uf('TFh', 'nonneg')(p, t, *(list(h) + list(x)))
        g.TB = lambda p, t, *x: self.b.uf('TBh', 'nonneg')(p, t, *(list(h) + list(x)))
        g.spec()
        return g

    def kept(self):
        b = self.b
        for i, js in enumerate(self.group):
            m = self.S.transitionModel.models[i]
            b.true('names of sub-model %d are kept' % i, list(m.hyperParameterNames) == [self.axes[j].name for j in js])
            for q, j in enumerate(js):
                a = self.axes[j]
                v = m.hyperParameterValues[q]
                if a.kind == 'all':
                    b.true('user values %d are kept' % j, isinstance(v, str) and v == 'all')
                elif a.kind == 'one':
                    b.eq('user values %d are kept' % j, v, lambda: a.val(ZERO))
                else:
                    b.eq('user values %d are kept' % j, v, lambda i: a.val(i), [a.n])


def timesinc(m):
    """strictly increasing timestamps, mostly equally spaced"""
    from engine.evalm import _h
    step = _h(m.seed, 'step')
    if step < .7:
        m.interp['ts'] = lambda mm, i: 3. + float(i) * (1. if step < .4 else 2.)
