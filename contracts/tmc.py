"""Transition models: computeForwardPrior / computeBackwardPrior of the real classes on an arbitrary distribution P(x),
time t, hyper-parameter values, grid spacings and (array) prior of the study."""
from engine import terms as T
from engine.evalm import _h
from engine.terms import ZERO, ONE, num
from engine.sym import p_pow
from .fitc import Fit


def times(*names):
    """models take the times from a small range so that coincidences occur"""
    def f(m):
        for n in names:
            m.values[n] = int(_h(m.seed, 'time', n) * 5) - 1
    return f


class Case(Fit):
    def __init__(self, b, rank, even=False):
        Fit.__init__(self, b, rank, even=even)
        self.S = self.study()
        self.Pu = b.uf('P', 'nonneg')
        self.post = b.array(self.G, lambda *x: self.Pu(*x))
        self.tp = b.real('t')
        self.t = b.val(self.tp)
        self.zp = self.sumG(lambda *x: self.pri(*x))
        b.assume(T.lt0(-self.zp))
        b.assume(T.lt0(-self.sumG(lambda *x: self.Pu(*x))))

    def attach(self, M):
        M.study = self.S
        M.latticeConstant = self.S.latticeConstant
        return M

    def kept(self):
        self.b.eq('input distribution is not modified', self.post, lambda *x: self.Pu(*x), self.G)
        self.b.eq('prior is not modified', self.S.observationModel.prior, lambda *x: self.pri(*x), self.G)

    def run(self, M, back):
        return (M.computeBackwardPrior if back else M.computeForwardPrior)(self.post, self.t)

    def at(self, back):
        """time at which the model acts"""
        return self.tp - 1 if back else self.tp

    def propto(self, name, value, spec):
        """value is a positive multiple of spec(x)"""
        b = self.b
        s = asum(b, value)
        b.true(name + ' (finite scale)', T.lt0(-s) if b.symbolic else s > 0)
        b.eq(name, div(b, value, s), lambda *x: spec(*x) / self.sumG(spec), self.G)

    def equals(self, name, value, spec):
        self.b.eq(name, value, spec, self.G)


def asum(b, a):
    if b.symbolic:
        from engine import sym
        return T.to_p(sym.a_sum(sym.as_sarr(a)))
    import numpy as np
    return float(np.sum(a))


def div(b, a, s):
    if b.symbolic:
        from engine import sym
        a = sym.as_sarr(a)
        return sym.SArr.make(a.dims, lambda *i: a.at(*i) / s, 'f')
    return a / s


def static(rank, back):
    def c(b):
        k = Case(b, rank)
        M = k.attach(b.mod('transitionModels').Static())
        k.equals('unchanged', k.run(M, back), lambda *x: k.Pu(*x))
        k.kept()
    return c


def changepoint(rank, back):
    def c(b):
        k = Case(b, rank)
        tc = b.real('tc')
        M = k.attach(b.mod('transitionModels').ChangePoint('tc', b.val(tc)))
        hit = T.eq0(k.at(back) - tc)
        r = k.run(M, back)
        if not b.fork(hit):
            k.equals('unchanged away from the change-point', r, lambda *x: k.Pu(*x))
        elif back:
            k.propto('constant message at the change-point', r, lambda *x: ONE)
        else:
            k.propto('reset to the prior at the change-point', r, lambda *x: k.pri(*x))
        k.kept()
    return c


def independent(rank, back):
    def c(b):
        k = Case(b, rank)
        M = k.attach(b.mod('transitionModels').Independent())
        r = k.run(M, back)
        if back:
            k.propto('constant message', r, lambda *x: ONE)
        else:
            k.equals('normalised prior', r, lambda *x: k.pri(*x) / k.zp)
        k.kept()
    return c


def regime(rank, back):
    def c(b):
        k = Case(b, rank)
        pm = b.real('pm')
        M = k.attach(b.mod('transitionModels').RegimeSwitch('pm', b.val(pm)))
        r = k.run(M, back)
        lim = p_pow(num(10), pm) * k.vol
        w = lambda *x: T.ite(T.lt0(k.Pu(*x) - lim), lim, k.Pu(*x))
        k.equals('raised to the limit and renormalised', r, lambda *x: w(*x) / k.sumG(w))
        k.kept()
    return c


def notequal(rank, back):
    def c(b):
        k = Case(b, rank)
        pm = b.real('pm')
        M = k.attach(b.mod('transitionModels').NotEqual('pm', b.val(pm)))
        lim = p_pow(num(10), pm) * k.vol
        vs = [T.fresh_index() for _ in k.G]
        mx = T.mk_max(vs, k.G, k.Pu(*vs))
        inv = lambda *x: mx - k.Pu(*x)
        z = k.sumG(inv)
        n = lambda *x: inv(*x) / z
        b.assume(T.lt0(-z))         # otherwise the distribution is flat: see notequal_flat
        w = lambda *x: T.ite(T.lt0(n(*x) - lim), lim, n(*x))
        k.equals('inverted, normalised, raised to the limit, renormalised', k.run(M, back), lambda *x: w(*x) / k.sumG(w))
        k.kept()
    return c


def notequal_flat(rank, back):
    def c(b):
        k = Case(b, rank)
        v = b.real('c', 'pos')
        k.post = b.array(k.G, lambda *x: v)
        pm = b.real('pm')
        M = k.attach(b.mod('transitionModels').NotEqual('pm', b.val(pm)))
        g = ONE
        for d in k.G:
            g = g * d
        k.equals('flat distribution stays flat', k.run(M, back), lambda *x: ONE / g)
    return c


def entries():
    out = []
    for nm, f, ts in (('Static', static, ()), ('ChangePoint', changepoint, ('t', 'tc')), ('Independent', independent, ()),
                      ('RegimeSwitch', regime, ()), ('NotEqual', notequal, ()), ('NotEqual flat', notequal_flat, ())):
        for rank in (1, 2):
            for back in (False, True):
                d = 'computeBackwardPrior' if back else 'computeForwardPrior'
                out.append(dict(name='%s-%s-%dd' % (nm, 'backward' if back else 'forward', rank), function='transitionModels.%s.%s, core.Study._computePrior' % (nm.split()[0], d),
                                fn=f(rank, back), model=times(*ts)))
    return out
