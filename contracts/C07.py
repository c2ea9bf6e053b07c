"""Priors: values, normalisation, no side effects, repeatability."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from .fitc import Fit
from .C05 import normal

ASSUMPTIONS = ['sympy.stats.density and sympy.lambdify (arguments bound by position) are as documented; the SymPy contracts cover named distributions and '
               'continuous random variables with an arbitrary density (ContinuousRV over an undefined function) on the real line and on an interval']


def families():
    """SymPy random variables and their textbook densities"""
    import sympy.stats as st
    import sympy
    Q, R = T.Fraction, sympy.Rational
    return {
        'normal': (lambda n: st.Normal(n, R(3, 10), R(17, 10)), lambda x: normal(x, num(Q(3, 10)), num(Q(17, 10)))),
        'normal2': (lambda n: st.Normal(n, -2, 3), lambda x: normal(x, num(-2), num(3))),
        'laplace': (lambda n: st.Laplace(n, 1, 2), lambda x: T.mk_exp(-T.mk_abs(x - 1) / 2) / 4),
        'uniform': (lambda n: st.Uniform(n, -1, 3), lambda x: T.le0(-x - 1) * T.le0(x - 3) / 4),
    }


def lift(b, d, *v):
    """the term-level function d applied to numbers and arrays of one shape"""
    if b.symbolic:
        from engine.sym import SArr
        A = [x for x in v if isinstance(x, SArr) and x.dims]
        if not A:
            return b.val(d(*[b.term(x) for x in v]))
        return b.array(A[0].dims, lambda *i: d(*[x.at(*i) if isinstance(x, SArr) and x.dims else b.term(x) for x in v]))
    import numpy as np
    V = np.broadcast_arrays(*[np.asarray(x, float) for x in v])
    out = np.empty(V[0].shape)
    for i in np.ndindex(*out.shape):
        out[i] = b.val(d(*[b.term(float(x[i])) for x in V]))
    return out if out.shape else float(out)


def arbitrary(b, i, interval=None):
    """a SymPy random variable with an arbitrary density on the real line / on an interval"""
    import sympy
    import sympy.stats as st
    from sympy.utilities.lambdify import implemented_function
    d = b.uf('dens%d' % i, 'pos')
    f = implemented_function('dens%d' % i, lambda v: lift(b, d, v))
    z = sympy.Symbol('z%d' % i)
    rv = st.ContinuousRV(z, f(z), set=sympy.S.Reals if interval is None else sympy.Interval(*interval))
    if interval is None:
        return rv, lambda x: d(x)
    return rv, lambda x: T.le0(interval[0] - x) * T.le0(x - interval[1]) * d(x)


class Pr(Fit):
    def setprior(self, S, kind):
        b = self.b
        self.q = b.uf('q', 'pos')
        me = self
        if kind == 'none':
            S.observationModel.prior = None
            self.weight = lambda *x: ONE
        elif kind == 'array':
            S.observationModel.prior = b.array(self.G, lambda *x: self.pri(*x))
            self.weight = lambda *x: self.pri(*x)
            b.assume(T.lt0(-self.sumG(self.weight)))
        elif kind == 'function':
            def prior(*gs):
                return b.map(lambda *v: me.q(*v), *gs)
            S.observationModel.prior = prior
            self.weight = lambda *x: self.q(*[f(i) for f, i in zip(self.gv, x)])
        elif kind == 'constant':
            def const(*gs):
                return b.val(me.q(num(7)))
            S.observationModel.prior = const
            self.weight = lambda *x: ONE
        return S

    def want(self, *x):
        return self.weight(*x) / self.sumG(self.weight) / self.vol


def prior(rank, kind):
    def c(b):
        f = Pr(b, rank)
        S = f.setprior(f.study(), kind)
        p = S._computePrior(silent=True)
        b.eq('proportional to the specification and integrating to one', p, f.want, f.G)
        p[(0,) * rank] = 0.
        if kind == 'array':
            b.eq('user array is not modified', S.observationModel.prior, lambda *x: f.pri(*x), f.G)
        b.eq('same result again', S._computePrior(silent=True), f.want, f.G)
        for k in range(rank):
            b.eq('grid %d is not modified' % k, S.grid[k], lambda *x: f.gv[k](x[k]), f.G)
    return c


def wrong(rank):
    """an array of another shape is rejected"""
    def c(b):
        f = Pr(b, rank)
        S = f.study()
        M = [g + 1 for g in f.G]
        S.observationModel.prior = b.array(M, lambda *x: f.pri(*x))
        r = b.call(S._computePrior, silent=True)
        b.true('rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
    return c


def repeat(rank, mode, kind):
    """a second fit of the same study reproduces the first; no user object changes"""
    def c(b):
        f = Pr(b, rank)
        S = f.setprior(f.study(), kind)
        kw = dict(silent=True, forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence')
        f.spec()
        b.assume_all(f.N, lambda k: T.lt0(-f.norm(k)))
        if mode == 'full':
            b.assume_all(f.N, lambda k: T.lt0(-f.bnorm(k)))
        S.fit(**kw)
        e1, l1 = S.logEvidence, S.localEvidence
        P1, m1 = S.posteriorSequence, S.posteriorMeanValues
        S.fit(**kw)
        b.same('log-evidence', S.logEvidence, e1, [])
        if mode != 'evidence':
            b.same('posterior sequence', S.posteriorSequence, P1, [f.N] + f.G)
        b.same('local evidence', S.localEvidence, l1, [f.N])
        if kind == 'array':
            b.eq('prior is not modified', S.observationModel.prior, lambda *x: f.pri(*x), f.G)
        b.eq('data is not modified', S.rawData, lambda i: f.data(i), [f.N])
        b.eq('timestamps are not modified', S.rawTimestamps, lambda i: f.ts(i), [f.N])
        for k in range(rank):
            b.eq('parameter values %d are not modified' % k, S.marginalGrid[k], lambda i: f.gv[k](i), [f.G[k]])
            b.eq('grid %d is not modified' % k, S.grid[k], lambda *x: f.gv[k](x[k]), f.G)
            b.eq('spacing %d is not modified' % k, S.latticeConstant[k], lambda: f.dx[k])
    return c


def symprior(rank, kinds, how='list'):
    def c(b):
        f = Fit(b, rank)
        S = f.study()
        fam = families()
        fam.update({'any': (None, None), 'any interval': (None, None)})
        ab = {i: arbitrary(b, i, (-1, 2) if 'interval' in k else None) for i, k in enumerate(kinds) if k.startswith('any')}
        rvs = [ab[i][0] if i in ab else fam[k][0]('rv%d' % i) for i, k in enumerate(kinds)]
        S.observationModel.prior = rvs[0] if how == 'single' else tuple(rvs) if how == 'tuple' else b.list(rvs)

        def want(*x):
            p = ONE
            for i, k in enumerate(kinds):
                p = p * (ab[i][1] if i in ab else fam[k][1])(f.gv[i](x[i]))
            return p
        for again in range(2):
            b.eq('joint density%s' % (' again' if again else ''), S._computePrior(silent=True), want, f.G)
        pr = S.observationModel.prior
        b.true('user prior is not modified', (pr is rvs[0]) if how == 'single' else list(pr) == rvs)
        for k in range(rank):
            b.eq('grid %d is not modified' % k, S.grid[k], lambda *x: f.gv[k](x[k]), f.G)
    return c


def count(rank, n):
    """another number of random variables than of parameters is rejected"""
    def c(b):
        f = Fit(b, rank)
        S = f.study()
        S.observationModel.prior = b.list([families()['normal'][0]('rv%d' % i) for i in range(n)])
        r = b.call(S._computePrior, silent=True)
        b.true('rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
    return c


MODELS = {'Bernoulli': 1, 'Poisson': 1, 'Gaussian': 2, 'Laplace': 2, 'GaussianMean': 1, 'WhiteNoise': 1, 'AR1': 2, 'ScaledAR1': 2,
          'NumPy': 2, 'SciPy': 2, 'SymPy': 2, 'SymPy without Jeffreys prior': 2}


def passed(name, kind):
    """a prior passed to the constructor of an observation model is the one that is used"""
    def c(b):
        rank = MODELS[name]
        f = Fit(b, rank)
        S = f.study()
        om = b.mod('observationModels')
        q = b.uf('q', 'pos')
        pa = b.array(f.G, lambda *x: f.pri(*x))
        rvs = [families()[k][0]('rv%d' % i) for i, k in enumerate(('normal', 'laplace')[:rank])]
        p, w = {
            'none': lambda: (None, lambda *x: ONE),
            'array': lambda: (pa, lambda *x: f.pri(*x)),
            'function': lambda: (lambda *gs: b.map(lambda *v: q(*v), *gs), lambda *x: q(*[g(i) for g, i in zip(f.gv, x)])),
            'sympy': lambda: (b.list(rvs), None),
        }[kind]()
        if kind == 'array':
            b.assume(T.lt0(-f.sumG(w)))
        names = ['p%d' % k for k in range(rank)]
        lst = [y for k in range(rank) for y in (names[k], b.array((f.G[k],), (lambda k: lambda i: f.gv[k](i))(k)))]
        cls = name.split()[0]
        if cls == 'NumPy':
            M = om.NumPy(lambda data, p0, p1: p0, *lst, prior=p)
        elif cls == 'SciPy':
            class RV:
                name = 'stub'
                shapes = 'p0, p1'

                def pdf(self, x, **kw):
                    return kw['p0']
            RV.__module__ = 'scipy.stats._stub'
            M = om.SciPy(RV(), *lst, prior=p, fixedParameters={'loc': 0, 'scale': 1})
        elif cls == 'SymPy':
            import sympy
            import sympy.stats as st
            rv = st.Normal('n', sympy.Symbol('p0', real=True), sympy.Symbol('p1', positive=True))
            M = om.SymPy(rv, *lst, prior=p, determineJeffreysPrior=False) if 'without' in name else om.SymPy(rv, *lst, prior=p)
        else:
            M = getattr(om, cls)(*lst, prior=p)
        S.observationModel = M
        if kind == 'sympy':
            fam = families()
            want = lambda *x: prodof([fam[k][1](f.gv[i](x[i])) for i, k in enumerate(('normal', 'laplace')[:rank])])
        else:
            vol = prodof(f.dx)
            want = lambda *x: w(*x) / f.sumG(w) / vol
        b.eq('prior on the grid', S._computePrior(silent=True), want, f.G)
        if kind == 'array':
            b.eq('user array is not modified', p, lambda *x: f.pri(*x), f.G)
    return c


def prodof(v):
    r = ONE
    for x in v:
        r = r * x
    return r


CONTRACTS = []
for n in MODELS:
    for k in ('none', 'array', 'function', 'sympy'):
        if (n, k) != ('SymPy', 'none'):     # Jeffreys prior, see C05
            CONTRACTS.append(dict(name='prior passed to %s-%s' % (n, k), function='observationModels.%s.__init__, core.Study._computePrior' % n.split()[0], fn=passed(n, k), private=True))
for kinds in [['normal'], ['laplace'], ['uniform'], ['any'], ['any interval']]:
    for how in ('single', 'list', 'tuple'):
        CONTRACTS.append(dict(name='prior-sympy %s (%s)' % (kinds[0], how), function='core.Study._computePrior, helper.freeSymbols', fn=symprior(1, kinds, how), private=True))
for kinds in [['normal', 'laplace'], ['laplace', 'normal'], ['normal', 'normal2'], ['uniform', 'normal'], ['normal', 'laplace', 'uniform'], ['uniform', 'normal2', 'normal'], ['any', 'any'], ['any', 'any interval'], ['any', 'normal', 'any'], ['any', 'any', 'any']]:
    CONTRACTS.append(dict(name='prior-sympy %s' % ' '.join(kinds), function='core.Study._computePrior, helper.freeSymbols', fn=symprior(len(kinds), kinds), private=True))
for r, n in ((1, 2), (2, 1), (2, 3), (3, 2)):
    CONTRACTS.append(dict(name='prior-sympy %d variables for %d parameters' % (n, r), function='core.Study._computePrior', fn=count(r, n), private=True))
for r in (1, 2, 3):
    for k in ('none', 'array', 'function', 'constant'):
        CONTRACTS.append(dict(name='prior-%s-%dd' % (k, r), function='core.Study._computePrior', fn=prior(r, k), private=True))
    CONTRACTS.append(dict(name='prior-wrong shape-%dd' % r, function='core.Study._computePrior', fn=wrong(r), private=True))
for r in (1, 2):
    for m in ('forward', 'full', 'evidence'):        # data that is possible under the model; otherwise see C02
        for k in ('none', 'array', 'function'):
            if (r, k) == (2, 'function'):
                continue
            CONTRACTS.append(dict(name='repeated fit-%s-%s-%dd' % (m, k, r), function='core.Study.fit, core.Study._computePrior', fn=repeat(r, m, k)))
