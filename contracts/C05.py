"""Built-in likelihoods on arbitrary grids of admissible parameter values and arbitrary data."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from engine.sym import p_pow
from engine.evalm import _h
from fractions import Fraction

HALF = Fraction(1, 2)


def normal(x, mu, s):
    return T.mk_exp(-(x - mu) * (x - mu) / (s * s * 2)) / (T.mk_pow(T.atom_p(T.PI) * 2, HALF) * s)


class OM:
    def __init__(self, b, cls, rank, signs, seg, dims2=None, names=None):
        self.b, self.rank = b, rank
        self.G = [b.size('G%d' % i) for i in range(rank)]
        self.g = [b.uf('g%d' % i, signs[i]) for i in range(rank)]
        self.d = b.uf('d')
        self.grid = b.list([b.array(self.G, (lambda f: lambda *x: f(*x))(f)) for f in self.g])
        self.seg = seg
        self.data = b.array((num(seg),) + (tuple(dims2) if dims2 else ()), lambda *i: self.d(*i))
        self.M = getattr(b.mod('observationModels'), cls)()

    def run(self, method):
        return getattr(self.M, method)(self.grid, self.data)

    def all(self, cond):
        """precondition on every grid point"""
        vs = [T.fresh_index() for _ in self.G]
        self.b.assume_box(vs, self.G, cond(*vs))

    def kept(self):
        b = self.b
        for i, f in enumerate(self.g):
            b.eq('grid of parameter %d is not modified' % i, self.grid[i], lambda *x: f(*x), self.G)
        b.eq('data is not modified', self.data, lambda *i: self.d(*i), [num(self.seg)] if b.rank(self.data) == 1 else [num(self.seg), num(2)])


def simple(cls, rank, signs, seg, dens, pre=None, dims2=None, fix=None):
    def c(b):
        k = OM(b, cls, rank, signs, seg, dims2)
        if fix:
            fix(b, k)
        for m in ('pdf', 'processedPdf'):
            r = k.run(m)
            b.eq('%s is the textbook density' % m, r, lambda *x: dens(k, [f(*x) for f in k.g]), k.G)
        k.kept()
    return c


def bern(b, k):
    """data is a truth value"""
    v = b.int('v')
    b.assume(T.le0(-v) * T.le0(v - 1))
    k.d = lambda i: v
    k.data = b.array((ONE,), lambda i: v)


def unit(b, k):
    q = [T.fresh_index() for _ in k.G]
    b.assume_all(k.G[0], lambda i: T.le0(-k.g[0](i)) * T.le0(k.g[0](i) - 1))


def coin(m):
    m.values['v'] = int(_h(m.seed, 'v') * 2)


def bernoulli(m):
    def c(b):
        k = OM(b, 'Bernoulli', 1, [None], 1)
        bern(b, k)
        unit(b, k)
        v = k.d(0)
        b.eq('%s is the textbook probability' % m, k.run(m), lambda x: T.ite(T.eq0(v), ONE - k.g[0](x), k.g[0](x)), k.G)
        k.kept()
    return c


def poisson(b, k):
    n = b.int('n', 'nonneg')
    k.d = lambda i: n
    k.data = b.array((ONE,), lambda i: n)


def gmean(b, k):
    v, e = b.real('v'), b.real('e', 'pos')
    k.d = lambda i, j: T.ite(T.eq0(j), v, e)
    k.data = b.array((ONE, num(2)), lambda i, j: k.d(i, j))


def scaled(k, g):
    r, s = g
    return normal(k.d(ONE), r * k.d(ZERO), s * T.mk_pow(ONE - r * r, HALF))


def ent(name, fn, **kw):
    return dict(name=name, function='observationModels.%s.pdf, ObservationModel.processedPdf' % name.split()[0], fn=fn, **kw)


CONTRACTS = [
    ent('Gaussian', simple('Gaussian', 2, [None, 'pos'], 1, lambda k, g: normal(k.d(ZERO), g[0], g[1]))),
    ent('Laplace', simple('Laplace', 2, [None, 'pos'], 1, lambda k, g: T.mk_exp(-T.mk_abs(k.d(ZERO) - g[0]) / g[1]) / (g[1] * 2))),
    ent('WhiteNoise', simple('WhiteNoise', 1, ['pos'], 1, lambda k, g: normal(k.d(ZERO), ZERO, g[0]))),
    ent('AR1', simple('AR1', 2, [None, 'pos'], 2, lambda k, g: normal(k.d(ONE), g[0] * k.d(ZERO), g[1]))),
    ent('GaussianMean', simple('GaussianMean', 1, [None], 1, lambda k, g: normal(k.d(ZERO, ZERO), g[0], k.d(ZERO, ONE)), dims2=(num(2),),
                               fix=gmean)),
    ent('Poisson', simple('Poisson', 1, ['pos'], 1, lambda k, g: p_pow(g[0], k.d(ZERO)) * T.mk_exp(-g[0]) / T.app('factorial', k.d(ZERO), sign='pos'), fix=poisson)),
    ent('ScaledAR1', simple('ScaledAR1', 2, [None, 'pos'], 2, scaled)),
    ent('Bernoulli pdf', bernoulli('pdf'), interp={'g0': lambda m, i: 0.5 + 0.5 * m.smooth('g0', [i])}, model=coin),
    ent('Bernoulli processedPdf', bernoulli('processedPdf'), interp={'g0': lambda m, i: 0.5 + 0.5 * m.smooth('g0', [i])}, model=coin),
]
for _c in CONTRACTS:
    if _c['name'] == 'ScaledAR1':
        _c['interp'] = {'g0': lambda m, *i: 0.95 * m.smooth('g0', list(i))}
