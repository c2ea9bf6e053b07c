"""Marginal getters on an arbitrary posterior sequence / hyper-parameter distribution."""
from engine import terms as T
from engine.evalm import _h
from engine.terms import ZERO, ONE, num
from .fitc import Fit


class Post(Fit):
    """a fitted study: arbitrary posterior sequence PS(i, x) on an arbitrary grid"""

    def __init__(self, b, rank, cls='Study', seg=1):
        Fit.__init__(self, b, rank, seg)
        for g in self.G:
            b.assume(T.le0(num(2) - g))
        self.ts = b.uf('ts', mono=True)
        self.S = self.study(cls)
        self.PS = b.uf('PS', 'nonneg')
        self.S.posteriorSequence = b.array([self.N] + self.G, lambda i, *x: self.PS(i, *x))
        self.S.formattedTimestamps = b.array((self.N,), lambda i: self.ts(i))
        self.S.posteriorMeanValues = b.array([num(rank), self.N], lambda k, i: b.uf('mv')(k, i))

    def step(self):
        k = self.b.int('k', 'nonneg')
        self.b.assume(T.lt0(k - self.N))
        return k

    def marginal(self, a, f):
        """sum of f(x) over all axes but a"""
        def g(y):
            vs = [T.fresh_index() for _ in self.G]
            xs = list(vs)
            xs[a] = y
            o = [j for j in range(self.rank) if j != a]
            return T.mk_sum([vs[j] for j in o], [self.G[j] for j in o], f(*xs)) if o else f(*xs)
        return g

    def kept(self):
        self.b.eq('posterior sequence is not modified', self.S.posteriorSequence, lambda i, *x: self.PS(i, *x), [self.N] + self.G)


def small(m):
    m.values['k'] = int(_h(m.seed, 'k') * 4)


def distribution(rank, a, density, mode):
    def c(b):
        p = Post(b, rank)
        i = T.fresh_index()
        if mode == 'avg':
            t = 'avg'
            post = lambda *x: T.mk_sum([i], [p.N], p.PS(i, *x)) / p.N
        else:
            k = p.step()
            t = b.val(p.ts(k))
            post = lambda *x: p.PS(k, *x)
        x, d = p.S.getParameterDistribution(t, 'p%d' % a, density=density)
        sc = p.dx[a] if density else ONE
        b.eq('values', x, lambda y: p.gv[a](y), [p.G[a]])
        m = p.marginal(a, post)
        b.eq('marginal', d, lambda y: m(y) / sc, [p.G[a]])
        d[0] = 5.0          # the caller owns the result
        p.kept()
    return c


def distributions(rank, a, density):
    def c(b):
        p = Post(b, rank)
        x, d = p.S.getParameterDistributions('p%d' % a, density=density)
        sc = p.dx[a] if density else ONE
        b.eq('values', x, lambda y: p.gv[a](y), [p.G[a]])
        b.eq('marginals in chronological order', d, lambda i, y: p.marginal(a, lambda *x: p.PS(i, *x))(y) / sc, [p.N, p.G[a]])
        d[0] = 5.0
        p.kept()
    return c


def means(rank, a):
    def c(b):
        p = Post(b, rank)
        b.eq('mean values', p.S.getParameterMeanValues('p%d' % a), lambda i: b.uf('mv')(num(a), i), [p.N])
    return c


def unknown(rank):
    def c(b):
        p = Post(b, rank)
        k = p.step()
        for nm, f in (('getParameterDistribution', lambda: p.S.getParameterDistribution(b.val(p.ts(k)), 'q')),
                      ('getParameterDistributions', lambda: p.S.getParameterDistributions('q')),
                      ('getParameterMeanValues', lambda: p.S.getParameterMeanValues('q'))):
            r = b.call(f)
            b.true('%s rejects unknown names' % nm, r[0] == 'exc' and type(r[1]).__name__ == 'PostProcessingError')
        t = b.real('t')
        hit = b.forall(p.N, lambda i: ONE - T.eq0(t - p.ts(i)))
        if hit:
            r = b.call(p.S.getParameterDistribution, b.val(t), 'p0')
            b.true('unknown times are rejected', r[0] == 'exc' and type(r[1]).__name__ == 'PostProcessingError')
    return c


def simulate(rank, density, mode):
    def c(b):
        p = Post(b, rank)
        n = b.size('n')
        xv = b.uf('xv')
        i = T.fresh_index()
        if mode == 'avg':
            t = None
            post = lambda *x: T.mk_sum([i], [p.N], p.PS(i, *x)) / p.N
        else:
            k = p.step()
            t = b.val(p.ts(k))
            post = lambda *x: p.PS(k, *x)
        p.S.observationModel.pdf = lambda grid, seg: b.array(p.G, lambda *x: p.L(*([b.term(seg[0])] + list(x))))
        r = p.S.simulate(b.array((n,), lambda j: xv(j)), t=t, density=density)
        w = lambda j: p.sumG(lambda *x: p.L(xv(j), *x) * post(*x))
        j = T.fresh_index()
        z = ONE if density else T.mk_sum([j], [n], w(j))
        b.eq('posterior-weighted predictive', r, lambda j: w(j) / z, [n])
        p.kept()
    return c


CONTRACTS = []
for r in (1, 2, 3):
    for a in range(r):
        for dens in (True, False):
            for mode in ('avg', 'at'):
                CONTRACTS.append(dict(name='getParameterDistribution-%s-%dd-%d%s' % (mode, r, a, '-density' if dens else ''), function='core.Study.getParameterDistribution',
                                      fn=distribution(r, a, dens, mode), model=small, sizes=(2, 4)))
            CONTRACTS.append(dict(name='getParameterDistributions-%dd-%d%s' % (r, a, '-density' if dens else ''), function='core.Study.getParameterDistributions',
                                  fn=distributions(r, a, dens), sizes=(2, 4)))
        CONTRACTS.append(dict(name='getParameterMeanValues-%dd-%d' % (r, a), function='core.Study.getParameterMeanValues', fn=means(r, a), sizes=(2, 4)))
    for dens in (True, False):
        for mode in ('avg', 'at'):
            CONTRACTS.append(dict(name='simulate-%s-%dd%s' % (mode, r, '-density' if dens else ''), function='core.Study.simulate', fn=simulate(r, dens, mode), model=small, sizes=(2, 4)))
CONTRACTS.append(dict(name='unknown names', function='core.Study.getParameterDistribution, getParameterDistributions, getParameterMeanValues', fn=unknown(2), model=small, sizes=(2, 4)))


# ------------------------------------------------------------------------------------------- hyper-parameter marginals
class Hyper(Fit):
    """a fitted hyper-study: nh hyper-parameters with n_j values each, arbitrary distribution D(flat index)"""

    def __init__(self, b, nh, nested, cls='HyperStudy'):
        Fit.__init__(self, b, 1)
        self.nh = nh
        self.n = [b.size('n%d' % j) for j in range(nh)]
        for n in self.n:
            b.assume(T.le0(num(2) - n))
        self.S = S = self.study(cls)
        self.D = b.uf('D', 'nonneg')
        self.hv = b.uf('hv')
        self.hc = [b.real('hc%d' % j, 'pos') for j in range(nh)]
        tot = ONE
        for n in self.n:
            tot = tot * n
        names = ['h%d' % j for j in range(nh)]
        if nested:
            me = self

            class Sub:
                def __init__(self, names):
                    self.hyperParameterNames = b.list(names)
                    self.hyperParameterValues = b.list([0] * len(names))
            S.transitionModel.models = b.list([Sub(names[:1]), Sub([]), Sub(names[1:])])
            S.transitionModel.hyperParameterNames = b.list([])
        else:
            S.transitionModel.hyperParameterNames = b.list(names)
        S.flatHyperParameterNames = b.list(names)
        S.flatHyperParameters = b.list([b.array((self.n[j],), (lambda j: lambda i: self.hv(num(j), i))(j)) for j in range(nh)])
        S.hyperGridConstant = b.array((num(nh),), lambda j: sum((self.hc[q] * T.eq0(j - q) for q in range(nh)), ZERO))
        S.hyperGridValues = b.array((tot, num(nh)), lambda k, j: b.uf('hgv')(k, j))
        S.hyperParameterDistribution = b.array((tot,), lambda k: self.D(k))
        self.tot = tot
        self.vol = ONE
        for h in self.hc:
            self.vol = self.vol * h

    vol = None

    def flat(self, idx):
        k = ZERO
        for n, i in zip(self.n, idx):
            k = k * n + i
        return k

    def marg(self, keep):
        def f(*y):
            vs = [T.fresh_index() for _ in self.n]
            xs = list(vs)
            for a, v in zip(keep, y):
                xs[a] = v
            o = [j for j in range(self.nh) if j not in keep]
            t = self.D(self.flat(xs))
            return (T.mk_sum([vs[j] for j in o], [self.n[j] for j in o], t) if o else t) * self.vol
        return f

    def kept(self):
        self.b.eq('distribution is not modified', self.S.hyperParameterDistribution, lambda k: self.D(k), [self.tot])


def hyper(nh, a, nested):
    def c(b):
        h = Hyper(b, nh, nested)
        x, d = h.S.getHyperParameterDistribution('h%d' % a)
        b.eq('values', x, lambda i: h.hv(num(a), i), [h.n[a]])
        b.eq('marginal probabilities', d, h.marg([a]), [h.n[a]])
        h.kept()
        r = b.call(h.S.getHyperParameterDistribution, 'q')
        b.true('unknown names are rejected', r[0] == 'exc' and type(r[1]).__name__ == 'PostProcessingError')
    return c


def joint(nh, a, a2, nested):
    def c(b):
        h = Hyper(b, nh, nested)
        x, y, d = h.S.getJointHyperParameterDistribution(b.list(['h%d' % a, 'h%d' % a2]))
        b.eq('values of the first name', x, lambda i: h.hv(num(a), i), [h.n[a]])
        b.eq('values of the second name', y, lambda i: h.hv(num(a2), i), [h.n[a2]])
        b.eq('joint marginal in the order of the names', d, h.marg([a, a2]), [h.n[a], h.n[a2]])
        h.kept()
    return c


for nh in (1, 2, 3):
    for a in range(nh):
        for nested in (False, True):
            CONTRACTS.append(dict(name='getHyperParameterDistribution-%d-%d%s' % (nh, a, '-nested' if nested else ''), function='core.HyperStudy.getHyperParameterDistribution, core.Study._getHyperParameterIndex',
                                  fn=hyper(nh, a, nested), sizes=(2, 4)))
for nh in (2, 3):
    for a in range(nh):
        for a2 in range(nh):
            if a != a2:
                CONTRACTS.append(dict(name='getJointHyperParameterDistribution-%d-%d%d' % (nh, a, a2), function='core.HyperStudy.getJointHyperParameterDistribution',
                                      fn=joint(nh, a, a2, (a + a2) % 2 == 0), sizes=(2, 4)))
