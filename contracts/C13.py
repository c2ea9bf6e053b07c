"""ChangepointStudy.fit on top of the real HyperStudy.fit and Study.fit: an arbitrary number of values per change-/break-point."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from engine.instr import Pool
from .C11 import Average, callees
from .hyperc import Axis, HStudy, timesinc


class Masked(Average):
    """average over the combinations with strictly increasing points"""

    def __init__(self, f, mode, points):
        Average.__init__(self, f, mode)
        self.points = points

    def mask(self, k):
        h = self.f.h(k)
        return T.band(*[T.lt0(h[i] - h[j]) for i, j in zip(self.points, self.points[1:])]) if len(self.points) > 1 else ONE

    def over(self, g):
        k = T.fresh_index()
        return T.mk_sum([k], [self.f.tot], self.mask(k) * g(k))

    def count(self):
        return self.over(lambda k: ONE)

    def hprior(self, k):
        q = T.fresh_index()
        return self.f.prior(k) * T.mk_sum([q], [self.f.tot], self.f.prior(q)) / self.over(self.f.prior)

    def w(self, k):
        return self.z(k) * self.hprior(k)

    def total(self):
        return self.over(self.w)

    def local(self, i):
        def e(k):
            g = self.g(k)
            if self.mode == 'full':
                return ONE / g.sumG(lambda *x: g.smooth(i, x) / g.like(i, x))
            return g.norm(i) * T.ite(T.eq0(i), g.vol, ONE)
        return self.over(lambda k: self.hprior(k) * e(k)) * self.f.hvol

    def avg(self, i, x):
        return self.over(lambda k: self.w(k) * self.post(k, i, x)) / self.total()


def fit(axes, group, labels, points, mode, jobs=None):
    def c(b):
        b.uf('TFh', 'pos'), b.uf('TBh', 'pos'), b.uf('L', 'pos'), b.uf('pri', 'pos')
        f = HStudy(b, [Axis(b, j, k, p) for j, (k, p) in enumerate(axes)], group=group, labels=labels)
        f.S = S = f.study('ChangepointStudy')
        A = Masked(f, mode, points)
        b.assume(T.le0(num(2) - A.count()))
        kw = {}
        if jobs is not None:
            kw = dict(nJobs=jobs)
            b.depend('pathos.multiprocessing', 'ProcessPool', Pool)
        S.fit(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence', silent=True, **kw)
        b.eq('hyper-parameter distribution', S.hyperParameterDistribution, lambda k: A.mask(k) * A.w(k) / A.total() / f.hvol, [f.tot])
        b.eq('hyper-prior', S.flatHyperPriorValues, lambda k: A.mask(k) * A.hprior(k), [f.tot])
        q = T.fresh_index()
        nth = lambda j: T.app('nth', T.lam([q], A.mask(q), [f.tot]), j, sort='int', sign='nonneg')
        b.eq('mask', S.mask, A.mask, [f.tot])
        for i in range(len(axes)):
            b.eq('all combinations, parameter %d' % i, S.allHyperGridValues[:, i], lambda k, i=i: f.h(k)[i], [f.tot])
            b.eq('analysed combinations, parameter %d' % i, S.hyperGridValues[:, i], lambda j, i=i: f.h(nth(j) if A.mask(q) != ONE else j)[i], [A.count()])
        b.eq('log-evidence', S.logEvidence, lambda: T.mk_log(A.total() * f.hvol))
        b.eq('local evidence', S.localEvidence, lambda i: A.local(i), [f.N])
        if mode != 'evidence':
            b.eq('average posterior', S.posteriorSequence, lambda i, *x: A.avg(i, x), [f.N] + f.G)
            b.eq('mean values', S.posteriorMeanValues[0], lambda i: f.sumG(lambda *x: A.avg(i, x) * f.gv[0](x[0])), [f.N])
        f.kept()
    return c


def single(axes, group, labels, points, mode):
    """only one admissible combination: the standard fit at that combination"""
    def c(b):
        b.uf('TFh', 'pos'), b.uf('TBh', 'pos'), b.uf('L', 'pos'), b.uf('pri', 'pos')
        f = HStudy(b, [Axis(b, j, k, p) for j, (k, p) in enumerate(axes)], group=group, labels=labels)
        f.S = S = f.study('ChangepointStudy')
        A = Masked(f, mode, points)
        b.assume(T.eq0(A.count() - 1))
        S.fit(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence', silent=True)
        b.eq('hyper-parameter distribution', S.hyperParameterDistribution, lambda k: A.mask(k) / f.hvol, [f.tot])
        v = T.fresh_index()
        k = T.app('nth', T.lam([v], A.mask(v), [f.tot]), ZERO, sort='int', sign='nonneg')      # the admissible combination
        b.eq('log-evidence', S.logEvidence, lambda: A.logz(k))
        if mode != 'evidence':
            b.eq('posterior', S.posteriorSequence, lambda i, *x: A.post(k, i, x), [f.N] + f.G)
        f.kept()
    return c


CP, BP = 'Change-point', 'Serial transition model'
F = 'core.ChangepointStudy.fit, core.HyperStudy.fit, core.HyperStudy._createHyperGrid, core.Study.fit'
SETS = {
    'one change-point': ([('all', None)], [[0]], {0: CP}, [0]),
    'two change-points': ([('all', None), ('all', None)], [[0], [1]], {0: CP, 1: CP}, [0, 1]),
    'two change-points, prior': ([('lin', 'fun'), ('free', 'arr')], [[0], [1]], {0: CP, 1: CP}, [0, 1]),
    'two break-points': ([('all', None), ('all', 'fun')], [[0, 1]], {0: BP}, [0, 1]),
    'three break-points': ([('all', None), ('lin', None), ('all', None)], [[0, 1, 2]], {0: BP}, [0, 1, 2]),
    'two change-points around a hyper-parameter': ([('all', None), ('lin', 'fun'), ('all', None)], [[0], [1], [2]], {0: CP, 2: CP}, [0, 2]),
}
CONTRACTS = []
for nm, (ax, gr, la, pts) in SETS.items():
    for mode in ('evidence', 'forward', 'full'):
        deep = nm in ('two change-points, prior', 'three break-points', 'two change-points around a hyper-parameter') and mode != 'forward'
        CONTRACTS.append(dict(name='%s %s' % (nm, mode), function=F, fn=fit(ax, gr, la, pts, mode), sizes=(3, 4), model=timesinc,
                              tier='thorough' if deep else 'quick'))
for mode in ('evidence', 'forward', 'full'):
    ax, gr, la, pts = SETS['two change-points']
    CONTRACTS.append(dict(name='two change-points, 2 processes %s' % mode, function=F + ', core.HyperStudy._parallelFit', fn=fit(ax, gr, la, pts, mode, jobs=2),
                          sizes=(3, 4), model=timesinc, tier='thorough' if mode == 'evidence' else 'quick'))
    for nm in ('two change-points', 'two break-points'):
        ax, gr, la, pts = SETS[nm]
        CONTRACTS.append(dict(name='%s, one combination %s' % (nm, mode), function=F, fn=single(ax, gr, la, pts, mode), sizes=(3, 4), model=timesinc, tier='thorough' if mode == 'evidence' else 'quick'))

callees(CONTRACTS, {'contract of the fit, ' + nm: dict(axes=SETS[nm][0], group=SETS[nm][1], labels=SETS[nm][2], points=SETS[nm][3]) for nm in
                    ('one change-point', 'two change-points', 'two change-points, prior', 'two break-points', 'two change-points around a hyper-parameter')}, sizes=(3, 4))


# ------------------------------------------------------------------------------------------------- durations
def duration(names, nest=False):
    """getDurationDistribution in any fitted state: an arbitrary number of combinations with arbitrary values, those with
    strictly increasing points admitted, with an arbitrary distribution"""
    def c(b):
        K = b.size('K')
        D, mu, w0, w1, w2, d1, d2 = b.uf('D', 'pos'), b.uf('mu'), b.uf('w0'), b.uf('w1'), b.uf('w2'), b.uf('d1', 'pos'), b.uf('d2', 'pos')
        axes = [Axis(b, j, 'one') for j in range(3)]
        f = HStudy(b, axes, group=[[0, 1], [2]] if nest else [[0], [1], [2]])
        S = f.study('ChangepointStudy')
        al = lambda k: T.lt0(mu(k))
        val = [w0, lambda k: T.ite(al(k), w0(k) + d1(k), w1(k)), lambda k: T.ite(al(k), w0(k) + d1(k) + d2(k), w2(k))]
        i, j = [int(n[1:]) for n in names]
        lo, hi = min(i, j), max(i, j)
        S.flatHyperParameterNames = b.list(['h0', 'h1', 'h2'])
        S.allHyperGridValues = b.array([K, 3], lambda k, q: sum((T.eq0(q - j) * f(k) for j, f in enumerate(val)), ZERO))
        S.mask = b.array([K], al, 'b')
        S.hyperGridValues = S.allHyperGridValues[S.mask]
        S.hyperParameterDistribution = b.array([K], lambda k: D(k))
        k = T.fresh_index()
        b.assume(T.lt0(-T.mk_sum([k], [K], al(k))))
        d = lambda k: sum(([d1, d2][j](k) for j in range(lo, hi)), ZERO)
        du, pr = S.getDurationDistribution(b.list(list(names)))
        q, w = T.fresh_index(), T.fresh_index()
        mask = T.lam([q], al(q), [K])
        n = T.mk_sum([q], [K], al(q))
        tab = T.lam([w], d(T.app('nth', mask, w, sort='int', sign='nonneg')), [n])
        J = T.app('uniqn', tab, sort='int', sign='nonneg')
        u = lambda j: T.app('uniq', tab, j)
        wt = lambda j: T.mk_sum([q], [K], al(q) * T.eq0(u(j) - d(q)) * D(q))
        b.eq('durations', du, lambda j: u(j), [J])
        r = T.fresh_index()
        b.eq('probabilities', pr, lambda j: wt(j) / T.mk_sum([r], [J], wt(r)), [J])
        b.eq('hyper-parameter distribution unchanged', S.hyperParameterDistribution, lambda k: D(k), [K])
    return c


for nm in (('h0', 'h1'), ('h1', 'h0'), ('h0', 'h2'), ('h2', 'h1')):
    for nest in (False, True):
        CONTRACTS.append(dict(name='durations %s-%s%s' % (nm + (' (one sub-model)' if nest else '',)), function='core.ChangepointStudy.getDurationDistribution, core.Study._getHyperParameterIndex',
                              fn=duration(nm, nest), sizes=(2, 6), private=True))
