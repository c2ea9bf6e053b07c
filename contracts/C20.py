"""Parameter grids."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from fractions import Fraction


def interval(which):
    def c(b):
        h = b.mod('helper')
        lo, hi, n = b.real('lo'), b.real('hi'), b.size('n')
        if which == 'cint':
            b.assume(T.le0(num(2) - n))
            r = h.cint(b.val(lo), b.val(hi), b.val(n, 'i'))
            b.eq('n equally spaced values including both ends', r, lambda i: lo + (hi - lo) * i / (n - 1), [n])
        else:
            r = h.oint(b.val(lo), b.val(hi), b.val(n, 'i'))
            b.eq('n equally spaced values strictly inside', r, lambda i: lo + (hi - lo) * (i + 1) / (n + 1), [n])
    return c


class OM:
    multiplyLikelihoods = True
    segmentLength = 1
    prior = None
    name = 'arbitrary'

    def __init__(self, names, values):
        self.parameterNames, self.parameterValues = names, values

    def __str__(self):
        return 'arbitrary'


class TM:
    study = None
    latticeConstant = None

    def __str__(self):
        return 'arbitrary'


def grid(rank, irregular=None, pre=None, est=False, aslist=False):
    def c(b):
        S = b.mod('core').Study(silent=True)
        n = [b.size('n%d' % k) for k in range(rank)]
        a = [b.real('a%d' % k) for k in range(rank)]
        s = [b.real('s%d' % k) for k in range(rank)]
        u = b.uf('u')
        val = [(lambda k: (lambda i: u(i)) if k == irregular else (lambda i: a[k] + s[k] * i))(k) for k in range(rank)]
        for k in range(rank):
            b.assume(T.le0(num(2) - n[k]))
        arr = lambda k: (b.seq(n[k], lambda i: b.val(val[k](i))) if aslist else b.array((n[k],), lambda i: val[k](i)))
        vs = [arr(k) for k in range(rank)]
        M = OM(b.list(['p%d' % k for k in range(rank)]), b.list([None if est and k == 0 else vs[k] for k in range(rank)]))
        if est:
            S.rawData = b.array((b.size('N'),), lambda i: b.uf('d')(i))
            seen = []

            def estimate(name, data):
                seen.append(name == 'p0')
                seen.append(data is S.rawData)
                return vs[0]
            M.estimateParameterValues = estimate
        if pre:
            S.transitionModel = TM()
        if pre == 'set again':
            S.setObservationModel(OM(b.list(['q']), b.list([b.array((b.size('m') + 1,), lambda i: b.uf('w')(i))])), silent=True)
        S.setObservationModel(M, silent=True)
        b.true('one axis per parameter', len(S.marginalGrid) == rank and len(S.grid) == rank and len(S.latticeConstant) == rank and len(S.gridSize) == rank and len(S.boundaries) == rank)
        for k in range(rank):
            b.eq('values of parameter %d' % k, S.marginalGrid[k], lambda i: val[k](i), [n[k]])
            b.eq('grid axis of parameter %d' % k, S.grid[k], lambda *x: val[k](x[k]), n)
            b.eq('size of axis %d' % k, S.gridSize[k], lambda: n[k])
            b.eq('lower boundary %d' % k, S.boundaries[k][0], lambda: val[k](ZERO))
            b.eq('upper boundary %d' % k, S.boundaries[k][1], lambda: val[k](n[k] - 1))
            if k != irregular:
                lc = T.mk_abs(s[k])
            else:
                d2 = lambda i: T.mk_abs(u(i + 2) - u(i + 1) * 2 + u(i))
                reg = b.forall(n[k] - 2, lambda i: T.le0(d2(i) - num(Fraction(1, 10 ** 10))))
                lc = T.mk_abs(u(ZERO) - u(ONE)) if reg else ONE
            b.eq('spacing of parameter %d' % k, S.latticeConstant[k], lambda: lc)
            if pre:
                b.eq('spacing %d known to the transition model' % k, S.transitionModel.latticeConstant[k], lambda: lc)
            if not aslist:
                b.eq('user values %d are not modified' % k, vs[k], lambda i: val[k](i), [n[k]])
        if est:
            b.true('estimator called with the name and the raw data', all(seen) and len(seen) == 2)
    return c


def settm(rank):
    """a transition model set after the observation model gets study and spacing"""
    def c(b):
        S = b.mod('core').Study(silent=True)
        n = [b.size('n%d' % k) for k in range(rank)]
        for k in range(rank):
            b.assume(T.le0(num(2) - n[k]))
        s = [b.real('s%d' % k) for k in range(rank)]
        S.setObservationModel(OM(b.list(['p%d' % k for k in range(rank)]), b.list([b.array((n[k],), lambda i: s[k] * i) for k in range(rank)])), silent=True)
        M = b.mod('transitionModels').Static()
        S.setTransitionModel(M, silent=True)
        b.true('study', M.study is S and S.transitionModel is M)
        for k in range(rank):
            b.eq('spacing %d' % k, M.latticeConstant[k], lambda: T.mk_abs(s[k]))
    return c


def lin(lo, hi, n, closed):
    return (lambda i: lo + (hi - lo) * i / (n - 1)) if closed else (lambda i: lo + (hi - lo) * (i + 1) / (n + 1))


def estimators(cls, par, dim=1):
    def c(b):
        N = b.size('N')
        d = b.uf('d')
        raw = b.array((N,) if dim == 1 else (N, num(2)), lambda *i: d(*i))
        M = getattr(b.mod('observationModels'), cls)()
        i = T.fresh_index()
        tb = T.lam([i], d(i) if dim == 1 else d(i, ZERO), [N])
        mean, std = T.app('nanmean', tb), T.app('nanstd', tb)
        mx, mn = T.app('nanmax', tb), T.app('nanmin', tb)
        r2 = T.mk_pow(num(2), Fraction(1, 2))
        lo, hi, n, closed = {
            ('Bernoulli', 0): (ZERO, ONE, 1000, True),
            ('Poisson', 0): (ZERO, mx * num(Fraction(5, 4)), 1000, False),
            ('Gaussian', 0): (mean - std * 2, mean + std * 2, 200, True),
            ('Gaussian', 1): (ZERO, std * 2, 200, False),
            ('Laplace', 0): (mean - std * 2, mean + std * 2, 200, True),
            ('Laplace', 1): (ZERO, r2 * std, 200, False),
            ('GaussianMean', 0): (mn - (mx - mn), mx + (mx - mn), 1000, False),
            ('WhiteNoise', 0): (ZERO, std * 2, 1000, False),
            ('AR1', 0): (-ONE, ONE, 200, False), ('AR1', 1): (ZERO, std * 2, 200, False),
            ('ScaledAR1', 0): (-ONE, ONE, 200, False), ('ScaledAR1', 1): (ZERO, std * 2, 200, False)}[cls, par]
        v = M.estimateParameterValues(M.parameterNames[par], raw)
        b.eq('estimated values', v, lin(lo, hi, num(n), closed), [num(n)])
        st = b.call(M.estimateParameterValues, 'no such parameter', raw)
        b.true('unknown names are rejected', st[0] == 'exc')
    return c


CONTRACTS = [dict(name=w, function='helper.%s' % w, fn=interval(w), sizes=(1, 6)) for w in ('cint', 'oint')]
F = 'core.Study.setObservationModel'
for r in (1, 2, 3):
    CONTRACTS.append(dict(name='grid-%dd' % r, function=F, fn=grid(r), sizes=(1, 4)))
    CONTRACTS.append(dict(name='grid-%dd-transition model' % r, function=F, fn=grid(r, pre='tm'), sizes=(1, 4)))
    CONTRACTS.append(dict(name='grid-%dd-set again' % r, function=F, fn=grid(r, pre='set again'), sizes=(1, 4)))
    CONTRACTS.append(dict(name='grid-%dd-estimated' % r, function=F, fn=grid(r, est=True), sizes=(1, 4)))
    CONTRACTS.append(dict(name='grid-%dd-lists' % r, function=F, fn=grid(r, aslist=True), sizes=(1, 4)))
    CONTRACTS.append(dict(name='setTransitionModel-%dd' % r, function='core.Study.setTransitionModel', fn=settm(r), sizes=(1, 4)))
for r, k in ((1, 0), (2, 0), (2, 1)):
    CONTRACTS.append(dict(name='grid-%dd-irregular axis %d' % (r, k), function=F, fn=grid(r, irregular=k, pre='tm'), sizes=(1, 4)))
for cls, ps in (('Bernoulli', 1), ('Poisson', 1), ('Gaussian', 2), ('Laplace', 2), ('GaussianMean', 1), ('WhiteNoise', 1), ('AR1', 2), ('ScaledAR1', 2)):
    for p in range(ps):
        CONTRACTS.append(dict(name='estimate %s %d' % (cls, p), function='observationModels.%s.estimateParameterValues' % cls, fn=estimators(cls, p, 2 if cls == 'GaussianMean' else 1)))
