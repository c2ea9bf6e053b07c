"""OnlineStudy: stored history (invariant of step) and getters on an arbitrary history."""
from engine import terms as T
from engine.evalm import _h
from engine.terms import ZERO, ONE, num, to_p
from engine.sym import unflat
from .onlinec import Online


def stored(first, models, **kw):
    """step appends the current values and keeps all previously stored ones"""
    def c(b):
        o = Online(b, models, **kw)
        S, f, M = o.study(), o.f, len(o.M)
        n = ZERO if first else f.N
        if not first:
            o.state(S, n)
        for i in range(o.seg if first else 1):
            S.step(b.val(f.data(n + (o.seg - 1) if not first else num(i))))
        cur = o.mix
        if not first:
            k = b.int('k', 'nonneg')
            b.assume(T.lt0(k - n))
            kk = b.val(k, 'i')
            b.eq('stored posteriors stay', S.posteriorSequence[kk], lambda *x: o.hp(k, *x), f.G)
            b.eq('stored means stay', S.posteriorMeanValues[kk], lambda a: o.hm(k, a), [num(o.rank)])
            b.eq('stored transition model distributions stay', S.transitionModelSequence[kk], lambda m: o.ht(k, m), [num(M)])
            b.eq('stored local transition model distributions stay', S.localTransitionModelSequence[kk], lambda m: o.hl(k, m), [num(M)])
            for m in range(M):
                b.eq('stored hyper-parameter distributions %d stay' % m, S.hyperParameterSequence[kk][m], lambda q: o.hh(k, num(m), q), [o.M[m].tot])
        b.eq('a time is stored', S.formattedTimestamps, lambda i: i + (o.seg - 1), [n + 1])
        nn = b.val(n, 'i')
        b.same('the current posterior is stored', S.posteriorSequence[nn], S.marginalizedPosterior, f.G)
        b.same('the current transition model distribution is stored', S.transitionModelSequence[nn], S.transitionModelDistribution, [num(M)])
        b.same('the current local transition model distribution is stored', S.localTransitionModelSequence[nn], S.localTransitionModelDistribution, [num(M)])
        for m in range(M):
            b.same('the current hyper-parameter distribution %d is stored' % m, S.hyperParameterSequence[nn][m], S.hyperParameterDistribution[m], [o.M[m].tot])
        for a in range(o.rank):
            b.eq('the current mean %d is stored' % a, S.posteriorMeanValues[nn][a], lambda: o.mean(a, n + 1))
            b.eq('current mean %d' % a, S.getCurrentParameterMeanValue('p%d' % a), lambda: o.mean(a, n + 1))
    return c


class Hist(Online):
    """a study with an arbitrary history of N steps and arbitrary current values"""

    def __init__(self, b, models, **kw):
        Online.__init__(self, b, models, **kw)
        for g in self.G:
            b.assume(T.le0(num(2) - g))
        self.S = S = self.study()
        f, M, n = self.f, len(self.M), self.f.N
        self.n = n
        S.firstStep = False
        S.rawData = b.array((n + (self.seg - 1),), lambda i: f.data(i))
        S.rawTimestamps = b.array((n + (self.seg - 1),), lambda i: i, 'i')
        S.formattedTimestamps = b.seq(n, lambda i: b.val(i + (self.seg - 1), 'i'))
        self.ch, self.cp, self.ct, self.cl = [b.uf('cur' + c, 'pos') for c in 'hptl']
        S.hyperParameterDistribution = b.list([b.array((o.tot,), lambda k, m=m: self.ch(num(m), k)) for m, o in enumerate(self.M)])
        S.marginalizedPosterior = b.array(f.G, lambda *x: self.cp(*x))
        S.transitionModelDistribution = b.array((num(M),), lambda m: self.ct(m))
        S.localTransitionModelDistribution = b.array((num(M),), lambda m: self.cl(m))
        self.old(S, n)

    def at(self):
        k = self.b.int('k', 'nonneg')
        self.b.assume(T.lt0(k - self.n))
        return k, self.b.val(k + (self.seg - 1), 'i')

    def marginal(self, a, f):
        def g(y):
            vs = [T.fresh_index() for _ in self.G]
            xs = list(vs)
            xs[a] = y
            o = [j for j in range(self.rank) if j != a]
            return T.mk_sum([vs[j] for j in o], [self.G[j] for j in o], f(*xs)) if o else f(*xs)
        return g

    def hmarginal(self, m, j, f):
        """probability of value y of hyper-parameter j of model m"""
        o = self.M[m]

        def g(y):
            ix = [T.fresh_index() for _ in o.n]
            free = [q for q in range(len(ix)) if q != j]
            vs = [ix[q] for q in free]
            ix[j] = y
            k = ZERO
            for q, n in zip(ix, o.n):
                k = k * n + q                   # row-major position
            return T.mk_sum(vs, [o.n[q] for q in free], f(k)) * o.hvol
        return g

    def kept(self):
        b, S, f, n, M = self.b, self.S, self.f, self.n, len(self.M)
        b.true('the history can still grow', all(hasattr(x, 'append') for x in (S.formattedTimestamps, S.posteriorSequence, S.posteriorMeanValues,
                                                                                 S.hyperParameterSequence, S.transitionModelSequence)))
        b.eq('times are kept', S.formattedTimestamps, lambda i: i + (self.seg - 1), [n])
        b.eq('posteriors are kept', S.posteriorSequence, lambda i, *x: self.hp(i, *x), [n] + f.G)
        b.eq('means are kept', S.posteriorMeanValues, lambda i, a: self.hm(i, a), [n, num(self.rank)])
        b.eq('transition model distributions are kept', S.transitionModelSequence, lambda i, m: self.ht(i, m), [n, num(M)])
        b.eq('current posterior is kept', S.marginalizedPosterior, lambda *x: self.cp(*x), f.G)
        b.eq('current transition model distribution is kept', S.transitionModelDistribution, lambda m: self.ct(m), [num(M)])
        b.eq('current local transition model distribution is kept', S.localTransitionModelDistribution, lambda m: self.cl(m), [num(M)])
        k = b.val(b.int('k2', 'nonneg'), 'i')
        b.assume(T.lt0(b.term(k) - n))
        for m, o in enumerate(self.M):
            b.eq('hyper-parameter distributions %d are kept' % m, S.hyperParameterSequence[k][m], lambda q: self.hh(b.term(k), num(m), q), [o.tot])
            b.eq('current hyper-parameter distribution %d is kept' % m, S.hyperParameterDistribution[m], lambda q: self.ch(num(m), q), [o.tot])


def parameters(models, a, density, **kw):
    def c(b):
        h = Hist(b, models, **kw)
        S, f = h.S, h.f
        sc = f.dx[a] if density else ONE
        nm = 'p%d' % a
        k, t = h.at()
        x, d = S.getParameterDistribution(t, nm, density=density)
        b.eq('values', x, lambda y: f.gv[a](y), [f.G[a]])
        b.eq('distribution at a time', d, lambda y: h.marginal(a, lambda *z: h.hp(k, *z))(y) / sc, [f.G[a]])
        d[0] = 5.0
        x, d = S.getParameterDistributions(nm, density=density)
        b.eq('distributions in chronological order', d, lambda i, y: h.marginal(a, lambda *z: h.hp(i, *z))(y) / sc, [h.n, f.G[a]])
        d[0] = 5.0
        x, d = S.getCurrentParameterDistribution(nm, density=density)
        b.eq('current distribution', d, lambda y: h.marginal(a, lambda *z: h.cp(*z))(y) / sc, [f.G[a]])
        d[0] = 5.0
        b.eq('mean at a time', S.getParameterMeanValue(t, nm), lambda: f.sumG(lambda *z: h.hp(k, *z) * f.gv[a](z[a])))
        b.eq('current mean', S.getCurrentParameterMeanValue(nm), lambda: f.sumG(lambda *z: h.cp(*z) * f.gv[a](z[a])))
        v = S.getParameterMeanValues(nm)
        b.eq('means in chronological order', v, lambda i: h.hm(i, num(a)), [h.n])
        r = b.call(S.getParameterDistribution, b.val(h.n + (h.seg - 1), 'i'), nm)
        b.true('unknown times are rejected', r[0] == 'exc' and type(r[1]).__name__ == 'PostProcessingError')
        h.kept()
    return c


def models(ms, **kw):
    def c(b):
        h = Hist(b, ms, **kw)
        S, M = h.S, len(h.M)
        for local, cur, hist in ((False, h.ct, h.ht), (True, h.cl, h.hl)):
            s = ' (local)' if local else ''
            names, d = S.getCurrentTransitionModelDistribution(local=local)
            b.true('names' + s, [str(q) for q in names] == ['T%d' % m for m in range(M)])
            b.eq('current distribution' + s, d, lambda m: cur(m), [num(M)])
            d[0] = 5.0
            names, d = S.getTransitionModelDistributions(local=local)
            b.eq('distributions in chronological order' + s, d, lambda i, m: hist(i, m), [h.n, num(M)])
            d[0] = 5.0
            for m in range(M):
                b.eq('current probability of %d' % m + s, S.getCurrentTransitionModelProbability('T%d' % m, local=local), lambda: cur(num(m)))
                b.eq('probabilities of %d' % m + s, S.getTransitionModelProbabilities('T%d' % m, local=local), lambda i: hist(i, num(m)), [h.n])
        h.kept()
    return c


def hyper(ms, m, j, **kw):
    def c(b):
        h = Hist(b, ms, **kw)
        S = h.S
        o = h.M[m]
        a = o.axes[j]
        nm = a.name
        k, t = h.at()
        at = lambda q: h.hh(k, num(m), q)
        x, d = S.getHyperParameterDistribution(t, nm)
        b.eq('values', x, lambda y: a.val(y), [a.n])
        b.eq('distribution at a time', d, lambda y: h.hmarginal(m, j, at)(y), [a.n])
        d[0] = 5.0
        x, d = S.getCurrentHyperParameterDistribution(nm)
        b.eq('current distribution', d, lambda y: h.hmarginal(m, j, lambda q: h.ch(num(m), q))(y), [a.n])
        d[0] = 5.0
        x, d = S.getHyperParameterDistribution('avg', nm)
        i = T.fresh_index()
        b.eq('average distribution', d, lambda y: h.hmarginal(m, j, lambda q: T.mk_sum([i], [h.n], h.hh(i, num(m), q)) / h.n)(y), [a.n])
        q = T.fresh_index()
        if a.kind == 'lin':
            x, d = S.getHyperParameterDistributions(nm)
            up = b.fork(T.lt0(-a.lin))
            y = lambda i: i if up else a.n - 1 - i                  # ascending order of the values
            p = lambda i, v: h.hmarginal(m, j, lambda q: h.hh(i, num(m), q))(y(v))
            w = T.fresh_index()
            b.eq('sorted values', x, lambda i: a.val(y(i)), [a.n])
            b.eq('distributions in chronological order', d, lambda i, v: p(i, v) / T.mk_sum([w], [a.n], p(i, w)), [h.n, a.n])
        mean = lambda f: T.mk_sum([q], [o.tot], f(q) * o.h(q)[j]) * o.hvol
        b.eq('mean at a time', S.getHyperParameterMeanValue(t, nm), lambda: mean(at))
        b.eq('means in chronological order', S.getHyperParameterMeanValues(nm), lambda i: mean(lambda q: h.hh(i, num(m), q)), [h.n])
        h.kept()
    return c


def small(m):
    m.values['k'] = int(_h(m.seed, 'k') * 3)
    m.values['k2'] = int(_h(m.seed, 'k2') * 3)


CONTRACTS = []
F = 'core.OnlineStudy.step'
for nm, kw in {'one model': dict(models=[[('lin', 'fun')]]), 'two models': dict(models=[[], [('lin', None)]]), 'two parameters': dict(models=[[]], rank=2),
               'segments of two': dict(models=[[], []], seg=2)}.items():
    CONTRACTS.append(dict(name='history, first step, ' + nm, function=F, fn=stored(True, **kw), sizes=(2, 3)))
    CONTRACTS.append(dict(name='history, further step, ' + nm, function=F, fn=stored(False, **kw), sizes=(2, 3), model=small))
for rank in (1, 2, 3):
    for a in range(rank):
        for dens in (True, False):
            if rank == 3 and dens is False:
                continue
            CONTRACTS.append(dict(name='parameter %d of %d, density=%s' % (a, rank, dens), sizes=(2, 3), model=small,
                                  function='core.OnlineStudy.getParameterDistribution(s), getCurrentParameterDistribution, getParameterMeanValue(s), getCurrentParameterMeanValue, core.Study.getParameterDistribution(s)',
                                  fn=parameters([[], [('lin', None)]], a, dens, rank=rank)))
CONTRACTS.append(dict(name='parameter, segments of two', sizes=(2, 3), model=small, function='core.OnlineStudy.getParameterDistribution(s)',
                      fn=parameters([[]], 0, True, seg=2)))
for n in (1, 2, 3):
    CONTRACTS.append(dict(name='%d transition models' % n, sizes=(2, 3), model=small,
                          function='core.OnlineStudy.getTransitionModelDistributions, getTransitionModelProbabilities, getCurrentTransitionModelDistribution, getCurrentTransitionModelProbability',
                          fn=models([[], [('lin', None)], [('lin', None)]][:n])))
FH = 'core.OnlineStudy.getHyperParameterDistribution, getCurrentHyperParameterDistribution, getHyperParameterMeanValue(s)'
for ms, m, j in (([[('lin', None)]], 0, 0), ([[('lin', None), ('lin', 'fun')]], 0, 0), ([[('lin', None), ('lin', 'fun')]], 0, 1),
                 ([[], [('lin', None), ('lin', None), ('lin', None)]], 1, 1), ([[('lin', None)], [('free', None), ('lin', None)]], 1, 0),
                 ([[('lin', None)], [('one', None), ('lin', None)]], 1, 1)):
    CONTRACTS.append(dict(name='hyper-parameter %d of model %d %s' % (j, m, ' | '.join(' '.join(k for k, p in q) for q in ms)), sizes=(2, 3), model=small,
                          function=FH, fn=hyper(ms, m, j)))
