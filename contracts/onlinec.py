"""OnlineStudy: class invariant over the number of analysed steps (state after n steps = forward filter over n steps), established by
the first step and preserved by every further step."""
from engine import terms as T
from engine.terms import ZERO, ONE, num, to_p
from .fitc import Fit
from .hyperc import Axis, HStudy


class OModel(HStudy):
    """one transition model of the online study"""

    def __init__(self, b, m, axes, rank, seg):
        self.m = m
        HStudy.__init__(self, b, axes, rank=rank, seg=seg, group=[[j] for j in range(len(axes))] or [[]])
        self.ts = lambda i: to_p(i)
        self.TFm = b.uf('TF%d' % m, 'pos')
        if not axes:
            self.tot = ONE

    def tm(self):
        me, b, r = self, self.b, HStudy.tm(self)
        if not self.axes:
            r.models[0].prior = None

        class Root(r.__class__):
            def computeForwardPrior(self, post, t):
                p, t, h = b.table(post), b.term(t), self.current()
                return b.array(me.G, lambda *x: me.TFm(p, t, *(h + list(x))))
        q = Root()
        q.models = r.models
        return q

    def at(self, h):
        g = Fit(self.b, self.rank, self.seg)
        g.ts = self.ts
        g.TF = lambda p, t, *x: self.TFm(p, t, *(list(h) + list(x)))
        g.spec()
        A = g.A
        # the newest forward message is the transition applied to the previous posterior (one unfolding of the recursion)
        g.A = lambda i, x: T.rec_unfold(T.the_atom(A(i, x))) if to_p(i) == self.N else A(i, x)
        return g

    # quantities after n steps (index n-1 is the newest)
    def loge(self, k, n):
        g = self.at(self.h(k))
        q = T.fresh_index()
        if n == self.N + 1:
            return self.loge(k, self.N) + T.mk_log(g.norm(self.N))
        return T.mk_sum([q], [n], T.mk_log(g.norm(q))) + T.mk_log(g.vol)

    def w(self, k, n):
        return T.mk_exp(self.loge(k, n)) * self.prior(k)

    def H(self, n):
        k = T.fresh_index()
        return T.mk_sum([k], [self.tot], self.w(k, n))

    def filt(self, k, i, x):
        return self.at(self.h(k)).filt(i, x)

    def hpd(self, k, n):
        return self.w(k, n) / self.H(n) / self.hvol

    def post(self, n, x):
        k = T.fresh_index()
        return T.mk_sum([k], [self.tot], self.w(k, n) * self.filt(k, n - 1, x)) / self.H(n)


class Online:
    def __init__(self, b, models, rank=1, seg=1, prior=False, history=True):
        self.b, self.rank, self.seg, self.history = b, rank, seg, history
        b.uf('L', 'pos'), b.uf('pri', 'pos')
        j = 0
        self.M = []
        for m, kinds in enumerate(models):
            axes = []
            for kd in kinds:
                axes.append(Axis(b, j, *kd))
                j += 1
            self.M.append(OModel(b, m, axes, rank, seg))
        f = self.f = self.M[0]
        self.G, self.gv = f.G, f.gv
        if prior:
            self.raw = [b.real('tp%d' % m, 'pos') for m in range(len(models))]
        else:
            self.raw = None

    def p(self, m):
        if self.raw is None:
            return num(1) / num(len(self.M))
        z = ZERO
        for r in self.raw:
            z = z + r
        return self.raw[m] / z

    def study(self):
        b, f = self.b, self.f
        S = b.mod('core').OnlineStudy(storeHistory=self.history, silent=True)
        S.gridSize = b.list([b.val(g, 'i') for g in f.G])
        S.latticeConstant = b.list([b.val(d) for d in f.dx])
        S.marginalGrid = b.list([b.array((g,), (lambda q: lambda i: q(i))(q)) for g, q in zip(f.G, f.gv)])
        S.grid = b.list([b.array(f.G, (lambda k, q: lambda *i: q(i[k]))(k, q)) for k, q in enumerate(f.gv)])
        S.boundaries = b.list([b.list([b.val(q(ZERO)), b.val(q(g - 1))]) for q, g in zip(f.gv, f.G)])
        S.observationModel = f.om()
        for m, o in enumerate(self.M):
            S.add('T%d' % m, o.tm())
        if self.raw is not None:
            S.setTransitionModelPrior(b.list([b.val(r) for r in self.raw]), silent=True)
        return S

    # distribution over models and mixtures
    def tmd(self, m, n):
        z = ZERO
        for o in self.M:
            z = z + o.H(n)
        return self.M[m].H(n) / z

    def ltmd(self, m, n):
        """evidence of the newest data point, given the previous ones; `old` is exp of the value stored before (1 before the first step)"""
        r = lambda q: self.p(q) * self.M[q].H(n) / (self.M[q].H(n - 1) if n != ONE else ONE)
        z = ZERO
        for q in range(len(self.M)):
            z = z + r(q)
        return r(m) / z

    def mix(self, n, x):
        r = ZERO
        for m, o in enumerate(self.M):
            r = r + self.tmd(m, n) * o.post(n, x)
        return r

    def mean(self, a, n):
        return self.f.sumG(lambda *x: self.mix(n, x) * self.gv[a](x[a]))

    def pick(self, m, f):
        """f(concrete index) at a symbolic index"""
        r = ZERO
        for q in range(len(self.M)):
            r = r + T.eq0(m - q) * f(q)
        return r

    def state(self, S, n):
        """the state of S after n steps"""
        b, f = self.b, self.f
        n = to_p(n)
        S.firstStep = False
        S.rawData = b.array((n + (self.seg - 1),), lambda i: f.data(i))
        S.rawTimestamps = b.array((n + (self.seg - 1),), lambda i: i, 'i')
        S.formattedTimestamps = b.seq(n, lambda i: b.val(i + (self.seg - 1), 'i'))
        if S.transitionModelPrior is None:
            S.transitionModelPrior = b.array((num(len(self.M)),), lambda m: num(1) / num(len(self.M)))
        S.logEvidenceList = b.list([b.array((o.tot,), lambda k, o=o: o.loge(k, n)) for o in self.M])
        S.hyperLogEvidenceList = b.array((num(len(self.M)),), lambda m: self.pick(m, lambda q: T.mk_log(self.M[q].H(n))))
        S.parameterPosterior = b.list([b.array([o.tot] + f.G, lambda k, *x, o=o: o.filt(k, n - 1, x)) for o in self.M])
        S.hyperParameterDistribution = b.list([b.array((o.tot,), lambda k, o=o: o.hpd(k, n)) for o in self.M])
        S.transitionModelDistribution = b.array((num(len(self.M)),), lambda m: self.pick(m, lambda q: self.tmd(q, n)))
        S.localTransitionModelDistribution = b.array((num(len(self.M)),), lambda m: self.pick(m, lambda q: self.b.uf('ltm0', 'pos')(num(q))))
        S.transitionModelPosterior = b.array([num(len(self.M))] + f.G, lambda m, *x: self.pick(m, lambda q: self.M[q].post(n, x)))
        S.marginalizedPosterior = b.array(f.G, lambda *x: self.mix(n, x))
        S.logEvidence = b.val(b.uf('le0')(ZERO))
        if self.history:
            self.old(S, n)

    def old(self, S, n):
        """arbitrary stored history of n steps"""
        b, f, M = self.b, self.f, len(self.M)
        arr = b.array
        self.hm, self.hp, self.hh, self.ht, self.hl = [b.uf('hist' + c, 'pos') for c in 'mphtl']
        S.posteriorMeanValues = b.seq(n, lambda i: arr((num(self.rank),), lambda a: self.hm(i, a)))
        S.posteriorSequence = b.seq(n, lambda i: arr(f.G, lambda *x: self.hp(i, *x)))
        S.hyperParameterSequence = b.seq(n, lambda i: b.list([arr((o.tot,), lambda k, m=m: self.hh(i, num(m), k)) for m, o in enumerate(self.M)]))
        S.transitionModelSequence = b.seq(n, lambda i: arr((num(M),), lambda m: self.ht(i, m)))
        S.localTransitionModelSequence = b.seq(n, lambda i: arr((num(M),), lambda m: self.hl(i, m)))

    def check(self, S, n, what='C14'):
        b, f, M = self.b, self.f, len(self.M)
        n = to_p(n)
        if what == 'C14':
            r = n + (self.seg - 1)
            if r != ONE:
                b.eq('data seen before', S.rawData[:-1], lambda i: f.data(i), [r - 1])
            b.eq('newest data point', S.rawData[-1], lambda: f.data(r - 1))
            b.eq('times', S.formattedTimestamps, lambda i: i + (self.seg - 1), [n])
            for m, o in enumerate(self.M):
                b.eq('posterior of every combination, model %d' % m, S.parameterPosterior[m], lambda k, *x, o=o: o.filt(k, n - 1, x), [o.tot] + f.G)
                b.eq('evidence of every combination, model %d' % m, S.logEvidenceList[m], lambda k, o=o: o.loge(k, n), [o.tot])
                b.eq('evidence of model %d' % m, S.hyperLogEvidenceList[m], lambda o=o: T.mk_log(o.H(n)))
                b.eq('hyper-parameter distribution of model %d' % m, S.hyperParameterDistribution[m], lambda k, o=o: o.hpd(k, n), [o.tot])
                b.eq('posterior of model %d' % m, S.transitionModelPosterior[m], lambda *x, o=o: o.post(n, x), f.G)
            b.eq('transition model distribution', S.transitionModelDistribution, lambda m: self.pick(m, lambda q: self.tmd(q, n)), [num(M)])
            b.eq('local transition model distribution', S.localTransitionModelDistribution, lambda m: self.pick(m, lambda q: self.ltmd(q, n)), [num(M)])
            b.eq('reported posterior', S.marginalizedPosterior, lambda *x: self.mix(n, x), f.G)
            r = ZERO
            for m, o in enumerate(self.M):
                r = r + self.p(m) * o.H(n)
            b.eq('log-evidence', S.logEvidence, lambda: T.mk_log(r))
