"""Study.fit against arbitrary likelihoods, transition models, priors and grids."""
from engine import terms as T
from engine.terms import ZERO, ONE, num, to_p


class Fit:
    """one Study with rank-dimensional grid; likelihood L(data_i.., x), transitions TF/TB and prior pri are arbitrary"""

    def __init__(self, b, rank=1, seg=1, lsign='nonneg', even=False):
        self.b = b
        self.rank = rank
        self.N = b.size('N')            # number of formatted time steps
        self.G = [b.size('H%d' % k) * 2 if even else b.size('G%d' % k) for k in range(rank)]
        self.dx = [b.real('dx%d' % k, 'pos') for k in range(rank)]
        self.L = b.uf('L', lsign)
        self.pri = b.uf('pri', 'nonneg')
        self.TF = b.uf('TF', 'nonneg')
        self.TB = b.uf('TB', 'nonneg')
        self.ts = b.uf('ts')
        self.data = b.uf('data')
        self.gv = [b.uf('grid%d' % k) for k in range(rank)]
        self.seg = seg

    def study(self, cls='Study', **kw):
        b, core = self.b, self.b.mod('core')
        S = getattr(core, cls)(silent=True)
        n = self.N + (self.seg - 1)
        self.rawN = n
        S.rawData = b.array((n,), lambda i: self.data(i))
        S.rawTimestamps = b.array((n,), lambda i: self.ts(i))
        S.gridSize = b.list([b.val(g, 'i') for g in self.G])
        S.latticeConstant = b.list([b.val(d) for d in self.dx])
        S.marginalGrid = b.list([b.array((g,), (lambda f: lambda i: f(i))(f)) for g, f in zip(self.G, self.gv)])
        S.grid = b.list([b.array(self.G, (lambda k, f: lambda *i: f(i[k]))(k, f)) for k, f in enumerate(self.gv)])
        S.boundaries = b.list([b.list([b.val(f(ZERO)), b.val(f(g - 1))]) for f, g in zip(self.gv, self.G)])
        S.observationModel = self.om()
        S.transitionModel = self.tm()
        S.transitionModel.study = S
        S.transitionModel.latticeConstant = S.latticeConstant
        return S

    def om(self):
        me, b = self, self.b

        class OM:
            segmentLength = me.seg
            parameterNames = b.list(['p%d' % k for k in range(me.rank)])
            parameterValues = b.list([None] * me.rank)
            multipyLikelihoods = False
            name = 'stub'
            prior = b.array(me.G, lambda *x: me.pri(*x))

            def __str__(self):
                return 'stub'

            def processedPdf(self, grid, seg):
                d = [b.term(seg[k]) for k in range(me.seg)]
                return b.array(me.G, lambda *x: me.L(*(d + list(x))))
        return OM()

    def tm(self):
        me, b = self, self.b

        class TM:
            study = None
            latticeConstant = None
            hyperParameterNames = b.list([])
            hyperParameterValues = b.list([])
            prior = None
            tOffset = 0

            def __str__(self):
                return 'stub'

            def computeForwardPrior(self, post, t):
                p, t = b.table(post), b.term(t)
                return b.array(me.G, lambda *x: me.TF(p, t, *x))

            def computeBackwardPrior(self, post, t):
                p, t = b.table(post), b.term(t)
                return b.array(me.G, lambda *x: me.TB(p, t, *x))
        return TM()

    # ------------------------------------------------------------------------------------------- specification
    def weight(self, *x):
        return self.pri(*x)

    def sumG(self, f):
        vs = [T.fresh_index() for _ in self.G]
        return T.mk_sum(vs, self.G, f(*vs))

    def lamG(self, f):
        vs = [T.fresh_index() for _ in self.G]
        return T.lam(vs, f(*vs), self.G)

    def like(self, i, x):
        return self.L(*([self.data(i + k) for k in range(self.seg)] + list(x)))

    def time(self, i):
        return self.ts(i + (self.seg - 1))

    @property
    def vol(self):
        v = ONE
        for d in self.dx:
            v = v * d
        return v

    def spec(self):
        """forward messages: A(0)=prior density, A(i+1)=TF(normalised A(i)*L_i)"""
        xs = [T.fresh_index() for _ in self.G]
        i = T.fresh_index()
        z = self.sumG(self.weight)
        init = self.weight(*xs) / z / self.vol
        X = lambda ii, x: T.rec_symbol(0, ii, x, sign='nonneg')
        nrm = self.sumG(lambda *x: X(i, x) * self.like(i, x))
        step = self.TF(self.lamG(lambda *x: X(i, x) * self.like(i, x) / nrm), self.time(i), *xs)
        rec = T.mk_rec([(self.rank, xs, T.canon(init), i, T.canon(step), 'nonneg')])
        self.A = lambda i, x: T.rec_app(rec, 0, to_p(i), tuple(x))
        self.norm = lambda i: self.sumG(lambda *x: self.A(i, x) * self.like(i, x))
        self.filt = lambda i, x: self.A(i, x) * self.like(i, x) / self.norm(i)
        # backward messages, r = N-1-i steps from the end: B(0)=1/|G|, B(r+1)=norm TB(B(r)*L)
        ng = ONE
        for g in self.G:
            ng = ng * g
        X1 = lambda ii, x: T.rec_symbol(0, ii, x, sign='nonneg')
        j = self.N - 1 - i
        tb = lambda *x: self.TB(self.lamG(lambda *y: X1(i, y) * self.like(j, y)), self.time(j), *x)
        step = tb(*xs) / self.sumG(tb)
        rb = T.mk_rec([(self.rank, xs, ONE / ng, i, T.canon(step), 'nonneg')])
        self.B = lambda i, x: T.rec_app(rb, 0, self.N - 1 - to_p(i), tuple(x))
        self.bnorm = lambda i: self.sumG(lambda *x: self.filt(i, x) * self.B(i, x))
        self.smooth = lambda i, x: self.filt(i, x) * self.B(i, x) / self.bnorm(i)

    def possible(self):
        """every prefix of the data has positive probability"""
        return self.b.forall(self.N, lambda k: T.lt0(-self.norm(k)))

    def bpossible(self):
        return self.b.forall(self.N, lambda k: T.lt0(-self.bnorm(k)))


def fit(rank, mode, what, seg=1, lsign='nonneg'):
    def c(b):
        f = Fit(b, rank, seg, lsign)
        S = f.study()
        f.spec()
        f.b.assume(T.lt0(-f.sumG(lambda *x: f.pri(*x))))
        S.fit(silent=True, forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence')
        ok = f.possible()
        k = T.fresh_index()
        if not ok:
            if 'C02' in what:
                b.eq('impossible data gives -inf', S.logEvidence, lambda: T.atom_p(T.NINF))
            return
        if mode == 'full' and not f.bpossible():
            if 'C02' in what:
                b.eq('impossible data gives -inf (backward)', S.logEvidence, lambda: T.atom_p(T.NINF))
            return
        post = f.filt if mode == 'forward' else f.smooth
        if 'C01' in what:
            b.eq('posterior', S.posteriorSequence, lambda i, *x: post(i, x), [f.N] + f.G)
        if 'C02' in what:
            logz = T.mk_sum([k], [f.N], T.mk_log(f.norm(k))) + T.mk_log(f.vol)
            b.eq('logEvidence', S.logEvidence, lambda: logz)
            b.eq('log10Evidence', S.log10Evidence, lambda: logz / T.mk_log(num(10)))
            if mode != 'full':
                b.eq('local evidence', S.localEvidence, lambda i: f.norm(i) * T.ite(T.eq0(i), f.vol, ONE), [f.N])
            elif lsign == 'pos':
                b.eq('local evidence given all other data', S.localEvidence,
                     lambda i: ONE / f.sumG(lambda *x: f.smooth(i, x) / f.like(i, x)), [f.N])
        if 'C03' in what:
            v = [T.fresh_index() for _ in f.G]
            if b.symbolic:
                from engine import sym
                P = sym.as_sarr(S.posteriorSequence)
                b.eq('posterior sums to one', P.sum(axis=tuple(range(1, rank + 1))), lambda i: ONE, [f.N])
                ii = T.fresh_index()
                b.true('posterior is non-negative', T.sign(P.at(ii, *v)) in ('pos', 'nonneg'))
            else:
                import numpy as np
                P = np.asarray(S.posteriorSequence)
                b.eq('posterior sums to one', P.sum(axis=tuple(range(1, rank + 1))), lambda i: ONE, [f.N])
                b.true('posterior is non-negative', (P >= 0).all())
            for a in range(rank):
                b.eq('mean of parameter %d' % a, S.posteriorMeanValues[a], lambda i: f.sumG(lambda *x: post(i, x) * f.gv[a](x[a])), [f.N])
    return c


def entries(pid):
    out = []
    for rank in (1, 2, 3):
        for mode in ('forward', 'full') + (('evidence',) if pid == 'C02' else ()):
            if rank == 3 and pid != 'C01':
                continue
            out.append(dict(name='fit-%s-%dd' % (mode, rank), function='core.Study.fit', fn=fit(rank, mode, {pid})))
    if pid == 'C02':
        for rank in (1, 2):
            out.append(dict(name='fit-full-positive-%dd' % rank, function='core.Study.fit', fn=fit(rank, 'full', {pid}, lsign='pos')))
    if pid == 'C01':
        for seg in (2, 3):
            for mode in ('forward', 'full'):
                out.append(dict(name='fit-%s-segment%d' % (mode, seg), function='core.Study.fit, preprocessing.movingWindow', fn=fit(1, mode, {pid}, seg)))
    return out
