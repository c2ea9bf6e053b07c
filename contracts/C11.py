"""HyperStudy.fit (single process) on top of the real Study.fit: arbitrary likelihood, transition model depending on the
hyper-parameter values, hyper-grid and hyper-prior."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from engine.instr import Pool
from .hyperc import Axis, HStudy, timesinc


class Average:
    """evidence-weighted average over the combinations k of an HStudy"""

    def __init__(self, f, mode):
        self.f, self.mode = f, mode
        self.g = lambda k: f.at(f.h(k))

    def logz(self, k):
        g = self.g(k)
        q = T.fresh_index()
        return T.mk_sum([q], [g.N], T.mk_log(g.norm(q))) + T.mk_log(g.vol)

    def z(self, k):
        return T.mk_exp(self.logz(k))

    def w(self, k):
        return self.z(k) * self.f.prior(k)

    def total(self):
        k = T.fresh_index()
        return T.mk_sum([k], [self.f.tot], self.w(k))

    def post(self, k, i, x):
        g = self.g(k)
        return g.filt(i, x) if self.mode == 'forward' else g.smooth(i, x)

    def local(self, i):
        k = T.fresh_index()
        g = self.g(k)
        if self.mode == 'full':
            e = ONE / g.sumG(lambda *x: g.smooth(i, x) / g.like(i, x))
        else:
            e = g.norm(i) * T.ite(T.eq0(i), g.vol, ONE)
        return T.mk_sum([k], [self.f.tot], self.f.prior(k) * e) * self.f.hvol

    def avg(self, i, x):
        k = T.fresh_index()
        return T.mk_sum([k], [self.f.tot], self.w(k) * self.post(k, i, x)) / self.total()


def fit(axes, mode, rank=1, jobs=None):
    def c(b):
        b.uf('TFh', 'pos'), b.uf('TBh', 'pos'), b.uf('L', 'pos'), b.uf('pri', 'pos')
        f = HStudy(b, [Axis(b, j, k, p) for j, (k, p) in enumerate(axes)], rank=rank)
        b.assume(T.le0(num(2) - f.tot))
        f.S = S = f.study('HyperStudy')
        kw = {}
        if jobs is not None:
            kw = dict(nJobs=jobs)
            b.depend('pathos.multiprocessing', 'ProcessPool', Pool)
        S.fit(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence', silent=True, **kw)
        A = Average(f, mode)
        b.eq('every combination is analysed once, in order', S.logEvidenceList, lambda k: A.logz(k), [f.tot])
        b.eq('hyper-parameter distribution', S.hyperParameterDistribution, lambda k: A.w(k) / A.total() / f.hvol, [f.tot])
        b.eq('log-evidence', S.logEvidence, lambda: T.mk_log(A.total() * f.hvol))
        b.eq('local evidence', S.localEvidence, lambda i: A.local(i), [f.N])
        if mode != 'evidence':
            b.eq('average posterior', S.posteriorSequence, lambda i, *x: A.avg(i, x), [f.N] + f.G)
            for a in range(rank):
                b.eq('mean of parameter %d' % a, S.posteriorMeanValues[a], lambda i: f.sumG(lambda *x: A.avg(i, x) * f.gv[a](x[a])), [f.N])
        f.kept()
    return c


def single(axes, mode):
    """one combination (or none): the standard fit at that combination"""
    def c(b):
        b.uf('TFh', 'pos'), b.uf('TBh', 'pos'), b.uf('L', 'pos'), b.uf('pri', 'pos')
        f = HStudy(b, [Axis(b, j, k, p) for j, (k, p) in enumerate(axes)], group=None if axes else [[]])
        f.S = S = f.study('HyperStudy')
        if not axes:
            S.transitionModel.models[0].prior = None
        S.fit(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence', silent=True)
        A = Average(f, mode)
        b.eq('log-evidence', S.logEvidence, lambda: A.logz(ZERO))
        if axes:
            b.eq('hyper-parameter distribution', S.hyperParameterDistribution, lambda k: ONE, [ONE])
        if mode != 'evidence':
            b.eq('posterior', S.posteriorSequence, lambda i, *x: A.post(ZERO, i, x), [f.N] + f.G)
        f.kept()
    return c


CONTRACTS = []
F = 'core.HyperStudy.fit, core.HyperStudy._createHyperGrid, core.Study._setAllHyperParameters, core.Study.fit'
SETS = [[('lin', None)], [('lin', 'fun')], [('lin', 'arr')], [('free', None)], [('lin', None), ('lin', 'fun')], [('lin', 'arr'), ('lin', None)],
        [('one', None), ('lin', 'fun')], [('all', None)], [('lin', None), ('lin', 'arr'), ('lin', None)]]
for ax in SETS:
    lab = ' '.join('%s:%s' % (k, p or 'uniform') for k, p in ax)
    for mode in ('evidence', 'forward', 'full'):
        if len(ax) == 3 and mode == 'full':
            continue
        CONTRACTS.append(dict(name='fit-%s %s' % (mode, lab), function=F, fn=fit(ax, mode), sizes=(2, 3), model=timesinc))
for mode in ('forward', 'full'):
    CONTRACTS.append(dict(name='fit-%s-2d' % mode, function=F, fn=fit([('lin', None)], mode, rank=2), sizes=(2, 3)))
for mode in ('evidence', 'forward', 'full'):
    CONTRACTS.append(dict(name='one combination %s' % mode, function=F, fn=single([('one', None), ('one', None)], mode), sizes=(1, 3)))
    CONTRACTS.append(dict(name='no hyper-parameters %s' % mode, function=F, fn=single([], mode), sizes=(1, 3)))
ASSUMPTIONS = ['likelihoods, priors and propagated distributions are positive in the contracts that go through the body of Study.fit; combinations of zero '
               'evidence are covered by the contracts against the contract of Study.fit (which is proved in C01/C02, including the zero-evidence exit)']


def callee(axes, mode, impossible, rank=1, jobs=None, points=None, group=None, labels=()):
    """HyperStudy.fit against the *contract* of Study.fit: for every combination it leaves an arbitrary log-evidence (minus
    infinity for any of the combinations if `impossible`), arbitrary local evidences and an arbitrary posterior sequence"""
    def c(b):
        f = HStudy(b, [Axis(b, j, k, p) for j, (k, p) in enumerate(axes)], rank=rank, group=group, labels=labels)
        f.S = S = f.study('HyperStudy' if points is None else 'ChangepointStudy')
        mask = lambda k: T.band(*[T.lt0(f.h(k)[i] - f.h(k)[j]) for i, j in zip(points or (), (points or ())[1:])]) if points and len(points) > 1 else ONE
        E, Z, P, L = b.uf('E'), b.uf('Z'), b.uf('P', 'pos'), b.uf('le', 'pos')
        core = b.mod('core')
        dead = (lambda h: T.lt0(Z(*h))) if impossible else (lambda h: ZERO)
        q = T.fresh_index()
        over = lambda g: T.mk_sum([q], [f.tot], mask(q) * g(q))
        b.assume(T.le0(num(2) - over(lambda k: ONE)))
        b.assume(T.lt0(-over(lambda k: (ONE - dead(f.h(k))) * f.prior(k))))
        if points is None:
            prior = f.prior
        else:
            prior = lambda k: f.prior(k) * T.mk_sum([q], [f.tot], f.prior(q)) / over(f.prior)

        def fit(self, forwardOnly=False, evidenceOnly=False, silent=False):
            h = self.transitionModel.current()
            self.logEvidence = b.val(T.ite(dead(h), T.atom_p(T.NINF), E(*h)))
            self.localEvidence = b.array([f.N], lambda i: L(*(h + [i])))
            if not evidenceOnly:
                self.posteriorSequence = b.array([f.N] + f.G, lambda i, *x: P(*(h + [i] + list(x))))
        keep = core.Study.fit
        core.Study.fit = fit
        kw = {}
        if jobs is not None:
            kw = dict(nJobs=jobs)
            b.depend('pathos.multiprocessing', 'ProcessPool', Pool)
        try:
            S.fit(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence', silent=True, **kw)
        finally:
            core.Study.fit = keep
        z = lambda k: (ONE - dead(f.h(k))) * T.mk_exp(E(*f.h(k))) * prior(k)
        b.eq('hyper-parameter distribution', S.hyperParameterDistribution, lambda k: mask(k) * z(k) / over(z) / f.hvol, [f.tot])
        b.eq('log-evidence', S.logEvidence, lambda: T.mk_log(over(z) * f.hvol))
        b.eq('local evidence', S.localEvidence, lambda i: over(lambda k: prior(k) * L(*(f.h(k) + [i]))) * f.hvol, [f.N])
        if mode != 'evidence':
            m = lambda i, x: over(lambda k: z(k) * P(*(f.h(k) + [i] + list(x))))
            avg = lambda i, x: m(i, x) / f.sumG(lambda *y: m(i, y))
            b.eq('average posterior', S.posteriorSequence, lambda i, *x: avg(i, x), [f.N] + f.G)
            for a in range(rank):
                b.eq('mean of parameter %d' % a, S.posteriorMeanValues[a], lambda i: f.sumG(lambda *x: avg(i, x) * f.gv[a](x[a])), [f.N])
        f.kept()
    return c



def callees(out, sets, what='', sizes=(2, 3), **kw):
    for nm, args in sets.items():
        for mode in ('evidence', 'forward'):
            for imp in (False, True):
                out.append(dict(name='%s%s %s%s' % (nm, ', impossible data' if imp else '', mode, what), function=F.replace(', core.Study.fit', ''),
                                fn=callee(mode=mode, impossible=imp, **dict(args, **kw)), sizes=sizes, model=timesinc, private=True))


callees(CONTRACTS, {'contract of the fit, ' + ' '.join('%s:%s' % (k, p or 'uniform') for k, p in ax): dict(axes=ax) for ax in
                    ([('lin', None)], [('lin', 'fun'), ('lin', 'arr')], [('lin', 'sym'), ('free', None)], [('lin', 'any'), ('free', None)], [('all', None)])})
callees(CONTRACTS, {'contract of the fit, two parameters': dict(axes=[('lin', 'fun')], rank=2)})
