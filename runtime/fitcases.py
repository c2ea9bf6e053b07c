"""C01 C02 C03 C04 C07: inference of a single study against the definition."""
import copy
import numpy as np
from . import oracle as O, gen as G
from .lib import Fail, Known, Skip, eq, same, require, quiet, close, raises, arr


def mk_study(bl, om, tm, data, ts=None, cls='Study', omobj=None, tmobj=None, **kw):
    S = getattr(bl, cls)(silent=True, **kw)
    S.loadData(data, timestamps=ts, silent=True)
    S.set(omobj or O.mk_om(bl, om), silent=True)
    S.set(tmobj or O.mk_tm(bl, tm), silent=True)
    return S


def match(s, compute, compare):
    """compare against the definition; a listed deviation that explains the result exactly is a known finding"""
    first = None
    for d in O.devs(s):
        try:
            compare(compute(d))
            return d
        except Fail as e:
            first = first or e
            last = e
    raise first if first is last else Fail('%s; also with the listed deviations: %s' % (first, last))


def finite(r, full=True):
    xs = [np.asarray(p) for p in r.post] + [np.asarray(L) for L in r.L]
    if not all(np.all(np.isfinite(x)) for x in xs) or (r.logE != -np.inf and not np.isfinite(r.logE)):
        raise Skip('outside the precondition (the definition itself is not finite)')


MODES = {'full': {}, 'forward': dict(forwardOnly=True), 'evidence': dict(evidenceOnly=True),
         'both': dict(forwardOnly=True, evidenceOnly=True)}


def fit(S, mode, silent=True, **kw):
    k = dict(MODES[mode])
    k.update(kw)
    S.fit(silent=silent, **k)


class Stub(object):
    pass


def stub_tm(bl, rng, env, T):
    """a user-defined transition model with arbitrary, time dependent, asymmetric linear operators"""
    n = int(np.prod(env.shape))
    key = {}

    def op(t, back):
        k = (float(t), back)
        if k not in key:
            r = np.random.default_rng([int(abs(float(t)) * 4) + 1, int(back), n])
            M = r.random((n, n)) ** 3
            key[k] = M / M.sum(axis=0)
        return key[k]

    class T_(bl.tm.Static.__mro__[1]):
        def __init__(self):
            self.study = None
            self.latticeConstant = None
            self.hyperParameterNames = []
            self.hyperParameterValues = []
            self.prior = None
            self.tOffset = 0

        def __str__(self):
            return 'arbitrary linear transition'

        def computeForwardPrior(self, posterior, t):
            return op(t, 0).dot(posterior.ravel()).reshape(posterior.shape)

        def computeBackwardPrior(self, posterior, t):
            return op(t, 1).dot(posterior.ravel()).reshape(posterior.shape)
    f = lambda p, t: op(t, 0).dot(p.ravel()).reshape(p.shape)
    b = lambda p, t: op(t, 1).dot(p.ravel()).reshape(p.shape)
    return T_(), f, b


def setting(rng, **kw):
    om = G.rnd_om(rng, **kw)
    T = int(rng.integers(1, 8))
    data = G.rnd_data(rng, om, T)
    ts = G.rnd_ts(rng, len(data))
    return om, data, ts, G.tstamps(ts, len(data), O.seglen(om))


def desc(**k):
    return {a: b for a, b in k.items()}


# ---------------------------------------------------------------- C01
def c01_models(bl, rng, note):
    om, data, ts, fts = setting(rng)
    tm = G.rnd_tm(rng, om, fts)
    mode = G.pick(rng, ['full', 'full', 'forward'])
    note(om=om, tm=tm, data=data, ts=ts, mode=mode)
    comp = lambda d: O.filt(om, tm, data, ts, mode == 'full', d)
    r0 = comp(())
    finite(r0)
    if r0.logE == -np.inf:
        raise Skip('impossible data')
    S = mk_study(bl, om, tm, data, ts)
    fit(S, mode, silent=bool(rng.integers(2)))

    def cmp(r):
        eq('posterior sequence (%s fit)' % mode, S.posteriorSequence, r.post)
    return match(tm, comp, cmp)


def c01_operators(bl, rng, note):
    om, data, ts, fts = setting(rng)
    env = O.Env(om)
    obj, f, b = stub_tm(bl, rng, env, len(fts))
    mode = G.pick(rng, ['full', 'full', 'forward'])
    note(om=om, tm='arbitrary time-dependent linear operators', data=data, ts=ts, mode=mode)
    r = O.filt(om, None, data, ts, mode == 'full', (), env, f, b)
    finite(r)
    S = mk_study(bl, om, None, data, ts, tmobj=obj)
    fit(S, mode)
    eq('posterior sequence (%s fit)' % mode, S.posteriorSequence, r.post)


def c01_long(bl, rng, note):
    """long series: the recursion must not lose mass or precision"""
    om = G.rnd_om(rng, kind=G.pick(rng, ['Poisson', 'Gaussian', 'AR1']))
    T = int(rng.integers(30, 60))
    data = G.rnd_data(rng, om, T)
    fts = G.tstamps(None, len(data), O.seglen(om))
    tm = ('Comb', [('GRW', 's1', 0.4 * O.lattice(om['values'][0]), om['names'][0]), ('RS', 'lp', -6.)])
    note(om=om, tm=tm, data=data)
    r = O.filt(om, tm, data)
    finite(r)
    S = mk_study(bl, om, tm, data)
    fit(S, 'full')
    eq('posterior sequence', S.posteriorSequence, r.post)


def c01_object(bl, rng, note):
    """densities that return arrays of Python numbers"""
    import scipy.stats as ss
    T = int(rng.integers(1, 5))
    data = rng.normal(size=T)
    v = np.linspace(-1.5, 1.5, int(rng.integers(2, 7)))
    s = G.pick(rng, [('Static',), ('GRW', 's', 0.3, 'a'), ('RS', 'l', -3.), ('Comb', [('GRW', 's', 0.4, 'a'), ('RS', 'l', -2.)])])
    mode, cls = G.pick(rng, ['full', 'forward', 'evidence']), G.pick(rng, ['Study', 'OnlineStudy'])
    note(values=v, data=data, tm=s, mode=mode, study=cls, model='normal density with mean a, returned as an array of objects')
    out = []
    for o in (False, True):
        f = (lambda data, a: ss.norm.pdf(data, a).astype(object)) if o else (lambda data, a: ss.norm.pdf(data, a))
        M = bl.om.NumPy(f, 'a', v)
        if cls == 'Study':
            S = bl.Study(silent=True)
            S.loadData(data, silent=True)
            S.set(M, O.mk_tm(bl, s), silent=True)
            fit(S, mode)
        else:
            S = bl.OnlineStudy(storeHistory=True, silent=True)
            S.set(M, O.mk_tm(bl, s), silent=True)
            for x in data:
                with quiet():
                    S.step(x)
        out.append(S)
    A, B = out
    eq('log-evidence', B.logEvidence, A.logEvidence)
    if mode != 'evidence' or cls != 'Study':
        eq('posterior sequence', arr(B.posteriorSequence), arr(A.posteriorSequence))
        eq('mean values', arr(B.posteriorMeanValues), arr(A.posteriorMeanValues))


def c01_history(bl, rng, note):
    """several loads, models and fits on one study object: only the last configuration counts"""
    om, data, ts, fts = setting(rng)
    om2, data2, ts2, fts2 = setting(rng)
    tm, tm2 = G.rnd_tm(rng, om, fts), G.rnd_tm(rng, om2, fts2)
    mode = G.pick(rng, ['full', 'forward'])
    note(first=dict(om=om2, tm=tm2, data=data2, ts=ts2), om=om, tm=tm, data=data, ts=ts, mode=mode)
    comp = lambda d: O.filt(om, tm, data, ts, mode == 'full', d)
    r0 = comp(())
    finite(r0)
    if r0.logE == -np.inf:
        raise Skip('impossible data')
    S = mk_study(bl, om2, tm2, data2, ts2)
    fit(S, G.pick(rng, list(MODES)))
    S.loadData(data, timestamps=ts, silent=True)
    parts = [O.mk_om(bl, om), O.mk_tm(bl, tm)]
    if rng.integers(2):
        parts = parts[::-1]
    S.set(*parts, silent=True)
    fit(S, G.pick(rng, list(MODES)))
    fit(S, mode)
    return match(tm, comp, lambda r: (eq('posterior sequence after earlier fits', S.posteriorSequence, r.post),
                                      eq('log-evidence after earlier fits', S.logEvidence, r.logE)))


# ---------------------------------------------------------------- C02
def c02_modes(bl, rng, note):
    om, data, ts, fts = setting(rng)
    tm = G.rnd_tm(rng, om, fts)
    note(om=om, tm=tm, data=data, ts=ts)
    comp = lambda d: O.filt(om, tm, data, ts, True, d)
    r0 = comp(())
    finite(r0)
    if r0.logE == -np.inf:
        raise Skip('impossible data')
    S = mk_study(bl, om, tm, data, ts)
    got = {}
    for mode in ('forward', 'full', 'evidence', 'both'):
        fit(S, mode, silent=bool(rng.integers(2)))
        got[mode] = (S.logEvidence, np.array(S.localEvidence), S.log10Evidence)

    def cmp(r):
        for mode, (le, loc, l10) in got.items():
            eq('log-evidence (%s)' % mode, le, r.logE)
            eq('log10-evidence (%s)' % mode, l10, r.logE / np.log(10))
            if mode != 'full':
                eq('local evidence (%s)' % mode, loc, r.local)
            elif not G.has(tm, 'Comb', 'Serial', 'CP', 'Ind', 'RS', 'NE', 'Det', 'ASRW', 'BRW') and all(np.all(L > 0) for L in r.L):
                eq('local evidence (full fit)', loc, [1. / np.sum(p / L) for p, L in zip(r.post, r.L)])
    return match(tm, comp, cmp)


def c02_operators(bl, rng, note):
    om, data, ts, fts = setting(rng)
    env = O.Env(om)
    obj, f, b = stub_tm(bl, rng, env, len(fts))
    note(om=om, tm='arbitrary operators', data=data, ts=ts)
    # definition: unnormalised chain
    a = env.prior * env.V
    segs = O.windows(data, O.seglen(om))
    logs = 0.
    for i, sgm in enumerate(segs):
        a = a * O.plik(om, env.grid, sgm)
        logs += np.log(a.sum())
        a = a / a.sum()
        a = f(a, fts[i])
    for mode in MODES:
        S = mk_study(bl, om, None, data, ts, tmobj=obj)
        fit(S, mode)
        eq('log-evidence (%s)' % mode, S.logEvidence, logs)


def c02_impossible(bl, rng, note):
    """data with zero likelihood everywhere from some step on"""
    k = int(rng.integers(3))
    T = int(rng.integers(1, 7))
    j = int(rng.integers(T))
    if k == 0:
        om = dict(kind='Bernoulli', names=['p'], values=[np.array([1.5, 2.])], prior=('none',))
        data = np.zeros(T)
        data[j] = 1.
    elif k == 1:
        om = dict(kind='np1', names=['a'], values=[np.linspace(-1, 1, 4)], prior=('none',))
        data = rng.normal(size=T)
        data[j] = 1e6
    else:
        om = dict(kind='Gaussian', names=['m', 's'], values=[np.linspace(-1, 1, 4), np.linspace(0.1, 1., 3)],
                  prior=G.rnd_prior(rng, (4, 3)))
        data = rng.normal(size=T)
        data[j] = 1e9
    tm = G.pick(rng, [('Static',), ('RS', 'lp', -3.), ('Comb', [('RS', 'x', -4.)])])
    note(om=om, tm=tm, data=data)
    for mode in MODES:
        S = mk_study(bl, om, tm, data)
        if rng.integers(2) and T > 1:
            S2 = data.copy()
            S2[j] = data[0] if j else data[-1]
            S.loadData(S2, silent=True)
            fit(S, 'full')
            S.loadData(data, silent=True)
        fit(S, mode, silent=bool(rng.integers(2)))
        require(S.logEvidence == -np.inf, 'impossible data (%s fit): log-evidence %r instead of -inf' % (mode, S.logEvidence))
        require(S.log10Evidence == -np.inf, 'log10Evidence of impossible data (%s fit): %r' % (mode, S.log10Evidence))


# ---------------------------------------------------------------- C03
def is_dist(what, p, total=1., neg=False):
    p = arr(p)
    require(np.all(np.isfinite(p)), '%s: not finite' % what)
    if not neg:
        require(p.min() >= -1e-12, '%s: negative probability %r' % (what, p.min()))
    eq('%s: total probability' % what, p.sum(), total, 1e-8, 1e-8)


def check_posteriors(what, S, neg):
    for i, p in enumerate(S.posteriorSequence):
        is_dist('%s posterior of step %d' % (what, i), p, neg=neg)
    want = np.array([[np.sum(p * g) for p in S.posteriorSequence] for g in np.meshgrid(*[arr(v) for v in S.marginalGrid], indexing='ij')])
    eq('%s mean values' % what, S.posteriorMeanValues, want)
    for n, w in zip(S.observationModel.parameterNames, want):
        eq('%s getParameterMeanValues(%s)' % (what, n), S.getParameterMeanValues(n), w)


def c03_study(bl, rng, note):
    om, data, ts, fts = setting(rng)
    tm = G.rnd_tm(rng, om, fts)
    note(om=om, tm=tm, data=data, ts=ts)
    r = O.filt(om, tm, data, ts, True)
    finite(r)
    if r.logE == -np.inf:
        raise Skip('impossible data')
    neg = G.has(tm, 'ASRW', 'Det')
    for mode in ('full', 'forward'):
        S = mk_study(bl, om, tm, data, ts)
        fit(S, mode, silent=bool(rng.integers(2)))
        check_posteriors('%s fit:' % mode, S, neg)


def c03_hyper(bl, rng, note):
    from . import hypercases as H
    om, data, ts, tm, cls = H.hyper_setting(rng)
    note(om=om, tm=tm, data=data, ts=ts, study=cls)
    neg = G.has(tm, 'ASRW', 'Det')
    for mode in ('full', 'forward'):
        S = mk_study(bl, om, tm, data, ts, cls=cls)
        fit(S, mode)
        check_posteriors('%s %s fit:' % (cls, mode), S, neg)
        is_dist('hyper-parameter distribution', arr(S.hyperParameterDistribution) * np.prod(S.hyperGridConstant))
        for n in S.flatHyperParameterNames:
            v, p = S.getHyperParameterDistribution(n)
            is_dist('hyper-parameter distribution of %s' % n, p)


def c03_online(bl, rng, note):
    from . import onlinecases as N
    om, data, tms, tmp = N.online_setting(rng)
    note(om=om, tms=tms, data=data)
    neg = G.has(tms, 'ASRW', 'Det')
    S = N.mk_online(bl, om, tms, tmp, True)
    for x in data:
        S.step(x)
        if S.transitionModelDistribution is None:
            continue
        is_dist('current posterior', S.marginalizedPosterior, neg=neg)
        is_dist('transition model distribution', S.transitionModelDistribution)
        is_dist('local transition model distribution', S.localTransitionModelDistribution)
        for i in range(len(tms)):
            is_dist('hyper-parameter distribution', arr(S.hyperParameterDistribution[i]) * np.prod(S.hyperGridConstants[i]))
            is_dist('posterior of model %d' % i, S.transitionModelPosterior[i], neg=neg)
            for q in S.parameterPosterior[i]:
                is_dist('posterior per hyper-parameter value', q, neg=neg)
        for n, g in zip(om['names'], O.Env(om).grid):
            eq('current mean of %s' % n, S.getCurrentParameterMeanValue(n), np.sum(S.marginalizedPosterior * g))
    if len(S.posteriorSequence):
        for p, m in zip(S.posteriorSequence, S.posteriorMeanValues):
            is_dist('stored posterior', p, neg=neg)
            eq('stored mean values', m, [np.sum(p * g) for g in O.Env(om).grid])


# ---------------------------------------------------------------- C04
def c04_window(bl, rng, note):
    n = int(rng.integers(1, 5))
    N = int(rng.integers(n, n + 7))
    d = rng.normal(size=(N,) + ((int(rng.integers(1, 4)),) if rng.integers(2) else ()))
    note(data=d, n=n)
    from importlib import import_module
    keep = d.copy()
    w = import_module('bayesloop.preprocessing').movingWindow(d, n)
    same('data given to movingWindow', d, keep)
    eq('windows', w, np.array([d[i:i + n] for i in range(N - n + 1)]), 0, 0)


def c04_study(bl, rng, note):
    """a model with an arbitrary segment length sees its own window and time at every step"""
    seg = int(rng.integers(1, 5))
    N = int(rng.integers(seg, seg + 6))
    multi = bool(rng.integers(2))
    d = rng.normal(size=(N, 2) if multi else N)
    ts = G.rnd_ts(rng, N)
    note(data=d, segmentLength=seg, ts=ts)
    Base = bl.om.Gaussian.__mro__[1]
    seen = []

    class M(Base):
        def __init__(self):
            self.name = 'probe'
            self.segmentLength = seg
            self.parameterNames = ['a']
            self.parameterValues = [np.linspace(0.1, 1., 3)]
            self.prior = None
            self.multiplyLikelihoods = False

        def pdf(self, grid, dataSegment):
            seen.append(np.array(dataSegment))
            return np.ones_like(grid[0]) * 0.5

    times = []

    class T_(bl.tm.Static.__mro__[1]):
        def __init__(self):
            self.study = self.latticeConstant = self.prior = None
            self.hyperParameterNames, self.hyperParameterValues, self.tOffset = [], [], 0

        def __str__(self):
            return 'probe'

        def computeForwardPrior(self, posterior, t):
            times.append(t)
            return posterior.copy()

        def computeBackwardPrior(self, posterior, t):
            times.append(t)
            return posterior.copy()
    S = bl.Study(silent=True)
    keep = d.copy()
    S.loadData(d, timestamps=ts, silent=True)
    S.set(M(), silent=True)
    S.set(T_(), silent=True)
    full = bool(rng.integers(2))
    S.fit(silent=True, forwardOnly=not full)
    same('data', d, keep)
    want = [d[i:i + seg] for i in range(N - seg + 1)]
    tw = list(np.arange(N) if ts is None else ts)[seg - 1:]
    eq('formatted timestamps', S.formattedTimestamps, tw, 0, 0)
    eq('formatted data', S.formattedData, np.array(want), 0, 0)
    require(len(seen) >= len(want), 'likelihood evaluated for %d of %d segments' % (len(seen), len(want)))
    eq('segments seen in the forward pass', np.array(seen[:len(want)]), np.array(want), 0, 0)
    eq('times seen in the forward pass', times[:len(want)], tw, 0, 0)
    if full:
        eq('segments seen in the backward pass', np.array(seen[len(want):]), np.array(want)[::-1], 0, 0)
        eq('times seen in the backward pass', times[len(want):], tw[::-1], 0, 0)


def c04_load(bl, rng, note):
    N = int(rng.integers(1, 7))
    d = rng.normal(size=N)
    S = bl.Study(silent=True)
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(4))
        n = int(rng.integers(1, 7))
        x = rng.normal(size=n)
        if k == 0:
            S.loadData(x, silent=bool(rng.integers(2)))
            want = np.arange(n)
        elif k == 1:
            want = rng.integers(0, 9, n).cumsum()
            S.loadData(x, timestamps=list(want) if rng.integers(2) else want, silent=True)
        elif k == 2:
            S.loadData(x, timestamps=np.arange(n + 1 + int(rng.integers(3))) + 50, silent=bool(rng.integers(2)))
            want = np.arange(n)
        else:
            S.load(list(x), silent=True)
            want = np.arange(n)
        hist.append((k, n))
        note(history=hist)
        eq('timestamps after loading', S.rawTimestamps, want, 0, 0)
        eq('data after loading', S.rawData, x, 0, 0)


def c04_pdf(bl, rng, note):
    om = G.rnd_om(rng, kind=G.pick(rng, ['Bernoulli', 'Poisson', 'Gaussian', 'Laplace', 'WhiteNoise', 'AR1', 'ScaledAR1', 'scipy:norm']))
    n = O.seglen(om)
    dim = int(rng.integers(0, 4))
    d = np.array([[G.rnd_point(rng, om['kind']) for _ in range(dim or 1)] for _ in range(n)])
    if not dim:
        d = d[:, 0]
    d[rng.random(d.shape) < 0.3] = np.nan
    note(om=om, segment=d)
    env = O.Env(om)
    M = O.mk_om(bl, om)
    keep, gk = d.copy(), [g.copy() for g in env.grid]
    got = M.processedPdf(env.grid, d)
    want = O.plik(om, env.grid, d)
    eq('likelihood of segment with missing/multi-dimensional data', got, want, 1e-8, 1e-300)
    if np.isnan(d).all() or (not dim and np.isnan(d).any()):
        require(np.all(arr(got) == 1.), 'missing data must have likelihood exactly one')
    same('data segment', d, keep)
    same('parameter grid', env.grid, gk)


def c04_gaussianmean(bl, rng, note):
    om = G.rnd_om(rng, kind='GaussianMean')
    d = np.array([[rng.normal(), 0.2 + rng.random()]])
    if rng.integers(2):
        d[0, int(rng.integers(2))] = np.nan
    note(om=om, segment=d)
    env = O.Env(om)
    eq('likelihood', O.mk_om(bl, om).processedPdf(env.grid, d), O.plik(om, env.grid, d), 1e-8, 1e-300)


# ---------------------------------------------------------------- C07
def c07_prior(bl, rng, note):
    om, data, ts, fts = setting(rng)
    env = O.Env(om)
    note(om=om)
    M = O.mk_om(bl, om)
    keep = copy.deepcopy(M.prior) if om['prior'][0] == 'array' else None
    S = bl.Study(silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    if rng.integers(2):   # another model with another prior was fitted before
        om0 = G.rnd_om(rng, kind=om['kind'], names=om['names'], size=[len(v) for v in om['values']] if rng.integers(2) else None)
        note(om=om, before=om0)
        S.set(O.mk_om(bl, om0), bl.tm.Static(), silent=True)
        fit(S, 'forward')
    S.set(M, silent=True)
    S.set(bl.tm.Static(), silent=True)
    # the prior is what a fit with only missing data returns
    blank = np.full(np.shape(data), np.nan)
    if om['kind'] == 'GaussianMean':
        blank = np.full((len(data), 2), np.nan)
    S.loadData(blank, timestamps=ts, silent=True)
    fit(S, G.pick(rng, ['full', 'forward']), silent=bool(rng.integers(2)))
    p = env.prior / env.prior.sum()
    for i, q in enumerate(S.posteriorSequence):
        eq('posterior without any data, step %d, against the prior' % i, q, p)
    eq('evidence without any data', S.logEvidence, np.log(env.prior.sum() * env.V), 1e-6, 1e-8)
    if keep is not None:
        same("user's prior array", M.prior, keep)
        same("user's prior array", om['prior'][1], keep)


def c07_repeat(bl, rng, note):
    om, data, ts, fts = setting(rng)
    tm = G.rnd_tm(rng, om, fts)
    note(om=om, tm=tm, data=data, ts=ts)
    r = O.filt(om, tm, data, ts, True)
    finite(r)
    if r.logE == -np.inf:
        raise Skip('impossible data')
    keep = copy.deepcopy((om['values'], om['prior'], data))
    M, T = O.mk_om(bl, om), O.mk_tm(bl, tm)
    S = mk_study(bl, om, tm, data, ts, omobj=M, tmobj=T)
    mode = G.pick(rng, ['full', 'forward'])
    fit(S, mode)
    a = (np.array(S.posteriorSequence), S.logEvidence, np.array(S.localEvidence))
    fit(S, mode)
    b = (np.array(S.posteriorSequence), S.logEvidence, np.array(S.localEvidence))
    S2 = mk_study(bl, om, tm, data, ts, omobj=M, tmobj=T)
    fit(S2, mode)
    c = (np.array(S2.posteriorSequence), S2.logEvidence, np.array(S2.localEvidence))
    fit(S, 'evidence')
    S3 = mk_study(bl, om, tm, data, ts, omobj=M)
    fit(S3, mode)
    d = (np.array(S3.posteriorSequence), S3.logEvidence, np.array(S3.localEvidence))
    for n, x, y, z, u in zip(('posteriors', 'log-evidence', 'local evidence'), a, b, c, d):
        eq('%s of a repeated fit' % n, y, x, 1e-9, 1e-13)
        eq('%s of a second study with the same models' % n, z, x, 1e-9, 1e-13)
        eq('%s of a third study with the same observation model' % n, u, x, 1e-9, 1e-13)
    same('parameter values given by the user', om['values'], keep[0])
    same('prior given by the user', list(om['prior'][1:2]), list(keep[1][1:2]))
    same('data given by the user', data, keep[2])


def c07_custom(bl, rng, note):
    """priors passed to models of the user's own densities"""
    import scipy.stats as ss
    import sympy.stats as st
    from sympy import Symbol
    kind = G.pick(rng, ['NumPy', 'SciPy', 'SymPy', 'SymPy'])
    a, b = np.linspace(-1., 1.3, 3), np.linspace(0.5, 2., 4)
    g = np.meshgrid(a, b, indexing='ij')
    how = G.pick(rng, ['array', 'function', 'sympy'])
    if how == 'array':
        p = 0.1 + rng.random((3, 4))
        w = p.copy()
    elif how == 'function':
        p = lambda x, y: 1. + x ** 2 + y
        w = p(*g)
    else:
        p = [O.sympy_rv('N'), O.sympy_rv('E')]
        w = O.rv_pdf('N', g[0]) * O.rv_pdf('E', g[1])
    note(model=kind, prior=how, values=[a, b], weights=w)
    if kind == 'NumPy':
        M = bl.om.NumPy(lambda data, loc, scale: ss.norm.pdf(data, loc, scale), 'loc', a, 'scale', b, prior=p)
    elif kind == 'SciPy':
        M = bl.om.SciPy(ss.norm, 'loc', a, 'scale', b, prior=p)
    else:
        kw = {} if rng.integers(2) else dict(determineJeffreysPrior=bool(rng.integers(2)))
        note(model=kind, prior=how, values=[a, b], weights=w, options=kw)
        M = bl.om.SymPy(st.Normal('rv', Symbol('loc', real=True), Symbol('scale', positive=True)), 'loc', a, 'scale', b, prior=p, **kw)
    data = rng.normal(size=1)
    S = bl.Study(silent=True)
    S.loadData(data, silent=True)
    S.set(M, bl.tm.Static(), silent=True)
    fit(S, 'full')
    q = w * ss.norm.pdf(data[0], *g)
    eq('posterior of one observation', S.posteriorSequence[0], q / q.sum(), 1e-8)


C01 = [(c01_models, 60), (c01_operators, 25), (c01_long, 4), (c01_history, 20), (c01_object, 10)]
C02 = [(c02_modes, 50), (c02_operators, 15), (c02_impossible, 20)]
C03 = [(c03_study, 40), (c03_hyper, 14), (c03_online, 14)]
C04 = [(c04_window, 40), (c04_study, 40), (c04_load, 40), (c04_pdf, 80), (c04_gaussianmean, 15)]
C07 = [(c07_prior, 60), (c07_repeat, 40), (c07_custom, 12)]
