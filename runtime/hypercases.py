"""C11 C12 C13 C18 C21: hyper-studies, change-point studies, hyper-parameter addressing."""
import copy
import itertools
import numpy as np
from . import oracle as O, gen as G
from .fitcases import mk_study, fit, match, finite, MODES
from .lib import Fail, Skip, eq, same, require, raises, arr, quiet, identical


def pf1(x):
    return 1. + x ** 2


def pf2(x):
    return np.exp(-0.1 * abs(x))


def hp_prior(rng, n, allowsym=True):
    k = int(rng.integers(6))
    if k <= 1:
        return None
    if k == 2:
        return G.pick(rng, [pf1, pf2])
    if k in (3, 4):
        return 0.1 + rng.random(n)
    if allowsym:
        return O.sympy_rv(G.pick(rng, ['N', 'U', 'N2']))
    return None


def grid_of(rng, base, n):
    """hyper-parameter values: equally spaced, irregular, or two values"""
    v = base * (0.2 + np.arange(n))
    if rng.random() < 0.3 and n > 2:
        v = v + base * 0.2 * rng.random(n)
    return v


def with_grid(rng, s, ts, budget=12):
    """replace some hyper-parameter values of the spec by grids"""
    fl = O.flat(s)
    d = {}
    left = budget
    for n, v, _ in fl:
        if n.startswith('t'):
            left = max(1, left // (np.size(v) if not isinstance(v, str) else len(ts) - 1))
            continue
        m = int(rng.integers(1, 5))
        if left // m < 1 or rng.random() < 0.25:
            m = 1
        left //= m
        if m == 1:
            d[n] = v if rng.random() < 0.6 else np.array([v])
            continue
        if n.startswith('log10pMin'):
            g = -1. - np.arange(m)[::-1] * G.pick(rng, [1., 0.5])
        elif n.startswith('alpha'):
            g = np.linspace(1., 1.9, m)
        elif n.startswith('rho'):
            g = np.linspace(-0.4, 0.6, m)
        elif n.startswith('qa') or n.startswith('qb') or n.startswith('slope'):
            g = grid_of(rng, v if v else 0.1, m)
        else:
            g = grid_of(rng, abs(v) if v else 0.05, m)
        d[n] = list(g) if rng.random() < 0.4 else g
    return O.bind(s, d)


def with_priors(rng, s, sym=True):
    """attach hyper-priors"""
    b = list(O.base(s))
    k = b[0]
    if k in ('Comb', 'Serial'):
        b[1] = [with_priors(rng, m, sym) for m in b[1]]
        return tuple(b)
    o = {}
    for n, v, _ in O.flat(s):
        if np.ndim(v) == 1 and not (isinstance(v, str)) and len(v) > 1:
            o[n] = hp_prior(rng, len(v), sym)
    return tuple(b) + ((o,) if any(x is not None for x in o.values()) else ())


# (AlphaStable/Deterministic may produce negative values, see known_findings: covered by C10)
KINDS = ['GRW', 'GRW', 'GRW', 'RS', 'NE', 'Static', 'BRW', 'Ind']


def hyper_setting(rng, cls=None, priors=True, T=None, npar=None, many=None, tsf=None):
    cls = cls or G.pick(rng, ['HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    om = G.rnd_om(rng, npar=npar or G.pick(rng, [1, 1, 2]), size=None, prior=G.rnd_prior(rng, (2,), ('none', 'default')))
    T = T or int(rng.integers(3, 7))
    data = G.rnd_data(rng, om, T)
    ts = G.rnd_ts(rng, len(data))
    if ts is not None and rng.random() < 0.5:
        ts = None
    if tsf is not None:
        ts = tsf(rng, len(data), ts)
    fts = G.tstamps(ts, len(data), O.seglen(om))
    nm = G.Namer()
    tries = 0
    while True:
        if cls == 'ChangepointStudy':
            n = int(rng.integers(1, 3)) if many is None else many
            if rng.random() < 0.5:
                ms = [G.rnd_elem(rng, om, fts, nm, ['GRW', 'RS', 'Static', 'Static'])]
                for i in range(n):
                    ms.append(('CP', nm('t'), points(rng, fts, i)))
                rng.shuffle(ms)
                s = ('Comb', [tuple(m) for m in ms])
            else:
                kind = G.pick(rng, ['BP', 'CP'])
                ms = [G.rnd_elem(rng, om, fts, nm, ['GRW', 'RS', 'Static'])]
                lo = None
                for i in range(n):
                    ms.append((G.pick(rng, ['BP', 'CP']), nm('t'), points(rng, fts, i, True)))
                    ms.append(G.rnd_elem(rng, om, fts, nm, ['GRW', 'RS', 'Static']))
                s = ('Serial', ms)
            s = with_grid(rng, s, fts, 3)
        else:
            r = rng.random()
            if r < 0.12 and len(fts) >= 4:   # several change-points without common values
                k = int(rng.integers(1, len(fts) - 2))
                p, q = np.array(fts[:k]), np.array(fts[k:-1])
                if rng.integers(2):
                    s = ('Comb', [('CP', nm('t'), p), G.rnd_elem(rng, om, fts, nm, ['GRW', 'Static']), ('CP', nm('t'), q)])
                else:
                    s = ('Serial', [G.rnd_elem(rng, om, fts, nm, ['GRW', 'Static']), (G.pick(rng, ['BP', 'CP']), nm('t'), p),
                                    G.rnd_elem(rng, om, fts, nm, ['RS', 'Static']), (G.pick(rng, ['BP', 'CP']), nm('t'), q), G.rnd_elem(rng, om, fts, nm, ['GRW', 'Static'])])
            elif r < 0.45:
                s = G.rnd_elem(rng, om, fts, nm, KINDS)
            elif r < 0.75:
                s = ('Comb', [G.rnd_elem(rng, om, fts, nm, KINDS) for _ in range(2)])
            else:
                p = 'all' if rng.random() < 0.4 else np.array(fts[:-1])[:int(rng.integers(1, 4))]
                s = ('Serial', [G.rnd_elem(rng, om, fts, nm, KINDS), (G.pick(rng, ['BP', 'CP']), nm('t'), p),
                                G.rnd_elem(rng, om, fts, nm, KINDS)])
            s = with_grid(rng, s, fts)
        if priors:
            s = with_priors(rng, s)
        H = hyper(om, s, fts)
        if not np.all(H.w > 1e-100):   # hyper-priors must not vanish
            continue
        mask = H.mask if cls == 'ChangepointStudy' else None
        n = len(H.combos) if mask is None else int(np.sum(mask))
        if n >= 2 and len(H.combos) <= (40 if many is None else 130):
            break
        tries += 1
        if tries > 200:
            raise Skip('no small hyper-grid found')
        nm = G.Namer()
    # the definition must be finite
    for c in H.combos:
        r = O.filt(om, O.bind(s, dict(zip(H.names, c))), data, ts, True)
        if r.logE != -np.inf and not (np.isfinite(r.logE) and np.all(np.isfinite(r.post))):
            return hyper_setting(rng, cls, priors, T, npar, many, tsf)
    return om, data, ts, s, cls


def points(rng, fts, i, first=False):
    k = int(rng.integers(3))
    if k == 0:
        return 'all'
    if first:   # serial models want increasing first values
        return np.array(fts[min(i, len(fts) - 2):])[:3]
    if k == 1:
        return np.array(fts[:-1])
    lo = min(i, len(fts) - 2)
    return np.array(fts[lo:lo + 3])


class Hy(object):
    pass


def hyper(om, s, fts):
    """hyper-grid, constants and prior by the documented definition"""
    H = Hy()
    fl = O.flat(s)
    H.names = [n for n, v, p in fl]
    H.vals = []
    for n, v, p in fl:
        if isinstance(v, str) and v == 'all':
            v = np.array(fts[:-1])
        H.vals.append(np.atleast_1d(np.asarray(v, float)))
    H.const = []
    for v in H.vals:
        if len(v) > 1 and np.all(np.abs(np.diff(np.diff(v))) < 1e-10):
            H.const.append(abs(v[1] - v[0]))
        else:
            H.const.append(1.)
    H.C = float(np.prod(H.const))
    pv = []
    for (n, _, p), v, c in zip(fl, H.vals, H.const):
        pv.append(prior_values(p, v, c))
    H.combos = list(itertools.product(*H.vals))
    H.w = np.array([np.prod(x) for x in itertools.product(*pv)])
    pts = [i for i, n in enumerate(H.names) if n.startswith('t')]
    H.mask = np.array([all(c[a] < c[b] for a, b in zip(pts, pts[1:])) for c in H.combos])
    return H


def prior_values(p, v, c):
    if p is None:
        return np.ones(len(v)) / len(v) / c
    if callable(p) and not hasattr(p, 'pspace'):
        q = np.array([p(x) for x in v], float)
        return q / q.sum() / c
    if isinstance(p, (list, tuple, np.ndarray)):
        q = np.array(p, float)
        return q / q.sum() / c
    key = {'z1': 'N', 'z2': 'E', 'z3': 'U', 'z4': 'N2'}[str(p)]
    return O.rv_pdf(key, v)


def hyper_fit(om, s, data, ts, cls, full, dev=()):
    fts = G.tstamps(ts, len(data), O.seglen(om))
    H = hyper(om, s, fts)
    idx = list(range(len(H.combos)))
    w = H.w.copy()
    if cls == 'ChangepointStudy':
        idx = [i for i in idx if H.mask[i]]
        w = w * (w.sum() / w[H.mask].sum())
    H.idx, H.wfit = idx, w
    fits = [O.filt(om, O.bind(s, dict(zip(H.names, H.combos[i]))), data, ts, full, dev) for i in idx]
    ev = np.array([f.logE for f in fits])
    lw = np.log(w[idx]) + ev
    m = lw.max()
    q = np.exp(lw - m)
    H.logE = m + np.log(q.sum()) + np.log(H.C)
    H.dist = np.zeros(len(H.combos))
    H.dist[idx] = q / q.sum() / H.C
    T = len(fts)
    loc = np.zeros(T)
    post = 0.
    H.localok = True
    for i, f, qq in zip(idx, fits, q):
        l = np.zeros(T)
        l[:len(f.local)] = f.local
        if full:
            H.localok = H.localok and hasattr(f, 'local_full')
            l = np.array(getattr(f, 'local_full', l))
        loc += w[i] * l * H.C
        if qq > 0:
            post = post + qq * np.array(f.post)
    H.local = loc
    H.post = post / post.reshape(T, -1).sum(axis=1).reshape((T,) + (1,) * (post.ndim - 1))
    H.mean = np.array([[np.sum(p * g) for p in H.post] for g in fits[0].env.grid])
    H.fits = fits
    return H


def cmp_hyper(S, H, mode, cls, local=True):
    eq('log-evidence (%s)' % mode, S.logEvidence, H.logE)
    eq('log10-evidence (%s)' % mode, S.log10Evidence, H.logE / np.log(10))
    eq('hyper-parameter distribution (%s)' % mode, S.hyperParameterDistribution, H.dist)
    eq('individual evidences (%s)' % mode, S.logEvidenceList, [f.logE for f in H.fits])
    if H.localok and local:
        eq('local evidence (%s)' % mode, S.localEvidence, H.local)
    if mode in ('full', 'forward'):
        eq('average posterior (%s)' % mode, S.posteriorSequence, H.post)
        eq('mean values (%s)' % mode, S.posteriorMeanValues, H.mean)


# ---------------------------------------------------------------- C11
def c11_fit(bl, rng, note):
    om, data, ts, s, cls = hyper_setting(rng, G.pick(rng, ['HyperStudy'] * 3 + ['ChangepointStudy']))
    mode = G.pick(rng, ['full', 'forward', 'evidence', 'full'])
    note(om=om, tm=s, data=data, ts=ts, study=cls, mode=mode)
    comp = lambda d: hyper_fit(om, s, data, ts, cls, mode == 'full', d)
    S = mk_study(bl, om, s, data, ts, cls=cls)
    if rng.random() < 0.3:
        fit(S, G.pick(rng, ['full', 'evidence', 'forward']))
    fit(S, mode, silent=bool(rng.integers(2)))
    return match(s, comp, lambda H: cmp_hyper(S, H, mode, cls))


def c11_impossible(bl, rng, note):
    """combinations under which the data is impossible contribute nothing"""
    v = np.linspace(0., 1., 5)
    om = dict(kind='np1', names=['a'], values=[v], prior=('none',))

    class M(bl.om.Gaussian.__mro__[1]):
        def __init__(self):
            self.name, self.segmentLength, self.parameterNames, self.parameterValues = 'windowed', 1, ['a'], [v]
            self.prior, self.multiplyLikelihoods = None, False

        def pdf(self, grid, seg):
            return np.where(np.abs(grid[0] - seg[0]) < 0.3, 0.7, 0.)
    T = int(rng.integers(3, 6))
    j = int(rng.integers(1, T))
    data = np.where(np.arange(T) < j, 0., 1.) if rng.integers(2) else np.where(np.arange(T) < j, 0., 0.5)
    s = ('GRW', 'sigma', np.array([0., 0.05, 0.6]) if rng.integers(2) else [0., 0.1, 0.2, 0.3], 'a')
    env = O.Env(om)
    mode = G.pick(rng, ['full', 'forward', 'evidence'])
    note(values=v, data=data, tm=s, mode=mode, model='likelihood 0.7 within 0.3 of the data, else 0')
    S = bl.HyperStudy(silent=True)
    S.loadData(data, silent=True)
    S.set(M(), silent=True)
    S.set(O.mk_tm(bl, s), silent=True)
    fit(S, mode)
    ev, posts = [], []
    vals = arr(s[2])
    for sg in vals:
        q, le, fp = env.prior, np.log(env.V), []
        Ls = [np.where(np.abs(v - x) < 0.3, 0.7, 0.) for x in data]
        for t in range(T):
            a = q * Ls[t]
            z = a.sum()
            if not z > 0:
                le = -np.inf
                break
            le += np.log(z)
            fp.append(a / z)
            q = O.gauss_conv(a / z, sg / env.lc[0], 0)
        if le > -np.inf and mode == 'full':
            b = np.ones(5) / 5
            for t in range(T - 1, -1, -1):
                a = fp[t] * b
                if not a.sum() > 0:
                    le = -np.inf
                    break
                fp[t] = a / a.sum()
                b = O.gauss_conv(b * Ls[t], sg / env.lc[0], 0)
                b /= b.sum()
        ev.append(le)
        posts.append(fp)
    if not np.any(np.isfinite(ev)):
        raise Skip('all impossible')
    c = abs(vals[1] - vals[0]) if np.all(np.abs(np.diff(np.diff(vals))) < 1e-10) else 1.
    E = np.exp(np.array(ev))
    eq('evidences', S.logEvidenceList, ev)
    eq('hyper-parameter distribution', S.hyperParameterDistribution, E / E.sum() / c)
    eq('log-evidence', S.logEvidence, np.log(E.mean()))
    if mode != 'evidence':
        P = sum(e * np.array(p) for e, p in zip(E, posts) if e > 0)
        eq('average posterior', S.posteriorSequence, P / P.sum(axis=1)[:, None])


def c11_single(bl, rng, note):
    """one combination / no hyper-parameters: the ordinary fit"""
    om = G.rnd_om(rng, npar=1)
    data = G.rnd_data(rng, om, 4)
    lc = O.lattice(om['values'][0])
    s = G.pick(rng, [('Static',), ('GRW', 'sigma', 0.7 * lc, om['names'][0]), ('GRW', 'sigma', [0.7 * lc], om['names'][0]),
                     ('Comb', [('GRW', 'sigma', np.array([0.7 * lc]), om['names'][0]), ('RS', 'lp', -3.)])])
    note(om=om, tm=s, data=data)
    b = O.bind(s, {n: np.atleast_1d(v)[0] for n, v, p in O.flat(s)})
    mode = G.pick(rng, ['full', 'forward', 'evidence'])
    r = O.filt(om, b, data, None, mode == 'full')
    finite(r)
    S = mk_study(bl, om, s, data, cls='HyperStudy')
    fit(S, mode)
    eq('log-evidence', S.logEvidence, r.logE)
    if mode != 'evidence':
        eq('posterior', S.posteriorSequence, r.post)


# ---------------------------------------------------------------- C12
def results(S, mode):
    out = dict(logEvidence=S.logEvidence, logEvidenceList=np.array(S.logEvidenceList), localEvidence=np.array(S.localEvidence),
               hyperParameterDistribution=np.array(S.hyperParameterDistribution))
    if mode in ('full', 'forward'):
        out['posteriorSequence'] = np.array(S.posteriorSequence)
        out['posteriorMeanValues'] = np.array(S.posteriorMeanValues)
    return out


def c12_parallel(bl, rng, note):
    cls = G.pick(rng, ['HyperStudy', 'HyperStudy', 'ChangepointStudy'])
    om, data, ts, s, cls = hyper_setting(rng, cls)
    mode = G.pick(rng, ['full', 'forward', 'evidence'])
    fts = G.tstamps(ts, len(data), O.seglen(om))
    n = len(hyper(om, s, fts).combos)
    jobs = int(G.pick(rng, [2, 3, 4, 5, min(n + 2, 8)]))
    note(om=om, tm=s, data=data, ts=ts, study=cls, mode=mode, nJobs=jobs, combinations=n)
    A = mk_study(bl, om, s, data, ts, cls=cls)
    fit(A, mode)
    B = mk_study(bl, om, s, data, ts, cls=cls)
    fit(B, mode, silent=bool(rng.integers(2)), nJobs=jobs)
    ra, rb = results(A, mode), results(B, mode)
    for k in ra:
        eq('%s with %d processes' % (k, jobs), rb[k], ra[k], 1e-9, 1e-13)
    fit(B, mode, nJobs=1)
    rc = results(B, mode)
    for k in ra:
        eq('%s of a single-process fit after a parallel one' % k, rc[k], ra[k], 1e-9, 1e-13)


class Pool(object):
    def __init__(self, nodes=None, *a, **k):
        pass

    def map(self, f, *args):
        import cloudpickle
        return [cloudpickle.loads(cloudpickle.dumps(cloudpickle.loads(cloudpickle.dumps(f))(*a))) for a in zip(*args)]

    imap = map

    def close(self):
        pass
    join = terminate = restart = clear = close


def c12_inprocess(bl, rng, note):
    """the same with the worker pool replaced by an in-process map of pickled copies (many more job counts, no forks)"""
    om, data, ts, s, cls = hyper_setting(rng)
    mode = G.pick(rng, ['full', 'forward', 'evidence'])
    fts = G.tstamps(ts, len(data), O.seglen(om))
    n = len(hyper(om, s, fts).combos)
    jobs = int(rng.integers(2, n + 3))
    note(om=om, tm=s, data=data, ts=ts, study=cls, mode=mode, nJobs=jobs, combinations=n, pool='in-process')
    A = mk_study(bl, om, s, data, ts, cls=cls)
    fit(A, mode)
    ra = results(A, mode)

    import pathos.multiprocessing as pm
    old = pm.ProcessPool
    pm.ProcessPool = Pool
    try:
        B = mk_study(bl, om, s, data, ts, cls=cls)
        fit(B, mode, nJobs=jobs)
    finally:
        pm.ProcessPool = old
    rb = results(B, mode)
    for k in ra:
        eq('%s with %d (in-process) workers' % (k, jobs), rb[k], ra[k], 1e-9, 1e-13)


def c12_impossible(bl, rng, note):
    """data that is impossible under some combinations, possibly under all combinations of a process"""
    v = np.linspace(0., 1., 5)

    class M(bl.om.Gaussian.__mro__[1]):
        def __init__(self):
            self.name, self.segmentLength, self.parameterNames, self.parameterValues = 'windowed', 1, ['a'], [v]
            self.prior, self.multiplyLikelihoods = None, False

        def pdf(self, grid, seg):
            return np.where(np.abs(grid[0] - seg[0]) < 0.3, 0.7, 0.)
    T = int(rng.integers(4, 8))
    j = int(rng.integers(1, T))
    data = np.where(np.arange(T) < j, 0., 1.)
    mode = G.pick(rng, ['full', 'forward', 'evidence'])
    cls = G.pick(rng, ['ChangepointStudy', 'HyperStudy'])
    s = ('CP', 't', 'all') if cls == 'ChangepointStudy' else ('GRW', 'sigma', np.array([0., 0., 0.05, 0.6, 0.9][int(rng.integers(2)):]), 'a')
    jobs = int(rng.integers(2, 5))
    note(values=v, data=data, tm=s, mode=mode, nJobs=jobs, study=cls, model='likelihood 0.7 within 0.3 of the data, else 0', pool='in-process')

    def study(**kw):
        S = getattr(bl, cls)(silent=True)
        S.loadData(data, silent=True)
        S.set(M(), silent=True)
        S.set(bl.tm.ChangePoint('t', 'all') if s[0] == 'CP' else O.mk_tm(bl, s), silent=True)
        fit(S, mode, **kw)
        return results(S, mode)
    ra = study()
    if not np.isfinite(ra['logEvidence']):
        raise Skip('all impossible')
    import pathos.multiprocessing as pm
    old = pm.ProcessPool
    pm.ProcessPool = Pool
    try:
        rb = study(nJobs=jobs)
    finally:
        pm.ProcessPool = old
    for k in ra:
        if k != 'localEvidence':
            eq('%s with %d (in-process) workers' % (k, jobs), rb[k], ra[k], 1e-9, 1e-13)


# ---------------------------------------------------------------- C13
def c13_fit(bl, rng, note, T=None, npar=None, many=None):
    om, data, ts, s, cls = hyper_setting(rng, 'ChangepointStudy', T=T, npar=npar, many=many)
    mode = G.pick(rng, ['full', 'forward', 'evidence'])
    note(om=om, tm=s, data=data, ts=ts, mode=mode)
    comp = lambda d: hyper_fit(om, s, data, ts, cls, mode == 'full', d)
    S = mk_study(bl, om, s, data, ts, cls=cls)
    if rng.random() < 0.3:
        fit(S, 'evidence')
    fit(S, mode, silent=bool(rng.integers(2)))

    def cmp(H):
        cmp_hyper(S, H, mode, cls)
        eq('number of analyses', len(S.logEvidenceList), len(H.idx))
        eq('analysed combinations', S.hyperGridValues, np.array([H.combos[i] for i in H.idx]))
        eq('all combinations', S.allHyperGridValues, np.array(H.combos))
        w = np.where(H.mask, H.wfit, 0.)
        eq('renormalised hyper-prior', S.flatHyperPriorValues, w)
        eq('total of the hyper-prior', np.sum(S.flatHyperPriorValues), np.sum(H.w))
        require(np.all(arr(S.hyperParameterDistribution)[~H.mask] == 0), 'a non-increasing combination has non-zero probability')
    return match(s, comp, cmp)


def c13_many(bl, rng, note):
    """three and four points"""
    n = int(rng.integers(3, 5))
    return c13_fit(bl, rng, note, T=int(rng.integers(n + 1, n + 3)), npar=1, many=n)


def c13_duration(bl, rng, note):
    n = G.pick(rng, [2, 2, 2, 3])
    def tsf(rng, T, ts):
        # durations of non-integer timestamps differ by rounding errors
        return ts if rng.random() < 0.5 else np.arange(T) * G.pick(rng, [0.1, 0.7, 0.01]) + G.pick(rng, [0., 3., -0.3])
    om, data, ts, s, cls = hyper_setting(rng, 'ChangepointStudy', T=int(rng.integers(n + 2, n + 4)),
                                         npar=1, many=n, tsf=tsf)
    pts = [n for n, v, p in O.flat(s) if n.startswith('t')]
    while len(pts) > 2:
        del pts[int(rng.integers(len(pts)))]
    note(om=om, tm=s, data=data, ts=ts, names=pts)
    S = mk_study(bl, om, s, data, ts, cls=cls)
    fit(S, G.pick(rng, ['forward', 'evidence']))
    fts = G.tstamps(ts, len(data), O.seglen(om))
    H = hyper(om, s, fts)
    a, b = H.names.index(pts[0]), H.names.index(pts[1])
    d = {}
    dist = arr(S.hyperParameterDistribution).copy()
    for c, q, m in zip(H.combos, dist, H.mask):
        if m:
            x = round(float(c[b] - c[a]), 9)
            d[x] = d.get(x, 0.) + q
    tot = sum(d.values())
    want = sorted(d)
    for order in (pts, pts[::-1], tuple(pts)):
        du, pr = S.getDurationDistribution(order)
        eq('durations', du, want)
        eq('duration distribution', pr, [d[x] / tot for x in want])
    du, pr = S.getDD(pts)
    eq('getDD', pr, [d[x] / tot for x in want])
    same('hyper-parameter distribution after querying durations', S.hyperParameterDistribution, dist)


# ---------------------------------------------------------------- C21
def c21_grid(bl, rng, note):
    om, data, ts, s, cls = hyper_setting(rng, 'HyperStudy')
    note(om=om, tm=s, data=data, ts=ts)
    fts = G.tstamps(ts, len(data), O.seglen(om))
    H = hyper(om, s, fts)
    keep = copy.deepcopy([(n, v, None if callable(p) or hasattr(p, 'pspace') else p) for n, v, p in O.flat(s)])
    S = mk_study(bl, om, s, data, ts, cls=cls)
    if rng.random() < 0.4:
        # an earlier fit of other data must not leave anything behind
        d0 = G.rnd_data(rng, om, len(fts) + 2)
        S.loadData(d0, silent=True)
        S.fit(silent=True, evidenceOnly=True)
        S.loadData(data, timestamps=ts, silent=True)
    S.fit(silent=True, evidenceOnly=True)
    eq('hyper-grid', S.hyperGridValues, np.array(H.combos))
    require(list(S.flatHyperParameterNames) == H.names, 'hyper-parameter names %s, expected %s' % (S.flatHyperParameterNames, H.names))
    eq('hyper-grid constants', S.hyperGridConstant, H.const)
    eq('hyper-prior values', S.flatHyperPriorValues, H.w, 1e-6, 1e-14)
    now = [(n, v, None if callable(p) or hasattr(p, 'pspace') else p) for n, v, p in O.flat(s)]
    same("user's hyper-parameter values and priors", now, keep)


# ---------------------------------------------------------------- C18
def deep_tm(rng, om, fts):
    nm = G.Namer()
    s = G.rnd_tm(rng, om, fts, 3, nm, ['GRW', 'RS', 'CP', 'Static', 'Det', 'NE', 'GRW'])
    return s


def tree_values(obj):
    """the hyper-parameter values stored in the model objects, by name"""
    out = {}
    for m in getattr(obj, 'models', []):
        out.update(tree_values(m))
    for n, v in zip(getattr(obj, 'hyperParameterNames', []), getattr(obj, 'hyperParameterValues', [])):
        out[n] = copy.deepcopy(v)
    return out


def c18_address(bl, rng, note):
    om, data, ts = G.rnd_om(rng, npar=G.pick(rng, [1, 2])), None, None
    data = G.rnd_data(rng, om, 5)
    fts = G.tstamps(None, len(data), O.seglen(om))
    s = deep_tm(rng, om, fts)
    note(om=om, tm=s)
    S = mk_study(bl, om, s, data)
    T = S.transitionModel
    names = [n for n, v, p in O.flat(s)]
    vals = [v for n, v, p in O.flat(s)]
    require(list(S._unpackAllHyperParameters(values=False)) == names, 'names %s, expected %s' % (S._unpackAllHyperParameters(values=False), names))
    eq('values read', S._unpackAllHyperParameters(), vals, 0, 0)
    for n, v in zip(names, vals):
        eq('getHyperParameterValue(%s)' % n, S.getHyperParameterValue(n), v, 0, 0)
    before = tree_values(T)
    S._setAllHyperParameters(S._unpackAllHyperParameters())
    same('values after writing back what was read', tree_values(T), before)
    new = [100. + i for i in range(len(names))]
    keep = list(new)
    S._setAllHyperParameters(new)
    same('list given to the setter', new, keep)
    same('values after writing all', tree_values(T), dict(zip(names, keep)))
    eq('values read after writing all', S._unpackAllHyperParameters(), keep, 0, 0)
    if names:
        k = int(rng.integers(1, len(names) + 1))
        sel = [names[i] for i in rng.permutation(len(names))[:k]]
        S.selectedHyperParameters = list(sel)
        x = [500. + i for i in range(k)]
        eq('selected values', S._unpackSelectedHyperParameters(), [dict(zip(names, keep))[n] for n in sel], 0, 0)
        S._setSelectedHyperParameters(x)
        want = dict(zip(names, keep))
        want.update(dict(zip(sel, x)))
        same('values after writing selected %s' % sel, tree_values(T), want)
        eq('selected values after writing', S._unpackSelectedHyperParameters(), x, 0, 0)
        S.selectedHyperParameters = []
    raises('reading an unknown hyper-parameter', bl.exceptions.PostProcessingError if hasattr(bl, 'exceptions') else Exception, S.getHyperParameterValue, 'no such name')


def c18_restore(bl, rng, note):
    om, data, ts, s, cls = hyper_setting(rng)
    note(om=om, tm=s, data=data, ts=ts, study=cls)
    S = mk_study(bl, om, s, data, ts, cls=cls)
    before = tree_values(S.transitionModel)
    for mode in ('evidence', G.pick(rng, ['full', 'forward'])):
        fit(S, mode)
        now = tree_values(S.transitionModel)
        require(sorted(now) == sorted(before), 'hyper-parameter names changed')
        for n in before:
            same('value of %s after the fit' % n, now[n], before[n])


def c18_optimize(bl, rng, note):
    om = G.rnd_om(rng, kind=G.pick(rng, ['Gaussian', 'np1', 'Poisson']), irregular=False)
    data = G.rnd_data(rng, om, 6, nan=0)
    n0 = om['names'][0]
    lc = O.lattice(om['values'][0])
    s = ('Serial', [('Comb', [('GRW', 'sA', 0.6 * lc, n0), ('RS', 'lp', -4.)]), (G.pick(rng, ['BP', 'CP']), 'tb', 2), ('GRW', 'sB', 0.9 * lc, om['names'][-1])])
    if rng.integers(2):   # several points, also nested ones
        pt = lambda: G.pick(rng, ['BP', 'CP'])
        s = G.pick(rng, [('Serial', s[1] + [(pt(), 'tc', 4), ('Static',)]),
                         ('Comb', [('CP', 'tc', 1), s, ('CP', 'td', 3)]),
                         ('Serial', s[1] + [(pt(), 'tc', 3), ('Comb', [('Static',), ('CP', 'td', 5)]), (pt(), 'te', 4), ('Static',)])])
    sel = G.pick(rng, [[], [], ['sB'], ['sA', 'sB'], ['sB', 'sA'], 'sA'])
    note(om=om, tm=s, data=data, selected=sel)
    S = mk_study(bl, om, s, data)
    before = tree_values(S.transitionModel)
    fo = bool(rng.integers(2))
    S.optimize(sel, forwardOnly=fo, options=dict(maxiter=14), tol=1e-2, **{}) if sel else S.optimize(forwardOnly=fo, options=dict(maxiter=14))
    now = tree_values(S.transitionModel)
    target = [sel] if isinstance(sel, str) else (sel or ['sA', 'lp', 'sB'])
    for n in before:
        if n not in target:
            same('hyper-parameter %s, which is not selected,' % n, now[n], before[n])
    b = O.bind(s, {n: float(v) for n, v in now.items()})
    comp = lambda d: O.filt(om, b, data, None, not fo, d)

    def cmp(r):
        finite(r)
        eq('log-evidence after optimisation', S.logEvidence, r.logE)
        eq('posterior after optimisation', S.posteriorSequence, r.post)
    match(b, comp, cmp)
    S0 = mk_study(bl, om, s, data)
    fit(S0, 'evidence')
    require(S.logEvidence >= S0.logEvidence - 2e-2, 'optimisation ended with a smaller evidence (%r) than it started with (%r)' % (S.logEvidence, S0.logEvidence))
    require(not S.selectedHyperParameters, 'selection not cleared after optimisation')


C11 = [(c11_fit, 30), (c11_impossible, 15), (c11_single, 15)]
C12 = [(c12_parallel, 5), (c12_inprocess, 30), (c12_impossible, 10)]
C13 = [(c13_fit, 25), (c13_many, 3), (c13_duration, 15)]
C18 = [(c18_address, 60), (c18_restore, 20), (c18_optimize, 6)]
C21 = [(c21_grid, 50)]
