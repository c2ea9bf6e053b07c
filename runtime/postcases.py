"""C16 C17 C19: post-processing, query parser, save/load."""
import os
import shutil
import tempfile
import numpy as np
from . import oracle as O, gen as G, hypercases as HC, onlinecases as ON
from .fitcases import mk_study, fit, setting, finite, MODES
from .lib import Fail, Known, Skip, eq, same, require, raises, arr, quiet
from .onlinecases import marg

EXC = (Exception,)


# ---------------------------------------------------------------- C16
def c16_parameters(bl, rng, note):
    om, data, ts, fts = setting(rng)
    tm = G.rnd_tm(rng, om, fts, 1, None, ['GRW', 'Static', 'RS', 'CP'])
    note(om=om, tm=tm, data=data, ts=ts)
    r = O.filt(om, tm, data, ts, True)
    finite(r)
    if r.logE == -np.inf:
        raise Skip('')
    S = mk_study(bl, om, tm, data, ts)
    fit(S, G.pick(rng, ['full', 'forward']))
    P = np.array(S.posteriorSequence)
    env = O.Env(om)
    for _ in range(2):
        for i, n in enumerate(om['names']):
            for k, t in enumerate(fts):
                x, d = S.getParameterDistribution(t, n)
                eq('values of %s' % n, x, env.marg[i], 1e-12, 0)
                eq('density of %s at %s' % (n, t), d, marg(P[k], i) / env.lc[i])
                x, d = S.getPD(t, n, density=False)
                eq('probabilities of %s at %s' % (n, t), d, marg(P[k], i))
            x, d = S.getPD('avg', n)
            eq('time-averaged density of %s' % n, d, marg(P.mean(axis=0), i) / env.lc[i])
            x, d = S.getPD('avg', n, density=False)
            eq('time-averaged probabilities of %s' % n, d, marg(P.mean(axis=0), i))
            x, d = S.getParameterDistributions(n)
            eq('densities of %s, all steps' % n, d, [marg(p, i) / env.lc[i] for p in P])
            x, d = S.getPDs(n, density=False)
            eq('probabilities of %s, all steps' % n, d, [marg(p, i) for p in P])
            eq('values of %s' % n, x, env.marg[i], 1e-12, 0)
            eq('mean of %s' % n, S.getParameterMeanValues(n), [np.sum(p * env.grid[i]) for p in P])
            d *= 0.
            e = S.getPD(fts[0], n)[1]
            e *= 5.
        if rng.integers(2):
            import matplotlib.pyplot as plt
            S.getPD(fts[0], om['names'][0], plot=True)
            if len(fts) > 1:
                S.plot(om['names'][0])
                S.getPDs(om['names'][0], plot=True)
            plt.close('all')
    same('posterior sequence after querying', S.posteriorSequence, P)
    raises('unknown time', EXC, S.getParameterDistribution, fts[-1] + 13, om['names'][0])
    raises('unknown name', EXC, S.getParameterDistribution, fts[0], 'nonsense')
    raises('unknown name', EXC, S.getParameterDistributions, 'nonsense')
    raises('unknown name', EXC, S.getParameterMeanValues, 'nonsense')


def c16_simulate(bl, rng, note):
    om, data, ts, fts = setting(rng, kind=G.pick(rng, ['Poisson', 'Gaussian', 'Bernoulli', 'np2', 'scipy:norm', 'Laplace', 'WhiteNoise']))
    note(om=om, data=data, ts=ts)
    S = mk_study(bl, om, ('Static',), data, ts)
    fit(S, G.pick(rng, ['full', 'forward']))
    P = np.array(S.posteriorSequence)
    if not np.isfinite(S.logEvidence):
        raise Skip('')
    env = O.Env(om)
    x = np.array([G.rnd_point(rng, om['kind']) for _ in range(4)])
    for k in list(range(len(fts))) + [None]:
        post = P.mean(axis=0) if k is None else P[k]
        want = np.array([np.sum(O.lik(om, env.grid, [xi]) * post) for xi in x])
        kw = {} if k is None else dict(t=fts[k])
        eq('predictive density', S.simulate(x, density=True, **kw), want, 1e-6, 1e-12)
        eq('predictive probabilities', S.simulate(x, **kw), want / want.sum(), 1e-6, 1e-12)
    raises('unknown time', EXC, S.simulate, x, fts[-1] + 13)
    same('posterior sequence after simulating', S.posteriorSequence, P)


def c16_hyper(bl, rng, note):
    om, data, ts, s, cls = HC.hyper_setting(rng)
    note(om=om, tm=s, data=data, ts=ts, study=cls)
    S = mk_study(bl, om, s, data, ts, cls=cls)
    fit(S, 'evidence' if rng.integers(2) else 'forward')
    fts = G.tstamps(ts, len(data), O.seglen(om))
    H = HC.hyper(om, s, fts)
    D = arr(S.hyperParameterDistribution).copy()
    Q = (D * H.C).reshape([len(v) for v in H.vals])
    for _ in range(2):
        for h, n in enumerate(H.names):
            x, p = S.getHyperParameterDistribution(n)
            eq('values of %s' % n, np.atleast_1d(arr(x)), H.vals[h], 1e-12, 0)
            eq('distribution of %s' % n, np.atleast_1d(p), marg(Q, h))
            x, p = S.getHPD(n)
            p *= 0.
        for a in range(len(H.names)):
            for b in range(len(H.names)):
                if a == b or len(H.vals[a]) < 2 or len(H.vals[b]) < 2:
                    continue
                x, y, p = S.getJointHyperParameterDistribution([H.names[a], H.names[b]])
                w = Q.sum(axis=tuple(i for i in range(Q.ndim) if i not in (a, b)))
                if a > b:
                    w = w.T
                eq('joint distribution of %s, %s' % (H.names[a], H.names[b]), p, w)
                eq('first axis', x, H.vals[a], 1e-12, 0)
                eq('second axis', y, H.vals[b], 1e-12, 0)
                S.getJHPD((H.names[a], H.names[b]))
    same('hyper-parameter distribution after querying', S.hyperParameterDistribution, D)
    raises('unknown hyper-parameter', EXC, S.getHyperParameterDistribution, 'nonsense')
    raises('unknown hyper-parameter', EXC, S.getJointHyperParameterDistribution, ['nonsense', H.names[0]])


# ---------------------------------------------------------------- C17
class Var(object):
    """name at a time: ('p', study, time, index) or ('h', study, index)"""


def rnd_expr(rng, leaves, depth):
    """returns (text, function of a dict leaf -> value, leaves used)"""
    r = rng.random()
    if depth == 0 or r < 0.25:
        if rng.random() < 0.7 and leaves:
            l = G.pick(rng, leaves)
            return l, (lambda env, l=l: env[l])
        c = G.pick(rng, ['2', '0.5', '3.25', '1e-1', '1.5'])
        return c, (lambda env, c=float(c): c)
    op = G.pick(rng, ['+', '-', '*', '+', '-', '/'])
    a, fa = rnd_expr(rng, leaves, depth - 1)
    if op == '/':
        c = G.pick(rng, ['2', '0.5'])
        return '(%s)/%s' % (a, c), (lambda env, c=float(c): fa(env) / c)
    b, fb = rnd_expr(rng, leaves, depth - 1)
    f = {'+': lambda e: fa(e) + fb(e), '-': lambda e: fa(e) - fb(e), '*': lambda e: fa(e) * fb(e)}[op]
    if op == '*':
        return '(%s) * (%s)' % (a, b), f
    if op == '-':
        return '(%s) - (%s)' % (a, b), f
    return '(%s) + (%s)' % (a, b), f


REL = {'<': np.less, '>': np.greater, '<=': np.less_equal, '>=': np.greater_equal}


def study_case(bl, rng, names, ts=None, cls='Study'):
    vals = [np.linspace(-1 + rng.random(), 1 + rng.random(), int(rng.integers(2, 5))), np.linspace(0.5, 2 + rng.random(), int(rng.integers(2, 4)))][:len(names)]
    kind = 'Gaussian' if len(names) == 2 else 'np1'
    om = dict(kind=kind, names=list(names), values=vals, prior=('none',))
    data = rng.normal(size=3)
    tm = ('GRW', 'sg' + names[0], 0.3, names[0])
    if cls == 'HyperStudy':
        tm = ('Comb', [('GRW', 'sg' + names[0], [0.1, 0.4, 0.5], names[0]), ('RS', 'lp' + names[0], [-3., -2.])])
    if cls == 'ChangepointStudy':
        tm = ('Comb', [('CP', 'tA' + names[0], 'all'), ('CP', 'tB' + names[0], 'all')])
        data = rng.normal(size=4)
    S = mk_study(bl, om, tm, data, ts if ts is None or len(ts) == len(data) else None, cls=cls)
    fit(S, 'full')
    return om, S


def prob(blocks, f, rel, frhs):
    """independent blocks: each a dict (leaf->values array) with one probability vector"""
    import itertools
    tot = 0.
    for combo in itertools.product(*[range(len(p)) for d, p in blocks]):
        env = {}
        w = 1.
        for (d, p), i in zip(blocks, combo):
            w *= p[i]
            for l, v in d.items():
                env[l] = v[i]
        x, y = f(env), frhs(env)
        if abs(x - y) < 1e-9 * (1 + abs(x) + abs(y)):
            raise Skip('tie')
        if rel(x, y):
            tot += w
    return tot


def c17_queries(bl, rng, note):
    """random expressions over one or two studies, parameters at one or two times, hyper-parameters"""
    cls = G.pick(rng, ['Study', 'HyperStudy', 'ChangepointStudy', 'Study'])
    ts = None if rng.integers(2) else np.array([10, 11, 12])
    om, S = study_case(bl, rng, ['mu', 'sd'][:int(rng.integers(1, 3))], ts, cls)
    fts = list(S.formattedTimestamps)
    blocks_all = {}
    env = O.Env(om)
    for t in fts:
        k = fts.index(t)
        blocks_all[('p', t)] = ({'%s@%s' % (n, t): g.ravel() for n, g in zip(om['names'], env.grid)}, arr(S.posteriorSequence[k]).ravel())
    if cls != 'Study':
        hv = arr(S.allHyperGridValues if cls == 'ChangepointStudy' else S.hyperGridValues)
        hd = arr(S.hyperParameterDistribution)
        blocks_all['h'] = ({n: hv[:, i] for i, n in enumerate(S.flatHyperParameterNames)}, hd / hd.sum())
    two = rng.random() < 0.4
    args = [S]
    if two:
        om2, S2 = study_case(bl, rng, ['nu'], None if ts is not None else np.array([10, 11, 12]))
        args.append(S2)
        e2 = O.Env(om2)
        for t in list(S2.formattedTimestamps):
            k = list(S2.formattedTimestamps).index(t)
            blocks_all[('q', t)] = ({'nu@%s' % t: e2.grid[0]}, arr(S2.posteriorSequence[k]).ravel())
    par = bl.Parser(*args)
    for _ in range(6):
        keys = list(blocks_all)
        use = [keys[i] for i in rng.permutation(len(keys))[:int(rng.integers(1, 3))]]
        leaves = []
        for u in use:
            ls = list(blocks_all[u][0])
            leaves.append(G.pick(rng, ls))
            if len(ls) > 1 and rng.random() < 0.5:
                leaves.append(G.pick(rng, ls))
        # each block used in one contiguous sub-expression (see known finding on re-appearing quantities)
        texts, fs = [], []
        for u in use:
            ls = [l for l in blocks_all[u][0]]
            tx, fx = rnd_expr(rng, ls, 2)
            texts.append('(%s)' % tx)
            fs.append(fx)
        if not any(l in ''.join(texts) for u in use for l in blocks_all[u][0]):
            continue
        ops = [G.pick(rng, ['+', '-', '*']) for _ in use[1:]]
        txt, f = texts[0], fs[0]
        for o, tx, fx in zip(ops, texts[1:], fs[1:]):
            txt = '%s %s %s' % (txt, o, tx) if o != '*' else '(%s) * %s' % (txt, tx)
            f = (lambda e, f=f, fx=fx, o=o: {'+': f(e) + fx(e), '-': f(e) - fx(e), '*': f(e) * fx(e)}[o])
        rel = G.pick(rng, sorted(REL))
        c = round(float(rng.normal()), 3)
        q = '%s %s %s' % (txt, rel, abs(c))
        rhs = lambda e: abs(c)
        if rng.random() < 0.4:
            q = '%s %s %s' % (abs(c), {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[rel], txt)
        note(study=cls, query=q, two=two, om=om)
        want = prob([blocks_all[u] for u in use], f, REL[rel], rhs)
        with quiet():
            got = par(q, silent=True)
        eq('P(%s)' % q, got, want, 1e-6, 1e-9)
        if not two and not any(u == 'h' or u[0] == 'q' for u in use):
            with quiet():
                eq('Study.eval(%s)' % q, S.eval(q, silent=True), want, 1e-6, 1e-9)


def c17_fixed_time(bl, rng, note):
    """t given as keyword; studies with different time axes; parameter order; operator precedence"""
    om, S = study_case(bl, rng, ['mu', 'sd'], np.array([10, 11, 12]))
    om2, S2 = study_case(bl, rng, ['nu'], np.array([12, 10, 11]) if rng.integers(2) else np.array([11, 12, 13]))
    env, env2 = O.Env(om), O.Env(om2)
    t = G.pick(rng, [11, 12])
    P = bl.Parser(S, S2)
    k, k2 = list(S.formattedTimestamps).index(t), list(S2.formattedTimestamps).index(t)
    p, p2 = arr(S.posteriorSequence[k]), arr(S2.posteriorSequence[k2])
    mu, sd, nu = env.grid[0], env.grid[1], env2.grid[0]
    c = round(0.1 + float(rng.random()), 3)
    A = {'mu*2 + sd - %s > 0' % c: np.sum(p[mu * 2 + sd - c > 0]), 'sd/2 + mu*sd < %s' % c: np.sum(p[sd / 2 + mu * sd < c]),
         'mu - sd - %s >= 0' % c: np.sum(p[mu - sd - c >= 0]), '-mu + sd > %s' % c: np.sum(p[-mu + sd > c]),
         'mu^2 > %s' % c: np.sum(p[mu ** 2 > c]), '2*sd^2 - mu > %s' % c: np.sum(p[2 * sd ** 2 - mu > c]),
         'mu > sd': np.sum(p[mu > sd]), 'sd < %s*mu' % c: np.sum(p[sd < c * mu]), '%s < sd' % c: np.sum(p[c < sd]),
         'nu > %s' % c: np.sum(p2[nu > c]), 'nu*%s < 0.3' % c: np.sum(p2[nu * c < 0.3]),
         'mu - nu > %s' % c: sum(p.ravel()[i] * p2[j] for i in range(p.size) for j in range(p2.size) if mu.ravel()[i] - nu[j] > c),
         'nu + sd*mu <= %s' % c: sum(p.ravel()[i] * p2[j] for i in range(p.size) for j in range(p2.size) if nu[j] + (sd * mu).ravel()[i] <= c),
         'exp(mu) > %s' % c: np.sum(p[np.exp(mu) > c]), 'sqrt(sd) - mu > %s' % c: np.sum(p[np.sqrt(sd) - mu > c])}
    before = np.array(S.posteriorSequence)
    for q, w in A.items():
        note(query=q, t=t)
        with quiet():
            eq('P(%s) at t=%s' % (q, t), P(q, t=t, silent=bool(rng.integers(2))), w, 1e-6, 1e-9)
    t1 = 10
    p1 = arr(S.posteriorSequence[0])
    with quiet():
        eq('P(mu@%s > %s)' % (t1, c), P('mu@%s > %s' % (t1, c), silent=True), np.sum(p1[mu > c]))
        g = P('mu@10 > mu@12', silent=True)
    p3 = arr(S.posteriorSequence[2])
    a, b = marg(p1, 0), marg(p3, 0)
    v = env.marg[0]
    eq('P(mu@10 > mu@12)', g, sum(a[i] * b[j] for i in range(len(v)) for j in range(len(v)) if v[i] > v[j]))
    same('posterior sequence after queries', S.posteriorSequence, before)
    with quiet():
        eq('P(mu == first value)', P('mu == %r' % float(v[0]), t=t, silent=True), np.sum(p[mu - v[0] == 0]), 1e-6, 1e-9)


def c17_online(bl, rng, note):
    hist = bool(rng.integers(2))
    om = G.rnd_om(rng, kind='Gaussian', names=['mu', 'sd'], prior=('none',), irregular=False)
    tms = [('a', ('GRW', 's', [0.1, 0.3, 0.4], 'mu')), ('b', ('RS', 'lp', [-4., -2.]))]
    S = ON.mk_online(bl, om, tms, None, hist)
    for x in rng.normal(size=4):
        S.step(x)
    env = O.Env(om)
    c = round(float(rng.random()), 3)
    P = bl.Parser(S)
    note(om=om, history=hist, c=c)
    if hist:
        for t in range(4):
            p = arr(S.posteriorSequence[t])
            h = arr(S.hyperParameterSequence[t][0])
            h = h / h.sum()
            h2 = arr(S.hyperParameterSequence[t][1])
            h2 = h2 / h2.sum()
            with quiet():
                eq('P(mu > c) at %d' % t, P('mu > %s' % c, t=t, silent=True), np.sum(p[env.grid[0] > c]))
                eq('P(mu@t + sd@t > c)', P('mu@%d + sd@%d > %s' % (t, t, c), silent=True), np.sum(p[env.grid[0] + env.grid[1] > c]))
                eq('P(s@t > 0.2)', P('s@%d > 0.2' % t, silent=True), np.sum(h[arr([0.1, 0.3, 0.4]) > 0.2]))
                eq('P(s > 0.2) at t', P('s > 0.2', t=t, silent=True), np.sum(h[arr([0.1, 0.3, 0.4]) > 0.2]))
                eq('P(lp > -3) at t', P('lp > -3', t=t, silent=True), h2[1])
    else:
        p = arr(S.marginalizedPosterior)
        h = arr(S.hyperParameterDistribution[0])
        h = h / h.sum()
        with quiet():
            eq('P(mu > c)', P('mu > %s' % c, silent=True), np.sum(p[env.grid[0] > c]))
            eq('P(s > 0.2)', P('s > 0.2', silent=True), np.sum(h[arr([0.1, 0.3, 0.4]) > 0.2]))


# ---------------------------------------------------------------- C19
def snapshot(S, om):
    o = {}
    for a in ('rawData', 'rawTimestamps', 'formattedData', 'formattedTimestamps', 'posteriorSequence', 'posteriorMeanValues', 'logEvidence',
              'localEvidence', 'hyperParameterDistribution', 'hyperGridValues', 'flatHyperPriorValues', 'logEvidenceList', 'marginalizedPosterior',
              'transitionModelDistribution', 'transitionModelSequence', 'latticeConstant', 'gridSize', 'marginalGrid', 'grid', 'mask', 'allHyperGridValues',
              'localTransitionModelDistribution', 'hyperParameterSequence', 'parameterPosterior', 'hyperLogEvidenceList', 'tmCounts'):
        if hasattr(S, a):
            v = getattr(S, a)
            if v is not None:
                o[a] = [np.array(x) for x in v] if isinstance(v, list) and len(v) and not np.isscalar(v[0]) and a in (
                    'parameterPosterior', 'marginalGrid', 'grid', 'logEvidenceList', 'hyperParameterDistribution') else \
                    (np.array(v) if not isinstance(v, list) or a != 'hyperParameterSequence' else [[np.array(y) for y in x] for x in v])
    return o


def deep_eq(what, a, b, rtol=1e-9):
    if isinstance(a, list):
        require(isinstance(b, list) and len(a) == len(b), '%s: different length' % what)
        for x, y in zip(a, b):
            deep_eq(what, x, y, rtol)
    else:
        eq(what, b, a, rtol, 1e-13)


def c19_offline(bl, rng, note):
    cls = G.pick(rng, ['Study', 'HyperStudy', 'ChangepointStudy'])
    if cls == 'Study':
        om, data, ts, fts = setting(rng)
        s = G.rnd_tm(rng, om, fts)
        r = O.filt(om, s, data, ts, True)
        finite(r)
        if r.logE == -np.inf:
            raise Skip('')
    else:
        om, data, ts, s, cls = HC.hyper_setting(rng, cls)
    note(om=om, tm=s, data=data, ts=ts, study=cls)
    S = mk_study(bl, om, s, data, ts, cls=cls)
    fitted = rng.random() < 0.8
    if fitted:
        fit(S, G.pick(rng, ['full', 'forward', 'evidence']))
    before = snapshot(S, om)
    d = tempfile.mkdtemp(prefix='vbl')
    try:
        f = os.path.join(d, 'study.bl')
        bl.save(f, S)
        deep = snapshot(S, om)
        L = bl.load(f)
    finally:
        shutil.rmtree(d)
    for k in before:
        deep_eq('%s of the study after saving' % k, before[k], deep[k], 0)
    after = snapshot(L, om)
    require(sorted(after) == sorted(before), 'attributes of the loaded study differ')
    for k in before:
        deep_eq('%s of the loaded study' % k, before[k], after[k], 0)
    require(type(L).__name__ == cls, 'loaded study has type %s' % type(L).__name__)
    require(str(L.observationModel) == str(S.observationModel) and str(L.transitionModel) == str(S.transitionModel), 'models differ')
    require(L.transitionModel.study is L or not hasattr(S.transitionModel, 'study') or S.transitionModel.study is not S, 'transition model of the loaded study is attached to another study')
    if fitted and len(S.posteriorSequence):
        n = om['names'][0]
        eq('distribution from the loaded study', L.getPD(S.formattedTimestamps[0], n)[1], S.getPD(S.formattedTimestamps[0], n)[1])
    mode = G.pick(rng, ['full', 'forward', 'evidence'])
    if rng.integers(2):
        data2 = G.rnd_data(rng, om, len(data) - O.seglen(om) + 1)
        for X in (S, L):
            X.loadData(data2, timestamps=ts, silent=True)
    fit(S, mode)
    fit(L, mode)
    a, b = snapshot(S, om), snapshot(L, om)
    for k in a:
        deep_eq('%s of a further fit on the loaded study' % k, a[k], b[k])


def c19_online(bl, rng, note):
    om, data, tms, tmp = ON.online_setting(rng)
    hist = bool(rng.integers(2))
    note(om=om, tms=tms, data=data, history=hist)
    S = ON.mk_online(bl, om, tms, tmp, hist)
    cut = int(rng.integers(0, len(data)))
    for x in data[:cut]:
        S.step(x)
    d = tempfile.mkdtemp(prefix='vbl')
    try:
        f = os.path.join(d, 's.bl')
        bl.save(f, S)
        L = bl.load(f)
    finally:
        shutil.rmtree(d)
    a, b = snapshot(S, om), snapshot(L, om)
    for k in a:
        deep_eq('%s of the loaded online study' % k, a[k], b[k], 0)
    for x in data[cut:]:
        S.step(x)
        L.step(x)
        a, b = snapshot(S, om), snapshot(L, om)
        require(sorted(a) == sorted(b), 'attributes differ')
        for k in a:
            deep_eq('%s after a further step of the loaded study' % k, a[k], b[k])


C16 = [(c16_parameters, 30), (c16_simulate, 25), (c16_hyper, 25)]
C17 = [(c17_queries, 25), (c17_fixed_time, 12), (c17_online, 8)]
C19 = [(c19_offline, 30), (c19_online, 25)]
