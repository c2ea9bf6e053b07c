"""C14 C15: online studies."""
import numpy as np
from . import oracle as O, gen as G
from . import hypercases as HC
from .fitcases import match, MODES, mk_study
from .lib import Fail, Skip, eq, same, require, raises, arr


def online_setting(rng, cp=True):
    om = G.rnd_om(rng, npar=G.pick(rng, [1, 1, 2]))
    if om['kind'] == 'GaussianMean':
        om = G.rnd_om(rng, kind='np1')
    T = int(rng.integers(2, 7))
    data = list(G.rnd_data(rng, om, T, dim=0))
    fts = G.tstamps(None, len(data), O.seglen(om))
    nm = G.Namer()
    kinds = ['GRW', 'GRW', 'RS', 'Static', 'ASRW', 'Det', 'Ind'] + (['CP'] if cp else [])
    tms = []
    for i in range(int(rng.integers(1, 4))):
        if rng.random() < 0.6:
            s = G.rnd_elem(rng, om, fts, nm, kinds)
        else:
            s = ('Comb', [G.rnd_elem(rng, om, fts, nm, kinds) for _ in range(2)])
        s = HC.with_grid(rng, s, fts, 4)
        tms.append(('tm%d' % i, HC.with_priors(rng, s)))
    tmp = None
    if rng.random() < 0.4:
        tmp = 0.2 + rng.random(len(tms))
        if rng.integers(2):
            tmp = tmp / tmp.sum()
    for n, s in tms:
        H = HC.hyper(om, s, fts)
        for c in H.combos:
            r = O.filt(om, O.bind(s, dict(zip(H.names, c))), data, None, False)
            if not np.isfinite(r.logE) or not np.all(np.isfinite(r.post)):
                return online_setting(rng, cp)
    return om, data, tms, tmp


def mk_online(bl, om, tms, tmp, hist, single=False):
    S = bl.OnlineStudy(storeHistory=hist, silent=True)
    S.set(O.mk_om(bl, om), silent=True)
    if single:
        S.set(O.mk_tm(bl, tms[0][1]), silent=True)
    else:
        for n, s in tms:
            G_ = (S.add, S.addTM, S.addTransitionModel)
            S.addTransitionModel(n, O.mk_tm(bl, s))
    if tmp is not None:
        S.setTransitionModelPrior(list(tmp) if isinstance(tmp, np.ndarray) and len(tmp) % 2 else tmp, silent=True)
    return S


def lse(x):
    x = arr(x)
    m = x.max()
    return m + np.log(np.sum(np.exp(x - m)))


def online(om, tms, tmp, data, dev, k1, k2):
    """state after all of data. k1/k2: the listed findings (transition model prior ignored in the
    model distribution; evidence of a model misses the hyper-grid constant)"""
    R = {}
    n = len(tms)
    pri = np.ones(n) / n if tmp is None else arr(tmp) / np.sum(tmp)
    R['logE'], R['post'], R['hpd'], R['tmpost'], mle = [], [], [], [], []
    fts = G.tstamps(None, len(data), O.seglen(om))
    for name, s in tms:
        H = HC.hyper(om, s, fts)
        fits = [O.filt(om, O.bind(s, dict(zip(H.names, c))), data, None, False, dev) for c in H.combos]
        le = np.array([f.logE for f in fits])
        lw = le + np.log(H.w)
        q = np.exp(lw - lw.max())
        q /= q.sum()
        R['logE'].append(le)
        R['post'].append([f.post[-1] for f in fits])
        R['hpd'].append(q / H.C)
        R['tmpost'].append(sum(w * f.post[-1] for w, f in zip(q, fits)))
        mle.append(lse(lw) + (0. if k2 else np.log(H.C)))
    mle = np.array(mle)
    R['mle'] = mle
    lt = mle + (0. if k1 else np.log(pri))
    t = np.exp(lt - lt.max())
    R['tmd'] = t / t.sum()
    R['marg'] = sum(w * p for w, p in zip(R['tmd'], R['tmpost']))
    R['total'] = lse(mle + np.log(pri))
    return R


def variants(tms, tmp):
    ds = O.devs([s for n, s in tms])
    out = [(d, False, False) for d in ds]
    out += [(d, True, False) for d in ds] + [(d, False, True) for d in ds] + [(d, True, True) for d in ds]
    return out


def vmatch(tms, tmp, compute, compare):
    first = None
    for d, k1, k2 in variants(tms, tmp):
        try:
            compare(compute(d, k1, k2))
            return d + (('tm_prior',) if k1 else ()) + (('hyper_const',) if k2 else ())
        except Fail as e:
            first = first or e
    raise first


def c14_step(bl, rng, note):
    om, data, tms, tmp = online_setting(rng)
    hist = bool(rng.integers(2))
    single = len(tms) == 1 and tmp is None and bool(rng.integers(2))
    note(om=om, tms=tms, tmPrior=tmp, data=data, storeHistory=hist, single=single)
    S = mk_online(bl, om, tms, tmp, hist, single)
    seg = O.seglen(om)
    last = ()
    for k, x in enumerate(data):
        S.step(x)
        if k + 1 < seg:
            require(S.transitionModelDistribution is None or not len(S.formattedTimestamps), 'analysis started before enough data was collected')
            continue

        def cmp(R):
            for i in range(len(tms)):
                eq('evidences of model %d after step %d' % (i, k), S.logEvidenceList[i], R['logE'][i])
                eq('posteriors of model %d after step %d' % (i, k), S.parameterPosterior[i], R['post'][i])
                eq('hyper-parameter distribution of model %d after step %d' % (i, k), S.hyperParameterDistribution[i], R['hpd'][i])
                eq('posterior of model %d after step %d' % (i, k), S.transitionModelPosterior[i], R['tmpost'][i])
            eq('transition model distribution after step %d' % k, S.transitionModelDistribution, R['tmd'])
            eq('posterior after step %d' % k, S.marginalizedPosterior, R['marg'])
            eq('log-evidence after step %d' % k, S.logEvidence, R['total'])
        last = vmatch(tms, tmp, lambda d, a, b: online(om, tms, tmp, data[:k + 1], d, a, b), cmp)
    eq('times', S.formattedTimestamps, list(range(seg - 1, len(data))), 0, 0)
    return last


def c14_local(bl, rng, note):
    """the local model distribution weighs each model by its predictive probability for the newest data point"""
    om, data, tms, tmp = online_setting(rng, cp=False)
    note(om=om, tms=tms, tmPrior=tmp, data=data)
    S = mk_online(bl, om, tms, tmp, False)
    seg = O.seglen(om)
    n = len(tms)
    pri = np.ones(n) / n if tmp is None else arr(tmp) / np.sum(tmp)
    prev = None
    for k, x in enumerate(data):
        S.step(x)
        if k + 1 < seg:
            continue
        R = online(om, tms, tmp, data[:k + 1], (), False, False)
        if prev is not None:
            l = R['mle'] - prev + np.log(pri)
            l = np.exp(l - l.max())
            eq('local transition model distribution after step %d' % k, S.localTransitionModelDistribution, l / l.sum())
        prev = R['mle']


def c14_offline(bl, rng, note):
    """against the real offline forward-only fit"""
    om, data, tms, tmp = online_setting(rng)
    tms = [(n, O.bind(s, {h: float(np.atleast_1d(v)[-1]) for h, v, p in O.flat(s)})) for n, s in tms]
    tms = [(n, strip(s)) for n, s in tms]
    note(om=om, tms=tms, data=data)
    S = mk_online(bl, om, tms, None, False)
    for x in data:
        S.step(x)
    for i, (n, s) in enumerate(tms):
        A = mk_study(bl, om, s, np.array(data))
        A.fit(silent=True, forwardOnly=True)
        eq('online evidence of %s against the offline fit' % n, S.logEvidenceList[i], [A.logEvidence])
        eq('online posterior of %s against the offline fit' % n, S.parameterPosterior[i][0], A.posteriorSequence[-1])


def strip(s):
    b = list(O.base(s))
    if b[0] in ('Comb', 'Serial'):
        b[1] = [strip(m) for m in b[1]]
    return tuple(b)


# ---------------------------------------------------------------- C15
def marg(p, i):
    return arr(p).sum(axis=tuple(a for a in range(np.ndim(p)) if a != i))


def c15_history(bl, rng, note):
    om, data, tms, tmp = online_setting(rng)
    note(om=om, tms=tms, tmPrior=tmp, data=data)
    S = mk_online(bl, om, tms, tmp, True)
    env = O.Env(om)
    seg = O.seglen(om)
    log = []
    fts = G.tstamps(None, len(data), seg)
    Hs = [HC.hyper(om, s, fts) for n, s in tms]
    query_mid = bool(rng.integers(2))
    for k, x in enumerate(data):
        S.step(x)
        if k + 1 < seg:
            continue
        log.append(dict(post=np.array(S.marginalizedPosterior), tmd=np.array(S.transitionModelDistribution),
                        loc=np.array(S.localTransitionModelDistribution), hpd=[np.array(h) for h in S.hyperParameterDistribution],
                        t=k))
        if query_mid or k == len(data) - 1:
            check_getters(bl, S, om, env, tms, Hs, log, rng)
        # querying must not have altered anything
        eq('current posterior after querying', S.marginalizedPosterior, log[-1]['post'], 0, 0)
    S2 = mk_online(bl, om, tms, tmp, True)
    for x in data:
        S2.step(x)
    eq('evidence of the queried study against one never queried', S.logEvidence, S2.logEvidence, 1e-12, 1e-12)
    eq('posteriors of the queried study against one never queried', np.array(S.posteriorSequence), np.array(S2.posteriorSequence), 1e-12, 1e-14)


def check_getters(bl, S, om, env, tms, Hs, log, rng):
    PP = (Exception,)
    names = [n for n, s in tms]
    for e in log:
        t = e['t']
        for i, n in enumerate(om['names']):
            m = marg(e['post'], i)
            x, p = S.getParameterDistribution(t, n)
            eq('values of %s' % n, x, env.marg[i], 0, 0)
            eq('density of %s at time %s' % (n, t), p, m / env.lc[i])
            eq('getPD(density=False)', S.getPD(t, n, density=False)[1], m)
            eq('mean of %s at time %s' % (n, t), S.getParameterMeanValue(t, n), np.sum(e['post'] * env.grid[i]))
        for j, H in enumerate(Hs):
            C = H.C
            P = e['hpd'][j] * C
            for h, hn in enumerate(H.names):
                if len(H.combos) < 2:
                    continue
                M = marg(P.reshape([len(v) for v in H.vals]), h)
                x, p = S.getHyperParameterDistribution(t, hn)
                eq('distribution of %s at time %s' % (hn, t), np.atleast_1d(p), M)
                eq('values of %s' % hn, np.atleast_1d(arr(x)), H.vals[h], 1e-12, 0)
                eq('mean of %s at time %s' % (hn, t), S.getHyperParameterMeanValue(t, hn), np.sum(M * H.vals[h]))
    # all steps, chronological
    for i, n in enumerate(om['names']):
        x, p = S.getParameterDistributions(n)
        eq('densities of %s for all steps' % n, p, [marg(e['post'], i) / env.lc[i] for e in log])
        x, p = S.getPDs(n, density=False)
        eq('probabilities of %s for all steps' % n, p, [marg(e['post'], i) for e in log])
        eq('mean values of %s' % n, S.getParameterMeanValues(n), [np.sum(e['post'] * env.grid[i]) for e in log])
        x, p = S.getParameterDistribution('avg', n)
        eq('time-averaged density of %s' % n, p, marg(sum(e['post'] for e in log) / len(log), i) / env.lc[i])
    nm, d = S.getTransitionModelDistributions()
    require([str(a) for a in nm] == names, 'transition model names %s' % nm)
    eq('transition model distributions', d, [e['tmd'] for e in log])
    eq('local transition model distributions', S.getTransitionModelDistributions(local=True)[1], [e['loc'] for e in log])
    for j, n in enumerate(names):
        eq('probabilities of %s' % n, S.getTransitionModelProbabilities(n), [e['tmd'][j] for e in log])
        eq('local probabilities of %s' % n, S.getTMPs(n, local=True), [e['loc'][j] for e in log])
        eq('current probability of %s' % n, S.getCTMP(n), log[-1]['tmd'][j])
        eq('current local probability of %s' % n, S.getCurrentTransitionModelProbability(n, local=True), log[-1]['loc'][j])
    eq('current transition model distribution', S.getCTMD()[1], log[-1]['tmd'])
    eq('current local transition model distribution', S.getCurrentTransitionModelDistribution(local=True)[1], log[-1]['loc'])
    for j, H in enumerate(Hs):
        if len(H.combos) < 2:
            continue
        for h, hn in enumerate(H.names):
            M = [marg((e['hpd'][j] * H.C).reshape([len(v) for v in H.vals]), h) for e in log]
            x, p = S.getHyperParameterDistributions(hn)
            o = np.argsort(H.vals[h], kind='stable')
            eq('distributions of %s for all steps' % hn, p, np.array(M)[:, o])
            eq('values of %s' % hn, x, H.vals[h][o], 1e-12, 0)
            eq('mean values of %s' % hn, S.getHyperParameterMeanValues(hn), [np.sum(m * H.vals[h]) for m in M])
            x, p = S.getCurrentHyperParameterDistribution(hn)
            eq('current distribution of %s' % hn, np.atleast_1d(p), M[-1])
            eq('time-averaged distribution of %s' % hn, np.atleast_1d(S.getHPD('avg', hn)[1]), np.mean(M, axis=0))
    for i, n in enumerate(om['names']):
        x, p = S.getCurrentParameterDistribution(n)
        eq('current density of %s' % n, p, marg(log[-1]['post'], i) / env.lc[i])
        eq('current probabilities of %s' % n, S.getCPD(n, density=False)[1], marg(log[-1]['post'], i))
        eq('current mean of %s' % n, S.getCurrentParameterMeanValue(n), np.sum(log[-1]['post'] * env.grid[i]))
    # hand out only copies: scribbling on returned arrays must not change the study
    for f in (lambda: S.getCTMD()[1], lambda: S.getPD(log[0]['t'], om['names'][0])[1], lambda: S.getCPD(om['names'][0])[1],
              lambda: S.getPDs(om['names'][0])[1], lambda: S.getTransitionModelDistributions()[1]):
        a = f()
        b = np.array(a)
        a *= 3.
        eq('value returned again after the caller modified the first result', f(), b, 0, 0)
    raises('unknown parameter', PP, S.getParameterDistribution, log[0]['t'], 'no such parameter')
    raises('unknown time', PP, S.getParameterDistribution, -99, om['names'][0])
    raises('unknown time', PP, S.getParameterMeanValue, -99, om['names'][0])


def c15_plots(bl, rng, note):
    """plotting calls are queries too"""
    import matplotlib.pyplot as plt
    om, data, tms, tmp = online_setting(rng)
    note(om=om, tms=tms, tmPrior=tmp, data=data)
    A, B = mk_online(bl, om, tms, tmp, True), mk_online(bl, om, tms, tmp, True)
    for k, x in enumerate(data):
        A.step(x)
        B.step(x)
        if A.transitionModelDistribution is None:
            continue
        n = om['names'][0]
        A.plot(n)
        A.plot(n, t=A.formattedTimestamps[-1])
        for m, s in tms:
            A.plot(m)
            for h, v, p in O.flat(s):
                if np.size(v) > 1:
                    A.plot(h)
                    A.plot(h, t=A.formattedTimestamps[0])
        plt.close('all')
    eq('log-evidence with and without plotting', A.logEvidence, B.logEvidence, 1e-12, 0)
    eq('posteriors with and without plotting', np.array(A.posteriorSequence), np.array(B.posteriorSequence), 1e-12, 1e-15)
    eq('mean values with and without plotting', np.array(A.posteriorMeanValues), np.array(B.posteriorMeanValues), 1e-12, 1e-15)
    eq('model distributions with and without plotting', np.array(A.transitionModelSequence), np.array(B.transitionModelSequence), 1e-12, 1e-15)
    for i in range(len(tms)):
        eq('hyper-parameter distributions with and without plotting', [x[i] for x in A.hyperParameterSequence], [x[i] for x in B.hyperParameterSequence], 1e-12, 1e-15)
    eq('time', A.formattedTimestamps, B.formattedTimestamps, 0, 0)


C14 = [(c14_step, 40), (c14_local, 15), (c14_offline, 15)]
C15 = [(c15_history, 30), (c15_plots, 5)]
