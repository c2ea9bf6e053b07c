"""C05 C06 C08 C09 C10 C20: observation models, transition models, parameter grids."""
import copy
import numpy as np
from . import oracle as O, gen as G
from .fitcases import mk_study, fit, MODES
from .lib import Fail, Skip, eq, same, require, raises, arr, quiet

EXC = (Exception,)


# ---------------------------------------------------------------- C05
BUILTIN = ['Bernoulli', 'Poisson', 'Gaussian', 'Laplace', 'GaussianMean', 'WhiteNoise', 'AR1', 'ScaledAR1']


def c05_pdf(bl, rng, note):
    kind = G.pick(rng, BUILTIN)
    om = G.rnd_om(rng, kind=kind, prior=('none',))
    scale = G.pick(rng, [1., 1., 0.01, 40.])
    if kind == 'Bernoulli':
        om['values'] = [np.linspace(G.pick(rng, [0., 0.1]), G.pick(rng, [1., 0.9]), int(rng.integers(2, 9)))]
    elif kind == 'Poisson':
        om['values'] = [om['values'][0] * G.pick(rng, [1., 1., 10., 30.])]
    elif kind in ('AR1', 'ScaledAR1'):
        om['values'][1] = om['values'][1] * scale
    else:
        om['values'] = [v * scale for v in om['values']]
    env = O.Env(om)
    x = [G.rnd_point(rng, kind) for _ in range(O.seglen(om))]
    if kind == 'GaussianMean':
        d = np.array([[rng.normal() * scale, (0.2 + rng.random()) * scale]])
    else:
        d = np.array(x)
        if kind == 'Poisson' and rng.integers(2):
            d = np.array([float(rng.integers(0, 60))])
        if kind not in ('Bernoulli', 'Poisson'):
            d = d * scale
        if rng.random() < 0.15 and kind not in ('Bernoulli', 'Poisson'):
            d = d * 0.
        if kind in ('Bernoulli', 'Poisson') and rng.integers(2):
            d = d.astype(int)
    note(om=om, segment=d)
    M = O.mk_om(bl, om)
    keep, gk = d.copy(), [g.copy() for g in env.grid]
    for _ in range(2):
        eq('%s likelihood' % kind, M.pdf(env.grid, d), O.lik(om, env.grid, d), 1e-8, 1e-300)
        eq('%s likelihood (processed)' % kind, M.processedPdf(env.grid, d), O.lik(om, env.grid, d), 1e-8, 1e-300)
    same('data', d, keep)
    same('parameter grid', env.grid, gk)


def c05_scipy(bl, rng, note):
    """against scipy.stats, which is a second independent statement of the textbook densities"""
    import scipy.stats as st
    kind = G.pick(rng, BUILTIN)
    om = G.rnd_om(rng, kind=kind, prior=('none',))
    g = O.Env(om).grid
    d = np.array([G.rnd_point(rng, kind) for _ in range(O.seglen(om))])
    if kind == 'GaussianMean':
        d = np.array([[rng.normal(), 0.2 + rng.random()]])
    note(om=om, segment=d)
    want = {'Bernoulli': lambda: st.bernoulli.pmf(d[0], g[0]), 'Poisson': lambda: st.poisson.pmf(d[0], g[0]),
            'Gaussian': lambda: st.norm.pdf(d[0], g[0], g[1]), 'Laplace': lambda: st.laplace.pdf(d[0], g[0], g[1]),
            'GaussianMean': lambda: st.norm.pdf(d[0, 0], g[0], d[0, 1]), 'WhiteNoise': lambda: st.norm.pdf(d[0], 0, g[0]),
            'AR1': lambda: st.norm.pdf(d[1], g[0] * d[0], g[1]),
            'ScaledAR1': lambda: st.norm.pdf(d[1], g[0] * d[0], g[1] * np.sqrt(1 - g[0] ** 2))}[kind]()
    eq('%s likelihood against scipy.stats' % kind, O.mk_om(bl, om).pdf(g, d), want, 1e-8, 1e-300)


# ---------------------------------------------------------------- C06
def c06_numpy(bl, rng, note):
    n = int(rng.integers(1, 5))
    par = ['q%d' % i for i in range(n)]
    co = rng.normal(size=n)
    ns = {'co': co, 'np': np}
    exec('def dens(data, %s):\n    return np.exp(-0.1*(data%s)**2)' % (', '.join(par), ''.join('+co[%d]*%s' % (i, p) for i, p in enumerate(par))), ns)
    vals = [np.sort(rng.normal(size=int(rng.integers(2, 5)))) for _ in par]
    user = ['u%d' % i for i in rng.permutation(n)]
    args = [x for p in zip(user, vals) for x in p]
    note(values=vals, names=user)
    M = bl.om.NumPy(ns['dens'], *args)
    S = bl.Study(silent=True)
    d = rng.normal(size=3)
    S.loadData(d, silent=True)
    S.set(M, silent=True)
    grid = np.meshgrid(*vals, indexing='ij')
    for x in d:
        want = np.exp(-0.1 * (x + sum(c * g for c, g in zip(co, grid))) ** 2)
        eq('likelihood of a Python function', M.pdf(S.grid, np.array([x])), want, 1e-8, 1e-300)
    require(list(M.parameterNames) == user, 'parameter names')
    raises('wrong number of parameters', EXC, bl.om.NumPy, ns['dens'], *args[2:])


SCIPY = {'norm': dict(loc=(-1., 1.), scale=(0.5, 2.)), 'gamma': dict(a=(0.5, 3.), loc=(-3., -2.), scale=(0.5, 2.)),
         'beta': dict(a=(0.5, 3.), b=(0.7, 2.), loc=(-3., -2.), scale=(6., 8.)), 't': dict(df=(1., 9.), loc=(-1., 1.), scale=(0.5, 2.)),
         'poisson': dict(mu=(0.5, 4.), loc=(-2., 0.)), 'nbinom': dict(n=(1., 5.), p=(0.2, 0.8), loc=(-1., 0.)),
         'expon': dict(loc=(-3., -2.), scale=(0.5, 2.)), 'geom': dict(p=(0.2, 0.8), loc=(-1., 0.)), 'weibull_min': dict(c=(0.6, 2.), loc=(-4., -3.), scale=(0.5, 2.))}


def c06_scipy(bl, rng, note):
    import scipy.stats as st
    dist = G.pick(rng, sorted(SCIPY))
    spec = SCIPY[dist]
    disc = dist in ('poisson', 'nbinom', 'geom')
    names = sorted(spec)
    perm = [names[i] for i in rng.permutation(len(names))]
    k = int(rng.integers(1, len(perm) + 1))
    free, fixed = perm[:k][:4], perm[k:]

    def val(n, m):
        lo, hi = spec[n]
        v = np.linspace(lo, hi, m)
        return np.round(v) if disc and n in ('loc', 'n') else v
    if len(free) > 3:
        fixed, free = fixed + free[3:], free[:3]
    vals = [val(n, int(rng.integers(2, 5))) for n in free]
    fx = {n: float(val(n, 3)[1]) for n in fixed}
    drop = bool(rng.integers(2))
    if drop:    # loc/scale may simply be omitted
        for n, dflt in (('loc', 0.), ('scale', 1.)):
            fx.pop(n, None)
    args = [x for p in zip(free, vals) for x in p]
    usedict = rng.random() < 0.15
    x = float(rng.integers(0, 4)) if disc else float(rng.normal())
    note(dist=dist, free=free, values=vals, fixed=fx, x=x, dict=usedict)
    keep = dict(fx)
    rv = getattr(st, dist)
    kw = dict(fixedParameters=fx) if fx or rng.integers(2) else {}
    M = bl.om.SciPy(rv, dict(zip(free, vals)), **kw) if usedict else bl.om.SciPy(rv, *args, **kw)
    S = bl.Study(silent=True)
    S.loadData(np.array([x]), silent=True)
    S.set(M, silent=True)
    pars = dict(zip(free, np.meshgrid(*vals, indexing='ij')))
    pars.update(fx)
    want = (rv.pmf if disc else rv.pdf)(x, **pars)
    for _ in range(2):
        eq('likelihood of scipy.stats.%s' % dist, M.pdf(S.grid, np.array([x])), want, 1e-8, 1e-300)
    same('fixed parameters', sorted(fx.items()), sorted(keep.items()))
    raises('unknown parameter name', EXC, bl.om.SciPy, rv, 'nonsense', np.linspace(0, 1, 3))


def c06_sympy(bl, rng, note):
    import sympy.stats as st
    from sympy import Symbol
    kind = G.pick(rng, ['Normal', 'Gamma', 'Laplace', 'Beta', 'Poisson', 'VonMises'])
    a, b = Symbol('zeta', real=True, positive=(kind not in ('Normal', 'Laplace', 'VonMises')) or None), Symbol('alpha', positive=True)
    import scipy.stats as ss
    from scipy.special import iv
    x = float(0.1 + 0.8 * rng.random())
    if kind == 'Normal':
        rv, f = st.Normal('rv', a, b), lambda A, B: ss.norm.pdf(x, A, B)
    elif kind == 'Gamma':
        rv, f = st.Gamma('rv', a, b), lambda A, B: ss.gamma.pdf(x, A, scale=B)
    elif kind == 'Laplace':
        rv, f = st.Laplace('rv', a, b), lambda A, B: ss.laplace.pdf(x, A, B)
    elif kind == 'Beta':
        raise Skip('')
    elif kind == 'VonMises':
        rv, f = st.VonMises('rv', a, b), lambda A, B: np.exp(B * np.cos(x - A)) / (2 * np.pi * iv(0, B))
    else:
        x = float(rng.integers(0, 5))
        rv, f = st.Poisson('rv', a), lambda A: ss.poisson.pmf(x, A)
    if kind == 'Gamma':
        raise Skip('')
    vals = {'zeta': np.linspace(0.4, 1.7, 3), 'alpha': np.linspace(0.6, 2.1, 4)}
    names = ['zeta'] if kind == 'Poisson' else (['zeta', 'alpha'] if rng.integers(2) else ['alpha', 'zeta'])
    note(rv=str(kind), names=names, x=x)
    args = [y for n in names for y in (n, vals[n])]
    M = bl.om.SymPy(rv, *args, determineJeffreysPrior=False)
    g = dict(zip(names, np.meshgrid(*[vals[n] for n in names], indexing='ij')))
    want = f(g['zeta']) if kind == 'Poisson' else f(g['zeta'], g['alpha'])
    eq('likelihood of a SymPy %s variable, parameters in order %s' % (kind, names), M.pdf([g[n] for n in names], np.array([x])), want, 1e-8, 1e-300)
    require([str(n) for n in M.parameterNames] == names, 'parameter names %s' % list(M.parameterNames))


# ---------------------------------------------------------------- C08 - C10
def attach(bl, om, tm, data=None):
    S = bl.Study(silent=True)
    S.loadData(np.zeros(4) if data is None else data, silent=True)
    order = [O.mk_om(bl, om), tm]
    for o in order:
        S.set(o, silent=True)
    return S


def rnd_dist(rng, shape, t=None):
    k = int(rng.integers(4))
    p = rng.random(shape) ** 3
    if k == 1:
        p = np.exp(8 * rng.normal(size=shape))
    elif k == 2:
        p[rng.random(shape) < 0.5] = 0.
        p.ravel()[int(rng.integers(p.size))] = 1.
    return p / p.sum()


def op_case(bl, rng, note, kinds, comp=False, npar=None):
    om = G.rnd_om(rng, npar=npar)
    if rng.random() < 0.3:
        om['prior'] = ('array', 0.1 + rng.random(tuple(len(v) for v in om['values'])))
    env = O.Env(om)
    ts = list(range(8)) if rng.integers(2) else list(range(1852, 1860))
    s = G.rnd_tm(rng, om, ts, 2, None, kinds) if comp else G.rnd_elem(rng, om, ts, G.Namer(), kinds)
    T = O.mk_tm(bl, s)
    first = bool(rng.integers(2))
    S = bl.Study(silent=True)
    S.loadData(np.zeros(3), silent=True)
    for o in ([O.mk_om(bl, om), T] if first else [T, O.mk_om(bl, om)]):
        S.set(o, silent=True)
    used = set()
    pts = [m for m in walk(s) if m[0] in ('CP', 'BP')]
    for _ in range(int(rng.integers(3, 7))):
        t = G.pick(rng, ts)
        if pts and rng.random() < 0.7:
            t = G.pick(rng, pts)[2] + int(rng.integers(-1, 2))
        p = rnd_dist(rng, env.shape)
        if G.has(s, 'NE') and p.max() == p.min():
            continue
        fwd = bool(rng.integers(2))
        note(om=om, tm=s, t=t, p=p, direction='forward' if fwd else 'backward')
        keep = p.copy()
        out = (T.computeForwardPrior if fwd else T.computeBackwardPrior)(p, t)
        out = np.array(out)
        same('distribution passed to the transition model', p, keep)
        err = None
        for d in O.devs(s):
            want = (O.Tf if fwd else O.Tb)(s, env, p, t, 0., d)
            if not np.all(np.isfinite(want)):
                break
            try:
                if not fwd:   # the backward message is normalised by the caller
                    eq('backward transition at %s' % t, out / out.sum(), want / want.sum(), 1e-6, 1e-9)
                else:
                    eq('forward transition at %s' % t, out, want, 1e-6, 1e-9)
                used |= set(d)
                err = None
                break
            except Fail as e:
                err = err or e
        if err:
            raise err
        if rng.random() < 0.4:   # new hyper-parameter values, same object
            fl = O.flat(s)
            new = []
            for n, v, _ in fl:
                if isinstance(v, (int, np.integer)) or n.startswith('t'):
                    new.append(v)
                elif n.startswith('log10pMin'):
                    new.append(float(G.pick(rng, [-6., -2., -1.2])))
                elif n.startswith('alpha'):
                    new.append(float(G.pick(rng, [1.2, 1.8])))
                elif n.startswith('rho'):
                    new.append(float(G.pick(rng, [-0.3, 0.4])))
                else:
                    new.append(float(v * G.pick(rng, [0.5, 1.4, 2.])) if v else float(0.3 * env.lc[0]))
            S._setAllHyperParameters(new)
            s = O.bind(s, dict(zip([f[0] for f in fl], new)))
        if rng.random() < 0.25:   # new grid, same transition model
            om2 = dict(om)
            om2['values'] = [np.linspace(v[0], v[-1] + 0.3, len(v) if rng.integers(2) else len(v) + 2) for v in om['values']]
            om2['prior'] = ('none',)
            om = om2
            env = O.Env(om)
            S.set(O.mk_om(bl, om), silent=True)
    return tuple(used)


def walk(s):
    yield s
    if s[0] in ('Comb', 'Serial'):
        for m in s[1]:
            for x in walk(m):
                yield x


def c08_ops(bl, rng, note):
    return op_case(bl, rng, note, ['Static', 'CP', 'CP', 'Ind', 'RS', 'NE'])


def c08_prior_kinds(bl, rng, note):
    """resets use the study's prior however it was specified"""
    om = G.rnd_om(rng)
    env = O.Env(om)
    which = int(rng.integers(3))
    T = [bl.tm.ChangePoint('tc', 3), bl.tm.Independent(),
         bl.tm.SerialTransitionModel(bl.tm.Static(), bl.tm.ChangePoint('tc', 3), bl.tm.Static())][which]
    note(om=om, model=str(T))
    S = attach(bl, om, T)
    p = rnd_dist(rng, env.shape)
    q = np.array(T.computeForwardPrior(p, 3))
    eq('reset distribution, normalised', q / q.sum(), env.prior / env.prior.sum(), 1e-6, 1e-12)
    q2 = np.array(T.computeForwardPrior(p, 3))
    eq('second reset', q2, q, 1e-12, 0)
    if which != 1:
        eq('no reset at another time', T.computeForwardPrior(p, 2), p, 1e-12, 0)


def c09_ops(bl, rng, note):
    om = None
    return op_case(bl, rng, note, ['Static', 'CP', 'Ind', 'RS', 'NE', 'GRW', 'Det', 'Det', 'ASRW', 'BRW'], comp=True)


def c09_serial(bl, rng, note):
    """sub-models that record what they see"""
    calls = []
    lat = [0.25, 0.5]

    class P(bl.tm.Static.__mro__[1]):
        def __init__(self, i):
            self.i = i
            self.study = self.latticeConstant = self.prior = None
            self.hyperParameterNames, self.hyperParameterValues, self.tOffset = [], [], 0

        def __str__(self):
            return 'probe'

        def computeForwardPrior(self, posterior, t):
            calls.append((self.i, 'f', t, self.tOffset, self.study, list(self.latticeConstant)))
            return posterior * (2. + self.i)

        def computeBackwardPrior(self, posterior, t):
            calls.append((self.i, 'b', t, self.tOffset, self.study, list(self.latticeConstant)))
            return posterior * (3. + self.i)
    n = int(rng.integers(1, 5))
    brk = sorted(int(x) for x in rng.choice(12, size=n, replace=False))
    if rng.random() < 0.4:
        brk = [b + G.pick(rng, [0., 0.25, 0.5, 0.75]) for b in brk]
    mask = [bool(rng.integers(2)) for _ in brk]
    args, models, i = [], [], 0
    comb = []
    for j in range(n + 1):
        if rng.random() < 0.4:
            a, b = P(i), P(i + 1)
            i += 2
            models.append([a, b])
            args.append(bl.tm.CombinedTransitionModel(a, b))
        else:
            a = P(i)
            i += 1
            models.append([a])
            args.append(a)
        if j < n:
            args.append((bl.tm.ChangePoint if mask[j] else bl.tm.BreakPoint)('t%d' % j, brk[j]))
    note(breaks=brk, changepoints=mask)
    T = bl.tm.SerialTransitionModel(*args)
    S = bl.Study(silent=True)
    S.loadData(np.zeros(3), silent=True)
    S.set(bl.om.Gaussian('m', np.linspace(0, 1, 5), 's', np.linspace(1, 2, 3), prior=lambda a, b: 1. + a + b), silent=True)
    S.set(T, silent=True)
    pr = 1. + S.grid[0] + S.grid[1]
    pr = pr / pr.sum()
    for t in list(range(-1, 14)) + [0.5 * x for x in range(0, 26, 3)]:
        for d in 'fb':
            del calls[:]
            p = rng.random((5, 3))
            q = (T.computeForwardPrior if d == 'f' else T.computeBackwardPrior)(p.copy(), t)
            tt = t if d == 'f' else t - 1
            j = sum(1 for b in brk if b <= tt)
            off = brk[j - 1] if j else 0
            want = [m.i for m in models[j]]
            require([c[0] for c in calls] == want, '%s at t=%s: sub-models %s applied, expected %s' % (d, t, [c[0] for c in calls], want))
            for c in calls:
                require(c[2] == t and c[1] == d, 'sub-model called with time %s in direction %s, expected %s %s' % (c[2], c[1], t, d))
                require(c[3] == off, 'sub-model sees time offset %s, expected %s (t=%s, %s)' % (c[3], off, t, d))
                require(c[4] is S, 'sub-model does not see the study')
                eq('grid spacing seen by the sub-model', c[5], [0.25, 0.5])
            if tt in [b for b, m in zip(brk, mask) if m]:
                q = arr(q)
                if d == 'f':
                    eq('reset at a change-point', q / q.sum(), pr)
                else:
                    a = q / q.sum()
                    if not np.allclose(a, pr):
                        eq('backward message at a change-point', a, np.ones(a.shape) / a.size)
            else:
                f = np.prod([(2. if d == 'f' else 3.) + m.i for m in models[j]])
                eq('result at t=%s (%s)' % (t, d), q, p * f)


def c09_resettle(bl, rng, note):
    """a composite model moved to another study (other grid, other prior) only uses the new one"""
    om, om2 = G.rnd_om(rng, npar=1), G.rnd_om(rng, npar=1, names=None)
    om2['names'] = om['names'] = ['zz'] if not om['kind'].startswith('scipy') and not om2['kind'].startswith('scipy') else om['names']
    if om['names'] != om2['names'] or om['kind'].startswith('scipy') or om2['kind'].startswith('scipy'):
        raise Skip('')
    ts = list(range(6))
    s = G.rnd_tm(rng, om, ts, 2, None, ['GRW', 'CP', 'RS', 'Static', 'Ind', 'Det', 'ASRW'])
    note(first=om, then=om2, tm=s)
    T = O.mk_tm(bl, s)
    for o in (om, om2):
        env = O.Env(o)
        S = attach(bl, o, T)
        for t in ts:
            p = rnd_dist(rng, env.shape)
            out = arr(T.computeForwardPrior(p.copy(), t))
            err = None
            for d in O.devs(s):
                w = O.Tf(s, env, p, t, 0., d)
                if not np.all(np.isfinite(w)):
                    err = None
                    break
                try:
                    eq('forward transition at %s' % t, out, w, 1e-6, 1e-9)
                    err = None
                    break
                except Fail as e:
                    err = err or e
            if err:
                raise err


def c10_ops(bl, rng, note):
    return op_case(bl, rng, note, ['GRW', 'ASRW', 'BRW', 'Det'], npar=G.pick(rng, [1, 2, 2, 3]))


def c10_fits(bl, rng, note):
    """one transition-model object in consecutive fits with other values / grids equals fresh objects"""
    om = G.rnd_om(rng, npar=G.pick(rng, [1, 2]), irregular=False, prior=('none',))
    om['values'] = [v if len(v) % 2 == 0 else np.append(v, 2 * v[-1] - v[-2]) for v in om['values']]
    om['values'] = [np.clip(v, 0.02, 0.98) if om['kind'] == 'Bernoulli' else v for v in om['values']]
    if om['kind'] == 'Bernoulli':
        om['values'] = [np.linspace(0.1, 0.9, len(om['values'][0]))]
    if om['kind'] == 'ScaledAR1' or om['kind'] == 'AR1':
        om['values'][0] = np.linspace(-0.8, 0.8, len(om['values'][0]))
    data = G.rnd_data(rng, om, 4)
    fts = G.tstamps(None, len(data), O.seglen(om))
    s = G.rnd_elem(rng, om, fts, G.Namer(), ['ASRW', 'BRW', 'GRW', 'Det'])
    T = O.mk_tm(bl, s)
    S = mk_study(bl, om, s, data, tmobj=T)
    note(om=om, tm=s, data=data)
    fit(S, 'forward')
    for _ in range(3):
        k = int(rng.integers(3))
        if k == 0:
            fl = O.flat(s)
            new = [float(v * 1.5) if n[0] in 'sqc' else v for n, v, p in fl]
            S._setAllHyperParameters(new)
            s = O.bind(s, dict(zip([f[0] for f in fl], new)))
        elif k == 1:
            om = dict(om)
            om['values'] = [np.linspace(v[0], v[-1], len(v) + 2) for v in om['values']]
            S.set(O.mk_om(bl, om), silent=True)
        else:
            om = dict(om)
            om['values'] = [np.linspace(v[0], v[0] + (v[-1] - v[0]) * 0.8, len(v)) for v in om['values']]
            S.set(O.mk_om(bl, om), silent=True)
        note(om=om, tm=s, data=data)
        r = O.filt(om, s, data, None, False)
        if not np.isfinite(r.logE) or not np.all(np.isfinite(r.post)):
            raise Skip('')
        fit(S, 'forward')
        eq('posterior after changing %s' % ['values', 'grid size', 'grid spacing'][k], S.posteriorSequence, r.post)
        eq('evidence after changing %s' % ['values', 'grid size', 'grid spacing'][k], S.logEvidence, r.logE)


def c10_axes(bl, rng, note):
    """only the targeted axis is touched: the marginal of every other parameter is unchanged"""
    om = G.rnd_om(rng, npar=G.pick(rng, [2, 3]))
    om['values'] = [v if len(v) % 2 == 0 else v[:-1] if len(v) > 3 else np.append(v, 2 * v[-1] - v[-2]) for v in om['values']]
    if om['prior'][0] == 'array':
        om['prior'] = ('none',)
    env = O.Env(om)
    s = G.rnd_elem(rng, om, [0, 1, 2], G.Namer(), ['GRW', 'ASRW', 'Det'])
    tgt = env.names.index(s[-1])
    note(om=om, tm=s)
    S = attach(bl, om, O.mk_tm(bl, s))
    # product distribution: other factors must come back unchanged
    parts = [rnd_dist(rng, (n,)) for n in env.shape]
    p = np.ones(env.shape)
    for i, f in enumerate(parts):
        p = p * f.reshape([-1 if j == i else 1 for j in range(len(parts))])
    if s[0] == 'Det':
        from scipy.ndimage import shift
        if abs(shift(parts[tgt], s[2][0][1] / env.lc[tgt], order=3, mode='nearest').sum() if s[1] == 'lin' else 1.) < 0.02:
            raise Skip('the shift moves the whole distribution off the grid')
    q = arr(S.transitionModel.computeForwardPrior(p, 1))
    for i, f in enumerate(parts):
        m = q.sum(axis=tuple(j for j in range(q.ndim) if j != i))
        if i != tgt:
            eq('marginal of the untargeted parameter %s' % env.names[i], m / m.sum(), f, 1e-6, 1e-9)


# ---------------------------------------------------------------- C20
def c20_intervals(bl, rng, note):
    a = float(rng.normal() * G.pick(rng, [1., 100.]))
    b = a + float(rng.random() * G.pick(rng, [1., 50.]) + 1e-3)
    n = int(rng.integers(2, 40))
    note(start=a, stop=b, num=n)
    c, o = arr(bl.cint(a, b, n)), arr(bl.oint(a, b, n))
    require(c.shape == (n,) and o.shape == (n,), 'cint/oint return %s/%s values instead of %d' % (c.shape, o.shape, n))
    sc = max(abs(a), abs(b))
    eq('cint', c, [a + (b - a) * i / (n - 1.) for i in range(n)], 1e-9, 1e-9 * sc)
    eq('oint', o, [a + (b - a) * (i + 1.) / (n + 1.) for i in range(n)], 1e-9, 1e-9 * sc)
    require(c[0] == a and c[-1] == b, 'cint must contain both ends exactly')
    require(np.all(o > a) and np.all(o < b), 'oint must lie strictly inside')
    o1 = arr(bl.oint(a, b, 1))
    eq('oint with one value', o1, [(a + b) / 2], 1e-9, 1e-9 * sc)


def c20_grid(bl, rng, note):
    om = G.rnd_om(rng)
    if rng.integers(2):
        om = G.rnd_om(rng, npar=G.pick(rng, [1, 2]), irregular=None if rng.integers(2) else True, prior=('none',))
        n = len(om['names'])
        om['values'] = [G.values(rng, om['kind'], i, int(rng.integers(3, 60)), bool(rng.integers(2))) for i in range(n)]
    keep = copy.deepcopy(om['values'])
    note(om=om)
    env = O.Env(om)
    S = bl.Study(silent=True)
    S.loadData(G.rnd_data(rng, om, 3), silent=True)
    lc0 = None
    if rng.integers(2):
        T = O.mk_tm(bl, ('GRW', 's', 0.1, om['names'][0]))
        if rng.integers(2):
            om0 = G.rnd_om(rng)
            S.set(O.mk_om(bl, om0), silent=True)
        S.set(T, silent=True)
    if rng.integers(2):
        om['values'] = [list(v) for v in om['values']]
    (S.setOM if rng.integers(2) else S.setObservationModel)(O.mk_om(bl, om), silent=True)
    require(len(S.grid) == len(env.grid), '%d grid arrays for %d parameters' % (len(S.grid), len(env.grid)))
    for n, g, w in zip(om['names'], S.grid, env.grid):
        eq('grid of %s' % n, g, w, 1e-12, 0)
    for n, g, w in zip(om['names'], S.marginalGrid, env.marg):
        eq('values of %s' % n, g, w, 1e-12, 0)
    eq('grid size', S.gridSize, env.shape, 0, 0)
    eq('spacing', S.latticeConstant, env.lc, 1e-9, 0)
    eq('boundaries', S.boundaries, [[v[0], v[-1]] for v in env.marg], 1e-12, 0)
    if S.transitionModel is not None:
        eq('spacing seen by the transition model', S.transitionModel.latticeConstant, env.lc, 1e-9, 0)
    same('values given by the user', [list(v) for v in om['values']], [list(v) for v in keep])


def c20_estimate(bl, rng, note):
    kind = G.pick(rng, BUILTIN)
    multi = kind not in ('GaussianMean',) and rng.random() < 0.4
    om = dict(kind=kind, names=G.NAMES[kind].split(), values=None, prior=('none',))
    data = G.rnd_data(rng, om, 8, dim=2 if multi else 0)
    note(kind=kind, data=data)
    S = bl.Study(silent=True)
    S.loadData(data, silent=True)
    given = None
    names = om['names']
    vals = [None] * len(names)
    if len(names) == 2 and rng.random() < 0.4:
        given = int(rng.integers(2))
        vals[given] = np.linspace(0.1, 0.9, 7)
    with quiet():
        S.set(getattr(bl.om, kind)(*[x for p in zip(names, vals) for x in p]), silent=True)
    flatd = np.ravel(data)
    m, sd = np.nanmean(flatd), np.nanstd(flatd)
    lin = np.linspace
    opn = lambda a, b, n: lin(a, b, n + 2)[1:-1]
    if kind == 'GaussianMean':
        lo, hi = np.nanmin(data[:, 0]), np.nanmax(data[:, 0])
    want = {'Bernoulli': lambda: [lin(0, 1, 1000)], 'Poisson': lambda: [opn(0, 1.25 * np.nanmax(flatd), 1000)],
            'Gaussian': lambda: [lin(m - 2 * sd, m + 2 * sd, 200), opn(0, 2 * sd, 200)],
            'Laplace': lambda: [lin(m - 2 * sd, m + 2 * sd, 200), opn(0, np.sqrt(2) * sd, 200)],
            'GaussianMean': lambda: [opn(lo - (hi - lo), hi + (hi - lo), 1000)],
            'WhiteNoise': lambda: [opn(0, 2 * sd, 1000)], 'AR1': lambda: [opn(-1, 1, 200), opn(0, 2 * sd, 200)],
            'ScaledAR1': lambda: [opn(-1, 1, 200), opn(0, 2 * sd, 200)]}[kind]()
    if given is not None:
        want[given] = vals[given]
    for n, g, w in zip(names, S.marginalGrid, want):
        eq('estimated values of %s' % n, g, w, 1e-9, 1e-12)


C05 = [(c05_pdf, 120), (c05_scipy, 60)]
C06 = [(c06_numpy, 40), (c06_scipy, 80), (c06_sympy, 12)]
def c08_flat(bl, rng, note):
    """a flat distribution stays a flat, finite, normalised distribution under the bounded models; integer bounds"""
    om = G.rnd_om(rng, npar=G.pick(rng, [1, 2]), prior=('none',))
    env = O.Env(om)
    k = G.pick(rng, ['RS', 'NE'])
    v = G.pick(rng, [-1, -3, np.int64(-1), np.int64(-4), -2.5])
    note(om=om, tm=(k, 'pmin', v))
    S = attach(bl, om, O.mk_tm(bl, (k, 'pmin', v)))
    p = np.ones(env.shape) / 2. ** 6
    for f in (S.transitionModel.computeForwardPrior, S.transitionModel.computeBackwardPrior):
        eq('flat distribution after the transition', f(p, 1), np.ones(env.shape) / p.size)
    q = rnd_dist(rng, env.shape)
    if q.max() - q.min() > 1e-6 * q.max():
        eq('transition with bound %r' % v, S.transitionModel.computeForwardPrior(q, 1), O.Tf((k, 'pmin', float(v)), env, q, 1))


C08 = [(c08_flat, 20), (c08_ops, 80), (c08_prior_kinds, 40)]
C09 = [(c09_ops, 60), (c09_serial, 30), (c09_resettle, 30)]
C10 = [(c10_ops, 80), (c10_fits, 25), (c10_axes, 40)]
C20 = [(c20_intervals, 60), (c20_grid, 60), (c20_estimate, 40)]
