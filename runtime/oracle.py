"""Independent re-statement of the documented mathematics (numpy only, no bayesloop code).

Models are described by small spec tuples; `mk_om` / `mk_tm` build the real
bayesloop objects from a spec, the other functions compute what the
documentation says these objects must do.
"""
import numpy as np
from math import lgamma

KNOWN = ('cp_scale', 'serial_back')   # deviations listed in known_findings.jsonl


# ---------------------------------------------------------------- observation models
# om = dict(kind=..., names=[...], values=[...], prior=prior spec, extra...)
# prior spec: ('default',) ('none',) ('array', a) ('func', key) ('sympy', [rv keys])

PRIOR_FUNCS = {
    1: {'sq': lambda a: 1. + a ** 2, 'exp': lambda a: np.exp(-np.abs(a)), 'const': lambda a: 3.},
    2: {'sq': lambda a, b: 1. + a ** 2 + 0.5 * np.abs(b), 'exp': lambda a, b: np.exp(-np.abs(a - 0.3 * b)),
        'first': lambda a, b: 2. + np.sin(a), 'const': lambda a, b: 0.25},
    3: {'sq': lambda a, b, c: 1. + a ** 2 + np.abs(b) + 2. * np.abs(c),
        'exp': lambda a, b, c: np.exp(-np.abs(a - 0.3 * b) - 0.1 * np.abs(c))},
}


def sympy_rv(key):
    import sympy.stats as st
    return {'N': lambda: st.Normal('z1', 0.4, 1.3), 'E': lambda: st.Exponential('z2', 0.7),
            'U': lambda: st.Uniform('z3', -50, 50), 'N2': lambda: st.Normal('z4', 1.5, 2.)}[key]()


def rv_pdf(key, x):
    x = np.asarray(x, float)
    if key == 'N':
        return np.exp(-(x - 0.4) ** 2 / (2 * 1.3 ** 2)) / (1.3 * np.sqrt(2 * np.pi))
    if key == 'N2':
        return np.exp(-(x - 1.5) ** 2 / (2 * 2. ** 2)) / (2. * np.sqrt(2 * np.pi))
    if key == 'E':
        return np.where(x >= 0, 0.7 * np.exp(-0.7 * x), 0.)
    if key == 'U':
        return np.where((x >= -50) & (x <= 50), 0.01, 0.)
    raise KeyError(key)


def np3(data, a, b, c):
    return np.exp(-(data - a) ** 2 / (2. * b ** 2)) / np.sqrt(2 * np.pi * b ** 2) * (1. + 0.5 * np.tanh(c * data))


def np2(data, a, b):
    return 1. / (np.pi * b * (1. + ((data - a) / b) ** 2))


def np1(data, a):
    return 0.5 * np.exp(-np.abs(data - a))


# likelihoods without a common scale: evidences outside the range of floating-point numbers
def nptiny(data, a):
    return 1e-150 * np1(data, a)


def nphuge(data, a):
    return 1e+130 * np1(data, a)


NPF = {'np1': np1, 'np2': np2, 'np3': np3, 'nptiny': nptiny, 'nphuge': nphuge}


def mk_prior(p):
    if p[0] in ('none', 'default'):
        return None
    if p[0] == 'array':
        return p[1]
    if p[0] == 'func':
        return PRIOR_FUNCS[p[2]][p[1]]
    if p[0] == 'sympy':
        rvs = [sympy_rv(k) for k in p[1]]
        return rvs[0] if len(rvs) == 1 else rvs
    raise KeyError(p)


def mk_om(bl, om):
    k, n, v, p = om['kind'], om['names'], om['values'], om['prior']
    kw = {} if p[0] == 'default' else {'prior': mk_prior(p)}
    if k in NPF:
        args = [x for pair in zip(n, v) for x in pair]
        return bl.om.NumPy(NPF[k], *args, **kw)
    if k.startswith('scipy:'):
        import scipy.stats
        args = [x for pair in zip(n, v) for x in pair]
        if om.get('fixed'):
            kw['fixedParameters'] = om['fixed']
        return bl.om.SciPy(getattr(scipy.stats, k[6:]), *args, **kw)
    cls = getattr(bl.om, k)
    args = [x for pair in zip(n, v) for x in pair]
    return cls(*args, **kw)


SEGLEN = {'AR1': 2, 'ScaledAR1': 2}
MULT = {'np1': False, 'nptiny': False, 'nphuge': False, 'np2': False, 'np3': False, 'GaussianMean': False}


def seglen(om):
    return SEGLEN.get(om['kind'], 1)


def normal(x, m, s):
    return np.exp(-(x - m) ** 2 / (2. * s ** 2)) / np.sqrt(2. * np.pi * s ** 2)


def lik(om, grid, seg):
    """textbook density of one data segment of scalars (GaussianMean: rows (value, error))"""
    k = om['kind']
    g = [np.asarray(a, float) for a in grid]
    if k == 'Bernoulli':
        p = np.where((g[0] > 1.) | (g[0] < 0.), 0., g[0])
        return p if seg[0] else 1. - p
    if k == 'Poisson':
        with np.errstate(divide='ignore', invalid='ignore'):
            x = float(seg[0])
            logp = (x * np.log(g[0]) if x else 0. * g[0]) - g[0] - lgamma(x + 1)
            return np.exp(logp)
    if k == 'Gaussian':
        return normal(seg[0], g[0], g[1])
    if k == 'Laplace':
        return np.exp(-np.abs(seg[0] - g[0]) / g[1]) / (2. * g[1])
    if k == 'GaussianMean':
        return normal(seg[0][0], g[0], seg[0][1])
    if k == 'WhiteNoise':
        return normal(seg[0], 0., g[0])
    if k == 'AR1':
        return normal(seg[1], g[0] * seg[0], g[1])
    if k == 'ScaledAR1':
        return normal(seg[1], g[0] * seg[0], g[1] * np.sqrt(1. - g[0] ** 2))
    if k in NPF:
        return NPF[k](seg[0], *g) * np.ones(g[0].shape)
    if k.startswith('scipy:'):
        import scipy.stats
        d = getattr(scipy.stats, k[6:])
        pars = dict(zip(om['names'], g))
        pars.update(om.get('fixed') or {})
        f = d.pdf if hasattr(d, 'pdf') else d.pmf
        return f(seg[0], **pars)
    raise KeyError(k)


def plik(om, grid, seg):
    """likelihood of a formatted data segment: missing data, multi-dimensional data"""
    seg = np.asarray(seg, float)
    if seg.ndim == 2 and MULT.get(om['kind'], True):
        r = np.ones(grid[0].shape)
        for c in seg.T:
            r = r * plik(om, grid, c)
        return r
    if np.isnan(seg).any():
        return np.ones(grid[0].shape)
    return lik(om, grid, seg)


def jeffreys(om, g):
    k = om['kind']
    if k == 'Bernoulli':
        return 1. / np.sqrt(g[0] * (1. - g[0]))
    if k == 'Poisson':
        return 1. / np.sqrt(g[0])
    if k in ('Gaussian', 'Laplace'):
        return 1. / g[1] ** 2
    if k == 'WhiteNoise':
        return 1. / g[0]
    return None


def lattice(v):
    v = np.asarray(v, float)
    if len(v) > 2 and np.any(np.abs(np.diff(np.diff(v))) > 1e-10):
        return 1.
    return abs(v[1] - v[0])


class Env(object):
    """everything about grid and prior that the transition models may use"""

    def __init__(self, om):
        self.om = om
        self.names = list(om['names'])
        self.marg = [np.asarray(v, float) for v in om['values']]
        self.shape = tuple(len(v) for v in self.marg)
        self.lc = [lattice(v) for v in self.marg]
        self.V = float(np.prod(self.lc))
        self.grid = np.meshgrid(*self.marg, indexing='ij')
        self.prior = self._prior()

    def _prior(self):
        p = self.om['prior']
        v = None
        if p[0] == 'default':
            v = jeffreys(self.om, self.grid)
        elif p[0] == 'array':
            v = np.array(p[1], float)
        elif p[0] == 'func':
            v = PRIOR_FUNCS[p[2]][p[1]](*self.grid) * np.ones(self.shape)
        elif p[0] == 'sympy':
            r = np.ones(self.shape)
            for k, g in zip(p[1], self.grid):
                r = r * rv_pdf(k, g)
            return r
        if v is None:
            v = np.ones(self.shape)
        return v / np.sum(v) / self.V


# ---------------------------------------------------------------- transition models
# ('Static',) ('GRW',name,value,target) ('ASRW',n1,v1,n2,v2,target) ('CP',name,value) ('Ind',)
# ('RS',name,v) ('NE',name,v) ('Det',key,[(name,value),..],target) ('BRW',n1,v1,n2,v2,n3,v3)
# ('Comb',[..]) ('Serial',[.. ('BP',name,value) or ('CP',name,value) between models ..])
# an optional dict at the end carries hyper-priors {name: prior}

DET = {
    'lin': ('def det(t, {0}={0}_): return {0}*t', lambda t, a: a * t),
    'quad': ('def det(t, {0}={0}_, {1}={1}_): return {0}*t**2 + {1}*t', lambda t, a, b: a * t ** 2 + b * t),
    'sin': ('def det(t, {0}={0}_): return np.sin(t)*{0}', lambda t, a: np.sin(t) * a),
}


def opts(s):
    return s[-1] if isinstance(s[-1], dict) else {}


def base(s):
    return s[:-1] if isinstance(s[-1], dict) else s


def mk_tm(bl, s):
    o, s = opts(s), base(s)
    k = s[0]
    pr = lambda n: o.get(n)
    if k == 'Static':
        return bl.tm.Static()
    if k == 'Ind':
        return bl.tm.Independent()
    if k == 'GRW':
        return bl.tm.GaussianRandomWalk(s[1], s[2], target=s[3], prior=pr(s[1]))
    if k == 'ASRW':
        return bl.tm.AlphaStableRandomWalk(s[1], s[2], s[3], s[4], target=s[5], prior=(pr(s[1]), pr(s[3])))
    if k == 'CP':
        return bl.tm.ChangePoint(s[1], s[2], prior=pr(s[1]))
    if k == 'BP':
        return bl.tm.BreakPoint(s[1], s[2], prior=pr(s[1]))
    if k == 'RS':
        return bl.tm.RegimeSwitch(s[1], s[2], prior=pr(s[1]))
    if k == 'NE':
        return bl.tm.NotEqual(s[1], s[2], prior=pr(s[1]))
    if k == 'BRW':
        return bl.tm.BivariateRandomWalk(*s[1:7], prior=(pr(s[1]), pr(s[3]), pr(s[5])))
    if k == 'Det':
        names = [n for n, v in s[2]]
        ns = {'np': np}
        for n, v in s[2]:
            ns[n + '_'] = v
        exec(DET[s[1]][0].format(*names), ns)
        p = [pr(n) for n in names]
        return bl.tm.Deterministic(ns['det'], target=s[3], prior=p if any(x is not None for x in p) else None)
    if k == 'Comb':
        return bl.tm.CombinedTransitionModel(*[mk_tm(bl, m) for m in s[1]])
    if k == 'Serial':
        return bl.tm.SerialTransitionModel(*[mk_tm(bl, m) for m in s[1]])
    raise KeyError(k)


def flat(s):
    """(name, values, prior) of all hyper-parameters in the documented order: sub-models first, then own"""
    o, b = opts(s), base(s)
    k = b[0]
    if k in ('Static', 'Ind'):
        return []
    if k in ('GRW', 'CP', 'RS', 'NE', 'BP'):
        return [(b[1], b[2], o.get(b[1]))]
    if k == 'ASRW':
        return [(b[1], b[2], o.get(b[1])), (b[3], b[4], o.get(b[3]))]
    if k == 'BRW':
        return [(b[i], b[i + 1], o.get(b[i])) for i in (1, 3, 5)]
    if k == 'Det':
        return [(n, v, o.get(n)) for n, v in b[2]]
    if k == 'Comb':
        return [x for m in b[1] for x in flat(m)]
    if k == 'Serial':
        own = [m for m in b[1] if m[0] in ('CP', 'BP')]
        return [x for m in b[1] if m[0] not in ('CP', 'BP') for x in flat(m)] + [x for m in own for x in flat(m)]
    raise KeyError(k)


def bind(s, d):
    """spec with the named hyper-parameters replaced by values"""
    o, b = opts(s), list(base(s))
    k = b[0]
    if k in ('GRW', 'CP', 'RS', 'NE', 'BP'):
        b[2] = d.get(b[1], b[2])
    elif k == 'ASRW':
        b[2], b[4] = d.get(b[1], b[2]), d.get(b[3], b[4])
    elif k == 'BRW':
        for i in (1, 3, 5):
            b[i + 1] = d.get(b[i], b[i + 1])
    elif k == 'Det':
        b[2] = [(n, d.get(n, v)) for n, v in b[2]]
    elif k in ('Comb', 'Serial'):
        b[1] = [bind(m, d) for m in b[1]]
    return tuple(b) + ((o,) if o else ())


def along(p, axis, f):
    return np.apply_along_axis(f, axis, p)


def gauss_conv(p, sigma, axis):
    """truncated (4 sigma) normalised Gaussian kernel, reflecting boundary"""
    if not sigma > 0:
        return p.copy()
    r = int(4. * float(sigma) + 0.5)
    k = np.arange(-r, r + 1)
    w = np.exp(-0.5 * k ** 2 / float(sigma) ** 2)
    w /= w.sum()
    n = p.shape[axis]
    M = np.zeros((n, n))
    for i in range(n):
        for kk, ww in zip(k, w):
            j = (i + kk) % (2 * n)
            if j >= n:
                j = 2 * n - 1 - j
            M[i, j] += ww
    return along(p, axis, lambda x: M.dot(x))


def stable_conv(p, c, alpha, axis):
    n = p.shape[axis]
    m = int(3 * n / 2 + 1)
    w = np.linspace(0., np.pi, m)
    k = np.fft.irfft(np.exp(-np.abs(c * w) ** alpha))
    M = np.array([[k[(i - j) % len(k)] for j in range(n)] for i in range(n)])
    q = along(p, axis, lambda x: M.dot(x))
    return q / q.sum()


def biv_conv(p, s1, s2, rho):
    a, b = int(3 * np.ceil(s1)), int(3 * np.ceil(s2))
    x, y = np.meshgrid(np.arange(-a, a + 1), np.arange(-b, b + 1), indexing='ij')
    k = np.exp(-(x ** 2 / s1 ** 2 + y ** 2 / s2 ** 2 - 2 * rho * x * y / (s1 * s2)) / (2. * (1. - rho ** 2)))
    k /= k.sum()
    q = np.zeros(p.shape)
    for i in range(p.shape[0]):
        for j in range(p.shape[1]):
            for u in range(p.shape[0]):
                du = i - u
                if abs(du) > a:
                    continue
                for v in range(p.shape[1]):
                    dv = j - v
                    if abs(dv) <= b:
                        q[i, j] += p[u, v] * k[du + a, dv + b]
    return q / q.sum()


def shifted(p, d, axis):
    from scipy.ndimage import shift
    v = [0.] * p.ndim
    v[axis] = d
    q = shift(p, v, order=3, mode='nearest')
    return q / q.sum()


def reset(env, dev, scale=True):
    q = env.prior / env.prior.sum()
    return q * env.V if ('cp_scale' in dev and scale) else q


def Tf(s, env, p, t, off=0., dev=()):
    s = base(s)
    k = s[0]
    if k == 'Static':
        return p
    if k == 'Ind':
        return env.prior / env.prior.sum()
    if k == 'CP':
        return reset(env, dev) if t == s[2] else p
    if k == 'GRW':
        ax = env.names.index(s[3])
        return gauss_conv(p, s[2] / env.lc[ax], ax)
    if k == 'ASRW':
        ax = env.names.index(s[5])
        return stable_conv(p, s[2] / env.lc[ax], s[4], ax)
    if k == 'BRW':
        return biv_conv(p, s[2] / env.lc[0], s[4] / env.lc[1], s[6])
    if k == 'RS':
        q = np.maximum(p, 10. ** s[2] * env.V)
        return q / q.sum()
    if k == 'NE':
        q = p.max() - p
        if not q.max() > 1e-7 * p.max():
            from .lib import Skip
            raise Skip('flat up to rounding')
        q = q / q.sum()
        q = np.maximum(q, 10. ** s[2] * env.V)
        return q / q.sum()
    if k == 'Det':
        f = DET[s[1]][1]
        v = [x for n, x in s[2]]
        ax = env.names.index(s[3])
        return shifted(p, (f(t + 1 - off, *v) - f(t - off, *v)) / env.lc[ax], ax)
    if k == 'Comb':
        for m in s[1]:
            p = Tf(m, env, p, t, off, dev)
        return p
    if k == 'Serial':
        return serial(s, env, p, t, dev, True)
    raise KeyError(k)


def Tb(s, env, p, t, off=0., dev=()):
    s = base(s)
    k = s[0]
    if k == 'Ind':
        return np.ones(env.shape)
    if k == 'CP':
        return np.ones(env.shape) if t - 1 == s[2] else p
    if k == 'Det':
        f = DET[s[1]][1]
        v = [x for n, x in s[2]]
        ax = env.names.index(s[3])
        return shifted(p, (f(t - 1 - off, *v) - f(t - off, *v)) / env.lc[ax], ax)
    if k == 'Comb':
        for m in s[1]:
            p = Tb(m, env, p, t, off, dev)
        return p
    if k == 'Serial':
        return serial(s, env, p, t, dev, False)
    return Tf(s, env, p, t - 1, off, dev)


def serial(s, env, p, t, dev, fwd):
    models = [m for m in s[1] if m[0] not in ('CP', 'BP')]
    pts = [m for m in s[1] if m[0] in ('CP', 'BP')]
    tt = t if fwd else t - 1
    i = sum(1 for m in pts if m[2] <= tt)
    off = pts[i - 1][2] if i > 0 else 0.
    q = (Tf if fwd else Tb)(models[i], env, p, t, off, dev)
    if any(m[0] == 'CP' and m[2] == tt for m in pts):
        if fwd:
            return reset(env, dev)
        return reset(env, dev) if 'serial_back' in dev else np.ones(env.shape)
    return q


# ---------------------------------------------------------------- inference

class Fit(object):
    pass


def windows(data, n):
    return [np.asarray(data)[i:i + n] for i in range(len(data) - n + 1)]


def filt(om, s, data, ts=None, full=True, dev=(), env=None, Tf_=None, Tb_=None):
    """Bayes filter and (full) smoother, written from the definition.

    Transition models that are computed with cancellation (FFT, splines, differences) have an absolute rounding error;
    inputs on which an error of that size changes the result are skipped (no floating-point program can decide them)."""
    r = filt_(om, s, data, ts, full, dev, env, Tf_, Tb_)
    if s is not None and Tf_ is None and any("'%s'" % k in repr(s) for k in ('ASRW', 'Det', 'NE')):
        e = env or Env(om)
        rng = np.random.default_rng(0)

        def noisy(q):
            q = np.asarray(q, dtype=float)
            return q + 3e-15 * np.max(np.abs(q)) * rng.choice([-1., 1.], size=q.shape)
        r2 = filt_(om, s, data, ts, full, dev, e, lambda p, t: noisy(Tf(s, e, p, t, 0., dev)), lambda p, t: noisy(Tb(s, e, p, t, 0., dev)))
        from .lib import Skip, close
        if not (close(r.logE, r2.logE, 1e-8, 1e-11) and close(r.post, r2.post, 1e-8, 1e-11) and close(r.local, r2.local, 1e-8, 1e-11)
                and close(getattr(r, 'local_full', 0.), getattr(r2, 'local_full', 0.), 1e-8, 1e-11)):
            raise Skip('ill-conditioned')
    return r


def filt_(om, s, data, ts=None, full=True, dev=(), env=None, Tf_=None, Tb_=None):
    env = env or Env(om)
    n = seglen(om) if 'seglen' not in om else om['seglen']
    segs = windows(data, n)
    ts = list(np.arange(len(data)) if ts is None else ts)[n - 1:]
    F = Tf_ or (lambda p, t: Tf(s, env, p, t, 0., dev))
    B = Tb_ or (lambda p, t: Tb(s, env, p, t, 0., dev))
    L = [plik(om, env.grid, x) for x in segs]
    r = Fit()
    r.env, r.L, r.ts = env, L, ts
    r.post, r.pred, r.local = [], [], []
    r.logE = np.log(env.V)
    q = env.prior
    for i in range(len(segs)):
        a = q * L[i]
        z = a.sum()
        if not z > 0:
            r.logE = -np.inf
            r.dead = i
            return r
        r.logE += np.log(z)
        r.local.append(z * env.V if i == 0 else z)
        r.post.append(a / z)
        q = F(a / z, ts[i])
    r.fpost = list(r.post)
    if full:
        b = np.ones(env.shape) / np.prod(env.shape)
        r.beta = [None] * len(segs)
        for i in range(len(segs) - 1, -1, -1):
            a = r.fpost[i] * b
            if not a.sum() > 0:
                from .lib import Skip
                raise Skip('the smoothed distribution has no positive mass (negative values, see known finding negative_prob)')
            r.post[i] = a / a.sum()
            b = B(b * L[i], ts[i])
            b = b / b.sum()
    r.post = np.array(r.post)
    if full and all(np.all(l > 0) for l in L):
        r.local_full = [1. / np.sum(p / l) for p, l in zip(r.post, L)]
    r.mean = np.array([[np.sum(p * g) for p in r.post] for g in env.grid])
    return r


def devs(s):
    """sets of listed deviations that can matter for this model"""
    t = repr(s)
    d = []
    if "'CP'" in t:
        d.append('cp_scale')
        if "'Serial'" in t:
            d.append('serial_back')
    out = [()]
    for x in d:
        out += [o + (x,) for o in out]
    return sorted(out, key=len)
