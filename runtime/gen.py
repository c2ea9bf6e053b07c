"""Random inputs. Every generator takes a numpy Generator, so a case is reproduced from (property, case name, seed, index)."""
import numpy as np
from . import oracle as O

NAMES = {'Bernoulli': 'p', 'Poisson': 'lambda', 'Gaussian': 'mean std', 'Laplace': 'mean scale',
         'GaussianMean': 'mean', 'WhiteNoise': 'std', 'AR1': 'rho noise', 'ScaledAR1': 'rho std',
         'np1': 'a', 'nptiny': 'a', 'nphuge': 'a', 'np2': 'a b', 'np3': 'a b c', 'scipy:norm': 'loc scale', 'scipy:poisson': 'mu'}
ONE = ['Bernoulli', 'Poisson', 'GaussianMean', 'WhiteNoise', 'np1', 'scipy:poisson', 'nptiny', 'nphuge']
TWO = ['Gaussian', 'Laplace', 'AR1', 'ScaledAR1', 'np2', 'scipy:norm']
THREE = ['np3']


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def interval(kind, i):
    return {'Bernoulli': (0.05, 0.95), 'Poisson': (0.3, 6.), 'GaussianMean': (-2., 2.), 'WhiteNoise': (0.4, 3.),
            'np1': (-2., 2.), 'nptiny': (-2., 2.), 'nphuge': (-2., 2.), 'scipy:poisson': (0.5, 5.)}.get(kind) or \
           {0: (-0.8, 0.8) if kind in ('AR1', 'ScaledAR1') else (-2., 2.), 1: (0.4, 2.5), 2: (-1.2, 1.)}[i]


def values(rng, kind, i, n, irregular=False):
    lo, hi = interval(kind, i)
    lo, hi = lo + 0.1 * rng.random(), hi - 0.1 * rng.random()
    v = np.linspace(lo, hi, n)
    if irregular and n > 3 and rng.random() < 0.4:   # equally spaced except for the last value(s)
        v[-int(rng.integers(1, n - 2)):] += 0.7 * (v[1] - v[0])
        v = lo + (v - lo) * (hi - lo) / (v[-1] - lo)
    elif irregular and n > 2:
        v[1:-1] += 0.3 * (v[1] - v[0]) * (rng.random(n - 2) - 0.5)
        v = np.sort(v)
    return v


def rnd_prior(rng, shape, kinds=('default', 'none', 'array', 'func', 'sympy')):
    k = pick(rng, list(kinds))
    if k == 'array':
        return ('array', 0.05 + rng.random(shape))
    if k == 'func':
        return ('func', pick(rng, sorted(O.PRIOR_FUNCS[len(shape)])), len(shape))
    if k == 'sympy':
        return ('sympy', [pick(rng, ['N', 'U', 'N2']) for _ in shape])
    return (k,)


def rnd_om(rng, kind=None, npar=None, prior=None, size=None, irregular=None, names=None):
    if kind is None:
        npar = npar or pick(rng, [1, 1, 2, 2, 3])
        kind = pick(rng, {1: ONE, 2: TWO, 3: THREE}[npar])
    nm = NAMES[kind].split()
    if names:
        nm = names
    elif not kind.startswith('scipy:') and rng.random() < 0.3:
        nm = [n + pick(rng, ['', '_x', '2']) for n in nm]
    sizes = size or [int(rng.integers(2, {1: 9, 2: 6, 3: 5}[len(nm)])) for _ in nm]
    irr = [rng.random() < 0.15 for _ in nm] if irregular is None else [irregular] * len(nm)
    vals = [values(rng, kind, i, n, ir) for i, (n, ir) in enumerate(zip(sizes, irr))]
    om = dict(kind=kind, names=list(nm), values=vals, prior=('none',))
    om['prior'] = prior if prior is not None else rnd_prior(rng, tuple(sizes))
    return om


def rnd_point(rng, kind):
    if kind == 'Bernoulli':
        return float(rng.integers(2))
    if kind in ('Poisson', 'scipy:poisson'):
        return float(rng.integers(7))
    return float(rng.normal(0.2, 1.1))


def rnd_data(rng, om, T, nan=0.15, dim=None):
    """T time steps (so T+segmentLength-1 points)"""
    k = om['kind']
    n = T + O.seglen(om) - 1
    if k == 'GaussianMean':
        d = np.array([[rng.normal(), 0.3 + rng.random()] for _ in range(n)])
        return d
    if dim is None and O.MULT.get(k, True) and rng.random() < 0.2:
        dim = 2
    if dim:
        d = np.array([[rnd_point(rng, k) for _ in range(dim)] for _ in range(n)])
    else:
        d = np.array([rnd_point(rng, k) for _ in range(n)])
    if nan and rng.random() < 0.5:
        d[rng.random(d.shape) < nan] = np.nan
    return d


def rnd_ts(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        return None
    if k == 1:
        return np.arange(n) + int(rng.integers(-5, 2000))
    if k == 2:
        return np.cumsum(rng.integers(1, 4, n)) + int(rng.integers(-3, 10))
    return np.arange(n) * 0.5 + 0.25


def tstamps(ts, n, seg):
    return list(np.arange(n) if ts is None else ts)[seg - 1:]


class Namer(object):
    def __init__(self):
        self.i = 0

    def __call__(self, b):
        self.i += 1
        return '%s%d' % (b, self.i)


def equidistant(om):
    return all(len(v) < 3 or np.all(np.abs(np.diff(np.diff(v))) < 1e-10) for v in om['values'])


def rnd_elem(rng, om, ts, nm, kinds=None):
    names, shape = om['names'], [len(v) for v in om['values']]
    tgt = pick(rng, names)
    lc = O.lattice(om['values'][names.index(tgt)])
    ks = list(kinds or ['Static', 'GRW', 'GRW', 'GRW', 'CP', 'Ind', 'RS', 'NE', 'Det', 'ASRW', 'BRW'])
    while True:
        k = pick(rng, ks)
        if k == 'ASRW' and (len(shape) > 2 or (len(shape) == 2 and any(n % 2 for n in shape))):
            continue
        if k == 'BRW' and len(shape) != 2:
            continue
        break
    if k in ('Static', 'Ind'):
        return (k,)
    if k == 'GRW':
        return (k, nm('sigma'), pick(rng, [0., 0.3, 0.9, 1.7]) * lc, tgt)
    if k == 'ASRW':
        return (k, nm('c'), pick(rng, [0.6, 1.5]) * lc, nm('alpha'), pick(rng, [1., 1.5, 1.9]), tgt)
    if k == 'BRW':
        l0, l1 = [O.lattice(v) for v in om['values']]
        return (k, nm('s'), pick(rng, [0.5, 1.2]) * l0, nm('s'), pick(rng, [0.4, 0.8]) * l1, nm('rho'), pick(rng, [-0.5, 0., 0.7]))
    if k == 'CP':
        return (k, nm('tc'), pick(rng, list(ts) + [ts[-1] + 7]))
    if k in ('RS', 'NE'):
        return (k, nm('log10pMin'), pick(rng, [-7., -3., -1.5, -1]))
    if k == 'Det':
        if rng.random() < 0.5:
            return (k, 'lin', [(nm('slope'), pick(rng, [0.3, -0.7, 1.0]) * lc)], tgt)
        return (k, 'quad', [(nm('qa'), 0.1 * lc), (nm('qb'), -0.2 * lc)], tgt)


def rnd_tm(rng, om, ts, depth=2, nm=None, kinds=None, serial=True):
    nm = nm or Namer()
    r = rng.random()
    if depth <= 0 or r < 0.5:
        return rnd_elem(rng, om, ts, nm, kinds)
    if r < 0.75 or not serial or len(ts) < 2:
        return ('Comb', [rnd_tm(rng, om, ts, depth - 1, nm, kinds, serial) for _ in range(int(rng.integers(1, 4)))])
    k = int(rng.integers(1, min(3, len(ts) - 1) + 1))
    pts = sorted(rng.choice(len(ts), size=k, replace=False))
    def part():
        m = rnd_tm(rng, om, ts, depth - 1, nm, kinds, False)
        return ('Comb', [m]) if m[0] == 'CP' else m   # a bare ChangePoint would be read as a delimiter
    parts = [part()]
    frac = pick(rng, [0., 0., 0.25, 0.6])
    for p in pts:
        parts.append((pick(rng, ['BP', 'CP']), nm('t'), ts[p] + frac))
        parts.append(part())
    return ('Serial', parts)


def has(s, *kinds):
    t = repr(s)
    return any("('%s'" % k in t for k in kinds)
