"""Numerical interpretation of terms in a random finite model.

Used (a) to replay contracts on concrete inputs through the unmodified code, (b) to cross-check the symbolic
executor against CPython/numpy, (c) as a vacuity guard (path conditions must be satisfiable by a model).
Uninterpreted functions are smooth pseudo-random functions of their arguments, so that rounding errors of the real
code do not change the interpretation."""
import hashlib
import itertools
import math
import numpy as np
from . import terms as T


class EvalError(Exception):
    pass


def _h(*a):
    d = hashlib.blake2b(repr(a).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


def _key(a):
    return tuple((x.shape, x.tobytes()) if isinstance(x, np.ndarray) else x for x in a)


def library(name):
    """interpretation of the library functions that the engine treats as uninterpreted"""
    h = name.split(':')

    def cached(m, key, f):
        k = ('lib', name) + key
        if k not in m.memo:
            m.memo[k] = f()
        return m.memo[k]
    if h[0] == 'gauss1d':
        def f(m, x, s, *i):
            from scipy.ndimage import gaussian_filter1d
            return float(cached(m, _key((x, s)), lambda: gaussian_filter1d(np.array(x), s, axis=int(h[1])))[tuple(int(j) for j in i)])
        return f
    if h[0] == 'shift':
        def f(m, x, *r):
            from scipy.ndimage import shift
            d, i = r[:x.ndim], r[x.ndim:]
            return float(cached(m, _key((x,) + tuple(d)), lambda: shift(np.array(x), d, order=int(h[1]), mode=h[2]))[tuple(int(j) for j in i)])
        return f
    if h[0] in ('fftconvolve', 'convolve2d'):
        def f(m, x, y, *i):
            from scipy import signal
            g = (lambda: signal.fftconvolve(x, y, mode='same')) if h[0] == 'fftconvolve' else \
                (lambda: signal.convolve2d(x, y, mode='same', boundary=h[1], fillvalue=float(h[2])))
            return float(cached(m, _key((x, y)), g)[tuple(int(j) for j in i)])
        return f
    if h[0] == 'irfft':
        def f(m, x, i):
            return float(cached(m, _key((x,)), lambda: np.fft.irfft(x))[int(i)])
        return f
    if h[0] == 'mvnpdf':
        def f(m, *a):
            from scipy.stats import multivariate_normal
            n = {6 + 2: 2, 3: 1, 15: 3}.get(len(a))
            if n is None:
                raise EvalError('mvnpdf arity %d' % len(a))
            return float(multivariate_normal.pdf(a[:n], mean=a[n:2 * n], cov=np.array(a[2 * n:]).reshape(n, n)))
        return f
    if h[0] in ('gammaln', 'gammafn', 'factorial'):
        def f(m, x):
            from scipy import special
            return float({'gammaln': special.gammaln, 'gammafn': special.gamma, 'factorial': special.factorial}[h[0]](x))
        return f
    if h[0] == 'roll':
        return lambda m, x, k, i: float(np.roll(x, int(round(k)))[int(i)])
    if h[0] in ('nanmean', 'nanstd', 'nanmax', 'nanmin'):
        return lambda m, x: float(getattr(np, h[0])(x))
    if h[0] == 'prod':
        return lambda m, x: float(np.prod(x))
    if h[0] in ('trunc', 'round'):
        return lambda m, x: float(getattr(np, h[0])(x))
    if h[0] == 'floordiv':
        return lambda m, x, y: float(x // y)
    if h[0] == 'splitat':
        return lambda m, x: float(x)
    if h[0] == 'mod':
        return lambda m, x, y: float(x % y)
    if h[0] == 'splitpoint':
        def f(m, N, n, i):
            N, n, i = int(N), int(n), int(i)
            return float(sum(N // n + (1 if k < N % n else 0) for k in range(i)))
        return f
    if h[0] == 'nth':
        def f(m, mask, j):
            k = np.flatnonzero(mask)
            return float(k[int(j)]) if 0 <= int(j) < len(k) else 0.
        return f
    if h[0] == 'uniqn':
        return lambda m, x: float(len(np.unique(np.round(x, 10))))
    if h[0] == 'uniq':
        def f(m, x, j):
            u = np.asarray(x)[np.unique(np.round(x, 10), return_index=True)[1]]
            return float(u[int(j)]) if 0 <= int(j) < len(u) else math.nan
        return f
    if h[0] == 'rank':
        return lambda m, mask, k: float(np.count_nonzero(mask[:int(k)]))
    if h[0].startswith('unflat'):
        def f(m, flat, *dims):
            return float(np.unravel_index(int(flat), [int(d) for d in dims])[int(h[0][6:])])
        return f
    if h[0] in ('sin', 'cos', 'tan', 'ceil', 'floor', 'tanh', 'arctan', 'arcsin', 'sinh', 'cosh'):
        return lambda m, x: float(getattr(np, h[0])(x))
    return None


class Model:
    def __init__(self, seed, sizes=None, values=None, interp=None, size_range=(1, 4)):
        self.seed = seed
        self.values = dict(values or {})
        self.interp = dict(interp or {})
        self.size_range = size_range
        self.memo = {}
        self.recmemo = {}
        self.coefs = {}

    # ------------------------------------------------------------------------------------------- leaves
    def var(self, a):
        name = a.args[0]
        v = self.values.get(name)
        if v is None:
            u = _h(self.seed, 'var', name)
            if a.sort == 'int':
                lo, hi = self.size_range
                v = lo + int(u * (hi - lo + 1))
                if a.sign is None:
                    v = int(u * 7) - 3
                elif a.sign == 'nonneg':
                    v = int(u * (hi + 1))
            elif a.sign == 'pos':
                v = 0.15 + 1.7 * u
            elif a.sign == 'nonneg':
                v = max(0.0, -0.2 + 2 * u)
            else:
                v = -2 + 4 * u
            self.values[name] = v
        return v

    def coef(self, name, i):
        k = (name, i)
        c = self.coefs.get(k)
        if c is None:
            c = self.coefs[k] = 0.7 + 3.1 * _h(self.seed, 'c', name, i)
        return c

    def smooth(self, name, args):
        """value in [-1,1] depending smoothly on scalar and table arguments"""
        s = self.coef(name, 'phi')
        for i, x in enumerate(args):
            if isinstance(x, np.ndarray):
                f = x.ravel()
                for j, y in enumerate(f):
                    s += self.coef(name, (i, j % 50)) * y
                s += self.coef(name, (i, 'n')) * len(f)
            else:
                s += self.coef(name, i) * 1.37 * x
        return math.sin(s)

    def app(self, name, args, sign):
        f = self.interp.get(name)
        if f is not None:
            return float(f(self, *args))
        f = library(name)
        if f is not None:
            return f(self, *args)
        if name in T.MONO:
            return 3.0 + 2.0 * args[0] + sum(0.5 * math.sin(x) for x in args[1:])
        u = self.smooth(name, args)
        if sign == 'pos':
            return 1.1 + u
        if sign == 'nonneg':
            return max(0.0, 0.55 + u)
        return 2.0 * u

    # -------------------------------------------------------------------------------------------- terms
    def ev(self, p, env=None):
        env = env or {}
        s = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:              # literals first: 0 * anything = 0
                if a.lit and self.atom(a, env) == 0.0:
                    v = 0.0
                    break
            if v == 0.0:
                continue
            lx = 0.0
            for a, e in m:
                if a.lit:
                    continue
                if a.kind == 'exp':
                    lx += float(e) * self.ev(a.args[0], env)
                    continue
                x = self.atom(a, env)
                if e == 1:
                    v = v * x if not (v == 0.0 and math.isinf(x)) else 0.0
                else:
                    try:
                        v = v * (x ** float(e) if not isinstance(e, int) else x ** e)
                    except ZeroDivisionError:
                        v = v * float('nan') if v != 0 else 0.0
                if isinstance(v, complex):
                    v = float('nan')
            if lx:
                v *= math.exp(max(-745.0, min(lx, 700.0))) if lx == lx else lx
            s += v
        return s

    def atom(self, a, env):
        if a.kind == 'bvar':
            return env[a]
        if a.kind == 'var' and a in env:
            return env[a]
        fv = [b for b in a.fv if b in env]
        key = (a, tuple(sorted((b.id, env[b]) for b in fv)))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._atom(a, env)
        return r

    def _atom(self, a, env):
        k = a.kind
        if k == 'var':
            return self.var(a)
        if k == 'const':
            return {'pi': math.pi, '-inf': -math.inf, 'nan': math.nan}[a.args[0]]
        if k in ('app', 'bapp'):
            args = [self.arg(x, env) for x in a.args[1:]]
            if k == 'app':
                return self.app(a.args[0], args, a.sign)
            f = self.interp.get(a.args[0])
            if f is not None:
                return float(bool(f(self, *args)))
            return float(self.smooth(a.args[0], args) > 0.6)
        if k == 'exp':
            return math.exp(min(self.ev(a.args[0], env), 700))
        if k == 'log':
            x = self.ev(a.args[0], env)
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if k == 'abs':
            return abs(self.ev(a.args[0], env))
        if k == 'base':
            return self.ev(a.args[0], env)
        if k == 'le':
            return float(self.ev(a.args[0], env) <= self.tol(a))
        if k == 'lt':
            return float(self.ev(a.args[0], env) < -self.tol(a))
        if k == 'eq':
            return float(abs(self.ev(a.args[0], env)) <= 1e-11)
        if k in ('sum', 'max'):
            ds, levels, b = a.args
            n = [self.int(d, env) for d in ds]
            lv = [T.the_atom(T.bvar(l)) for l in levels]
            tot = 0.0 if k == 'sum' else -math.inf
            for idx in itertools.product(*[range(x) for x in n]):
                e2 = dict(env)
                e2.update(zip(lv, idx))
                v = self.ev(b, e2)
                tot = tot + v if k == 'sum' else max(tot, v)
            return tot
        if k == 'rec':
            rec, j, i = a.args[:3]
            i = self.int(i, env)
            idx = [self.int(x, env) for x in a.args[3:]]
            return self.rec(rec, j, i, idx, env)
        if k in ('lam', 'tab'):
            return self.table(a, env)
        raise EvalError(k)

    def tol(self, a):
        return 1e-11 if not a.args[0].is_int() else 1e-6

    def int(self, p, env=None):
        v = self.ev(p, env)
        r = round(v)
        if abs(v - r) > 1e-6:
            raise EvalError('non-integer size')
        return int(r)

    def arg(self, p, env):
        a = p.as_atom()
        if a is not None and a.kind in ('lam', 'tab'):
            return self.atom(a, env) if a.kind == 'lam' else self.table(a, env)
        return self.ev(p, env)

    def table(self, a, env):
        if a.kind == 'tab':
            return np.frombuffer(a.args[1]).reshape(a.args[0])
        ds, levels, b = a.args
        n = [max(0, self.int(d, env)) for d in ds]
        lv = [T.the_atom(T.bvar(l)) for l in levels]
        out = np.empty(n)
        for idx in itertools.product(*[range(x) for x in n]):
            e2 = dict(env)
            e2.update(zip(lv, idx))
            out[idx] = self.ev(b, e2)
        return out

    def rec(self, rec, j, i, idx, env):
        fve = tuple(sorted((b.id, env[b]) for b in rec.fv if b in env))
        key = (rec.id, j, i, tuple(idx), fve)
        r = self.recmemo.get(key)
        if r is not None:
            return r
        rank, l0, b0, l1, b1, sg = rec.comps[j]
        if i <= 0:
            e2 = {b: v for b, v in env.items() if b in rec.fv}
            e2.update((T.the_atom(T.bvar(l)), x) for l, x in zip(l0, idx))
            r = self.ev(b0, e2)
        else:
            e2 = {b: v for b, v in env.items() if b in rec.fv}
            e2.update((T.the_atom(T.bvar(l)), x) for l, x in zip(l1, list(idx) + [i - 1]))
            r = self.rec_ev(b1, rec, e2)
        self.recmemo[key] = r
        return r

    def rec_ev(self, b, rec, env):
        # resolve the placeholders lazily through a substituted term
        b2 = self.__dict__.setdefault('_resolved', {})
        k = (b, rec.id)
        if k not in b2:
            b2[k] = T.rec_resolve(b, rec)
        return self.ev(b2[k], env)

    def array(self, dims, vs, body):
        n = [self.int(d) for d in dims]
        out = np.empty(n)
        at = [T.the_atom(v) for v in vs]
        for idx in itertools.product(*[range(x) for x in n]):
            out[idx] = self.ev(body, dict(zip(at, idx)))
        return out
