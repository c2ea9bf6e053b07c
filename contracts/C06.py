"""Custom observation models: binding of grids and fixed values to the named parameters of the user's density."""
import itertools
from engine import terms as T
from engine.sym import p_pow
from engine.terms import ZERO, ONE, num
from .C05 import normal
from .C07 import lift

EXPR = {}


class Model:
    """names in the order in which the user lists them; parameter grids g_name(x) (one axis per listed parameter)"""

    def __init__(self, b, names, signs=None):
        self.b, self.names = b, names
        self.G = [b.size('G%d' % i) for i in range(len(names))]
        self.g = {n: b.uf('g_' + n, (signs or {}).get(n)) for n in names}
        self.grid = b.list([b.array(self.G, (lambda n: lambda *x: self.g[n](*x))(n)) for n in names])
        self.d = b.uf('d')
        self.data = b.array((ONE,), lambda i: self.d(i))
        self.vals = {n: b.array((b.size('V' + n),), (lambda n: lambda i: b.uf('val_' + n)(i))(n)) for n in names}

    def listing(self):
        out = []
        for n in self.names:
            out += [n, self.vals[n]]
        return out

    def check(self, m, dens, what):
        """dens(x, {name: value})"""
        b = self.b
        b.true('parameters are listed in the order of the user', list(m.parameterNames) == self.names)
        for k, n in enumerate(self.names):
            b.same('values of %s' % n, list(m.parameterValues)[k], self.vals[n], [b.size('V' + n)])
        for f in ('pdf', 'processedPdf'):
            r = getattr(m, f)(self.grid, self.data)
            b.eq('%s is %s' % (f, what), r, lambda *x: dens(self.d(ZERO), {n: self.g[n](*x) for n in self.names}), self.G)
        for k, n in enumerate(self.names):
            b.eq('grid of %s is not modified' % n, self.grid[k], lambda *x: self.g[n](*x), self.G)
        b.eq('data is not modified', self.data, lambda i: self.d(i), [ONE])


def scipy_model(order, shapes, fixed, discrete):
    """shapes: shape parameters of the distribution; order: the listed (free) parameters; fixed: the fixed ones"""
    every = list(shapes) + ['loc'] + ([] if discrete else ['scale'])
    D = 'pmf' if discrete else 'pdf'

    def c(b):
        u = Model(b, list(order))
        fx = {n: b.real('fix_' + n) for n in fixed}
        F = {'pdf': b.uf('pdf', 'nonneg'), 'pmf': b.uf('pmf', 'nonneg')}

        def evaluate(which, x, kw):
            if set(kw) - set(every):
                raise TypeError('unexpected keyword')
            for n in every:             # scipy's own defaults
                if n not in kw:
                    if n not in ('loc', 'scale'):
                        raise TypeError('missing ' + n)
            x = b.term(x)
            cols = []
            for n in every:
                v = kw.get(n, 1.0 if n == 'scale' else 0.0)
                if b.symbolic:
                    from engine.sym import as_sarr, num_ok, bidx
                    from engine.terms import to_p
                    if num_ok(v):
                        cols.append((lambda v: lambda *i: to_p(v))(v))
                    else:
                        a = as_sarr(v)
                        cols.append((lambda a: lambda *i: a.at(*bidx(a, i)))(a))
                else:
                    import numpy as np
                    a = np.asarray(v, dtype=float)
                    cols.append(b.table(a) if a.ndim else b.term(v))
            if b.symbolic:
                return b.array(u.G, lambda *i: F[which](*([x] + [q(*i) for q in cols])))
            import numpy as np
            n = [b.val(g, 'i') for g in u.G]
            out = np.empty(n)
            full = [np.broadcast_to(np.asarray(kw.get(m, 1.0 if m == 'scale' else 0.0), dtype=float), n) for m in every]
            for i in np.ndindex(*n):
                out[i] = b.val(F[which](*([x] + [b.term(q[i]) for q in full])))
            return out

        class RV:
            name = 'stub'

            def pmf(self, x, **kw):
                return evaluate('pmf', x, kw)
        if not discrete:
            RV.pdf = lambda self, x, **kw: evaluate('pdf', x, kw)
            del RV.pmf
        RV.__module__ = 'scipy.stats._stub'
        RV.shapes = ', '.join(shapes) if shapes else None
        m = b.mod('observationModels').SciPy(RV(), *u.listing(), fixedParameters={n: b.val(v) for n, v in fx.items()}) if fixed else \
            b.mod('observationModels').SciPy(RV(), *u.listing())

        def dens(x, v):
            w = dict(v)
            w.update(fx)
            return F[D](*([x] + [w[n] if n in w else (ONE if n == 'scale' else ZERO) for n in every]))
        u.check(m, dens, 'the %s with parameters bound by name' % ('probability mass' if discrete else 'density'))
        r = b.call(b.mod('observationModels').SciPy, RV(), 'q', u.vals[order[0]])
        b.true('unknown names are rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
    return c


def numpy_model(n):
    def c(b):
        names = ['a', 'b', 'c'][:n]
        u = Model(b, names)
        F = b.uf('f', 'nonneg')

        def val(x, *ps):
            if b.symbolic:
                from engine.sym import as_sarr
                A = [as_sarr(p) for p in ps]
                t = b.term(x)
                return b.array(u.G, lambda *i: F(*([t] + [a.at(*i) for a in A])))
            import numpy as np
            out = np.empty(ps[0].shape)
            for i in np.ndindex(*out.shape):
                out[i] = b.val(F(*([b.term(x)] + [b.term(p[i]) for p in ps])))
            return out
        f = {1: lambda data, p: val(data, p), 2: lambda data, p, q: val(data, p, q), 3: lambda data, p, q, r: val(data, p, q, r)}[n]
        m = b.mod('observationModels').NumPy(f, *u.listing())
        u.check(m, lambda x, v: F(*([x] + [v[k] for k in names])), 'the function with the grids in the listed order')
        r = b.call(b.mod('observationModels').NumPy, f, *(u.listing() + ['z', 1.0]))
        b.true('a wrong number of parameters is rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
        g = lambda x, p: p
        r = b.call(b.mod('observationModels').NumPy, g, 'a', 1.0)
        b.true('the first argument must be the data', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
    return c


def sympy_model(kind, order):
    def c(b):
        import sympy
        import sympy.stats
        signs = {'std': 'pos', 'lam': 'pos', 'k': 'pos', 'th': 'pos', 's': 'pos'}
        pos = {n: sympy.Symbol(n, positive=True) for n in signs}
        mu = sympy.Symbol('mu', real=True)
        rv, dens = {
            'normal': lambda: (sympy.stats.Normal('n', mu, pos['std']), lambda x, v: normal(x, v['mu'], v['std'])),
            'exponential': lambda: (sympy.stats.Exponential('e', pos['lam']), lambda x, v: v['lam'] * T.mk_exp(-v['lam'] * x)),
            'laplace': lambda: (sympy.stats.Laplace('l', mu, pos['s']), lambda x, v: T.mk_exp(-T.mk_abs(x - v['mu']) / v['s']) / v['s'] / 2),
            'scaled normal': lambda: (sympy.stats.Normal('n', 2 * mu + pos['k'], pos['std']), lambda x, v: normal(x, v['mu'] * 2 + v['k'], v['std'])),
        }[kind]()
        u = Model(b, list(order), signs)
        m = b.mod('observationModels').SymPy(rv, *u.listing(), determineJeffreysPrior=False)
        u.check(m, dens, 'the density with symbols bound by name')
        r = b.call(b.mod('observationModels').SymPy, rv, 'q', u.vals[order[0]], determineJeffreysPrior=False)
        b.true('unknown names are rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
    return c


def sympy_any(order, n):
    """arbitrary density with n parameters"""
    def c(b):
        import sympy
        import sympy.stats
        from sympy.utilities.lambdify import implemented_function
        names = ['a', 'b', 'c'][:n]
        d = b.uf('dens', 'pos')
        z = sympy.Symbol('z')
        f = implemented_function('dens', lambda *v: lift(b, d, *v))
        rv = sympy.stats.ContinuousRV(z, f(z, *[sympy.Symbol(k) for k in names]), set=sympy.S.Reals)
        u = Model(b, list(order))
        m = b.mod('observationModels').SymPy(rv, *u.listing(), determineJeffreysPrior=False)
        u.check(m, lambda x, v: d(x, *[v[k] for k in names]), 'the density with symbols bound by name')
        r = b.call(b.mod('observationModels').SymPy, rv, 'q', u.vals[order[0]], determineJeffreysPrior=False)
        b.true('unknown names are rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
    return c


CONTRACTS = []
F = 'observationModels.SciPy.__init__, observationModels.SciPy.pdf, observationModels.ObservationModel.processedPdf'
for shapes in ([], ['a'], ['a', 'b']):
    for disc in (False, True):
        every = shapes + ['loc'] + ([] if disc else ['scale'])
        for n in range(0, len(every)):
            for fixed in itertools.combinations(every, n):
                free = [p for p in every if p not in fixed]
                if len(free) > 3:
                    continue
                for order in itertools.permutations(free):
                    CONTRACTS.append(dict(name='scipy %s(%s)%s%s' % ('discrete' if disc else 'continuous', ','.join(shapes), ' ' + ' '.join(order), ' fixed ' + ' '.join(fixed) if fixed else ''),
                                          function=F, fn=scipy_model(order, shapes, fixed, disc), sizes=(2, 3), tier='thorough' if len(every) == 4 and len(free) == 3 and order[0] != free[1] else 'quick'))
for n in (1, 2, 3):
    CONTRACTS.append(dict(name='function of %d parameters' % n, function='observationModels.NumPy.__init__, observationModels.NumPy.pdf', fn=numpy_model(n), sizes=(2, 3)))
for kind, names in (('normal', ('mu', 'std')), ('exponential', ('lam',)), ('laplace', ('mu', 's')), ('scaled normal', ('mu', 'k', 'std'))):
    for order in itertools.permutations(names):
        CONTRACTS.append(dict(name='sympy %s %s' % (kind, ' '.join(order)), function='observationModels.SymPy.__init__, observationModels.SymPy.pdf, helper.freeSymbols', fn=sympy_model(kind, order), sizes=(2, 3)))
for n in (1, 2, 3):
    for order in itertools.permutations(['a', 'b', 'c'][:n]):
        CONTRACTS.append(dict(name='sympy any density %s' % ' '.join(order), function='observationModels.SymPy.__init__, observationModels.SymPy.pdf, helper.freeSymbols', fn=sympy_any(order, n), sizes=(2, 3)))
ASSUMPTIONS = ['scipy.stats distributions evaluate their density/mass with the keyword arguments broadcast against each other (absent loc=0, scale=1)',
               'sympy.stats.density and sympy.lambdify (arguments bound by position) are as documented; the SymPy contracts cover the distributions named in their title and continuous random variables with an arbitrary density (ContinuousRV over an undefined function), all listing orders']
