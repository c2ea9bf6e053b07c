"""Hyper-parameter addressing on nested transition models (real classes, arbitrary values)."""
import itertools
from engine import terms as T
from engine.terms import ZERO, ONE, num
from .fitc import Fit

LEAVES = {'G': ('GaussianRandomWalk', ['']), 'R': ('RegimeSwitch', ['']), 'N': ('NotEqual', ['']), 'C': ('ChangePoint', ['']), 'S': ('Static', []),
          'A': ('AlphaStableRandomWalk', ['c', 'a']), 'B': ('BivariateRandomWalk', ['x', 'y', 'r']), 'I': ('Independent', [])}


class Tree:
    """builds the model described by a nested tuple: 'G' leaf; ('comb', ..) / ('ser', ..) composite; '|' break-point"""

    def __init__(self, b, shape):
        self.b = b
        self.count = itertools.count()
        self.where = []         # (name, model, index, value term, is a change/break-point)
        self.root = self.make(shape)

    def value(self, name):
        return self.b.real('v_' + name)

    def own(self, model, names, point=False):
        for i, n in enumerate(names):
            self.where.append((n, model, i, self.value(n), point))

    def make(self, sh):
        b, tm = self.b, self.b.mod('transitionModels')
        if isinstance(sh, tuple):
            subs = [self.make(x) for x in sh[1:]]
            if sh[0] == 'ser':
                pts = [self.value(s.name) for s, x in zip(subs, sh[1:]) if x == '|']
                for u, v in zip(pts, pts[1:]):
                    b.assume(T.lt0(u - v))
            M = (tm.CombinedTransitionModel if sh[0] == 'comb' else tm.SerialTransitionModel)(*subs)
            if sh[0] == 'ser':
                # the serial model owns its break times
                self.own(M, [s.name for s, x in zip(subs, sh[1:]) if x == '|'], True)
            return M
        k = next(self.count)
        if sh == '|':
            nm = 't%d' % k
            M = tm.BreakPoint(nm, b.val(self.value(nm)))
            return M
        cls, par = LEAVES[sh]
        names = ['%s%d%s' % (sh, k, p) for p in par]
        vals = [b.val(self.value(n)) for n in names]
        if sh in 'SI':
            M = getattr(tm, cls)()
        elif sh in 'RN':
            M = getattr(tm, cls)(names[0], vals[0])
        elif sh == 'C':
            M = getattr(tm, cls)(names[0], vals[0])
        elif sh == 'B':
            M = getattr(tm, cls)(names[0], vals[0], names[1], vals[1], names[2], vals[2])
        elif sh == 'A':
            M = getattr(tm, cls)(names[0], vals[0], names[1], vals[1], target='p0')
        else:
            M = getattr(tm, cls)(names[0], vals[0], target='p0')
        self.own(M, names, sh == 'C')
        return M

    def check(self, what, want):
        for n, m, i, v, pt in self.where:
            self.b.eq('%s: %s' % (what, n), m.hyperParameterValues[i], lambda: want.get(n, v))
            self.b.true('%s: name %s' % (what, n), m.hyperParameterNames[i] == n)


SHAPES = {'leaf': 'G', 'no hyper-parameters': 'S', 'three in one': 'B', 'combined': ('comb', 'G', 'R'), 'combined with static': ('comb', 'S', 'G', 'I', 'N'),
          'nested': ('comb', ('comb', 'G', 'S'), 'A', 'R'), 'deep': ('comb', ('comb', ('comb', 'G', 'C'), 'N'), ('comb', 'R', 'A')),
          'change-points': ('comb', 'C', 'G', 'C'), 'serial': ('ser', 'S', '|', 'G'), 'serial nested': ('ser', ('comb', 'G', 'R'), '|', 'N', '|', ('comb', 'S', 'A')),
          'combined serial': ('comb', ('ser', 'G', '|', 'R'), 'N'), 'serial of serial': ('ser', ('ser', 'G', '|', 'S'), '|', 'R')}


def study(b, t, rank=1):
    f = Fit(b, rank)
    S = f.study()
    S.transitionModel = t.root
    t.root.study = S
    t.root.latticeConstant = S.latticeConstant
    return f, S


def roundtrip(shape):
    def c(b):
        t = Tree(b, shape)
        f, S = study(b, t, 2)
        names = list(S._unpackAllHyperParameters(values=False))
        vals = S._unpackAllHyperParameters()
        b.true('every hyper-parameter is listed once', sorted(names) == sorted(w[0] for w in t.where) and len(vals) == len(names))
        if len(vals) != len(names):
            return
        own = {w[0]: w for w in t.where}
        for n, v in zip(names, vals):
            b.eq('value read for %s' % n, v, lambda: own[n][3])
            b.eq('getHyperParameterValue(%s)' % n, S.getHyperParameterValue(n), lambda: own[n][3])
        S._setAllHyperParameters(vals)
        t.check('write back', {})
        new = {n: b.real('w_' + n) for n in names}
        S._setAllHyperParameters(b.list([b.val(new[n]) for n in names]))
        t.check('write all', new)
        b.true('names are not modified', list(S._unpackAllHyperParameters(values=False)) == names)
        r = b.call(S.getHyperParameterValue, 'no such name')
        b.true('unknown names are rejected', r[0] == 'exc' and type(r[1]).__name__ == 'PostProcessingError')
    return c


def selected(shape, sel):
    """sel: positions (in the order of the tree) of the selected names, in the order of the selection"""
    def c(b):
        t = Tree(b, shape)
        f, S = study(b, t, 2)
        names = [w[0] for w in t.where]
        own = {w[0]: w for w in t.where}
        sn = [names[i] for i in sel]
        S.selectedHyperParameters = b.list(sn)
        vals = S._unpackSelectedHyperParameters()
        b.true('one value per selected name', len(vals) == len(sn))
        for n, v in zip(sn, vals):
            b.eq('value read for %s' % n, v, lambda: own[n][3])
        S._setSelectedHyperParameters(vals)
        t.check('write back', {})
        new = {n: b.real('w_' + n) for n in sn}
        S._setSelectedHyperParameters(b.list([b.val(new[n]) for n in sn]))
        t.check('write selected', new)
        b.true('selection is not modified', list(S.selectedHyperParameters) == sn)
        S.selectedHyperParameters = b.list(['no such name'])
        r = b.call(S._setSelectedHyperParameters, b.list([b.val(b.real('z'))]))
        b.true('writing an unknown name is rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')
        t.check('rejected write', new)
    return c


def same_name(b):
    """two parameters of the same name are addressed in order"""
    tm = b.mod('transitionModels')
    u, v, w, z = [b.real(n) for n in 'uvwz']
    A = tm.GaussianRandomWalk('s', b.val(u), target='p0')
    B = tm.GaussianRandomWalk('s', b.val(v), target='p1')
    f = Fit(b, 2)
    S = f.study()
    S.transitionModel = tm.CombinedTransitionModel(A, B)
    vals = S._unpackAllHyperParameters()
    b.eq('first', vals[0], lambda: u)
    b.eq('second', vals[1], lambda: v)
    S._setAllHyperParameters(b.list([b.val(w), b.val(z)]))
    b.eq('first written', A.hyperParameterValues[0], lambda: w)
    b.eq('second written', B.hyperParameterValues[0], lambda: z)
    r = b.call(S.fit, silent=True)
    b.true('fits reject duplicate names', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')


CONTRACTS = []
F = 'core.Study._unpackHyperParameters, _unpackAllHyperParameters, _setAllHyperParameters, getHyperParameterValue, helper.flatten, recursiveIndex, assignNestedItem'
F2 = 'core.Study._unpackSelectedHyperParameters, _setSelectedHyperParameters, helper.recursiveIndex, assignNestedItem'
for nm, sh in SHAPES.items():
    CONTRACTS.append(dict(name='read/write ' + nm, function=F, fn=roundtrip(sh), private=True))
for nm, sels in (('leaf', [(0,)]), ('three in one', [(0,), (2, 0), (1, 2)]), ('combined', [(0,), (1,), (1, 0)]), ('combined with static', [(1,), (1, 0)]), ('nested', [(0,), (1,), (2, 0), (3, 1)]),
                 ('deep', [(0,), (3,), (2, 5), (5, 0, 2)]), ('serial nested', [(0,), (3,), (2, 4)]), ('combined serial', [(0,), (2, 1), (3,)])):
    for s in sels:
        CONTRACTS.append(dict(name='selected %s %s' % (nm, ','.join(map(str, s))), function=F2, fn=selected(SHAPES[nm], s), private=True))
CONTRACTS.append(dict(name='equal names', function=F, fn=same_name, private=True))
ASSUMPTIONS = ['transition-model trees: the %d shapes listed in contracts/C18.py (leaves, combined, serial, nested up to depth 3); values are arbitrary' % len(SHAPES)]


# ------------------------------------------------------------------------------------------------- optimisation
class HFit(Fit):
    """study whose (stub) transition model tree depends on its current hyper-parameter values"""
    NAMES = ('h0', 'tc', 'h1', 'h2')

    def tm(self):
        me, b = self, self.b

        class Sub:
            def __init__(self, names, label='sub-model'):
                self.label = label
                self.hyperParameterNames = b.list(names)
                self.hyperParameterValues = b.list([b.val(b.real('v_' + n)) for n in names])

            def __str__(self):
                return self.label

        base = Fit.tm(self)

        class Root(base.__class__):
            def current(self):
                return [b.term(v) for s in self.models for v in s.hyperParameterValues]

            def computeForwardPrior(self, post, t):
                p, t, h = b.table(post), b.term(t), self.current()
                return b.array(me.G, lambda *x: b.uf('TFh', 'nonneg')(p, t, *(h + list(x))))

            def computeBackwardPrior(self, post, t):
                p, t, h = b.table(post), b.term(t), self.current()
                return b.array(me.G, lambda *x: b.uf('TBh', 'nonneg')(p, t, *(h + list(x))))
        r = Root()
        r.models = b.list([Sub(['h0']), Sub(['tc'], 'Change-point'), Sub(['h1', 'h2'])])
        return r

    def at(self, h):
        """specification for given hyper-parameter values"""
        g = Fit(self.b, self.rank)
        g.TF = lambda p, t, *x: self.b.uf('TFh', 'nonneg')(p, t, *(list(h) + list(x)))
        g.TB = lambda p, t, *x: self.b.uf('TBh', 'nonneg')(p, t, *(list(h) + list(x)))
        g.spec()
        k = T.fresh_index()
        g.logz = T.mk_sum([k], [g.N], T.mk_log(g.norm(k))) + T.mk_log(g.vol)
        return g


def optimise(sel, fw=True):
    def c(b):
        f = HFit(b, 1)
        S = f.study()
        b.assume(T.lt0(-f.sumG(lambda *x: f.pri(*x))))
        chosen = {'all': ['h0', 'h1', 'h2'], 'one': ['h1'], 'two': ['h2', 'h0'], 'string': ['h2'], 'point': ['tc']}[sel]
        arg = {'all': b.list([]), 'string': 'h2'}.get(sel, b.list(chosen))
        v = {n: b.real('v_' + n) for n in f.NAMES}
        tried = {n: b.real('x_' + n) for n in chosen}
        best = {n: b.real('y_' + n) for n in chosen}
        log = []

        class Result:
            x = b.array((num(len(chosen)),), lambda i: sum((best[n] * T.eq0(i - k) for k, n in enumerate(chosen)), ZERO))

        def minimize(fun, x0, *a, **kw):
            log.append(list(x0))
            log.append(fun(b.array((num(len(chosen)),), lambda i: sum((tried[n] * T.eq0(i - k) for k, n in enumerate(chosen)), ZERO))))
            return Result()
        b.depend('scipy.optimize', 'minimize', minimize)
        g1 = f.at([tried.get(n, v[n]) for n in f.NAMES])
        g2 = f.at([best.get(n, v[n]) for n in f.NAMES])
        S.optimize(arg, forwardOnly=fw)
        b.true('the optimiser is called once', len(log) == 2)
        b.true('it starts from the current values', len(log[0]) == len(chosen))
        for n, x in zip(chosen, log[0]):
            b.eq('start value %s' % n, x, lambda: v[n])
        ok1 = g1.possible()
        b.eq('objective', log[1], lambda: -g1.logz if ok1 else -T.atom_p(T.NINF))
        names = [n for m in S.transitionModel.models for n in m.hyperParameterNames]
        vals = [x for m in S.transitionModel.models for x in m.hyperParameterValues]
        for n, x in zip(names, vals):
            b.eq('final value %s' % n, x, lambda: best.get(n, v[n]))
        b.true('selection is forgotten', len(S.selectedHyperParameters) == 0)
        ok2 = g2.possible()
        b.eq('log-evidence belongs to the final values', S.logEvidence, lambda: g2.logz if ok2 else T.atom_p(T.NINF))
        if ok2:
            b.eq('posterior belongs to the final values', S.posteriorSequence, lambda i, *x: g2.filt(i, x), [f.N] + f.G)
    return c


for s in ('all', 'one', 'two', 'string', 'point'):
    CONTRACTS.append(dict(name='optimize ' + s, function='core.Study.optimize, _optimizationStep, fit', fn=optimise(s)))
ASSUMPTIONS.append('scipy.optimize.minimize: calls the objective on arrays of the length of the start value and returns an object whose x is such an array '
                   '(the objective is called once at arbitrary values in the contract; further calls overwrite the same state)')
