"""Saving and loading: whatever is proved for a study is proved for the study that was saved and read back (contracts of the other
properties executed on load(save(S))), and for S after it was saved."""
import contextlib
import io
import os
import shutil
import tempfile
import atexit
from engine import terms as T, backend, evalm
from engine.terms import ZERO, ONE, num
from . import fitc, hyperc, tmc, compc, onlinec, C06, C10, C11, C13, C15, C16
from .fitc import Fit

REF = []


def _get(k):
    return REF[k]


def _byref(self, proto):
    REF.append(self)
    return _get, (len(REF) - 1,)


# the apparatus of the contracts (terms, models, specifications) is environment, not state of the study
for _c in (T.P, T.Atom, T.Rec, evalm.Model, backend.Base, Fit, hyperc.Axis, onlinec.Online, C06.Model):
    _c.__reduce_ex__ = _byref
DIR = []


def path(name):
    if not DIR:
        DIR.append(tempfile.mkdtemp(prefix='vc19'))
        atexit.register(shutil.rmtree, DIR[0], True)
    return os.path.join(DIR[0], name)


def put(b, S, name='study.bl'):
    with contextlib.redirect_stdout(io.StringIO()):
        b.mod('fileIO').save(path(name), S)


def get(b, name='study.bl'):
    with contextlib.redirect_stdout(io.StringIO()):
        return b.mod('fileIO').load(path(name))


def reload(b, S, which='loaded'):
    put(b, S)
    L = get(b)
    b.true('type of the study', type(L) is type(S))
    b.true('a study of its own', L is not S)
    tm = getattr(S, 'transitionModel', None)
    if tm is not None and getattr(tm, 'study', None) is S:
        b.true('transition model belongs to the loaded study', L.transitionModel.study is L and L.transitionModel is not tm)
    return L if which == 'loaded' else S


def fitted(fn, which):
    """contract fn (which builds its study with Fit.study) on the saved and loaded study"""
    def c(b):
        old = Fit.study

        def study(self, *a, **kw):
            return reload(b, old(self, *a, **kw), which)
        Fit.study = study
        try:
            fn(b)
        finally:
            Fit.study = old
    return c


def swapped(mod, cls, new, fn):
    def c(b):
        old = getattr(mod, cls)
        setattr(mod, cls, new)
        try:
            fn(b)
        finally:
            setattr(mod, cls, old)
    return c


def after(base, which):
    """base with its study S saved and loaded at the end of the constructor"""
    class R(base):
        def __init__(self, *a, **kw):
            base.__init__(self, *a, **kw)
            if type(self) is R:
                self.S = reload(self.b, self.S, which)
    R.__name__ = base.__name__
    return R


def model(base):
    """transition model saved and loaded with its study before it is used again"""
    class R(base):
        def run(self, M, back):
            S = self.S
            S.transitionModel, M.study = M, S
            L = reload(self.b, S)
            self.S = L
            return base.run(self, L.transitionModel, back)
    return R


def observation(check):
    def f(self, m, dens, what):
        S = self.b.mod('core').Study(silent=True)
        S.observationModel = m
        L = reload(self.b, S)
        return check(self, L.observationModel, dens, what)
    return f


def patched(obj, attr, new, fn):
    def c(b):
        old = getattr(obj, attr)
        setattr(obj, attr, new(old))
        try:
            fn(b)
        finally:
            setattr(obj, attr, old)
    return c


def refit(mode, which):
    """a study that already has results, saved, loaded, fitted again"""
    def c(b):
        old = Fit.study

        def study(self, *a, **kw):
            S = old(self, *a, **kw)
            PS = b.uf('PS', 'nonneg')
            S.posteriorSequence = b.array([self.N] + self.G, lambda i, *x: PS(i, *x))
            S.posteriorMeanValues = b.array([num(self.rank), self.N], lambda k, i: b.uf('mv')(k, i))
            S.logEvidence = b.val(b.uf('le0')(ZERO))
            S.localEvidence = b.array((self.N,), lambda i: b.uf('lo')(i))
            S.formattedTimestamps = b.array((self.N,), lambda i: self.time(i))
            R = reload(b, S, which)
            for s, X in (('loaded', R), ('saved', S)):
                b.eq('posterior of the %s study' % s, X.posteriorSequence, lambda i, *x: PS(i, *x), [self.N] + self.G)
                b.eq('mean values of the %s study' % s, X.posteriorMeanValues, lambda k, i: b.uf('mv')(k, i), [num(self.rank), self.N])
                b.eq('log-evidence of the %s study' % s, X.logEvidence, lambda: b.uf('le0')(ZERO))
                b.eq('local evidence of the %s study' % s, X.localEvidence, lambda i: b.uf('lo')(i), [self.N])
                b.eq('data of the %s study' % s, X.rawData, lambda i: self.data(i), [self.rawN])
                b.eq('timestamps of the %s study' % s, X.rawTimestamps, lambda i: self.ts(i), [self.rawN])
                b.eq('formatted timestamps of the %s study' % s, X.formattedTimestamps, lambda i: self.time(i), [self.N])
                for k in range(self.rank):
                    b.eq('values of parameter %d of the %s study' % (k, s), X.marginalGrid[k], lambda i: self.gv[k](i), [self.G[k]])
                    b.eq('grid of parameter %d of the %s study' % (k, s), X.grid[k], lambda *x: self.gv[k](x[k]), self.G)
                    b.eq('spacing %d of the %s study' % (k, s), X.latticeConstant[k], lambda: self.dx[k])
                    b.eq('grid size %d of the %s study' % (k, s), X.gridSize[k], lambda: self.G[k])
            return R
        Fit.study = study
        try:
            fitc.fit(1, mode, {'C01', 'C02', 'C03'}, 2)(b)
        finally:
            Fit.study = old
    return c


def online(models, which, **kw):
    def c(b):
        o = onlinec.Online(b, models, **kw)
        S = o.study()
        n = o.f.N
        o.state(S, n)
        R = reload(b, S, which)
        o.held(R, n, S)
        R.step(b.val(o.f.data(n + (o.seg - 1))))
        o.check(R, n + 1)
        if which == 'loaded':
            b.eq('the saved study is not affected', S.rawData, lambda i: o.f.data(i), [n + (o.seg - 1)])
            b.eq('times of the saved study are not affected', S.formattedTimestamps, lambda i: i + (o.seg - 1), [n])
    return c


def held(o, L, n, S):
    b, f = o.b, o.f
    for m, q in enumerate(o.M):
        b.eq('posterior of every combination, model %d, before the step' % m, L.parameterPosterior[m], lambda k, *x: q.filt(k, n - 1, x), [q.tot] + f.G)
    b.eq('reported posterior before the step', L.marginalizedPosterior, lambda *x: o.mix(n, x), f.G)
    b.eq('log-evidence before the step', L.logEvidence, lambda: b.uf('le0')(ZERO))
    b.true('names of the transition models', [str(x) for x in L.transitionModelNames] == [str(x) for x in S.transitionModelNames])


onlinec.Online.held = held


def firststep(models, which, **kw):
    """saved before the first step"""
    def c(b):
        o = onlinec.Online(b, models, **kw)
        S = reload(b, o.study(), which)
        for i in range(o.seg):
            S.step(b.val(o.f.data(num(i))))
            if i < o.seg - 1:
                S = reload(b, S, which)
        o.check(S, 1)
    return c


def files(b):
    """several files, overwriting, repeated loading"""
    n, m = b.size('n'), b.size('m')
    A, B = b.mod('core').Study(silent=True), b.mod('core').HyperStudy(silent=True)
    A.rawData = b.array((n,), lambda i: b.uf('da')(i))
    B.rawData = b.array((m,), lambda i: b.uf('db')(i))
    put(b, A, 'one')
    put(b, B, 'two')
    put(b, A, 'three')
    put(b, B, 'one')
    B.rawData[0] = 7.0
    L = get(b, 'one')
    b.eq('the last study written to the file', L.rawData, lambda i: b.uf('db')(i), [m])
    b.true('and its type', type(L) is type(B))
    L.rawData[0] = 5.0
    b.eq('reading twice', get(b, 'one').rawData, lambda i: b.uf('db')(i), [m])
    b.eq('another file', get(b, 'two').rawData, lambda i: b.uf('db')(i), [m])
    L = get(b, 'three')
    b.eq('a third file', L.rawData, lambda i: b.uf('da')(i), [n])
    b.true('with its type', type(L) is type(A))
    b.eq('the saved study keeps its data', A.rawData, lambda i: b.uf('da')(i), [n])
    r = b.call(get, b, 'missing')
    b.true('a missing file is an error', r[0] == 'exc')


F = 'fileIO.save, fileIO.load, '
CONTRACTS = [dict(name='files', function='fileIO.save, fileIO.load', fn=files, sizes=(1, 4))]


def add(name, function, fn, **kw):
    CONTRACTS.append(dict(name=name, function=F + function, fn=fn, **kw))


for which in ('loaded', 'saved'):
    for mode in ('forward', 'full'):
        add('fit-%s of the %s study' % (mode, which), 'core.Study.fit', refit(mode, which))
    add('fit-evidence of the %s study' % which, 'core.Study.fit', fitted(fitc.fit(2, 'evidence', {'C02'}), which))
    for ax, mode in (([('lin', 'fun'), ('lin', 'arr')], 'forward'), ([('all', None)], 'full')):
        add('hyper-study fit-%s, %s' % (mode, which), 'core.HyperStudy.fit', fitted(C11.fit(ax, mode), which), sizes=(2, 3), model=hyperc.timesinc)
    ax, gr, la, pts = C13.SETS['two change-points']
    add('change-point study, %s' % which, 'core.ChangepointStudy.fit', fitted(C13.fit(ax, gr, la, pts, 'forward'), which), sizes=(3, 4), model=hyperc.timesinc)
    for nm, kw in (('two models', dict(models=[[], [('lin', 'fun')]])), ('no history, segments of two', dict(models=[[('lin', None)]], history=False, seg=2)),
                   ('prior', dict(models=[[], []], prior=True))):
        add('online study, %s, %s' % (nm, which), 'core.OnlineStudy.step', online(which=which, **kw), sizes=(2, 3))
        add('online study before the first step, %s, %s' % (nm, which), 'core.OnlineStudy.step', firststep(which=which, **kw), sizes=(2, 3))
    P = after(C16.Post, which)
    for nm, fn in (('distribution', C16.distribution(2, 1, True, 'at')), ('average distribution', C16.distribution(2, 0, False, 'avg')), ('distributions', C16.distributions(2, 1, True)),
                   ('mean values', C16.means(2, 1)), ('simulate', C16.simulate(1, True, 'at'))):
        add('%s of the %s study' % (nm, which), 'core.Study getters', swapped(C16, 'Post', P, fn), sizes=(2, 4), model=C16.small)
    H = after(C16.Hyper, which)
    for nm, fn in (('hyper-parameter distribution', C16.hyper(3, 1, True)), ('joint hyper-parameter distribution', C16.joint(3, 2, 0, False))):
        add('%s of the %s study' % (nm, which), 'core.HyperStudy getters', swapped(C16, 'Hyper', H, fn), sizes=(2, 4))
    O = after(C15.Hist, which)
    for nm, fn in (('parameter history', C15.parameters([[], [('lin', None)]], 0, True, rank=2)), ('model history', C15.models([[], [('lin', None)]])),
                   ('hyper-parameter history', C15.hyper([[('lin', None), ('lin', 'fun')]], 0, 1))):
        add('%s of the %s study' % (nm, which), 'core.OnlineStudy getters', swapped(C15, 'Hist', O, fn), sizes=(2, 3), model=C15.small)
for back in (False, True):
    s = 'backward' if back else 'forward'
    K = model(tmc.Case)
    for nm, fn, ts in (('ChangePoint', tmc.changepoint(1, back), ('t', 'tc')), ('Independent', tmc.independent(1, back), ()), ('RegimeSwitch', tmc.regime(2, back), ()),
                       ('NotEqual', tmc.notequal(1, back), ())):
        add('%s %s' % (nm, s), 'transitionModels.%s' % nm, swapped(tmc, 'Case', K, fn), model=tmc.times(*ts))
    for nm, fn in (('Combined', compc.combined(1, 2, back)), ('Serial', compc.serial(1, 'BC', back)), ('Serial of combined', compc.serial(1, 'B', back, True))):
        add('%s %s' % (nm, s), 'transitionModels.%sTransitionModel' % nm.split()[0], swapped(compc, 'Case', K, fn), model=tmc.times('t', 'tb0', 'tb1'))
    H = model(C10.Hist)
    for mode in ('first', 'hyper', 'grid'):
        add('GaussianRandomWalk %s %s' % (s, mode), 'transitionModels.GaussianRandomWalk', swapped(C10, 'Hist', H, C10.gauss(2, 1, back, mode)))
    for mode in ('hyper', 'grid', 'size'):
        add('AlphaStableRandomWalk %s %s' % (s, mode), 'transitionModels.AlphaStableRandomWalk', swapped(C10, 'Hist', H, C10.fresh_model(2, 1, back, mode, 'alpha')))
        add('BivariateRandomWalk %s %s' % (s, mode), 'transitionModels.BivariateRandomWalk', swapped(C10, 'Hist', H, C10.fresh_model(2, 0, back, mode, 'biv')),
            model=lambda m: m.values.update(rho=0.3, rhoo=-0.4))
    add('Deterministic %s' % s, 'transitionModels.Deterministic', swapped(C10, 'Hist', H, C10.det(2, 1, back)))
for nm, fn in (('SciPy', C06.scipy_model(('scale', 'a'), ['a'], ('loc',), False)), ('SciPy discrete', C06.scipy_model(('loc', 'a'), ['a'], (), True)), ('NumPy', C06.numpy_model(2)),
               ('SymPy', C06.sympy_model('normal', ('std', 'mu')))):
    add('observation model %s' % nm, 'observationModels.%s' % nm.split()[0], patched(C06.Model, 'check', observation, fn), sizes=(2, 3))
ASSUMPTIONS = ['cloudpickle reproduces the object graph as laid down by the pickle protocol of the objects; functions, classes and SymPy objects are restored with the same behaviour',
               'the file system returns what was last written']
