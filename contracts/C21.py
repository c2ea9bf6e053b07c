"""HyperStudy._createHyperGrid (driven directly, by fit and by addTransitionModel) for arbitrary values and priors."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from .hyperc import Axis, HStudy, timesinc


def check(b, f, S, values, const, prior):
    b.eq('hyper-grid', values, lambda k, j: sum((v * T.eq0(j - q) for q, v in enumerate(f.h(k))), ZERO), [f.tot, num(len(f.axes))])
    for q, a in enumerate(f.axes):
        b.eq('constant %d' % q, const[q], lambda: a.const)
    b.eq('prior values', prior, lambda k: f.prior(k), [f.tot])


def grid(axes, group=None, via='direct'):
    def c(b):
        f = HStudy(b, [Axis(b, j, k, p) for j, (k, p) in enumerate(axes)], group=group)
        if any(k == 'all' for k, p in axes):
            b.assume(T.le0(num(2) - f.N))
        f.S = S = f.study('HyperStudy' if via != 'online' else 'OnlineStudy')
        if via == 'direct':
            S.formattedTimestamps = b.array((f.N,), lambda i: f.time(i))
            S._createHyperGrid(silent=True)
            check(b, f, S, S.hyperGridValues, S.hyperGridConstant, S.flatHyperPriorValues)
            b.true('names', list(S.flatHyperParameterNames) == [a.name for a in f.axes])
        elif via == 'online':
            tm = S.transitionModel
            S.transitionModel = None
            S.rawData = b.array((ZERO,), lambda i: ZERO)
            S.addTransitionModel('m', tm)
            check(b, f, S, S.hyperParameterValues[0], S.hyperGridConstants[0], S.hyperPriorValues[0])
            b.eq('number of combinations', S.tmCount, lambda: f.tot)
            b.eq('number of combinations of the model', S.tmCounts[0], lambda: f.tot)
        f.kept()
        for j, a in enumerate(f.axes):
            if a.prior == 'arr':
                m, q = [(i, js.index(j)) for i, js in enumerate(f.group) if j in js][0]
                pr = S.transitionModel.models[m].prior
                pr = pr if len(f.group[m]) == 1 else pr[q]
                b.eq('user prior %d is kept' % j, pr, lambda i: a.raw(i), [a.n])
    return c


def empty(b):
    f = HStudy(b, [], group=[[], []])
    f.S = S = f.study('HyperStudy')
    for m in S.transitionModel.models:
        m.prior = None
    S.formattedTimestamps = b.array((f.N,), lambda i: f.time(i))
    S._createHyperGrid(silent=True)
    b.true('empty grid', len(S.hyperGridValues) == 0)
    b.eq('prior of the empty combination', S.flatHyperPriorValues, lambda k: ONE, [ONE])


def badlen(b):
    f = HStudy(b, [Axis(b, 0, 'lin', 'arr')])
    f.S = S = f.study('HyperStudy')
    m = b.size('m')
    w = b.uf('ww', 'nonneg')
    S.transitionModel.models[0].prior = b.array((m,), lambda i: w(i))
    S.formattedTimestamps = b.array((f.N,), lambda i: f.time(i))
    if b.fork(T.eq0(m - f.axes[0].n)):
        return b.true('same length', True)
    r = b.call(S._createHyperGrid, silent=True)
    b.true('array priors of the wrong length are rejected', r[0] == 'exc' and type(r[1]).__name__ == 'ConfigurationError')


CONTRACTS = []
F = 'core.HyperStudy._createHyperGrid, _unpackHyperPriors, core.Study._unpackHyperParameters'
one = [[(k, p)] for k in ('lin', 'free', 'all', 'one') for p in (None, 'fun', 'arr', 'sym', 'any') if not (k == 'one' and p) and not (k == 'all' and p == 'arr')]
two = [[('lin', None), ('lin', None)], [('lin', 'fun'), ('free', 'arr')], [('free', None), ('lin', 'arr')], [('all', None), ('lin', 'fun')], [('one', None), ('lin', None)],
       [('lin', 'arr'), ('one', None)], [('lin', 'sym'), ('free', 'sym')], [('free', 'fun'), ('lin', 'sym')], [('all', 'sym'), ('lin', None)], [('lin', 'any'), ('free', 'any')], [('all', 'any'), ('lin', 'arr')]]
three = [[('lin', None), ('lin', 'fun'), ('lin', 'arr')], [('lin', 'arr'), ('one', None), ('lin', 'fun')]]
for ax in one + two + three:
    lab = ' '.join('%s:%s' % (k, p or 'uniform') for k, p in ax)
    groups = [None] + ([[list(range(len(ax)))], [[], [0], list(range(1, len(ax)))]] if len(ax) > 1 else [])
    for gi, g in enumerate(groups):
        CONTRACTS.append(dict(name='grid %s%s' % (lab, ' group%d' % gi if gi else ''), function=F, fn=grid(ax, g), private=True, sizes=(1, 4), model=timesinc))
    if not any(k == 'all' for k, p in ax):
        CONTRACTS.append(dict(name='online %s' % lab, function='core.OnlineStudy.addTransitionModel, ' + F, fn=grid(ax, None, 'online'), sizes=(1, 4), model=timesinc))
CONTRACTS.append(dict(name='no hyper-parameters', function=F, fn=empty, private=True))
CONTRACTS.append(dict(name='wrong length', function=F, fn=badlen, private=True))
