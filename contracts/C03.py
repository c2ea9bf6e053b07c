"""Reported distributions are distributions: after Study.fit, HyperStudy.fit, ChangepointStudy.fit and after every OnlineStudy.step."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from . import C11, C13
from .fitc import entries
from .hyperc import Axis, HStudy, timesinc
from .onlinec import Online


def arr(b, x):
    if b.symbolic:
        from engine import sym
        return sym.as_sarr(x)
    import numpy as np
    return np.asarray(x)


def total(b, name, x, lead, rank, want=ONE):
    """sums of x over all but the leading axes; lead: their sizes"""
    A = arr(b, x)
    ax = tuple(range(len(lead), len(lead) + rank))
    b.eq(name, A.sum(axis=ax) if ax else A, lambda *i: want, lead)
    if b.symbolic:
        import itertools
        from engine import sym
        ds = [T.to_p(d) for d in A.dims]
        cs = [range(int(d.const())) if d.const() is not None else [None] for d in ds]
        for i in itertools.product(*cs):
            v = [T.fresh_index() if q is None else num(q) for q in i]
            s = A.at(*v)
            b.true(name + ' (non-negative)', True if T.wsign(s) in (0, 1) else T.le0(-s),
                   box=[(q, d) for q, d in zip(v, ds) if q.const() is None])
    else:
        b.true(name + ' (non-negative)', (A >= 0).all())


def mean(b, name, value, post, grid, lead, rank, G):
    """value = expectation of grid under the reported distribution post"""
    A = arr(b, post)
    if b.symbolic:
        def want(*i):
            vs = [T.fresh_index() for _ in range(rank)]
            return T.mk_sum(vs, G, A.at(*(list(i) + vs)) * grid(vs))
        b.eq(name, value, want, lead)
    else:
        import numpy as np
        vs = [T.fresh_index() for _ in G]
        g = b.array(G, lambda *x: grid(list(x)))
        b.compare(name, value, (A * g).sum(axis=tuple(range(len(lead), len(lead) + rank))))


def hyper(cls, axes, mode, rank=1, group=None, labels=(), points=None, jobs=None):
    def c(b):
        b.uf('TFh', 'pos'), b.uf('TBh', 'pos'), b.uf('L', 'pos'), b.uf('pri', 'pos')
        f = HStudy(b, [Axis(b, j, k, p) for j, (k, p) in enumerate(axes)], rank=rank, group=group, labels=labels)
        S = f.S = f.study(cls)
        if points:
            b.assume(T.le0(num(2) - C13.Masked(f, mode, points).count()))
        else:
            b.assume(T.le0(num(2) - f.tot))
        S.fit(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence', silent=True)
        A = arr(b, S.hyperParameterDistribution)
        b.eq('hyper-parameter distribution integrates to one', A.sum() * b.val(f.hvol), lambda: ONE)
        if mode != 'evidence':
            total(b, 'average posterior sums to one', S.posteriorSequence, [f.N], rank)
            for a in range(rank):
                mean(b, 'mean of parameter %d' % a, S.posteriorMeanValues[a], S.posteriorSequence, lambda x: f.gv[a](x[a]), [f.N], rank, f.G)
    return c


def online(models, first, **kw):
    def c(b):
        o = Online(b, models, **kw)
        S, f, M = o.study(), o.f, len(o.M)
        n = ZERO
        if not first:
            n = f.N
            o.state(S, n)
        for i in range(o.seg if first else 1):
            S.step(b.val(f.data(n + (o.seg - 1) if not first else num(i))))
        total(b, 'reported posterior sums to one', S.marginalizedPosterior, [], o.rank)
        total(b, 'transition model distribution sums to one', S.transitionModelDistribution, [], 1)
        total(b, 'local transition model distribution sums to one', S.localTransitionModelDistribution, [], 1)
        for m, q in enumerate(o.M):
            total(b, 'posterior of model %d sums to one' % m, S.transitionModelPosterior[m], [], o.rank)
            total(b, 'posteriors of model %d sum to one' % m, S.parameterPosterior[m], [q.tot], o.rank)
            A = arr(b, S.hyperParameterDistribution[m])
            b.eq('hyper-parameter distribution of model %d integrates to one' % m, A.sum() * b.val(q.hvol), lambda: ONE)
        for a in range(o.rank):
            mean(b, 'mean of parameter %d' % a, S.getCurrentParameterMeanValue('p%d' % a), S.marginalizedPosterior, lambda x: f.gv[a](x[a]), [], o.rank, f.G)
    return c


CONTRACTS = entries('C03')
for ax in ([('lin', None)], [('lin', 'fun'), ('lin', 'arr')], [('one', None), ('free', 'fun')]):
    for mode in ('evidence', 'forward', 'full'):
        CONTRACTS.append(dict(name='hyper-study %s %s' % (mode, ' '.join(k for k, p in ax)), function=C11.F, fn=hyper('HyperStudy', ax, mode), sizes=(2, 3)))
for mode in ('forward', 'full'):
    CONTRACTS.append(dict(name='hyper-study %s 2d' % mode, function=C11.F, fn=hyper('HyperStudy', [('lin', None)], mode, rank=2), sizes=(2, 3)))
    ax, gr, la, pts = C13.SETS['two change-points']
    CONTRACTS.append(dict(name='change-point study %s' % mode, function=C13.F, fn=hyper('ChangepointStudy', ax, mode, group=gr, labels=la, points=pts), sizes=(3, 4), model=timesinc))
F = 'core.OnlineStudy.step'
for nm, kw in {'two models': dict(models=[[], [('lin', 'fun')]]), 'hyper-parameters': dict(models=[[('lin', None), ('lin', 'fun')]]), 'prior, no history': dict(models=[[], []], prior=True, history=False),
               'two parameters, segments of two': dict(models=[[], [('lin', None)]], rank=2, seg=2)}.items():
    for first in (True, False):
        CONTRACTS.append(dict(name='online, %s step, %s' % ('first' if first else 'further', nm), function=F, fn=online(first=first, **kw), sizes=(2, 3)))
