"""Data formatting: moving windows, loading of data and timestamps, missing values, multi-dimensional data."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from .fitc import Fit


def window(n, rank):
    def c(b):
        N = b.size('N')
        d = b.uf('d')
        tail = [b.size('D%d' % i) for i in range(rank - 1)]
        raw = b.array([N + (n - 1)] + tail, lambda *i: d(*i))
        W = b.mod('preprocessing').movingWindow(raw, n)
        b.eq('window i holds the points i..i+n-1', W, lambda i, k, *x: d(i + k, *x), [N, num(n)] + tail)
        b.eq('raw data is not modified', raw, lambda *i: d(*i), [N + (n - 1)] + tail)
    return c


def load(kind, rank=1):
    def c(b):
        core = b.mod('core')
        N = b.size('N')
        d, ts = b.uf('d'), b.uf('ts')
        tail = [b.size('D%d' % i) for i in range(rank - 1)]
        raw = b.array([N] + tail, lambda *i: d(*i))
        S = core.Study(silent=True)
        if kind == 'plain':
            S.loadData(raw, silent=True)
            want = lambda i: i
        elif kind == 'timestamps':
            S.loadData(raw, timestamps=b.array([N], lambda i: ts(i)), silent=True)
            want = lambda i: ts(i)
        elif kind == 'timestamp list':
            S.loadData(raw, timestamps=b.seq(N, lambda i: b.val(ts(i))), silent=True)
            want = lambda i: ts(i)
        elif kind == 'wrong length':
            M = b.size('M')
            b.assume(ONE - T.eq0(M - N))
            S.loadData(raw, timestamps=b.array([M], lambda i: ts(i)), silent=True)
            want = lambda i: i
        elif kind == 'list':
            S.loadData(b.seq(N, lambda i: b.val(d(i))), silent=True)
            want = lambda i: i
        elif kind == 'alias':
            S.load(raw, timestamps=b.array([N], lambda i: ts(i)), silent=True)
            want = lambda i: ts(i)
        elif kind == 'reload':
            S.loadData(b.array([b.size('K')], lambda i: d(i + 7)), timestamps=b.array([b.size('K')], lambda i: ts(i)), silent=True)
            S.loadData(raw, silent=True)
            want = lambda i: i
        b.eq('data', S.rawData, lambda *i: d(*i), [N] + tail)
        b.eq('timestamps', S.rawTimestamps, want, [N])
    return c


def stamps(seg, mode):
    """after a fit the formatted timestamps are those of the last point of each window"""
    def c(b):
        f = Fit(b, 1, seg)
        S = f.study()
        b.assume(T.lt0(-f.sumG(lambda *x: f.pri(*x))))
        S.fit(silent=True, forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence')
        b.eq('timestamp of each step', S.formattedTimestamps, lambda i: f.ts(i + (seg - 1)), [f.N])
        b.eq('window of each step', S.formattedData, lambda i, k: f.data(i + k), [f.N, num(seg)])
        b.eq('raw data is not modified', S.rawData, lambda i: f.data(i), [f.N + (seg - 1)])
        b.eq('raw timestamps are not modified', S.rawTimestamps, lambda i: f.ts(i), [f.N + (seg - 1)])
    return c


class OM:
    """ObservationModel of the repository with an arbitrary pdf"""

    def __init__(self, b, rank, seg, dims=None, mult=True):
        self.b, self.rank, self.seg = b, rank, seg
        self.G = [b.size('G%d' % i) for i in range(rank)]
        self.g = [b.uf('g%d' % i) for i in range(rank)]
        self.d = b.uf('d')
        self.nan = b.missing('d')
        self.L = b.uf('L', 'nonneg')
        self.grid = b.list([b.array(self.G, (lambda f: lambda *x: f(*x))(f)) for f in self.g])
        self.shape = [num(seg)] + (list(dims) if dims else [])
        self.data = b.array(self.shape, lambda *i: self.d(*i), nan=lambda *i: self.nan(self.d(*i)))
        me = self

        class M(b.mod('observationModels').ObservationModel):
            multiplyLikelihoods = mult
            segmentLength = seg
            name = 'arbitrary'

            def pdf(self, grid, ds):
                t = b.table(ds)
                gs = [b.table(g) for g in grid]
                return b.array(me.G, lambda *x: me.L(t, *(gs + list(x))))
        self.M = M()

    def spec(self, seg, x):
        vs = [T.fresh_index() for _ in range(len(self.shape) if seg is None else 1)]
        if seg is None:
            t = T.lam(vs, self.d(*vs), self.shape)
        else:
            t = T.lam(vs, self.d(vs[0], seg), [self.shape[0]])
        gs = []
        for f in self.g:
            us = [T.fresh_index() for _ in self.G]
            gs.append(T.lam(us, f(*us), self.G))
        return self.L(t, *(gs + list(x)))


def missing(rank, seg):
    def c(b):
        k = OM(b, rank, seg)
        r = k.M.processedPdf(k.grid, k.data)
        if any([b.fork(k.nan(k.d(num(j)))) for j in range(seg)]):
            b.eq('a missing value gives likelihood one', r, lambda *x: ONE, k.G)
        else:
            b.eq('complete segment gives the density', r, lambda *x: k.spec(None, x), k.G)
        for i, f in enumerate(k.g):
            b.eq('grid %d is not modified' % i, k.grid[i], lambda *x: f(*x), k.G)
    return c


def multi(rank, seg, D, mult):
    def c(b):
        k = OM(b, rank, seg, [num(D)], mult)
        r = k.M.processedPdf(k.grid, k.data)
        bad = [[b.fork(k.nan(k.d(num(j), num(q)))) for j in range(seg)] for q in range(D)]
        if mult:
            def want(*x):
                p = ONE
                for q in range(D):
                    if not any(bad[q]):
                        p = p * k.spec(num(q), x)
                return p
            b.eq('product over the components without missing values', r, want, k.G)
        elif any(any(q) for q in bad):
            b.eq('a missing value gives likelihood one', r, lambda *x: ONE, k.G)
        else:
            b.eq('joint density of the components', r, lambda *x: k.spec(None, x), k.G)
        for i, f in enumerate(k.g):
            b.eq('grid %d is not modified' % i, k.grid[i], lambda *x: f(*x), k.G)
    return c


def anydim(rank):
    """any number of components, none missing"""
    def c(b):
        D = b.size('D')
        k = OM(b, rank, 1, [D], True)
        k.nan = lambda p: ZERO
        from engine import snp
        snp.NANABLE.discard('d')
        if not b.symbolic:
            k.data = b.array(k.shape, lambda *i: k.d(*i))
        r = k.M.processedPdf(k.grid, k.data)
        q = T.fresh_index()
        b.eq('product over all components', r, lambda *x: T.app('prod', T.lam([q], k.spec(q, x), [D]), sign='nonneg'), k.G)
    return c


CONTRACTS = [dict(name='movingWindow-%d-%dd' % (n, r), function='preprocessing.movingWindow', fn=window(n, r)) for n in (1, 2, 3) for r in (1, 2)]
CONTRACTS += [dict(name='loadData %s-%dd' % (k, r), function='core.Study.loadData, load', fn=load(k, r))
              for k, r in (('plain', 1), ('plain', 2), ('timestamps', 1), ('timestamps', 2), ('timestamp list', 1), ('wrong length', 1), ('wrong length', 2), ('list', 1), ('alias', 1), ('reload', 1))]
CONTRACTS += [dict(name='fit-%s-segment%d' % (m, s), function='core.Study.fit', fn=stamps(s, m)) for s in (1, 2, 3) for m in ('forward', 'full', 'evidence')]
CONTRACTS += [dict(name='processedPdf-%dd-segment%d' % (r, s), function='observationModels.ObservationModel.processedPdf', fn=missing(r, s)) for r in (1, 2) for s in (1, 2, 3)]
CONTRACTS += [dict(name='processedPdf-%dd-segment%d-%d components%s' % (r, s, D, '' if m else ' joint'), function='observationModels.ObservationModel.processedPdf', fn=multi(r, s, D, m))
              for r in (1, 2) for s in (1, 2) for D in (1, 2, 3) for m in (True, False) if not (D == 3 and s == 2)]
CONTRACTS += [dict(name='processedPdf-%dd-any number of components' % r, function='observationModels.ObservationModel.processedPdf', fn=anydim(r)) for r in (1, 2)]
