"""Composite transition models over arbitrary sub-models (which also observe study, lattice constant and time offset)."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from .tmc import Case, times


def sub(k, j):
    """an arbitrary transition model: its result is an unknown function of everything it can see"""
    b = k.b
    F, B = b.uf('F%d' % j, 'nonneg'), b.uf('B%d' % j, 'nonneg')

    class M:
        study = None
        latticeConstant = None
        hyperParameterNames = b.list([])
        hyperParameterValues = b.list([])
        prior = None
        tOffset = 0

        def __str__(self):
            return 'sub-model'

        def see(self, post, t):
            same = ONE if self.study is k.S else ZERO
            return [b.table(post), b.term(t), b.term(self.tOffset), same] + [b.term(v) for v in self.latticeConstant]

        def computeForwardPrior(self, post, t):
            a = self.see(post, t)
            return b.array(k.G, lambda *x: F(*(a + list(x))))

        def computeBackwardPrior(self, post, t):
            a = self.see(post, t)
            return b.array(k.G, lambda *x: B(*(a + list(x))))
    m = M()
    m.spec = lambda f, off, back: (lambda *x: (B if back else F)(*([k.lamG(f), k.tp, off, ONE] + k.dx + list(x))))
    return m


def combined(rank, n, back):
    def c(b):
        k = Case(b, rank)
        off = b.real('off')
        ms = [sub(k, j) for j in range(n)]
        M = k.attach(b.mod('transitionModels').CombinedTransitionModel(*ms))
        M.tOffset = b.val(off)
        r = k.run(M, back)
        f = lambda *x: k.Pu(*x)
        for m in ms:
            f = m.spec(f, off, back)
        k.equals('sub-models applied one after the other in order', r, f)
        k.kept()
        r2 = k.run(M, back)
        k.equals('same result on a second call', r2, f)
    return c


def serial(rank, kinds, back, inner=False):
    """kinds: 'B' break-point / 'C' change-point between consecutive sub-models"""
    def c(b):
        k = Case(b, rank)
        tm = b.mod('transitionModels')
        n = len(kinds)
        br = [b.real('tb%d' % i) for i in range(n)]
        for u, v in zip(br, br[1:]):
            b.assume(T.lt0(u - v))
        leaf, ms = [], []
        for j in range(n + 1):
            m = sub(k, j)
            leaf.append(m)
            ms.append(tm.CombinedTransitionModel(m, sub(k, 10 + j)) if inner else m)
            if inner:
                leaf[-1] = ms[-1].models
        args = [ms[0]]
        for i, q in enumerate(kinds):
            args.append((tm.BreakPoint if q == 'B' else tm.ChangePoint)('tb%d' % i, b.val(br[i])))
            args.append(ms[i + 1])
        M = k.attach(tm.SerialTransitionModel(*args))
        r = k.run(M, back)
        a = k.at(back)
        idx = 0
        while idx < n and b.fork(T.le0(br[idx] - a)):
            idx += 1
        off = br[idx - 1] if idx else ZERO
        hit = [i for i in range(n) if kinds[i] == 'C' and b.fork(T.eq0(br[i] - a))]
        if hit:
            if not back:
                k.propto('reset to the prior at a change-point', r, lambda *x: k.pri(*x))
        else:
            f = lambda *x: k.Pu(*x)
            for m in (leaf[idx] if inner else [leaf[idx]]):
                f = m.spec(f, off, back)
            k.equals('active sub-model with its time offset', r, f)
        k.kept()
    return c


def entries():
    out = []
    for back in (False, True):
        d = 'computeBackwardPrior' if back else 'computeForwardPrior'
        s = 'backward' if back else 'forward'
        for rank in (1, 2):
            for n in (1, 2, 3):
                out.append(dict(name='Combined%d-%s-%dd' % (n, s, rank), function='transitionModels.CombinedTransitionModel.%s' % d, fn=combined(rank, n, back)))
            for kinds in ('B', 'C', 'BC', 'CB', 'BB', 'CC', 'BCB'):
                if rank == 2 and kinds not in ('BC', 'CB'):
                    continue
                out.append(dict(name='Serial[%s]-%s-%dd' % (kinds, s, rank), fn=serial(rank, kinds, back), model=times('t', 'tb0', 'tb1', 'tb2'),
                                function='transitionModels.SerialTransitionModel.%s, .__init__' % d))
        out.append(dict(name='Serial[BC] of combined-%s' % s, fn=serial(1, 'BC', back, True), model=times('t', 'tb0', 'tb1'),
                        function='transitionModels.SerialTransitionModel.%s, CombinedTransitionModel.%s' % (d, d)))
    return out
