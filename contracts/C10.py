"""Random walks and deterministic models; every contract first uses the model with other hyper-parameter values, another
grid spacing and another distribution, so that the result may depend on nothing but the current state."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from engine.sym import p_pow
from .tmc import Case, times


class Hist(Case):
    """Case plus an earlier study state: spacings dxo, distribution Po"""

    def __init__(self, b, rank, even=False):
        Case.__init__(self, b, rank, even)
        self.dxo = [b.real('dxo%d' % i, 'pos') for i in range(rank)]
        self.Po = b.uf('Po', 'nonneg')
        self.old = b.array(self.G, lambda *x: self.Po(*x))
        b.assume(T.lt0(-self.sumG(lambda *x: self.Po(*x))))

    def use(self, M, hyper, oldhyper, mode, back):
        """mode: which earlier use the model has seen: none / other hyper-parameters / other grid spacing"""
        b = self.b
        M.study = self.S
        cur = b.list([b.val(d) for d in self.dx])
        if mode == 'hyper':
            M.latticeConstant = self.S.latticeConstant = cur
            M.hyperParameterValues = b.list([b.val(h) for h in oldhyper])
            M.computeForwardPrior(self.old, b.val(b.real('t0')))
        elif mode == 'grid':
            M.hyperParameterValues = b.list([b.val(h) for h in hyper])
            M.latticeConstant = self.S.latticeConstant = b.list([b.val(d) for d in self.dxo])
            M.computeForwardPrior(self.old, b.val(b.real('t0')))
        elif mode in ('size', 'names'):
            M.hyperParameterValues = b.list([b.val(h) for h in hyper])
            M.latticeConstant = self.S.latticeConstant = cur
            names, sizes = self.S.observationModel.parameterNames, self.S.gridSize
            if mode == 'size':
                Go = [b.size('E%d' % i) * 2 for i in range(self.rank)]
                self.S.gridSize = b.list([b.val(g, 'i') for g in Go])
                vs = [T.fresh_index() for _ in Go]
                b.assume(T.lt0(-T.mk_sum(vs, Go, self.Po(*vs))))
                M.computeForwardPrior(b.array(Go, lambda *x: self.Po(*x)), b.val(b.real('t0')))
                self.S.gridSize = sizes
            else:
                self.S.observationModel.parameterNames = b.list(list(names)[::-1])
                M.computeForwardPrior(self.old, b.val(b.real('t0')))
                self.S.observationModel.parameterNames = names
        elif mode == 'inplace':
            M.latticeConstant = self.S.latticeConstant = b.list([b.val(d) for d in self.dxo])
            M.hyperParameterValues = b.list([b.val(h) for h in oldhyper])
            M.computeForwardPrior(self.old, b.val(b.real('t0')))
            for i, d in enumerate(self.dx):
                self.S.latticeConstant[i] = b.val(d)
            for i, h in enumerate(hyper):
                M.hyperParameterValues[i] = b.val(h)
            return self.run(M, back)
        M.latticeConstant = self.S.latticeConstant = cur
        M.hyperParameterValues = b.list([b.val(h) for h in hyper])
        return self.run(M, back)

    def equal_norm(self, name, value, f):
        self.equals(name, value, lambda *x: f(*x) / self.sumG(f))


MODES = ('first', 'hyper', 'grid', 'inplace')
MORE = ('size', 'names')


def gauss(rank, ax, back, mode):
    def c(b):
        k = Hist(b, rank)
        s, so = b.real('sigma', 'nonneg'), b.real('sigmao', 'nonneg')
        M = b.mod('transitionModels').GaussianRandomWalk('s', b.val(s), target='p%d' % ax)
        r = k.use(M, [s], [so], mode, back)
        if b.fork(T.lt0(-s)):
            k.equals('convolution along the target axis with width sigma/spacing', r,
                     lambda *x: T.app('gauss1d:%d' % ax, k.lamG(lambda *y: k.Pu(*y)), s / k.dx[ax], *x, sign='nonneg'))
        else:
            k.equals('zero width leaves the distribution unchanged', r, lambda *x: k.Pu(*x))
        k.kept()
    return c


def det(rank, ax, back):
    def c(b):
        k = Hist(b, rank)
        off = b.real('off')
        h = [b.real('h0'), b.real('h1')]
        f = b.uf('f')

        def fun(t, slope=None, quad=None):
            return b.val(f(b.term(t), b.term(slope), b.term(quad)))
        M = b.mod('transitionModels').Deterministic(fun, target='p%d' % ax)
        M.hyperParameterValues = b.list([b.val(v) for v in h])
        M.study = k.S
        M.latticeConstant = k.S.latticeConstant
        M.tOffset = b.val(off)
        r = k.run(M, back)
        u = k.tp - off
        d = (f(u - 1, *h) - f(u, *h)) if back else (f(u + 1, *h) - f(u, *h))
        d = d / k.dx[ax]
        sh = lambda *x: T.app('shift:3:nearest', k.lamG(lambda *y: k.Pu(*y)), *([d if i == ax else ZERO for i in range(rank)] + list(x)))
        k.equal_norm('shift along the target axis by the change of the function over one step', r, sh)
        k.kept()
    return c


def alpha_kernel(g, c, alpha):
    """inverse Fourier transform of exp(-|c k|^alpha), centred, on 3g points (g even)"""
    n = g / 2 * 3 + 1
    i = T.fresh_index()
    kf = T.lam([i], T.mk_exp(-p_pow(T.mk_abs(c * (i * (T.atom_p(T.PI) / (n - 1)))), alpha)), [n])
    j = T.fresh_index()
    ir = T.lam([j], T.app('irfft', kf, j), [(n - 1) * 2])
    return lambda q: T.app('roll', ir, g / 2 * 3 - 1, q)


def alpha(rank, ax, back):
    def c(b):
        k = Hist(b, rank, even=True)
        h = [b.real('c', 'pos'), b.real('alpha', 'pos')]
        M = b.mod('transitionModels').AlphaStableRandomWalk('c', 1., 'a', 1., target='p%d' % ax)
        r = k.use(M, h, None, 'first', back)
        K = [alpha_kernel(g, h[0] / k.dx[i] if i == ax else ZERO, h[1]) for i, g in enumerate(k.G)]
        vs = [T.fresh_index() for _ in k.G]
        body = ONE
        for f, v in zip(K, vs):
            body = body * f(v)
        ker = T.lam(vs, body, [g * 3 for g in k.G])
        us = [T.fresh_index() for _ in k.G]
        inside = ONE
        for u, g in zip(us, k.G):
            inside = inside * T.le0(g - u) * T.lt0(u - g * 2)
        pad = T.lam(us, T.ite(inside, k.Pu(*[u - g for u, g in zip(us, k.G)]), ZERO), [g * 3 for g in k.G])
        k.equal_norm('convolution along the target axis with the alpha-stable kernel of scale c/spacing', r,
                     lambda *x: T.app('fftconvolve', pad, ker, *[v + g for v, g in zip(x, k.G)]))
        k.kept()
    return c


def biv(back):
    def c(b):
        k = Hist(b, 2)
        h = [b.real('s1', 'pos'), b.real('s2', 'pos'), b.real('rho')]
        M = b.mod('transitionModels').BivariateRandomWalk('s1', 1., 's2', 1., 'rho', 0.)
        r = k.use(M, h, None, 'first', back)
        s = [h[0] / k.dx[0], h[1] / k.dx[1]]
        w = [T.app('ceil', v, sort='int', sign='pos') * 3 for v in s]
        pdf = lambda u, v: T.app('mvnpdf', u - w[0], v - w[1], ZERO, ZERO, s[0] * s[0], h[2] * s[0] * s[1], h[2] * s[0] * s[1], s[1] * s[1], sign='nonneg')
        us = [T.fresh_index() for _ in k.G]
        dims = [v * 2 + 1 for v in w]
        tot = T.mk_sum(us, dims, pdf(*us))
        ker = T.lam(us, pdf(*us) / tot, dims)
        k.equal_norm('convolution with the bivariate normal kernel in units of the spacings', r,
                     lambda *x: T.app('convolve2d:fill:0', k.lamG(lambda *y: k.Pu(*y)), ker, *x, sign='nonneg'))
        k.kept()
    return c


def fresh_model(rank, ax, back, mode, cls):
    """history independence, relational: a used model gives the same result as a new one"""
    def c(b):
        k = Hist(b, rank, even=cls == 'alpha')
        tm = b.mod('transitionModels')
        if cls == 'alpha':
            h, ho = [b.real('c', 'pos'), b.real('alpha', 'pos')], [b.real('co', 'pos'), b.real('alphao', 'pos')]
            mk = lambda: tm.AlphaStableRandomWalk('c', 1., 'a', 1., target='p%d' % ax)
        else:
            h, ho = [b.real('s1', 'pos'), b.real('s2', 'pos'), b.real('rho')], [b.real('s1o', 'pos'), b.real('s2o', 'pos'), b.real('rhoo')]
            mk = lambda: tm.BivariateRandomWalk('s1', 1., 's2', 1., 'rho', 0.)
        r = k.use(mk(), h, ho, mode, back)
        r0 = k.use(mk(), h, ho, 'first', back)
        b.same('independent of earlier use', r, r0, k.G)
        k.kept()
    return c


def entries():
    out = []
    for back in (False, True):
        s = 'backward' if back else 'forward'
        d = 'computeBackwardPrior' if back else 'computeForwardPrior'
        for rank in (1, 2, 3):
            for ax in range(rank):
                for mode in MODES + MORE if rank == 2 else ('first',):
                    out.append(dict(name='Gaussian-%s-%dd-axis%d-%s' % (s, rank, ax, mode), function='transitionModels.GaussianRandomWalk.%s' % d, fn=gauss(rank, ax, back, mode)))
                out.append(dict(name='Deterministic-%s-%dd-axis%d' % (s, rank, ax), function='transitionModels.Deterministic.%s' % d, fn=det(rank, ax, back)))
        for mode in MODES[1:] + MORE:
            for rank, ax in ((1, 0), (2, 0), (2, 1)):
                if mode == 'names' and rank == 1:
                    continue
                out.append(dict(name='AlphaStable-%s-%dd-axis%d-%s' % (s, rank, ax, mode), function='transitionModels.AlphaStableRandomWalk.%s, createKernel, convolve' % d,
                                fn=fresh_model(rank, ax, back, mode, 'alpha')))
            out.append(dict(name='Bivariate-%s-%s' % (s, mode), function='transitionModels.BivariateRandomWalk.%s, createKernel' % d, fn=fresh_model(2, 0, back, mode, 'biv'),
                            model=lambda m: m.values.update(rho=0.3, rhoo=-0.4)))
        for rank, ax in ((1, 0), (2, 0), (2, 1)):
            out.append(dict(name='AlphaStable-%s-%dd-axis%d' % (s, rank, ax), function='transitionModels.AlphaStableRandomWalk.%s, createKernel, convolve' % d,
                            fn=alpha(rank, ax, back), sizes=(1, 3)))
        out.append(dict(name='Bivariate-%s' % s, function='transitionModels.BivariateRandomWalk.%s, createKernel' % d, fn=biv(back),
                        model=lambda m: m.values.update(rho=0.3, rhoo=-0.4)))
    return out


CONTRACTS = entries()
