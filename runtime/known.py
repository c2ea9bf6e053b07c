"""Reproductions of the findings listed in known_findings.jsonl (one fixed input each).

Each function returns True while the listed defect is present.
"""
import numpy as np
from .lib import load, quiet


def _study(prior=None, n=4, tm=None, data=(0.3, 0.1, -0.2, 0.4)):
    bl = load()
    S = bl.Study(silent=True)
    S.loadData(np.array(data), silent=True)
    S.set(bl.om.NumPy(lambda data, a: np.exp(-(data - a) ** 2), 'a', np.linspace(0., 3., n), prior=prior), silent=True)
    if tm is not None:
        S.set(tm, silent=True)
    return S


def cp_scale():
    bl = load()
    S = _study(tm=bl.tm.ChangePoint('tc', 1), n=7)
    q = S.transitionModel.computeForwardPrior(np.ones(7) / 7., 1)
    return not np.isclose(np.sum(q), 1.)


def serial_back():
    bl = load()
    S = _study(tm=bl.tm.SerialTransitionModel(bl.tm.Static(), bl.tm.ChangePoint('tc', 1), bl.tm.Static()),
               prior=lambda a: 1. + a)
    q = np.array(S.transitionModel.computeBackwardPrior(np.ones(4) / 4., 2))
    return not np.allclose(q, q.flat[0])


def _online(prior=None, hyper=None):
    bl = load()
    S = bl.OnlineStudy(silent=True)
    S.set(bl.om.NumPy(lambda data, a: np.exp(-(data - a) ** 2), 'a', np.linspace(0., 3., 7)), silent=True)
    if hyper is None:
        S.add('A', bl.tm.Static())
    S.add('B', bl.tm.GaussianRandomWalk('s', 0.5 if hyper is None else hyper, target='a'))
    if prior is not None:
        S.setTransitionModelPrior(prior, silent=True)
    for x in (0.2, 1.4, 2.2):
        S.step(x)
    return S


def tm_prior():
    a, b = _online(), _online([0.9, 0.1])
    return np.allclose(a.transitionModelDistribution, b.transitionModelDistribution)


def hyper_const():
    bl = load()
    S = _online(hyper=np.array([0.2, 0.4, 0.6]))
    H = bl.HyperStudy(silent=True)
    H.loadData(np.array([0.2, 1.4, 2.2]), silent=True)
    H.set(bl.om.NumPy(lambda data, a: np.exp(-(data - a) ** 2), 'a', np.linspace(0., 3., 7)), silent=True)
    H.set(bl.tm.GaussianRandomWalk('s', np.array([0.2, 0.4, 0.6]), target='a'), silent=True)
    H.fit(forwardOnly=True, silent=True)
    return not np.isclose(S.logEvidence, H.logEvidence)


def sympy_jeffreys():
    import sympy.stats as st
    from sympy import Symbol
    bl = load()
    S = bl.Study(silent=True)
    S.loadData(np.array([1, 2, 3]), silent=True)
    S.set(bl.om.SymPy(st.Poisson('x', Symbol('lam', positive=True)), 'lam', np.linspace(1., 4., 4)), silent=True)
    S.set(bl.tm.Static(), silent=True)
    p = S.observationModel.prior
    return p is None


def negative_prob():
    bl = load()
    S = _study(n=8, tm=bl.tm.Deterministic(lambda t, slope=0.2: slope * t, target='a'))
    q = S.transitionModel.computeForwardPrior(np.array([0, 0, 0, 1., 0, 0, 0, 0]), 1)
    return bool(np.min(q) < 0.)


def asrw_odd():
    bl = load()
    S = bl.Study(silent=True)
    S.loadData(np.array([0.1, 0.2]), silent=True)
    S.set(bl.om.Gaussian('mean', np.linspace(-1, 1, 5), 'std', np.linspace(1, 2, 5)), silent=True)
    S.set(bl.tm.AlphaStableRandomWalk('c', 0.3, 'alpha', 1.5, target='mean'), silent=True)
    try:
        S.transitionModel.computeForwardPrior(np.ones((5, 5)) / 25., 1)
    except Exception:
        return True
    return False


def parser_repeat():
    bl = load()
    S = _study(tm=bl.tm.Static())
    S.fit(silent=True)
    with quiet():
        p = bl.Parser(S)('a@0 + a@1 - a@0 > 1.5', silent=True)
        v, q = S.getPD(1, 'a', density=False)
    return not np.isclose(p, np.sum(q[v > 1.5]))


DEMOS = {f.__name__: f for f in (cp_scale, serial_back, tm_prior, hyper_const, sympy_jeffreys, negative_prob, asrw_odd, parser_repeat)}


def present(ident):
    try:
        with quiet():
            return bool(DEMOS[ident]())
    except Exception:
        return None
