"""OnlineStudy.step: the state after n steps is the forward filter over n steps, for every n (base case and inductive step)."""
from engine import terms as T
from engine.terms import ZERO, ONE, num
from .onlinec import Online

F = 'core.OnlineStudy.step, core.OnlineStudy.addTransitionModel, core.HyperStudy._createHyperGrid, core.Study._setAllHyperParameters'


def first(models, **kw):
    def c(b):
        o = Online(b, models, **kw)
        S = o.study()
        for i in range(o.seg):
            S.step(b.val(o.f.data(num(i))))
            if i < o.seg - 1:
                b.true('waits for a full segment', S.formattedTimestamps == [] or len(S.formattedTimestamps) == 0)
        o.check(S, 1)
    return c


def further(models, **kw):
    def c(b):
        o = Online(b, models, **kw)
        S = o.study()
        n = o.f.N
        o.state(S, n)
        S.step(b.val(o.f.data(n + (o.seg - 1))))
        o.check(S, n + 1)
    return c


SETS = {'one model': dict(models=[[]]), 'one hyper-parameter': dict(models=[[('lin', 'fun')]]), 'two models': dict(models=[[], []]),
        'two models, hyper-parameters': dict(models=[[('lin', None)], [('lin', 'fun'), ('lin', None)]]),
        'mixed models, prior': dict(models=[[], [('lin', 'arr')]], prior=True),
        'two parameters': dict(models=[[], [('lin', None)]], rank=2), 'segments of two': dict(models=[[('lin', None)], []], seg=2),
        'no history': dict(models=[[('lin', None)], []], history=False), 'single values': dict(models=[[('one', None)], [('one', None), ('lin', None)]])}
CONTRACTS = []
for nm, kw in SETS.items():
    CONTRACTS.append(dict(name='first step, ' + nm, function=F, fn=first(**kw), sizes=(2, 3)))
    CONTRACTS.append(dict(name='further step, ' + nm, function=F, fn=further(**kw), sizes=(2, 3)))
