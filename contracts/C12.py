"""HyperStudy.fit with several processes: the specification is that of the single-process fit (contracts/C11.py); the pool contract is
that map returns the results of the calls in order, every call working on its own copy of the study."""
from .C11 import fit, callees, F
from .C13 import SETS as CPS
from .hyperc import timesinc

CONTRACTS = []
for jobs in (2, 3, 4):
    for mode in ('evidence', 'forward', 'full'):
        for ax in ([('lin', 'fun')], [('lin', None), ('lin', 'arr')]):
            lab = ' '.join('%s:%s' % (k, p or 'uniform') for k, p in ax)
            CONTRACTS.append(dict(name='%d processes, %s, %s' % (jobs, mode, lab), function=F + ', core.HyperStudy._parallelFit', fn=fit(ax, mode, jobs=jobs),
                                  sizes=(2, 3), model=timesinc, tier='thorough' if jobs == 4 else 'quick'))
for jobs in (2, 3):
    callees(CONTRACTS, {'%d processes, contract of the fit, %s' % (jobs, ' '.join('%s:%s' % (k, p or 'uniform') for k, p in ax)): dict(axes=ax) for ax in
                        ([('lin', 'fun')], [('lin', None), ('lin', 'arr')])}, jobs=jobs)
    callees(CONTRACTS, {'%d processes, contract of the fit, %s' % (jobs, nm): dict(axes=CPS[nm][0], group=CPS[nm][1], labels=CPS[nm][2], points=CPS[nm][3]) for nm in
                        ('two change-points', 'two break-points')}, sizes=(3, 4), jobs=jobs)
callees(CONTRACTS, {'2 processes, contract of the fit, two parameters': dict(axes=[('lin', 'fun')], rank=2)}, jobs=2)
ASSUMPTIONS = ['contract of pathos ProcessPool.map: results in the order of the arguments, each call on its own copy of the study',
               'contract of numpy.array_split: consecutive parts that together are the whole array']
