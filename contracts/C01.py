from . import fitc
CONTRACTS = fitc.entries('C01')
