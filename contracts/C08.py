from . import tmc
CONTRACTS = tmc.entries()
