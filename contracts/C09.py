from . import compc
CONTRACTS = compc.entries()
