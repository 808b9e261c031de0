"""C08: every sampling call of a FiniteDPP targets the law of the object's kernel, from every reachable state"""
from .finite import *
def under(c): return type(c.__name__, (c,), dict(prop='C08'))
CONTRACTS = [under(c) for c in (Init, ComputeK, ComputeL, Exact, ExactK, Mcmc, McmcK, Flush)]
