"""C07: kernels computed by a FiniteDPP from any parametrisation and any history (sampling calls: the state they leave)"""
from .finite import *
def under(c): return type(c.__name__, (c,), dict(prop='C07', law=False))
CONTRACTS = [under(c) for c in (Init, ComputeK, ComputeL, Exact, ExactK, Mcmc, McmcK, Flush)]
