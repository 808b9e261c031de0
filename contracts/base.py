"""shared pieces of the contracts"""
import z3
from pvc.terms import *
from pvc.values import *
from pvc.engine import Contract, LoopSpec, Def
from pvc import library as lib

def crs(ctx, loc):
    """contract of dppy.utils.check_random_state: a generator is returned as is (verified under C18)"""
    s = loc.get('seed')
    return s if isinstance(s, Rng) else Rng('seeded')

class FnContract(Contract):
    uses = {'dppy.utils:check_random_state': crs}
    externals = {}
    must_reach = ('pre', 'return')

def matrix(ctx, name, n, m, fn=None, ro=True, sort=R):
    f = fn if fn is not None else fresh_fn(name, I, I, sort)
    a = lib.new(ctx, [n, m], sort, lambda i, j: f(i, j))
    a.ro, a.name = ro, name
    return a, f

def vector(ctx, name, n, fn=None, ro=True, sort=R):
    f = fn if fn is not None else fresh_fn(name, I, sort)
    a = lib.new(ctx, [n], sort, lambda i: f(i))
    a.ro, a.name = ro, name
    return a, f

def rng_in(*idx_n):
    return z3.And([c for i, n in idx_n for c in (i >= 0, i < n)])
