from .base import *

class Swap(LoopSpec):
    name = 'shuffle'
    def inv(self, ls):
        s = lib.elem_snap(ls.ctx, ls.v('sigma')); N = ls.g['N']
        return [('entries are in range', All(lambda a: z3.Implies(rng_in((a, N)), z3.And(s(a) >= 0, s(a) < N)))),
                ('entries are distinct', All(lambda a, b: z3.Implies(z3.And(rng_in((a, N), (b, N)), s(a) == s(b)), a == b), 2))]
    def begin(self, ls):
        ls.ctx.reset_weight(); ls.ctx.draws = []
        ls.s0 = lib.elem_snap(ls.ctx, ls.v('sigma'))
        sp = ls.node
    def end(self, ls):
        ctx, N, k = ls.ctx, ls.g['N'], ls.it - 1
        s0, s1 = ls.s0, lib.elem_snap(ctx, ls.v('sigma'))
        ds = [d for d in ctx.draws if d.method == 'randint']
        if len(ctx.draws) != 1 or len(ds) != 1: raise Unsupported('one integer draw per iteration expected')
        d = ds[0]
        # descending (slot N-1-k, range 0..slot) or ascending (slot k, range slot..N-1) Fisher-Yates
        desc = ctx.entailed(d.lo == 0) is True
        i = simp(N - 1 - k) if desc else k
        lo, hi = (z3.IntVal(0), i + 1) if desc else (i, N)
        ctx.check('the draw is uniform on the positions not yet fixed', z3.And(d.lo == lo, d.hi == hi))
        j = d.i
        ctx.check('the drawn position and the slot are exchanged', All(lambda a: z3.Implies(rng_in((a, N)), s1(a) == z3.If(a == i, s0(j), z3.If(a == j, s0(i), s0(a))))))
    def exit(self, ls):
        ls.ctx.check('every slot but one has been fixed', z3.Or(ls.it == ls.g['N'] - 1, z3.And(ls.it == ls.g['N']), z3.And(ls.g['N'] <= 1)))

class UniformPermutation(FnContract):
    prop, target = 'C12', 'dppy.exotic_dpps_core:uniform_permutation'
    title = 'uniform_permutation is a Fisher-Yates shuffle of 0..N-1'
    loops = (Swap(),)
    roles = {'sigma': lambda v: isinstance(v, (Arr, Lst))}
    must_reach = ('pre', 'return', 'shuffle:body', 'shuffle:exit')
    def setup(self, ctx):
        N = z3.Int('N'); ctx.assume(N >= 1); ctx.ghost['N'] = N
        return [N, Rng()], {}
    def on_return(self, ctx, v):
        N = ctx.ghost['N']
        s = lib.elem_snap(ctx, v)
        ctx.check('the result has N entries', to_int(lib.lens(v)[0]) == N)
        ctx.check('entries in 0..N-1', All(lambda a: z3.Implies(rng_in((a, N)), z3.And(s(a) >= 0, s(a) < N))))
        ctx.check('entries are distinct', All(lambda a, b: z3.Implies(z3.And(rng_in((a, N), (b, N)), s(a) == s(b)), a == b), 2))

CONTRACTS = [UniformPermutation]
