"""MCMC samplers (C05: detailed balance; C06: well formed chains)"""
from .base import *
import os
from pvc.engine import Obligation
from pvc import terms as T_
SET = z3.ArraySort(I, B)
DET = z3.Function('DET', SET, R)

def in_gset(o): return getattr(o, 'gset', None)
def minor_det(ctx, kernel, S, Tt=None):
    g = ctx.ghost
    if kernel is not g['kernel']: raise Unsupported('determinant of another matrix')
    if Tt is not None and Tt is not S: raise Unsupported('determinant of a non principal minor')
    s = in_gset(S)
    if s is None: raise Unsupported('determinant of a minor indexed by an unknown set')
    return DET(s)
def det_contract(ctx, loc): return minor_det(ctx, loc['array'], loc['S'], loc.get('T'))
def det_external(ctx, args, kw):
    m = getattr(args[0], 'minor', None)
    if m is None: return NotImplemented
    base, parts = m
    return minor_det(ctx, base, parts[0], parts[1] if len(parts) > 1 else None)

def state(ctx, name, m=None):
    """a list of m distinct items of the ground set with positive determinant"""
    g = ctx.ghost
    m = z3.Int('m_' + name) if m is None else m
    f = fresh_fn('l_' + name, I, I)
    l = Lst(None, m, lambda i: f(to_int(i)), I)
    l.gset = fresh('set_' + name, SET)
    ctx.stamped(l)
    lib.gset_facts(ctx, l)
    return l
def valid(ctx, l, what=''):
    """list of facts: l is a valid state"""
    g = ctx.ghost; N = g['N']
    f, n, s = lib.elem_snap(ctx, l), to_int(lib.lens(l)[0]), in_gset(l)
    return [('%sitems are in the ground set' % what, All(lambda x: z3.Implies(z3.Select(s, x), z3.And(x >= 0, x < N)), name='range')),
            ('%sitems are distinct' % what, lib.distinct_goal(f, n)),
            ('%sdeterminant is positive' % what, DET(s) > 0),
            ('%ssize is at most N' % what, z3.And(n >= 0, n <= N))]

def chain_of(pre_term, term):
    """Store chain of term over pre_term: [(index, value)] in order of application"""
    out, e = [], term
    while not z3.eq(e, pre_term):
        if not z3.is_app_of(e, z3.Z3_OP_STORE): return None
        out.append((e.arg(1), z3.is_true(z3.simplify(e.arg(2))))); e = e.arg(0)
    return out[::-1]

class Step(LoopSpec):
    name = 'step'
    def inv(self, ls):
        g, ctx = ls.g, ls.ctx
        S = ls.v('S0')
        if not isinstance(S, Lst) or in_gset(S) is None: raise Unsupported('the state is not a list')
        out = valid(ctx, S)
        out.append(Def('det_S0', lambda: DET(in_gset(S)), what='determinant of the current state'))
        if self.sized: out.append(Def('size_S0', lambda: to_int(S.length()), what='size of the current state'))
        if ctx.contract.prop == 'C06': out += self.chain_inv(ls)
        if g.get('m_fixed') is not None: out.append(('the cardinality is kept', to_int(S.length()) == g['m_fixed']))
        return out
    sized = False
    def chain_inv(self, ls):
        g, ctx = ls.g, ls.ctx
        ch = ls.v('chain')
        if isinstance(ch, Lst): return [('one state per iteration', to_int(ch.length()) == ls.it + 1)]
        return []
    def entry(self, ls):
        ctx, g = ls.ctx, ls.g
        if ctx.contract.prop != 'C06': return
        ch = ls.v('chain')
        if isinstance(ch, Lst):
            ok = ch.concrete and len(ch.items) == 1 and ch.items[0] is g['s_init']
            ctx.check('the chain starts at the initial state', ok)
            g['chain'] = ch
        else:
            self.row_is(ls, 0, g['s_init'], 'the chain starts at the initial state')
            ctx.check('the chain has nb_iter rows', to_int(ch.axes[0].n) == g['nb_iter'])
        ctx.check('the initial state is the current state', ls.v('S0') is g['s_init'])
    def row_is(self, ls, r, S, what):
        ctx = ls.ctx
        c, f = ls.v('chain').snap(), lib.elem_snap(ctx, S)
        ctx.check(what, All(lambda b: z3.Implies(rng_in((b, to_int(S.length()))), c(to_int(r), b) == f(b))))
    def head(self, ls):
        S = ls.v('S0')
        S.ro, S.name = True, 'recorded state'
    def fresh_value(self, ls, name, old):
        role = next((r for r in ('S0',) if ls.ctx.run.rolemap.get(r, r) == name), None)
        if role == 'S0': return state(ls.ctx, 'S%d' % ls.node.lineno, fresh('m', I))
        return NotImplemented
    def begin(self, ls):
        ctx = ls.ctx
        ctx.reset_weight(); ctx.draws = []; ctx.branchlog = []; ctx.ghost['appended'] = []
        ls.S = ls.v('S0'); ls.mk = len(ctx.hyps)
        ctx.ghost['cur'] = ls.S
        N, s0, m0 = ctx.ghost['N'], in_gset(ls.S), to_int(ls.S.length())
        ctx.assume(All(lambda t: z3.Implies(z3.And(t >= 0, t < N, z3.Not(z3.Select(s0, t))), m0 + 1 <= N), name='cardinality'))
        if isinstance(ls.v('chain'), Arr): ls.rows = ls.v('chain').snap()
    def on_break(self, ls):
        g, ctx = ls.g, ls.ctx
        self.close(ls, ls.it)
        ch = ls.v('chain')
        if g['T_max'] is None: ctx.check('no time limit: the run is not stopped', False)
        if 'C06' == ctx.contract.prop:
            t0, t1 = g.get('time0'), g.get('time')
            ctx.check('stopped only when the time limit is exceeded', False if t0 is None else t1 - t0 > g['T_max'])
            ctx.check('the states recorded so far are returned', to_int(lib.lens(ch)[0]) == ls.it + 2)
        g['n_out'] = ls.it + 2
    def exit(self, ls): ls.g['n_out'] = ls.it + 1
    def end(self, ls):
        self.close(ls, ls.it - 1)
    def close(self, ls, it):
        ctx, g = ls.ctx, ls.g
        S, S1 = ls.S, ls.v('S0')
        c = ctx.contract
        if not isinstance(S1, Lst) or in_gset(S1) is None: raise Unsupported('the state is not a list')
        st = chain_of(in_gset(S), in_gset(S1))
        if st is None: raise Unsupported('next state is not derived from the current one')
        m, m1 = to_int(S.length()), to_int(S1.length())
        ins, outs = [x for x, b in st if b], [x for x, b in st if not b]
        if len(ins) > 1 or len(outs) > 1: raise Unsupported('move of several items')
        s0 = in_gset(S)
        kind = {(0, 0): 'stay', (1, 0): 'add', (0, 1): 'delete', (1, 1): 'exchange'}[(len(ins), len(outs))]
        for x in ins: ctx.check('the item added was not in the set', z3.Not(z3.Select(s0, x)))
        for x in outs: ctx.check('the item removed was in the set', z3.Select(s0, x))
        ctx.check('%s: cardinality' % kind, m1 == m + len(ins) - len(outs))
        if kind not in c.moves + ('stay',): ctx.check('the chain has no %s move' % kind, False)
        if c.prop == 'C06':
            ch = ls.v('chain')
            if isinstance(ch, Lst):
                ap = g['appended']
                ctx.check('the new state is recorded once', len(ap) == 1 and (ap[0] is S1))
                ctx.check('the chain list is the one started from', ch is g['chain'])
            else:
                self.row_is(ls, it + 1, S1, 'the new state is recorded')
                c1 = ch.snap()
                ctx.check('recorded states are not changed', All(lambda a, b: z3.Implies(z3.And(a >= 0, a <= it, b >= 0, b < to_int(ch.axes[1].n)), c1(a, b) == ls.rows(a, b)), 2))
                if S1 is not S: S1.ro = True
            ctx.check('recorded state is not modified later', S1.ro or isinstance(ch, Arr))
        else: c.record(ctx, kind, S, S1, m)

class SizedStep(Step):
    sized = True

class Chain(FnContract):
    loops = (Step(),)
    roles = {'S0': lambda v: isinstance(v, Lst) and in_gset(v) is not None, 'chain': lambda v: isinstance(v, (Lst, Arr)) and in_gset(v) is None and not getattr(v, 'ro', False) and (isinstance(v, Lst) or v.ndim == 2),
             'det_S0': lambda v: is_z3(v) and v.sort() == R, 'size_S0': lambda v: lib.isint(v)}
    scenarios = ('T_max=None', 'T_max')
    must_reach = ('pre', 'return', 'step:body', 'step:exit')
    uses = dict(FnContract.uses, **{'dppy.utils:det_ST': det_contract})
    assumes = ('determinant of a principal minor depends on the index set only', 'a list of m distinct items of {0..N-1} leaves N-m other items')
    moves = ()
    fixed = False
    def time(ctx, args, kw):
        t = fresh('time', R)
        g = ctx.ghost
        if g.get('time0') is None: g['time0'] = t
        if g.get('time') is not None: ctx.assume(t >= g['time'])
        g['time'] = t
        return t
    externals = {'numpy.linalg.det': det_external, 'scipy.linalg.det': det_external, 'time.time': time, 'time.perf_counter': time, 'time.monotonic': time}
    del time
    def setup(self, ctx):
        N, nb = z3.Ints('N nb_iter'); ctx.assume([N >= 1, nb >= 1])
        K, _ = matrix(ctx, 'L', N, N)
        g = ctx.ghost
        g.update(N=N, nb_iter=nb, kernel=K, s_init=None, time0=None, time=None, appended=[])
        S = state(ctx, 'init'); S.ro, S.name = True, 's_init'
        g['s_init'] = S
        g['m_fixed'] = to_int(S.length()) if self.fixed else None
        for _, h in valid(ctx, S): ctx.assume(h)
        tm = None
        if self.scenario == 'T_max': tm = z3.Real('T_max'); ctx.assume(tm > 0)
        g['T_max'] = tm
        return [K, S, nb, tm, Rng()], {}
    def on_count(self, ctx, c, n, mask):
        g = ctx.ghost; S = g.get('cur')
        if S is None: return
        x = fresh('x', I)
        if z3.eq(simp(to_bool(mask(x))), simp(z3.Not(z3.Select(in_gset(S), x)))) and ctx.entailed(to_int(n) == g['N']) is True:
            ctx.assume(c == g['N'] - to_int(S.length()))
    def on_append(self, ctx, o, v):
        if not (isinstance(v, Lst) and in_gset(v) is not None): raise Unsupported('append of %r' % (v,))
        ctx.note_write(o)
        o.n = simp(to_int(o.n) + 1)
        v.ro, v.name = True, 'recorded state'
        ctx.ghost['appended'].append(v)
        return None
    def on_return(self, ctx, v):
        g = ctx.ghost
        if self.prop != 'C06': return
        n = to_int(lib.lens(v)[0])
        ctx.check('number of states', n == g['n_out'])
        if g['T_max'] is None: ctx.check('nb_iter states', n == g['nb_iter'])
        if isinstance(v, Lst) and getattr(v, 'rows', None) is None: ctx.check('the chain is returned', v is g['chain'])
    # ---- detailed balance over the paths
    def begin_run(self, run): self.trans = []
    def record(self, ctx, kind, S, S1, m):
        if kind == 'stay': return
        s0, s1 = in_gset(S), in_gset(S1)
        N = ctx.ghost['N']
        x, y = z3.Real('x'), z3.Real('y'); M = z3.Int('M')
        sub = [(DET(s0), x), (DET(s1), y), (m, M)]
        def ab(e):
            e = z3.simplify(to_real(e)) if z3.is_expr(e) and e.sort() != B else e
            return z3.substitute(e, *sub)
        ok = {t.get_id() for t in (x, y, M, N)}
        def free(e): return [t for t in T_.subterms(e) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.get_id() not in ok or z3.is_app(t) and t.num_args() and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)]
        ws = [w for w in ctx.weight] + ctx.uniform_weight()
        keep = self.outcome(ctx, S, S1, m)
        # draws that do not show in the outcome are summed out (their weights add up to one)
        for d in ctx.draws:
            if d.method == 'u': continue
            if d.method not in ('choice', 'randint'): raise Unsupported('draw %s' % d.method)
            if any(d is k for k in keep): continue
            pw = d.p(d.i) if d.method == 'choice' else 1 / z3.ToReal(simp(d.hi - d.lo))
            k = next((i for i, w in enumerate(ws) if z3.is_expr(w) and z3.eq(w, pw)), None)
            if k is None: raise Unsupported('weight of a draw')
            ws.pop(k)
            if any(d.i.get_id() in {t.get_id() for t in T_.subterms(w)} for w in ws if z3.is_expr(w)): raise Unsupported('draw used in a weight only')
        w = z3.RealVal(1)
        for q in ws: w = w * to_real(q)
        # integers introduced for counts are equal to N - m
        w = self.counts(ctx, w, N, m)
        w = ab(w)
        if free(w): raise Unsupported('probability of a move depends on %s' % free(w)[:3])
        us = {z.get_id() for z in [r['u'] for r in ctx.uniforms.values()]}
        cond = []
        for c in ctx.branchlog:
            if any(t.get_id() in us for t in T_.subterms(c)): continue
            if any(str(t).startswith('time!') for t in T_.int_consts([c], R)): continue
            c = ab(self.counts(ctx, c, N, m))
            if free(c):
                # membership of a drawn item: part of the kind of the move
                if z3.is_select(c) or z3.is_not(c) and z3.is_select(c.arg(0)): continue
                raise Unsupported('the move depends on %s' % str(c)[:80])
            cond.append(c)
        if os.environ.get('DBGT'): print(kind, cond, w, ctx.pathlog, ctx.branchlog)
        self.trans.append((kind, cond, w))
    def outcome(self, ctx, S, S1, m):
        """the draws that select the items added and removed: one to one with the possible moves"""
        N, s0 = ctx.ghost['N'], in_gset(S)
        f = lib.elem_snap(ctx, S)
        st = chain_of(s0, in_gset(S1))
        ds = [d for d in ctx.draws if d.method in ('choice', 'randint')]
        keep = []
        for x, b in st:
            hit = None
            for d in ds:
                if any(d is k for k in keep): continue
                val = (lambda j, d=d: to_int(d.values(j))) if d.method == 'choice' else (lambda j: j)
                dom = d.axis.dom if d.method == 'choice' else (lambda j, d=d: z3.And(j >= d.lo, j < d.hi))
                v = val(d.i)
                if z3.eq(simp(v), simp(x)) or ctx.prove(v == x, 800): hit = (d, val, dom, 'item'); break
                if not b and ctx.prove(z3.And(v >= 0, v < m, f(v) == x), 800): hit = (d, val, dom, 'position'); break
            if hit is None: raise Unsupported('the item %s is not drawn' % ('added' if b else 'removed'))
            d, val, dom, how = hit
            keep.append(d)
            what = 'the item %s is drawn ' % ('added' if b else 'removed')
            ctx.check(what + 'without repetition', All(lambda i, j: z3.Implies(z3.And(dom(i), dom(j), val(i) == val(j)), i == j), 2))
            if how == 'item': cand = (lambda j: z3.And(j >= 0, j < N, z3.Not(z3.Select(s0, j)))) if b else (lambda j: z3.Select(s0, j))
            else: cand = lambda j: z3.And(j >= 0, j < m)
            ctx.check(what + 'among all the candidates', All(lambda j: z3.Implies(cand(j), z3.And(dom(j), val(j) == j))))
        return keep
    def counts(self, ctx, e, N, m):
        if not z3.is_expr(e): return e
        reps = []
        for c in T_.int_consts([e], I):
            if z3.eq(c, N) or z3.eq(c, m): continue
            if ctx.prove(c == N - m, 800): reps.append((c, N - m))
            elif ctx.prove(c == m, 800): reps.append((c, m))
        return z3.substitute(e, *reps) if reps else e
    def finish_run(self, run):
        if self.prop != 'C05': return
        N, M = z3.Ints('N M'); x, y, n_, m_ = z3.Reals('x y n m')
        def W(kind, m=m_, a=x, b=y):
            """probability of the move, over the reals: N and M are generalised to real numbers n and m"""
            r = z3.RealVal(0)
            for k, cond, w in self.trans:
                if k != kind: continue
                w, cond = [z3.substitute(to_real_vars(e, (N, n_), (M, m_)), (m_, m), (x, a), (y, b)) for e in (w, z3.And(cond) if cond else z3.BoolVal(True))]
                r = r + z3.If(cond, w, z3.RealVal(0))
            return r
        base = [n_ >= 1, m_ >= 0, m_ <= n_, x > 0]
        def ob(name, hyps, goal):
            run.obligations[('finish', name)] = Obligation(name, base + hyps, goal, where=self.target, kind='balance')
        # generalising integers to reals: M = 0 or M >= 1, M < N means M <= N - 1, ...
        ge1 = lambda e: z3.Or(e == 0, e >= 1)
        dom = dict(add=[m_ <= n_ - 1, ge1(m_), z3.Or(m_ == n_ - 1, m_ <= n_ - 2)], delete=[m_ >= 1, z3.Or(m_ == n_, m_ <= n_ - 1)], exchange=[m_ >= 1, m_ <= n_ - 1])
        for k in self.moves:
            ob('%s: no move to a set of zero determinant' % k, dom[k] + [y == 0], W(k) == 0)
            ob('%s: the move is possible' % k, dom[k] + [y > 0], W(k) > 0)
        def balance(name, hyps, l, r):
            for i, (cs, e) in enumerate(cases(base + hyps, l - r)): ob('%s, case %d' % (name, i + 1), hyps + cs, e)
        if 'add' in self.moves:
            balance('detailed balance of addition and deletion', dom['add'] + [y > 0], x * W('add'), y * W('delete', m_ + 1, y, x))
        if 'exchange' in self.moves:
            balance('detailed balance of exchange', dom['exchange'] + [y > 0], x * W('exchange'), y * W('exchange', m_, y, x))

def to_real_vars(e, *pairs):
    """the same term with integer variables replaced by real ones"""
    if z3.is_const(e):
        for a, b in pairs:
            if z3.eq(a, e): return b
        return z3.ToReal(e) if z3.is_int_value(e) else e
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL): return to_real_vars(e.arg(0), *pairs)
    ch = [to_real_vars(c, *pairs) for c in e.children()]
    k = e.decl().kind()
    import functools, operator
    two = {z3.Z3_OP_ADD: operator.add, z3.Z3_OP_MUL: operator.mul, z3.Z3_OP_SUB: operator.sub, z3.Z3_OP_DIV: operator.truediv}
    if k in two: return functools.reduce(two[k], ch)
    cmp = {z3.Z3_OP_LE: operator.le, z3.Z3_OP_LT: operator.lt, z3.Z3_OP_GE: operator.ge, z3.Z3_OP_GT: operator.gt, z3.Z3_OP_EQ: operator.eq}
    if k in cmp: return cmp[k](*ch)
    if k == z3.Z3_OP_UMINUS: return -ch[0]
    if k == z3.Z3_OP_ITE: return z3.If(*ch)
    if k == z3.Z3_OP_NOT: return z3.Not(*ch)
    if k == z3.Z3_OP_AND: return z3.And(ch)
    if k == z3.Z3_OP_OR: return z3.Or(ch)
    raise Unsupported('probability with %s' % e.decl())

def cases(hyps, e):
    """[(conditions, e = 0)] over the truth values of the conditions in e, fractions cleared by sympy"""
    out = []
    def find(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            r = find(t.arg(0))
            return t.arg(0) if r is None else r
        for c in t.children():
            r = find(c)
            if r is not None: return r
    def go(e, cs):
        s = z3.Solver(); s.set('timeout', 300); s.add(hyps); s.add(cs)
        if s.check() == z3.unsat: return
        c = find(e)
        if c is None:
            n, _ = fraction(e)
            if z3.is_true(z3.simplify(n == 0)): return
            cs2 = []
            for c in cs: cs2.append(c); cs2 += cleared(hyps, c)
            out.append((cs2, n == 0)); return
        for val in (True, False):
            go(subst_if(e, c, val), cs + [c if val else z3.Not(c)])
    def subst_if(e, c, val):
        if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.eq(e.arg(0), c): return subst_if(e.arg(1 if val else 2), c, val)
        if not e.num_args(): return e
        return e.decl()(*[subst_if(x, c, val) for x in e.children()])
    go(e, [])
    if not out: out.append(([], z3.BoolVal(True)))
    return out

def sym(e):
    import sympy
    if z3.is_rational_value(e): return sympy.Rational(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_const(e): return sympy.Symbol(str(e), positive=True)
    ch = [sym(c) for c in e.children()]
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD: return sympy.Add(*ch)
    if k == z3.Z3_OP_MUL: return sympy.Mul(*ch)
    if k == z3.Z3_OP_SUB: return ch[0] - sympy.Add(*ch[1:])
    if k == z3.Z3_OP_DIV: return ch[0] / ch[1]
    if k == z3.Z3_OP_UMINUS: return -ch[0]
    raise Unsupported('fraction %s' % e.decl())
def unsym(p):
    import sympy
    if p.is_Rational: return z3.RealVal(str(p))
    if p.is_Symbol: return z3.Real(p.name)
    if p.is_Add or p.is_Mul:
        r = None
        for a in p.args:
            a = unsym(a); r = a if r is None else (r + a if p.is_Add else r * a)
        return r
    if p.is_Pow and p.exp.is_Integer and p.exp > 0:
        b = unsym(p.base); r = b
        for _ in range(int(p.exp) - 1): r = r * b
        return r
    raise Unsupported('polynomial %s' % p)
def fraction(e):
    import sympy
    n, d = sympy.fraction(sympy.cancel(sym(e)))
    return unsym(sympy.factor(n)), unsym(sympy.factor(d))
def cleared(hyps, c):
    """the comparison c without fractions, when the sign of the denominator is known"""
    neg = z3.is_not(c)
    if neg: c = c.arg(0)
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT): return []
    n, d = fraction(c.arg(0) - c.arg(1))
    s = z3.Solver(); s.set('timeout', 1000); s.add(hyps); s.add(d <= 0)
    if s.check() != z3.unsat:
        s = z3.Solver(); s.set('timeout', 1000); s.add(hyps); s.add(d >= 0)
        if s.check() != z3.unsat: return []
        n = -n
    r = {z3.Z3_OP_LE: n <= 0, z3.Z3_OP_LT: n < 0, z3.Z3_OP_GE: n >= 0, z3.Z3_OP_GT: n > 0}[k]
    return [z3.Not(r) if neg else r]

class AED(Chain):
    target, title = 'dppy.mcmc_sampling:add_exchange_delete_sampler', 'add-exchange-delete chain'
    loops = (SizedStep(),)
    moves = ('add', 'exchange', 'delete')
class AD(Chain):
    target, title = 'dppy.mcmc_sampling:add_delete_sampler', 'add-delete chain'
    moves = ('add', 'delete')
class Ex(Chain):
    target, title = 'dppy.mcmc_sampling:basis_exchange_sampler', 'exchange chain'
    moves = ('exchange',)
    fixed = True
