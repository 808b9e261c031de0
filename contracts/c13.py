"""C13: RSK"""
from .base import *

class Rows:
    """list of rows: n rows, row r has L(r) entries E(r, c); for the insertion tableau the ghost src(r, c) is the index in the
    sequence of the entry, (sr, sc) the inverse map; for the recording tableau (sr, sc)(v) is the cell of the entry v"""
    stamp0, ro, name = 0, False, None
    def __init__(self, ctx, which, sort):
        self.which, self.sort = which, sort
        self.n = z3.IntVal(0)
        self.L = lambda r: z3.IntVal(0)
        self.E = fresh_fn('E' + which, I, I, sort); self.src = fresh_fn('src' + which, I, I, I)
        self.sr, self.sc = fresh_fn('sr' + which, I, I), fresh_fn('sc' + which, I, I)
        ctx.stamped(self)
    def v_havoc_self(self, ctx):
        self.n = fresh('rows' + self.which, I); ctx.assume(self.n >= 0)
        L = fresh_fn('len' + self.which, I, I); self.L = lambda r: L(r)
        self.E = fresh_fn('E' + self.which, I, I, self.sort); self.src = fresh_fn('src' + self.which, I, I, I)
        self.sr, self.sc = fresh_fn('sr' + self.which, I, I), fresh_fn('sc' + self.which, I, I)
    def snap(self):
        o = object.__new__(Rows); o.__dict__.update(self.__dict__); return o
    def v_len(self, ctx): return self.n
    def v_truth(self, ctx): return self.n > 0
    def v_iter(self, ctx): return self.n, lambda r: Row(self, to_int(r))
    def v_getitem(self, ctx, k):
        if not lib.is_scalar(k): raise Unsupported('rows selection')
        return Row(self, to_int(lib.norm_index(ctx, k, self.n)))
    def v_method(self, ctx, name, args, kw):
        if name == 'append' and isinstance(args[0], Lst) and args[0].concrete and len(args[0].items) == 1:
            ctx.note_write(self)
            r, L = self.n, self.L
            self.n = simp(self.n + 1)
            self.L = lambda a: z3.If(a == r, 0, L(a))
            Row(self, r).push(ctx, args[0].items[0])
            return None
        raise Unsupported('rows.%s' % name)
class Row:
    def __init__(self, t, r): self.t, self.r = t, r
    def v_len(self, ctx): return self.t.L(self.r)
    def v_getitem(self, ctx, k):
        if not lib.is_scalar(k): raise Unsupported('row slice')
        k = lib.norm_index(ctx, k, self.t.L(self.r))
        return self.t.E(self.r, to_int(k))
    def v_setitem(self, ctx, k, v):
        if not lib.is_scalar(k): raise Unsupported('row slice')
        ctx.note_write(self.t)
        k = to_int(lib.norm_index(ctx, k, self.t.L(self.r)))
        self.write(ctx, k, v, True)
    def v_method(self, ctx, name, args, kw):
        if name == 'append':
            ctx.note_write(self.t)
            self.push(ctx, args[0]); return None
        raise Unsupported('row.%s' % name)
    def push(self, ctx, v):
        t, r = self.t, self.r
        k = t.L(r); L = t.L
        t.L = lambda a: z3.If(a == r, L(a) + 1, L(a))
        self.write(ctx, k, v, False)
    def write(self, ctx, k, v, over):
        t, r = self.t, self.r
        E = t.E; v = to_real(v) if t.sort.eq(R) else to_int(v)
        old = E(r, k)
        t.E = lambda a, b: z3.If(z3.And(a == r, b == k), v, E(a, b))
        ctx.contract.cell(ctx, t, r, k, v, old, over)

def bisect(right):
    def f(ctx, args, kw):
        row, x = args[0], to_real(args[1])
        if not isinstance(row, Row) or len(args) > 2 or kw: raise Unsupported('bisect')
        E, L, r = row.t.E, row.t.L(row.r), row.r
        ctx.check('bisect: the row is sorted', All(lambda a, b: z3.Implies(z3.And(a >= 0, a <= b, b < L), E(r, a) <= E(r, b)), 2), kind='definedness')
        p = fresh('bis', I)
        ctx.assume([p >= 0, p <= L])
        ctx.assume(All(lambda c: z3.Implies(z3.And(c >= 0, c < p), E(r, c) <= x if right else E(r, c) < x)))
        ctx.assume(All(lambda c: z3.Implies(z3.And(c >= p, c < L), E(r, c) > x if right else E(r, c) >= x)))
        return p
    return f

def incell(t, r, c): return z3.And(r >= 0, r < t.n, c >= 0, c < t.L(r))
def rows_sorted(t, strict=False, lo=None, hi=None):
    hi = t.n if hi is None else hi
    return All(lambda r, c, d: z3.Implies(z3.And(r >= 0, r < hi, c >= 0, (c < d) if strict else (c <= d), d < t.L(r)), (t.E(r, c) < t.E(r, d)) if strict else (t.E(r, c) <= t.E(r, d))), 3)
def columns(t, hi=None):
    hi = t.n if hi is None else hi
    return All(lambda r, c: z3.Implies(z3.And(r >= 0, r + 1 < hi, c >= 0, c < t.L(r + 1)), t.E(r, c) < t.E(r + 1, c)), 2)
def shape(t):
    return [('rows are not empty', All(lambda r: z3.Implies(z3.And(r >= 0, r < t.n), t.L(r) >= 1))),
            ('row lengths decrease', All(lambda r: z3.Implies(z3.And(r >= 0, r + 1 < t.n), t.L(r + 1) <= t.L(r))))]
def bijection(t, val, lo, hi, hole=None, what='entries'):
    """val: cell -> index in lo..hi-1 (less the hole) is a bijection, with inverse (sr, sc)"""
    ok = lambda v: z3.And(v >= lo, v < hi) if hole is None else z3.And(v >= lo, v < hi, v != hole)
    return [('%s: one cell per index' % what, All(lambda r, c: z3.Implies(incell(t, r, c), z3.And(ok(val(r, c)), t.sr(val(r, c)) == r, t.sc(val(r, c)) == c)), 2)),
            ('%s: every index has a cell' % what, All(lambda v: z3.Implies(ok(v), z3.And(incell(t, t.sr(v), t.sc(v)), val(t.sr(v), t.sc(v)) == v))))]

class Insertions(LoopSpec):
    name = 'insertions'
    def entry(self, ls):
        for w, so in (('P', R), ('Q', I)):
            v = ls.v(w)
            if not (isinstance(v, Lst) and v.concrete): raise Unsupported('tableau representation')
            ls.ctx.check('the tableaux are empty at first', len(v.items) == 0)
            ls.set(w, Rows(ls.ctx, w, so))
    def inv(self, ls):
        g = ls.g
        P, Q, t = ls.v('P'), ls.v('Q'), ls.it
        if not isinstance(P, Rows) or not isinstance(Q, Rows): raise Unsupported('tableau representation')
        P, Q = P.snap(), Q.snap()
        fin, bv, seq = g['fin'], g['bv'], g['seq']
        out = shape(P) + [('same number of rows', P.n == Q.n), ('same shape', All(lambda r: z3.Implies(z3.And(r >= 0, r < P.n), Q.L(r) == P.L(r))))]
        out += [('insertion tableau: rows weakly increase', rows_sorted(P)), ('insertion tableau: columns strictly increase', columns(P))]
        out += [('recording tableau: rows increase', rows_sorted(Q, True)), ('recording tableau: columns increase', columns(Q))]
        out += bijection(P, P.src, z3.IntVal(0), t, what='insertion tableau') + bijection(Q, Q.E, z3.IntVal(1), t + 1, what='recording tableau')
        out += [('insertion tableau: entries are the values', All(lambda r, c: z3.Implies(incell(P, r, c), P.E(r, c) == seq(P.src(r, c))), 2))]
        out += [('there is a row as soon as there is an entry', z3.Implies(t >= 1, P.n >= 1)), ('no row at first', z3.Implies(t == 0, P.n == 0)),
                ('first row: its length is the longest weakly increasing subsequence', All(lambda j: z3.Implies(j >= 0, fin(t, j) == z3.And(P.n >= 1, j < P.L(z3.IntVal(0)))))),
                ('first row: smallest possible last values', All(lambda j: z3.Implies(z3.And(P.n >= 1, j >= 0, j < P.L(z3.IntVal(0))), P.E(z3.IntVal(0), j) == bv(t, j))))]
        return out
    def begin(self, ls):
        g = ls.g
        g.update(P0=ls.v('P').snap(), Q0=ls.v('Q').snap(), xs=ls.it, it=ls.it, kb=None, last=None, wq=[], placed=[])
    def end(self, ls):
        g, ctx = ls.g, ls.ctx
        ctx.check('one cell is added to each tableau', len(g['placed']) == 1 and len(g['wq']) == 1)
        if len(g['placed']) == 1 and len(g['wq']) == 1:
            (r, c), (r2, c2, v) = g['placed'][0], g['wq'][0]
            ctx.check('the new cells are the same', z3.And(r == r2, c == c2))
            ctx.check('the recording tableau holds the step number', v == g['it'] + 1)

class Bumps(LoopSpec):
    name = 'bumping'
    def inv(self, ls):
        g, r = ls.g, ls.it
        P, Q, P0, Q0 = ls.v('P').snap(), ls.v('Q').snap(), g['P0'], g['Q0']
        x, xs, seq, t = to_real(ls.v('x')), g['xs'], g['seq'], g['it']
        if ls.phase == 'entry': g['kb'] = z3.IntVal(0)
        kb = g['kb']
        fin, bv = g['fin'], g['bv']
        z = z3.IntVal(0)
        out = [('rows are kept', z3.And(P.n == P0.n, Q.n == Q0.n)),
               ('row lengths are kept', All(lambda a: P.L(a) == P0.L(a))),
               ('row lengths of the recording tableau are kept', All(lambda a: Q.L(a) == Q0.L(a))),
               ('recording tableau is kept', All(lambda a, c: Q.E(a, c) == Q0.E(a, c), 2)),
               ('cells of the recording tableau are kept', All(lambda v: z3.And(Q.sr(v) == Q0.sr(v), Q.sc(v) == Q0.sc(v)))),
               ('rows below are kept', All(lambda a, c: z3.Implies(z3.And(a >= r, a < P.n), P.E(a, c) == P0.E(a, c)), 2)),
               ('entries only decrease', All(lambda a, c: z3.Implies(z3.And(incell(P, a, c)), P.E(a, c) <= P0.E(a, c)), 2)),
               ('rows above weakly increase', rows_sorted(P, hi=r)), ('columns above strictly increase', columns(P, hi=r)),
               ('the value to insert comes from the sequence', z3.And(x == seq(xs), xs >= 0, xs <= t)),
               ('the value to insert was bumped', z3.Implies(r >= 1, z3.And(kb >= 0, kb < P.L(r - 1), x == P0.E(r - 1, kb), P.E(r - 1, kb) < x))),
               ('first row: insertion', z3.Implies(r == 0, x == seq(t)))]
        out += [('first row: reachable lengths', All(lambda j: z3.Implies(z3.And(r >= 1, j >= 0), fin(t + 1, j) == (j < P.L(z))))),
                ('first row: smallest last values', All(lambda j: z3.Implies(z3.And(r >= 1, j >= 0, j < P.L(z)), P.E(z, j) == bv(t + 1, j))))]
        out += bijection(P, P.src, z3.IntVal(0), t + 1, hole=xs, what='insertion tableau')
        out += [('insertion tableau: entries are the values', All(lambda a, c: z3.Implies(incell(P, a, c), P.E(a, c) == seq(P.src(a, c))), 2))]
        return out
    def head(self, ls):
        g = ls.g
        g['xs'], g['kb'] = fresh('xs', I), fresh('kb', I)
    def begin(self, ls): ls.g['row'] = ls.it; ls.g['last'] = None

class RSKc(FnContract):
    prop, target, title = 'C13', 'dppy.exotic_dpps_core:RSK', 'row insertion'
    loops = (Insertions(), Bumps())
    must_reach = ('pre', 'return', 'insertions:body', 'insertions:exit', 'bumping:body', 'bumping:exit', 'bumping:break')
    externals = {'bisect.bisect_right': bisect(True), 'bisect.bisect': bisect(True), 'bisect.bisect_left': bisect(False)}
    roles = {'P': lambda v: isinstance(v, Lst) and v.concrete and not v.items, 'Q': lambda v: isinstance(v, Lst) and v.concrete and not v.items, 'x': lambda v: lib.scalar_sort(v) is not None}
    assumes = ('values are totally ordered (modelled by the reals)',
               'smallest last value of the weakly increasing subsequences of length j+1 of a prefix obeys the usual recursion (definition of fin, bv)')
    def setup(self, ctx):
        n = z3.Int('n'); ctx.assume(n >= 0)
        s, seq = vector(ctx, 'sequence', n)
        fin, bv = z3.Function('fin', I, I, B), z3.Function('bv', I, I, R)
        ctx.assume(All(lambda j: z3.Not(fin(z3.IntVal(0), j)), name='no subsequence of nothing'))
        ext = lambda t, j: z3.Or(j == 0, z3.And(fin(t, j - 1), bv(t, j - 1) <= seq(t)))
        ctx.assume(All(lambda t, j: z3.Implies(z3.And(t >= 0, j >= 0), z3.And(fin(t + 1, j) == z3.Or(fin(t, j), ext(t, j)),
                   bv(t + 1, j) == z3.If(ext(t, j), z3.If(z3.And(fin(t, j), bv(t, j) <= seq(t)), bv(t, j), seq(t)), bv(t, j)))), 2, name='recursion'))
        ctx.ghost.update(n=n, seq=seq, fin=fin, bv=bv)
        return [s], {}
    def cell(self, ctx, t, r, k, v, old, over):
        """after v is written in the cell (r, k) of the tableau t"""
        g = ctx.ghost
        if t.which == 'Q':
            ctx.check('entries of the recording tableau are never replaced', not over)
            g['wq'].append((r, k, v))
            sr, sc = t.sr, t.sc
            t.sr, t.sc = (lambda a: z3.If(a == v, r, sr(a))), (lambda a: z3.If(a == v, k, sc(a)))
            return
        seq, xs = g['seq'], g['xs']
        ctx.check('the value placed is the one to insert', v == seq(xs))
        src, sr, sc = t.src, t.sr, t.sc
        o = src(r, k)
        t.src = lambda a, b: z3.If(z3.And(a == r, b == k), xs, src(a, b))
        t.sr, t.sc = (lambda a: z3.If(a == xs, r, sr(a))), (lambda a: z3.If(a == xs, k, sc(a)))
        E, L, kb, z = t.E, t.L, g['kb'], z3.IntVal(0)
        self.cut(ctx, 'entries on the left are not larger', All(lambda c: z3.Implies(z3.And(c >= 0, c < k), E(r, c) <= v)))
        self.cut(ctx, 'entries on the right are larger', All(lambda c: z3.Implies(z3.And(c > k, c < L(r)), E(r, c) > v)))
        self.cut(ctx, 'the entry above was replaced, here or on the right', z3.Implies(r >= 1, k <= kb))
        self.cut(ctx, 'there is an entry above', z3.Implies(r >= 1, k < L(r - 1)))
        self.cut(ctx, 'the row above is sorted', z3.Implies(r >= 1, E(r - 1, k) <= E(r - 1, kb)))
        self.cut(ctx, 'the row is sorted', All(lambda a, c, d: z3.Implies(z3.And(a == r, c >= 0, c <= d, d < L(a)), E(a, c) <= E(a, d)), 3))
        self.cut(ctx, 'the entry above is smaller', z3.Implies(r >= 1, z3.And(k < L(r - 1), E(r - 1, k) < v)))
        bv, it, n0 = g['bv'], g['it'], g['P0'].n
        self.cut(ctx, 'first row: last values on the left', All(lambda c: z3.Implies(z3.And(r == 0, c >= 0, c < k), bv(it, c) <= v)))
        self.cut(ctx, 'first row: last values on the right', All(lambda c: z3.Implies(z3.And(r == 0, n0 >= 1, c >= k, c < g['P0'].L(z)), bv(it, c) > v)))
        if over:
            g['xs'], g['kb'] = o, k
            ctx.check('reverse insertion finds the cell: the new entry is smaller than the bumped one', v < old)
            ctx.check('reverse insertion finds the cell: later entries are not', All(lambda c: z3.Implies(z3.And(c > k, c < L(r)), E(r, c) >= old)))
        else: g['placed'].append((r, k)); g['xs'] = None
    def cut(self, ctx, name, f):
        ctx.check(name, f); ctx.assume(f)
    def on_return(self, ctx, v):
        g = ctx.ghost
        if not (isinstance(v, tuple) and len(v) == 2 or isinstance(v, Lst) and v.concrete and len(v.items) == 2): raise Unsupported('pair of tableaux')
        P, Q = v if isinstance(v, tuple) else v.items
        ctx.check('the insertion tableau is returned first, the recording tableau second', isinstance(P, Rows) and isinstance(Q, Rows) and P.which == 'P' and Q.which == 'Q')
CONTRACTS = [RSKc]
