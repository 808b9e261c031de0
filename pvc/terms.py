"""Terms, sums and the discharge procedure of the verifier.

Scalars are z3 terms (Int, Real, Bool, uninterpreted sorts) or Python numbers; floats are mathematical reals.
SUM(n, lambda s. body) is an uninterpreted function of its bound and its (lambda) body; `Normalizer` brings sums
to a normal form (linearity, Fubini, unfolding, case resolution under the binder)."""
import z3, itertools, time, fractions, math
from fractions import Fraction

class Unsupported(Exception):
    """construct outside the verified subset: the obligations of the function stay undischarged"""

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
PI, LGAM = z3.Real('PI'), z3.Function('LGAM', R, R)
SUM = z3.Function('SUM', I, z3.ArraySort(I, R), R)
SQRT = z3.Function('SQRT', R, R)
LOG = z3.Function('LOG', R, R)
EXP = z3.Function('EXP', R, R)
OPT = {}                # 'exp': normal form of products of exponentials, logarithms, powers and log-gamma values
SYMMETRIC = {}          # name of UF -> (p, q): argument positions that may be exchanged

_cnt = itertools.count()
def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_cnt)), sort)
def fresh_fn(name, *sorts):
    return z3.Function('%s!%d' % (name, next(_cnt)), *sorts)
def reset_fresh():
    global _cnt
    _cnt = itertools.count()
    SYMMETRIC.clear()
    OPT.clear()

def is_z3(x): return isinstance(x, z3.ExprRef)
def is_num(x): return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)

def frac(x):
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non finite float constant')
        return Fraction(repr(x))
    return Fraction(x)

def to_real(x):
    if isinstance(x, bool): return z3.RealVal(int(x))
    if is_num(x):
        f = frac(x)
        return z3.RealVal(str(f))
    if is_z3(x):
        if x.sort() == I: return z3.simplify(z3.ToReal(x)) if z3.is_int_value(x) else z3.ToReal(x)
        if x.sort() == B: return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if x.sort() == R: return x
    raise Unsupported('not a real: %r' % (x,))

def to_int(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if is_num(x) and frac(x).denominator == 1: return z3.IntVal(int(frac(x)))
    if is_z3(x):
        if x.sort() == I: return x
        if x.sort() == B: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an int: %r' % (x,))

def to_bool(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if is_z3(x):
        if x.sort() == B: return x
        return x != 0
    if is_num(x): return z3.BoolVal(x != 0)
    raise Unsupported('not a bool: %r' % (x,))

def sort_of(x):
    if isinstance(x, bool): return B
    if isinstance(x, int): return I
    if is_num(x): return R
    if is_z3(x): return x.sort()
    raise Unsupported('no sort: %r' % (x,))

def simp(x):
    return z3.simplify(x) if is_z3(x) else x

def concrete(x):
    """python value of a literal z3 term, or x"""
    if is_z3(x):
        x = z3.simplify(x)
        if z3.is_int_value(x): return x.as_long()
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x

def mk_sum(n, f):
    """sum_{0<=s<n} f(s)"""
    n = concrete(n)
    if isinstance(n, int) and n <= 4:
        acc = z3.RealVal(0)
        for s in range(max(n, 0)):
            acc = acc + to_real(f(z3.IntVal(s)))
        return z3.simplify(acc)
    s = fresh('s', I)
    body = to_real(f(s))
    v = z3.Int('sg!%d' % lam_depth(body))       # canonical bound name: equal sums are identical terms
    return SUM(to_int(n), z3.Lambda([v], z3.substitute(body, (s, v))))

PROD = z3.Function('PROD', I, z3.ArraySort(I, R), R)
def mk_prod(n, f):
    """prod_{0<=s<n} f(s)"""
    n = concrete(n)
    if isinstance(n, int) and n <= 4:
        acc = z3.RealVal(1)
        for s in range(max(n, 0)): acc = acc * to_real(f(z3.IntVal(s)))
        return z3.simplify(acc)
    s = fresh('s', I)
    body = to_real(f(s))
    v = z3.Int('sg!%d' % lam_depth(body))
    return PROD(to_int(n), z3.Lambda([v], z3.substitute(body, (s, v))))

_depth = {}
def lam_depth(e):
    r = _depth.get(e.get_id())
    if r is not None and z3.eq(r[0], e): return r[1]
    d = 0
    for x in subterms(e):
        if z3.is_quantifier(x): d = max(d, 1 + lam_depth(x.body()))
    if len(_depth) > 100000: _depth.clear()
    _depth[e.get_id()] = (e, d)
    return d

# ------------------------------------------------------------------ hypotheses
import types
def freeze(f, depth=3):
    """copy of a closure with its free variables bound to their current values (loops in contracts build closures that are
    evaluated later)"""
    if not isinstance(f, types.FunctionType) or not f.__closure__ or depth == 0: return f
    cells = []
    for c in f.__closure__:
        try: v = c.cell_contents
        except ValueError: return f         # not bound yet (recursive definition)
        cells.append(types.CellType(freeze(v, depth - 1) if v is not f else v))
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g

class All:
    """forall x_1..x_k . fn(x_1..x_k); as a hypothesis it is instantiated on ground index terms, as a goal skolemised"""
    def __init__(self, fn, n=1, sorts=None, name='', domain=None, rw=False):
        self.fn, self.n, self.name = freeze(fn), n, name
        self.rw = rw                # also use  guard -> lhs == rhs  as a rewrite rule lhs -> rhs (under binders)
        self.sorts = sorts or [I] * n
        self.domain = domain        # optional: fn(term)->bool restricting candidates
    def inst(self, *ts):
        return self.fn(*ts)

class Obligation:
    def __init__(self, name, hyps, goal, where='', path=(), kind='assert'):
        self.name, self.hyps, self.goal = name, list(hyps), goal
        self.where, self.path, self.kind = where, tuple(path), kind
        self.status, self.detail, self.backend, self.time = None, '', '', 0.0

# ------------------------------------------------------------------ normalisation
def subterms(e, seen=None, out=None):
    stack = [e]; seen = set() if seen is None else seen; out = [] if out is None else out
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return out

def has_var(e, var, cache=None):
    for x in subterms(e):
        if z3.eq(x, var): return True
    return False

class Normalizer:
    """rewrites a term: resolves If-conditions decided by the context, expands products, pulls constants out of sums,
    merges nested sums, unfolds SUM(t+1) at its last index, sorts arguments of symmetric functions"""
    def __init__(self, ctx, timeout=300, budget=None):
        self.solver = z3.Solver(); self.solver.set('timeout', timeout)
        for c in ctx:
            self.solver.add(c)
        self.cache = {}
        self.decide_cache = {}
        self.calls = 0
        self.budget = budget
        self.alls, self.ground, self.rules = [], [], {}
        self.eqmap, self.rmap = {}, {}
    def use(self, alls, ground=()):
        self.alls, self.ground = list(alls), list(ground)
        for h in self.ground: self.add_eq(h)
        for h in self.alls:
            if h.rw:
                for name, rule in rules_of(h): self.rules.setdefault(name, []).append(rule)
        return self
    def add_eq(self, h):
        """ground integer equalities, used to replace applications by constants and later constants by earlier ones"""
        for e in conjuncts(h):
            if OPT.get('exp') and z3.is_eq(e) and e.arg(0).sort() == R:
                a, b = e.arg(0), e.arg(1)
                if z3.is_rational_value(a): a, b = b, a
                if z3.is_rational_value(b) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not free_vars(a): self.rmap[a.get_id()] = (a, b)
            if not (z3.is_eq(e) and e.arg(0).sort() == I): continue
            a, b = e.arg(0), e.arg(1)
            ok = lambda x: z3.is_const(x) and (x.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_int_value(x))
            ap = lambda x: z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().eq(SUM) and not free_vars(x)
            if ap(a) and ok(b): pass
            elif ap(b) and ok(a): a, b = b, a
            elif ok(a) and ok(b):
                if z3.is_int_value(a): a, b = b, a
                if z3.is_int_value(a): continue
                if not z3.is_int_value(b) and a.sexpr() < b.sexpr(): a, b = b, a
            else: continue
            a, b = self.rep(a), self.rep(b)
            if not z3.eq(a, b) and not z3.is_int_value(a): self.eqmap[a.get_id()] = (a, b)
    def rep(self, x):
        n = 0
        while x.get_id() in self.eqmap and n < 50:
            x = self.eqmap[x.get_id()][1]; n += 1
        return x
    def rewrite(self, r, extra):
        if not self.rules or not z3.is_app(r): return r
        rs = self.rules.get(r.decl().name())
        if not rs: return r
        for vs, lhs, rhs, guard in rs:
            for p in variants(lhs):
                if not p.decl().eq(r.decl()): continue
                b = [None] * len(vs)
                for x, y in zip(p.children(), r.children()):
                    b = _unify(x, z3.simplify(y) if y.sort() == I else y, vs, b, _NOUF)
                    if b is None: break
                if b is None or any(t is None for t in b): continue
                sub = list(zip(vs, b))
                g = z3.simplify(z3.substitute(guard, *sub))
                if z3.is_true(g) or self.decided(g, extra) is True:
                    return self.norm(z3.substitute(rhs, *sub), extra)
        return r
    def decided(self, c, extra=()):
        key = (c.get_id(),) + tuple(x.get_id() for x in extra)
        if key in self.decide_cache: return self.decide_cache[key][0]
        if self.budget and time.time() > self.budget: return None
        self.calls += 1
        self.solver.push()
        for x in extra: self.solver.add(x)
        self.solver.push(); self.solver.add(z3.Not(c)); r = self.solver.check(); self.solver.pop()
        if r == z3.unsat: res = True
        else:
            self.solver.push(); self.solver.add(c); r = self.solver.check(); self.solver.pop()
            res = False if r == z3.unsat else None
        if res is None and extra and self.alls:
            inst = [x for x in ematch(self.alls, list(extra) + self.ground, [c], rounds=1, limit=60) if not traits(x)[0] and not traits(x)[2]]
            if inst:
                self.solver.add(inst)
                self.solver.push(); self.solver.add(z3.Not(c)); r = self.solver.check(); self.solver.pop()
                if r == z3.unsat: res = True
                else:
                    self.solver.push(); self.solver.add(c); r = self.solver.check(); self.solver.pop()
                    if r == z3.unsat: res = False
        self.solver.pop()
        self.decide_cache[key] = (res, c, extra)      # keep refs alive
        return res

    # polynomial representation: list of (coef Fraction, [atoms])  (atoms: z3 terms, sorted by key)
    def norm(self, e, extra=()):
        key = (e.get_id(),) + tuple(x.get_id() for x in extra)
        if key in self.cache: return self.cache[key][0]
        r = self._norm(e, extra)
        self.cache[key] = (r, e, extra)
        return r

    def _norm(self, e, extra):
        if z3.is_quantifier(e): return e
        if e.sort() == R:
            return self.from_poly(self.poly(e, extra))
        if z3.is_app(e) and e.num_args():
            ch = [self.norm(c, extra) for c in e.children()]
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                d = self.decided(ch[0], extra)
                if d is True: return self.norm(e.arg(1), extra)
                if d is False: return self.norm(e.arg(2), extra)
            r = e.decl()(*ch) if not z3.is_and(e) and not z3.is_or(e) else (z3.And(*ch) if z3.is_and(e) else z3.Or(*ch))
            r = self.sort_sym(r)
            r = self.rewrite(r, extra)
            if self.eqmap and r.sort() == I: r = self.rep(r)
            if e.sort() == I or e.sort() == B: r = z3.simplify(r)
            return r
        if self.eqmap and e.sort() == I: return self.rep(e)
        return e

    def sort_sym(self, r):
        if z3.is_app(r) and r.decl().name() in SYMMETRIC:
            p, q = SYMMETRIC[r.decl().name()]
            a = list(r.children())
            if a[p].sexpr() > a[q].sexpr():
                a[p], a[q] = a[q], a[p]
                r = r.decl()(*a)
        return r

    MAXTERMS = 400
    def poly(self, e, extra):
        """e of sort Real -> list of (Fraction, tuple of (atom, power))"""
        if self.rmap and e.get_id() in self.rmap: return self.poly(self.rmap[e.get_id()][1], extra)
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return [(v, ())] if v else []
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            return self.padd([self.poly(c, extra) for c in e.children()])
        if k == z3.Z3_OP_SUB:
            ps = [self.poly(c, extra) for c in e.children()]
            return self.padd([ps[0]] + [self.pscale(p, -1) for p in ps[1:]])
        if k == z3.Z3_OP_UMINUS:
            return self.pscale(self.poly(e.arg(0), extra), -1)
        if k == z3.Z3_OP_MUL:
            acc = [(Fraction(1), ())]
            for c in e.children():
                acc = self.pmul(acc, self.poly(c, extra))
            return acc
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1:
            n = e.arg(1).numerator_as_long()
            if 0 <= n <= 8:
                acc = [(Fraction(1), ())]
                p = self.poly(e.arg(0), extra)
                for _ in range(n): acc = self.pmul(acc, p)
                return acc
        if k == z3.Z3_OP_DIV:
            num, den = self.poly(e.arg(0), extra), self.poly(e.arg(1), extra)
            if len(den) == 1:
                c, m = den[0]
                if not m: return self.pscale(num, 1 / c)
                return self.pmul(num, [(1 / c, tuple((a, -p) for a, p in m))])
            d = self.from_poly(den)
            # factor: treat the denominator as one atom with power -1
            return self.pmul(num, [(Fraction(1), ((d, -1),))])
        if k == z3.Z3_OP_ITE:
            c = self.norm(e.arg(0), extra)
            d = self.decided(c, extra)
            if d is True: return self.poly(e.arg(1), extra)
            if d is False: return self.poly(e.arg(2), extra)
            return [(Fraction(1), ((z3.If(c, self.norm(e.arg(1), extra), self.norm(e.arg(2), extra)), 1),))]
        if k == z3.Z3_OP_TO_REAL:
            a = z3.simplify(self.norm(e.arg(0), extra))
            if z3.is_int_value(a): return [(Fraction(a.as_long()), ())] if a.as_long() else []
            if a.decl().kind() == z3.Z3_OP_ADD:
                return self.padd([self.poly(z3.ToReal(c), extra) for c in a.children()])
            if a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2 and z3.is_int_value(a.arg(0)):
                return self.pscale(self.poly(z3.ToReal(a.arg(1)), extra), a.arg(0).as_long())
            if a.decl().kind() == z3.Z3_OP_ITE:
                return self.poly(z3.If(a.arg(0), z3.ToReal(a.arg(1)), z3.ToReal(a.arg(2))), extra)
            return [(Fraction(1), ((z3.ToReal(a), 1),))]
        if e.decl().eq(SUM):
            return self.sum_poly(e.arg(0), e.arg(1), extra)
        if e.decl().eq(PROD):
            return self.prod_poly(e.arg(0), e.arg(1), extra)
        if OPT.get('exp'):
            r = self.exp_poly(e, extra)
            if r is not None: return r
        if e.num_args():
            if e.decl().kind() == z3.Z3_OP_SELECT and z3.is_quantifier(e.arg(0)):
                return self.poly(z3.substitute_vars(e.arg(0).body(), e.arg(1)), extra)
            ch = [self.norm(c, extra) for c in e.children()]
            r = self.sort_sym(e.decl()(*ch))
            if self.rules and r.decl().name() in self.rules:
                r2 = self.rewrite(r, extra)
                if not z3.eq(r2, r): return self.poly(r2, extra)
            if e.decl().eq(SQRT):
                v = concrete(r.arg(0))
                if is_num(v):
                    v = Fraction(v); a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
                    if v >= 0 and a * a == v.numerator and b * b == v.denominator:
                        return [(Fraction(a, b), ())] if a else []
            return [(Fraction(1), ((r, 1),))]
        return [(Fraction(1), ((e, 1),))]

    # ---- exponentials and logarithms (OPT['exp'])
    def positive(self, x, extra):
        if z3.is_app(x) and x.decl().eq(EXP): return True
        v = concrete(x)
        return v > 0 if is_num(v) else self.decided(x > 0, extra) is True
    def exp_poly(self, e, extra):
        nm = e.decl().name()
        if nm == 'POW':
            if self.decided(z3.Or(e.arg(0) > 0, e.arg(1) == 0), extra) is not True: return None
            return self.poly(EXP(e.arg(1) * LOG(e.arg(0))), extra)
        if nm == 'EXP':
            fac, rest = [(Fraction(1), ())], []
            for c, m in self.poly(e.arg(0), extra):
                if len(m) == 1 and m[0][1] == 1 and m[0][0].decl().eq(LOG) and c.denominator <= 2 and abs(c) <= 4 and self.positive(m[0][0].arg(0), extra):
                    x = self.poly(m[0][0].arg(0), extra)
                    if c.denominator == 2: x, c = [(Fraction(1), ((SQRT(self.from_poly(x)), 1),))], 2 * c
                    x = x if len(x) == 1 else [(Fraction(1), ((self.from_poly(x), 1),))]
                    if c < 0: x = [(1 / x[0][0], tuple((a, -q) for a, q in x[0][1]))]
                    for _ in range(abs(int(c))): fac = self.pmul(fac, x)
                else: rest.append((c, m))
            if rest: fac = self.pmul(fac, [(Fraction(1), ((EXP(self.from_poly(rest)), 1),))])
            return fac
        if nm == 'LOG':
            x = self.poly(e.arg(0), extra)
            if len(x) != 1: return [(Fraction(1), ((LOG(self.from_poly(x)), 1),))]
            c, m = x[0]
            if c <= 0 or not all(self.positive(a, extra) for a, q in m): return [(Fraction(1), ((LOG(self.from_poly(x)), 1),))]
            out = []
            for a, q in m:
                if a.decl().eq(EXP): out.append(self.pscale(self.poly(a.arg(0), extra), q))
                elif a.decl().eq(SQRT): out.append(self.pscale(self.poly(LOG(a.arg(0)), extra), Fraction(q, 2)))
                else: out.append([(Fraction(q), ((LOG(a), 1),))])
            for k, s in ((c.numerator, 1), (c.denominator, -1)):
                p = 2
                while k > 1 and p < 1000:
                    while k % p == 0: out.append([(Fraction(s), ((LOG(z3.RealVal(p)), 1),))]); k //= p
                    p += 1
                if k > 1: out.append([(Fraction(s), ((LOG(z3.RealVal(k)), 1),))])
            return self.padd(out)
        if nm == 'SQRT':
            x = self.poly(e.arg(0), extra)
            if len(x) == 1 and len(x[0][1]) == 1 and x[0][1][0][0].decl().eq(EXP) and x[0][0] > 0:
                return self.poly(SQRT(z3.RealVal(str(x[0][0]))) * EXP(x[0][1][0][0].arg(0) * z3.RealVal(str(Fraction(x[0][1][0][1], 2)))), extra)
            return None
        if nm == 'LGAM':
            x = self.poly(e.arg(0), extra)
            const = sum((c for c, m in x if not m), Fraction(0)); rest = [(c, m) for c, m in x if m]
            if not rest:
                if const in (1, 2): return []
                if const == Fraction(1, 2): return self.poly(LOG(PI) / 2, extra)
                if not const > 0: return None
            # Gamma(x + 1) = x Gamma(x), x > 0: constant part in (0, 1]
            up, k = [], 0
            while const > 1 and k < 8:
                y = self.from_poly(self.padd([rest, [(const - 1, ())]]))
                if not self.positive(y, extra): break
                up.append(self.poly(LOG(y), extra)); const -= 1; k += 1
            while const <= 0 and k < 8:
                y = self.from_poly(self.padd([rest, [(const, ())] if const else []]))
                if not self.positive(y, extra): break
                up.append(self.pscale(self.poly(LOG(y), extra), -1)); const += 1; k += 1
            y = self.from_poly(self.padd([rest, [(const, ())] if const else []]))
            base = self.exp_poly(LGAM(y), extra) if not rest else [(Fraction(1), ((LGAM(y), 1),))]
            return self.padd([base if base is not None else [(Fraction(1), ((LGAM(y), 1),))]] + up)
        return None

    @staticmethod
    def key(a): return a.sexpr()
    def padd(self, ps):
        d = {}
        for p in ps:
            for c, m in p:
                k = tuple((a.get_id(), q) for a, q in m)
                if k in d: d[k] = (d[k][0] + c, m)
                else: d[k] = (c, m)
        return [(c, m) for c, m in d.values() if c]
    def pscale(self, p, k): return [(c * k, m) for c, m in p] if k else []
    def mmul(self, m1, m2):
        d = {}
        for a, q in m1 + m2:
            if a.get_id() in d: d[a.get_id()] = (a, d[a.get_id()][1] + q)
            else: d[a.get_id()] = (a, q)
        out = []
        for a, q in d.values():
            if q == 0: continue
            if a.decl().eq(SQRT) and abs(q) >= 2 and a.num_args():
                # SQRT(x)^2 = x (x >= 0 is an obligation where sqrt is applied)
                h, rem = divmod(abs(q), 2)
                s = 1 if q > 0 else -1
                inner = self.poly(a.arg(0), ())
                if len(inner) == 1 and inner[0][0] == 1:
                    for b, r in inner[0][1]: out.append((b, r * h * s))
                else:
                    out.append((self.from_poly(inner), h * s))
                if rem: out.append((a, s))
            else:
                out.append((a, q))
        if OPT.get('exp'):
            ex = [(a, q) for a, q in out if a.decl().eq(EXP)]
            if len(ex) > 1 or ex and ex[0][1] != 1:
                out = [(a, q) for a, q in out if not a.decl().eq(EXP)]
                u = self.padd([self.pscale(self.poly(a.arg(0), ()), q) for a, q in ex])
                if u: out.append((EXP(self.from_poly(u)), 1))
        ids = [a.get_id() for a, _ in out]
        if len(set(ids)) != len(ids):
            return self.mmul(tuple(out), ())
        return tuple(sorted([x for x in out if x[1]], key=lambda t: (self.key(t[0]), t[1])))
    def pmul(self, p, q):
        if len(p) * len(q) > self.MAXTERMS: raise Unsupported('polynomial too large')
        d = {}
        for c1, m1 in p:
            for c2, m2 in q:
                m = self.mmul(m1, m2)
                # an atom that is itself a sum of terms with positive power: expand
                k = tuple((a.get_id(), r) for a, r in m)
                if k in d: d[k] = (d[k][0] + c1 * c2, m)
                else: d[k] = (c1 * c2, m)
        return [(c, m) for c, m in d.values() if c]
    def from_mono(self, c, m):
        num, den = [], []
        for a, q in m:
            (num if q > 0 else den).extend([a] * abs(q))
        r = None
        for a in num: r = a if r is None else r * a
        if r is None: r = z3.RealVal(str(c))
        elif c != 1: r = z3.RealVal(str(c)) * r
        if den:
            dd = None
            for a in den: dd = a if dd is None else dd * a
            r = r / dd
        return r
    def from_poly(self, p):
        if not p: return z3.RealVal(0)
        ts = sorted([self.from_mono(c, m) for c, m in p], key=lambda t: t.sexpr())
        r = ts[0]
        for t in ts[1:]: r = r + t
        return r

    # ---- products: PROD(n, g h / k) is PROD(n, g) PROD(n, h) / PROD(n, k)
    def prod_poly(self, n, lam, extra):
        n = z3.simplify(self.norm(n, extra))
        if not z3.is_quantifier(lam): return [(Fraction(1), ((PROD(n, lam), 1),))]
        nn = concrete(n)
        if isinstance(nn, int) and nn <= 6:
            acc = [(Fraction(1), ())]
            for i in range(max(nn, 0)): acc = self.pmul(acc, self.poly(z3.substitute_vars(lam.body(), z3.IntVal(i)), extra))
            return acc
        s = z3.Int('bp%d' % lam_depth(lam.body()))
        body = z3.substitute_vars(lam.body(), s)
        p = self.poly(body, tuple(extra) + (s >= 0, s < n))
        at = lambda e: PROD(n, z3.Lambda([s], e))
        if len(p) != 1: return [(Fraction(1), ((at(self.from_poly(p)), 1),))]
        c, m = p[0]
        if OPT.get('exp'):
            # constants and exponentials: PROD(n, c) = c^n (c > 0), PROD(n, EXP u) = EXP(SUM(n, u))
            ex, rest = [], []
            for a, q in m:
                if not has_var(a, s) and self.positive(a, extra): ex.append(EXP(z3.RealVal(q) * z3.ToReal(n) * LOG(a)))
                elif a.decl().eq(EXP): ex.append(EXP(SUM(n, z3.Lambda([s], z3.RealVal(q) * a.arg(0)))))
                else: rest.append((at(a), q))
            if c > 0 and c != 1: ex.append(EXP(z3.ToReal(n) * LOG(z3.RealVal(str(c)))))
            elif c != 1: rest.append((at(z3.RealVal(str(c))), 1))
            acc = [(Fraction(1), self.mmul(tuple(rest), ()))]
            for e in ex: acc = self.pmul(acc, self.poly(e, extra))
            return acc
        out = tuple((at(a), q) for a, q in m)
        if c != 1: out += ((at(z3.RealVal(str(c))), 1),)
        return [(Fraction(1), self.mmul(out, ()))]

    # ---- sums
    def sum_poly(self, n, lam, extra):
        n = z3.simplify(self.norm(n, extra))
        if not z3.is_quantifier(lam):
            return [(Fraction(1), ((SUM(n, lam), 1),))]
        nn = concrete(n)
        if isinstance(nn, int):
            if nn <= 0: return []
            if nn <= 6:
                return self.padd([self.poly(z3.substitute_vars(lam.body(), z3.IntVal(s)), extra) for s in range(nn)])
        # unfold SUM(t + 1)
        if n.decl().kind() == z3.Z3_OP_ADD and any(z3.is_int_value(c) and c.as_long() >= 1 for c in n.children()):
            t = z3.simplify(n - 1)
            if self.decided(t >= 0, extra) is True:
                return self.padd([self.sum_poly(t, lam, extra), self.poly(z3.substitute_vars(lam.body(), t), extra)])
        if self.decided(n <= 0, extra) is True: return []
        s = fresh('b', I)
        body = z3.substitute_vars(lam.body(), s)
        ex2 = tuple(extra) + (s >= 0, s < n)
        return self.sum_over(s, n, self.poly(body, ex2), ex2, extra)

    def sum_over(self, s, n, p, ex2, extra):
        out = []
        for c, m in p:
            outside = tuple((a, q) for a, q in m if not has_var(a, s))
            inside = tuple((a, q) for a, q in m if has_var(a, s))
            if not inside:
                out.append([(c, self.mmul(outside, ((z3.ToReal(n), 1),)))] if not z3.is_int_value(n) else [(c * n.as_long(), outside)])
                continue
            # an ITE on  s == k  with k outside: sum of a delta
            bounds = [(s, n)]
            # merge nested sums (power one; squares too with OPT['sq'])
            flat, ok = [], True
            for a, q in inside:
                if (q == 1 or q == 2 and OPT.get('sq')) and a.decl().eq(SUM) and z3.is_quantifier(a.arg(1)) and not has_var(a.arg(0), s):
                    for _ in range(q):
                        b = fresh('b', I)
                        bounds.append((b, a.arg(0)))
                        sub = self.poly(z3.substitute_vars(a.arg(1).body(), b), ex2 + (b >= 0, b < a.arg(0)))
                        if len(sub) != 1: raise Unsupported('nested sum not in normal form')
                        c = c * sub[0][0]
                        flat.extend(sub[0][1])
                else:
                    flat.append((a, q))
            flat = self.mmul(tuple(flat), ())
            out.append([(c, self.mmul(outside, ((self.canon_sum(bounds, flat), 1),)))])
        return self.padd(out)

    def canon_sum(self, bounds, mono):
        """canonical nested SUM for sum over all bounds of the monomial"""
        best = None
        for perm in itertools.permutations(range(len(bounds))):
            names = [z3.Int('bv%d' % i) for i in range(len(bounds))]
            sub = [(bounds[p][0], names[i]) for i, p in enumerate(perm)]
            m2 = []
            for a, q in mono:
                m2.append((self.resort(z3.substitute(a, *sub)), q))
            m2 = sorted(m2, key=lambda t: (self.key(t[0]), t[1]))
            ns = [bounds[p][1] for p in perm]
            k = ([x.sexpr() for x in ns], [(self.key(a), q) for a, q in m2])
            if best is None or k < best[0]:
                best = (k, ns, names, m2)
        _, ns, names, m2 = best
        r = self.from_mono(Fraction(1), m2)
        for nme, n in reversed(list(zip(names, ns))):
            r = SUM(n, z3.Lambda([nme], r))
        return r
    def resort(self, a):
        if not SYMMETRIC or not z3.is_app(a) or not a.num_args(): return a
        ch = [self.resort(c) for c in a.children()]
        return self.sort_sym(a.decl()(*ch))

# ------------------------------------------------------------------ discharge
def flatten(hyps):
    ground, alls = [], []
    for h in hyps:
        if isinstance(h, All): alls.append(h)
        elif isinstance(h, (list, tuple)):
            g, a = flatten(h); ground += g; alls += a
        elif isinstance(h, bool):
            if not h: ground.append(z3.BoolVal(False))
        else: ground.append(h)
    return ground, alls

def int_consts(es, sort=I):
    out, seen, ids = [], set(), set()
    for e in es:
        for x in subterms(e, seen, []):
            if x.sort() == sort and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith('b!') and not x.decl().name().startswith('bv') and not x.decl().name().startswith('s!') and not x.decl().name().startswith('sg!'):
                if x.get_id() not in ids:
                    ids.add(x.get_id()); out.append(x)
    return out

def abstract_sums(es):
    """replace SUM apps (innermost lambdas kept opaque) by fresh constants; returns new formulas and the map"""
    m = {}
    seen = set(); subs = []
    for e in es:
        for x in subterms(e, seen, []):
            if z3.is_app(x) and (x.decl().eq(SUM) or x.decl().eq(PROD)):
                if all(z3.is_var(y) is False for y in subterms(x.arg(0))) and not free_vars(x):
                    m[x.get_id()] = x
    # only maximal ground sums
    out = []
    for x in m.values():
        v = z3.Real('sum!%d' % x.get_id())
        out.append((x, v))
    out.sort(key=lambda t: -len(t[0].sexpr()))
    es2 = [z3.substitute(e, *out) if out else e for e in es]
    return es2, out

def free_vars(e):
    """has de Bruijn variables not bound inside e?"""
    def go(x, depth):
        if z3.is_var(x): return z3.get_var_index(x) >= depth
        if z3.is_quantifier(x): return go(x.body(), depth + x.num_vars())
        return any(go(c, depth) for c in x.children())
    return go(e, 0)

def fun_axioms(es):
    """axioms instantiated for occurrences of SQRT/EXP/LOG"""
    ax, seen = [], set()
    apps = {}
    for e in es:
        for x in subterms(e, seen, []):
            if z3.is_app(x) and x.num_args() == 1 and not free_vars(x):
                apps.setdefault(x.decl().name(), []).append(x)
    for x in apps.get('SQRT', []):
        a = x.arg(0)
        ax += [z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)), z3.Implies(a > 0, x > 0)]
    for x in apps.get('EXP', []):
        ax += [x > 0]
    es_, ls_ = apps.get('EXP', []), apps.get('LOG', [])
    for x in ls_:
        for y in es_:
            ax += [z3.Implies(x.arg(0) == y, x == y.arg(0)), z3.Implies(z3.And(x.arg(0) > 0, y.arg(0) == x), y == x.arg(0))]
    for x, y in itertools.combinations(ls_[:8], 2):
        ax += [z3.Implies(z3.And(x.arg(0) > 0, y.arg(0) > 0), z3.And((x.arg(0) < y.arg(0)) == (x < y), (x.arg(0) == y.arg(0)) == (x == y)))]
    for x, y in itertools.combinations(es_[:8], 2):
        ax += [(x.arg(0) < y.arg(0)) == (x < y), (x.arg(0) == y.arg(0)) == (x == y)]
    return ax

def split_goal(g):
    if isinstance(g, (list, tuple)):
        out = []
        for x in g: out += split_goal(x)
        return out
    if is_z3(g) and z3.is_and(g):
        out = []
        for x in g.children(): out += split_goal(x)
        return out
    return [g]

def discharge(ob, timeout_ms=8000, max_inst=4000):
    t0 = time.time()
    try:
        st, det, be = _discharge(ob, timeout_ms, max_inst)
    except Unsupported as e:
        st, det, be = 'unknown', 'unsupported: %s' % e, ''
    except z3.Z3Exception as e:
        if __import__("os").environ.get("TB"): __import__("traceback").print_exc()
        st, det, be = 'unknown', 'z3 exception: %s' % str(e)[:200], ''
    ob.status, ob.detail, ob.backend, ob.time = st, det, be, time.time() - t0
    return ob

def _discharge(ob, timeout_ms, max_inst):
    goals = split_goal(ob.goal)
    for g in goals:
        st, det, be = _discharge1(ob, g, timeout_ms, max_inst)
        if st != 'proved': return st, det, be
    return 'proved', '', be if goals else 'trivial'

def _discharge1(ob, goal, timeout_ms, max_inst):
    ground, alls = flatten(ob.hyps)
    ground = [to_bool(g) for g in ground]
    sk = []
    while isinstance(goal, All):
        vs = [fresh('k', s) for s in goal.sorts]
        sk += vs
        goal = goal.inst(*vs)
        if isinstance(goal, (list, tuple)):
            goal = z3.And([to_bool(x) for x in goal]) if goal else True
        while is_z3(goal) and z3.is_implies(goal):
            ground.append(goal.arg(0)); goal = goal.arg(1)
    if goal is True: return 'proved', '', 'trivial'
    goal = to_bool(goal)
    while z3.is_implies(goal):
        ground.append(goal.arg(0)); goal = goal.arg(1)
    if z3.is_and(goal) or z3.is_or(goal) is False and z3.is_implies(goal):
        pass
    # quick syntactic attempt
    s = z3.Solver(); s.set('timeout', min(1000, timeout_ms)); s.add(ground); s.add(z3.Not(goal))
    if s.check() == z3.unsat: return 'proved', '', 'z3'
    # instantiate the universally quantified hypotheses by matching, then (if that is not enough) on a pool of index terms
    t_end = time.time() + timeout_ms / 1000.0 * 4
    if alls:
        m = ematch(alls, ground, [goal])
        s = z3.Solver(); s.set('timeout', min(1500, timeout_ms)); s.add(ground + m); s.add(z3.Not(goal))
        if s.check() == z3.unsat: return 'proved', '', 'z3'
        r = prove_norm(ground + m, goal, timeout_ms, depth=0, deadline=time.time() + timeout_ms / 1000.0 * 1.5, alls=alls)
        if r[0] == 'proved': return r
    inst, seen = [], set()
    def instantiate(cands_by_sort, limit):
        new = []
        for h in sorted(alls, key=lambda h: h.n):
            pools = [[c for c in cands_by_sort.get(str(sr), [])] for sr in h.sorts]
            tot = 1
            for p in pools: tot *= max(len(p), 1)
            for combo in itertools.product(*pools):
                k = (id(h),) + tuple(c.get_id() for c in combo)
                if k in seen: continue
                seen.add(k)
                f = h.inst(*combo)
                f1, a1 = flatten([f])
                for x in f1: new.append(to_bool(x))
                if len(new) > limit: return new
        return new
    base = ground + [goal]
    pool = {}
    sort_objs = {str(sr): sr for h in alls for sr in h.sorts}
    def index_terms(es, seen_idx, limit):
        out = []
        st = set()
        for e in es:
            for x in subterms(e, st, []):
                if z3.is_app(x) and x.num_args() and (x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE)) and not x.decl().eq(SUM):
                    for a in x.children():
                        if a.sort() == I and not free_vars(a):
                            a = z3.simplify(a)
                            if a.get_id() not in seen_idx and len(a.sexpr()) < 120:
                                seen_idx.add(a.get_id()); out.append(a)
                                if len(out) >= limit: return out
        return out
    maxar = max([h.n for h in alls] or [1])
    for name, so in sort_objs.items():
        gc = int_consts([goal] + sk, so)
        if so == I:
            seen_idx = set(c.get_id() for c in gc)
            gi = index_terms([goal], seen_idx, 12)
            cs = [c for c in int_consts(base, so) if c.get_id() not in seen_idx]
            for c in cs: seen_idx.add(c.get_id())
            hi = index_terms(ground, seen_idx, 12 if maxar <= 2 else 5)
            cs = gc + gi + cs + hi + [z3.IntVal(0)]
            u, seen_ids = [], set()
            for c in cs:
                if c.get_id() not in seen_ids: seen_ids.add(c.get_id()); u.append(c)
            cs = u
        else: cs = int_consts(base, so)
        pool[name] = cs
    inst = instantiate(pool, max_inst)
    allhyps = ground + inst
    s = z3.Solver(); s.set('timeout', min(2000, timeout_ms)); s.add(allhyps); s.add(z3.Not(goal))
    if s.check() == z3.unsat: return 'proved', '', 'z3'
    # normalise sums; case split on undecided conditions of the goal
    return prove_norm(allhyps, goal, timeout_ms, depth=0, deadline=t_end, alls=alls)

def qf(es):
    return [e for e in es]

def ite_conds(e, out, seen):
    for x in subterms(e, seen, []):
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not free_vars(x.arg(0)):
            out.append(x.arg(0))

_memo = {}
def traits(e):
    """(mentions SUM, mentions a symmetric function, has nonlinear real arithmetic), memoised on the term"""
    r = _memo.get(e.get_id())
    if r is not None and z3.eq(r[0], e): return r[1]
    has_sum = sym = nl = False
    for x in subterms(e):
        if not z3.is_app(x): continue
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and x.num_args():
            if x.decl().eq(SUM) or x.decl().eq(PROD): has_sum = True
            elif x.decl().name() in SYMMETRIC: sym = True
        elif k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            if k == z3.Z3_OP_MUL:
                if sum(1 for c in x.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1: nl = True
            elif k == z3.Z3_OP_POWER or not z3.is_rational_value(x.arg(1)): nl = True
    if len(_memo) > 200000: _memo.clear()
    _memo[e.get_id()] = (e, (has_sum, sym, nl))
    return has_sum, sym, nl

def _unify(p, g, vs, b, uf):
    """match pattern p against ground term g; b: binding (list, mutated copy returned) or None"""
    for n, v in enumerate(vs):
        if z3.eq(p, v):
            if b[n] is None:
                if not b_sort(v, g): return None
                b = list(b); b[n] = g; return b
            return b if uf(b[n], g) else None
    if not any(has_var(p, v) for v in vs): return b if uf(p, g) else None
    if not z3.is_app(p): return None
    k = p.decl().kind()
    if k == z3.Z3_OP_ADD and p.sort() == I:
        cs = [c for c in p.children() if not z3.is_int_value(c)]
        off = sum(c.as_long() for c in p.children() if z3.is_int_value(c))
        if len(cs) != 1: return None
        if off > 0:
            if z3.is_int_value(g):
                if g.as_long() < off: return None
            elif not (g.decl().kind() == z3.Z3_OP_ADD and any(z3.is_int_value(c) and c.as_long() >= off for c in g.children())): return None
        return _unify(cs[0], z3.simplify(g - off), vs, b, uf)
    if k == z3.Z3_OP_UNINTERPRETED and z3.is_app(g):
        outs = []
        for h in uf.members(g):
            if not z3.is_app(h) or not h.decl().eq(p.decl()): continue
            bb = b
            for x, y in zip(p.children(), h.children()):
                bb = _unify(x, z3.simplify(y) if y.sort() == I else y, vs, bb, uf)
                if bb is None: break
            if bb is not None: return bb
    return None
def rules_of(h):
    if getattr(h, '_rules', None) is not None: return h._rules
    vs = [z3.Const('pv!%d' % i, so) for i, so in enumerate(h.sorts)]
    out = []
    def go(e, guard):
        if z3.is_implies(e): return go(e.arg(1), guard + [e.arg(0)])
        if z3.is_and(e):
            for c in e.children(): go(c, guard)
            return
        if z3.is_eq(e) and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED: l, r = e.arg(0), e.arg(1)
        elif z3.is_not(e): l, r = e.arg(0), z3.BoolVal(False)
        elif e.sort() == B: l, r = e, z3.BoolVal(True)
        else: return
        if l.decl().kind() != z3.Z3_OP_UNINTERPRETED or not l.num_args() or not all(has_var(l, v) for v in vs): return
        l = l.decl()(*[z3.simplify(c) if c.sort() == I else c for c in l.children()])
        out.append((l.decl().name(), (vs, l, r, z3.And(guard) if guard else z3.BoolVal(True))))
    for e in flatten([h.inst(*vs)])[0]: go(to_bool(e), [])
    h._rules = out
    return out
class _NoUF:
    def __call__(self, x, y): return z3.eq(x, y)
    def members(self, x): return [x]
_NOUF = _NoUF()
def b_sort(v, g): return v.sort() == g.sort()

class _UF:
    def __init__(self): self.rep, self.cls, self.keep = {}, {}, {}
    def find(self, x):
        i = x.get_id(); self.keep[i] = x
        while i in self.rep: i = self.rep[i]
        return i
    def union(self, x, y):
        a, b = self.find(x), self.find(y)
        if a != b:
            self.rep[a] = b
            self.cls.setdefault(b, []).extend(self.cls.pop(a, [self.keep[a]]))
            if self.keep[b].get_id() not in [z.get_id() for z in self.cls[b]]: self.cls[b].append(self.keep[b])
    def __call__(self, x, y):
        return z3.eq(x, y) or self.find(x) == self.find(y)
    def members(self, x):
        r = self.find(x)
        c = self.cls.get(r, [])
        return c if any(z3.eq(x, z) for z in c) else c + [x]

def patterns(h):
    """(variables, list of patterns); a pattern is a list of applications that together mention every variable"""
    if getattr(h, '_pats', None) is not None: return h._pats
    vs = [z3.Const('pv!%d' % i, so) for i, so in enumerate(h.sorts)]
    try:
        g, a = flatten([h.inst(*vs)])
    except Exception:
        h._pats = (vs, []); return h._pats
    apps, ids = [], set()
    for e in g:
        for x in subterms(to_bool(e)):
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().eq(SUM) and not free_vars(x) and x.get_id() not in ids:
                c = [i for i, v in enumerate(vs) if has_var(x, v)]
                if c and all(simple_arg(y, vs) for y in x.children()): ids.add(x.get_id()); apps.append((z3.simplify(x), set(c)))
    full = [[x] for x, c in apps if len(c) == len(vs)]
    if not full and len(vs) >= 2:
        for (x, c), (y, d) in itertools.combinations(apps, 2):
            if len(c | d) == len(vs): full.append([x, y])
        full = full[:6]
        if not full and len(vs) >= 3:
            for tr in itertools.combinations(apps, 3):
                if len(set().union(*[c for _, c in tr])) == len(vs): full.append([x for x, _ in tr])
            full = full[:3]
    # a definition f(t+1) = .. f(t) ..: trigger on the defined term only
    succ = [p for p in full if len(p) == 1 and any(z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ADD for y in p[0].children())]
    if succ and getattr(h, 'trigger', 'succ') == 'succ': full = succ
    h._pats = (vs, full)
    return h._pats
def simple_arg(y, vs):
    if not any(has_var(y, v) for v in vs): return True
    if any(z3.eq(y, v) for v in vs): return True
    if not z3.is_app(y): return False
    if y.decl().kind() == z3.Z3_OP_ADD: return sum(1 for c in y.children() if not z3.is_int_value(c)) == 1 and all(z3.is_int_value(c) or any(z3.eq(c, v) for v in vs) for c in y.children())
    if y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args(): return all(simple_arg(c, vs) for c in y.children())
    return False

def ematch(alls, ground, goals, rounds=3, limit=1500, fresh_only=None):
    uf = _UF()
    def eqs(es):
        for e in es:
            for x in conjuncts(e):
                if z3.is_eq(x) and x.arg(0).sort() == I and not free_vars(x): uf.union(z3.simplify(x.arg(0)), z3.simplify(x.arg(1)))
    eqs(ground)
    terms_, seen_t = {}, set()
    visited = set()
    def collect(es):
        new = []
        for e in es:
            for x in subterms(e, visited, []):
                if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().eq(SUM) and not free_vars(x):
                    y = x.decl()(*[z3.simplify(c) if c.sort() == I else c for c in x.children()])
                    if y.get_id() not in seen_t:
                        seen_t.add(y.get_id()); terms_.setdefault(y.decl().name(), []).append(y); new.append(y)
        return new
    fresh_t = collect(goals) + collect(ground)
    out, done = [], set()
    for rd in range(rounds):
        newf = []
        fresh_ids = set(x.get_id() for x in fresh_t)
        for h in alls:
            vs, pats = patterns(h)
            for pat in pats:
                for b in match_all(pat, vs, terms_, fresh_ids, uf):
                    k = (id(h),) + tuple(t.get_id() for t in b)
                    if k in done: continue
                    done.add(k)
                    if fresh_only is not None and not any(has_var(t, fresh_only) for t in b): continue
                    f1, _ = flatten([h.inst(*b)])
                    newf += [to_bool(x) for x in f1]
                    h.used = True
                    if len(out) + len(newf) > limit: return out + newf
        if not newf: break
        out += newf
        eqs(newf)
        fresh_t = collect(newf)
        if not fresh_t: break
    return out
def conjuncts(e):
    if z3.is_and(e):
        r = []
        for c in e.children(): r += conjuncts(c)
        return r
    return [e]
def variants(p):
    if p.decl().name() in SYMMETRIC:
        a, b = SYMMETRIC[p.decl().name()]
        c = list(p.children()); c[a], c[b] = c[b], c[a]
        return [p, p.decl()(*c)]
    return [p]
def match_all(pat, vs, terms_, fresh_ids, uf):
    def rec(i, b, anyfresh):
        if i == len(pat):
            if anyfresh and all(x is not None for x in b): yield tuple(b)
            return
        for p in variants(pat[i]):
            for g in list(terms_.get(p.decl().name(), [])):
                fr = g.get_id() in fresh_ids
                if len(pat) == 1 and not fr: continue
                if not p.decl().eq(g.decl()): continue
                bb = b
                for x, y in zip(p.children(), g.children()):
                    bb = _unify(x, y, vs, bb, uf)
                    if bb is None: break
                if bb is not None: yield from rec(i + 1, bb, anyfresh or fr)
    yield from rec(0, [None] * len(vs), False)

def prove_norm(hyps, goal, timeout_ms, depth, deadline, alls=()):
    lin = [h for h in hyps if not traits(h)[0] and not traits(h)[2]]
    nz0 = Normalizer(lin, budget=deadline)
    nz0.use(alls, [h for h in hyps if z3.is_eq(h)][:60])
    for h in hyps: nz0.add_eq(h)
    return _cases(nz0, hyps, lin, goal, [], timeout_ms, deadline, 0)

def _cases(nz, hyps, lin, goal, extra, timeout_ms, deadline, depth):
    """resolve the case distinctions of the goal, then decide each case"""
    if time.time() > deadline: return ('unknown', 'no time left in case analysis', 'z3')
    if extra:
        al, gr, em, rm = nz.alls, nz.ground, nz.eqmap, nz.rmap
        nz = Normalizer(lin + extra, budget=deadline)
        nz.eqmap, nz.rmap = dict(em), dict(rm)
        nz.use(al, gr + [c for c in extra if z3.is_eq(c)])
        if OPT.get('exp'):
            for c in extra:
                for x in subterms(c):
                    if z3.is_eq(x) and x.arg(0).sort() == R and (z3.is_rational_value(x.arg(0)) or z3.is_rational_value(x.arg(1))) and nz.decided(x) is True: nz.add_eq(x)
        if nz.solver.check() == z3.unsat: return 'proved', '', 'z3'
        for a, b in comparisons(extra[-1]):
            if nz.decided(a == b) is True: nz.add_eq(a == b)
    if OPT.get('exp') and not extra:
        inst = [x for x in ematch(nz.alls, nz.ground, [goal], rounds=1, limit=60) if not traits(x)[0] and not traits(x)[2]] if nz.alls else []
        nz.solver.push(); nz.solver.add(inst); nz.decide_cache.clear()
        for x in subterms(goal):
            if z3.is_eq(x) and not free_vars(x) and x.arg(0).sort() == R and (z3.is_rational_value(x.arg(0)) or z3.is_rational_value(x.arg(1))) and not z3.eq(x, goal) and nz.decided(x) is True: nz.add_eq(x)
        nz.solver.pop(); nz.decide_cache.clear()
    g = nz.norm(goal)
    conds = []
    ite_conds(g, conds, set())
    for c in conds:
        if traits(c)[0] or traits(c)[2] or depth >= 10: continue
        if nz.decided(c) is not None: continue
        for alt in (c, z3.Not(c)):
            r = _cases(nz, hyps, lin, g, extra + [alt], timeout_ms, deadline, depth + 1)
            if r[0] != 'proved': return r
        return 'proved', '', 'z3'
    return _leaf(nz, hyps + extra, g, timeout_ms, deadline)

def comparisons(c):
    while z3.is_not(c): c = c.arg(0)
    if z3.is_and(c) or z3.is_or(c): return [p for x in c.children() for p in comparisons(x)]
    if (z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)) and c.arg(0).sort() == I: return [(c.arg(0), c.arg(1))]
    return []

def _leaf(nz, hyps, g2, timeout_ms, deadline):
    if z3.is_true(z3.simplify(g2)): return 'proved', '', 'z3'
    if nz.alls:
        have = set(h.get_id() for h in hyps)
        hyps = hyps + [x for x in ematch(nz.alls, nz.ground, [g2], rounds=1, limit=60) if x.get_id() not in have]
    h2 = []
    for h in hyps:
        t = traits(h)
        h2.append(nz.norm(h) if (t[0] or t[1]) else h)
    forms, smap = abstract_sums(h2 + [g2])
    hs, g3 = forms[:-1], forms[-1]
    ext = []
    # extensionality of same-shaped sums left over
    sums = [(x, v) for x, v in smap if z3.is_quantifier(x.arg(1))]
    if len(sums) <= 12:
        for (x, vx), (y, vy) in itertools.combinations(sums, 2):
            k = fresh('b', I)
            if not x.decl().eq(y.decl()): continue
            fx, fy = z3.substitute_vars(x.arg(1).body(), k), z3.substitute_vars(y.arg(1).body(), k)
            if z3.eq(x.arg(0), y.arg(0)) is False and nz.decided(x.arg(0) == y.arg(0)) is False: continue
            more = ematch(nz.alls, [k >= 0, k < x.arg(0)] + nz.ground, [fx, fy], rounds=2, limit=200, fresh_only=k) if nz.alls else []
            (fx, fy, *more), sm2 = abstract_sums([fx, fy] + more)
            ext += more
            ext.append(z3.Or(x.arg(0) != y.arg(0), z3.And(k >= 0, k < x.arg(0), fx != fy), vx == vy))
    ax = fun_axioms(hs + [g3])
    rel = relevant(hs, g3)
    s = z3.Solver(); s.set('timeout', 1500); s.add(rel); s.add(ax); s.add(z3.Not(g3))
    if s.check() == z3.unsat: return 'proved', '', 'z3'
    if algebra(rel + ax, g3): return 'proved', '', 'z3+poly'
    best = ('unknown', 'solver returned unknown', '')
    for use_ext in ([False, True] if ext else [False]):
        s = z3.Solver(); s.set('timeout', max(200, min(timeout_ms, int(1000 * (deadline - time.time())))))
        s.add(hs); s.add(ax)
        if use_ext: s.add(ext)
        s.add(z3.Not(g3))
        r = s.check()
        if r == z3.unsat: return 'proved', '', 'z3'
        if r == z3.sat:
            m = s.model()
            best = ('failed', 'counter-model: ' + str(m)[:1500], 'z3')
        elif best[0] != 'failed':
            best = ('unknown', 'z3: %s' % s.reason_unknown(), 'z3')
    return best

def relevant(hs, g, rounds=2, cap=150):
    """hypotheses connected to the goal through real-valued ground applications (the others are dropped: sound)"""
    def keys(e):
        r = _kmemo.get(e.get_id())
        if r is not None and z3.eq(r[0], e): return r[1]
        k = set()
        for x in subterms(e):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() != I: k.add(x.get_id())
        if len(_kmemo) > 200000: _kmemo.clear()
        _kmemo[e.get_id()] = (e, k)
        return k
    want = set(keys(g)); out, rest = [], []
    for h in hs:
        (rest if keys(h) else out).append(h)
    for _ in range(rounds):
        add = [h for h in rest if keys(h) & want]
        add.sort(key=lambda h: len(keys(h) - want))
        add = add[:cap]
        ids = set(h.get_id() for h in add)
        out += add; rest = [h for h in rest if h.get_id() not in ids]
        for h in add: want |= keys(h)
    return out
_kmemo = {}

def algebra(hyps, goal):
    """equational back end: orient ground equations  atom == rhs  and check that the difference cancels"""
    try:
        import sympy as sp
    except Exception:
        return False
    if not z3.is_eq(goal) or goal.arg(0).sort() != R: return False
    syms = {}
    def conv(e):
        if z3.is_rational_value(e): return sp.Rational(e.numerator_as_long(), e.denominator_as_long())
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD: return sp.Add(*[conv(c) for c in ch])
        if k == z3.Z3_OP_SUB: return conv(ch[0]) - sp.Add(*[conv(c) for c in ch[1:]])
        if k == z3.Z3_OP_UMINUS: return -conv(ch[0])
        if k == z3.Z3_OP_MUL: return sp.Mul(*[conv(c) for c in ch])
        if k == z3.Z3_OP_DIV: return conv(ch[0]) / conv(ch[1])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]): return conv(ch[0]) ** conv(ch[1])
        key = e.sexpr()
        if key not in syms: syms[key] = sp.Symbol('x%d' % len(syms))
        return syms[key]
    try:
        diff = conv(goal.arg(0)) - conv(goal.arg(1))
        rules = []
        for h in hyps:
            if z3.is_eq(h) and h.arg(0).sort() == R and len(h.sexpr()) < 800:
                a, b = conv(h.arg(0)), conv(h.arg(1))
                if a.is_Symbol and not b.has(a): rules.append((a, b))
                elif b.is_Symbol and not a.has(b): rules.append((b, a))
                else:
                    # linear in an abstracted sum: solve for it
                    for key, sy in list(syms.items()):
                        if key.startswith('sum!') and (a.has(sy) or b.has(sy)):
                            e = sp.expand(a - b); c = e.coeff(sy, 1)
                            if c.is_number and c != 0 and sp.degree(e, sy) == 1:
                                rest = -(e - c * sy) / c
                                if not rest.has(sy): rules.append((sy, rest)); break
        for _ in range(6):
            d2 = diff
            for a, b in rules:
                if d2.has(a): d2 = d2.subs(a, b)
            if d2 == diff: break
            diff = d2
            if len(str(diff)) > 20000: return False
        return sp.cancel(sp.together(diff)) == 0
    except Exception:
        return False
