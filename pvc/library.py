"""Semantics of Python builtins, lists and the NumPy subset, as contracts on external functions (assumed; exact real
arithmetic). Anything not listed raises Unsupported: the obligations of the function are then undischarged."""
import z3, itertools
from fractions import Fraction
from .terms import *
from . import terms
from .values import *

# ------------------------------------------------------------------ scalars
class Cpx:
    def __init__(self, re, im): self.re, self.im = re, im

def is_scalar(x): return is_num(x) or isinstance(x, (bool, Cpx)) or (is_z3(x) and not z3.is_array(x))
def scalar_sort(x):
    if isinstance(x, bool): return B
    if isinstance(x, int): return I
    if is_num(x): return R
    if is_z3(x) and not z3.is_array(x): return x.sort()
    return None
def isint(x): return scalar_sort(x) in (I, B) or (scalar_sort(x) is not None and (scalar_sort(x).eq(I) or scalar_sort(x).eq(B)))
def pynum(x): return isinstance(x, (int, Fraction, float, bool))
def norm_py(x):
    if isinstance(x, float): return frac(x)
    return x

def s_bin(op, a, b):
    a, b = norm_py(a), norm_py(b)
    if isinstance(a, Cpx) or isinstance(b, Cpx): return c_bin(op, a, b)
    if pynum(a) and pynum(b):
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if op == 'Add': return a + b
        if op == 'Sub': return a - b
        if op == 'Mult': return a * b
        if op == 'Div':
            if b == 0: raise PyRaise('ZeroDivisionError')
            return Fraction(a) / Fraction(b)
        if op == 'FloorDiv': return a // b
        if op == 'Mod': return a % b
        if op == 'Pow':
            if isinstance(b, int) or Fraction(b).denominator == 1:
                b = int(b)
                return Fraction(a) ** b if b < 0 else a ** b
            return s_pow(to_real(a), b)
        if op == 'LShift': return a << b
        if op == 'BitXor': return a ^ b
        if op == 'BitAnd': return a & b
        if op == 'BitOr': return a | b
        raise Unsupported('operator %s' % op)
    if isint(a) and isint(b):
        x, y = to_int(a), to_int(b)
        if op == 'Add': return simp(x + y)
        if op == 'Sub': return simp(x - y)
        if op == 'Mult': return simp(x * y)
        if op == 'Div': return to_real(a) / to_real(b)
        if op == 'FloorDiv': return simp(x / y)         # floor for positive divisors (checked by the caller)
        if op == 'Mod': return simp(x % y)
        if op == 'Pow': return s_pow(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and scalar_sort(a).eq(B) and scalar_sort(b).eq(B):
            p, q = to_bool(a), to_bool(b)
            return {'BitAnd': z3.And(p, q), 'BitOr': z3.Or(p, q), 'BitXor': z3.Xor(p, q)}[op]
        raise Unsupported('operator %s on integers' % op)
    x, y = to_real(a), to_real(b)
    if op == 'Add': return x + y
    if op == 'Sub': return x - y
    if op == 'Mult': return x * y
    if op == 'Div': return x / y
    if op == 'Pow': return s_pow(a, b)
    raise Unsupported('operator %s on reals' % op)

POW = z3.Function('POW', R, R, R)
def s_pow(a, b):
    b = concrete(b)
    if is_num(b):
        bb = frac(b)
        if bb.denominator == 1:
            n = int(bb)
            if n == 0: return 1
            if 0 < abs(n) <= 12:
                r = a
                for _ in range(abs(n) - 1): r = s_bin('Mult', r, a)
                return r if n > 0 else s_bin('Div', 1, r)
        if bb == Fraction(1, 2): return SQRT(to_real(a))
        if bb == Fraction(-1, 2): return 1 / SQRT(to_real(a))
    return POW(to_real(a), to_real(b))

def c_parts(a):
    return (a.re, a.im) if isinstance(a, Cpx) else (a, 0)
def c_bin(op, a, b):
    (ar, ai), (br, bi) = c_parts(a), c_parts(b)
    if op == 'Add': return Cpx(s_bin('Add', ar, br), s_bin('Add', ai, bi))
    if op == 'Sub': return Cpx(s_bin('Sub', ar, br), s_bin('Sub', ai, bi))
    if op == 'Mult':
        return Cpx(s_bin('Sub', s_bin('Mult', ar, br), s_bin('Mult', ai, bi)), s_bin('Add', s_bin('Mult', ar, bi), s_bin('Mult', ai, br)))
    if op == 'Div' and not isinstance(b, Cpx): return Cpx(s_bin('Div', ar, b), s_bin('Div', ai, b))
    raise Unsupported('complex %s' % op)

def scalar_add(a, b): return s_bin('Add', a, b)
def cmp_eq(a, b):
    if isinstance(a, Cpx) or isinstance(b, Cpx):
        (ar, ai), (br, bi) = c_parts(a), c_parts(b)
        return z3.And(cmp_eq(ar, br), cmp_eq(ai, bi))
    sa, sb = scalar_sort(a), scalar_sort(b)
    if sa is None or sb is None: raise Unsupported('equality of %r and %r' % (a, b))
    if sa.eq(B) and sb.eq(B): return to_bool(a) == to_bool(b)
    if isint(a) and isint(b): return to_int(a) == to_int(b)
    if sa.eq(sb): return a == b
    return to_real(a) == to_real(b)
def s_cmp(op, a, b):
    a, b = norm_py(a), norm_py(b)
    if op == 'Eq': return simp(cmp_eq(a, b)) if not (pynum(a) and pynum(b)) else a == b
    if op == 'NotEq': return simp(z3.Not(cmp_eq(a, b))) if not (pynum(a) and pynum(b)) else a != b
    if pynum(a) and pynum(b): return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    x, y = (to_int(a), to_int(b)) if isint(a) and isint(b) else (to_real(a), to_real(b))
    return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
def s_abs(x):
    if pynum(x): return abs(x)
    x = to_int(x) if isint(x) else to_real(x)
    return z3.If(x >= 0, x, -x)
def s_min(a, b):
    if pynum(a) and pynum(b): return min(a, b)
    c = s_cmp('LtE', a, b)
    return s_if(c, a, b)
def s_max(a, b):
    if pynum(a) and pynum(b): return max(a, b)
    return s_if(s_cmp('GtE', a, b), a, b)
def s_if(c, a, b):
    c = concrete(c)
    if c is True: return a
    if c is False: return b
    if isinstance(a, Cpx) or isinstance(b, Cpx):
        (ar, ai), (br, bi) = c_parts(a), c_parts(b)
        return Cpx(s_if(c, ar, br), s_if(c, ai, bi))
    sa, sb = scalar_sort(a), scalar_sort(b)
    if sa.eq(B) and sb.eq(B): return z3.If(c, to_bool(a), to_bool(b))
    if isint(a) and isint(b): return z3.If(c, to_int(a), to_int(b))
    if sa.eq(sb): return z3.If(c, a, b)
    return z3.If(c, to_real(a), to_real(b))
def s_not(a): return (not a) if isinstance(a, bool) else z3.Not(to_bool(a))

def coerce(x, so):
    if so is None: return x
    if so.eq(R):
        return x if isinstance(x, Cpx) else to_real(x)
    if so.eq(I):
        if is_z3(x) and x.sort().eq(R): return trunc_int(x)
        return to_int(x)
    if so.eq(B): return to_bool(x)
    return x
TRUNC = z3.Function('TRUNC', R, I)
def trunc_int(x):
    x = simp(x)
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x.arg(0)
    v = concrete(x)
    if is_num(v): return z3.IntVal(int(v))
    return TRUNC(x)

def join_sort(*ss):
    out = B
    for s in ss:
        if s is None: return None
        if s.eq(R): out = R
        elif s.eq(I) and not out.eq(R): out = I
        elif not s.eq(B) and not s.eq(I): return s
    return out

# ------------------------------------------------------------------ conversion, broadcasting
def new(ctx, axes, sort, fn):
    a = Arr(axes, sort, (lambda *i: coerce(fn(*i), sort)))
    a.stamp0 = ctx.next_stamp()
    return a

def to_arr(ctx, x):
    if isinstance(x, Arr): return x
    if isinstance(x, (tuple,)): x = Lst(list(x))
    if isinstance(x, SRange):
        n, at = iterate(ctx, x)
        return new(ctx, [n], I, lambda i: at(i))
    if isinstance(x, Iter):
        x = Lst(None, x.n, x.at, None)
        probe = x.f(fresh('p', I)); so = scalar_sort(probe)
        return new(ctx, [x.n], so, x.f)
    if isinstance(x, Lst):
        if x.concrete:
            items = list(x.items)
            if not items: return new(ctx, [0], R, lambda i: z3.RealVal(0))
            if all(is_scalar(v) for v in items):
                so = join_sort(*[scalar_sort(v) if not isinstance(v, Cpx) else R for v in items])
                return new(ctx, [len(items)], so, lambda i: select_items(items, i, so))
            subs = [to_arr(ctx, v) for v in items]
            so = join_sort(*[s.sort for s in subs]); snaps = [s.snap() for s in subs]
            return new(ctx, [Axis(len(items))] + subs[0].axes, so, lambda i, *r: select_items([f(*r) for f in snaps], i, so))
        f = x.f
        return new(ctx, [x.n], x.sort, lambda i: f(i))
    if is_scalar(x):
        return new(ctx, [], scalar_sort(x), lambda: x)
    raise Unsupported('array from %r' % (x,))

def select_items(items, i, so=None):
    v = concrete(i)
    if isinstance(v, int): return items[v] if 0 <= v < len(items) else items[0]
    r = coerce(items[-1], so)
    for k in range(len(items) - 2, -1, -1): r = s_if(i == k, coerce(items[k], so), r)
    return r

def dim_eq(ctx, a, b):
    a, b = concrete(a), concrete(b)
    if isinstance(a, int) and isinstance(b, int): return a == b
    e = ctx.entailed(to_int(a) == to_int(b))
    return e
def same_mask(ctx, m1, m2):
    if m1 is m2: return True
    if m1 is None or m2 is None: return False
    i = fresh('m', I)
    a, b = simp(m1(i)), simp(m2(i))
    if z3.eq(a, b): return True
    return ctx.prove(All(lambda j: m1(j) == m2(j), 1), 1500)

def check_dim(ctx, a, b, what='shapes agree'):
    if dim_eq(ctx, a, b) is not True: ctx.check(what, to_int(a) == to_int(b), kind='shape')

def join_axis(ctx, axs):
    cand = [a for a in axs if not (a.mask is None and concrete(a.n) == 1)]
    if not cand: return Axis(1)
    a0 = cand[0]
    for a in cand[1:]:
        if a is a0: continue
        if (a.mask is None) != (a0.mask is None) or (a.mask is not None and not same_mask(ctx, a.mask, a0.mask)):
            raise Unsupported('operation on differently masked arrays')
        check_dim(ctx, a.n, a0.n)
    return a0

def broadcast(ctx, ops):
    """operands -> axes, closures taking the full index"""
    arrs = [to_arr(ctx, o) if not is_scalar(o) else o for o in ops]
    nd = max([a.ndim for a in arrs if isinstance(a, Arr)] or [0])
    axes = []
    for k in range(nd):
        axs = []
        for a in arrs:
            if isinstance(a, Arr):
                p = k - (nd - a.ndim)
                if p >= 0: axs.append(a.axes[p])
        axes.append(join_axis(ctx, axs))
    fns = []
    for a in arrs:
        if not isinstance(a, Arr): fns.append(lambda *i, a=a: a); continue
        s = a.snap(); off = nd - a.ndim
        ones = [concrete(x.n) == 1 and x.mask is None and not (concrete(axes[off + q].n) == 1 and axes[off + q].mask is None) for q, x in enumerate(a.axes)]
        fns.append(lambda *i, s=s, off=off, ones=ones: s(*[z3.IntVal(0) if o else x for o, x in zip(ones, i[off:])]))
    sorts = [a.sort if isinstance(a, Arr) else scalar_sort(a) if not isinstance(a, Cpx) else R for a in arrs]
    return axes, fns, sorts

def emap(ctx, f, sort, *ops):
    if all(is_scalar(o) for o in ops): return f(*ops)
    axes, fns, sorts = broadcast(ctx, ops)
    if not axes: return f(*[g() for g in fns])
    so = sort(*sorts) if callable(sort) else sort
    return new(ctx, axes, so, lambda *i: f(*[g(*i) for g in fns]))

def forall_dom(ctx, axes, body):
    """goal: body(idx) for all positions of the axes"""
    def fn(*idx):
        return z3.Implies(z3.And([a.dom(i) for a, i in zip(axes, idx)]), to_bool(body(*idx)))
    return All(fn, len(axes))

def check_nonzero(ctx, d):
    if isinstance(d, Cpx): return
    if is_scalar(d):
        v = concrete(d)
        if pynum(v):
            if v == 0: raise PyRaise('ZeroDivisionError')
            return
        g = d != 0
        if ctx.entailed(g) is True: return
        ctx.check('denominator is nonzero', g, kind='definedness')
    elif isinstance(d, Arr):
        s = d.snap()
        ctx.check('denominators are nonzero', forall_dom(ctx, d.axes, lambda *i: coerce(s(*i), d.sort) != 0), kind='definedness')
def check_nonneg(ctx, d):
    if isinstance(d, Cpx): return
    if is_scalar(d):
        if pynum(concrete(d)): return
        g = d >= 0
        if ctx.entailed(g) is True: return
        ctx.check('square root of a nonnegative number', g, kind='definedness')
    elif isinstance(d, Arr):
        s = d.snap()
        ctx.check('square root of nonnegative numbers', forall_dom(ctx, d.axes, lambda *i: s(*i) >= 0), kind='definedness')

def binary(ctx, op, a, b):
    for x, y, r in ((a, b, False), (b, a, True)):
        if hasattr(x, 'v_binop'):
            v = x.v_binop(ctx, op, y, r)
            if v is not NotImplemented: return v
    if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
        if op == 'Add' and isinstance(a, str) and isinstance(b, str): return a + b
        return StrV()
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('operator %s on unknown value %s' % (op, a.what if isinstance(a, Opaque) else b.what))
    if isinstance(a, (dict, frozenset)) and isinstance(b, (dict, frozenset)):
        if op == 'BitAnd': return a & b
        if op == 'BitOr': return a | b
        if op == 'Sub': return a - b
    seq = (Lst, tuple)
    if isinstance(a, seq) and isinstance(b, seq) and op == 'Add':
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        return concat(ctx, a, b)
    if isinstance(a, Lst) and op == 'Mult' or isinstance(b, Lst) and op == 'Mult' and not isinstance(a, Arr):
        l, n = (a, b) if isinstance(a, Lst) else (b, a)
        if not isinstance(n, Arr):
            nn = concrete(n)
            if l.concrete and isinstance(nn, int): return ctx.stamped(Lst(l.items * nn))
            if l.concrete and len(l.items) == 1 and is_scalar(l.items[0]):
                v = l.items[0]
                return ctx.stamped(Lst(None, to_int(n), lambda i: coerce(v, scalar_sort(v)), scalar_sort(v)))
            raise Unsupported('list repetition')
    if a is None or b is None: raise PyRaise('TypeError', 'operand None')
    if op == 'MatMult': return dot(ctx, a, b)
    if op in ('Div',):
        check_nonzero(ctx, b)
    if op in ('FloorDiv', 'Mod'):
        if is_scalar(b):
            if not pynum(concrete(b)): ctx.check('divisor is positive', to_int(b) > 0, kind='definedness')
            elif concrete(b) <= 0: raise Unsupported('nonpositive divisor')
    if op == 'Pow':
        bb = concrete(b) if is_scalar(b) else None
        if is_num(bb) and frac(bb) < 0: check_nonzero(ctx, a)
        if is_num(bb) and abs(frac(bb)) == Fraction(1, 2): check_nonneg(ctx, a)
    so = (lambda *s: R) if op == 'Div' else (lambda *s: join_sort(*s) if not (op in ('Add', 'Sub', 'Mult', 'Pow') and all(x.eq(B) for x in s)) else I)
    return emap(ctx, lambda x, y: s_bin(op, x, y), so, a, b)

def unary(ctx, op, v):
    if op == 'UAdd': return v
    if op == 'USub':
        if hasattr(v, 'v_binop'): return v.v_binop(ctx, 'Mult', -1, False)
        return emap(ctx, lambda x: s_bin('Sub', 0, x) if not isinstance(x, Cpx) else Cpx(s_bin('Sub', 0, x.re), s_bin('Sub', 0, x.im)), lambda s: s if not s.eq(B) else I, v)
    if op == 'Invert':
        if isinstance(v, Arr) and v.sort.eq(B) or scalar_sort(v) is not None and scalar_sort(v).eq(B) and not isinstance(v, bool):
            return emap(ctx, s_not, B, v)
    raise Unsupported('unary %s' % op)

def compare(ctx, op, a, b):
    for x, y, r in ((a, b, False), (b, a, True)):
        if hasattr(x, 'v_compare'):
            v = x.v_compare(ctx, op, y, r)
            if v is not NotImplemented: return v
    if op in ('Is', 'IsNot'):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            r = a is b
        elif isinstance(a, Ext) and isinstance(b, Ext): r = a.name == b.name
        else: r = a is b
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        r = contains(ctx, b, a)
        return r if op == 'In' else s_not(r)
    if isinstance(a, (str, StrV, type(None))) or isinstance(b, (str, StrV, type(None))):
        if isinstance(a, StrV) or isinstance(b, StrV): raise Unsupported('comparison of unknown strings')
        if op == 'Eq': return a == b if type(a) == type(b) else False
        if op == 'NotEq': return a != b if type(a) == type(b) else True
        raise PyRaise('TypeError')
    if isinstance(a, (frozenset, dict)) or isinstance(b, (frozenset, dict)):
        return {'Eq': a == b, 'NotEq': a != b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return op == 'NotEq'
        r = True
        for x, y in zip(a, b):
            c = compare(ctx, 'Eq', x, y)
            r = c if r is True else (False if c is False or r is False else z3.And(to_bool(r), to_bool(c)))
            if r is False: break
        return r if op == 'Eq' else s_not(r)
    if isinstance(a, Lst) and isinstance(b, Lst) and a.concrete and b.concrete:
        return compare(ctx, op, tuple(a.items), tuple(b.items))
    return emap(ctx, lambda x, y: s_cmp(op, x, y), B, a, b)

def contains(ctx, c, x):
    if hasattr(c, 'v_contains'): return c.v_contains(ctx, x)
    if isinstance(c, (dict, frozenset)): return x in c
    if isinstance(c, str): return x in c
    if isinstance(c, Lst) and getattr(c, 'gset', None) is not None: return z3.Select(c.gset, to_int(x))
    if isinstance(c, Lst): c = tuple(c.items) if c.concrete else c
    if isinstance(c, tuple):
        r = False
        for y in c:
            e = compare(ctx, 'Eq', x, y)
            if e is True: return True
            if e is not False: r = e if r is False else z3.Or(r, e)
        return r
    if isinstance(c, (Lst, Arr)):
        f, n = elem_snap(ctx, c), lens(c)[0]
        b = fresh('in', B); w = fresh('w', I)
        ctx.assume(All(lambda i: z3.Implies(z3.And(i >= 0, i < to_int(n), cmp_eq(f(i), x)), b)))
        ctx.assume(z3.Implies(b, z3.And(w >= 0, w < to_int(n), cmp_eq(f(w), x))))
        return b
    if isinstance(c, SRange):
        if concrete(c.step) == 1: return z3.And(to_int(x) >= to_int(c.lo), to_int(x) < to_int(c.hi))
    raise Unsupported('membership in %r' % (c,))

def truthy(ctx, v):
    if hasattr(v, 'v_truth'): return v.v_truth(ctx)
    if v is None: return False
    if isinstance(v, bool): return v
    if is_num(v): return v != 0
    if is_z3(v): return to_bool(v)
    if isinstance(v, str): return bool(v)
    if isinstance(v, (tuple, dict, frozenset)): return bool(v)
    if isinstance(v, Lst): return bool(v.items) if v.concrete else to_int(v.n) > 0
    if isinstance(v, Arr):
        if v.ndim == 0: return to_bool(v.get())
        if all(concrete(a.n) == 1 for a in v.axes): return to_bool(v.get(*[z3.IntVal(0)] * v.ndim))
        raise Unsupported('truth value of an array')
    if isinstance(v, (Obj, FuncVal, Ext, Rng, PyFn, BoundExt, ClassVal)): return True
    raise Unsupported('truth value of %r' % (v,))

# ------------------------------------------------------------------ iteration
def iterate(ctx, v):
    """(length, at(i))"""
    if hasattr(v, 'v_iter'): return v.v_iter(ctx)
    if isinstance(v, SRange):
        lo, hi, st = v.lo, v.hi, concrete(v.step)
        if not isinstance(st, int) or st == 0: raise Unsupported('symbolic step')
        lo_, hi_ = concrete(lo), concrete(hi)
        if isinstance(lo_, int) and isinstance(hi_, int):
            r = range(lo_, hi_, st)
            return len(r), (lambda i: r[concrete(i)] if isinstance(concrete(i), int) else to_int(lo_) + st * to_int(i))
        d = to_int(hi) - to_int(lo) if st > 0 else to_int(lo) - to_int(hi)
        k = abs(st)
        n = d if k == 1 else (d + (k - 1)) / k
        n = simp(n)
        if ctx.entailed(n >= 0) is not True: n = z3.If(n >= 0, n, 0)
        return n, (lambda i: simp(to_int(lo) + st * to_int(i)))
    if isinstance(v, Iter): return v.n, v.at
    if isinstance(v, tuple): return len(v), (lambda i, v=v: v[concrete(i)] if isinstance(concrete(i), int) else select_items(list(v), i))
    if isinstance(v, str): return len(v), (lambda i: v[concrete(i)])
    if isinstance(v, dict): 
        ks = list(v); return len(ks), (lambda i: ks[concrete(i)])
    if isinstance(v, frozenset):
        ks = sorted(v, key=str); return len(ks), (lambda i: ks[concrete(i)])
    if isinstance(v, Lst):
        if v.concrete:
            items = v.items
            return len(items), (lambda i: items[concrete(i)] if isinstance(concrete(i), int) else select_items(items, i))
        return v.n, (lambda i: v.f(to_int(i)))
    if isinstance(v, Arr):
        if v.axes[0].mask is not None: raise Unsupported('iteration over a masked array')
        if v.ndim == 1: return v.axes[0].n, (lambda i: v.get(i))
        return v.axes[0].n, (lambda i: getitem(ctx, v, i))
    raise Unsupported('iteration over %r' % (v,))

def named(entries):
    k = 0
    for e in entries:
        if isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str): yield e
        elif isinstance(e, Def): yield ('definition of %s%s' % (e.role, (' (' + e.what + ')') if e.what else ''), e)
        else:
            k += 1
            nm = e.name if isinstance(e, All) and e.name else 'invariant %d' % k
            yield nm, e

def target_names(t):
    import ast
    if t is None: return []
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]

from .engine import Def

# ------------------------------------------------------------------ havoc
def nd(o): return 1 if isinstance(o, Lst) else o.ndim
def lens(o): return [o.length()] if isinstance(o, Lst) else [a.n for a in o.axes]
def elem_snap(ctx, o):
    if isinstance(o, Lst):
        if o.concrete:
            items = list(o.items)
            so = o.sort if o.sort is not None else (join_sort(*[scalar_sort(x) for x in items]) if items and all(is_scalar(x) for x in items) else None)
            if not items: return lambda i: z3.FreshConst(I if o.sort is None else o.sort, 'none')
            return lambda i: select_items(items, i, so)
        f = o.f
        return f
    return o.snap()

def is_cpx(o):
    """does the array hold complex numbers (pairs of terms)?"""
    if getattr(o, 'cpx', False): return True
    try: v = o.get(*[fresh('p', I) for _ in range(o.ndim)])
    except Exception: return False
    return isinstance(v, Cpx)
def cpx_fn(name, nd):
    re, im = [fresh_fn(name + x, *([I] * nd + [R])) if nd else None for x in ('_re', '_im')]
    if not nd:
        c = Cpx(fresh(name, R), fresh(name, R)); return lambda: c
    return lambda *i: Cpx(re(*i), im(*i))

def havoc(ctx, o, so=None):
    if isinstance(o, Arr):
        r = o.root()
        if is_cpx(r):
            r.fn = cpx_fn('h', r.ndim); r.cpx = True; return
        f = fresh_fn('h', *([I] * r.ndim + [r.sort])) if r.ndim else None
        c = fresh('h', r.sort) if not r.ndim else None
        r.fn = (lambda *i: f(*i)) if r.ndim else (lambda: c)
    elif isinstance(o, Lst):
        if o.concrete and so is None:
            so = o.sort if o.sort is not None else (scalar_sort(o.items[0]) if o.items and is_scalar(o.items[0]) else I)
        if so is None: so = o.sort
        n = fresh('len', I); ctx.assume(n >= 0)
        f = fresh_fn('l', I, so)
        o.items, o.n, o.f, o.sort = None, n, (lambda i: f(to_int(i))), so
        if getattr(o, 'gset', None) is not None:
            o.gset = fresh('set', z3.ArraySort(I, B)); gset_facts(ctx, o)

def gset_facts(ctx, o):
    """ghost set of a list: exactly its contents"""
    f, n, s = o.f, to_int(o.n), o.gset
    ctx.assume(All(lambda a: z3.Implies(z3.And(a >= 0, a < n), z3.Select(s, f(a))), name='ghost set'))
def distinct_goal(f, n):
    n = to_int(n)
    return All(lambda a, b: z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n, f(a) == f(b)), a == b), 2)

def define(ctx, o, cond, value):
    """contents := value where cond holds, unchanged (arbitrary) elsewhere"""
    if isinstance(o, Arr):
        r = o.root()
        if r is not o: raise Unsupported('definition on a view')
        old = r.fn
        def fn(*i):
            v = coerce(value(*i), r.sort)
            if cond is None: return v
            return s_if(cond(*i), v, old(*i))
        r.fn = fn
    else:
        old = o.f
        def fn(i):
            v = coerce(value(i), o.sort)
            if cond is None: return v
            return s_if(cond(i), v, old(i))
        o.f = fn

def havoc_value(ctx, old, name, so=None):
    if old is UNDEF: return UNDEF
    s = so if so is not None else scalar_sort(old)
    if s is not None: return fresh(name, s)
    if isinstance(old, Arr):
        if any(a.mask is not None for a in old.axes): return UNDEF
        if is_cpx(old): return new(ctx, [a.n for a in old.axes], old.sort, cpx_fn(name, old.ndim))
        f = fresh_fn(name, *([I] * old.ndim + [old.sort]))
        return new(ctx, [a.n for a in old.axes], old.sort, lambda *i: f(*i))
    if isinstance(old, Lst):
        l = Lst(list(old.items) if old.concrete else None, old.n, old.f, old.sort)
        if getattr(old, 'gset', None) is not None: l.gset = old.gset
        try: havoc(ctx, l, so)
        except Exception: return UNDEF
        return ctx.stamped(l)
    if hasattr(old, 'v_havoc'): return old.v_havoc(ctx)
    return UNDEF

def path_of(ctx, obj, ls):
    r = obj.root() if isinstance(obj, Arr) else obj
    same = lambda v: v is obj or v is r or isinstance(v, Arr) and v.root() is r
    for d, f in enumerate(ctx.frames):
        for nm, v in f.locals.items():
            if same(v): return (d, nm)
            if isinstance(v, Obj):
                for an, av in v.attrs.items():
                    if same(av): return (d, nm, an)
    return None
def find_path(ctx, p):
    if p[0] >= len(ctx.frames): return None
    v = ctx.frames[p[0]].locals.get(p[1])
    if len(p) == 3 and isinstance(v, Obj): v = v.attrs.get(p[2])
    if isinstance(v, Arr): v = v.root()
    return v
def havoc_attr(ctx, p, so): raise Unsupported('havoc of %r' % (p,))

# ------------------------------------------------------------------ indexing
def norm_index(ctx, i, n, what='index'):
    iv, nv = concrete(i), concrete(n)
    if isinstance(i, bool): i = iv = int(i)
    if isinstance(iv, int):
        if iv < 0:
            r = simp(to_int(n) + iv)
        else: r = iv
        if isinstance(nv, int):
            if not (-nv <= iv < nv): raise PyRaise('IndexError')
            return iv if iv >= 0 else iv + nv
        ctx_index_check(ctx, r, n, what)
        return r
    i = to_int(i)
    e = ctx.entailed(i >= 0)
    if e is None:
        if ctx.prove(i >= 0, 800): e = True
        elif ctx.prove(i < 0, 800): e = False
    if e is None: e = ctx.branch(i >= 0)
    r = i if e else simp(to_int(n) + i)
    ctx_index_check(ctx, r, n, what)
    return r
def ctx_index_check(ctx, r, n, what):
    g = z3.And(to_int(r) >= 0, to_int(r) < to_int(n))
    if ctx.entailed(g) is True: return
    ctx.check('%s in bounds' % what, g, kind='bounds')
    if not getattr(ctx, 'no_assume_bounds', False): ctx.assume(g)

def slice_bounds(ctx, s, n):
    """lo, length, step"""
    st = concrete(s.step) if s.step is not None else 1
    if not isinstance(st, int) or st == 0: raise Unsupported('slice step')
    def clip(x, default):
        if x is None: return default
        if isinstance(x, bool): x = int(x)
        v, nv = concrete(x), concrete(n)
        if isinstance(v, int) and isinstance(nv, int):
            return max(0, min(nv, v if v >= 0 else nv + v))
        x = to_int(x)
        neg = ctx.entailed(x < 0)
        if neg is None: neg = ctx.branch(x < 0)
        if neg: x = simp(to_int(n) + x)
        e = ctx.entailed(z3.And(x >= 0, x <= to_int(n)))
        if e is True: return v if isinstance(v, int) and not neg else x
        lo = ctx.entailed(x >= 0) is True
        hi = ctx.entailed(x <= to_int(n)) is True
        r = x
        if not hi:
            if ctx.prove(x <= to_int(n), 600): pass
            else: r = z3.If(r > to_int(n), to_int(n), r)
        if not lo: r = z3.If(r < 0, z3.IntVal(0), r)
        return r
    if st == 1 or st > 1:
        lo, hi = clip(s.start, 0), clip(s.stop, n)
        l, h = concrete(lo), concrete(hi)
        if isinstance(l, int) and isinstance(h, int):
            return l, max(0, -(-(h - l) // st)), st
        d = simp(to_int(hi) - to_int(lo))
        if st > 1: d = simp((d + (st - 1)) / st)
        if True:
            if ctx.entailed(d >= 0) is not True: d = z3.If(d >= 0, d, 0)
        return lo, d, st
    if st == -1:
        if s.start is None and s.stop is None: return simp(to_int(n) - 1), n, -1
        lo = to_int(n) - 1 if s.start is None else norm_index(ctx, s.start, n)
        if s.stop is None: return lo, simp(to_int(lo) + 1), -1
        hi = norm_index(ctx, s.stop, n)
        d = simp(to_int(lo) - to_int(hi))
        if ctx.entailed(d >= 0) is not True: d = z3.If(d >= 0, d, 0)
        return lo, d, -1
    raise Unsupported('slice step %r' % st)

class RelArr(Arr):
    """the ordinals, within the masked axis `relative`, of its positions with a second mask"""
    def __init__(self, relative, both):
        def no(*i): raise Unsupported('ordinals of a selection')
        Arr.__init__(self, [Axis(relative.n, both)], I, no)
        self.relative = relative
    def positions(self):
        r = Arr(self.axes, I, lambda i: i); r.identity = True
        return r
def is_adv(k):
    return isinstance(k, (Arr, Lst)) or isinstance(k, (Iter, SRange))

def parse_key(ctx, a, key):
    """per-axis selectors"""
    if isinstance(key, Ix): 
        ks = [('adv', p) for p in key.parts]
        while len(ks) < a.ndim: ks.append(('sl', 0, a.axes[len(ks)].n, 1))
        return ks, True
    if not isinstance(key, tuple): key = (key,)
    n_used = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + (slice(None),) * (a.ndim - n_used) + key[p + 1:]
    out = []; ax = 0
    for k in key:
        if k is None: out.append(('new',)); continue
        if ax >= a.ndim: raise PyRaise('IndexError', 'too many indices')
        A = a.axes[ax]
        if isinstance(k, slice):
            if A.mask is not None:
                if k.start is None and k.stop is None and k.step is None: out.append(('full', A))
                else: raise Unsupported('slice of a masked axis')
            else:
                lo, d, st = slice_bounds(ctx, k, A.n)
                out.append(('sl', lo, d, st))
        elif is_adv(k):
            kk = to_arr(ctx, k)
            if kk.sort is not None and kk.sort.eq(B):
                if kk.ndim != 1: 
                    if kk.ndim == a.ndim == 2 and len(key) == 1: raise Unsupported('2D boolean mask')
                    raise Unsupported('boolean mask of dimension %d' % kk.ndim)
                M = A.mask
                if (M is None) != (kk.axes[0].mask is None) or M is not None and not same_mask(ctx, M, kk.axes[0].mask): raise Unsupported('boolean mask on a masked axis')
                check_dim(ctx, kk.axes[0].n, A.n, 'boolean index has the length of the axis')
                s = kk.snap()
                m = Arr([Axis(A.n, (lambda i, s=s: to_bool(s(i))) if M is None else (lambda i, s=s, M=M: z3.And(M(i), to_bool(s(i)))))], I, lambda i: i)
                m.identity = True
                out.append(('adv', m))
            else:
                if A.mask is not None:
                    if not (isinstance(kk, RelArr) and same_mask(ctx, kk.relative.mask, A.mask) and dim_eq(ctx, kk.relative.n, A.n)): raise Unsupported('integer array index on a masked axis')
                    kk = kk.positions()
                elif isinstance(kk, RelArr): raise Unsupported('ordinals of a selection used as positions')
                out.append(('adv', kk))
        else:
            if not is_scalar(k):
                if isinstance(k, Arr) and k.ndim == 0: k = k.get()
                else: raise Unsupported('index %r' % (k,))
            if A.mask is not None:
                v = concrete(k)
                if v == 0: out.append(('int', first_of(ctx, A)))
                elif v == -1: out.append(('int', last_of(ctx, A)))
                else: raise Unsupported('position in a masked axis')
            else:
                out.append(('int', norm_index(ctx, k, A.n)))
        ax += 1
    while ax < a.ndim:
        A = a.axes[ax]
        out.append(('full', A)); ax += 1
    return out, False

def first_of(ctx, A):
    i = fresh('first', I)
    nonempty_check(ctx, A)
    ctx.assume(A.dom(i))
    ctx.assume(All(lambda j: z3.Implies(A.dom(j), j >= i)))
    return i
def last_of(ctx, A):
    i = fresh('last', I)
    nonempty_check(ctx, A)
    ctx.assume(A.dom(i))
    ctx.assume(All(lambda j: z3.Implies(A.dom(j), j <= i)))
    return i
def nonempty_check(ctx, A):
    w = ctx.contract.witness(ctx, A) if hasattr(ctx.contract, 'witness') else None
    if w is not None:
        ctx.check('selection is not empty', A.dom(w), kind='bounds')
    else:
        # refutation form: all positions excluded is contradictory
        k = fresh('none', B)
        ob_h = All(lambda j: z3.Not(A.dom(j)))
        saved = list(ctx.hyps)
        ctx.hyps.append(ob_h)
        ctx.check('selection is not empty', z3.BoolVal(False), kind='bounds')
        ctx.hyps = saved

class DiagIdx:
    """numpy.diag_indices(n)"""
    ro = True
    def __init__(self, n): self.n = n
    def axis(self, ctx, o):
        if not isinstance(o, Arr) or o.ndim != 2: raise Unsupported('diagonal of an array of another dimension')
        A, C = o.axes
        for X in (A, C): check_dim(ctx, axis_len(ctx, X), self.n, 'diagonal indices span the matrix')
        if (A.mask is None) != (C.mask is None) or A.mask is not None and not same_mask(ctx, A.mask, C.mask): raise Unsupported('diagonal of a rectangular selection')
        return A
    def v_getitem(self, ctx, k): return ctx_arange(ctx, self.n)
    def v_len(self, ctx): return 2
def ctx_arange(ctx, n): return EXT['numpy.arange'](ctx, [n], {})

def getitem(ctx, o, k):
    if isinstance(k, DiagIdx):
        A = k.axis(ctx, o); f = o.snap()
        return new(ctx, [A], o.sort, lambda i: f(i, i))
    if hasattr(o, 'v_getitem'): return o.v_getitem(ctx, k)
    if isinstance(o, (tuple, str)):
        if isinstance(k, slice):
            return o[slice(*[concrete(x) for x in (k.start, k.stop, k.step)])]
        kk = concrete(k)
        if isinstance(kk, int):
            try: return o[kk]
            except IndexError: raise PyRaise('IndexError')
        if isinstance(o, tuple):
            i = norm_index(ctx, k, len(o))
            return select_items(list(o), i)
        raise Unsupported('tuple index')
    if isinstance(o, dict):
        if k in o: return o[k]
        raise PyRaise('KeyError', str(k))
    if isinstance(o, Lst):
        if isinstance(k, slice):
            return list_slice(ctx, o, k)
        if o.concrete:
            kk = concrete(k)
            if isinstance(kk, int):
                try: return o.items[kk]
                except IndexError: raise PyRaise('IndexError')
            i = norm_index(ctx, k, len(o.items))
            return select_items(o.items, i)
        i = norm_index(ctx, k, o.n, 'list index')
        if getattr(o, 'gset', None) is not None: ctx.assume(z3.Select(o.gset, o.f(to_int(i))))
        return o.f(to_int(i))
    if isinstance(o, Iter):
        return o.at(norm_index(ctx, k, o.n))
    if isinstance(o, SRange):
        n, at = iterate(ctx, o)
        if isinstance(k, slice): raise Unsupported('slice of range')
        return at(norm_index(ctx, k, n))
    if isinstance(o, Arr): return index_arr(ctx, o, k)
    if isinstance(o, Obj) and isinstance(o.cls, NTClass): return o.attrs[o.cls.fields[concrete(k)]]
    raise Unsupported('indexing of %r' % (o,))

def list_slice(ctx, o, k):
    if o.concrete:
        cs = [concrete(x) for x in (k.start, k.stop, k.step)]
        if all(c is None or isinstance(c, int) for c in cs):
            return ctx.stamped(Lst(o.items[slice(*cs)], sort=o.sort))
        so = join_sort(*[scalar_sort(x) for x in o.items])
        lo, d, st = slice_bounds(ctx, k, len(o.items)); items = list(o.items)
        return ctx.stamped(Lst(None, d, lambda i: select_items(items, simp(to_int(lo) + st * i), so), so))
    lo, d, st = slice_bounds(ctx, k, o.n); f = o.f
    l = Lst(None, to_int(d), lambda i: f(simp(to_int(lo) + st * to_int(i))), o.sort)
    return ctx.stamped(l)

def index_arr(ctx, a, key):
    sel, is_ix = parse_key(ctx, a, key)
    advs = [s for s in sel if s[0] == 'adv']
    if advs and not is_ix and any(s[1].ndim > 1 for s in advs): return index_nd(ctx, a, sel, advs)
    if not advs: return basic_view(ctx, a, sel)
    snap = a.snap()
    if is_ix:
        if any(A.mask is not None for A in a.axes): raise Unsupported('np.ix_ on a masked axis')
        arrs = [s[1] for s in sel if s[0] == 'adv']
        parts = [to_arr(ctx, p) if not isinstance(p, Arr) else p for p in arrs]
        parts = [as_index(ctx, p, a.axes[i]) for i, p in enumerate(parts)]
        fs = [p.snap() for p in parts]
        for p, A in zip(parts, a.axes): check_idx(ctx, p, A)
        axes = [p.axes[0] for p in parts]
        r = new(ctx, axes + a.axes[len(parts):], a.sort, lambda *i: snap(*([f(x) for f, x in zip(fs, i)] + list(i[len(fs):]))))
        r.minor = (a, key.parts)
        return r
    # paired advanced indices share one axis
    joint = join_axis(ctx, [s[1].axes[0] for s in advs])
    pos = [i for i, s in enumerate(sel) if s[0] == 'adv']
    # numpy: scalars take part in the broadcasting of advanced indices
    allpos = [i for i, s in enumerate(sel) if s[0] in ('adv', 'int')]
    contiguous = allpos == list(range(allpos[0], allpos[-1] + 1))
    first = allpos[0] if contiguous else 0
    ax = 0
    for s in sel:
        if s[0] == 'new': continue
        if s[0] == 'adv' and not getattr(s[1], 'identity', False): check_idx(ctx, s[1], a.axes[ax])
        ax += 1
    axes, getters = [], []   # result axes; per source axis function of result idx
    res_pos = None
    k = 0
    for i, s in enumerate(sel):
        if i == first and res_pos is None and contiguous:
            res_pos = len(axes); axes.append(joint)
        if s[0] == 'sl': getters.append(('sl', len(axes), s[1], s[3])); axes.append(Axis(s[2]))
        elif s[0] == 'full': getters.append(('full', len(axes))); axes.append(s[1])
        elif s[0] == 'int': getters.append(('int', s[1]))
        elif s[0] == 'adv': getters.append(('adv', s[1].snap(), concrete(s[1].axes[0].n) == 1 and s[1].axes[0].mask is None))
        elif s[0] == 'new': axes.append(Axis(1)); getters.append(('new',))
    if res_pos is None:
        axes = [joint] + axes; res_pos = 0
        getters = [(g[0], g[1] + 1) + g[2:] if g[0] in ('sl', 'full') else g for g in getters]
    def fn(*idx):
        src = []
        for g in getters:
            if g[0] == 'sl': src.append(simp(to_int(g[2]) + g[3] * idx[g[1]]))
            elif g[0] == 'full': src.append(idx[g[1]])
            elif g[0] == 'int': src.append(g[1])
            elif g[0] == 'adv': src.append(g[1](z3.IntVal(0) if g[2] else idx[res_pos]))
        return snap(*src)
    return new(ctx, axes, a.sort, fn)

def index_nd(ctx, a, sel, advs):
    """integer arrays of any dimension, broadcast against each other"""
    if any(getattr(s[1], 'identity', False) for s in advs): raise Unsupported('mask with an integer array of dimension 2')
    joint, fns, _ = broadcast(ctx, [s[1] for s in advs])
    allpos = [i for i, s in enumerate(sel) if s[0] in ('adv', 'int')]
    first = allpos[0] if allpos == list(range(allpos[0], allpos[-1] + 1)) else 0
    ax = 0
    for s in sel:
        if s[0] == 'new': continue
        if s[0] == 'adv': check_idx(ctx, s[1], a.axes[ax])
        ax += 1
    J = len(joint); axes, getters, q, start = [], [], 0, None
    if first == 0 and allpos[0] != 0: start = 0; axes += joint
    for i, s in enumerate(sel):
        if start is None and i == first: start = len(axes); axes += joint
        if s[0] == 'sl': getters.append(('sl', len(axes), s[1], s[3])); axes.append(Axis(s[2]))
        elif s[0] == 'full': getters.append(('full', len(axes))); axes.append(s[1])
        elif s[0] == 'int': getters.append(('int', s[1]))
        elif s[0] == 'new': axes.append(Axis(1))
        else: getters.append(('adv', fns[q])); q += 1
    snap = a.snap()
    def fn(*idx):
        src = []
        for g in getters:
            if g[0] == 'sl': src.append(simp(to_int(g[2]) + g[3] * idx[g[1]]))
            elif g[0] == 'full': src.append(idx[g[1]])
            elif g[0] == 'int': src.append(g[1])
            else: src.append(g[1](*idx[start:start + J]))
        return snap(*src)
    return new(ctx, axes, a.sort, fn)

def as_index(ctx, p, A):
    if p.sort is not None and p.sort.eq(B):
        check_dim(ctx, p.axes[0].n, A.n, 'boolean index has the length of the axis')
        s = p.snap()
        m = Arr([Axis(A.n, lambda i: to_bool(s(i)))], I, lambda i: i); m.identity = True
        return m
    return p

def check_idx(ctx, p, A):
    if getattr(p, 'identity', False): return
    if getattr(p, 'trusted_index', False): return
    s = p.snap(); n = A.n
    g = forall_dom(ctx, p.axes, lambda *i: z3.And(s(*i) >= 0, s(*i) < to_int(n)))
    ctx.check('index array in bounds', g, kind='bounds')

def basic_view(ctx, a, sel):
    if all(s[0] == 'int' for s in sel):
        return a.get(*[s[1] for s in sel])
    axes, out = [], []
    for s in sel:
        if s[0] == 'sl': out.append(('sl', len(axes), s[1], s[2], s[3])); axes.append(Axis(s[2]))
        elif s[0] == 'full': out.append(('full', len(axes))); axes.append(s[1])
        elif s[0] == 'int': out.append(('int', s[1]))
        elif s[0] == 'new': out.append(('new', len(axes))); axes.append(Axis(1))
    def imap(idx):
        r = []
        for s in out:
            if s[0] == 'sl':
                lo, st = s[2], s[4]
                x = idx[s[1]]
                r.append(x if concrete(lo) == 0 and st == 1 else simp(to_int(lo) + st * to_int(x)))
            elif s[0] == 'full': r.append(idx[s[1]])
            elif s[0] == 'int': r.append(to_int(s[1]))
        return tuple(r)
    def inv(bidx):
        c, v, p = [], [None] * len(axes), 0
        for s in out:
            if s[0] == 'new': v[s[1]] = z3.IntVal(0); continue
            x = bidx[p]; p += 1
            if s[0] == 'int': c.append(x == to_int(s[1]))
            elif s[0] == 'full': v[s[1]] = x
            else:
                lo, d, st = to_int(s[2]), to_int(s[3]), s[4]
                if st == 1:
                    c += [x >= lo, x < lo + d]; v[s[1]] = simp(x - lo)
                elif st == -1:
                    c += [x <= lo, x > lo - d]; v[s[1]] = simp(lo - x)
                else:
                    c += [x >= lo, (x - lo) % st == 0, (x - lo) / st < d]; v[s[1]] = simp((x - lo) / st)
        return (z3.And(c) if c else z3.BoolVal(True)), tuple(v)
    v = Arr(axes, a.sort, base=a, imap=imap, inv=inv)
    v.ro = a.ro; v.name = a.name
    v.stamp0 = getattr(a, 'stamp0', 0)
    return v

def write(ctx, a, cond, val):
    """a[idx] := val(idx) where cond(idx)"""
    if a.base is not None:
        b, inv = a.base, a.inv
        def c2(*bi):
            c, v = inv(bi)
            return z3.And(c, to_bool(cond(*v)))
        def v2(*bi):
            c, v = inv(bi)
            return val(*v)
        return write(ctx, b, c2, v2)
    ctx.note_write(a)
    old, so = a.fn, a.sort
    if so.eq(I):
        pass
    def fn(*i):
        c = concrete(cond(*i))
        if c is True: return coerce(val(*i), so)
        if c is False: return old(*i)
        return s_if(c, coerce(val(*i), so), old(*i))
    a.fn = fn
    hook = getattr(ctx.contract, 'on_write', None)
    if hook: hook(ctx, a)

def store_whole(ctx, a, v):
    if isinstance(v, Arr) and a.sort.eq(I) and v.sort.eq(R): raise PyRaise('TypeError', 'in-place real result in an integer array')
    axes, fns, _ = broadcast(ctx, [v, a])
    f = fns[0]
    write(ctx, a, lambda *i: z3.BoolVal(True), lambda *i: f(*i))

def setitem(ctx, o, k, v):
    if hasattr(o, 'v_setitem'): return o.v_setitem(ctx, k, v)
    if isinstance(o, dict): o[k] = v; return
    if isinstance(o, Lst):
        if isinstance(k, slice): raise Unsupported('list slice assignment')
        ctx.note_write(o, scalar_sort(v))
        kk = concrete(k)
        if o.concrete:
            if isinstance(kk, int):
                try: o.items[kk] = v
                except IndexError: raise PyRaise('IndexError')
                return
            i = norm_index(ctx, k, len(o.items), 'list index')
            o.items = [s_if(to_int(i) == q, v, x) for q, x in enumerate(o.items)]
            return
        i = norm_index(ctx, k, o.n, 'list index'); f = o.f
        if getattr(o, 'gset', None) is not None:
            old = f(to_int(i))
            ctx.check('entries are distinct', distinct_goal(f, o.n), kind='definedness')
            ctx.assume(z3.Select(o.gset, old))
            o.gset = z3.Store(z3.Store(o.gset, old, False), to_int(v), True)
        o.f = lambda q: s_if(q == to_int(i), coerce(v, o.sort), f(q))
        return
    if not isinstance(o, Arr): raise Unsupported('item assignment on %r' % (o,))
    if (isinstance(v, Cpx) or isinstance(v, Arr) and is_cpx(v)) and not is_cpx(o.root()): raise Unsupported('complex values in a real array')
    if o.ro or o.root().ro: ctx.note_write(o.root() if o.root().ro else o)
    if isinstance(k, DiagIdx):
        A = k.axis(ctx, o)
        if is_scalar(v): return write(ctx, o, lambda i, j: i == j, lambda i, j: v)
        v = to_arr(ctx, v)
        if v.ndim != 1 or (v.axes[0].mask is None) != (A.mask is None): raise Unsupported('values of a diagonal')
        check_dim(ctx, v.axes[0].n, A.n)
        if A.mask is not None and not same_mask(ctx, A.mask, v.axes[0].mask): raise Unsupported('values of a diagonal')
        f = v.snap()
        return write(ctx, o, lambda i, j: i == j, lambda i, j: f(i))
    if isinstance(k, Arr) and k.ndim == 2 and k.sort.eq(B) and o.ndim == 2 and is_scalar(v):
        for A, C in zip(k.axes, o.axes):
            if A.mask is not None or C.mask is not None: raise Unsupported('mask of dimension 2 on a masked axis')
            check_dim(ctx, A.n, C.n, 'boolean index has the shape of the array')
        m = k.snap()
        return write(ctx, o, lambda i, j: to_bool(m(i, j)), lambda i, j: v)
    sel, is_ix = parse_key(ctx, o, k)
    if not is_scalar(v): v = to_arr(ctx, v)
    conc = [(p, s) for p, s in enumerate(sel) if s[0] == 'adv' and not getattr(s[1], 'identity', False) and s[1].axes[0].mask is None and isinstance(concrete(s[1].axes[0].n), int)]
    if conc and not is_ix:
        m = concrete(conc[0][1][1].axes[0].n)
        if any(concrete(s[1].axes[0].n) != m for _, s in conc): raise Unsupported('advanced assignment')
        if len(conc) != sum(1 for s in sel if s[0] == 'adv'): raise Unsupported('mixed advanced assignment')
        # snapshot of the right-hand side
        if isinstance(v, Arr):
            snap = v.snap(); v = new(ctx, v.axes, v.sort, lambda *i: snap(*i))
        allpos = [i for i, s in enumerate(sel) if s[0] in ('adv', 'int')]
        first = allpos[0] if allpos == list(range(allpos[0], allpos[-1] + 1)) else 0
        rp = sum(1 for s in sel[:first] if s[0] in ('sl', 'full', 'new'))
        nres = sum(1 for s in sel if s[0] in ('sl', 'full', 'new')) + 1
        for q in range(m):
            s2 = list(sel)
            for p, s in conc: s2[p] = ('int', norm_index(ctx, s[1].get(q), o.axes[p].n))
            val = v
            if isinstance(v, Arr) and v.ndim:
                # position of the joint axis from the right
                fromright = nres - rp
                if v.ndim >= fromright:
                    d = v.ndim - fromright
                    idx = tuple([slice(None)] * d + [0 if concrete(v.axes[d].n) == 1 else q])
                    val = index_arr(ctx, v, idx)
            assign_sel(ctx, o, s2, val)
        return
    assign_sel(ctx, o, sel, v, is_ix)

def assign_sel(ctx, o, sel, v, is_ix=False):
    # result axes of the selection
    axes, where = [], []
    advs = [i for i, s in enumerate(sel) if s[0] == 'adv']
    if len(advs) > 1 and not is_ix: raise Unsupported('paired advanced assignment')
    allpos = [i for i, s in enumerate(sel) if s[0] in ('adv', 'int')]
    if advs and allpos != list(range(allpos[0], allpos[-1] + 1)):
        raise Unsupported('advanced assignment with separated indices')
    conds = []      # functions of target index
    plan = []       # per source axis
    p = 0
    for s in sel:
        if s[0] == 'new': axes.append(Axis(1)); plan.append(('new', len(axes) - 1)); continue
        if s[0] == 'sl': plan.append(('sl', p, len(axes), s[1], s[2], s[3])); axes.append(Axis(s[2]))
        elif s[0] == 'full': plan.append(('full', p, len(axes))); axes.append(s[1])
        elif s[0] == 'int': plan.append(('int', p, s[1]))
        elif s[0] == 'adv':
            A = s[1].axes[0]
            f = s[1].snap()
            i = fresh('id', I)
            if A.mask is not None and z3.eq(simp(f(i)), i):
                plan.append(('mask', p, len(axes), A)); axes.append(A)
            else:
                check_idx(ctx, s[1], o.axes[p])
                mem, pos = fresh_fn('mem', I, B), fresh_fn('pos', I, I)
                ctx.assume(All(lambda q, A=A, f=f: z3.Implies(A.dom(q), mem(f(q)))))
                ctx.assume(All(lambda x, A=A, f=f: z3.Implies(mem(x), z3.And(A.dom(pos(x)), f(pos(x)) == x))))
                ctx.adv_writes.append((A, f, mem, pos))
                plan.append(('idx', p, len(axes), mem, pos)); axes.append(A)
                if isinstance(v, Arr) and v.ndim >= len(sel): 
                    ctx.check('assigned indices are distinct', All(lambda q, r, A=A, f=f: z3.Implies(z3.And(A.dom(q), A.dom(r), f(q) == f(r)), q == r), 2), kind='definedness')
        p += 1
    if is_scalar(v): g = lambda *r: v
    else:
        d = v.ndim
        extra = d - len(axes)
        if extra > 0:
            if all(concrete(x.n) == 1 for x in v.axes[:extra]):
                v = index_arr(ctx, v, tuple([0] * extra)); d = v.ndim if isinstance(v, Arr) else 0
                if not isinstance(v, Arr): g0 = v; v = new(ctx, [], scalar_sort(g0), lambda: g0)
            else: raise PyRaise('ValueError', 'could not broadcast')
        off = len(axes) - v.ndim
        ones = []
        for q, A in enumerate(v.axes):
            T = axes[off + q]
            one = A.mask is None and concrete(A.n) == 1 and not (concrete(T.n) == 1 and T.mask is None)
            ones.append(one)
            if not one:
                join_axis(ctx, [T, A])
        snap = v.snap()
        g = lambda *r: snap(*[z3.IntVal(0) if o1 else x for o1, x in zip(ones, r[off:])])
    def split(idx):
        c, r = [], [z3.IntVal(0)] * len(axes)
        for s in plan:
            if s[0] == 'new': continue
            x = idx[s[1]]
            if s[0] == 'int': c.append(x == to_int(s[2]))
            elif s[0] == 'full': r[s[2]] = x
            elif s[0] == 'mask': c.append(s[3].mask(x)); r[s[2]] = x
            elif s[0] == 'idx': c.append(s[3](x)); r[s[2]] = s[4](x)
            else:
                lo, dd, st = to_int(s[3]), to_int(s[4]), s[5]
                if st == 1:
                    n = o.axes[s[1]].n
                    full = concrete(s[3]) == 0 and z3.eq(simp(to_int(n)), simp(dd))
                    if not full: c += [x >= lo, x < lo + dd]
                    r[s[2]] = simp(x - lo)
                elif st == -1: c += [x <= lo, x > lo - dd]; r[s[2]] = simp(lo - x)
                else: c += [x >= lo, (x - lo) % st == 0, (x - lo) / st < dd]; r[s[2]] = simp((x - lo) / st)
        return (z3.And(c) if c else z3.BoolVal(True)), r
    write(ctx, o, lambda *i: split(i)[0], lambda *i: g(*split(i)[1]))

def delitem(ctx, o, k):
    if hasattr(o, 'v_delitem'): return o.v_delitem(ctx, k)
    if isinstance(o, dict): o.pop(k); return
    if not isinstance(o, Lst): raise Unsupported('del item of %r' % (o,))
    ctx.note_write(o)
    if isinstance(k, slice):
        if o.concrete:
            cs = [concrete(x) for x in (k.start, k.stop, k.step)]
            if all(c is None or isinstance(c, int) for c in cs):
                del o.items[slice(*cs)]; return
            raise Unsupported('del slice')
        lo, d, st = slice_bounds(ctx, k, o.n)
        if st != 1: raise Unsupported('del slice step')
        f, n = o.f, o.n
        lo = to_int(lo); d = to_int(d)
        o.n = simp(to_int(n) - d)
        if ctx.entailed(lo + d == to_int(n)) is True: return
        o.f = lambda i: s_if(i < lo, f(i), f(simp(i + d)))
        return
    if o.concrete:
        kk = concrete(k)
        if isinstance(kk, int):
            try: del o.items[kk]
            except IndexError: raise PyRaise('IndexError')
            return
        if not all(is_scalar(x) for x in o.items): raise Unsupported('del at symbolic position')
        i = to_int(norm_index(ctx, k, len(o.items), 'list index')); it = list(o.items)
        o.items = [s_if(i <= q, it[q + 1], it[q]) for q in range(len(it) - 1)]
        return
    i = to_int(norm_index(ctx, k, o.n, 'list index'))
    f, n = o.f, o.n
    if getattr(o, 'gset', None) is not None:
        ctx.check('entries are distinct', distinct_goal(f, n), kind='definedness')
        ctx.assume(z3.Select(o.gset, f(i)))
        o.gset = z3.Store(o.gset, f(i), False)
    o.n = simp(to_int(n) - 1)
    o.f = lambda q: s_if(q < i, f(q), f(simp(q + 1)))

# ------------------------------------------------------------------ reductions and products
def axis_sum(A, f):
    if A.mask is not None:
        m = A.mask
        return mk_sum(A.n, lambda s: z3.If(m(s), to_real(f(s)), z3.RealVal(0)))
    return mk_sum(A.n, f)

def reduce_sum(ctx, a, axis=None):
    a = to_arr(ctx, a)
    s = a.snap()
    isI = a.sort.eq(I) or a.sort.eq(B)
    if axis is None:
        def go(k, idx):
            if k == a.ndim: return to_real(s(*idx))
            return axis_sum(a.axes[k], lambda x: go(k + 1, idx + [x]))
        v = go(0, [])
        if isI:
            c = int_of(ctx, v, nonneg=a.sort.eq(B), upper=a.axes[0].n if a.sort.eq(B) and a.ndim == 1 else None)
            if a.sort.eq(B) and a.ndim == 1:
                A0 = a.axes[0]
                A = Axis(A0.n, (lambda i: to_bool(s(i))) if A0.mask is None else (lambda i: z3.And(A0.mask(i), to_bool(s(i)))))
                A._count = c; ctx.counts.append((c, A))
                count_hook(ctx, c, A0.n, lambda i: to_bool(s(i)))
            return c
        return v
    ax = concrete(axis)
    if ax < 0: ax += a.ndim
    rest = [x for i, x in enumerate(a.axes) if i != ax]
    r = lambda *i: axis_sum(a.axes[ax], lambda x: s(*(list(i[:ax]) + [x] + list(i[ax:]))))
    if not rest: return reduce_sum(ctx, a)
    if isI:
        c = fresh_fn('cnt', *([I] * len(rest) + [I]))
        ctx.assume(All(lambda *i: z3.ToReal(c(*i)) == r(*i), len(rest)))
        return new(ctx, rest, I, lambda *i: c(*i))
    return new(ctx, rest, R, r)

def axis_prod(A, f):
    if A.mask is not None:
        m = A.mask
        return mk_prod(A.n, lambda s: z3.If(m(s), to_real(f(s)), z3.RealVal(1)))
    return mk_prod(A.n, f)
def reduce_prod(ctx, a, axis=None):
    s = a.snap()
    if not a.sort.eq(R): raise Unsupported('product of integers')
    if axis is None or a.ndim == 1:
        go = lambda k, idx: to_real(s(*idx)) if k == a.ndim else axis_prod(a.axes[k], lambda x: go(k + 1, idx + [x]))
        return go(0, [])
    ax = concrete(axis); ax = ax + a.ndim if ax < 0 else ax
    rest = [x for i, x in enumerate(a.axes) if i != ax]
    return new(ctx, rest, R, lambda *i: axis_prod(a.axes[ax], lambda x: s(*(list(i[:ax]) + [x] + list(i[ax:])))))

def int_of(ctx, v, nonneg=False, upper=None):
    v = simp(v)
    if z3.is_rational_value(v): return int(concrete(v))
    c = fresh('n', I)
    ctx.assume(z3.ToReal(c) == v)
    if nonneg: ctx.assume(c >= 0)
    if upper is not None: ctx.assume(c <= to_int(upper))
    return c

def axis_len(ctx, A):
    if A.mask is None: return A.n
    if A._count is None:
        m = A.mask
        A._count = int_of(ctx, mk_sum(A.n, lambda s: z3.If(m(s), z3.RealVal(1), z3.RealVal(0))), True, A.n)
        ctx.counts.append((A._count, A))
        count_hook(ctx, A._count, A.n, m)
    return A._count

def count_hook(ctx, c, n, mask):
    h = getattr(ctx.contract, 'on_count', None)
    if h is not None: h(ctx, to_int(c), n, mask)

def dot(ctx, a, b):
    for x, y, r in ((a, b, False), (b, a, True)):
        if hasattr(x, 'v_dot'):
            v = x.v_dot(ctx, y, r)
            if v is not NotImplemented: return v
    if is_scalar(a) or is_scalar(b): return binary(ctx, 'Mult', a, b)
    a, b = to_arr(ctx, a), to_arr(ctx, b)
    if a.ndim == 0 or b.ndim == 0: return binary(ctx, 'Mult', a, b)
    kb = b.ndim - 2 if b.ndim >= 2 else 0
    A, Bx = a.axes[-1], b.axes[kb]
    # contraction needs equal lengths (no broadcasting)
    if (A.mask is None) != (Bx.mask is None): raise Unsupported('product of differently masked arrays')
    check_dim(ctx, A.n, Bx.n, 'inner dimensions agree')
    if A.mask is not None and not same_mask(ctx, A.mask, Bx.mask): raise Unsupported('product of differently masked arrays')
    sa, sb = a.snap(), b.snap()
    na = a.ndim - 1
    axes = a.axes[:-1] + [x for i, x in enumerate(b.axes) if i != kb]
    def fn(*idx):
        ia, ib = list(idx[:na]), list(idx[na:])
        return axis_sum(A, lambda s: s_bin('Mult', sa(*(ia + [s])), sb(*(ib[:kb] + [s] + ib[kb:]))))
    if a.sort.eq(I) and b.sort.eq(I) and not axes: return int_of(ctx, fn())
    if not axes: return fn()
    return new(ctx, axes, R, fn)

def einsum(ctx, spec, ops):
    spec = spec.replace(' ', '')
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if out is None:
        out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
    ops = [to_arr(ctx, o) for o in ops]
    ax = {}
    for s, o in zip(ins, ops):
        for c, A in zip(s, o.axes):
            ax[c] = A if c not in ax else join_axis(ctx, [ax[c], A])
    snaps = [o.snap() for o in ops]
    summed = [c for c in sorted(ax) if c not in out]
    def fn(*idx):
        env = dict(zip(out, idx))
        def go(k, env):
            if k == len(summed):
                r = None
                for s, f in zip(ins, snaps):
                    v = f(*[env[c] for c in s])
                    r = v if r is None else s_bin('Mult', r, v)
                return to_real(r)
            return axis_sum(ax[summed[k]], lambda x: go(k + 1, dict(env, **{summed[k]: x})))
        return go(0, env)
    if not out: return fn()
    return new(ctx, [ax[c] for c in out], R, fn)

def reduce_ext(ctx, a, mx=True, axis=None):
    a = to_arr(ctx, a)
    s = a.snap()
    if axis is not None and a.ndim > 1:
        ax = concrete(axis); ax = ax + a.ndim if ax < 0 else ax
        rest = [x for i, x in enumerate(a.axes) if i != ax]
        m, w = fresh_fn('ext', *([I] * len(rest) + [a.sort])), fresh_fn('arg', *([I] * (len(rest) + 1)))
        put = lambda i, x: list(i[:ax]) + [x] + list(i[ax:])
        ctx.assume(All(lambda x, *i: z3.Implies(a.axes[ax].dom(x), (s(*put(i, x)) <= m(*i)) if mx else (s(*put(i, x)) >= m(*i))), len(rest) + 1))
        ctx.assume(All(lambda *i: z3.And(a.axes[ax].dom(w(*i)), s(*put(i, w(*i))) == m(*i)), len(rest)))
        return new(ctx, rest, a.sort, lambda *i: m(*i))
    if all(isinstance(concrete(x.n), int) and x.mask is None for x in a.axes):
        vals = [s(*idx) for idx in itertools.product(*[range(concrete(x.n)) for x in a.axes])]
        if not vals: raise PyRaise('ValueError', 'empty reduction')
        r = vals[0]
        for v in vals[1:]: r = s_max(r, v) if mx else s_min(r, v)
        return simp(r)
    for A in a.axes:
        if A.mask is None: ctx_index_check(ctx, 0, A.n, 'reduction of a nonempty array')
        else: nonempty_check(ctx, A)
    m = fresh('ext', a.sort); w = [fresh('arg', I) for _ in a.axes]
    ctx.assume(z3.And([A.dom(x) for A, x in zip(a.axes, w)]))
    ctx.assume(m == s(*w))
    ctx.assume(All(lambda *i: z3.Implies(z3.And([A.dom(x) for A, x in zip(a.axes, i)]), (s(*i) <= m) if mx else (s(*i) >= m)), a.ndim))
    return m

def reduce_bool(ctx, a, every, axis=None, total=False):
    if is_scalar(a): return to_bool(a) if is_z3(a) else bool(a)
    a = to_arr(ctx, a)
    s = a.snap()
    if axis is not None and a.ndim > 1:
        ax = concrete(axis); ax = ax + a.ndim if ax < 0 else ax
        A = a.axes[ax]; rest = [x for i, x in enumerate(a.axes) if i != ax]
        if not isinstance(concrete(A.n), int) or A.mask is not None: raise Unsupported('any/all along an axis of symbolic length')
        op = z3.And if every else z3.Or
        return (lambda r: reduce_bool(ctx, r, every) if total else r)(new(ctx, rest, B, lambda *i: simp(op([to_bool(s(*(list(i[:ax]) + [z3.IntVal(x)] + list(i[ax:])))) for x in range(concrete(A.n))] or [z3.BoolVal(every)]))))
    if a.ndim == 0: return to_bool(s())
    if all(isinstance(concrete(x.n), int) and x.mask is None for x in a.axes):
        vals = [to_bool(s(*idx)) for idx in itertools.product(*[range(concrete(x.n)) for x in a.axes])]
        return simp(z3.And(vals) if every else z3.Or(vals)) if vals else every
    for q, x in enumerate(a.axes):
        if isinstance(concrete(x.n), int) and concrete(x.n) <= 4 and x.mask is None: return reduce_bool(ctx, a, every, q, True)
    b = fresh('all' if every else 'any', B); w = [fresh('w', I) for _ in a.axes]
    dom = lambda idx: z3.And([A.dom(x) for A, x in zip(a.axes, idx)])
    if every:
        ctx.assume(All(lambda *i: z3.Implies(z3.And(b, dom(i)), to_bool(s(*i))), a.ndim))
        ctx.assume(z3.Implies(z3.Not(b), z3.And(dom(w), z3.Not(to_bool(s(*w))))))
    else:
        ctx.assume(All(lambda *i: z3.Implies(z3.And(z3.Not(b), dom(i)), z3.Not(to_bool(s(*i)))), a.ndim))
        ctx.assume(z3.Implies(b, z3.And(dom(w), to_bool(s(*w)))))
    return b

def concat(ctx, *xs):
    xs = [Lst(list(x)) if isinstance(x, tuple) else x for x in xs]
    if all(x.concrete for x in xs): return ctx.stamped(Lst(sum([x.items for x in xs], []), sort=xs[0].sort))
    sorts = []
    for x in xs:
        if x.concrete:
            if x.items: sorts.append(join_sort(*[scalar_sort(v) for v in x.items]))
        else: sorts.append(x.sort)
    so = join_sort(*sorts)
    fs = [elem_snap(ctx, x) for x in xs]; ns = [x.length() for x in xs]
    def f(i):
        off, branches = z3.IntVal(0), []
        for g, n in zip(fs, ns):
            branches.append((simp(i - off), simp(off + to_int(n)), g)); off = simp(off + to_int(n))
        r = coerce(branches[-1][2](branches[-1][0]), so)
        for (j, end, g), n in zip(reversed(branches[:-1]), reversed(ns[:-1])):
            if concrete(n) == 0: continue
            r = s_if(i < end, coerce(g(j), so), r)
        return r
    n = ns[0]
    for m in ns[1:]: n = simp(to_int(n) + to_int(m))
    return ctx.stamped(Lst(None, n, f, so))

# ------------------------------------------------------------------ attributes and methods
def shape_of(ctx, a): return tuple(axis_len(ctx, A) for A in a.axes)

def getattr_(ctx, o, name):
    if hasattr(o, 'v_getattr'):
        v = o.v_getattr(ctx, name)
        if v is not NotImplemented: return v
    if isinstance(o, Ext):
        full = o.name + '.' + name
        if full in CONSTANTS: return constant(ctx, full)
        return Ext(full)
    if isinstance(o, Arr):
        if name == 'shape': return shape_of(ctx, o)
        if name == 'size':
            r = 1
            for A in o.axes: r = s_bin('Mult', r, axis_len(ctx, A))
            return r
        if name == 'ndim': return o.ndim
        if name == 'T': return transpose(ctx, o)
        if name == 'dtype': return DType(o.sort, is_cpx(o))
        if name == 'real': return o if not getattr(o, 'cpx', False) else emap(ctx, lambda x: c_parts(x)[0], R, o)
        if name == 'imag': return emap(ctx, lambda x: c_parts(x)[1], R, o)
        return BoundExt(o, name)
    if isinstance(o, Obj):
        if name in o.attrs:
            return o.attrs[name]
        if isinstance(o.cls, ClassVal):
            m = ctx.find_method(o.cls, name)
            if m:
                decos = [getattr(d, 'id', '') for d in m[1].decorator_list]
                if 'property' in decos:
                    return ctx.call_func(FuncVal(m[0], m[1], m[2], bound=o, cls=m[3]), [], {})
                if 'staticmethod' in decos: return FuncVal(m[0], m[1], m[2], cls=m[3])
                return FuncVal(m[0], m[1], m[2], bound=o, cls=m[3])
        if isinstance(o.cls, NTClass): return BoundExt(o, name)
        raise PyRaise('AttributeError', name)
    if isinstance(o, (Rng, Lst, dict, str, StrV, tuple, frozenset, SRange)): return BoundExt(o, name)
    if is_scalar(o):
        if name == 'size': return 1
        if name == 'real': return c_parts(o)[0]
        if name == 'imag': return c_parts(o)[1]
        if name == 'shape': return ()
        return BoundExt(o, name)
    if isinstance(o, DType):
        if name == 'kind': return 'f' if o.sort.eq(R) else ('b' if o.sort.eq(B) else 'i')
        return BoundExt(o, name)
    from .engine import Module
    if isinstance(o, Module):
        return ctx.resolve(o, name) if name in o.defs else Ext(o.name + '.' + name)
    if isinstance(o, Opaque) or hasattr(o, 'v_method'): return BoundExt(o, name)
    if o is None: raise PyRaise('AttributeError', 'None.%s' % name)
    raise Unsupported('attribute %s of %r' % (name, o))

class DType:
    def __init__(self, sort, cpx=False): self.sort, self.cpx = sort, cpx

def transpose(ctx, a):
    if a.ndim < 2: return a
    n = a.ndim
    v = Arr(list(reversed(a.axes)), a.sort, base=a, imap=lambda i: tuple(reversed(i)), inv=lambda b: (z3.BoolVal(True), tuple(reversed(b))))
    v.ro, v.name, v.stamp0 = a.ro, a.name, getattr(a, 'stamp0', 0)
    return v

def dtype_sort(ctx, d):
    if d is None: return R
    if isinstance(d, DType): return d.sort
    if isinstance(d, str): d = {'int': Ext('builtins.int'), 'float': Ext('builtins.float'), 'bool': Ext('builtins.bool')}.get(d, Ext(d))
    if isinstance(d, Ext):
        n = d.name.split('.')[-1]
        if n in ('int', 'int64', 'int32', 'intp', 'int_', 'integer'): return I
        if n in ('bool', 'bool_'): return B
        if n in ('float', 'float64', 'double', 'float_'): return R
        if n in ('complex', 'complex_', 'complex128', 'cdouble'): return R       # real and imaginary parts: Cpx elements
    raise Unsupported('dtype %r' % (d,))

def cpx_dtype(d): return isinstance(d, str) and d.startswith('complex') or isinstance(d, Ext) and d.name.split('.')[-1] in ('complex', 'complex_', 'complex128', 'cdouble') or isinstance(d, DType) and d.cpx
EXT = {}
def ext(*names):
    def deco(f):
        for n in names: EXT[n] = f
        return f
    return deco
CONSTANTS = {'numpy.newaxis': None, 'string.ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz', 'numpy.pi': None}
PI = z3.Real('PI')
CONSTANTS['numpy.pi'] = CONSTANTS['math.pi'] = PI
class Inf:
    """signed infinity"""
    def __init__(self, sign=1): self.sign = sign
    def v_binop(self, ctx, op, y, rev):
        if isinstance(y, Inf) or not is_scalar(y): raise Unsupported('arithmetic on infinities')
        if op in ('Mult', 'Div') and not (op == 'Div' and rev):
            pos, neg = s_cmp('Gt', y, 0), s_cmp('Lt', y, 0)
            if ctx.truth(pos): return Inf(self.sign)
            if ctx.truth(neg): return Inf(-self.sign)
            raise Unsupported('infinity times zero')
        if op == 'Add' or op == 'Sub' and not rev: return Inf(self.sign)
        if op == 'Sub': return Inf(-self.sign)
        if op == 'Div': return 0
        raise Unsupported('operator %s on infinities' % op)
    def v_compare(self, ctx, op, y, rev):
        if isinstance(y, Inf): raise Unsupported('comparison of infinities')
        if not is_scalar(y): return NotImplemented
        if op in ('Eq', 'NotEq'): return op == 'NotEq'
        less = (self.sign < 0) != rev
        return less if op in ('Lt', 'LtE') else not less
    def v_ext(self, ctx, name, args, kw):
        if name in ('numpy.exp', 'math.exp') and self.sign < 0: return 0
        if name == 'numpy.isfinite': return False
        if name == 'numpy.isinf': return True
        return NotImplemented
CONSTANTS['numpy.inf'] = CONSTANTS['math.inf'] = Inf()
def constant(ctx, full):
    v = CONSTANTS[full]
    if v is PI: ctx.assume([PI > z3.RealVal('3.14159'), PI < z3.RealVal('3.1416')])
    return v
class Cat:
    """list display with starred sequences of symbolic length: ('item', value) | ('seq', length, at)"""
    def __init__(self, parts): self.parts = parts
PI = z3.Real('PI')

class KW(dict):
    """keyword arguments; remembers which ones the contract of the external function looked at"""
    def __init__(self, *a, **k): dict.__init__(self, *a, **k); self.seen = set()
    def get(self, k, d=None): self.seen.add(k); return dict.get(self, k, d)
    def __getitem__(self, k): self.seen.add(k); return dict.__getitem__(self, k)
    def __contains__(self, k): self.seen.add(k); return dict.__contains__(self, k)
    def pop(self, k, *d): self.seen.add(k); return dict.pop(self, k, *d)
    def _all(self): self.seen |= set(dict.keys(self))
    def __iter__(self): self._all(); return dict.__iter__(self)
    def keys(self): self._all(); return dict.keys(self)
    def items(self): self._all(); return dict.items(self)
    def values(self): self._all(); return dict.values(self)
    def copy(self): self._all(); return dict(self.items())
    def left(self): return [k for k in dict.keys(self) if k not in self.seen and k not in ('check_finite', 'overwrite_a', 'overwrite_b')]
class AL(list):
    """positional arguments; remembers which ones were looked at"""
    def __init__(self, a): list.__init__(self, a); self.seen = set()
    def __getitem__(self, k):
        r = range(len(self))[k]
        self.seen |= {r} if isinstance(r, int) else set(r)
        return list.__getitem__(self, k)
    def __iter__(self): self.seen |= set(range(len(self))); return list.__iter__(self)
    def __add__(self, o): return list(self) + list(o)
    def __radd__(self, o): return list(o) + list(self)
    def left(self): return [i for i in range(len(self)) if i not in self.seen]
def tracked(f, what):
    """an argument the contract does not read is an argument it does not specify: unsupported"""
    def g(args, kw):
        a, k = AL(args), KW(kw)
        r = f(a, k)
        if r is NotImplemented: return r
        if (a.left() or k.left()) and what not in ('builtins.print', 'warnings.warn', 'numpy.errstate', 'numpy.seterr', 'builtins.format', 'builtins.repr', 'builtins.str'): raise Unsupported('argument %s of %s' % (', '.join(map(str, a.left() + k.left())), what))
        return r
    return g

def call_ext(ctx, name, args, kw):
    ov = ctx.contract.externals.get(name) if hasattr(ctx.contract, 'externals') else None
    if ov is not None:
        r = tracked(lambda a, k: ov(ctx, a, k), name)(args, kw)
        if r is not NotImplemented: return r
    f = EXT.get(name)
    if f is None:
        for x in args:
            if hasattr(x, 'v_ext'):
                r = x.v_ext(ctx, name, args, kw)
                if r is not NotImplemented: return r
        raise Unsupported('external function %s' % name)
    ctx.run.assumed.add(name)
    for x in args:
        if hasattr(x, 'v_ext'):
            r = x.v_ext(ctx, name, args, kw)
            if r is not NotImplemented: return r
    return tracked(lambda a, k: f(ctx, a, k), name)(args, kw)

def arg(args, kw, i, name, default=None):
    if i < len(args): return args[i]
    return kw.get(name, default)

def shape_arg(ctx, s):
    if isinstance(s, tuple): return list(s)
    if isinstance(s, Lst): return list(ctx.concrete_seq(s))
    return [s]

@ext('numpy.zeros', 'numpy.ones', 'numpy.empty')
def _zeros(ctx, args, kw):
    raise Unsupported('numpy allocation')
def _alloc(v):
    def f(ctx, args, kw):
        sh = shape_arg(ctx, arg(args, kw, 0, 'shape')); so = dtype_sort(ctx, arg(args, kw, 1, 'dtype'))
        if getattr(ctx.contract, 'reindex', False) and len(sh) == 1:
            A = selection_of(ctx, sh[0])
            if A is not None: sh = [A]
        r = new(ctx, sh, so, lambda *i: v); r.cpx = cpx_dtype(arg(args, kw, 1, 'dtype'))
        return r
    return f
EXT['numpy.zeros'] = _alloc(0)
EXT['numpy.ones'] = _alloc(1)
@ext('numpy.empty')
def _empty(ctx, args, kw):
    sh = shape_arg(ctx, arg(args, kw, 0, 'shape')); so = dtype_sort(ctx, arg(args, kw, 1, 'dtype'))
    if cpx_dtype(arg(args, kw, 1, 'dtype')):
        r = new(ctx, sh, so, cpx_fn('empty', len(sh))); r.cpx = True; return r
    f = fresh_fn('empty', *([I] * len(sh) + [so]))
    return new(ctx, sh, so, lambda *i: f(*i))
@ext('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like')
def _like(ctx, args, kw):
    a = to_arr(ctx, args[0])
    return new(ctx, a.axes, dtype_sort(ctx, kw['dtype']) if 'dtype' in kw else a.sort, lambda *i: 0)
EXT['numpy.ones_like'] = lambda ctx, args, kw: new(ctx, to_arr(ctx, args[0]).axes, dtype_sort(ctx, kw['dtype']) if 'dtype' in kw else to_arr(ctx, args[0]).sort, lambda *i: 1)
@ext('numpy.full')
def _full(ctx, args, kw):
    v = arg(args, kw, 1, 'fill_value')
    so = dtype_sort(ctx, kw['dtype']) if 'dtype' in kw else scalar_sort(v)
    return new(ctx, shape_arg(ctx, args[0]), so, lambda *i: v)
@ext('numpy.diag_indices')
def _diag_indices(ctx, args, kw):
    if len(args) != 1 or kw: raise Unsupported('diag_indices')
    return DiagIdx(args[0])
@ext('numpy.eye', 'numpy.identity')
def _eye(ctx, args, kw):
    n = args[0]
    n = selection_of(ctx, n) or n          # size of a masked axis: same ordinals
    return new(ctx, [n, n], dtype_sort(ctx, kw.get('dtype')), lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)))
@ext('numpy.arange')
def _arange(ctx, args, kw):
    a = list(args)
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a[:3]
    if len(a) < 3: st = kw.get('step', st)
    if 'dtype' in kw and not dtype_sort(ctx, kw['dtype']).eq(I): raise Unsupported('float arange')
    if not isint(lo) and isint(hi) and concrete(st) == 1 and isinstance(concrete(lo), (float, Fraction)):
        c = Fraction(concrete(lo)).limit_denominator(10 ** 9)
        n = to_int(hi) - (c.numerator // c.denominator)        # ceil(hi - lo) for an integer hi
        n = simp(z3.If(n >= 0, n, 0))
        return new(ctx, [n], R, lambda i: z3.ToReal(to_int(i)) + z3.RealVal(str(c)))
    if not (isint(lo) and isint(hi) and isint(st)): raise Unsupported('float arange')
    n, at = iterate(ctx, SRange(lo, hi, st))
    return new(ctx, [n], I, lambda i: to_int(at(i)))
@ext('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d')
def _array(ctx, args, kw):
    x = args[0]
    if hasattr(x, 'v_array'): return x.v_array(ctx)
    a = to_arr(ctx, x)
    so = dtype_sort(ctx, kw['dtype']) if kw.get('dtype') is not None else (dtype_sort(ctx, args[1]) if len(args) > 1 else a.sort)
    s = a.snap()
    return new(ctx, a.axes, so, lambda *i: s(*i))
@ext('numpy.fromiter')
def _fromiter(ctx, args, kw):
    n, at = iterate(ctx, args[0])
    so = dtype_sort(ctx, arg(args, kw, 1, 'dtype'))
    if isinstance(concrete(n), int): return to_arr(ctx, Lst([coerce(at(i), so) for i in range(concrete(n))]))
    return new(ctx, [n], so, lambda i: at(i))
def _asarray(ctx, args, kw):
    if isinstance(args[0], Arr) and kw.get('dtype') is None and len(args) == 1: return args[0]
    return _array(ctx, args, kw)
EXT['numpy.asarray'] = EXT['numpy.asanyarray'] = _asarray
@ext('numpy.copy')
def _copy(ctx, args, kw): return copy_arr(ctx, to_arr(ctx, args[0]))
def copy_arr(ctx, a):
    s = a.snap()
    r = new(ctx, a.axes, a.sort, lambda *i: s(*i))
    return r

def elementwise(name, f, so, chk=None):
    def g(ctx, args, kw):
        x = args[0]
        if isinstance(x, (Lst, tuple)): x = to_arr(ctx, x)
        if chk: chk(ctx, x)
        r = emap(ctx, f, so, x)
        o = kw.get('out')
        if o is not None: store_whole(ctx, o, r); return o
        return r
    EXT[name] = g
def x_abs(x):
    if isinstance(x, Cpx): return SQRT(to_real(s_bin('Add', s_bin('Mult', x.re, x.re), s_bin('Mult', x.im, x.im))))
    return s_abs(x)
elementwise('numpy.abs', x_abs, lambda s: s if not s.eq(B) else I)
elementwise('numpy.absolute', x_abs, lambda s: s)
elementwise('numpy.fabs', s_abs, lambda s: R)
elementwise('numpy.sqrt', lambda x: s_pow(x, Fraction(1, 2)), R, check_nonneg)
elementwise('numpy.square', lambda x: s_bin('Mult', x, x), lambda s: s)
elementwise('numpy.exp', lambda x: EXP(to_real(x)), R)
elementwise('numpy.log', lambda x: LOG(to_real(x)), R)
elementwise('numpy.conj', lambda x: Cpx(x.re, s_bin('Sub', 0, x.im)) if isinstance(x, Cpx) else x, lambda s: s)
EXT['numpy.conjugate'] = EXT['numpy.conj']
elementwise('numpy.real', lambda x: c_parts(x)[0], lambda s: s)
elementwise('numpy.logical_not', s_not, B)
elementwise('numpy.negative', lambda x: s_bin('Sub', 0, x), lambda s: s)
RINT = z3.Function('RINT', R, I)
def rint(ctx, x):
    x = to_real(x)
    v = concrete(x)
    if is_num(v): return z3.ToReal(z3.IntVal(round(v)))
    m = RINT(x)
    ctx.assume([z3.ToReal(m) - x <= z3.RealVal('1/2'), x - z3.ToReal(m) <= z3.RealVal('1/2')])
    return z3.ToReal(m)
@ext('numpy.rint', 'numpy.round', 'builtins.round', 'numpy.around')
def _rint(ctx, args, kw):
    if len(args) > 1 and concrete(args[1]) not in (0, None): raise Unsupported('round to decimals')
    if isinstance(args[0], Arr): raise Unsupported('rint of an array')
    return rint(ctx, args[0])
def _bround(ctx, args, kw):
    r = _rint(ctx, args, kw)
    return trunc_int(r)
EXT['builtins.round'] = _bround
FLOOR = None
@ext('numpy.ceil', 'math.ceil', 'numpy.floor', 'math.floor')
def _ceil(ctx, args, kw): raise Unsupported('ceil/floor')
def _fl(up, integer):
    def f(ctx, args, kw):
        x = args[0]
        if isinstance(x, Arr): raise Unsupported('floor of an array')
        if isint(x): return x if integer else to_real(x)
        v = concrete(x)
        if is_num(v):
            import math
            r = math.ceil(v) if up else math.floor(v)
            return r if integer else Fraction(r)
        m = z3.ToInt(to_real(x)) if not up else -z3.ToInt(-to_real(x))
        return m if integer else z3.ToReal(m)
    return f
EXT['numpy.ceil'] = _fl(True, False); EXT['numpy.floor'] = _fl(False, False)
EXT['math.ceil'] = _fl(True, True); EXT['math.floor'] = _fl(False, True)

def bin_ext(name, op):
    EXT[name] = lambda ctx, args, kw: out_kw(ctx, binary(ctx, op, args[0], args[1]), kw)
def out_kw(ctx, r, kw):
    o = kw.get('out')
    if o is not None: store_whole(ctx, o, r); return o
    return r
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('remainder', 'Mod')):
    bin_ext('numpy.' + _n, _o)
for _n, _o in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    EXT['numpy.' + _n] = (lambda op: lambda ctx, args, kw: compare(ctx, op, args[0], args[1]))(_o)
EXT['numpy.minimum'] = lambda ctx, args, kw: out_kw(ctx, emap(ctx, s_min, lambda *s: join_sort(*s), args[0], args[1]), kw)
EXT['numpy.maximum'] = lambda ctx, args, kw: out_kw(ctx, emap(ctx, s_max, lambda *s: join_sort(*s), args[0], args[1]), kw)
EXT['numpy.logical_and'] = lambda ctx, args, kw: emap(ctx, lambda a, b: z3.And(to_bool(a), to_bool(b)), B, args[0], args[1])
EXT['numpy.logical_or'] = lambda ctx, args, kw: emap(ctx, lambda a, b: z3.Or(to_bool(a), to_bool(b)), B, args[0], args[1])
EXT['numpy.logical_xor'] = lambda ctx, args, kw: emap(ctx, lambda a, b: z3.Xor(to_bool(a), to_bool(b)), B, args[0], args[1])
@ext('numpy.clip')
def _clip(ctx, args, kw):
    r = args[0]
    lo, hi = arg(args, kw, 1, 'a_min'), arg(args, kw, 2, 'a_max')
    if lo is not None: r = emap(ctx, s_max, lambda *s: join_sort(*s), r, lo)
    if hi is not None: r = emap(ctx, s_min, lambda *s: join_sort(*s), r, hi)
    return r
@ext('numpy.dot', 'numpy.matmul', 'numpy.inner')
def _dot(ctx, args, kw):
    return dot(ctx, args[0], args[1])
@ext('numpy.inner')
def _inner(ctx, args, kw):
    b = to_arr(ctx, args[1])
    return dot(ctx, args[0], b if b.ndim < 2 else transpose(ctx, b))
@ext('numpy.outer')
def _outer(ctx, args, kw):
    a, b = to_arr(ctx, args[0]), to_arr(ctx, args[1])
    sa, sb = a.snap(), b.snap()
    return new(ctx, [a.axes[0], b.axes[0]], join_sort(a.sort, b.sort), lambda i, j: s_bin('Mult', sa(i), sb(j)))
@ext('numpy.einsum')
def _einsum(ctx, args, kw):
    if not isinstance(args[0], str): raise Unsupported('einsum')
    return einsum(ctx, args[0], args[1:])
@ext('numpy.trace')
def _trace(ctx, args, kw):
    a = to_arr(ctx, args[0]); s = a.snap()
    return mk_sum(a.axes[0].n, lambda i: s(i, i))
@ext('numpy.diag', 'numpy.diagonal')
def _diag(ctx, args, kw):
    a = to_arr(ctx, args[0])
    k = arg(args, kw, 1, 'k', 0)
    if a.ndim == 2:
        if concrete(k) != 0: raise Unsupported('off diagonal')
        return diag_view(ctx, a)
    s = a.snap()
    if concrete(k) != 0: raise Unsupported('off diagonal')
    return new(ctx, [a.axes[0], a.axes[0]], a.sort, lambda i, j: s_if(i == j, s(i), 0))
def diag_view(ctx, a):
    v = Arr([a.axes[0]], a.sort, base=a, imap=lambda i: (i[0], i[0]), inv=lambda b: (b[0] == b[1], (b[0],)))
    v.ro, v.name, v.stamp0 = True, a.name, getattr(a, 'stamp0', 0)
    return v
@ext('numpy.sum', 'builtins.sum')
def _sum(ctx, args, kw):
    x = args[0]
    if isinstance(x, (Lst, tuple, Iter)):
        n, at = iterate(ctx, x)
        if isinstance(concrete(n), int):
            r = args[1] if len(args) > 1 else 0
            for i in range(concrete(n)): r = binary(ctx, 'Add', r, at(i))
            return r
    return reduce_sum(ctx, x, arg(args, kw, 1, 'axis') if 'axis' in kw or isinstance(x, Arr) else None)
@ext('numpy.max', 'numpy.amax')
def _max(ctx, args, kw): return reduce_ext(ctx, args[0], True, arg(args, kw, 1, 'axis'))
@ext('numpy.min', 'numpy.amin')
def _min(ctx, args, kw): return reduce_ext(ctx, args[0], False, arg(args, kw, 1, 'axis'))
@ext('numpy.all')
def _all(ctx, args, kw): return reduce_bool(ctx, args[0], True, arg(args, kw, 1, 'axis'))
@ext('numpy.any')
def _any(ctx, args, kw): return reduce_bool(ctx, args[0], False, arg(args, kw, 1, 'axis'))
@ext('builtins.all', 'builtins.any')
def _ball(ctx, args, kw): raise Unsupported('builtin all/any')
def _bq(every):
    def f(ctx, args, kw):
        x = args[0]
        if isinstance(x, (Lst, tuple)) and (isinstance(x, tuple) or x.concrete):
            for v in (x if isinstance(x, tuple) else x.items):
                t = ctx.truth(v)
                if every and not t: return False
                if not every and t: return True
            return every
        return reduce_bool(ctx, x, every)
    return f
EXT['builtins.all'], EXT['builtins.any'] = _bq(True), _bq(False)
@ext('numpy.count_nonzero')
def _cnz(ctx, args, kw):
    a = to_arr(ctx, args[0]); s = a.snap()
    if a.ndim != 1: raise Unsupported('count_nonzero')
    A = Axis(a.axes[0].n, lambda i: z3.And(a.axes[0].dom(i), to_bool(s(i))) if a.axes[0].mask is not None else to_bool(s(i)))
    return axis_len(ctx, A)
@ext('numpy.flatnonzero')
def _fnz(ctx, args, kw):
    return nonzero(ctx, args[0])[0]
def nonzero(ctx, x):
    a = to_arr(ctx, x); s = a.snap()
    if a.ndim != 1: raise Unsupported('nonzero of a matrix')
    A0 = a.axes[0]
    if A0.mask is not None: return (RelArr(A0, lambda i: z3.And(A0.mask(i), to_bool(s(i)))),)
    A = Axis(A0.n, lambda i: to_bool(s(i)))
    r = Arr([A], I, lambda i: i); r.identity = True; r.stamp0 = ctx.next_stamp()
    return (r,)
@ext('numpy.where', 'numpy.nonzero')
def _where(ctx, args, kw):
    if len(args) == 1: return nonzero(ctx, args[0])
    return emap(ctx, lambda c, x, y: s_if(to_bool(c), x, y), lambda *s: join_sort(*s[1:]), *args)
@ext('numpy.ix_')
def _ix(ctx, args, kw): return Ix(list(args))
@ext('numpy.errstate')
def _errstate(ctx, args, kw): return Opaque('errstate')
def enter(ctx, v): return v
def leave(ctx, v): pass
@ext('numpy.delete')
def _delete(ctx, args, kw):
    a, k, ax = to_arr(ctx, args[0]), args[1], arg(args, kw, 2, 'axis')
    if isinstance(k, Lst) and getattr(k, 'gset', None) is not None and a.ndim == 1:
        s, gs = a.snap(), k.gset
        r = Arr([Axis(a.axes[0].n, lambda i: z3.Not(z3.Select(gs, i)))], a.sort, lambda i: s(i))
        i = fresh('id', I)
        r.identity = z3.eq(simp(s(i)), i); r.stamp0 = ctx.next_stamp()
        return r
    if is_scalar(k):
        axn = 0 if ax is None and a.ndim == 1 else concrete(ax)
        if axn is None: raise Unsupported('delete without axis')
        i0 = norm_index(ctx, k, a.axes[axn].n); s = a.snap()
        axes = [Axis(simp(to_int(A.n) - 1)) if p == axn else A for p, A in enumerate(a.axes)]
        return new(ctx, axes, a.sort, lambda *i: s(*[s_if(x < to_int(i0), x, simp(x + 1)) if p == axn else x for p, x in enumerate(i)]))
    raise Unsupported('numpy.delete')
@ext('numpy.vstack', 'numpy.hstack', 'numpy.concatenate', 'numpy.append', 'numpy.column_stack', 'numpy.r_')
def _stack(ctx, args, kw): raise Unsupported('stacking')
def _concat1(ctx, args, kw):
    xs = [to_arr(ctx, x) for x in ctx.concrete_seq(args[0])]
    if any(x.ndim != 1 for x in xs): raise Unsupported('concatenate of matrices')
    so = join_sort(*[x.sort for x in xs])
    l = concat(ctx, *[Lst(None, x.axes[0].n, x.snap(), x.sort) if x.axes[0].mask is None else _bad('concatenate of masked arrays') for x in xs])
    f = l.f
    return new(ctx, [l.n], so, lambda i: f(i))
def _bad(m): raise Unsupported(m)
EXT['numpy.concatenate'] = EXT['numpy.hstack'] = _concat1
@ext('numpy.vstack')
def _vstack(ctx, args, kw):
    xs = [_atleast2(ctx, [x], {}) for x in ctx.concrete_seq(args[0])]
    if any(x.ndim != 2 or x.axes[0].mask is not None or x.axes[1].mask is not None for x in xs): raise Unsupported('vstack')
    for x in xs[1:]: check_dim(ctx, x.axes[1].n, xs[0].axes[1].n)
    so = join_sort(*[x.sort for x in xs]); fs = [x.snap() for x in xs]; ns = [to_int(x.axes[0].n) for x in xs]
    def fn(i, j):
        off = simp(sum(ns[:-1], z3.IntVal(0)))
        r = coerce(fs[-1](simp(i - off), j), so)
        for p in range(len(xs) - 2, -1, -1):
            end, off = off, simp(off - ns[p])
            r = s_if(i < end, coerce(fs[p](simp(i - off), j), so), r)
        return r
    return new(ctx, [simp(sum(ns, z3.IntVal(0))), xs[0].axes[1]], so, fn)
@ext('numpy.atleast_2d')
def _atleast2(ctx, args, kw):
    if len(args) != 1: raise Unsupported('atleast_2d')
    a = to_arr(ctx, args[0]); s = a.snap()
    if a.ndim >= 2: return a
    if a.ndim == 1: return getitem(ctx, a, (None, slice(None)))
    return new(ctx, [1, 1], a.sort, lambda i, j: s())
@ext('numpy.tile')
def _tile(ctx, args, kw):
    a = to_arr(ctx, args[0]); reps = list(shape_arg(ctx, arg(args, kw, 1, 'reps'))); s = a.snap()
    if len(reps) < a.ndim: reps = [1] * (a.ndim - len(reps)) + reps
    off = len(reps) - a.ndim; axes, kinds = [], []
    for q, r in enumerate(reps):
        A = a.axes[q - off] if q >= off else Axis(1)
        if concrete(r) == 1: axes.append(A); kinds.append('id')
        elif A.mask is None and concrete(A.n) == 1: axes.append(Axis(r)); kinds.append('one')
        else: raise Unsupported('tile of an axis of length other than one')
    return new(ctx, axes, a.sort, lambda *i: s(*[x if k == 'id' else z3.IntVal(0) for x, k in list(zip(i, kinds))[off:]]))
EXT['numpy.append'] = lambda ctx, args, kw: _concat1(ctx, [(to_arr(ctx, args[0]), to_arr(ctx, args[1]) if not is_scalar(args[1]) else Lst([args[1]]))], {})
def _isclose(ctx, args, kw):
    a, b = args[0], args[1]
    rt, at = to_real(arg(args, kw, 2, 'rtol', Fraction(1, 10 ** 5))), to_real(arg(args, kw, 3, 'atol', Fraction(1, 10 ** 8)))
    def f(x, y):
        if isinstance(x, Cpx) or isinstance(y, Cpx): raise Unsupported('closeness of complex numbers')
        x, y = to_real(x), to_real(y)
        return z3.And(x - y <= at + rt * z3.If(y >= 0, y, -y), y - x <= at + rt * z3.If(y >= 0, y, -y))
    return emap(ctx, f, lambda *s: B, a, b)
EXT['numpy.isclose'] = _isclose
@ext('numpy.allclose')
def _allclose(ctx, args, kw): return reduce_bool(ctx, _isclose(ctx, args, kw), True)
@ext('numpy.array_equal')
def _array_equal(ctx, args, kw): raise Unsupported('array_equal')
@ext('numpy.multiply.outer')
def _mouter(ctx, args, kw): return _outer(ctx, args, kw)

@ext('builtins.len')
def _len(ctx, args, kw):
    v = args[0]
    if hasattr(v, 'v_len'): return v.v_len(ctx)
    if isinstance(v, Lst): return v.length()
    if isinstance(v, (tuple, str, dict, frozenset)): return len(v)
    if isinstance(v, Arr):
        if v.ndim == 0: raise PyRaise('TypeError')
        return axis_len(ctx, v.axes[0])
    if isinstance(v, (SRange, Iter)): return iterate(ctx, v)[0]
    if isinstance(v, Obj) and isinstance(v.cls, NTClass): return len(v.cls.fields)
    raise Unsupported('len of %r' % (v,))
@ext('builtins.range')
def _range(ctx, args, kw):
    a = [x if not (is_z3(x) and x.sort().eq(R)) else _bad('range of a real') for x in args]
    if len(a) == 1: return SRange(0, a[0], 1)
    if len(a) == 2: return SRange(a[0], a[1], 1)
    return SRange(*a)
@ext('builtins.enumerate')
def _enum(ctx, args, kw):
    n, at = iterate(ctx, args[0]); st = arg(args, kw, 1, 'start', 0)
    return Iter(n, lambda i: (s_bin('Add', i if not is_z3(i) else i, st), at(i)))
@ext('builtins.zip')
def _zip(ctx, args, kw):
    its = [iterate(ctx, a) for a in args]
    ns = [n for n, _ in its]
    n = ns[0]
    for m in ns[1:]:
        if dim_eq(ctx, n, m) is True: continue
        n = s_min(n, m)
    return Iter(n, lambda i: tuple(at(i) for _, at in its))
@ext('builtins.reversed')
def _rev(ctx, args, kw):
    n, at = iterate(ctx, args[0])
    nn = concrete(n)
    return Iter(n, lambda i: at(simp(to_int(n) - 1 - to_int(i))) if not isinstance(nn, int) or not isinstance(concrete(i), int) else at(nn - 1 - concrete(i)))
@ext('builtins.map')
def _map(ctx, args, kw):
    f, (n, at) = args[0], iterate(ctx, args[1])
    return Iter(n, lambda i: ctx.call(f, [at(i)], {}))
@ext('builtins.abs')
def _babs(ctx, args, kw): return emap(ctx, s_abs, lambda s: s, args[0])
def _bm(mx):
    def f(ctx, args, kw):
        if len(args) == 1:
            n, at = iterate(ctx, args[0])
            if isinstance(concrete(n), int): args = [at(i) for i in range(concrete(n))]
            else: return reduce_ext(ctx, args[0], mx)
        r = args[0]
        for v in args[1:]: r = s_max(r, v) if mx else s_min(r, v)
        return r
    return f
EXT['builtins.min'], EXT['builtins.max'] = _bm(False), _bm(True)
@ext('builtins.int', 'numpy.int64', 'numpy.int32')
def _int(ctx, args, kw):
    x = args[0] if args else 0
    if isinstance(x, Arr) and x.ndim == 0: x = x.get()
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if is_num(x): return int(x)
    if is_z3(x): return trunc_int(x) if x.sort().eq(R) else to_int(x)
    raise Unsupported('int(%r)' % (x,))
@ext('builtins.float', 'numpy.float64')
def _float(ctx, args, kw):
    x = args[0]
    if isinstance(x, str): return Opaque(x)
    if is_num(x): return frac(x)
    return to_real(x)
@ext('builtins.bool')
def _bool(ctx, args, kw): return ctx.truth(args[0])
@ext('builtins.list')
def _list(ctx, args, kw):
    if not args: return ctx.stamped(Lst([]))
    v = args[0]
    if hasattr(v, 'v_list'): return v.v_list(ctx)
    n, at = iterate(ctx, v)
    if isinstance(concrete(n), int): return ctx.stamped(Lst([at(i) for i in range(concrete(n))]))
    if isinstance(v, Lst): return list_copy(ctx, v)
    if isinstance(v, Arr): return tolist(ctx, v)
    p = at(fresh('p', I)); so = scalar_sort(p)
    if so is None: raise Unsupported('list of %r' % (p,))
    return ctx.stamped(Lst(None, n, lambda i: coerce(at(i), so), so))
@ext('builtins.tuple')
def _tuple(ctx, args, kw): return tuple(ctx.concrete_seq(args[0])) if args else ()
@ext('builtins.set', 'builtins.frozenset')
def _set(ctx, args, kw):
    if not args: return frozenset()
    vs = ctx.concrete_seq(args[0])
    if not all(isinstance(v, (str, int, tuple)) for v in vs):
        if all(is_scalar(v) for v in vs): return Distinct(vs)
        raise Unsupported('set of symbolic values')
    return frozenset(vs)
class Distinct:
    """set of given scalars of which only the cardinality is used"""
    def __init__(self, vs): self.vs = vs
    def v_len(self, ctx):
        n = 0
        for i, v in enumerate(self.vs): n = n + z3.If(z3.Or([to_bool(cmp_eq(v, w)) for w in self.vs[:i]] + [z3.BoolVal(False)]), 0, 1)
        return simp(n)
@ext('builtins.dict')
def _dict(ctx, args, kw):
    d = dict(args[0]) if args else {}
    d.update(kw); return d
@ext('builtins.print', 'warnings.warn')
def _print(ctx, args, kw): return None
@ext('builtins.str', 'builtins.repr')
def _str(ctx, args, kw): return args[0] if args and isinstance(args[0], str) else StrV()
@ext('builtins.callable')
def _callable(ctx, args, kw):
    return isinstance(args[0], (FuncVal, Ext, PyFn, BoundExt)) or hasattr(args[0], 'v_call')
@ext('builtins.getattr')
def _getattr(ctx, args, kw):
    d = args[2] if len(args) > 2 else None
    try: return getattr_(ctx, args[0], args[1])
    except (PyRaise, Unsupported):
        if len(args) > 2: return d
        raise
@ext('builtins.hasattr')
def _hasattr(ctx, args, kw):
    if isinstance(args[0], Obj): return args[1] in args[0].attrs
    raise Unsupported('hasattr')
@ext('builtins.isinstance')
def _isinstance(ctx, args, kw):
    o, t = args
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        n = x.name if isinstance(x, Ext) else getattr(x, 'qual', '')
        if n in ('builtins.bool', 'numpy.bool_') and (isinstance(o, bool) or is_z3(o) and o.sort().eq(B)): return True
        if n in ('builtins.int', 'numpy.integer', 'numbers.Integral') and (isinstance(o, (int, bool)) or is_z3(o) and o.sort().eq(I)): return True
        if n in ('builtins.float', 'numpy.floating', 'numbers.Real') and (isinstance(o, Fraction) or is_z3(o) and o.sort().eq(R)): return True
        if n == 'builtins.str' and isinstance(o, (str, StrV)): return True
        if n == 'builtins.list' and isinstance(o, Lst): return True
        if n == 'builtins.tuple' and isinstance(o, tuple): return True
        if n == 'builtins.dict' and isinstance(o, dict): return True
        if n == 'numpy.ndarray' and isinstance(o, Arr): return True
        if n == 'numpy.random.RandomState' and isinstance(o, Rng): return True
    return False
@ext('builtins.type')
def _type(ctx, args, kw):
    o = args[0]
    if isinstance(o, bool) or is_z3(o) and o.sort().eq(B): return Ext('builtins.bool')
    if isinstance(o, int) or is_z3(o) and o.sort().eq(I): return Ext('builtins.int')
    if isinstance(o, Fraction) or is_z3(o) and o.sort().eq(R): return Ext('builtins.float')
    for c, n in ((str, 'str'), (tuple, 'tuple'), (dict, 'dict')):
        if isinstance(o, c): return Ext('builtins.' + n)
    if isinstance(o, Obj) and isinstance(o.cls, ClassVal): return o.cls
    raise Unsupported('type of %r' % (o,))
@ext('builtins.sorted')
def _sorted(ctx, args, kw):
    n, at = iterate(ctx, args[0])
    if isinstance(concrete(n), int):
        vs = [at(i) for i in range(concrete(n))]
        if all(pynum(v) or isinstance(v, str) for v in vs): return Lst(sorted(vs))
    raise Unsupported('sorted')
@ext('time.time', 'time.perf_counter', 'time.process_time', 'time.monotonic')
def _time(ctx, args, kw):
    t = fresh('time', R)
    last = ctx.ghost.get('time')
    if last is not None: ctx.assume(t >= last)
    ctx.ghost['time'] = t
    return t
@ext('collections.namedtuple')
def _nt(ctx, args, kw):
    f = args[1]
    if isinstance(f, str): f = f.replace(',', ' ').split()
    else: f = ctx.concrete_seq(f)
    return NTClass(args[0], f)
@ext('numpy.finfo')
def _finfo(ctx, args, kw):
    if not (isinstance(args[0], DType) and args[0].sort.eq(R)) and getattr(args[0], 'name', None) not in ('builtins.float', 'numpy.float64', 'numpy.float_', 'numpy.double'): raise Unsupported('finfo of %r' % (args[0],))
    e = z3.Real('EPS'); ctx.assume([e > 0, e < z3.RealVal('1/1000000')])
    return Obj(NTClass('finfo', ['eps']), {'eps': e})
@ext('numpy.isscalar')
def _isscalar(ctx, args, kw): return is_scalar(args[0])
@ext('numpy.shape')
def _shape(ctx, args, kw): return shape_of(ctx, to_arr(ctx, args[0]))
@ext('numpy.transpose')
def _transpose(ctx, args, kw): return transpose(ctx, to_arr(ctx, args[0]))
@ext('numpy.cumsum')
def _cumsum(ctx, args, kw):
    a = to_arr(ctx, args[0])
    if a.ndim != 1 or a.axes[0].mask is not None: raise Unsupported('cumsum')
    s = a.snap()
    if a.sort.eq(I):
        c = fresh_fn('cumsum', I, I)
        ctx.assume(c(z3.IntVal(0)) == s(z3.IntVal(0)))
        ctx.assume(All(lambda i: z3.Implies(z3.And(i >= 1, i < to_int(a.axes[0].n)), c(i) == c(simp(i - 1)) + s(i))))
        r = new(ctx, a.axes, I, lambda i: c(i)); r.cumsum_of = s
        return r
    return new(ctx, a.axes, R, lambda i: mk_sum(simp(i + 1), s))
@ext('numpy.prod')
def _prod(ctx, args, kw):
    a = args[0]
    ax = arg(args, kw, 1, 'axis')
    if isinstance(a, Arr) and (a.ndim > 1 or not isinstance(concrete(a.axes[0].n), int) or a.axes[0].mask is not None): return reduce_prod(ctx, a, ax)
    n, at = iterate(ctx, a)
    if not isinstance(concrete(n), int): return reduce_prod(ctx, to_arr(ctx, a), ax)
    r = 1
    for i in range(concrete(n)): r = s_bin('Mult', r, at(i))
    return r

# ------------------------------------------------------------------ methods
def list_copy(ctx, o):
    l = Lst(list(o.items) if o.concrete else None, o.n, o.f, o.sort)
    if getattr(o, 'gset', None) is not None: l.gset = o.gset
    return ctx.stamped(l)

def tolist(ctx, a):
    if a.ndim == 0: return a.get()
    if a.ndim == 1:
        A, s = a.axes[0], a.snap()
        if A.mask is not None:
            l = Lst(None, axis_len(ctx, A), None, a.sort)
            pos = fresh_fn('pos', I, I)
            n = l.n
            ctx.assume(All(lambda q: z3.Implies(z3.And(q >= 0, q < to_int(n)), A.dom(pos(q)))))
            ctx.assume(All(lambda q, r: z3.Implies(z3.And(q >= 0, q < r, r < to_int(n)), pos(q) < pos(r)), 2))
            l.f = lambda i: s(pos(to_int(i))); l.masked = (A, s, pos)
            return ctx.stamped(l)
        if isinstance(concrete(A.n), int):
            return ctx.stamped(Lst([s(z3.IntVal(i)) for i in range(concrete(A.n))], sort=a.sort))
        l = Lst(None, A.n, lambda i: s(i), a.sort)
        if getattr(a, 'gset', None) is not None: l.gset = a.gset
        return ctx.stamped(l)
    l = Lst(None, a.axes[0].n, None, None)
    s = copy_arr(ctx, a)
    l.f = lambda i: tolist(ctx, getitem(ctx, s, i)); l.rows = s
    return ctx.stamped(l)

def call_method(ctx, o, name, args, kw):
    if hasattr(o, 'v_method'):
        r = o.v_method(ctx, name, args, kw)
        if r is not NotImplemented: return r
    if isinstance(o, Rng): return tracked(lambda a, k: rng_method(ctx, o, name, a, k), 'the generator method ' + name)(args, kw)
    if isinstance(o, Lst): return tracked(lambda a, k: list_method(ctx, o, name, a, k), 'the list method ' + name)(args, kw)
    if isinstance(o, Arr): return tracked(lambda a, k: arr_method(ctx, o, name, a, k), 'the array method ' + name)(args, kw)
    if isinstance(o, dict): return dict_method(ctx, o, name, args, kw)
    if isinstance(o, (str, StrV)): return str_method(ctx, o, name, args, kw)
    if isinstance(o, frozenset):
        if name in ('intersection', 'union', 'difference', 'issubset'):
            return getattr(o, name)(*[frozenset(a) if isinstance(a, (dict, frozenset)) else frozenset(ctx.concrete_seq(a)) for a in args])
    if isinstance(o, tuple) and name == 'index':
        for i, x in enumerate(o):
            if ctx.truth(compare(ctx, 'Eq', x, args[0])): return i
        raise PyRaise('ValueError')
    if isinstance(o, Obj) and isinstance(o.cls, NTClass):
        if name == '_replace':
            bad = set(kw) - set(o.cls.fields)
            if bad: raise PyRaise('ValueError', 'unexpected field %s' % bad)
            return Obj(o.cls, dict(o.attrs, **kw))
        if name == '_asdict': return dict(o.attrs)
    if is_scalar(o):
        if name == 'item': return o
        if name == 'astype':
            so = dtype_sort(ctx, args[0]); return coerce(o, so)
        if name == 'copy': return o
        if name in ('conj', 'conjugate'): return Cpx(o.re, s_bin('Sub', 0, o.im)) if isinstance(o, Cpx) else o
        if name == 'tolist': return o
    if isinstance(o, Opaque): raise Unsupported('method %s of unknown value' % name)
    if isinstance(o, SRange) and name == 'index': raise Unsupported('range.index')
    raise Unsupported('method %s of %r' % (name, o))

def dict_method(ctx, o, name, args, kw):
    if name == 'get': return o.get(args[0], args[1] if len(args) > 1 else None)
    if name == 'pop':
        if args[0] in o: return o.pop(args[0])
        if len(args) > 1: return args[1]
        raise PyRaise('KeyError')
    if name == 'keys': return frozenset(o)
    if name == 'items': return tuple((k, v) for k, v in o.items())
    if name == 'values': return tuple(o.values())
    if name == 'update':
        for a in args: o.update(a)
        o.update(kw); return None
    if name == 'copy': return dict(o)
    if name == 'setdefault': return o.setdefault(args[0], args[1] if len(args) > 1 else None)
    raise Unsupported('dict.%s' % name)

def str_method(ctx, o, name, args, kw):
    if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and not kw:
        try: return getattr(o, name)(*args)
        except Exception: raise Unsupported('str.%s' % name)
    if name in ('format', 'join', 'replace', 'ljust'):
        if name == 'join' and args and isinstance(args[0], Lst) and args[0].concrete and all(isinstance(x, str) for x in args[0].items) and isinstance(o, str):
            return o.join(args[0].items)
        return StrV()
    raise Unsupported('str.%s' % name)

def list_method(ctx, o, name, args, kw):
    if name == 'copy': return list_copy(ctx, o)
    if name == 'append':
        v = args[0]
        ctx.note_write(o, scalar_sort(v))
        if o.concrete: o.items.append(v); return None
        if scalar_sort(v) is None:
            hook = getattr(ctx.contract, 'on_append', None)
            if hook: return hook(ctx, o, v)
            raise Unsupported('append of %r to a symbolic list' % (v,))
        f, n = o.f, to_int(o.n)
        if o.sort is not None and o.sort.eq(I) and scalar_sort(v).eq(R): raise Unsupported('list element type changes')
        so = o.sort
        if getattr(o, 'gset', None) is not None: o.gset = z3.Store(o.gset, to_int(v), True)
        o.f = lambda i: s_if(i == n, coerce(v, so), f(i))
        o.n = simp(n + 1)
        return None
    if name == 'extend':
        r = concat(ctx, o, args[0] if isinstance(args[0], (Lst, tuple)) else _list(ctx, [args[0]], {}))
        ctx.note_write(o)
        o.items, o.n, o.f, o.sort = r.items, r.n, r.f, r.sort
        return None
    if name == 'index':
        x = args[0]
        if o.concrete:
            for i, v in enumerate(o.items):
                if ctx.truth(compare(ctx, 'Eq', v, x)): return i
            raise PyRaise('ValueError')
        f, n = o.f, to_int(o.n)
        k = fresh('index', I)
        if getattr(o, 'gset', None) is not None:
            ctx.check('list.index finds the element', z3.Select(o.gset, to_int(x)), kind='definedness')
            ctx.assume([k >= 0, k < n, f(k) == to_int(x)])
            ctx.assume(All(lambda j: z3.Implies(z3.And(j >= 0, j < k), z3.Not(cmp_eq(f(j), x)))))
            return k
        saved = list(ctx.hyps)
        ctx.hyps.append(All(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.Not(cmp_eq(f(j), x)))))
        w = ctx.contract.index_witness(ctx, o, x) if hasattr(ctx.contract, 'index_witness') else None
        ctx.check('list.index finds the element', z3.BoolVal(False), kind='definedness')
        ctx.hyps = saved
        ctx.assume([k >= 0, k < n, cmp_eq(f(k), x)])
        ctx.assume(All(lambda j: z3.Implies(z3.And(j >= 0, j < k), z3.Not(cmp_eq(f(j), x)))))
        return k
    if name == 'remove':
        if o.concrete:
            for i, v in enumerate(o.items):
                if ctx.truth(compare(ctx, 'Eq', v, args[0])):
                    ctx.note_write(o); del o.items[i]; return None
            raise PyRaise('ValueError')
        k = list_method(ctx, o, 'index', args, {})
        delitem(ctx, o, k); return None
    if name == 'pop':
        n = o.length()
        k = norm_index(ctx, args[0] if args else -1, n, 'list index')
        v = getitem(ctx, o, k)
        delitem(ctx, o, k); return v
    if name == 'insert' and o.concrete and isinstance(concrete(args[0]), int):
        ctx.note_write(o); o.items.insert(concrete(args[0]), args[1]); return None
    if name == 'reverse' and o.concrete:
        ctx.note_write(o); o.items.reverse(); return None
    if name == 'clear':
        ctx.note_write(o); o.items = []; return None
    raise Unsupported('list.%s' % name)

def arr_method(ctx, a, name, args, kw):
    if name == 'copy': return copy_arr(ctx, a)
    if name == 'dot': return dot(ctx, a, args[0])
    if name == 'sum': return reduce_sum(ctx, a, arg(args, kw, 0, 'axis'))
    if name == 'mean':
        if arg(args, kw, 0, 'axis') is not None: raise Unsupported('mean along an axis')
        n = getattr_(ctx, a, 'size')
        check_nonzero(ctx, n)
        return binary(ctx, 'Div', reduce_sum(ctx, a), n)
    if name == 'max': return reduce_ext(ctx, a, True, arg(args, kw, 0, 'axis'))
    if name == 'min': return reduce_ext(ctx, a, False, arg(args, kw, 0, 'axis'))
    if name == 'all': return reduce_bool(ctx, a, True)
    if name == 'any': return reduce_bool(ctx, a, False)
    if name == 'tolist': return tolist(ctx, a)
    if name in ('ravel', 'flatten', 'squeeze') and a.ndim > 1 and not args and not kw:
        big = [i for i, x in enumerate(a.axes) if not (concrete(x.n) == 1 and x.mask is None)]
        if len(big) == 1:
            r = index_arr(ctx, a, tuple(slice(None) if i in big else 0 for i in range(a.ndim)))
            return copy_arr(ctx, r) if name == 'flatten' else r
    if name in ('ravel', 'flatten') and a.ndim == 1: return a if name == 'ravel' else copy_arr(ctx, a)
    if name == 'diagonal': return diag_view(ctx, a)
    if name == 'trace': return _trace(ctx, [a], {})
    if name == 'astype':
        so = dtype_sort(ctx, args[0]); s = a.snap()
        return new(ctx, a.axes, so, lambda *i: s(*i))
    if name in ('conj', 'conjugate'): return EXT['numpy.conj'](ctx, [a], {})
    if name == 'nonzero': return nonzero(ctx, a)
    if name == 'transpose' and not args: return transpose(ctx, a)
    if name == 'item' and not args and all(concrete(x.n) == 1 for x in a.axes): return a.get(*[0] * a.ndim)
    if name == 'fill': write(ctx, a, lambda *i: z3.BoolVal(True), lambda *i: args[0]); return None
    if name == 'reshape':
        sh = list(args[0]) if len(args) == 1 and isinstance(args[0], tuple) else list(args)
        cs = [concrete(x) for x in sh]
        if a.ndim == 1 and len(sh) == 2 and cs[0] == -1 and cs[1] == 1: return index_arr(ctx, a, (slice(None), None))
        if a.ndim == 1 and len(sh) == 2 and cs[0] == 1 and cs[1] == -1: return index_arr(ctx, a, (None, slice(None)))
        if a.ndim == 2 and len(sh) == 1 and cs[0] == -1 and concrete(a.axes[1].n) == 1: return index_arr(ctx, a, (slice(None), 0))
        raise Unsupported('reshape')
    if name == 'clip': return _clip(ctx, [a] + list(args), kw)
    raise Unsupported('ndarray.%s' % name)

# ------------------------------------------------------------------ random generators
def selection_of(ctx, n):
    """the selection whose number of elements is n"""
    if not is_z3(n): return None
    for c, A in ctx.counts:
        if z3.eq(simp(to_int(n)), simp(to_int(c))): return A
def unif_arr(ctx, dims, method):
    if getattr(ctx.contract, 'reindex', False) and len(dims) == 1:
        # as many independent uniforms as selected positions: one per selected position
        A = selection_of(ctx, dims[0])
        if A is not None:
            f = fresh_fn('uv', I, R)
            ctx.assume(All(lambda i: z3.And(f(i) >= 0, f(i) < 1)))
            a = new(ctx, [A], R, lambda i: f(i))
            d = Draw('rand', f=f, dims=dims, arr=a); ctx.draws.append(d); ctx.contract.on_draw(ctx, d)
            return a
    f = fresh_fn('uv', *([I] * len(dims) + [R]))
    ctx.assume(All(lambda *i: z3.And(f(*i) >= 0, f(*i) < 1), len(dims)))
    a = new(ctx, dims, R, lambda *i: f(*i))
    d = Draw('rand', f=f, dims=dims, arr=a)
    ctx.draws.append(d); ctx.contract.on_draw(ctx, d)
    return a

def rng_method(ctx, g, name, args, kw):
    if ctx.pure is not None: raise Unsupported('random draw in an element expression')
    if name in ('rand', 'random_sample', 'random', 'uniform', 'ranf'):
        dims = list(args)
        if name != 'rand':
            if name == 'uniform':
                lo, hi = arg(args, kw, 0, 'low', 0), arg(args, kw, 1, 'high', 1)
                if concrete(lo) != 0 or concrete(hi) != 1: raise Unsupported('uniform(low, high)')
                sz = arg(args, kw, 2, 'size')
            else: sz = arg(args, kw, 0, 'size')
            dims = [] if sz is None else shape_arg(ctx, sz)
        if not dims:
            u = ctx.new_uniform()
            d = Draw('u', u=u); ctx.draws.append(d); ctx.contract.on_draw(ctx, d)
            return u
        return unif_arr(ctx, dims, name)
    if name == 'choice':
        a = arg(args, kw, 0, 'a'); size = arg(args, kw, 1, 'size'); rep = arg(args, kw, 2, 'replace', True); p = arg(args, kw, 3, 'p')
        if size is not None:
            return generic_draw(ctx, 'choice', args, kw)
        if isint(a) and is_scalar(a): a = SRange(0, a, 1)
        v = to_arr(ctx, a)
        A, s = v.axes[0], v.snap()
        i = fresh('draw', I)
        if p is None:
            n = axis_len(ctx, A)
            ctx.check('random choice from a nonempty set', to_int(n) >= 1, kind='definedness')
            pf = lambda j: 1 / to_real(n)
        else:
            p = to_arr(ctx, p)
            join_axis(ctx, [A, p.axes[0]])
            if (A.mask is None) != (p.axes[0].mask is None): raise Unsupported('choice weights masked differently')
            ps = p.snap(); pf = lambda j: to_real(ps(j))
        ctx.assume(A.dom(i))
        ctx.assume(pf(i) > 0)
        d = Draw('choice', i=i, value=s(i), axis=A, values=s, p=pf, uniform=p is None)
        ctx.draws.append(d)
        ctx.weight.append(pf(i))
        r = ctx.contract.on_draw(ctx, d)
        return s(i) if r is None else r
    if name == 'randint':
        lo, hi, size = arg(args, kw, 0, 'low'), arg(args, kw, 1, 'high'), arg(args, kw, 2, 'size')
        if hi is None: lo, hi = 0, lo
        if size is not None: return generic_draw(ctx, 'randint', args, kw)
        ctx.check('random integer from a nonempty range', to_int(lo) < to_int(hi), kind='definedness')
        i = fresh('draw', I)
        ctx.assume([i >= to_int(lo), i < to_int(hi)])
        w = 1 / z3.ToReal(simp(to_int(hi) - to_int(lo)))
        ctx.weight.append(w)
        d = Draw('randint', i=i, lo=to_int(lo), hi=to_int(hi)); ctx.draws.append(d)
        ctx.contract.on_draw(ctx, d)
        return i
    return generic_draw(ctx, name, args, kw)

def generic_draw(ctx, name, args, kw):
    d = Draw(name, args=list(args), kw=dict(kw))
    r = ctx.contract.on_draw(ctx, d)
    if r is None: raise Unsupported('random draw %s' % name)
    ctx.draws.append(d)
    return r
