"""numpy.poly1d: coefficients are a list of known length (low degree first), the degree possibly unknown"""
from .base import *

def q(x): return to_real(x) if is_z3(x) else z3.RealVal(str(frac(x)))

def power(x, n):
    r = z3.RealVal(1)
    for _ in range(n): r = r * x
    return r

class Poly:
    """sum of cs[k] x^k; order: degree when it is not the length of the list (term or None); fn: value at a point (uninterpreted potentials)"""
    ro = True
    def __init__(self, cs, order=None, fn=None, tag=None):
        self.cs, self.order, self.fn, self.tag = [q(c) for c in cs], order, fn, tag
    def coef(self, k): return self.cs[k] if k < len(self.cs) else z3.RealVal(0)
    def degree(self, ctx):
        if self.order is not None: return self.order
        k = len(self.cs) - 1
        while k > 0:
            c = concrete(self.cs[k])
            if is_z3(c):
                if not ctx.entailed(c != 0) is True: raise Unsupported('degree of a polynomial')
                return k
            if c != 0: return k
            k -= 1
        return 0
    def v_len(self, ctx): return self.degree(ctx)
    def v_getitem(self, ctx, k):
        if is_z3(k) and not isinstance(concrete(k), int):
            # entries beyond the list are unknown when the degree is
            r = fresh('coef', R) if self.order is not None else z3.RealVal(0)
            for j in range(len(self.cs)): r = z3.If(to_int(k) == j, self.cs[j], r)
            return z3.If(to_int(k) < 0, z3.RealVal(0), r)
        k = concrete(k)
        if not isinstance(k, int): raise Unsupported('coefficient index %r' % (k,))
        if k < 0: return 0
        if self.order is not None and k >= len(self.cs): raise Unsupported('coefficient %d' % k)
        return self.coef(k)
    def v_setitem(self, ctx, k, v): ctx.check('frame: the polynomial given is not modified', False, kind='frame')
    def v_iter(self, ctx):
        n = self.degree(ctx)
        return (to_int(n) + 1 if is_z3(n) else n + 1), lambda i: Opaque('coefficient')
    def v_getattr(self, ctx, name):
        if name in ('order', 'o'): return self.degree(ctx)
        if name in ('roots', 'r'): return Roots(self)
        if name in ('coeffs', 'coef', 'c', 'coefficients'): return Coefs(self)
        return NotImplemented
    def at(self, x):
        x = to_real(x)
        if self.fn is not None: return self.fn(x)
        if self.order is not None: raise Unsupported('value of a polynomial of unknown degree')
        r, p = self.cs[0], z3.RealVal(1)
        for c in self.cs[1:]: p = p * x; r = r + c * p
        return r
    @staticmethod
    def shift(P, x0):
        """polynomial x -> P(x - x0)"""
        from math import comb
        n = len(P.cs)
        return Poly([z3.Sum([P.cs[k] * comb(k, j) * power(-x0, k - j) for k in range(j, n)]) for j in range(n)])
    def v_call(self, ctx, args, kw):
        if kw or len(args) != 1: raise Unsupported('arguments of a polynomial')
        x = args[0]
        if isinstance(x, Poly): raise Unsupported('composition of polynomials')
        return lib.emap(ctx, lambda y: self.at(y), R, x)
    def v_method(self, ctx, name, args, kw):
        if name == 'deriv':
            m = lib.arg(args, kw, 0, 'm', 1)
            if not isinstance(concrete(m), int) or concrete(m) < 0 or self.order is not None: raise Unsupported('derivative')
            cs = self.cs
            for _ in range(concrete(m)): cs = [k * c for k, c in enumerate(cs)][1:] or [0]
            return Poly(cs)
        raise Unsupported('method %s of a polynomial' % name)
    def v_binop(self, ctx, op, y, rev):
        if self.fn is not None: return NotImplemented
        if isinstance(y, Poly):
            if y.order is not None or self.order is not None: raise Unsupported('arithmetic on a polynomial of unknown degree')
            a, b = (y, self) if rev else (self, y)
            n = max(len(a.cs), len(b.cs))
            if op == 'Add': return Poly([a.coef(k) + b.coef(k) for k in range(n)])
            if op == 'Sub': return Poly([a.coef(k) - b.coef(k) for k in range(n)])
            if op == 'Mult':
                r = [z3.RealVal(0)] * (len(a.cs) + len(b.cs) - 1)
                for i, u in enumerate(a.cs):
                    for j, v in enumerate(b.cs): r[i + j] = simp(r[i + j] + u * v)
                return Poly(r)
            raise Unsupported('operator %s on polynomials' % op)
        if not lib.is_scalar(y): return NotImplemented
        if op == 'Pow' and not rev:
            n = concrete(y)
            if not isinstance(n, int) or n < 0: raise Unsupported('power of a polynomial')
            r = Poly([1])
            for _ in range(n): r = r.v_binop(ctx, 'Mult', self, False)
            return r
        y = q(y)
        if op == 'Mult': return Poly([y * c for c in self.cs], self.order)
        if op == 'Add': return Poly([self.cs[0] + y] + self.cs[1:], self.order)
        if op == 'Sub': return Poly([y - self.cs[0]] + [-c for c in self.cs[1:]], self.order) if rev else Poly([self.cs[0] - y] + self.cs[1:], self.order)
        if op == 'Div' and not rev:
            lib.check_nonzero(ctx, y)
            return Poly([c / y for c in self.cs], self.order)
        raise Unsupported('operator %s on a polynomial' % op)

class Coefs:
    """coefficients of a polynomial, highest degree first (or reversed)"""
    ro = True
    def __init__(self, p, rev=False): self.p, self.rev = p, rev
    def v_getitem(self, ctx, k):
        if isinstance(k, slice) and k == slice(None, None, -1): return Coefs(self.p, not self.rev)
        if isinstance(k, slice) and self.rev and k.stop is None and isinstance(k.start, int) and isinstance(k.step or 1, int) and k.start >= 0 and (k.step or 1) > 0:
            # entries beyond the degree are missing; they are replaced by zeros
            return lib.to_arr(ctx, Lst([self.p.coef(i) for i in range(k.start, len(self.p.cs), k.step or 1)]))
        return NotImplemented
    def v_iter(self, ctx):
        # leading zeros are dropped by poly1d; dropping or keeping them changes nothing in a sum over the coefficients low degree first
        if self.rev and self.p.order is None: return len(self.p.cs), lambda i: self.p.cs[concrete(i)]
        n = self.p.degree(ctx)
        if not self.rev and self.p.order is None and isinstance(n, int): return n + 1, lambda i: self.p.cs[n - concrete(i)]
        return to_int(n) + 1, lambda i: Opaque('coefficient')

class Roots:
    """roots of a polynomial of known coefficients: all of them (complex), or the real ones, or the real ones above a bound"""
    ro = True
    def __init__(self, p, kind='all', lo=None): self.p, self.kind, self.lo = p, kind, lo
    def v_ext(self, ctx, name, args, kw):
        if kw or len(args) != 1: raise Unsupported('%s of roots' % name)
        if name == 'numpy.isreal' and self.kind == 'all': return RootMask(self, 'real')
        if name == 'numpy.max' and self.kind == 'real': return self.one(ctx, 'largest')
        if name == 'numpy.min' and self.kind == 'real': return self.one(ctx, 'smallest')
        if name == 'numpy.sort' and self.kind == 'real':
            # exactly two real roots
            r, t = self.one(ctx, 'smallest'), self.one(ctx, 'largest')
            ctx.assume(r <= t)
            return lib.to_arr(ctx, Lst([r, t]))
        return NotImplemented
    def v_getattr(self, ctx, name):
        if name == 'real' and self.kind in ('real', 'bounded'): return self
        return NotImplemented
    def v_compare(self, ctx, op, y, rev):
        if self.kind == 'real' and op == ('Lt' if rev else 'Gt') and lib.is_scalar(y): return RootMask(self, 'bounded', to_real(y))
        return NotImplemented
    def v_getitem(self, ctx, k):
        if isinstance(k, RootMask):
            if k.src is not self and not (k.src.p is self.p and k.src.kind == self.kind): raise Unsupported('mask of other roots')
            return Roots(self.p, k.kind, k.lo)
        if self.kind in ('real', 'bounded') and concrete(k) in (0, -1): return self.one(ctx, 'root')
        raise Unsupported('indexing of roots')
    def one(self, ctx, what):
        x = fresh(what, R)
        ctx.assume(self.p.at(x) == 0)
        if self.kind == 'bounded': ctx.assume(x > self.lo)
        return x
class RootMask:
    ro = True
    def __init__(self, src, kind, lo=None): self.src, self.kind, self.lo = src, kind, lo

def poly1d(ctx, args, kw):
    if kw or len(args) != 1: raise Unsupported('options of poly1d')
    x = args[0]
    if isinstance(x, Poly): return x
    if lib.is_scalar(x): return Poly([x])
    if not (isinstance(x, (Lst, tuple)) and (isinstance(x, tuple) or x.concrete)): raise Unsupported('coefficients of a polynomial')
    its = list(x) if isinstance(x, tuple) else x.items
    return Poly(list(reversed(its)))

# ---- traces of powers of a tridiagonal matrix: monomials {(('a'|'b', shift), ...): coefficient}
def pmul(p, r):
    o = {}
    for m, c in p.items():
        for n, d in r.items():
            k = tuple(sorted(m + n)); o[k] = o.get(k, 0) + c * d
    return o
def padd(*ps):
    o = {}
    for p in ps:
        for m, c in p.items(): o[m] = o.get(m, 0) + c
    return {m: c for m, c in o.items() if c}
_powers = {}
def power_diag(k, j, unit=False):
    """(J^k)_jj of the doubly infinite tridiagonal matrix J, J_ll = a(l), J_{l,l+1} J_{l+1,l} = b(l) (superdiagonal b, subdiagonal 1), by the
    recursion of the matrix power; l is counted from the updated site"""
    row = {j: {(): 1}}
    for _ in range(k):
        new = {}
        for l, p in row.items():
            for t, f in ((l, (('a', l),)), (l + 1, (('b', l),)), (l - 1, ())):
                new[t] = padd(new.get(t, {}), pmul(p, {f: 1}))
        row = new
    return row.get(j, {})
def trace_coefs(k, site):
    """coefficients in x, by degree, of Tr J^k as a function of x = a(0) or b(0): sum over the diagonal entries within distance k of the site, those
    further away do not contain it (a closed walk of k steps from j stays within distance k/2 of j)"""
    key = (k, site)
    if key not in _powers:
        x, out = (site, 0), {}
        for j in range(-k, k + 2):
            for m, c in power_diag(k, j).items():
                d = sum(1 for v in m if v == x)
                if d: out.setdefault(d, {}); r = tuple(v for v in m if v != x); out[d][r] = out[d].get(r, 0) + c
        assert not any(x in [v for m in power_diag(k, j) for v in m] for j in (-k, k + 1) if k > 1)
        _powers[key] = out
    return _powers[key]
