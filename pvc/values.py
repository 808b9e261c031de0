"""Run-time values of the symbolic interpreter: arrays as index -> term functions, lists, objects, generators."""
import z3
from .terms import *

class PathEnd(Exception): pass
class Restart(Exception): pass
class MissingRole(Exception):
    def __init__(self, role): Exception.__init__(self, 'no local plays the role %r' % role); self.role = role
class ReturnEx(Exception):
    def __init__(self, value): self.value = value
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class PyRaise(Exception):
    def __init__(self, kind, msg=''): Exception.__init__(self, kind, msg); self.kind, self.msg = kind, msg

class _Undef:
    def __repr__(self): return '<undefined>'
UNDEF = _Undef()

class Axis:
    """an array dimension: positions 0..n-1, or (mask) the positions i of 0..n-1 with mask(i), in order"""
    __slots__ = ('n', 'mask', '_count')
    def __init__(self, n, mask=None): self.n, self.mask, self._count = n, mask, None
    def dom(self, i):
        i = to_int(i)
        c = [i >= 0, i < to_int(self.n)]
        if self.mask is not None: c.append(self.mask(i))
        return z3.And(c)

class Arr:
    """ndarray: axes, element sort, fn(*idx) (root) or a view (base, imap, inv)"""
    stamp = 0
    def __init__(self, axes, sort, fn=None, base=None, imap=None, inv=None):
        self.axes = [a if isinstance(a, Axis) else Axis(a) for a in axes]
        self.sort, self.fn, self.base, self.imap, self.inv = sort, fn, base, imap, inv
        self.ro = False         # read only: writing is a frame violation
        self.name = None
    @property
    def ndim(self): return len(self.axes)
    def root(self): return self.base.root() if self.base is not None else self
    def get(self, *idx):
        idx = tuple(to_int(i) for i in idx)
        if self.base is not None: return self.base.get(*self.imap(idx))
        return self.fn(*idx)
    def snap(self):
        """closure over the current contents"""
        if self.base is not None:
            g, im = self.base.snap(), self.imap
            return lambda *idx: g(*im(tuple(to_int(i) for i in idx)))
        f = self.fn
        return lambda *idx: f(*[to_int(i) for i in idx])
    def dims(self): return [a.n for a in self.axes]

class Lst:
    """python list: items (concrete length) or n, f (symbolic length, scalar elements)"""
    def __init__(self, items=None, n=None, f=None, sort=None):
        self.items, self.n, self.f, self.sort = items, n, f, sort
        self.ro = False
    @property
    def concrete(self): return self.items is not None
    def length(self): return len(self.items) if self.items is not None else self.n

class SRange:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step

class Iter:
    """iterable of symbolic length: n, at(s)"""
    def __init__(self, n, at): self.n, self.at = n, at

class Ext:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Ext(%s)' % self.name

class Opaque:
    """value about which nothing is known"""
    def __init__(self, what='?'): self.what = what

class StrV:
    """string with unknown contents"""
    pass

class FuncVal:
    def __init__(self, mod, node, qual, closure=None, bound=None, cls=None):
        self.mod, self.node, self.qual, self.closure, self.bound, self.cls = mod, node, qual, closure, bound, cls

class BoundExt:
    def __init__(self, obj, name): self.obj, self.name = obj, name

class PyFn:
    """value callable from interpreted code, implemented by the verifier: fn(ctx, args, kwargs)"""
    def __init__(self, fn, name=''): self.fn, self.name = fn, name

class ClassVal:
    def __init__(self, mod, node, qual): self.mod, self.node, self.qual = mod, node, qual

class Obj:
    def __init__(self, cls, attrs=None): self.cls, self.attrs = cls, dict(attrs or {}); self.ro = False

class NTClass:
    def __init__(self, name, fields): self.name, self.fields = name, list(fields)

class Rng:
    def __init__(self, name='rng'): self.name = name

class Uniform:
    """marker on a fresh real in [0,1) not yet consumed by a comparison"""
    pass

class Ix:
    def __init__(self, parts): self.parts = parts

class Frame:
    def __init__(self, func, mod, locs, closure=None, cls=None):
        self.func, self.mod, self.locals, self.closure, self.cls = func, mod, locs, closure, cls

class Draw:
    def __init__(self, method, **kw):
        self.method = method; self.__dict__.update(kw)
