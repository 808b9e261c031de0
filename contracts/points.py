"""data sets and likelihood functions: rows are uninterpreted points, the likelihood an uninterpreted symmetric function of two points"""
from .base import *
LK = z3.Function('LK', I, I, R)

class Points:
    """rows of a data set: ids is a one dimensional array of points"""
    ro = True
    def __init__(self, ids, d): self.ids, self.d = ids, d
    def v_getattr(self, ctx, name):
        if name == 'shape': return (lib.axis_len(ctx, self.ids.axes[0]), self.d)
        if name == 'ndim': return 2
        return NotImplemented
    def v_len(self, ctx): return lib.axis_len(ctx, self.ids.axes[0])
    def v_getitem(self, ctx, k):
        if isinstance(k, tuple):
            if len(k) != 2 or not (isinstance(k[1], slice) and k[1] == slice(None)): raise Unsupported('columns of the data')
            k = k[0]
        if lib.is_scalar(k): raise Unsupported('a row of the data')
        return Points(lib.getitem(ctx, self.ids, k), self.d)
    def v_method(self, ctx, name, args, kw):
        if name == 'copy': return self
        raise Unsupported('method %s of the data' % name)
    def row(self): return self.ids.snap()
    def axis(self): return self.ids.axes[0]

class Likelihood:
    """eval_L(X), eval_L(X, Y)"""
    ro = True
    def __init__(self, diag=None): self.diag = diag
    def v_call(self, ctx, args, kw):
        if kw or not 1 <= len(args) <= 2 or not all(isinstance(a, Points) for a in args): raise Unsupported('arguments of the likelihood function')
        a, b = args[0], args[-1]
        f, g = a.row(), b.row()
        return lib.new(ctx, [a.axis(), b.axis()], R, lambda i, j: LK(f(i), g(j)))
    def v_getattr(self, ctx, name):
        if name == 'diag' and self.diag: return self.diag
        raise PyRaise('AttributeError', name)

def data(ctx, name, n, d):
    SYMMETRIC['LK'] = (0, 1)
    f = fresh_fn(name, I, I)
    ids = lib.new(ctx, [n], I, lambda i: f(i)); ids.ro = True
    return Points(ids, d), f

def diagonal(ctx, loc):
    """contract of dppy.utils.evaluate_L_diagonal, proved in this file's property"""
    X = loc['X']
    ctx.check('the likelihood function given is evaluated', loc['eval_L'] is ctx.ghost['lik'] and isinstance(X, Points))
    if not isinstance(X, Points): raise PathEnd()
    f = X.row()
    return lib.new(ctx, [X.axis()], R, lambda i: LK(f(i), f(i)))

class Bar:
    def v_method(self, ctx, name, args, kw):
        if name in ('set_postfix', 'update'): return None
        raise Unsupported('method %s of the progress bar' % name)
def bar(ctx, loc): return Bar()

class Diagonal(FnContract):
    """evaluate_L_diagonal: entry i is L(x_i, x_i)"""
    target, title = 'dppy.utils:evaluate_L_diagonal', 'diagonal of the likelihood matrix'
    scenarios = ('diag', 'no diag')
    def along(ctx, args, kw):
        f, ax, X = args[0], args[1], args[2]
        if kw or len(args) != 3 or not isinstance(X, Points): raise Unsupported('apply_along_axis')
        ctx.check('the likelihood function is applied to each row', f is ctx.ghost['lik'] and concrete(ax) == 1)
        r = X.row()
        # f(row) is a 1 x 1 matrix
        return lib.new(ctx, [X.axis(), 1, 1], R, lambda i, j, k: LK(r(i), r(i)))
    externals = {'numpy.apply_along_axis': along}
    def setup(self, ctx):
        n, d = z3.Ints('n d'); ctx.assume([n >= 1, d >= 1])
        X, x = data(ctx, 'x', n, d)
        def diag(c, args, kw):
            if kw or len(args) != 1 or not isinstance(args[0], Points): raise Unsupported('arguments of eval_L.diag')
            f = args[0].row()
            return lib.new(c, [args[0].axis()], R, lambda i: LK(f(i), f(i)))
        L = Likelihood(PyFn(diag, 'diag') if self.scenario == 'diag' else None)
        ctx.ghost.update(n=n, x=x, lik=L)
        return [L, X], {}
    def on_return(self, ctx, v):
        g = ctx.ghost; n, x = g['n'], g['x']
        v = lib.to_arr(ctx, v)
        ctx.check('a vector of n values', v.ndim == 1 and v.axes[0].mask is None)
        if v.ndim != 1: raise PathEnd()
        s = v.snap()
        ctx.check('length', to_int(v.axes[0].n) == n)
        ctx.check('entry i is L(x_i, x_i)', All(lambda i: z3.Implies(rng_in((i, n)), s(i) == LK(x(i), x(i)))))
