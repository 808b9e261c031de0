"""Symbolic execution of the real Python source with contracts: every run parses the functions of /repo, walks all
paths (branches by re-execution, loops cut at their invariants, repository callees by contract or inlined), and emits
the proof obligations that `terms.discharge` decides."""
import ast, os, sys, time, itertools, z3
from fractions import Fraction
from .terms import *
from . import terms
from .values import *

class Repo:
    """parsed modules of the code under verification (read from disk on every run)"""
    def __init__(self, root):
        self.root, self.mods = root, {}
    def module(self, name):
        if name in self.mods: return self.mods[name]
        path = os.path.join(self.root, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(self.root, *name.split('.'), '__init__.py')
        if not os.path.exists(path): return None
        with open(path) as f: src = f.read()
        m = Module(name, ast.parse(src), src)
        self.mods[name] = m
        return m

class Module:
    def __init__(self, name, tree, src):
        self.name, self.tree, self.src = name, tree, src
        self.defs, self.cache = {}, {}
        def scan(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)): self.defs[st.name] = st
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        self.defs[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ''
                    if st.level:
                        pk = name.split('.')[:-st.level] if st.level <= len(name.split('.')) else []
                        base = '.'.join(pk + ([st.module] if st.module else []))
                    for a in st.names: self.defs[a.asname or a.name] = ('from', base, a.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name): self.defs[n.id] = ('assign', st, t)
                elif isinstance(st, (ast.If, ast.Try, ast.With)):
                    scan(st.body)
        scan(tree.body)

def func_node(mod, qual):
    node = mod.tree
    for part in qual.split('.'):
        nxt = None
        for st in ast.walk(node) if node is mod.tree else node.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == part:
                nxt = st; break
        if nxt is None: return None
        node = nxt
    return node

class Run:
    """one verification run (all paths) of one scenario of one contract"""
    MAXPATHS = 400
    def __init__(self, repo, contract, scenario=None, deadline=None, rolemap=None):
        self.repo, self.contract, self.scenario = repo, contract, scenario
        self.deadline = deadline
        self.rolemap = dict(rolemap or {})
        self.loopinfo = {}
        self.loops = []
        self.obligations = {}
        self.reached = {}
        self.paths = 0
        self.errors = []
        self.functions = set()
        self.assumed = set()
        self.entry_locals = {}

    def explore(self):
        for attempt in range(40):
            self.obligations, self.reached, self.paths, self.errors = {}, {}, 0, []
            try:
                if hasattr(self.contract, 'begin_run'): self.contract.begin_run(self)
                self._explore()
                if hasattr(self.contract, 'finish_run') and not self.errors: self.contract.finish_run(self)
                return self
            except Restart:
                continue
        self.errors.append('loop modification analysis did not converge')
        return self

    def _explore(self):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.paths += 1
            if self.paths > self.MAXPATHS: self.errors.append('too many paths'); return
            if self.deadline and time.time() > self.deadline: self.errors.append('deadline'); return
            terms.reset_fresh()
            ctx = Ctx(self, prefix)
            try:
                self.contract.run(ctx)
            except PathEnd:
                pass
            except Unsupported as e:
                self.errors.append('unsupported: %s%s' % (e, ctx.where()))
            except MissingRole as e:
                raise
            except RecursionError:
                self.errors.append('recursion too deep')
            # schedule the alternatives opened on this path
            for i in range(len(prefix), len(ctx.decisions)):
                d, n = ctx.decisions[i]
                for alt in range(1, n):
                    stack.append([x for x, _ in ctx.decisions[:i]] + [alt])

class Ctx:
    def __init__(self, run, prefix):
        self.run, self.prefix = run, prefix
        self.decisions = []
        self.hyps = []
        self.solver = z3.Solver(); self.solver.set('timeout', 400)
        self.ghost = {}
        self.uniforms = {}
        self.weight = []
        self.frames = []
        self.node = None
        self.nob = 0
        self.stamp = 0
        self.draws = []; self.adv_writes = []; self.counts = []
        self.loopstack = []
        self.repo = run.repo
        self.contract = run.contract
        self.pathlog = []
        self.branchlog = []
        self.pure = None            # evaluating an expression for a generic element: no branching
        self.prints = 0

    # ---- logic
    def where(self):
        n, f = self.node, (self.frames[-1] if self.frames else None)
        return ' at %s:%s' % (f.mod.name if f else '?', getattr(n, 'lineno', '?'))
    def assume(self, h):
        if isinstance(h, (list, tuple)):
            for x in h: self.assume(x)
            return
        if isinstance(h, bool):
            if h: return
            raise PathEnd()
        self.hyps.append(h)
        if not isinstance(h, All):
            b = to_bool(h)
            if not terms.traits(b)[0]: self.solver.add(b)
    def check(self, name, goal, kind='assert'):
        self.nob += 1
        key = (tuple(d for d, _ in self.decisions), self.nob)
        if key in self.run.obligations: return
        if goal is True: return self._record(key, name, z3.BoolVal(True), kind)
        self._record(key, name, goal, kind)
    def _record(self, key, name, goal, kind):
        n, f = self.node, (self.frames[-1] if self.frames else None)
        ob = Obligation(name, self.hyps, goal, where='%s:%s' % (f.func if f else self.contract.target, getattr(n, 'lineno', '?')), path=tuple(self.pathlog), kind=kind)
        ob.weight = list(self.weight)
        self.run.obligations[key] = ob
    def reach(self, label):
        if self.run.reached.get(label): return
        r = self.solver.check()
        self.run.reached[label] = (r != z3.unsat)
    def decide(self, n, label=''):
        i = len(self.decisions)
        d = self.prefix[i] if i < len(self.prefix) else 0
        self.decisions.append((d, n))
        if label: self.pathlog.append('%s=%s' % (label, d))
        return d
    def entailed(self, c):
        """True / False / None, from the ground path condition"""
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        self.solver.push(); self.solver.add(z3.Not(c)); r = self.solver.check(); self.solver.pop()
        if r == z3.unsat: return True
        self.solver.push(); self.solver.add(c); r = self.solver.check(); self.solver.pop()
        if r == z3.unsat: return False
        return None
    def sum_congr(self, what, n, f, g):
        """obligation f = g on 0..n-1; then the sums are equal"""
        self.check(what, All(lambda s: z3.Implies(z3.And(s >= 0, s < to_int(n)), to_real(f(s)) == to_real(g(s)))))
        self.assume(mk_sum(n, f) == mk_sum(n, g))
    def prove(self, goal, timeout=1500):
        ob = Obligation('side', self.hyps, goal)
        discharge(ob, timeout_ms=timeout, max_inst=800)
        return ob.status == 'proved'
    def branch(self, cond):
        if isinstance(cond, bool): return cond
        c = simp(to_bool(cond))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        us = [x for x in int_consts([c], R) if x.get_id() in self.uniforms]
        if us and (z3.is_and(c) or z3.is_or(c)):
            if z3.is_and(c):
                for x in c.children():
                    if not self.branch(x): return False
                return True
            for x in c.children():
                if self.branch(x): return True
            return False
        if us and z3.is_not(c) and (z3.is_and(c.arg(0)) or z3.is_or(c.arg(0))): return not self.branch(c.arg(0))
        e = self.entailed(c)
        if e is not None:
            if self.pure is None: self.assume(c if e else z3.Not(c))
            return e
        if self.pure is not None: raise Unsupported('case distinction inside an element expression')
        u_atom = self.uniform_atom(c, us) if us else None
        d = self.decide(2, 'if@%s' % getattr(self.node, 'lineno', '?'))
        res = (d == 0)
        self.assume(c if res else z3.Not(c))
        self.branchlog.append(c if res else z3.Not(c))
        if us:
            if u_atom is None: raise Unsupported('comparison of a uniform draw: %s' % str(c)[:80])
            u, x, below = u_atom
            rec = self.uniforms[u.get_id()]
            if below == res:        # u < x
                hi = rec['hi']
                rec['hi'] = x if self.entailed_deep(x <= hi) else z3.If(x <= hi, x, hi)
                if not self.entailed_deep(x >= rec['lo']): rec['clip'] = True
            else:
                lo = rec['lo']
                rec['lo'] = x if self.entailed_deep(x >= lo) else z3.If(x >= lo, x, lo)
                if not self.entailed_deep(x <= rec['hi']): rec['clip'] = True
        return res
    def entailed_deep(self, c):
        e = self.entailed(c)
        if e is not None: return e
        return self.prove(c, 600)
    def uniform_atom(self, c, us):
        if len(us) != 1: return None
        u = us[0]; neg = False
        while z3.is_not(c): c, neg = c.arg(0), not neg
        if not (z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)): return None
        a, b = c.arg(0), c.arg(1)
        below = z3.is_le(c) or z3.is_lt(c)
        # solve a - b as p * u + q
        nz = Normalizer([])
        p = nz.poly(a - b, ())
        coef, rest = None, []
        for co, m in p:
            if any(has_var(t, u) for t, _ in m):
                if len(m) == 1 and z3.eq(m[0][0], u) and m[0][1] == 1 and coef is None: coef = co
                else: return None
            else: rest.append((co, m))
        if coef is None: return None
        x = nz.from_poly(nz.pscale(rest, -1 / coef))
        if coef < 0: below = not below
        if neg: below = not below
        return u, z3.simplify(x), below
    def uniform_weight(self):
        w = []
        for rec in self.uniforms.values():
            d = rec['hi'] - rec['lo']
            if rec.get('clip'): d = z3.If(d >= 0, d, z3.RealVal(0))
            d = z3.simplify(d)
            if not (z3.is_rational_value(d) and d.numerator_as_long() == d.denominator_as_long()): w.append(d)
        return w
    def total_weight(self):
        r = z3.RealVal(1)
        for x in self.weight + self.uniform_weight(): r = r * to_real(x)
        return r
    def reset_weight(self):
        self.weight, self.uniforms = [], {}

    def new_uniform(self):
        u = fresh('u', R)
        self.assume([u >= 0, u < 1])
        self.uniforms[u.get_id()] = dict(u=u, lo=z3.RealVal(0), hi=z3.RealVal(1))
        return u

    # ---- names
    def lookup(self, name):
        f = self.frames[-1]
        fr = f
        if name in f.locals:
            v = f.locals[name]
            if v is UNDEF: raise Unsupported('local %r may be undefined here' % name)
            return v
        c = f.closure
        while c is not None:
            if name in c.locals:
                return c.locals[name]
            c = c.closure
        return self.global_name(f.mod, name)
    def global_name(self, mod, name):
        if name in mod.defs: return self.resolve(mod, name)
        if name in BUILTINS: return Ext('builtins.' + name)
        if name in ('ValueError', 'TypeError', 'ImportError', 'FloatingPointError', 'IndexError', 'KeyError', 'NotImplementedError', 'AttributeError', 'Exception', 'RuntimeError', 'AssertionError', 'ModuleNotFoundError', 'ZeroDivisionError', 'StopIteration'):
            return Ext('exc.' + name)
        raise Unsupported('unknown name %r' % name)
    def resolve(self, mod, name):
        d = mod.defs[name]
        if isinstance(d, ast.FunctionDef): return FuncVal(mod, d, mod.name + ':' + name)
        if isinstance(d, ast.ClassDef): return ClassVal(mod, d, mod.name + ':' + name)
        if d[0] == 'mod':
            m = self.repo.module(d[1]) if d[1].startswith('dppy') else None
            return m if m else Ext(d[1])
        if d[0] == 'from':
            if d[1].split('.')[0] == 'dppy':
                m = self.repo.module(d[1])
                if m is None: raise Unsupported('module %s' % d[1])
                if d[2] in m.defs: return self.resolve(m, d[2])
                sub = self.repo.module(d[1] + '.' + d[2])
                if sub: return sub
                raise Unsupported('name %s.%s' % (d[1], d[2]))
            from . import library
            full = d[1] + '.' + d[2]
            return library.constant(self, full) if full in library.CONSTANTS else Ext(full)
        if d[0] == 'assign':
            if name in mod.cache: return mod.cache[name]
            fr = Frame('<module>', mod, {})
            self.frames.append(fr)
            try: v = self.eval(d[1].value)
            finally: self.frames.pop()
            if isinstance(d[2], ast.Name):
                return v
            raise Unsupported('module level unpacking')
        raise Unsupported('name %s' % name)

    # ---- calls
    def call(self, fn, args, kw):
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kw)
        if isinstance(fn, PyFn): return fn.fn(self, args, kw)
        if isinstance(fn, Ext):
            from . import library
            return library.call_ext(self, fn.name, args, kw)
        if isinstance(fn, BoundExt):
            from . import library
            return library.call_method(self, fn.obj, fn.name, args, kw)
        if isinstance(fn, ClassVal):
            o = Obj(fn)
            init = self.find_method(fn, '__init__')
            if init: self.call_func(FuncVal(init[0], init[1], init[2], bound=o, cls=init[3]), args, kw)
            return o
        if isinstance(fn, NTClass):
            vals = dict(zip(fn.fields, args)); vals.update(kw)
            return Obj(fn, vals)
        if hasattr(fn, 'v_call'): return fn.v_call(self, args, kw)
        raise Unsupported('call of %r' % (fn,))
    def find_method(self, cls, name):
        """(module, node, qualname, class) following base classes"""
        for st in cls.node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name: return (cls.mod, st, cls.qual + '.' + name, cls)
        for b in cls.node.bases:
            if isinstance(b, ast.Name) and b.id in cls.mod.defs:
                base = self.resolve(cls.mod, b.id)
                if isinstance(base, ClassVal):
                    r = self.find_method(base, name)
                    if r: return r
        return None
    def bind(self, node, args, kw, mod, qual):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args); kw = dict(kw)
        if len(args) > len(names) and not a.vararg: raise PyRaise('TypeError', 'too many positional arguments for %s' % qual)
        for n, v in zip(names, args): loc[n] = v
        if a.vararg: loc[a.vararg.arg] = tuple(args[len(names):])
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n in names:
            if n in loc:
                if n in kw: raise PyRaise('TypeError', 'multiple values for %s' % n)
                continue
            if n in kw: loc[n] = kw.pop(n)
            elif n in defaults: loc[n] = self.eval_in(mod, defaults[n])
            else: raise PyRaise('TypeError', 'missing argument %s of %s' % (n, qual))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw: loc[x.arg] = kw.pop(x.arg)
            elif d is not None: loc[x.arg] = self.eval_in(mod, d)
            else: raise PyRaise('TypeError', 'missing keyword %s' % x.arg)
        if a.kwarg: loc[a.kwarg.arg] = dict(kw)
        elif kw: raise PyRaise('TypeError', 'unexpected keyword %s of %s' % (list(kw), qual))
        return loc
    def eval_in(self, mod, node):
        self.frames.append(Frame('<default>', mod, {}))
        try: return self.eval(node)
        finally: self.frames.pop()
    def call_func(self, fv, args, kw, inline=False):
        if fv.bound is not None: args = [fv.bound] + list(args)
        if not inline:
            c = self.contract.callee(self, fv.qual)
            if c is not None:
                loc = self.bind(fv.node, args, kw, fv.mod, fv.qual)
                self.run.functions.add(fv.qual + ' (contract)')
                return c(self, loc)
        if len(self.frames) > 25: raise Unsupported('call depth')
        self.run.functions.add(fv.qual)
        loc = self.bind(fv.node, args, kw, fv.mod, fv.qual)
        fr = Frame(fv.qual, fv.mod, loc, fv.closure, fv.cls)
        self.frames.append(fr)
        saved = self.node
        try:
            if isinstance(fv.node, ast.Lambda): return self.eval(fv.node.body)
            self.block(fv.node.body)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.frames.pop(); self.node = saved

    # ---- statements
    def block(self, body):
        for st in body: self.stmt(st)
    def stmt(self, st):
        self.node = st
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(st).__name__)
        return m(st)
    def s_Pass(self, st): pass
    def s_Expr(self, st): self.eval(st.value)
    def s_Return(self, st): raise ReturnEx(self.eval(st.value) if st.value is not None else None)
    def s_Break(self, st): raise BreakEx()
    def s_Continue(self, st): raise ContinueEx()
    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets: self.assign(t, v)
    def s_AnnAssign(self, st):
        if st.value is not None: self.assign(st.target, self.eval(st.value))
    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            rhs = self.eval(st.value)
            if isinstance(old, Arr):
                from . import library
                res = self.binop(st.op, old, rhs)
                library.store_whole(self, old, res)
                return
            if isinstance(old, Lst) and isinstance(st.op, ast.Add):
                from . import library
                library.call_method(self, old, 'extend', [rhs], {}); return
            self.frames[-1].locals[t.id] = self.binop(st.op, old, rhs)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value); key = self.eval_index(t.slice)
            old = self.getitem(base, key)
            rhs = self.eval(st.value)
            if isinstance(old, Lst) and isinstance(st.op, ast.Add):
                from . import library
                library.call_method(self, old, 'extend', [rhs], {}); return
            self.setitem(base, key, self.binop(st.op, old, rhs))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.getattr(base, t.attr)
            rhs = self.eval(st.value)
            if isinstance(old, Arr):
                from . import library
                library.store_whole(self, old, self.binop(st.op, old, rhs)); return
            self.setattr(base, t.attr, self.binop(st.op, old, rhs))
        else: raise Unsupported('augmented assignment target')
    def s_Delete(self, st):
        from . import library
        for t in st.targets:
            if isinstance(t, ast.Name): self.frames[-1].locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                library.delitem(self, self.eval(t.value), self.eval_index(t.slice))
            else: raise Unsupported('del target')
    def s_If(self, st):
        c = self.truth(self.eval(st.test))
        self.block(st.body if c else st.orelse)
    def s_Raise(self, st):
        if st.exc is None: raise PyRaise('?')
        e = st.exc
        kind = None
        if isinstance(e, ast.Call): kind, margs = e.func, e.args
        else: kind, margs = e, []
        k = self.eval(kind)
        name = k.name.split('.')[-1] if isinstance(k, Ext) else getattr(k, 'qual', '?')
        try:
            for a in margs: self.eval(a)
        except Unsupported:
            pass
        raise PyRaise(name)
    def s_Assert(self, st):
        if not self.truth(self.eval(st.test)): raise PyRaise('AssertionError')
    def s_FunctionDef(self, st):
        fr = self.frames[-1]
        fr.locals[st.name] = FuncVal(fr.mod, st, fr.func + '.' + st.name, closure=fr, cls=fr.cls)
    def s_ClassDef(self, st):
        self.frames[-1].locals[st.name] = Opaque('class ' + st.name)
    def s_Import(self, st):
        for a in st.names: self.frames[-1].locals[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, st):
        for a in st.names:
            nm = a.asname or a.name
            if (st.module or '').split('.')[0] == 'dppy' and not st.level:
                class M: defs = {nm: ('from', st.module, a.name)}; name = self.frames[-1].mod.name
                self.frames[-1].locals[nm] = self.resolve(M, nm)
            else: self.frames[-1].locals[nm] = Ext((st.module or '') + '.' + a.name)
    def s_With(self, st):
        from . import library
        for it in st.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
            library.enter(self, v)
        try:
            self.block(st.body)
        finally:
            for it in st.items: library.leave(self, v)
    def s_Try(self, st):
        try:
            self.block(st.body)
        except PyRaise as e:
            for h in st.handlers:
                names = []
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [self.eval(t).name.split('.')[-1] for t in ts]
                if h.type is None or e.kind in names or 'Exception' in names:
                    if h.name: self.frames[-1].locals[h.name] = Opaque('exception')
                    self.block(h.body)
                    break
            else:
                raise
        else:
            self.block(st.orelse)
        finally:
            pass
        self.block(st.finalbody)
    def s_Global(self, st): raise Unsupported('global statement')
    def s_Nonlocal(self, st): raise Unsupported('nonlocal statement')

    # ---- loops
    def s_For(self, st):
        from . import library
        it = self.eval(st.iter)
        n, at = library.iterate(self, it)
        if n is not None and self.contract.force_cut(self, st) is False:
            nn = concrete(n)
            if isinstance(nn, int):
                self.unroll(st, nn, at); return
        elif isinstance(concrete(n), int) and not self.contract.force_cut(self, st):
            self.unroll(st, concrete(n), at); return
        self.cut_loop(st, n, at)
    def unroll(self, st, n, at):
        if n > 64: raise Unsupported('unrolling %d iterations' % n)
        for s in range(n):
            self.assign(st.target, at(s))
            try: self.block(st.body)
            except ContinueEx: continue
            except BreakEx: return
        self.block(st.orelse)
    def s_While(self, st):
        # concrete test: plain execution (bounded), otherwise cut
        spec = self.loop_spec(st, peek=True)
        if spec is None:
            for _ in range(64):
                v = self.eval(st.test)
                c = concrete(to_bool(v)) if is_z3(v) else v
                if is_z3(c): raise Unsupported('while loop without invariant')
                if not self.truth(c):
                    self.block(st.orelse); return
                try: self.block(st.body)
                except ContinueEx: continue
                except BreakEx: return
            raise Unsupported('while loop: too many concrete iterations')
        self.cut_loop(st, None, None)
    def loop_key(self, st):
        return (self.frames[-1].func, st.lineno, st.col_offset)
    def loop_spec(self, st, peek=False):
        key = self.loop_key(st)
        run = self.run
        if key not in run.loops:
            if peek and len(run.loops) >= len(self.contract.loops): return None
            run.loops.append(key)
        i = run.loops.index(key)
        if i >= len(self.contract.loops): return None
        return self.contract.loops[i]
    def cut_loop(self, st, n, at):
        from . import library
        spec = self.loop_spec(st)
        if spec is None: raise Unsupported('loop without invariant (loop %d of the contract)' % len(self.run.loops))
        key = self.loop_key(st)
        info = self.run.loopinfo.setdefault(key, dict(names=set(assigned(st)), objs=set(), types={}, counters={}))
        fr = self.frames[-1]
        ls = LoopState(self, spec, fr, st)
        ls.n = n
        ls.it = z3.IntVal(0)
        lab = spec.name or ('loop%d' % self.run.loops.index(key))
        self.run.entry_locals[key] = dict(fr.locals)
        if spec.outer is None: spec_outer = self.loopstack[-1] if self.loopstack else None
        ls.outer = self.loopstack[-1] if self.loopstack else None
        # entry
        ls.phase = 'entry'
        spec.entry(ls)
        for nm, e in library.named(spec.inv(ls)): self.assert_inv('%s: %s on entry' % (lab, nm), ls, e)
        pre = dict(fr.locals)
        ls.pre = pre
        # arbitrary iteration
        it = fresh('it', I)
        ls.it = it
        self.assume(it >= 0)
        if n is not None: self.assume(it <= to_int(n))
        ls.phase = 'head'
        for path in sorted(info['objs']):
            o = library.find_path(self, path)
            if isinstance(o, (Arr, Lst)): library.havoc(self, o, info['types'].get(path))
            elif hasattr(o, 'v_havoc_self'): o.v_havoc_self(self)
            elif o is not None: library.havoc_attr(self, path, info['types'].get(path))
        for nm in sorted(info['names']):
            if nm not in fr.locals: continue
            old = fr.locals[nm]
            cnt = info['counters'].get(nm)
            if cnt is not None and old is not UNDEF:
                fr.locals[nm] = library.scalar_add(old, it * cnt if not (is_z3(old) and old.sort() == R) else z3.ToReal(it) * cnt)
                continue
            new = spec.fresh_value(ls, nm, old)
            if new is NotImplemented: new = library.havoc_value(self, old, nm, info['types'].get(nm))
            fr.locals[nm] = new
        for t in library.target_names(getattr(st, 'target', None)):
            fr.locals[t] = UNDEF
        spec.head(ls)
        for nm, e in library.named(spec.inv(ls)): self.assume_inv(ls, e)
        head = dict(fr.locals)
        ls.mark = self.next_stamp()
        guard_true = None
        if n is not None:
            enter = self.decide(2, lab) == 0
            if enter: self.assume(it < to_int(n))
            else: self.assume(it == to_int(n))
        else:
            enter = self.truth(self.eval(st.test))
        if not enter:
            self.reach(lab + ':exit')
            ls.phase = 'exit'
            if at is not None and self.entailed(to_int(n) >= 1) is True and not set(library.target_names(st.target)) & assigned(st, False): self.assign(st.target, at(to_int(n) - 1))
            spec.exit(ls)
            self.block(st.orelse)
            return
        self.reach(lab + ':body')
        if at is not None: self.assign(st.target, at(it))
        ls.info = info
        self.loopstack.append(ls)
        ls.phase = 'body'
        spec.begin(ls)
        try:
            try: self.block(st.body)
            except ContinueEx: pass
        except BreakEx:
            self.loopstack.pop()
            ls.phase = 'break'
            spec.on_break(ls)
            self.reach(lab + ':break')
            return
        except ReturnEx:
            self.loopstack.pop()
            raise
        self.loopstack.pop()
        # type changes and counters
        for nm in info['names']:
            if nm in fr.locals and nm in pre:
                a, b = head.get(nm), fr.locals[nm]
                so_a, so_b = library.scalar_sort(a), library.scalar_sort(b)
                if so_a is not None and so_b is not None and not so_a.eq(so_b) and so_b.eq(R) and info['types'].get(nm) is not R:
                    info['types'][nm] = R; raise Restart()
                if so_a is not None and so_b is not None and nm not in info['counters'] and not spec.defines(nm):
                    d = simp((to_real(b) if so_b.eq(R) or so_a.eq(R) else to_int(b)) - (to_real(a) if so_b.eq(R) or so_a.eq(R) else to_int(a))) if not so_a.eq(B) and not so_b.eq(B) else None
                    dc = concrete(d) if d is not None else None
                    if dc in (1, -1) and not info.get('cset', {}).get(nm):
                        info['counters'][nm] = int(dc); info.setdefault('cset', {})[nm] = True; raise Restart()
        for nm, c in list(info['counters'].items()):
            if nm in fr.locals and head.get(nm) is not UNDEF and nm in head:
                g = library.cmp_eq(fr.locals[nm], library.scalar_add(head[nm], c))
                if self.entailed(g) is not True:
                    del info['counters'][nm]; raise Restart()
        ls.it = it + 1
        ls.phase = 'end'
        spec.end(ls)
        for nm, e in library.named(spec.inv(ls)): self.assert_inv('%s: %s preserved' % (lab, nm), ls, e)
        raise PathEnd()
    def next_stamp(self):
        self.stamp += 1
        return self.stamp
    def assert_inv(self, name, ls, e):
        from . import library
        if isinstance(e, Def): e = e.goal(ls)
        self.check(name, e, kind='invariant')
    def assume_inv(self, ls, e):
        if isinstance(e, Def): e.establish(ls)
        else: self.assume(e)
    def note_write(self, obj, sort=None):
        """called before an object is modified: loop frames must havoc it"""
        from . import library
        if getattr(obj, 'ro', False):
            self.check('frame: %s is not modified' % (getattr(obj, 'name', None) or 'argument'), False, kind='frame')
        for ls in self.loopstack:
            if getattr(obj, 'stamp0', 0) >= ls.mark: continue
            path = library.path_of(self, obj, ls)
            if path is None: raise Unsupported('modification in a loop of an object that has no name')
            if path not in ls.info['objs']:
                ls.info['objs'].add(path)
                if sort is not None: ls.info['types'][path] = sort
                raise Restart()
            if sort is not None and ls.info['types'].get(path) is None:
                ls.info['types'][path] = sort; raise Restart()

    # ---- expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e)
    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return frac(v) if v == v and abs(v) != float('inf') else Opaque('inf')
        if isinstance(v, complex): 
            if v.real == 0: 
                from . import library
                return library.Cpx(Fraction(0), frac(v.imag))
            raise Unsupported('complex constant')
        return v
    def e_Name(self, e): return self.lookup(e.id)
    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out += list(self.concrete_seq(self.eval(x.value)))
            else: out.append(self.eval(x))
        return tuple(out)
    def e_List(self, e):
        from . import library
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if not isinstance(x, ast.Starred): parts.append(('item', self.eval(x))); continue
                v = self.eval(x.value)
                n, at = library.iterate(self, v)
                n = concrete(n)
                if isinstance(n, int): parts += [('item', at(i)) for i in range(n)]
                else: parts.append(('seq', n, at, v))
            if any(p[0] == 'seq' for p in parts): return library.Cat(parts)
            return self.stamped(Lst([p[1] for p in parts]))
        return self.stamped(Lst(list(self.e_Tuple(e))))
    def e_Set(self, e): return frozenset(self.e_Tuple(e))
    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.eval(v))
            else: d[self.eval(k)] = self.eval(v)
        return d
    def stamped(self, o):
        o.stamp0 = self.next_stamp()
        return o
    def e_JoinedStr(self, e): return StrV()
    def e_Lambda(self, e):
        fr = self.frames[-1]
        return FuncVal(fr.mod, e, fr.func + '.<lambda>', closure=fr)
    def under(self, c, e):
        """evaluate e assuming c (no branching)"""
        n = len(self.hyps); self.solver.push()
        try:
            self.assume(c)
            return self.eval(e)
        finally:
            del self.hyps[n:]; self.solver.pop()
    def e_IfExp(self, e):
        if self.pure is not None:
            from . import library
            c = to_bool(library.truthy(self, self.eval(e.test)))
            a, b = self.under(c, e.body), self.under(z3.Not(c), e.orelse)
            return library.s_if(c, a, b)
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)
    def e_BoolOp(self, e):
        v = None
        if self.pure is not None:
            from . import library
            cs, conj = [], isinstance(e.op, ast.And)
            for x in e.values:
                pre = z3.And([c if conj else z3.Not(c) for c in cs]) if cs else z3.BoolVal(True)
                cs.append(to_bool(library.truthy(self, self.under(pre, x))))
            return simp(z3.And(cs) if conj else z3.Or(cs))
        for x in e.values:
            v = self.eval(x)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t: return False if is_z3(v) and v.sort() == B else v
            if isinstance(e.op, ast.Or) and t: return True if is_z3(v) and v.sort() == B else v
        if is_z3(v) and v.sort() == B: return t
        return v
    def e_UnaryOp(self, e):
        from . import library
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            if self.pure is not None:
                t = library.truthy(self, v)
                return (not t) if isinstance(t, bool) else z3.Not(to_bool(t))
            return not self.truth(v)
        return library.unary(self, type(e.op).__name__, v)
    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))
    def binop(self, op, a, b):
        from . import library
        return library.binary(self, type(op).__name__, a, b)
    def e_Compare(self, e):
        from . import library
        l = self.eval(e.left); res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r)
            c = library.compare(self, type(op).__name__, l, rv)
            if res is None: res = c
            else:
                if not self.truth(res): return False
                res = c
            l = rv
        return res
    def e_Attribute(self, e): return self.getattr(self.eval(e.value), e.attr)
    def e_Subscript(self, e): return self.getitem(self.eval(e.value), self.eval_index(e.slice))
    def e_Starred(self, e): raise Unsupported('starred')
    def eval_index(self, s):
        if isinstance(s, ast.Tuple): return tuple(self.eval_index(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s)
    def e_Slice(self, s): return self.eval_index(s)
    def e_Call(self, e):
        self_node = self.node
        fn = self.eval(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred): args += list(self.concrete_seq(self.eval(a.value)))
            else: args.append(self.eval(a))
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if not isinstance(v, dict): raise Unsupported('** of %r' % (v,))
                kw.update(v)
            else: kw[k.arg] = v
        self.node = self_node
        return self.call(fn, args, kw)
    def concrete_seq(self, v):
        from . import library
        n, at = library.iterate(self, v)
        nn = concrete(n)
        if not isinstance(nn, int): raise Unsupported('sequence of symbolic length')
        return [at(i) for i in range(nn)]
    def e_ListComp(self, e):
        return self.stamped(self.comp(e))
    def e_GeneratorExp(self, e):
        r = self.comp(e)
        if isinstance(r, Lst): r.lazy = True
        return r
    def e_SetComp(self, e): raise Unsupported('set comprehension')
    def e_DictComp(self, e):
        """a dictionary about which nothing is known; key and value are evaluated for an arbitrary element"""
        self.comp(ast.copy_location(ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators), e), opaque=True)
        return Opaque('dict')
    def comp(self, e, opaque=False):
        from . import library
        if len(e.generators) != 1: raise Unsupported('nested comprehension')
        g = e.generators[0]
        n, at = library.iterate(self, self.eval(g.iter))
        nn = concrete(n)
        fr = self.frames[-1]
        inner = Frame(fr.func, fr.mod, {}, closure=fr, cls=fr.cls)
        if isinstance(nn, int):
            out = []
            self.frames.append(inner)
            try:
                for i in range(nn):
                    self.assign(g.target, at(i))
                    if all(self.truth(self.eval(c)) for c in g.ifs): out.append(self.eval(e.elt))
            finally: self.frames.pop()
            return Lst(out)
        ctx = self
        frame = Frame(fr.func, fr.mod, dict(inner.locals), closure=fr, cls=fr.cls)
        s = fresh('e', I)
        ctx.frames.append(frame)
        nh, old = len(self.hyps), self.pure
        self.solver.push(); self.pure = s
        try:
            self.assume([s >= 0, s < to_int(n)])
            ctx.assign(g.target, at(s))
            conds = []
            for c in g.ifs:
                c = to_bool(library.truthy(self, ctx.eval(c))); conds.append(c)
            self.assume([s >= 0, s < to_int(n)] + conds)
            mark = len(self.hyps)
            probe = ctx.eval(e.elt)
            facts = [h for h in self.hyps[mark:] if is_z3(h)]
        finally:
            ctx.frames.pop(); self.pure = old
            del self.hyps[nh:]; self.solver.pop()
        if opaque: return None
        if hasattr(probe, 'v_subst') and not facts and not conds: return Lst(None, n, lambda i: probe.v_subst(s, to_int(i)), None)
        if isinstance(probe, (str, StrV)) and not conds: return Lst(None, n, lambda i: StrV(), None)
        if not (is_z3(probe) or is_num(probe) or isinstance(probe, bool)): raise Unsupported('comprehension elements')
        so = sort_of(probe)
        val = lambda i: z3.substitute(probe if is_z3(probe) else to_real(probe) if so.eq(R) else to_int(probe), (s, to_int(i)))
        if facts:
            body = z3.And([s >= 0, s < to_int(n)] + conds)
            self.assume(All(lambda i: z3.substitute(z3.Implies(body, z3.And(facts)), (s, to_int(i)))))
        if not conds: return Lst(None, n, val, so)
        mask = lambda i: z3.substitute(z3.And(conds), (s, to_int(i)))
        return library.tolist(self, Arr([Axis(n, mask)], so, val))
    def assume_local(self, hs): self.assume(hs)
    def truth(self, v):
        from . import library
        return self.branch(library.truthy(self, v))
    # ---- access
    def getattr(self, o, name):
        from . import library
        return library.getattr_(self, o, name)
    def setattr(self, o, name, v):
        from . import library
        if isinstance(o, Obj) and isinstance(o.cls, (ClassVal, type(None), str)):
            self.note_write_attr(o, name)
            o.attrs[name] = v; return
        if hasattr(o, 'v_setattr'): return o.v_setattr(self, name, v)
        raise Unsupported('attribute assignment on %r' % (o,))
    def note_write_attr(self, o, name):
        pass
    def getitem(self, o, k):
        from . import library
        return library.getitem(self, o, k)
    def setitem(self, o, k, v):
        from . import library
        return library.setitem(self, o, k, v)
    def assign(self, t, v):
        if isinstance(t, ast.Name): self.frames[-1].locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.concrete_seq(v)
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported('starred assignment')
            if len(vs) != len(t.elts): raise PyRaise('ValueError', 'unpacking')
            for x, y in zip(t.elts, vs): self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        else: raise Unsupported('assignment target %s' % type(t).__name__)

def assigned(st, target=True):
    """names bound in the loop statement (body, target), excluding nested function bodies"""
    out = set()
    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if isinstance(n, ast.FunctionDef): out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)): return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        for c in ast.iter_child_nodes(n): go(c)
    for s in st.body: go(s)
    if target and isinstance(st, ast.For): go(st.target)
    return out

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'abs', 'min', 'max', 'sum', 'int', 'float', 'bool', 'list', 'tuple', 'isinstance',
            'print', 'str', 'sorted', 'map', 'reversed', 'set', 'dict', 'callable', 'getattr', 'hasattr', 'all', 'any', 'type', 'iter',
            'filter', 'round', 'complex', 'divmod', 'slice', 'repr', 'next', 'id', 'super', 'pow', 'property', 'object', 'frozenset'}

# ------------------------------------------------------------------ contracts
class LoopState:
    def __init__(self, ctx, spec, frame, node):
        self.ctx, self.spec, self.frame, self.node = ctx, spec, frame, node
        self.it, self.n, self.phase, self.pre, self.outer = None, None, None, {}, None
    @property
    def g(self): return self.ctx.ghost
    def names(self): return assigned(self.node, False)
    def v(self, role):
        name = self.ctx.run.rolemap.get(role, role)
        if name in self.frame.locals: return self.frame.locals[name]
        for f in reversed(self.ctx.frames):
            if name in f.locals: return f.locals[name]
        raise MissingRole(role)
    def set(self, role, val):
        name = self.ctx.run.rolemap.get(role, role)
        if name not in self.frame.locals and not any(name in f.locals for f in self.ctx.frames): raise MissingRole(role)
        self.frame.locals[name] = val

class LoopSpec:
    name = ''
    outer = None
    defs = ()
    def entry(self, ls): pass
    def inv(self, ls): return []
    def fresh_value(self, ls, name, old): return NotImplemented
    def head(self, ls): pass
    def begin(self, ls): pass
    def end(self, ls): pass
    def exit(self, ls): pass
    def on_break(self, ls): pass
    def defines(self, name): return name in self.defs

class Def:
    """invariant: forall idx in the domain. cond(idx) -> role(idx) == value(idx); for scalars cond/value take no index.
    Assumed by substituting the definition, asserted as a goal."""
    def __init__(self, role, value, cond=None, what='', dom=None):
        self.role, self.value, self.cond, self.what, self.dom = role, freeze(value), freeze(cond), what, dom
    def goal(self, ls):
        from . import library
        o = ls.v(self.role)
        if isinstance(o, (Arr, Lst)):
            f = library.elem_snap(ls.ctx, o)
            nd = library.nd(o)
            lens = library.lens(o)
            def fn(*idx):
                c = [z3.And(i >= 0, i < to_int(n)) for i, n in zip(idx, lens)]
                if self.cond is not None: c.append(to_bool(self.cond(*idx)))
                return z3.Implies(z3.And(c), library.cmp_eq(f(*idx), self.value(*idx)))
            return All(fn, nd)
        return library.cmp_eq(o, self.value())
    def establish(self, ls):
        from . import library
        o = ls.v(self.role)
        if isinstance(o, (Arr, Lst)):
            library.define(ls.ctx, o, self.cond, self.value)
        else:
            ls.set(self.role, self.value())

class Contract:
    """specification of one function of the repository"""
    prop = ''
    target = ''             # module:qualname
    title = ''
    loops = ()
    scenarios = (None,)
    uses = {}               # qualname -> callable(ctx, bound arguments) implementing the callee's contract
    trusted = ()
    must_reach = ()
    roles = {}
    cut_concrete = False
    def callee(self, ctx, qual):
        if qual == self.target and not getattr(self, 'recursive', False): return None
        return self.uses.get(qual)
    def force_cut(self, ctx, st): return self.cut_concrete
    def setup(self, ctx): raise NotImplementedError
    def on_draw(self, ctx, d): pass
    def on_return(self, ctx, value): pass
    def on_raise(self, ctx, e):
        ctx.check('no exception (%s %s)' % (e.kind, e.msg), False, kind='exception')
    def function(self, ctx):
        mname, qual = self.target.split(':')
        mod = ctx.repo.module(mname)
        if mod is None: raise Unsupported('module %s not found' % mname)
        parts = qual.split('.')
        cur = mod.defs.get(parts[0])
        if len(parts) == 1:
            if not isinstance(cur, ast.FunctionDef): raise Unsupported('function %s not found' % self.target)
            return FuncVal(mod, cur, self.target)
        if not isinstance(cur, ast.ClassDef): raise Unsupported('class %s not found' % self.target)
        m = ctx.find_method(ClassVal(mod, cur, mname + ':' + parts[0]), parts[1])
        if m is None: raise Unsupported('method %s not found' % self.target)
        return FuncVal(m[0], m[1], m[2], cls=m[3])
    def run(self, ctx):
        fv = self.function(ctx)
        args, kw = self.setup(ctx)
        ctx.reach('pre')
        try:
            v = ctx.call_func(fv, args, kw, inline=True)
        except PyRaise as e:
            ctx.reach('raise:' + e.kind)
            self.on_raise(ctx, e)
            return
        ctx.reach('return')
        self.on_return(ctx, v)
