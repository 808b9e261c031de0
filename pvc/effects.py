"""Effect contracts: which generator a function draws from, what it writes, what it depends on.
A forward analysis of the real source of every function, in which calls are replaced by the effect summary of the callee,
decides the obligations of the contract; aliases of parameters are over-approximated."""
import ast
from .engine import Repo, Module, func_node

DRAWS = {'rand', 'randn', 'randint', 'random_sample', 'random', 'choice', 'normal', 'gamma', 'beta', 'binomial', 'poisson', 'permutation', 'shuffle', 'uniform',
         'exponential', 'standard_normal', 'chisquare', 'multinomial', 'dirichlet', 'multivariate_normal', 'laplace', 'bytes', 'standard_gamma', 'geometric', 'integers',
         'standard_exponential', 'random_integers', 'ranf', 'sample', 'hypergeometric', 'negative_binomial', 'rayleigh', 'standard_t', 'standard_cauchy', 'triangular', 'vonmises', 'weibull', 'wald', 'zipf', 'logistic', 'lognormal', 'pareto', 'power', 'permuted', 'f', 'gumbel', 'logseries', 'noncentral_chisquare', 'noncentral_f'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'fill', 'resize', 'itemset', 'put', 'partition',
            'setflags', 'setfield', '__setitem__', '__delitem__', '__iadd__', '__imul__', '__isub__', 'appendleft', 'popleft', 'rotate', 'intersection_update', 'difference_update', 'symmetric_difference_update',
            'add_edge', 'add_edges_from', 'add_node', 'add_nodes_from', 'remove_edge', 'remove_edges_from', 'remove_node', 'remove_nodes_from', 'add_weighted_edges_from', 'add_path', 'add_cycle', 'add_star', 'clear_edges', 'set_state', 'seed'}
VIEWS_M = {'T', 'real', 'imag', 'flat', 'view', 'ravel', 'reshape', 'squeeze', 'diagonal', 'transpose', 'swapaxes', 'coeffs', 'c', 'coef', 'coefficients', 'base', 'A', 'A1', 'data', 'conj', 'conjugate', 'get', 'items', 'values', 'setdefault', 'pop', '__getitem__', '__array__', 'astype'}
VIEWS_F = {'numpy.' + n for n in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'asarray_chkfinite', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze', 'transpose', 'diag', 'diagonal', 'real', 'imag', 'broadcast_to', 'broadcast_arrays',
          'expand_dims', 'swapaxes', 'moveaxis', 'rollaxis', 'flip', 'flipud', 'fliplr', 'rot90', 'poly1d', 'asmatrix', 'require', 'split', 'array_split', 'hsplit', 'vsplit', 'real_if_close', 'nan_to_num', 'lib.stride_tricks.as_strided', 'ndarray.view', 'getfield', 'matrix_transpose', 'permute_dims')} | {'builtins.next', 'builtins.getattr', 'builtins.reversed', 'builtins.iter'}
MEMBERS_F = {'builtins.' + n for n in ('list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'zip', 'enumerate', 'map', 'filter')} | {'copy.copy', 'itertools.chain', 'itertools.chain.from_iterable', 'itertools.product', 'itertools.islice', 'collections.deque', 'collections.OrderedDict'}
WRITES_F = {'numpy.fill_diagonal': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.copyto': 0, 'numpy.put_along_axis': 0, 'builtins.setattr': 0, 'builtins.delattr': 0, 'heapq.heappush': 0, 'heapq.heapify': 0, 'heapq.heappop': 0,
            'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.multiply.at': 0, 'numpy.divide.at': 0, 'random.shuffle': 0, 'networkx.set_node_attributes': 0, 'networkx.set_edge_attributes': 0, 'networkx.add_path': 0, 'networkx.add_cycle': 0}
NONDET = ('random.', 'os.urandom', 'os.getpid', 'os.environ', 'uuid.', 'secrets.', 'time.', 'datetime.', 'builtins.id', 'builtins.hash', 'builtins.input', 'threading.', 'os.times', 'tempfile.')
OK_NP_RANDOM = {'RandomState', 'mtrand', 'Generator', 'SeedSequence', 'MT19937', 'PCG64', 'Philox', 'BitGenerator', 'default_rng', 'mtrand.RandomState'}
SCALARS = {'shape', 'size', 'ndim', 'dtype', 'name', 'order', 'o', 'nbytes', 'itemsize', 'strides', 'kind'}
SOURCES = ('random_state', 'rng', 'seed')
BUILTIN = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
EMPTY = frozenset()
RNG, SEED, KW, SELF, NPR, NONE = ('rng',), ('seed',), ('kw',), ('self',), ('np.random',), ('const', None)
INERT = {'rng', 'seed', 'kw', 'self', 'np.random', 'const', 'ext', 'fn', 'cls', 'closure', 'glob', 'super'}

def derived(tags):
    out = set()
    for t in tags:
        if t[0] in ('p', 'sa'): out.add((t[0], t[1], True))
        elif t[0] == 'in': out.add(t)
        elif t[0] == 'glob': out.add(t)
    return frozenset(out)
def members(tags):
    """tags of an element or attribute of a value"""
    out = set()
    for t in tags:
        if t[0] in ('p', 'sa'): out.add((t[0], t[1], True))
        elif t[0] == 'in': out.add(t[1])
        elif t[0] in ('glob', 'fn', 'cls', 'ext'): out.add(t)
    return frozenset(out)
def wrap(tags):
    out = set()
    for t in tags:
        if t[0] in ('const',): continue
        out.add(t if t[0] == 'in' else ('in', t))
    return frozenset(out)

class Summary:
    def __init__(self):
        self.sites = {}                 # (kind, line, col) -> [message, ok]
        self.writes = {}                # parameter -> {('in' | 'aug', line)}
        self.selfwrites, self.selfassign, self.moduse = {}, {}, {}
        self.draws, self.sources, self.kwsource = False, set(), False
        self.returns = set()
        self.maxuse = 0
        self.callees = set()
    def key(self):
        return (frozenset((k, frozenset(v)) for k, v in self.writes.items()), self.draws, frozenset(self.sources), self.kwsource, frozenset(self.returns), frozenset((k, frozenset(v)) for k, v in self.selfwrites.items()))

class Env:
    def __init__(self, vars=None, use=0, popped=False, dead=False): self.vars, self.use, self.popped, self.dead = dict(vars or {}), use, popped, dead
    def copy(self): return Env(self.vars, self.use, self.popped, self.dead)
    def join(self, o):
        if self.dead: return o.copy()
        if o.dead: return self.copy()
        v = dict(self.vars)
        for k, t in o.vars.items(): v[k] = v.get(k, EMPTY) | t
        return Env(v, max(self.use, o.use), self.popped and o.popped)

class Effects:
    """effect summaries of the functions of a repository, by function (mutual recursion: iterated to a fixpoint)"""
    def __init__(self, repo, modules, none_params=('T_max',)):
        self.repo, self.mods, self.none_params = repo, {}, set(none_params)
        for m in modules:
            mod = repo.module(m)
            if mod is not None: self.mods[m] = mod
        self.sum, self.busy = {}, set()
        self.methods = {}               # method name -> [(mod, class, node)]
        self.functions = {}             # qual -> (mod, class or None, node)
        for n, mod in self.mods.items():
            for st in ast.walk(mod.tree):
                if isinstance(st, ast.ClassDef):
                    for f in st.body:
                        if isinstance(f, ast.FunctionDef):
                            self.methods.setdefault(f.name, []).append((mod, st, f)); self.functions['%s:%s.%s' % (n, st.name, f.name)] = (mod, st, f)
            for f in mod.tree.body:
                for g in ([f] if isinstance(f, ast.FunctionDef) else [x for x in ast.walk(f) if isinstance(x, ast.FunctionDef)] if isinstance(f, (ast.If, ast.Try)) else []):
                    self.functions['%s:%s' % (n, g.name)] = (mod, None, g)
    def summary(self, qual):
        if qual in self.sum and qual not in self.busy: return self.sum[qual]
        if qual in self.busy: self.rec = True; return self.sum[qual]
        mod, cls, node = self.functions[qual]
        self.busy.add(qual); self.sum[qual] = Summary()
        for _ in range(6):
            s = Func(self, mod, cls, node, qual).run()
            same = s.key() == self.sum[qual].key()
            self.sum[qual] = s
            if same: break
        self.busy.discard(qual)
        return self.sum[qual]
    def owner(self, qual): return self.functions[qual][1]
    def user_attrs(self, mod, cls):
        """attributes of a class that may hold data given by the user"""
        names, todo, seen = set(), [(mod, cls)], set()
        while todo:
            m, c = todo.pop()
            if c.name in seen: continue
            seen.add(c.name)
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    q = '%s:%s.%s' % (m.name, c.name, f.name)
                    if q in self.functions:
                        for a, tags in self.summary(q).selfassign.items():
                            if any(t[0] == 'p' or t[0] == 'in' and t[1][0] == 'p' and False for t in tags): names.add(a)
            for b in c.bases:
                if isinstance(b, ast.Name) and b.id in m.defs and isinstance(m.defs[b.id], ast.ClassDef): todo.append((m, m.defs[b.id]))
        return names

class Func:
    def __init__(self, fx, mod, cls, node, qual):
        self.fx, self.mod, self.cls, self.node, self.qual, self.s = fx, mod, cls, node, qual, Summary()
        self.ret = set(); self.jumps = []
    # ---- sites
    def site(self, kind, node, msg, ok):
        k = (kind, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        if k in self.s.sites: self.s.sites[k][1] = self.s.sites[k][1] and bool(ok)
        else: self.s.sites[k] = [msg, bool(ok)]
        if not ok: self.s.sites[k][0] = msg
    def write(self, tags, node, how='in'):
        for t in tags:
            if t[0] == 'p':
                h = 'in' if how == 'in' or t[2] else 'aug'
                self.s.writes.setdefault(t[1], set()).add((h, node.lineno))
            elif t[0] == 'sa': self.s.selfwrites.setdefault(t[1], set()).add((how if not t[2] else 'in', node.lineno))
            elif t[0] == 'glob': self.site('module state', node, 'module-level state %s is modified' % t[1], False)
            elif t[0] in ('fn', 'cls'): self.site('module state', node, 'state attached to %s is modified' % t[1], False)
    def run(self):
        a = self.node.args
        env = Env()
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in self.node.decorator_list)
        self.params = names
        for i, n in enumerate(names):
            if self.cls is not None and i == 0 and not static: env.vars[n] = frozenset([SELF]); self.selfname = n
            elif n == 'rng': env.vars[n] = frozenset([RNG]); self.s.sources.add(n)
            elif n in ('random_state', 'seed'): env.vars[n] = frozenset([SEED]); self.s.sources.add(n)
            elif n in self.fx.none_params: env.vars[n] = frozenset([NONE])
            else: env.vars[n] = frozenset([('p', n, False)])
        if a.vararg: env.vars[a.vararg.arg] = frozenset([('in', ('p', a.vararg.arg, True))])
        if a.kwarg: env.vars[a.kwarg.arg] = frozenset([KW])
        for d in self.node.decorator_list:
            n = ast.unparse(d)
            if 'cache' in n and 'cached_property' not in n: self.memo = d
        self.block(self.node.body, env)
        for d in self.node.decorator_list:
            if 'cache' in ast.unparse(d) and self.s.draws: self.site('module state', self.node, 'results are memoised across calls', False)
        # mutable default values
        defs = list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in defs:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)) and x.arg in self.s.writes:
                self.site('module state', self.node, 'the default value of %s is modified' % x.arg, False)
        self.s.returns = set(t for t in self.ret if t[0] in ('p', 'rng', 'seed', 'in', 'fn') or t[0] == 'sa')
        return self.s
    # ---- names
    def name(self, n, env):
        if n in env.vars: return env.vars[n]
        return self.globalname(self.mod, n)
    def globalname(self, mod, n, depth=0):
        if n in mod.defs:
            d = mod.defs[n]
            if isinstance(d, ast.FunctionDef): return frozenset([('fn', mod.name + ':' + n)])
            if isinstance(d, ast.ClassDef): return frozenset([('cls', mod.name + ':' + n)])
            if d[0] == 'mod': return self.extname(d[1])
            if d[0] == 'from':
                m = self.fx.mods.get(d[1])
                if m is not None and depth < 5: return self.globalname(m, d[2], depth + 1)
                return self.extname(d[1] + '.' + d[2])
            if d[0] == 'assign': return frozenset([('glob', n)])
        if n in BUILTIN: return frozenset([('ext', 'builtins.' + n)])
        return EMPTY
    def extname(self, full):
        if full in self.fx.mods: return frozenset([('ext', full)])
        if full == 'numpy.random': return frozenset([NPR])
        return frozenset([('ext', full)])
    # ---- statements
    def block(self, body, env):
        for st in body:
            if env.dead: return
            self.stmt(st, env)
    def set(self, env, other):
        env.vars, env.use, env.popped, env.dead = other.vars, other.use, other.popped, other.dead
    def stmt(self, st, env):
        k = type(st).__name__
        m = getattr(self, 's_' + k, None)
        if m: return m(st, env)
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr): self.ev(c, env)
    def s_Expr(self, st, env): self.ev(st.value, env)
    def s_Return(self, st, env):
        if st.value is not None: self.ret |= self.ev(st.value, env)
        env.dead = True
    def s_Raise(self, st, env):
        if st.exc is not None: self.ev(st.exc, env)
        env.dead = True
    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets: self.bind(t, v, env, st.value)
    def s_AnnAssign(self, st, env):
        if st.value is not None: self.bind(st.target, self.ev(st.value, env), env, st.value)
    def bind(self, t, v, env, value=None):
        if isinstance(t, ast.Name): env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(value.elts) + list(t.elts)):
                vs = [self.peek(x, env) for x in value.elts]
                for x, y in zip(t.elts, vs): self.bind(x, y, env)
            else:
                for x in t.elts: self.bind(x.value if isinstance(x, ast.Starred) else x, wrap(members(v)) if isinstance(x, ast.Starred) else members(v), env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            for x in b:
                if x == SELF: self.s.selfassign.setdefault(t.attr, set()).update(v)
                elif x[0] == 'ext': self.site('module state', t, 'attribute %s of module %s is modified' % (t.attr, x[1]), False)
            self.write(frozenset(x for x in b if x[0] not in ('ext',)), t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env); self.ev(t.slice, env)
            if KW in b and isinstance(t.slice, ast.Constant) and t.slice.value in SOURCES: env.popped = False
            self.write(b, t)
            # the container now holds v
            if isinstance(t.value, ast.Name) and t.value.id in env.vars and not any(x[0] == 'kw' for x in b): env.vars[t.value.id] = env.vars[t.value.id] | EMPTY
        elif isinstance(t, ast.Starred): self.bind(t.value, v, env)
    def s_AugAssign(self, st, env):
        v = self.ev(st.value, env)
        if isinstance(st.target, ast.Name):
            b = self.name(st.target.id, env)
            self.write(b, st, 'aug')
            if any(x[0] in ('glob',) for x in b) and st.target.id not in env.vars: self.site('module state', st, 'module-level state is modified', False)
        elif isinstance(st.target, ast.Subscript):
            self.write(self.ev(st.target.value, env), st); self.ev(st.target.slice, env)
        elif isinstance(st.target, ast.Attribute):
            b = self.ev(st.target.value, env)
            for x in b:
                if x == SELF: self.s.selfwrites.setdefault(st.target.attr, set()).add(('aug', st.lineno))
                elif x[0] == 'ext': self.site('module state', st, 'module state is modified', False)
            self.write(b, st)
    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, (ast.Subscript, ast.Attribute)): self.write(self.ev(t.value, env), st)
            elif isinstance(t, ast.Name): env.vars.pop(t.id, None)
    def s_Global(self, st, env):
        self.site('module state', st, 'a module-level variable may be rebound', False)
    def s_Import(self, st, env):
        for a in st.names: env.vars[a.asname or a.name.split('.')[0]] = self.extname(a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, st, env):
        base = st.module or ''
        if st.level:
            base = '.'.join(self.mod.name.split('.')[:-st.level] + ([st.module] if st.module else []))
        for a in st.names:
            m = self.fx.mods.get(base)
            env.vars[a.asname or a.name] = self.globalname(m, a.name) if m is not None else self.extname(base + '.' + a.name)
    def s_FunctionDef(self, st, env):
        for d in st.args.defaults + [x for x in st.args.kw_defaults if x is not None]: self.ev(d, env)
        e = env.copy()
        for x in st.args.posonlyargs + st.args.args + st.args.kwonlyargs: e.vars[x.arg] = EMPTY
        ret = self.ret; self.ret = set()
        e.vars[st.name] = EMPTY
        self.block(st.body, e)
        env.vars[st.name] = frozenset([('closure', frozenset(t for t in self.ret))]); self.ret = ret
        env.use = max(env.use, e.use)
    s_AsyncFunctionDef = s_FunctionDef
    def truth(self, e, env):
        """True, False or None (unknown) for tests on parameters taken to be None"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, env); return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(v, env) for v in e.values]
            if isinstance(e.op, ast.And): return False if False in ts else (True if all(t is True for t in ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if isinstance(e, ast.Name) and self.name(e.id, env) == frozenset([NONE]): return False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and isinstance(e.left, ast.Name) and self.name(e.left.id, env) == frozenset([NONE]):
            if isinstance(e.ops[0], (ast.Is, ast.Eq)): return True
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)): return False
        return None
    def s_If(self, st, env):
        t = self.truth(st.test, env)
        if t is None: self.ev(st.test, env)
        start, drew = env.copy(), len(self.s.sites)
        a, b = env.copy(), env.copy()
        ts = st.test
        if isinstance(ts, ast.Compare) and len(ts.ops) == 1 and isinstance(ts.left, ast.Constant) and ts.left.value in SOURCES and KW in self.peek(ts.comparators[0], env):
            if isinstance(ts.ops[0], ast.In): b.popped = True
            elif isinstance(ts.ops[0], ast.NotIn): a.popped = True
        if t is not False: self.block(st.body, a)
        else: a.dead = True
        if t is not True: self.block(st.orelse, b)
        else: b.dead = True
        src = {RNG, NPR, SEED, NONE}
        if t is None and (len(self.s.sites) > drew or any(x.use != start.use or any(tg != start.vars.get(k) and (tg | start.vars.get(k, EMPTY)) & src for k, tg in x.vars.items()) for x in (a, b))): self.tested(st.test, start)
        self.set(env, a.join(b))
    def loop(self, st, env, head):
        brk = []
        for _ in range(3):
            self.jumps.append([])
            e = env.copy(); head(e); self.block(st.body, e)
            jumps = self.jumps.pop()
            brk += [x for k, x in jumps if k == 'break']
            for x in [e] + [x for k, x in jumps if k == 'continue']: self.set(env, env.join(x))
            if env.use > 3: env.use = 3
        e = env.copy(); self.block(st.orelse, e)
        self.set(env, env.join(e))
        for x in brk: self.set(env, env.join(x))
    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        self.loop(st, env, lambda e: self.bind(st.target, members(it), e))
    def s_While(self, st, env):
        if self.truth(st.test, env) is False: return
        self.loop(st, env, lambda e: self.ev(st.test, e))
    def s_With(self, st, env):
        for i in st.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None: self.bind(i.optional_vars, v, env)
        self.block(st.body, env)
    def s_Try(self, st, env):
        start = env.copy()
        self.block(st.body, env)
        mid = Env(start.join(Env(env.vars, env.use, env.popped)).vars, max(start.use, env.use), start.popped and env.popped)
        outs = []
        for h in st.handlers:
            e = mid.copy()
            if h.type is not None: self.ev(h.type, e)
            if h.name: e.vars[h.name] = EMPTY
            self.block(h.body, e); outs.append(e)
        if not env.dead: self.block(st.orelse, env)
        for e in outs: self.set(env, env.join(e))
        dead = env.dead; env.dead = False
        self.block(st.finalbody, env); env.dead = env.dead or dead
    def s_Break(self, st, env, kind='break'):
        if self.jumps: self.jumps[-1].append((kind, env.copy()))
        env.dead = True
    def s_Continue(self, st, env): self.s_Break(st, env, 'continue')
    def tested(self, e, env):
        """the truth value of the source given: an integer seed 0 would count as no source"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return self.tested(e.operand, env)
        if isinstance(e, ast.BoolOp):
            for v in e.values: self.tested(v, env)
            return
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) and SEED in self.peek(e, env): self.site('seed', e, 'the truth value of the random state given is tested: seed 0 counts as no random state', False)
    # ---- expressions
    def peek(self, e, env):
        """value without recording effects twice"""
        s, r = self.s, self.ret
        self.s = Summary(); self.ret = set()
        try: return self.ev(e, env.copy())
        finally: self.s, self.ret = s, r
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m: return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr): self.ev(c, env)
        return EMPTY
    def e_Name(self, e, env): return self.name(e.id, env)
    def e_Constant(self, e, env): return frozenset([NONE]) if e.value is None else EMPTY
    def e_Tuple(self, e, env):
        out = frozenset()
        for x in e.elts: out |= wrap(self.ev(x, env))
        return out
    e_List = e_Set = e_Tuple
    def e_Dict(self, e, env):
        out = frozenset()
        for k, v in zip(e.keys, e.values):
            if k is not None: self.ev(k, env)
            out |= wrap(self.ev(v, env))
        return out
    def e_Starred(self, e, env): return members(self.ev(e.value, env))
    def e_IfExp(self, e, env):
        t = self.truth(e.test, env)
        if t is None: self.ev(e.test, env); self.tested(e.test, env)
        out = EMPTY
        if t is not False: out |= self.ev(e.body, env)
        if t is not True: out |= self.ev(e.orelse, env)
        return out
    def e_BoolOp(self, e, env):
        out = EMPTY
        for v in e.values[:-1]: self.tested(v, env)
        for v in e.values:
            if self.truth(v, env) is False and isinstance(e.op, ast.And): return out
            out |= self.ev(v, env)
        return out
    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); self.bind(e.target, v, env); return v
    def e_Lambda(self, e, env):
        en = env.copy()
        for x in e.args.args + e.args.kwonlyargs: en.vars[x.arg] = EMPTY
        v = self.ev(e.body, en)
        env.use = max(env.use, en.use)
        return frozenset([('closure', v)])
    def comp(self, e, elts, env):
        en = env.copy()
        for g in e.generators:
            it = self.ev(g.iter, en)
            self.bind(g.target, members(it), en)
            for c in g.ifs: self.ev(c, en)
        out = EMPTY
        for _ in range(2):
            for x in elts: out |= wrap(self.ev(x, en))
        env.use = max(env.use, en.use)
        return out
    def e_ListComp(self, e, env): return self.comp(e, [e.elt], env)
    e_SetComp = e_GeneratorExp = e_ListComp
    def e_DictComp(self, e, env): return self.comp(e, [e.key, e.value], env)
    def e_Subscript(self, e, env):
        b = self.ev(e.value, env); self.ev(e.slice, env)
        if KW in b: return self.kwget(e.slice)
        return members(b)
    def kwget(self, k):
        if isinstance(k, ast.Constant) and k.value in SOURCES: self.s.kwsource = True; return frozenset([RNG if k.value == 'rng' else SEED])
        if isinstance(k, ast.Constant) and k.value in self.fx.none_params: return frozenset([NONE])
        return frozenset([('p', '**' + str(k.value) if isinstance(k, ast.Constant) else '**', False)])
    def e_Attribute(self, e, env):
        b = self.ev(e.value, env)
        out = set()
        for t in b:
            if t == SELF: out.add(('sa', e.attr, False))
            elif e.attr in SCALARS: pass
            elif t[0] == 'ext':
                full = t[1] + '.' + e.attr
                if t[1] in self.fx.mods: out |= self.globalname(self.fx.mods[t[1]], e.attr)
                else: out |= self.extname(full)
            elif t == NPR: out.add(('ext', 'numpy.random.' + e.attr))
            elif t[0] in ('p', 'sa'): out.add((t[0], t[1], True))
            elif t[0] == 'in': out.add(t[1])
            elif t[0] in ('fn', 'cls', 'glob'): out.add(('glob', t[1] + '.' + e.attr))
        for t in list(out):
            if t[0] == 'ext': self.external_name(t[1], e)
        return frozenset(out)
    def external_name(self, full, node):
        if full.startswith('numpy.random.') and full[len('numpy.random.'):].split('.')[0] not in OK_NP_RANDOM:
            self.site('generator', node, 'the global NumPy generator is used: %s' % full, False)
        if full == 'numpy.random.mtrand._rand': self.site('generator', node, 'the global NumPy generator is used: %s' % full, False)
        if full.startswith('time.') or full.startswith('datetime.') or full.startswith('random.') or full.startswith(('uuid.', 'secrets.', 'os.urandom', 'os.environ', 'os.getpid')):
            self.site('determinism', node, 'the result may depend on %s' % full, False)
    def e_Call(self, e, env):
        f = e.func
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            args = [self.ev(a, env) for a in e.args]
            kws = [(k.arg, self.ev(k.value, env)) for k in e.keywords]
            out = EMPTY
            if not b: out |= self.method(EMPTY, f.attr, e, args, kws, env)
            for t in b: out |= self.method(frozenset([t]), f.attr, e, args, kws, env)
            return out
        fv = self.ev(f, env)
        if isinstance(f, ast.Name) and f.id == 'super' and fv == frozenset([('ext', 'builtins.super')]): return frozenset([SELF])
        args = [self.ev(a, env) for a in e.args]
        kws = [(k.arg, self.ev(k.value, env)) for k in e.keywords]
        out = EMPTY
        for t in fv: out |= self.call(t, e, args, kws, env)
        return out
    def method(self, b, name, e, args, kws, env):
        t = next(iter(b), None)
        if t is not None and t[0] in ('ext', 'np.random'):
            if t == NPR: full = 'numpy.random.' + name
            elif t[1] in self.fx.mods:
                out = EMPTY
                for g in self.globalname(self.fx.mods[t[1]], name): out |= self.call(g, e, args, kws, env)
                return out
            else: full = t[1] + '.' + name
            self.external_name(full, e)
            return self.call(('ext', full), e, args, kws, env)
        if t is not None and t[0] == 'in' and t[1][0] in ('ext', 'fn') and name in ('get', 'pop'): return frozenset([t[1]])
        if t == RNG:
            if name in DRAWS or name.startswith('standard_'): self.s.draws = True; self.site('generator', e, 'draw on the generator given', True)
            elif name in ('seed', 'set_state'): self.site('generator', e, 'the generator given is reseeded', False)
            if name == 'shuffle' and args: self.write(args[0], e)
            return EMPTY
        if t == SEED and (name in DRAWS):
            self.s.draws = True; self.site('generator', e, 'draw on the argument random_state, which may be a seed', False); return EMPTY
        if t == KW:
            if name in ('get', 'pop', 'setdefault') and e.args:
                if name == 'pop' and isinstance(e.args[0], ast.Constant) and e.args[0].value in SOURCES: env.popped = True
                return self.kwget(e.args[0])
            return EMPTY
        if t == SELF or t is None or t[0] in ('p', 'sa', 'in', 'glob', 'const', 'cls', 'closure', 'fn'):
            if t is not None and t[0] == 'cls':
                q = t[1] + '.' + name
                if q in self.fx.functions: return self.callq([q], e, args, kws, env, skip=0)
            cands = []
            if t == SELF and self.cls is not None:
                cands = [(m, c, n) for m, c, n in self.fx.methods.get(name, []) if c.name == self.cls.name and m is self.mod] or [(m, c, n) for m, c, n in self.fx.methods.get(name, []) if m is self.mod]
                cands = cands or self.fx.methods.get(name, [])
            elif t is None or t[0] not in ('fn', 'closure', 'const'): cands = self.fx.methods.get(name, [])
            drawer = t is not None and name in DRAWS and t[0] in ('p', 'sa') and not cands
            if drawer:
                self.s.draws = True
                if t[0] == 'p' and not t[2]: self.s.sources.add(t[1]); self.site('generator', e, 'draw on the parameter %s' % t[1], True)
                elif t[0] == 'p' and t[1] == 'kwargs': pass
                elif (self.s.sources or self.s.kwsource) and not (t[0] == 'p'): self.site('generator', e, 'draw on a stored generator instead of the one given', False)
            if name == 'rvs': self.rvs(e, kws)
            if cands and not (name in MUTATORS and t != SELF): return self.callq(['%s:%s.%s' % (m.name, c.name, n.name) for m, c, n in cands], e, args, kws, env, skip=1)
            if t is None: return EMPTY
            if t == SELF: return EMPTY
            if name in MUTATORS:
                self.write(b, e)
                if name in ('setdefault', 'pop', 'get'): return members(b)
                return EMPTY
            if name in VIEWS_M:
                if name == 'astype' and not any(k == 'copy' for k, _ in kws): return EMPTY
                return members(b) if name in ('get', 'items', 'values', '__getitem__') else derived(b)
            return EMPTY
        return EMPTY
    def rvs(self, e, kws):
        ok = any(k == 'random_state' and (RNG in v) for k, v in kws)
        self.s.draws = True
        self.site('generator', e, 'scipy draws from the global generator (no random_state)' if not ok else 'scipy draws from the generator given', ok)
    def call(self, t, e, args, kws, env):
        if t[0] == 'fn': return self.callq([t[1]], e, args, kws, env)
        if t[0] == 'closure':
            return frozenset(x for x in t[1])
        if t[0] == 'cls':
            q = t[1] + '.__init__'
            if q in self.fx.functions: self.callq([q], e, args, kws, env, skip=1)
            out = EMPTY
            for a in args: out |= wrap(a)
            for _, v in kws: out |= wrap(v)
            return frozenset(x for x in out if x[1][0] in ('p', 'sa'))
        if t[0] == 'glob':          # a callable assigned at module level (namedtuple)
            out = EMPTY
            for a in args: out |= wrap(a)
            for _, v in kws: out |= wrap(v)
            return frozenset(x for x in out if x[1][0] in ('p', 'sa'))
        if t[0] != 'ext': return EMPTY
        full = t[1]
        if full.startswith(('random.', 'uuid.', 'secrets.', 'time.', 'datetime.', 'os.urandom', 'os.getpid')) or full in ('builtins.id', 'builtins.hash', 'builtins.input'):
            self.site('determinism', e, 'the result may depend on %s' % full, False); return EMPTY
        if full.startswith('numpy.random.'):
            n = full[len('numpy.random.'):]
            if n in ('RandomState', 'default_rng', 'SeedSequence', 'MT19937', 'mtrand.RandomState') and not args and not kws:
                self.site('determinism', e, 'a generator is created from system entropy', False)
            elif n.split('.')[0] not in OK_NP_RANDOM: self.s.draws = True; self.site('generator', e, 'the global NumPy generator is used: %s' % full, False)
            return EMPTY
        if full.endswith('.rvs'): self.rvs(e, kws); return EMPTY
        if full in WRITES_F and len(args) > WRITES_F[full]: self.write(args[WRITES_F[full]], e)
        for k, v in kws:
            c = next((x.value for x in e.keywords if x.arg == k), None)
            if k == 'out': self.write(v, e)
            if k and k.startswith('overwrite_') and not (isinstance(c, ast.Constant) and not c.value):
                i = {'overwrite_b': 1}.get(k, 0)
                if len(args) > i: self.write(args[i], e)
            if k == 'copy' and full == 'numpy.array' and isinstance(c, ast.Constant) and c.value is False and args: return derived(args[0])
            if k == 'copy' and full == 'numpy.nan_to_num' and isinstance(c, ast.Constant) and c.value is False and args: self.write(args[0], e)
        if full == 'numpy.einsum' and len(args) == 2: return derived(args[1])
        if full in VIEWS_F and args: return derived(args[0]) if full != 'builtins.getattr' else members(args[0])
        if full in MEMBERS_F:
            out = EMPTY
            for a in args: out |= wrap(members(a))
            for _, v in kws: out |= wrap(v)
            return out
        return EMPTY
    def consume(self, n, e, env):
        env.use += 1
        self.site('seed', e, 'the random state given is used once' if env.use <= 1 else 'the random state given is turned into a generator more than once: an integer seed restarts the stream', env.use <= 1)
    def callq(self, quals, e, args, kws, env, skip=0):
        out = EMPTY
        for q in quals:
            mod, cls, node = self.fx.functions.get(q) or (None, None, None)
            if node is None: continue
            self.s.callees.add(q)
            if q == 'dppy.utils:check_random_state':
                v = args[0] if args else next((v for k, v in kws if k in ('seed', 'random_state')), EMPTY)
                if SEED in v: self.consume('seed', e, env); out |= frozenset([RNG])
                elif RNG in v: out |= frozenset([RNG])
                elif NPR in v or NONE in v or not (args or kws): self.site('generator', e, 'the global NumPy generator is used', False); out |= frozenset([NPR])
                elif any(x[0] in ('p',) for x in v):
                    for x in v:
                        if x[0] == 'p': self.s.sources.add(x[1])
                    out |= frozenset([RNG])
                else: out |= EMPTY      # a generator of its own, from a fixed seed
                continue
            s = self.fx.summary(q)
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args][skip if cls is not None else 0:]
            kwonly = [x.arg for x in a.kwonlyargs]
            bound = {}
            star = any(isinstance(x, ast.Starred) for x in e.args)
            for n, v in zip(names, args):
                bound[n] = v
            if len(args) > len(names) and a.vararg: bound[a.vararg.arg] = frozenset().union(*[wrap(v) for v in args[len(names):]])
            expands = []
            for k, v in kws:
                if k is None: expands.append(v)
                elif k in names or k in kwonly: bound[k] = v
                elif k in SOURCES and s.kwsource: bound['**source'] = v
                elif a.kwarg: bound['**' + k] = v
            kwrest = any(KW in v for v in expands)
            # random source
            if s.draws or self.draws_later(q):
                self.s.draws = True
                srcs = [n for n in s.sources] + (['**source'] if s.kwsource else [])
                for n in srcs:
                    v = bound.get(n)
                    if v is None and n in names and star: continue
                    if v is None and kwrest and not env.popped and n.lstrip('*') in SOURCES + ('source',):
                        self.consume('kw', e, env); self.site('generator', e, '%s gets the random state given' % q, True); self.s.kwsource = True
                        continue
                    if v is None:
                        self.site('generator', e, '%s is called without the random source: it draws from the global generator' % q, False); continue
                    if SEED in v: self.consume('seed', e, env)
                    ps = [x for x in v if x[0] == 'p' and not x[2]]
                    if ps and not (RNG in v or SEED in v):
                        for x in ps: self.s.sources.add(x[1])
                        self.site('generator', e, '%s gets a parameter as source' % q, True)
                    else:
                        bad = NONE in v or NPR in v or any(x[0] == 'sa' for x in v)
                        self.site('generator', e, '%s draws from the generator given' % q if not bad else '%s does not get the generator given' % q, not bad)
            # frame
            for p, ws in s.writes.items():
                v = bound.get(p, EMPTY)
                if p.startswith('**') and p not in bound: v = frozenset([('p', p, False)]) if kwrest else EMPTY
                if any(h == 'in' for h, _ in ws): self.write(v, e)
                elif v: self.write(v, e, 'aug')
            if cls is not None and skip and isinstance(e.func, ast.Attribute):
                recv = self.peek(e.func.value, env)
                if SELF in recv:
                    for attr, ws in s.selfwrites.items(): self.s.selfwrites.setdefault(attr, set()).update((h, e.lineno) for h, _ in ws)
            # result
            for t in s.returns:
                if t[0] == 'p': out |= (derived(bound.get(t[1], EMPTY)) if t[2] else bound.get(t[1], EMPTY))
                elif t[0] == 'in' and t[1][0] == 'p': out |= wrap(bound.get(t[1][1], EMPTY))
                elif t[0] == 'rng': out |= frozenset([RNG])
                elif t[0] == 'sa' and isinstance(e.func, ast.Attribute) and SELF in self.peek(e.func.value, env): out |= frozenset([t])
                elif t[0] == 'fn': out |= frozenset([t])
        return out
    def draws_later(self, q): return False
