"""Replay layer: executes the real code of /repo on concrete inputs.

It serves two purposes: it looks for a concrete failing input when an obligation is not discharged, and it is the
bounded stand-in (labelled bounded in the evidence) for what the verifier does not reach. Laws of samplers are computed
exactly, by enumerating every outcome of every random draw of the real function (ScriptedRNG), not estimated."""
import os, sys, json, time, math, itertools, traceback, signal, hashlib, warnings, io, contextlib
REPO = os.environ.get('PVC_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ.setdefault(v, '1')
warnings.simplefilter('ignore')
import numpy as np
import scipy.linalg as la

class NotEnumerable(Exception): pass
class Truncated(Exception): pass
class Fail(Exception): pass

EPS_BRANCH = 1e-12

class U:
    """uniform variate on [0,1), known only through comparisons; f strictly monotone (inc) transform with inverse inv"""
    __array_priority__ = 1000
    def __init__(self, rec, f=lambda u: u, inv=lambda x: x, inc=True):
        self.rec, self.f, self.inv, self.inc = rec, f, inv, inc
    def _lt(self, x):
        """u < x with x a real threshold on the underlying uniform"""
        r = self.rec
        lo, hi = r['lo'], r['hi']
        x = float(x)
        if x != x: return None
        if x <= lo: return False
        if x >= hi: return True
        p = (x - lo) / (hi - lo)
        d = r['rng'].decide([p, 1 - p])
        if d == 0: r['hi'] = x
        else: r['lo'] = x
        return d == 0
    def _below(self, y):
        try: y = float(y)
        except TypeError: raise NotEnumerable('comparison with %r' % (y,))
        if y != y: return None
        try: x = self.inv(y)
        except (ValueError, OverflowError, ZeroDivisionError): raise NotEnumerable('inverse')
        b = self._lt(x)
        return b if self.inc else (None if b is None else not b)
    def _cmp(self, y, neg):
        if isinstance(y, np.ndarray):
            return np.array([self._cmp(v, neg) for v in y.ravel()], dtype=bool).reshape(y.shape)
        if isinstance(y, U): raise NotEnumerable('comparison of two uniforms')
        b = self._below(y)
        if b is None: return False
        return (not b) if neg else b
    def __lt__(self, y): return self._cmp(y, False)
    def __le__(self, y): return self._cmp(y, False)
    def __gt__(self, y): return self._cmp(y, True)
    def __ge__(self, y): return self._cmp(y, True)
    def __eq__(self, y): return False
    def __ne__(self, y): return True
    __hash__ = None
    def _aff(self, a, b):
        a, b = float(a), float(b)
        if a == 0: return b
        return U(self.rec, lambda u: a * self.f(u) + b, lambda y: self.inv((y - b) / a), self.inc if a > 0 else not self.inc)
    def _arr(self, y, g):
        if isinstance(y, np.ndarray):
            out = np.empty(y.shape, dtype=object)
            for i in np.ndindex(*y.shape): out[i] = g(y[i])
            return out
        if isinstance(y, U): raise NotEnumerable('two uniforms')
        return g(y)
    def __mul__(self, y): return self._arr(y, lambda v: self._aff(v, 0))
    __rmul__ = __mul__
    def __add__(self, y): return self._arr(y, lambda v: self._aff(1, v))
    __radd__ = __add__
    def __sub__(self, y): return self._arr(y, lambda v: self._aff(1, -v))
    def __rsub__(self, y): return self._arr(y, lambda v: self._aff(-1, v))
    def __truediv__(self, y): return self._arr(y, lambda v: self._aff(1.0 / v, 0))
    def __neg__(self): return self._aff(-1, 0)
    def log(self): return U(self.rec, lambda u: math.log(self.f(u)), lambda y: self.inv(math.exp(min(y, 700))), self.inc)
    def exp(self): return U(self.rec, lambda u: math.exp(self.f(u)), lambda y: self.inv(math.log(y) if y > 0 else -math.inf), self.inc)
    def sqrt(self): return U(self.rec, lambda u: math.sqrt(self.f(u)), lambda y: self.inv(y * y if y > 0 else -math.inf), self.inc)
    def __abs__(self): return self
    def floor(self):
        r = self.rec
        ends = sorted([self.f(r['lo']), self.f(r['hi'])])
        a = math.floor(ends[0] + 1e-12)
        while True:
            if a + 1 >= ends[1] - 1e-12: return a
            if self._below(a + 1): return a
            a += 1
    def __int__(self): return int(self.floor())
    __trunc__ = __floor__ = __int__
    def __index__(self): raise NotEnumerable('index')
    def __float__(self): raise NotEnumerable('float(uniform)')
    def round(self, *a): raise NotEnumerable('round')
    def astype(self, t):
        if np.dtype(t).kind in 'iu': return int(self)
        return self
    def item(self): return self

class ScriptedRNG(np.random.RandomState):
    """RandomState whose draws follow a script; unscripted draws take the first outcome of positive probability"""
    MAXDRAWS = 3000
    def __new__(cls, *a, **k): return super().__new__(cls, 0)
    def __init__(self, prefix=(), mincut=0.0):
        super().__init__(0)
        self.prefix, self.pos, self.trace, self.prob, self.mincut = list(prefix), 0, [], 1.0, mincut
        self.log = []
    def decide(self, ps):
        opts = [i for i, p in enumerate(ps) if p > EPS_BRANCH]
        if not opts: raise NotEnumerable('no outcome')
        i = len(self.trace)
        if i > self.MAXDRAWS: raise Truncated()
        d = self.prefix[i] if i < len(self.prefix) else 0
        if d >= len(opts): raise NotEnumerable('script out of step')
        self.trace.append((d, [ps[o] for o in opts]))
        self.prob *= ps[opts[d]]
        if self.prob < self.mincut: raise Truncated()
        return opts[d]
    def _u(self):
        self.log.append('u')
        return U(dict(lo=0.0, hi=1.0, rng=self))
    def rand(self, *d):
        if not d: return self._u()
        out = np.empty(d, dtype=object)
        for i in np.ndindex(*out.shape): out[i] = self._u()
        return out
    def random_sample(self, size=None):
        if size is None: return self._u()
        return self.rand(*((size,) if np.isscalar(size) else tuple(size)))
    random = random_sample
    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and np.ndim(low) == 0 and np.ndim(high) == 0: return self._u()._aff(high - low, low) if high != low else low
        u = self.random_sample(size if size is not None else np.broadcast(low, high).shape)
        return u * (np.asarray(high) - np.asarray(low)) + low
    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if np.ndim(a) == 0 and not isinstance(a, range) else np.asarray(a)
        n = len(arr)
        if n == 0 and size not in (0,): raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            p = np.asarray(p, dtype=float)
            if p.shape != (n,): raise ValueError("'a' and 'p' must have same size")
            if np.isnan(p).any(): raise ValueError('probabilities contain NaN')
            if (p < 0).any(): raise ValueError('probabilities are not non-negative')
            if abs(p.sum() - 1) > 1.5e-8: raise ValueError('probabilities do not sum to 1')
        else: p = np.full(n, 1.0 / n)
        self.log.append(('choice', n, size, replace))
        if size is None: return arr[self.decide(list(p))]
        shape = (size,) if np.isscalar(size) else tuple(size)
        m = int(np.prod(shape))
        out, w = [], p.copy()
        if not replace and m > n: raise ValueError('Cannot take a larger sample than population when replace=False')
        for _ in range(m):
            k = self.decide(list(w / w.sum()))
            out.append(k)
            if not replace: w[k] = 0
        return arr[np.array(out, dtype=int)].reshape(shape + arr.shape[1:])
    def randint(self, low, high=None, size=None, dtype=int):
        if high is None: low, high = 0, low
        if np.ndim(low) or np.ndim(high): raise NotEnumerable('array randint')
        if high <= low: raise ValueError('low >= high')
        n = int(high) - int(low)
        self.log.append(('randint', low, high))
        one = lambda: int(low) + self.decide([1.0 / n] * n)
        if size is None: return one()
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([one() for _ in range(int(np.prod(shape)))], dtype=int).reshape(shape)
    def random_integers(self, low, high=None, size=None):
        if high is None: low, high = 1, low
        return self.randint(low, high + 1, size)
    def permutation(self, x):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        self.shuffle(arr)
        return arr
    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.randint(0, i + 1)
            if i != j:
                t = np.copy(x[i]) if isinstance(x, np.ndarray) else x[i]
                x[i] = x[j]; x[j] = t
    def binomial(self, n, p, size=None):
        if np.ndim(n) == 0 and np.ndim(p) == 0 and size is None:
            return self.decide([math.comb(int(n), k) * p ** k * (1 - p) ** (int(n) - k) for k in range(int(n) + 1)])
        nb, pb = np.broadcast_arrays(n, p)
        if size is not None: nb, pb = np.broadcast_to(nb, size), np.broadcast_to(pb, size)
        out = np.zeros(nb.shape, dtype=int)
        for i in np.ndindex(*nb.shape): out[i] = self.binomial(int(nb[i]), float(pb[i]))
        return out
    poisson_tail = 1e-6
    def poisson(self, lam=1.0, size=None):
        if np.ndim(lam) == 0 and size is None:
            ps, k, w = [], 0, math.exp(-lam)
            tot = 0.0
            while tot < 1 - self.poisson_tail and k < 200:
                ps.append(w); tot += w; k += 1; w *= lam / k
            ps.append(max(0.0, 1 - tot))
            d = self.decide(ps)
            if d == len(ps) - 1: raise Truncated()
            return d
        shape = size if size is not None else np.shape(lam)
        l = np.broadcast_to(lam, shape)
        out = np.zeros(l.shape, dtype=int)
        for i in np.ndindex(*l.shape): out[i] = self.poisson(float(l[i]))
        return out
    def _no(self, *a, **k): raise NotEnumerable('continuous draw')
    randn = standard_normal = normal = gamma = standard_gamma = chisquare = beta = exponential = standard_exponential = laplace = geometric = multivariate_normal = multinomial = tomaxint = bytes = lognormal = dirichlet = _no

class RandomPath(ScriptedRNG):
    """a random path through the draws, with its probability"""
    MAXDRAWS = 10 ** 7
    def __init__(self, seed):
        ScriptedRNG.__init__(self)
        self.src = np.random.RandomState(seed)
    def decide(self, ps):
        opts = [i for i, p in enumerate(ps) if p > EPS_BRANCH]
        w = np.array([ps[o] for o in opts])
        d = int(np.searchsorted(np.cumsum(w) / w.sum(), self.src.random_sample()))
        d = min(d, len(opts) - 1)
        self.prob *= ps[opts[d]]
        return opts[d]

def enumerate_law(f, max_paths=60000, mincut=0.0, budget=60.0):
    """law of f(rng) over all outcomes: (dict outcome -> probability, truncated mass, number of paths); exceptions of f
    are outcomes ('raises', type)"""
    law, trunc, n = {}, 0.0, 0
    prefix = []
    t0 = time.time()
    while True:
        rng = ScriptedRNG(prefix, mincut)
        n += 1
        try:
            out = f(rng)
            law[out] = law.get(out, 0.0) + rng.prob
        except Truncated:
            trunc += rng.prob
        except NotEnumerable: raise
        # next prefix
        tr = rng.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= len(tr[i][1]): i -= 1
        if i < 0: break
        prefix = [d for d, _ in tr[:i]] + [tr[i][0] + 1]
        if n >= max_paths or time.time() - t0 > budget:
            done = sum(law.values()) + trunc
            trunc += max(0.0, 1 - done)
            break
    return law, trunc, n

class Harness:
    def __init__(self, prop, tier='quick', seed=1, budget=100.0, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.t0, self.budget = time.time(), budget
        self.failures, self.cases, self.stats = [], {}, {'paths': 0, 'cases': 0, 'skipped_for_time': 0}
        self.notes = []
    quick = property(lambda s: s.tier == 'quick')
    def left(self): return self.budget - (time.time() - self.t0)
    def rng(self, *key):
        h = int(hashlib.sha256(repr((self.seed, self.prop) + key).encode()).hexdigest()[:8], 16)
        return np.random.RandomState(h)
    def case(self, name, fn, inp=None, limit=120):
        """one bounded check; fn raises Fail (or any exception) when the property does not hold on the input"""
        if self.only and name != self.only: return True
        if self.left() < 0:
            self.stats['skipped_for_time'] += 1; return True
        if len(self.failures) >= 25: return True
        fam = name.split('/')[0]
        self.cases[fam] = self.cases.get(fam, 0) + 1
        self.stats['cases'] += 1
        def onalarm(*a): raise Fail('no result within %ss' % limit)
        old = signal.signal(signal.SIGALRM, onalarm); signal.alarm(int(limit))
        state = np.random.get_state()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn()
            return True
        except NotEnumerable as e:
            self.notes.append('%s: not enumerable (%s)' % (name, e)); return None
        except Fail as e:
            self.fail(name, inp, str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = ['%s:%s in %s' % (os.path.basename(t.filename), t.lineno, t.name) for t in tb][-4:]
            self.fail(name, inp, 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:300], ' < '.join(reversed(loc))))
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
        return False
    def fail(self, name, inp, what):
        self.failures.append(dict(check=name, input=jsonable(inp), what=what[:1500]))
    def law(self, name, f, expected, inp=None, tol=1e-7, mincut=0.0, max_paths=60000, nstat=20000, limit=200):
        """exact law of f(rng) against expected: dict outcome -> probability"""
        def go():
            try:
                law, trunc, n = enumerate_law(f, max_paths, mincut, budget=max(5.0, min(60.0, self.left())))
                self.stats['paths'] += n
            except NotEnumerable as e:
                self.notes.append('%s: statistical (%s)' % (name, e))
                return self._stat(name, f, expected, nstat)
            for o in sorted(set(law) | set(expected), key=repr):
                p, q = law.get(o, 0.0), expected.get(o, 0.0)
                if not (p <= q + tol and p >= q - trunc - tol):
                    raise Fail('outcome %s has probability %.10g, expected %.10g (truncated mass %.2g, %d paths)' % (o, p, q, trunc, n))
        return self.case(name, go, inp, limit)
    def _stat(self, name, f, expected, n):
        r = self.rng('stat', name)
        cnt = {}
        t0 = time.time(); m = 0
        while m < n and time.time() - t0 < 20:
            o = f(r); cnt[o] = cnt.get(o, 0) + 1; m += 1
        for o in cnt:
            if expected.get(o, 0.0) < 1e-9: raise Fail('outcome %s observed, impossible according to the specification' % (o,))
        for o, q in expected.items():
            # Chernoff-type bound, threshold 1e-9 after a union bound
            p = cnt.get(o, 0) / m
            thr = math.log(2 * len(expected) / 1e-9)
            kl = (p * math.log(p / q) if p > 0 else 0.0) + ((1 - p) * math.log((1 - p) / (1 - q)) if p < 1 and q < 1 else 0.0)
            if q > 0 and m * kl > thr: raise Fail('outcome %s has frequency %.5g over %d runs, expected %.5g' % (o, p, m, q))
    def raises(self, name, exc, fn, inp=None):
        def go():
            try: v = fn()
            except exc: return
            except Exception as e: raise Fail('%s expected, %s raised: %s' % (exc.__name__, type(e).__name__, str(e)[:200]))
            raise Fail('%s expected, got %r' % (exc.__name__, str(v)[:200]))
        return self.case(name, go, inp, 60)

def need(c, msg, *a):
    if not c: raise Fail(msg % a if a else msg)
def close(a, b, what, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: raise Fail('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    if a.size and not np.allclose(a, b, rtol=tol, atol=tol): raise Fail('%s: got %s, expected %s' % (what, np.array2string(a, threshold=20), np.array2string(b, threshold=20)))

def jsonable(x):
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray): return jsonable(x.tolist()) if x.size <= 200 else 'array%s' % (x.shape,)
    if isinstance(x, (np.integer,)): return int(x)
    if isinstance(x, (np.floating,)): return float(x)
    if isinstance(x, (complex, np.complexfloating)): return str(x)
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    return repr(x)[:200]

# ------------------------------------------------------------------ inputs and reference laws
def orth(r, n, k, complex_=False):
    a = r.randn(n, k) + (1j * r.randn(n, k) if complex_ else 0)
    return la.qr(a, mode='economic')[0]
def proj(r, n, k, complex_=False):
    q = orth(r, n, k, complex_)
    return q.dot(q.conj().T)
def psd(r, n, rank=None, scale=1.0):
    a = r.randn(n, rank or n)
    return scale * a.dot(a.T)
def corr(r, n):
    q = orth(r, n, n)
    return (q * r.uniform(0.05, 0.95, n)).dot(q.T)
def det(A): return np.linalg.det(A) if len(A) else 1.0
def minor(K, S): return det(K[np.ix_(S, S)]) if len(S) else 1.0
def subsets(n, k=None):
    return [s for m in (range(n + 1) if k is None else [k]) for s in itertools.combinations(range(n), m)]
def sequential_law(K, k):
    """law of the ordered sample of the chain rule of the projection kernel K (k first items)"""
    n = len(K)
    r = int(round(np.trace(K).real))
    nrm = np.prod([float(r - i) for i in range(k)])
    out = {}
    for s in itertools.permutations(range(n), k):
        p = minor(K, list(s)).real / nrm
        if p > 1e-13: out[tuple(s)] = p
    return out
def k_law(K, k):
    r = int(round(np.trace(K).real))
    return {s: minor(K, list(s)).real / math.comb(r, k) for s in subsets(len(K), k) if minor(K, list(s)).real > 1e-13}
def L_law(L, k=None):
    w = {s: max(minor(L, list(s)), 0.0) for s in subsets(len(L), k)}
    z = sum(w.values())
    return {s: v / z for s, v in w.items() if v / z > 1e-13}
def K_law(K):
    """general (possibly non symmetric) correlation kernel: P(S) = |det(K - I_{S^c})|"""
    n = len(K); out = {}
    for s in subsets(n):
        d = np.ones(n); d[list(s)] = 0
        p = abs(det(K - np.diag(d)))
        if p > 1e-13: out[s] = p
    return out
def canon(s): return tuple(sorted(int(x) for x in s))
def ordered(s): return tuple(int(x) for x in s)
def distinct(s, n):
    s = [int(x) for x in s]
    need(len(set(s)) == len(s) and all(0 <= x < n for x in s), 'not a set of distinct indices: %s', s)
