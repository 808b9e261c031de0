from .lib import *
from .c13 import ref
class Log(ScriptedRNG):
    pass
def run(h):
    from dppy import exotic_dpps as xd
    # carries: law and pathwise
    def carries(d, b):
        out, s = [], 0
        for i, a in enumerate(d):
            if i and s + a >= b: out.append(i)
            s = (s + a) % b
        return out
    for b in (2, 3, 4, 10):
        for n in (1, 2, 3, 4) if b < 10 else (1, 2, 3):
            exp = {}
            for d in itertools.product(range(b), repeat=n):
                o = tuple(carries(d, b)); exp[o] = exp.get(o, 0) + float(b) ** -n
            def f(rng, b=b, n=n):
                p = xd.CarriesProcess(b); p.list_of_samples.append('x'); p.sample(size=n, random_state=rng)
                need(len(p.list_of_samples) == 2 and p.list_of_samples[0] == 'x', 'the list of samples is %s', p.list_of_samples)
                return ordered(p.list_of_samples[-1])
            h.law('carries/base=%d size=%d' % (b, n), f, exp, dict(base=b, size=n))
    class Digits(np.random.RandomState):
        def __new__(cls, *a): return super().__new__(cls, 0)
        def __init__(self, d): super().__init__(0); self.d = d
        def randint(self, low, high=None, size=None, dtype=int): return np.array(self.d)
    r = h.rng('d')
    for b in (2, 3, 10, 60, 10 ** 6):
        for n in (1, 2, 50, 100, 1000):
            def go(b=b, n=n):
                for k in range(3):
                    d = r.randint(0, b, n)
                    if k == 0: d[:] = b - 1
                    p = xd.CarriesProcess(b); p.sample(size=n, random_state=Digits(d.tolist()))
                    need(ordered(p.list_of_samples[-1]) == tuple(carries(d.tolist(), b)), 'base %d, digits %s: %s', b, d[:20], p.list_of_samples[-1][:20])
            h.case('carries digits/base=%d size=%d' % (b, n), go, dict(base=b, size=n))
    # descent
    def desc(s): return tuple(i + 1 for i in range(len(s) - 1) if s[i] > s[i + 1])
    for n in range(1, 7):
        exp = {}
        for s in itertools.permutations(range(n)): exp[desc(s)] = exp.get(desc(s), 0) + 1.0 / math.factorial(n)
        def f(rng, n=n):
            p = xd.DescentProcess(); p.sample(size=n, random_state=rng)
            need(len(p.list_of_samples) == 1, '%d samples', len(p.list_of_samples))
            return ordered(p.list_of_samples[-1])
        h.law('descent/size=%d' % n, f, exp, dict(size=n))
    # virtual descent
    def virt(s, y): return tuple(i for i in range(len(s) - 1) if not y[i] and (y[i + 1] or s[i] > s[i + 1]))
    for x0 in (0.0, 0.3, 0.5, 0.9, 1.0):
        for n in (1, 2, 3, 4):
            exp, q = {}, 1 - 2 * x0 * (1 - x0)
            for s in itertools.permutations(range(n + 1)):
                for y in itertools.product((0, 1), repeat=n + 1):
                    w = np.prod([q if v else 1 - q for v in y]) / math.factorial(n + 1)
                    if w > 0: exp[virt(s, y)] = exp.get(virt(s, y), 0) + w
            def f(rng, x0=x0, n=n):
                p = xd.VirtualDescentProcess(x0); p.sample(size=n, random_state=rng)
                need(len(p.list_of_samples) == 1, '%d samples', len(p.list_of_samples))
                return ordered(p.list_of_samples[-1])
            h.law('virtual/x0=%s size=%d' % (x0, n), f, exp, dict(x_0=x0, size=n), max_paths=20000)
    for bad in (-0.1, 1.2): h.raises('virtual/refused', ValueError, lambda: xd.VirtualDescentProcess(bad))
    # Plancherel
    for th in (0.4, 1.0):
        exp, tail = {}, 0.0
        for n in range(7):
            w = math.exp(-th) * th ** n / math.factorial(n)
            for s in itertools.permutations(range(n)):
                lam = [len(x) for x in ref(s)[0]]
                o = tuple(round(l - i + 0.5, 6) for i, l in enumerate(lam, 1))
                exp[o] = exp.get(o, 0) + w / math.factorial(n)
        def f(rng, th=th):
            p = xd.PoissonizedPlancherel(th); rng.poisson_tail = 1e-3
            p.sample(random_state=rng)
            need(len(p.list_of_samples) == 1 and len(p.list_of_young_diag) == 1, 'number of samples')
            lam = [int(v) for v in p.list_of_young_diag[-1]]
            o = tuple(round(float(v), 6) for v in p.list_of_samples[-1])
            need(o == tuple(round(l - i + 0.5, 6) for i, l in enumerate(lam, 1)), 'sample %s for the diagram %s', o, lam)
            return o
        h.law('plancherel/theta=%s' % th, f, exp, dict(theta=th), tol=2e-3)
    class Rec(np.random.RandomState): 
        def __init__(self, s): super().__init__(s); self.got = []
        def poisson(self, lam=1.0, size=None): v = super().poisson(lam, size); self.got.append((lam, v)); return v
    for th in (5, 20, 100):
        for seed in range(5):
            def go(th=th, seed=seed):
                p = xd.PoissonizedPlancherel(th); rng = Rec(seed)
                for k in range(3):
                    p.sample(random_state=rng)
                    lam = [int(v) for v in p.list_of_young_diag[-1]]
                    need(len(rng.got) == k + 1 and rng.got[-1][0] == th, 'Poisson draws %s', rng.got)
                    need(sum(lam) == rng.got[-1][1] and all(a >= b for a, b in zip(lam, lam[1:])), 'diagram %s for N=%s', lam, rng.got[-1][1])
                    close(p.list_of_samples[-1], [l - i + 0.5 for i, l in enumerate(lam, 1)], 'sample')
                    need(len(p.list_of_samples) == k + 1 == len(p.list_of_young_diag), 'number of samples')
            h.case('plancherel/big theta=%d' % th, go, dict(theta=th, seed=seed))
    # one entry per call, flush
    for cls in (xd.CarriesProcess, xd.DescentProcess, xd.VirtualDescentProcess):
        def go(cls=cls):
            p = cls()
            for k in range(4):
                before = [list(s) for s in p.list_of_samples]
                p.sample(size=30 + k, random_state=k)
                need(len(p.list_of_samples) == k + 1 and [list(s) for s in p.list_of_samples[:-1]] == before, 'earlier samples modified')
            p.flush_samples(); need(p.list_of_samples == [], 'flush')
        h.case('history/%s' % cls.__name__, go)
