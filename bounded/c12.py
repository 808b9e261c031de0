from .lib import *
def run(h):
    from dppy.exotic_dpps_core import uniform_permutation
    for n in range(1, 7 if h.quick else 8):
        h.law('law/N=%d' % n, lambda rng, n=n: ordered(uniform_permutation(n, rng)), {p: 1.0 / math.factorial(n) for p in itertools.permutations(range(n))}, dict(N=n))
    for n in (1, 2, 10, 57, 300):
        def go(n=n):
            for s in range(5):
                x = uniform_permutation(n, np.random.RandomState(s))
                need(sorted(int(v) for v in x) == list(range(n)), 'not a permutation of 0..%d: %s', n - 1, list(x)[:20])
        h.case('permutation/N=%d' % n, go, dict(N=n))
