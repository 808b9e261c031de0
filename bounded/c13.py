from .lib import *
from bisect import bisect_right
def ref(seq):
    P, Q = [], []
    for it, x in enumerate(seq, 1):
        r = 0
        while True:
            if r == len(P): P.append([x]); Q.append([it]); break
            j = bisect_right(P[r], x)
            if j == len(P[r]): P[r].append(x); Q[r].append(it); break
            P[r][j], x = x, P[r][j]; r += 1
    return P, Q
def lis(seq):
    best = []
    for x in seq:
        best.append(1 + max([b for b, y in zip(best, seq) if y <= x], default=0))
    return max(best, default=0)
def reverse(P, Q):
    P, Q = [list(r) for r in P], [list(r) for r in Q]
    out = []
    for n in range(sum(map(len, Q)), 0, -1):
        r = [i for i, row in enumerate(Q) if row and row[-1] == n][0]
        Q[r].pop(); x = P[r].pop()
        for i in range(r - 1, -1, -1):
            j = max(k for k in range(len(P[i])) if P[i][k] < x)
            P[i][j], x = x, P[i][j]
        out.append(x)
    return out[::-1]
def check(RSK, seq):
    orig = list(seq)
    P, Q = RSK(seq)
    need([x for x in seq] == orig, 'the input was modified: %s', list(seq))
    P, Q = [list(r) for r in P], [list(r) for r in Q]
    sh = [len(r) for r in P]
    need(sh == [len(r) for r in Q], 'shapes %s and %s', sh, [len(r) for r in Q])
    need(sum(sh) == len(orig) and all(a >= b for a, b in zip(sh, sh[1:])) and all(sh), 'shape %s is not a partition of %d', sh, len(orig))
    need(sorted(x for r in P for x in r) == sorted(orig), 'the insertion tableau holds %s', P)
    need(sorted(x for r in Q for x in r) == list(range(1, len(orig) + 1)), 'the recording tableau holds %s', Q)
    for T, weak in ((P, True), (Q, False)):
        for r in T: need(all(a <= b if weak else a < b for a, b in zip(r, r[1:])), 'row %s not increasing', r)
        for r, s in zip(T, T[1:]): need(all(a < b for a, b in zip(r, s)), 'columns of %s not strictly increasing', T)
    need((sh[0] if sh else 0) == lis(orig), 'first row has %d cells, longest weakly increasing subsequence %d', sh[0] if sh else 0, lis(orig))
    need(reverse(P, Q) == orig, 'reverse insertion gives %s', reverse(P, Q))
    RP, RQ = ref(orig)
    need(P == RP and Q == RQ, 'tableaux %s, %s; row insertion gives %s, %s', P, Q, RP, RQ)
def run(h):
    from dppy.exotic_dpps_core import RSK
    for n in range(0, 6 if h.quick else 7):
        for seq in itertools.product(range(min(n, 4) or 1), repeat=n):
            h.case('all/n=%d' % n, lambda: check(RSK, list(seq)), dict(sequence=seq))
    for n in range(1, 7 if h.quick else 8):
        for seq in itertools.permutations(range(n)):
            h.case('perm/n=%d' % n, lambda: check(RSK, list(seq)), dict(sequence=seq))
    r = h.rng('x')
    for n in (1, 5, 12, 40, 120):
        for k in range(6):
            for m in (3, n, 10 ** 6):
                seq = r.randint(-m, m, n).tolist()
                h.case('random/n=%d' % n, lambda: check(RSK, list(seq)), dict(sequence=seq))
                h.case('tuple/n=%d' % n, lambda: check(RSK, tuple(seq)), dict(sequence=seq))
                h.case('array/n=%d' % n, lambda: check(RSK, np.array(seq)), dict(sequence=seq))
                fl = (np.array(seq) / 7.0)
                h.case('float/n=%d' % n, lambda: check(RSK, fl), dict(sequence=fl))
                h.case('small/n=%d' % n, lambda: check(RSK, np.array(seq) % 3 - 0.5), dict(sequence=seq))
    for n in (30, 200): h.case('monotone/n=%d' % n, lambda: [check(RSK, s) for s in (list(range(n)), list(range(n))[::-1], [7] * n, [float('-inf')] + list(range(n)))], dict(n=n))
    from fractions import Fraction
    h.case('fractions/x', lambda: check(RSK, [Fraction(int(a), 7) for a in r.randint(0, 9, 15)]))
    # large values exceeding float precision are compared exactly
    h.case('bigint/x', lambda: check(RSK, [2 ** 60 + int(a) for a in r.randint(0, 9, 15)]))
