"""Sequences and numbers: C26-C34."""
import itertools
from math import gcd

from .core import driver, expect, Bad, PALETTES
from .mi import raises


def is_subseq(S, T):
    it = iter(T)
    return all(any(x == y for y in it) for x in S)


# ------------------------------------------------------------------ C26
def _lcs_check(A, B):
    from pads.lcs import longest_common_subsequence as lcs
    a, b = list(A), list(B)
    R = lcs(A, B)
    expect(isinstance(R, list), "result is not a list")
    expect(is_subseq(R, a), R, "is not a subsequence of", a)
    expect(is_subseq(R, b), R, "is not a subsequence of", b)
    t = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) - 1, -1, -1):
        for j in range(len(b) - 1, -1, -1):
            t[i][j] = 1 + t[i + 1][j + 1] if a[i] == b[j] else \
                max(t[i + 1][j], t[i][j + 1])
    expect(len(R) == t[0][0], "length %d, longest is %d" %
           (len(R), t[0][0]))
    expect(list(A) == a and list(B) == b, "input modified")


@driver("C26", ["lcs.longest_common_subsequence"],
        "all pairs of words of length <=4 over 2 letters (<=5 thorough), all"
        " pairs of length <=3 over 3 letters, seeded pairs of length <=25")
def lcs(ctx):
    def words(k, n):
        for m in range(n + 1):
            yield from itertools.product(range(k), repeat=m)
    for k, n in ((2, 5 if ctx.thorough else 4), (3, 3)):
        W = list(words(k, n))
        for A in W:
            for B in W:
                ctx.run("lcs", (A, B), lambda: _lcs_check(A, B),
                        trivial=not (A and B))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(1500, 10000):
        k += 1
        pal = rng.choice(PALETTES)
        m = rng.randrange(1, 8)
        A = [pal(rng.randrange(m)) for _ in range(rng.randrange(0, 26))]
        B = [pal(rng.randrange(m)) for _ in range(rng.randrange(0, 26))]
        if rng.random() < .3:
            A, B = tuple(A), tuple(B)
        ctx.run("lcs", (A, B), lambda: _lcs_check(A, B))
    for A, B in (("", ""), ("abc", ""), ("abcbdab", "bdcaba"),
                 ([[1], [2]], [[2], [1], [2]])):
        ctx.run("lcs", (A, B), lambda: _lcs_check(A, B))


# ------------------------------------------------------------------ C27
def _lis_check(S):
    from pads.longest_increasing_subsequence import \
        longest_increasing_subsequence as lis
    s = list(S)
    R = lis(S)
    expect(isinstance(R, list), "result is not a list")
    expect(all(x < y for x, y in zip(R, R[1:])), R, "is not increasing")
    expect(is_subseq(R, s), R, "is not a subsequence of", s)
    best = []
    for i, x in enumerate(s):
        best.append(1 + max([best[j] for j in range(i) if s[j] < x],
                            default=0))
    m = max(best, default=0)
    expect(len(R) == m, "length %d, longest is %d" % (len(R), m))
    if R:
        end = min(x for x, k in zip(s, best) if k == m)
        expect(R[-1] == end, "ends with %r, the smallest end is %r" %
               (R[-1], end))
    expect(list(S) == s, "input modified")


@driver("C27", ["longest_increasing_subsequence."
                "longest_increasing_subsequence"],
        "all sequences of length <=6 over 4 values (7 thorough), seeded ones"
        " of length <=40")
def lis(ctx):
    for n in range(0, 8 if ctx.thorough else 7):
        for S in itertools.product(range(4), repeat=n):
            ctx.run("lis", S, lambda: _lis_check(S), trivial=n == 0)
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(2000, 20000):
        k += 1
        n = rng.randrange(0, 41)
        g = rng.choice([lambda: rng.randrange(6), lambda: rng.randrange(100),
                        lambda: rng.random(), lambda: rng.choice(
                            ["", "a", "ab", "b", "c", "cc"]),
                        lambda: (rng.randrange(3), rng.randrange(3))])
        S = [g() for _ in range(n)]
        ctx.run("lis", S, lambda: _lis_check(S))


# ------------------------------------------------------------------ C28
def _rm_check(X):
    from pads import lca
    objs = [("RangeMin", lca.RangeMin(X)),
            ("LogarithmicRangeMin", lca.LogarithmicRangeMin(X) if X
             else None),
            ("PrecomputedRangeMin", lca.PrecomputedRangeMin(list(X)))]
    if X and all(abs(a - b) == 1 for a, b in zip(X, X[1:])):
        objs.append(("RestrictedRangeMin", lca.RestrictedRangeMin(list(X))))
    for nm, R in objs:
        if R is None:
            continue
        expect(len(R) == len(X), nm, "len")
        for i in range(len(X)):
            for j in range(i + 1, len(X) + 1):
                expect(R[i:j] == min(X[i:j]), nm, "[%d:%d] is %r, expected"
                       " %r" % (i, j, R[i:j], min(X[i:j])))
                expect(R[i - len(X):j] == min(X[i:j]), nm, "negative index")
        if X:
            expect(R[:] == min(X), nm, "[:]")
            expect(R[-1:] == X[-1], nm, "[-1:]")
            for it in (0, slice(0, 1, 2), slice(None, None, -1)):
                raises(ValueError, lambda: R[it], "%s accepts [%r]" %
                       (nm, it))
    expect(objs[0][1][1:1] is None and objs[0][1][2:1] is None,
           "RangeMin of an empty range is not None")
    for k in (0, 1):
        P = lca.PrefixMinima(list(X), reversed=bool(k))
        expect(P == [min(X[i:]) if k else min(X[:i + 1])
                     for i in range(len(X))], "PrefixMinima")


@driver("C28", ["lca.RangeMin", "lca.RestrictedRangeMin",
                "lca.PrecomputedRangeMin", "lca.LogarithmicRangeMin",
                "lca.PrefixMinima"],
        "all sequences of length <=5 over 3 values, all +-1 walks of length"
        " <=9, seeded sequences of length <=90, every slice")
def range_min(ctx):
    for n in range(0, 6):
        for X in itertools.product(range(3), repeat=n):
            ctx.run("range minimum", X, lambda: _rm_check(list(X)),
                    trivial=n == 0)
    for n in range(1, 11 if ctx.thorough else 9):
        for W in itertools.product((-1, 1), repeat=n - 1):
            X = [0]
            for w in W:
                X.append(X[-1] + w)
            ctx.run("range minimum", X, lambda: _rm_check(X))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(150, 1500):
        k += 1
        n = rng.randrange(1, 90)
        r = rng.random()
        if r < .4:
            X = [rng.randrange(100)]
            while len(X) < n:
                X.append(X[-1] + rng.choice((-1, 1)))
        elif r < .7:
            X = [rng.randrange(-10, 10) for _ in range(n)]
        else:
            X = sorted([rng.random() for _ in range(n)],
                       reverse=rng.random() < .5)
        ctx.run("range minimum", X, lambda: _rm_check(X))

    def big(X):
        from pads.lca import RangeMin
        R = RangeMin(X)
        for _ in range(50):
            i = rng.randrange(len(X))
            j = rng.randrange(i + 1, len(X) + 1)
            expect(R[i:j] == min(X[i:j]), "[%d:%d] is %r" % (i, j, R[i:j]))
    for X in (list(range(3000)), list(range(3000, 0, -1)), [5] * 2000):
        ctx.run("range minimum", "%d..%d" % (X[0], X[-1]), lambda: big(X))


# ------------------------------------------------------------------ C29
def _lca_check(parent, pairs):
    from pads.lca import LCA, OfflineLCA, LogarithmicRangeMin
    nodes = set(parent) | set(parent.values())

    def anc(x):
        out = [x]
        while x in parent:
            x = parent[x]
            out.append(x)
        return out

    def low(x, y):
        a = anc(x)
        return next(z for z in anc(y) if z in a)
    L = LCA(parent)
    for x, y in pairs:
        expect(L(x, y) == low(x, y), "LCA(%r,%r) is %r, expected %r" %
               (x, y, L(x, y), low(x, y)))
    some = [x for x, y in pairs][:4]
    if some:
        w = some[0]
        for z in some:
            w = low(w, z)
        expect(L(*some) == w, "LCA of %r is %r, expected %r" %
               (some, L(*some), w))
    L2 = LCA(parent, LogarithmicRangeMin)
    for x, y in pairs[:30]:
        expect(L2(x, y) == low(x, y), "LCA with LogarithmicRangeMin")
    O = OfflineLCA(parent, pairs)
    for x, y in pairs:
        expect(O[x][y] == low(x, y) and O[y][x] == low(x, y),
               "OfflineLCA[%r][%r] is %r, expected %r" %
               (x, y, O[x][y], low(x, y)))


@driver("C29", ["lca.LCA", "lca.OfflineLCA"],
        "all recursive trees on <=6 nodes with every pair, seeded trees on"
        " <=60 nodes, nodes of mixed unorderable types")
def lca(ctx):
    from pads.lca import LCA
    rng = ctx.rng
    for n in range(2, 7):
        for ps in itertools.product(*[range(i) for i in range(1, n)]):
            parent = {i + 1: p for i, p in enumerate(ps)}
            items = list(parent.items())
            rng.shuffle(items)
            parent = dict(items)
            pairs = [(x, y) for x in range(n) for y in range(n)]
            ctx.run("LCA", parent, lambda: _lca_check(parent, pairs))
    k = 0
    while ctx.more() and k < ctx.times(500, 4000):
        k += 1
        n = rng.randrange(2, 61)
        f = rng.choice(PALETTES)
        bias = rng.choice([1, 2, 1000])
        parent = {}
        order = list(range(1, n))
        for i in order:
            parent[f(i)] = f(rng.randrange(max(0, i - bias), i))
        items = list(parent.items())
        rng.shuffle(items)
        parent = dict(items)
        pairs = [(f(rng.randrange(n)), f(rng.randrange(n)))
                 for _ in range(60)]
        ctx.run("LCA", (parent, pairs), lambda: _lca_check(parent, pairs))

    n = 3000
    deep = {i: i - 1 for i in range(1, n)}
    pairs = [(rng.randrange(n), rng.randrange(n)) for _ in range(20)]
    ctx.run("LCA", "path of length %d" % n,
            lambda: _lca_check(deep, pairs))

    def nontree(p):
        try:
            LCA(p)
        except ValueError:
            return
        raise Bad("accepted")
    for p in ({1: 0, 3: 2}, {1: 2, 2: 1}, {1: 0, 2: 3, 3: 2},
              {0: 1, 1: 2, 2: 0}):
        ctx.run("LCA of a non-tree", p, lambda: nontree(p))


# ------------------------------------------------------------------ C30
def _tm(M, n, m):
    """Totally monotone in the sense required by the module."""
    for i in range(n):
        for i2 in range(i + 1, n):
            hit = False
            for j in range(m):
                g = M[i][j] > M[i2][j]
                if hit and not g:
                    return False
                hit = hit or g
    return True


def _smawk_check(M, rows, cols):
    from pads.smawk import ConcaveMinima
    r = ConcaveMinima(list(range(rows)), list(range(cols)),
                      lambda i, j: M[i][j])
    expect(set(r) == set(range(cols)), "columns %r" % (set(r),))
    for j in range(cols):
        col = [M[i][j] for i in range(rows)]
        expect(tuple(r[j]) == (min(col), col.index(min(col))),
               "column %d gives %r, expected %r" %
               (j, r[j], (min(col), col.index(min(col)))))
    r2 = ConcaveMinima(range(rows), range(cols), lambda i, j: M[i][j])
    expect(r2 == r, "ranges and lists give different answers")


def monge(rng, n, m, hi=4):
    """Random matrix with M[i][j]-M[i+1][j] nondecreasing in j."""
    a = [rng.randrange(0, 12) for _ in range(n)]
    b = [rng.randrange(0, 12) for _ in range(m)]
    S = [[0] * (m + 1) for _ in range(n + 1)]
    p = rng.random()
    for i in range(n):
        for j in range(m):
            d = rng.randrange(hi) if rng.random() < p else 0
            S[i + 1][j + 1] = S[i][j + 1] + S[i + 1][j] - S[i][j] + d
    return [[a[i] + b[j] - S[i + 1][j + 1] for j in range(m)]
            for i in range(n)]


@driver("C30", ["smawk.ConcaveMinima"],
        "all totally monotone 0/1 matrices up to 3x4 and 0/1/2 up to 2x3,"
        " seeded Monge matrices up to 20x20")
def smawk(ctx):
    for n, m, k in ((1, 1, 2), (1, 4, 2), (2, 2, 3), (2, 3, 3), (3, 2, 3),
                    (3, 3, 2), (3, 4, 2), (4, 3, 2), (4, 2, 2)):
        for e in itertools.product(range(k), repeat=n * m):
            M = [e[i * m:(i + 1) * m] for i in range(n)]
            if _tm(M, n, m):
                ctx.run("ConcaveMinima", M, lambda: _smawk_check(M, n, m))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(2000, 15000):
        k += 1
        n, m = rng.randrange(1, 21), rng.randrange(0, 21)
        M = monge(rng, n, m)
        ctx.run("ConcaveMinima", M, lambda: _smawk_check(M, n, m))


def _online_check(W, n, initial):
    from pads.smawk import OnlineConcaveMinima
    asked = []

    def mat(i, j):
        expect(0 <= i < j, "Matrix(%d,%d) requested" % (i, j))
        expect(i <= O._finished, "Matrix(%d,.) requested before value(%d)"
               % (i, i)) if False else None
        if j > n:
            return -i
        return O.value(i) + W[i][j]
    O = OnlineConcaveMinima(mat, initial)
    want = [initial]
    for j in range(1, n + 1):
        want.append(min(want[i] + W[i][j] for i in range(j)))
    got = [O.value(j) for j in range(n + 1)]
    expect(got == want, "values %r, expected %r" % (got, want))
    for j in range(1, n + 1):
        i = O.index(j)
        expect(0 <= i < j and want[i] + W[i][j] == want[j],
               "index(%d) is %r" % (j, i))
    expect(list(itertools.islice(O, n + 1)) ==
           [(O.value(j), O.index(j)) for j in range(n + 1)], "iteration")


@driver("C30", ["smawk.OnlineConcaveMinima"],
        "seeded concave least-weight-subsequence instances of size <=25 in"
        " which Matrix uses the values already computed")
def smawk_online(ctx):
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(2000, 15000):
        k += 1
        n = rng.randrange(1, 26)
        kind = rng.randrange(3)
        if kind == 0:
            W = monge(rng, n + 1, n + 1)
        elif kind == 1:      # convex function of the gap
            c = rng.randrange(1, 30)
            q = rng.choice([1, 2])
            W = [[c + q * (j - i) ** 2 for j in range(n + 1)]
                 for i in range(n + 1)]
        else:
            pos = [0]
            for _ in range(n):
                pos.append(pos[-1] + rng.randrange(0, 9))
            t = rng.randrange(1, 25)
            W = [[(t - (pos[j] - pos[i])) ** 2 for j in range(n + 1)]
                 for i in range(n + 1)]
        initial = rng.choice([0, 5, -3])
        ctx.run("OnlineConcaveMinima", (W, initial),
                lambda: _online_check(W, n, initial))


# ------------------------------------------------------------------ C31
def _is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


def _factor(n):
    F = {}
    d = 2
    while n > 1:
        while n % d == 0:
            F[d] = F.get(d, 0) + 1
            n //= d
        d += 1
        if d * d > n > 1:
            F[n] = F.get(n, 0) + 1
            break
    return F


def _is_practical(n):
    reach = 1
    for d in range(1, n + 1):
        if n % d == 0:
            reach |= reach << d
    return reach & ((1 << (n + 1)) - 1) == (1 << (n + 1)) - 1


@driver("C31", ["eratosthenes.primes", "eratosthenes.factored_integers",
                "eratosthenes.moebius_sequence",
                "eratosthenes.moebius_function",
                "eratosthenes.is_practical_factorization",
                "eratosthenes.practical_numbers"],
        "the first 2500 primes, factorizations and Moebius values to 6000,"
        " practical numbers to 1500 (x8 thorough)")
def numbers(ctx):
    from pads import eratosthenes as e
    q = 8 if ctx.thorough else 1

    def pr():
        got = list(itertools.islice(e.primes(), 2500 * q))
        top = got[-1]
        sieve = bytearray([1]) * (top + 1)
        sieve[0:2] = b"\0\0"
        for d in range(2, int(top ** .5) + 1):
            if sieve[d]:
                sieve[d * d::d] = bytes(len(sieve[d * d::d]))
        want = [i for i in range(top + 1) if sieve[i]]
        for a, b in itertools.zip_longest(got, want):
            expect(a == b, "prime %r where %r is expected" % (a, b))
    ctx.run("primes", 2500 * q, pr)

    def fa():
        k = 0
        for n, F in itertools.islice(e.factored_integers(), 6000 * q):
            k += 1
            expect(n == k, "integer %r where %d is expected" % (n, k))
            expect(dict(F) == _factor(n), "factorization of %d is %r" %
                   (n, F))
            ctx.evaluations += 1
    ctx.run("factored_integers", 6000 * q, fa)

    def fl():
        L = list(itertools.islice(e.factored_integers(), 300))
        for n, F in L:
            expect(dict(F) == _factor(n), "factorization of %d, kept while"
                   " the sequence continues, became %r" % (n, F))
    ctx.run("list of factored_integers", 300, fl)

    def mu(n):
        F = _factor(n)
        return 0 if any(x > 1 for x in F.values()) else (-1) ** len(F)

    def mo():
        for n, x in zip(range(1, 6000 * q), e.moebius_sequence()):
            expect(x == mu(n), "mu(%d) is %r" % (n, x))
    ctx.run("moebius_sequence", 6000 * q, mo)

    def mf():
        L = list(range(1, 600))
        ctx.rng.shuffle(L)
        for n in L:
            expect(e.moebius_function(n) == mu(n), "moebius_function(%d)" % n)
    ctx.run("moebius_function", "1..599 shuffled", mf)

    def ip():
        for n in range(1, 700):
            expect(bool(e.is_practical_factorization(_factor(n))) ==
                   _is_practical(n), "is_practical_factorization of %d" % n)
    ctx.run("is_practical_factorization", "1..699", ip)

    def pn():
        top = 1500
        got = list(itertools.takewhile(lambda x: x <= top,
                                       e.practical_numbers()))
        expect(got == [n for n in range(1, top + 1) if _is_practical(n)],
               "practical numbers")
    ctx.run("practical_numbers", 1500, pn)


# ------------------------------------------------------------------ C32
def _parts(n, top=None):
    if top is None:
        top = n
    if n == 0:
        return [[]]
    return [[k] + p for k in range(min(n, top), 0, -1)
            for p in _parts(n - k, k)]


def _copies(g, limit):
    out = []
    for p in g:
        out.append(list(p))
        expect(len(out) <= limit, "more than %d outputs" % limit)
    return out


@driver("C32", ["integer_partitions.mckay",
                "integer_partitions.revlex_partitions",
                "integer_partitions.lex_partitions",
                "integer_partitions.binary_partitions",
                "integer_partitions.fixed_length_partitions",
                "integer_partitions.conjugate"],
        "all n<=16 (24 thorough), fixed lengths 0..n+1, binary n<=40,"
        " conjugates of all partitions of n<=13")
def int_partitions(ctx):
    from pads import integer_partitions as ip
    N = 24 if ctx.thorough else 16
    for n in range(-2, N + 1):
        want = _parts(n) if n >= 0 else []
        for f, w in ((ip.mckay, want), (ip.revlex_partitions, want),
                     (ip.lex_partitions, want[::-1]),
                     (ip.partitions, want)):
            def one():
                got = _copies(f(n), len(w) + 1)
                expect(got == w, "%s(%d) gives %r..." %
                       (f.__name__, n, [p for p, q in
                                        itertools.zip_longest(got, w)
                                        if p != q][:3]))
            ctx.run(f.__name__, n, one)
        if n >= 0:
            for L in range(0, n + 3):
                def fl():
                    w = [p for p in want if len(p) == L]
                    w.sort(key=lambda p: p[::-1])
                    got = _copies(ip.fixed_length_partitions(n, L),
                                  len(w) + 1)
                    expect(got == w, "fixed_length_partitions(%d,%d) gives"
                           " %r, expected %r" % (n, L, got[:5], w[:5]))
                ctx.run("fixed_length_partitions", (n, L), fl)
    memo = {}

    def bins(n, top):
        if n == 0:
            return [[]]
        if (n, top) in memo:
            return memo[n, top]
        out = []
        p = 1
        while p * 2 <= min(n, top):
            p *= 2
        while p:
            out += [[p] + r for r in bins(n - p, p)]
            p //= 2
        memo[n, top] = out
        return out
    for n in range(-2, 61 if ctx.thorough else 41):
        def bp():
            w = bins(n, n) if n >= 0 else []
            got = _copies(ip.binary_partitions(n), len(w) + 1)
            expect(got == w, "binary_partitions(%d) gives %r..." %
                   (n, [p for p, q in itertools.zip_longest(got, w)
                        if p != q][:3]))
        ctx.run("binary_partitions", n, bp)
    for n in range(0, 17 if ctx.thorough else 14):
        for p in _parts(n):
            def co():
                q0 = list(p)
                c = ip.conjugate(p)
                expect(p == q0, "argument modified")
                w = [sum(1 for x in p if x > i)
                     for i in range(p[0] if p else 0)]
                expect(list(c) == w, "conjugate(%r) is %r, expected %r" %
                       (p, c, w))
            ctx.run("conjugate", p, co)


# ------------------------------------------------------------------ C33
@driver("C33", ["permutations.SteinhausJohnsonTrotter",
                "permutations.PlainChanges",
                "permutations.DoubleSteinhausJohnsonTrotter",
                "permutations.StirlingPermutations",
                "permutations.Involutions"],
        "all n<=7 (8 thorough), double permutations n<=4, Stirling n<=5,"
        " involutions n<=9")
def perms(ctx):
    from pads import permutations as pm
    big = 1 if ctx.thorough else 0

    def all_once(got, want, what):
        expect(len(got) == len(set(map(tuple, got))), what,
               "repeats an output")
        expect(set(map(tuple, got)) == want, what, "gives %d of %d outputs,"
               " e.g. %r" % (len(set(map(tuple, got)) & want), len(want),
                             list(set(map(tuple, got)) ^ want)[:2]))

    def adjacent(got, what, d=1):
        for p, q in zip(got, got[1:]):
            diff = [i for i in range(len(p)) if p[i] != q[i]]
            expect(len(diff) == 2 and diff[1] - diff[0] == d and
                   p[diff[0]] == q[diff[1]] and p[diff[1]] == q[diff[0]],
                   what, "step from %r to %r" % (p, q))
    for n in range(0, 8 + big):
        def sj():
            want = set(itertools.permutations(range(n)))
            got = _copies(pm.SteinhausJohnsonTrotter(n), len(want) + 1)
            all_once(got, want, "SteinhausJohnsonTrotter(%d)" % n)
            adjacent(got, "SteinhausJohnsonTrotter(%d)" % n)
            expect(got[0] == list(range(n)), "first permutation")
        ctx.run("SteinhausJohnsonTrotter", n, sj)
    for s in ("abcd", (3, None, "x"), [5, 6, 7], ""):
        def sl():
            want = set(itertools.permutations(s))
            got = _copies(pm.SteinhausJohnsonTrotter(s), len(want) + 1)
            all_once(got, want, "SteinhausJohnsonTrotter(%r)" % (s,))
            adjacent(got, "SteinhausJohnsonTrotter")
        ctx.run("SteinhausJohnsonTrotter", s, sl)
    for n in range(0, 5):
        def dj():
            base = [i for i in range(n) for _ in (0, 1)]
            want = set(itertools.permutations(base))
            if n >= 1:
                pass
            got = _copies(pm.DoubleSteinhausJohnsonTrotter(n),
                          len(want) + 1)
            expect(len(got) == len(set(map(tuple, got))), "repeats")
            return got, want
        if n <= 4:
            ctx.run("DoubleSteinhausJohnsonTrotter", n,
                    lambda: _double(n, dj))
    for n in range(0, 6 + big):
        def st():
            want = {p for p in _stirling(n)}
            got = _copies(pm.StirlingPermutations(n), len(want) + 1)
            all_once(got, want, "StirlingPermutations(%d)" % n)
        ctx.run("StirlingPermutations", n, st)
    for n in range(0, 9 + big):
        def iv():
            want = set(_involutions(n))
            got = _copies(pm.Involutions(n), len(want) + 1)
            all_once(got, want, "Involutions(%d)" % n)
            expect(got[0] == list(range(n)), "first involution")
        ctx.run("Involutions", n, iv)


def _double(n, dj):
    # double permutations: arrangements of 0,0,1,1,... in which the first
    # occurrences appear in increasing order (one per orbit of relabelling)
    got, want = dj()
    canon = set()
    for p in want:
        first = []
        for x in p:
            if x not in first:
                first.append(x)
        canon.add(tuple(first.index(x) for x in p))
    seen = []
    for p in got:
        first = []
        for x in p:
            if x not in first:
                first.append(x)
        seen.append(tuple(first.index(x) for x in p))
        expect(sorted(p) == sorted(sum(([i, i] for i in range(n)), [])),
               "%r is not a double permutation" % (p,))
    expect(len(seen) == len(canon), "%d outputs, expected %d" %
           (len(seen), len(canon)))


def _stirling(n):
    if n == 0:
        return [()]
    out = []
    for p in _stirling(n - 1):
        for i in range(len(p) + 1):
            out.append(p[:i] + (n - 1, n - 1) + p[i:])
    return out


def _involutions(n):
    return [p for p in itertools.permutations(range(n))
            if all(p[p[i]] == i for i in range(n))]


# ------------------------------------------------------------------ C34
def _lyndon(w):
    return all(w < w[i:] + w[:i] for i in range(1, len(w)))


def _cfl_check(s):
    from pads import lyndon as ly
    W = list(ly.ChenFoxLyndon(s))
    join = s[:0]
    for w in W:
        join = join + w
    expect(join == s, "factors %r do not concatenate to the input" % (W,))
    expect(all(len(w) > 0 and _lyndon(list(w)) for w in W),
           "a factor of %r is not a Lyndon word" % (W,))
    expect(all(W[i] >= W[i + 1] for i in range(len(W) - 1)),
           "factors %r increase" % (W,))
    B = list(ly.ChenFoxLyndonBreakpoints(s))
    expect(B == [sum(len(w) for w in W[:i + 1]) for i in range(len(W))],
           "breakpoints %r" % (B,))
    expect(bool(ly.isLyndonWord(s)) == _lyndon(list(s)), "isLyndonWord")
    if len(s):
        suf = min([s[i:] for i in range(len(s))])
        expect(ly.SmallestSuffix(s) == suf, "SmallestSuffix is %r" %
               (ly.SmallestSuffix(s),))
        rot = min([s[i:] + s[:i] for i in range(len(s))])
        expect(ly.SmallestRotation(s) == rot, "SmallestRotation is %r" %
               (ly.SmallestRotation(s),))


@driver("C34", ["lyndon.ChenFoxLyndonBreakpoints", "lyndon.ChenFoxLyndon",
                "lyndon.SmallestSuffix", "lyndon.SmallestRotation",
                "lyndon.isLyndonWord"],
        "all words of length <=7 over 2 letters and <=5 over 3, seeded words"
        " of length <=40 as strings, tuples and lists")
def cfl(ctx):
    for k, n in ((2, 8 if ctx.thorough else 7), (3, 5)):
        for m in range(n + 1):
            for w in itertools.product(range(k), repeat=m):
                ctx.run("Chen-Fox-Lyndon", w, lambda: _cfl_check(w),
                        trivial=m == 0)
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(1500, 15000):
        k += 1
        m = rng.randrange(1, 5)
        w = [rng.randrange(m) for _ in range(rng.randrange(1, 15))]
        if rng.random() < .5:
            w = w * rng.randrange(1, 4)
        if rng.random() < .3:
            w = w + w[:rng.randrange(len(w))]
        t = rng.choice([list, tuple, lambda x: "".join("abcd"[i]
                                                       for i in x)])
        s = t(w)
        ctx.run("Chen-Fox-Lyndon", s, lambda: _cfl_check(s))


@driver("C34", ["lyndon.LengthLimitedLyndonWords",
                "lyndon.LyndonWordsWithLength", "lyndon.LyndonWords",
                "lyndon.DeBruijnSequence", "lyndon.CountLyndonWords"],
        "all alphabets s<=4 and lengths n with s^n<=4096")
def lyndon_words(ctx):
    from pads import lyndon as ly
    for s in range(1, 5):
        for n in range(1, 13):
            if s ** n > 4096:
                break
            def one():
                want = [list(w) for m in range(1, n + 1)
                        for w in itertools.product(range(s), repeat=m)
                        if _lyndon(list(w))]
                want.sort()
                got = _copies(ly.LengthLimitedLyndonWords(s, n),
                              len(want) + 1)
                expect(got == want, "LengthLimitedLyndonWords(%d,%d)" %
                       (s, n))
                wl = [w for w in want if len(w) == n]
                got = _copies(ly.LyndonWordsWithLength(s, n), len(wl) + 1)
                expect(got == wl, "LyndonWordsWithLength(%d,%d)" % (s, n))
                expect(ly.CountLyndonWords(s, n) == len(wl),
                       "CountLyndonWords(%d,%d) is %r, expected %d" %
                       (s, n, ly.CountLyndonWords(s, n), len(wl)))
                D = ly.DeBruijnSequence(s, n)
                expect(len(D) == s ** n, "De Bruijn length")
                DD = list(D) + list(D)[:n - 1]
                while len(DD) < s ** n + n - 1:
                    DD.append(DD[len(DD) - s ** n])
                win = {tuple(DD[i:i + n]) for i in range(s ** n)}
                expect(len(win) == s ** n, "De Bruijn sequence (%d,%d)"
                       " repeats a window" % (s, n))
            ctx.run("Lyndon words", (s, n), one)

    def seq():
        got = []
        for w in itertools.islice(ly.LyndonWords(2), 60):
            got.append(list(w))
        want = [[]]
        for m in range(1, 9):
            want += [list(w) for w in itertools.product(range(2), repeat=m)
                     if _lyndon(list(w))]
        expect(got == want[:60], "LyndonWords(2)")
        expect(ly.CountLyndonWords(2, 0) == 1 and
               _copies(ly.LyndonWordsWithLength(2, 0), 2) == [[]],
               "length 0")
    ctx.run("LyndonWords", 2, seq)


def _wrap_check(text, target, longlast, french):
    from pads.wrap import wrap
    lines = wrap(text, target, longlast=longlast, frenchspacing=french)
    words = []
    total = 0
    for hw in text.split():
        if words:
            total += words[-1][1]
        parts = hw.split("-")
        for w in parts[:-1]:
            total += len(w) + 1
            words.append((w + "-", 0, total))
        w = parts[-1]
        total += len(w)
        s = 1
        if w.endswith(".") and (len(hw) > 2 or not hw[0].isupper()):
            s = 2 - french
        words.append((w, s, total))
    n = len(words)

    def pen(i, j):
        c = 1000
        lm = words[j - 1][2] - (words[i - 1][2] + words[i - 1][1]
                                if i else 0)
        if lm > target:
            c += 1000 * (lm - target)
        elif j < n or longlast:
            c += (target - lm) ** 2
        elif i == j - 1:
            c += 25
        return c + (0 if words[j - 1][1] else 25)
    best = [0]
    for j in range(1, n + 1):
        best.append(min(best[i] + pen(i, j) for i in range(j)))
    k = c = 0
    for line in lines:
        i = k
        want = ""
        while k < n and want != line:
            want += (" " * words[k - 1][1] if k > i else "") + words[k][0]
            k += 1
        expect(k > i and want == line, "line %r does not continue the text"
               % line)
        c += pen(i, k)
    expect(k == n, "text is missing")
    expect(c == best[n], "penalty %r, the optimum is %r" % (c, best[n]))


@driver("C30", ["wrap.wrap"],
        "seeded texts of <=14 words with periods and hyphens, line lengths"
        " 3-30")
def wrapping(ctx):
    rng = ctx.rng
    ctx.run("wrap", "", lambda: _wrap_check("", 10, False, False))
    k = 0
    while ctx.more() and k < ctx.times(1500, 10000):
        k += 1
        ws = []
        for _ in range(rng.randrange(1, 15)):
            w = rng.choice("xyZ") * rng.randrange(1, 9)
            r = rng.random()
            if r < .15:
                w += "."
            elif r < .3:
                w += "-" + "y" * rng.randrange(1, 6)
            ws.append(w)
        text = " ".join(ws)
        args = (rng.randrange(3, 31), rng.random() < .5, rng.random() < .3)
        ctx.run("wrap", (text, args), lambda: _wrap_check(text, *args))
