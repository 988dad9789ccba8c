"""C31: prime numbers by the sieve."""
from pydv.lib import REG, Loop

ER = "pads.eratosthenes"

REG.fun("times", "d:int, m:int", "int", "d * m")
REG.fun("divides", "d:int, x:int", "bool",
        "exists('m:int', x == times(d, m), times(d, m))")
REG.fun("prime", "x:int", "bool", "x >= 2 and forall('d:int', imp(2 <= d "
        "and d < x, not divides(d, x)), divides(d, x))")

REG.lemma("div_intro", "d:int, m:int", ensures=["divides(d, d * m)"], body="""
unfold(divides(d, d * m))
unfold(times(d, m))
""")
# x - q y, for the same divisor
REG.lemma("div_lin", "d:int, x:int, y:int, q:int",
          requires=["divides(d, x)", "divides(d, y)"],
          ensures=["divides(d, x - q * y)"], body="""
unfold(divides(d, x))
unfold(divides(d, y))
obtain('a:int', x == times(d, a), times(d, a))
obtain('b:int', y == times(d, b), times(d, b))
unfold(times(d, a))
unfold(times(d, b))
div_intro(d, a - q * b)
assert d * (a - q * b) == x - q * y
""")
REG.lemma("div_trans", "a:int, b:int, c:int",
          requires=["divides(a, b)", "divides(b, c)"],
          ensures=["divides(a, c)"], body="""
unfold(divides(a, b))
unfold(divides(b, c))
obtain('m:int', b == times(a, m), times(a, m))
obtain('k:int', c == times(b, k), times(b, k))
unfold(times(a, m))
unfold(times(b, k))
div_intro(a, m * k)
assert a * (m * k) == c
""")
REG.lemma("div_mod", "a:int, b:int", requires=["b > 0", "a % b == 0"],
          ensures=["divides(b, a)"], body="""
div_intro(b, a // b)
assert b * (a // b) == a
""")

# a prime dividing a * b with a < p divides b
REG.lemma("euclid", "p:int, a:int, b:int", decreases="a",
          requires=["prime(p)", "1 <= a", "a < p", "divides(p, a * b)"],
          ensures=["divides(p, b)"], body="""
if a == 1:
    assert a * b == b
else:
    if p % a == 0:
        div_mod(p, a)
        unfold(prime(p))
    else:
        div_intro(p, b)
        div_lin(p, p * b, a * b, p // a)
        assert p == a * (p // a) + p % a
        assert p * b - (p // a) * (a * b) == (p % a) * b
        euclid(p, p % a, b)
""")
REG.lemma("square_only", "p:int, r:int",
          requires=["prime(p)", "prime(r)", "p < r"],
          ensures=["not divides(p, r * r)"], body="""
unfold(prime(p))
unfold(prime(r))
if divides(p, r * r):
    if r % p == 0:
        div_mod(r, p)
    else:
        div_intro(p, r)
        div_lin(p, r * r, p * r, r // p)
        assert r == p * (r // p) + r % p
        assert r * r - (r // p) * (p * r) == (r % p) * r
        euclid(p, r % p, r)
""")

# the smallest divisor from d on
REG.lemma("factor", "n:int, d:int", decreases="n - d",
          requires=["2 <= d", "d <= n", "forall('e:int', imp(2 <= e and "
                    "e < d, not divides(e, n)), divides(e, n))"],
          ensures=["exists('p:int', d <= p and p <= n and divides(p, n) and "
                   "forall('e:int', imp(2 <= e and e < p, "
                   "not divides(e, n)), divides(e, n)), divides(p, n))"],
          body="""
if divides(d, n):
    pass
else:
    div_intro(n, 1)
    assert divides(n, n)
    factor(n, d + 1)
""")
REG.lemma("composite", "n:int", requires=["n >= 2", "not prime(n)"],
          ensures=["exists('p:int', prime(p) and divides(p, n) and "
                   "p * p <= n, divides(p, n))"], body="""
unfold(prime(n))
factor(n, 2)
obtain('p:int', 2 <= p and p <= n and divides(p, n) and forall('e:int', imp(2 <= e and e < p, not divides(e, n)), divides(e, n)), divides(p, n))
unfold(prime(p))
forall_intro("e:int", 2 <= e and e < p, not divides(e, p), "if divides(e, p):\\n    div_trans(e, p, n)", (divides(e, p),))
unfold(divides(p, n))
obtain('m:int', n == times(p, m), times(p, m))
unfold(times(p, m))
assert p < n
assert m >= 1
assert m != 1
div_intro(m, p)
assert divides(m, n)
assert m >= p
assert p * m >= p * p
""")

REG.lemma("odd_step", "w:int, m:int, q:int",
          requires=["w >= 1", "divides(w, m)", "divides(w, q)", "m % 2 == 1",
                    "q % 2 == 1", "q <= m", "m < q + 2 * w"],
          ensures=["m == q"], body="""
unfold(divides(w, m))
unfold(divides(w, q))
obtain('a:int', m == times(w, a), times(w, a))
obtain('b:int', q == times(w, b), times(w, b))
unfold(times(w, a))
unfold(times(w, b))
assert w * a - w * b == w * (a - b)
assert a - b >= 0
assert a - b < 2
if a - b == 1:
    assert m == q + w
    assert w == 2 * (w // 2)
    assert m == 2 * ((w // 2) * a)
""")
REG.lemma("prime_odd", "x:int", requires=["prime(x)", "x > 2"],
          ensures=["x % 2 == 1", "(x * x) % 2 == 1"], body="""
unfold(prime(x))
if x % 2 == 0:
    div_mod(x, 2)
assert x == 2 * (x // 2) + 1
assert x * x == 2 * (2 * (x // 2) * (x // 2) + 2 * (x // 2)) + 1
""")
REG.lemma("square_less", "a:int, b:int", requires=["0 <= a", "a < b"],
          ensures=["a * a < b * b"])

# v is twice a prime factor of k, not the largest
REG.fun("witness", "k:int, v:int", "bool", "v % 2 == 0 and prime(v // 2) and "
        "divides(v // 2, k) and (v // 2) * (v // 2) <= k")

REG.fn(ER + ".primes", props=["C31"], yields="int", stream="1",
       each=[("a prime", "prime(yielded)"),
             ("the next one", "_prev < yielded and forall('x:int', imp("
              "_prev < x and x < yielded, not prime(x)), prime(x))")],
       ensures=[("iteration never ends", "False")],
       ghost={"wit": "map[int,int]", "w": "int", "r0": "int",
              "D0": "dict[int,int]"},
       each_start="""
unfold(prime(2))
if yielded > 2:
    if root > r0:
        square_less(r0, root)
    if not prime(yielded):
        composite(yielded)
        obtain('p:int', prime(p) and divides(p, yielded) and p * p <= yielded, divides(p, yielded))
        unfold(prime(p))
        unfold(divides(p, yielded))
        if p == 2:
            obtain('m:int', yielded == times(p, m), times(p, m))
            unfold(times(p, m))
        if p >= root:
            if p > root:
                square_less(root, p)
        assert p >= 3 and p < root
        trigger(wit[p])
""",
       loops={
           1: Loop(inv=["n >= 3 and n % 2 == 1",
                        "prime(root) and square == root * root and "
                        "roots[0] == root and root >= 2",
                        "n <= square or (root == 2 and n <= 5)",
                        "forall('k:int', imp(k in D, (k == 4 or (n <= k and "
                        "k % 2 == 1)) and witness(k, D[k]) and "
                        "D[k] < 2 * root), D[k])",
                        "forall('p:int', imp(prime(p) and 3 <= p and "
                        "p < root, wit[p] in D and D[wit[p]] == 2 * p and "
                        "n <= wit[p] and wit[p] % 2 == 1), wit[p])",
                        "forall('p:int, m:int', imp(prime(p) and 3 <= p and "
                        "p < root and divides(p, m) and m % 2 == 1 and "
                        "p * p <= m and n <= m and m < wit[p], m in D), "
                        "(divides(p, m), wit[p]))",
                        "_prev < n and forall('x:int', imp(_prev < x and "
                        "x < n, not prime(x)), prime(x))"],
                   start="""
r0 = root
if n >= square:
    if square in D:
        unfold(witness(square, D[square]))
        square_only(D[square] // 2, root)
    unfold(witness(square, root + root))
    div_intro(root, root)
    wit[root] = square
""",
                   end="""
if root > 2:
    prime_odd(root)
if root > r0:
    square_less(r0, root)
if prime(n - 1):
    prime_odd(n - 1)
"""),
           2: Loop(before="""
w = p // 2
unfold(witness(n, p))
unfold(prime(w))
unfold(prime(n))
assert w * w >= 2 * w
div_intro(w, 2)
div_lin(w, n, w * 2, 0 - 1)
wit[w] = q
forall_intro("m:int", divides(w, m) and m % 2 == 1 and n < m and m < q, m in D, "odd_step(w, m, n)", (divides(w, m),))
""", inv=["q % 2 == 1 and q > n and p == 2 * w", "divides(w, q)",
          "forall('m:int', imp(divides(w, m) and m % 2 == 1 and n < m and "
          "m < q, m in D), divides(w, m))"],
                   decreases="card(setof('k:int', k in D and k >= q))",
                   start="""
div_intro(w, 2)
div_lin(w, q, w * 2, 0 - 1)
card_subset(setof('k:int', k in D and k >= q + p), setof('k:int', k in D and k >= q))
forall_intro("m:int", divides(w, m) and m % 2 == 1 and n < m and m < q + p, m in D, "if m >= q:\\n    odd_step(w, m, q)", (divides(w, m),))
""", exit="""
wit[w] = q
unfold(witness(q, p))
""")})
