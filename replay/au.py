"""Automata: C35 and C36."""
import io
import itertools

from .core import driver, expect, Bad

WORDS = {}


def words(k, n):
    if (k, n) not in WORDS:
        WORDS[k, n] = ["".join(w) for m in range(n + 1)
                       for w in itertools.product("abc"[:k], repeat=m)]
    return WORDS[k, n]


# A regular expression is a tree; its language restricted to words of length
# at most n is computed from the definition.
def rx_lang(t, n):
    k = t[0]
    if k == "eps":
        return {""}
    if k == "sym":
        return {t[1]} if n >= 1 else set()
    if k == "alt":
        return rx_lang(t[1], n) | rx_lang(t[2], n)
    if k == "cat":
        A, B = rx_lang(t[1], n), rx_lang(t[2], n)
        return {x + y for x in A for y in B if len(x) + len(y) <= n}
    A = rx_lang(t[1], n)
    out = {""}
    new = {""}
    while new:
        new = {x + y for x in new for y in A if len(x) + len(y) <= n} - out
        out |= new
    return out


def rx_str(t, prec=0):
    k = t[0]
    if k == "eps":
        return "()"
    if k == "sym":
        return t[1]
    if k == "alt":
        s = rx_str(t[1], 0) + "+" + rx_str(t[2], 0)
        return "(" + s + ")" if prec > 0 else s
    if k == "cat":
        s = rx_str(t[1], 1) + rx_str(t[2], 1)
        return "(" + s + ")" if prec > 1 else s
    return rx_str(t[1], 2) + "*"


def rx_trees(size, syms):
    if size == 1:
        yield ("eps",)
        for s in syms:
            yield ("sym", s)
        return
    for x in rx_trees(size - 1, syms):
        yield ("star", x)
    for i in range(1, size - 1):
        for x in rx_trees(i, syms):
            for y in rx_trees(size - 1 - i, syms):
                yield ("alt", x, y)
                yield ("cat", x, y)


def rx_random(rng, size, syms):
    if size <= 1:
        return ("eps",) if rng.random() < .1 else ("sym", rng.choice(syms))
    r = rng.random()
    if r < .25:
        return ("star", rx_random(rng, size - 1, syms))
    i = rng.randrange(1, size)
    return ("alt" if r < .55 else "cat", rx_random(rng, i, syms),
            rx_random(rng, size - i, syms))


def rx_syms(t):
    if t[0] == "sym":
        return {t[1]}
    return set().union(*[rx_syms(x) for x in t[1:]]) if len(t) > 1 else set()


def lang_upto(A, alphabet, n):
    k = len(alphabet)
    al = sorted(alphabet)
    out = set()
    for w in words(k, n):
        w = "".join(al["abc".index(c)] for c in w)
        if A(w):
            out.add(w)
    return out


def _rx_check(t, n):
    from pads.automata import RegExp, RegularLanguage, LanguageError
    s = rx_str(t)
    A = RegExp(s)
    al = rx_syms(t)
    expect(set(A.alphabet) == al, "alphabet of", s)
    want = rx_lang(t, n)
    got = lang_upto(A, al, n)
    expect(got == want, "RegExp(%r) is wrong on %r" %
           (s, sorted(got ^ want, key=len)[:3]))
    L = RegularLanguage(s)
    for w in list(want)[:3]:
        expect(w in L, "%r not in language of %s" % (w, s))
    back = A.RegExp()
    if back is not None or want:
        expect(isinstance(back, str), "RegExp() returned %r" % (back,))
        B = RegExp(back)
        got = lang_upto(B, B.alphabet, n)
        expect(got == want, "RegExp() of %r is %r, wrong on %r" %
               (s, back, sorted(got ^ want, key=len)[:3]))
    try:
        A("Z")
    except LanguageError:
        pass
    else:
        raise Bad("a symbol outside of the alphabet is accepted")


@driver("C35", ["automata.RegExp", "automata.NFA.RegExp",
                "automata.DFA.__call__"],
        "every regular expression tree with <=4 nodes over {a,b} (5"
        " thorough), seeded trees with <=14 nodes; words of length <=5")
def regexps(ctx):
    for size in range(1, 6 if ctx.thorough else 5):
        for t in rx_trees(size, "ab"):
            ctx.run("RegExp", rx_str(t), lambda: _rx_check(t, 5))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(600, 6000):
        k += 1
        t = rx_random(rng, rng.randrange(3, 15), "ab")
        ctx.run("RegExp", rx_str(t), lambda: _rx_check(t, 5))

    def bad(s):
        from pads.automata import RegExp, LanguageError, RegExpError
        try:
            RegExp(s)
        except (LanguageError, RegExpError):
            return
        raise Bad("accepted")
    for s in ("(", "(a", "a(b+c", "a\\", "((a)"):
        ctx.run("malformed RegExp", s, lambda: bad(s))

    def esc():
        from pads.automata import RegExp
        A = RegExp("\\*a\\+\\(*")
        for w, x in (("*a+", True), ("*a+((", True), ("a+", False),
                     ("*a", False), ("", False)):
            expect(bool(A(w)) == x, "escaped characters on %r" % w)
        for s, yes, no in (("a+", ["", "a"], ["aa"]),
                           ("(a+)b", ["b", "ab"], ["", "a"]),
                           ("", [""], [])):
            A = RegExp(s)
            for w in yes:
                expect(A(w), "%r does not accept %r" % (s, w))
            for w in no:
                expect(not A(w), "%r accepts %r" % (s, w))
    ctx.run("escapes and empty parts", None, esc)


def rand_nfa(rng, k, n):
    from pads.automata import LookupNFA
    al = set("abc"[:k])
    p = rng.choice([.1, .2, .4])
    tt = {(s, c): [t for t in range(n) if rng.random() < p]
          for s in range(n) for c in al}
    ini = [s for s in range(n) if rng.random() < .3] or [0]
    fin = [s for s in range(n) if rng.random() < .3]
    return LookupNFA(al, ini, tt, fin), (al, ini, tt, fin)


def nfa_accepts(d, w):
    al, ini, tt, fin = d
    S = set(ini)
    for c in w:
        S = {t for s in S for t in tt[s, c]}
    return bool(S & set(fin))


def rand_dfa(rng, k, n):
    from pads.automata import DFA
    al = set("abc"[:k])
    tt = {(s, c): rng.randrange(n) for s in range(n) for c in al}
    fin = {s for s in range(n) if rng.random() < .4}
    return mk_dfa(al, 0, tt, fin), (al, [0], {q: [t] for q, t in tt.items()},
                                    fin)


def mk_dfa(al, ini, tt, fin):
    from pads.automata import DFA

    class D(DFA):
        def __init__(self):
            self.alphabet, self.initial = set(al), ini

        def transition(self, s, c):
            return tt[s, c]

        def isfinal(self, s):
            return s in fin
    return D()


def _ops_check(A, dA, B, dB, n):
    from pads.automata import language
    al = dA[0]
    W = words(len(al), n)
    a = {w for w in W if nfa_accepts(dA, w)}
    b = {w for w in W if nfa_accepts(dB, w)}
    all_ = set(W)

    def same(X, want, what):
        got = {w for w in W if X(w)}
        expect(got == want, what, "is wrong on %r" %
               (sorted(got ^ want, key=len)[:3],))
    same(A, a, "automaton")
    same(A.asDFA(), a, "asDFA")
    same(A.asNFA(), a, "asNFA")
    same(A.complement(), all_ - a, "complement")
    same(A.union(B), a | b, "union")
    same(A.intersection(B), a & b, "intersection")
    same(A.symmetricDifference(B), a ^ b, "symmetricDifference")
    same(A.reverse(), {w[::-1] for w in a}, "reverse")
    R = A.renumber(7)
    same(R, a, "renumber")
    expect(sorted(R.states()) == list(range(7, 7 + len(A))),
           "renumber states")
    if len(A) <= 4:
        from pads.automata import RegExp
        back = A.asNFA().RegExp()
        if back is None:
            expect(not a, "RegExp() is None for a nonempty language")
        else:
            X = RegExp(back)
            same(lambda w: set(w) <= set(X.alphabet) and X(w), a,
                 "RegExp() = %r" % back)
    LA, LB = language(A), language(B)
    for what, L, want in (("&", LA & LB, a & b), ("|", LA | LB, a | b),
                          ("^", LA ^ LB, a ^ b), ("~", ~LA, all_ - a)):
        got = {w for w in W if w in L}
        expect(got == want, "language", what, "is wrong on %r" %
               (sorted(got ^ want, key=len)[:3],))
    reach = set(dA[1])
    todo = list(reach)
    while todo:
        s = todo.pop()
        for c in al:
            for t in dA[2][s, c]:
                if t not in reach:
                    reach.add(t)
                    todo.append(t)
    st = list(A.states())
    expect(len(st) == len(set(st)) and set(st) == reach and
           len(A) == len(reach), "states() are %r, expected %r" % (st, reach))
    out = io.StringIO()
    A.pprint(out)
    for s in reach:
        expect(str(s) in out.getvalue(), "pprint omits a state")


@driver("C35", ["automata._ProductDFA", "automata._ComplementDFA",
                "automata._DFAfromNFA", "automata._NFAfromDFA",
                "automata._ReverseNFA", "automata._RenumberNFA",
                "automata.LookupNFA", "automata.NFA.states"],
        "seeded pairs of NFAs and DFAs with <=5 states over <=3 symbols,"
        " words of length <=5")
def automata_ops(ctx):
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(300, 3000):
        k += 1
        q = rng.choice([1, 2, 2, 3])
        mk = rng.choice([rand_nfa, rand_dfa])
        mk2 = rng.choice([rand_nfa, rand_dfa])
        A, dA = mk(rng, q, rng.randrange(1, 6))
        B, dB = mk2(rng, q, rng.randrange(1, 6))
        ctx.run("automata operations", (dA, dB),
                lambda: _ops_check(A, dA, B, dB, 4 if q == 3 else 5))


# ------------------------------------------------------------------ C36
def det(d):
    al, ini, tt, fin = d
    start = frozenset(ini)
    tr = {}
    todo = [start]
    seen = {start}
    while todo:
        S = todo.pop()
        for c in al:
            T = frozenset(t for s in S for t in tt[s, c])
            tr[S, c] = T
            if T not in seen:
                seen.add(T)
                todo.append(T)
    return al, start, tr, {S for S in seen if S & set(fin)}, seen


def differ(d1, d2, op):
    """Is there a word on which op(accept1, accept2) holds?"""
    al, s1, t1, f1, _ = det(d1)
    _, s2, t2, f2, _ = det(d2)
    seen = {(s1, s2)}
    todo = [(s1, s2)]
    while todo:
        p, q = todo.pop()
        if op(p in f1, q in f2):
            return True
        for c in al:
            n = (t1[p, c], t2[q, c])
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return False


def min_states(d):
    al, start, tr, fin, seen = det(d)
    cls = {S: S in fin for S in seen}
    while True:
        sig = {S: (cls[S],) + tuple(cls[tr[S, c]] for c in sorted(al))
               for S in seen}
        if len(set(sig.values())) == len(set(cls.values())):
            return len(set(cls.values()))
        cls = sig


def _min_check(A, d, n):
    M = A.minimize()
    k = min_states(d)
    expect(len(M) == k, "minimized automaton has %d states, the minimum is"
           " %d" % (len(M), k))
    for w in words(len(d[0]), n):
        expect(bool(M(w)) == nfa_accepts(d, w), "minimized automaton is"
               " wrong on %r" % w)
    expect(M == A.minimize() and not (M != A.minimize()), "two minimizations"
           " differ")


def _cmp_check(A, dA, B, dB):
    from pads.automata import language
    LA, LB = language(A), language(B)
    le = not differ(dA, dB, lambda x, y: x and not y)
    ge = not differ(dA, dB, lambda x, y: y and not x)
    eq = le and ge
    for what, got, want in (("==", LA == LB, eq), ("!=", LA != LB, not eq),
                            ("<=", LA <= LB, le), (">=", LA >= LB, ge),
                            ("<", LA < LB, le and not eq),
                            (">", LA > LB, ge and not eq),
                            ("truth value", bool(LA),
                             differ(dA, dA, lambda x, y: x))):
        expect(bool(got) == want, what, "gives %r, expected %r" %
               (got, want))


@driver("C36", ["automata._MinimumDFA", "automata.DFA.__eq__",
                "automata.RegularLanguage"],
        "all DFAs with <=2 states over {a,b}, seeded NFAs and DFAs with <=7"
        " states, pairs of seeded automata and equivalent variants")
def minimization(ctx):
    rng = ctx.rng
    small = []
    for n in (1, 2):
        for e in itertools.product(range(n), repeat=2 * n):
            for f in range(1 << n):
                tt = {(s, c): e[2 * s + i] for s in range(n)
                      for i, c in enumerate("ab")}
                fin = {s for s in range(n) if f >> s & 1}
                small.append((mk_dfa("ab", 0, tt, fin),
                              (set("ab"), [0],
                               {q: [t] for q, t in tt.items()}, fin)))
    for A, d in small:
        ctx.run("minimize", d, lambda: _min_check(A, d, 4))
    for i, (A, dA) in enumerate(small):
        for B, dB in small[i % 3::3]:
            ctx.run("comparison", (dA, dB),
                    lambda: _cmp_check(A, dA, B, dB))
    k = 0
    while ctx.more() and k < ctx.times(500, 4000):
        k += 1
        q = rng.choice([1, 2, 2, 3])
        A, dA = rng.choice([rand_nfa, rand_dfa])(rng, q, rng.randrange(1, 6))
        if rng.random() < .5:
            A, dA = rand_dfa(rng, q, rng.randrange(3, 10))
        ctx.run("minimize", dA, lambda: _min_check(A, dA, 4))
        if rng.random() < .5:
            B, dB = rand_nfa(rng, q, rng.randrange(1, 4))
        else:
            al, ini, tt, fin = dA
            st = sorted({s for s, c in tt})
            f2 = set(fin)
            if rng.random() < .6:
                f2 ^= {rng.choice(st)}
            tt = {k2: list(v) for k2, v in tt.items()}
            from pads.automata import LookupNFA
            B = LookupNFA(al, ini, tt, f2)
            dB = (al, ini, tt, f2)
        ctx.run("comparison", (dA, dB), lambda: _cmp_check(A, dA, B, dB))
