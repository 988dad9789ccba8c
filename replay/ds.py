"""Data structures: C01-C09."""
import itertools

from .core import driver, expect, Bad


# ------------------------------------------------------------------ C01
@driver("C01", ["_not.Not", "_not.SymbolicNegation.__init__",
                "_not.SymbolicNegation.negate",
                "_not.SymbolicNegation.__eq__",
                "_not.SymbolicNegation.__hash__"],
        "all ordered pairs of a 60-value pool and their negations")
def not_laws(ctx):
    from pads._not import Not, SymbolicNegation

    class Odd:
        """hashable, compares by content"""
        def __init__(self, k):
            self.k = k

        def __eq__(self, o):
            return isinstance(o, Odd) and o.k == self.k

        def __hash__(self):
            return self.k % 2 - 1

        def __repr__(self):
            return "Odd(%d)" % self.k

    pool = [0, 1, -1, -2, 2, 1.0, True, False, None, "", "a", "Not(a)", (),
            (1,), (1, 2), frozenset(), frozenset([1]), 2.5, 10 ** 30,
            -10 ** 30, ("Not", 1), Odd(0), Odd(1), Odd(0), Odd(2), object()]
    pool += [ctx.rng.randrange(-50, 50) for _ in range(20)]
    pool += ["s%d" % ctx.rng.randrange(10) for _ in range(8)]

    def one(x):
        nx = Not(x)
        expect(isinstance(nx, SymbolicNegation), "Not(x) is not recognisable"
               " as a negation")
        expect(not isinstance(Not(nx), SymbolicNegation),
               "Not(Not(x)) is still a negation")
        expect(Not(nx) == x and Not(nx) is x, "Not(Not(x)) is not x")
        expect(not (nx == x) and nx != x, "Not(x) equals x")
        expect(Not(Not(Not(x))) == nx, "triple negation differs from single")
        expect(hash(nx) == hash(Not(x)), "equal negations hash differently")
        expect(len({nx, Not(x), x}) == 2, "set of x, Not(x), Not(x)")
        expect({nx: 7}[Not(x)] == 7, "dict lookup by an equal negation")

    def two(x, y):
        nx, ny = Not(x), Not(y)
        expect((nx == ny) == (x == y), "Not(x)==Not(y) differs from x==y")
        expect((nx != ny) == (x != y), "Not(x)!=Not(y) differs from x!=y")
        expect(not (nx == y) and not (y == nx), "Not(x)==y for a plain y")
        if x == y:
            expect(hash(nx) == hash(ny), "equal negations, unequal hashes")
        expect(Not(nx) == x and Not(ny) == y, "not involutive")

    for x in pool:
        ctx.run("Not(x)", x, lambda: one(x))
    for x in pool:
        for y in pool:
            ctx.run("Not(x),Not(y)", (x, y), lambda: two(x, y))

    def unhashable():
        x = [1, 2]
        expect(Not(Not(x)) is x and Not([1]) == Not([1]) and
               not Not([1]) == Not([2]), "unhashable value")
    ctx.run("Not(list)", [1, 2], unhashable)


# ------------------------------------------------------------------ C02
def _uf_check(ops, order):
    from pads.union_find import UnionFind
    U = UnionFind()
    part = {}             # reference: item -> set object

    def touch(x):
        if x not in part:
            part[x] = {x}

    names = {}            # frozenset -> name, while unchanged

    def observe():
        known = [x for x in order if x in part] if order else list(part)
        got = {x: U[x] for x in known}
        for x in known:
            expect(got[x] in part[x], "name of", x, "is not in its set")
            for y in known:
                expect((got[x] == got[y]) == (part[x] is part[y]),
                       "find(%r)==find(%r) is %r after %r" %
                       (x, y, got[x] == got[y], ops))
        now = {}
        for x in known:
            fs = frozenset(part[x])
            now[fs] = got[x]
            if fs in names:
                expect(names[fs] == got[x], "unchanged set", set(fs),
                       "changed its name")
        names.clear()
        names.update(now)
        expect(sorted(map(repr, U)) == sorted(map(repr, part)),
               "iteration lists other items than those ever used")

    for op in ops:
        if op[0] == "find":
            touch(op[1])
            r = U[op[1]]
            expect(r in part[op[1]], "find returned a foreign name")
        elif op[0] == "union":
            for x in op[1:]:
                touch(x)
            U.union(*op[1:])
            m = set()
            for x in op[1:]:
                m |= part[x]
            for x in m:
                part[x] = m
        elif op[0] == "obs":
            observe()
    observe()


@driver("C02", ["union_find.UnionFind.__init__",
                "union_find.UnionFind.__getitem__",
                "union_find.UnionFind.union", "union_find.UnionFind.__iter__"],
        "all histories of 3 ops over 3 items (5 over 3 thorough), plus seeded"
        " histories of up to 60 ops over up to 25 items of mixed types")
def uf_histories(ctx):
    items = [0, "b", ()]
    ops = [("find", x) for x in items] + [("obs",)]
    ops += [("union", x, y) for x in items for y in items if x != y]
    ops += [("union", 0, "b", ()), ("union", 0, 0), ("union", "b"),
            ("union", (), 0, (), 0)]
    for n in range(1, 5 if ctx.thorough else 4):
        for h in itertools.product(ops, repeat=n):
            ctx.run("UnionFind history", h, lambda: _uf_check(h, None))
    rng = ctx.rng
    pals = [lambda i: i, lambda i: "s%d" % i, lambda i: (i % 3, i),
            lambda i: [i, str(i), (i,), None if i == 3 else frozenset([i])]
            [i % 4]]
    k = 0
    while ctx.more() and k < ctx.times(2500, 20000):
        k += 1
        f = rng.choice(pals)
        n = rng.randrange(2, 26)
        h = []
        for _ in range(rng.randrange(1, 60)):
            r = rng.random()
            if r < .3:
                h.append(("find", f(rng.randrange(n))))
            elif r < .9:
                h.append(("union",) + tuple(
                    f(rng.randrange(n))
                    for _ in range(rng.choice([1, 2, 2, 2, 3, 5]))))
            else:
                h.append(("obs",))
        ctx.run("UnionFind history", h, lambda: _uf_check(h, None))


@driver("C02", ["union_find.UnionFind.__getitem__",
                "union_find.UnionFind.union"],
        "seeded tournaments of unions of equal sets of 4 to 64 items, then "
        "lookups in random order")
def uf_tournament(ctx):
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(400, 4000):
        k += 1
        n = rng.choice([4, 8, 8, 16, 16, 32, 64])
        sets = [[i] for i in range(n)]
        h = []
        while len(sets) > rng.choice([1, 1, 2]):
            rng.shuffle(sets)
            sets.sort(key=len)
            a, b = sets.pop(0), sets.pop(0)
            # items united first are near the root
            i, j = (0, 0) if rng.random() < .8 else (
                rng.randrange(len(a)), rng.randrange(len(b)))
            h.append(("union", a[i], b[j]))
            sets.append(a + b if rng.random() < .5 else b + a)
        for _ in range(rng.randrange(0, 3)):
            h.append(("find", rng.randrange(n)))
        order = list(range(n))
        rng.shuffle(order)
        ctx.run("UnionFind tournament", (h, order),
                lambda: _uf_check(h, order))


# ------------------------------------------------------------------ C03
class Box(list):
    """Unhashable item, used with key=id."""
    pass


def _seq_check(init, ops, keyed):
    from pads.sequence import Sequence
    boxes = {}

    def it(i):
        if not keyed:
            return i
        if i not in boxes:
            boxes[i] = Box([i])
        return boxes[i]
    S = Sequence([it(i) for i in init], key=id) if keyed else Sequence(
        [it(i) for i in init])
    ref = list(init)

    def observe():
        expect([x for x in S] == [it(i) for i in ref] and
               all(a is b for a, b in zip(S, map(it, ref))),
               "iteration gives %r, expected %r" % (list(S), ref))
        expect(len(S) == len(ref), "len is %d, expected %d" %
               (len(S), len(ref)))
        expect(bool(S) == bool(ref), "truth value")
        for i in range(len(ref)):
            expect(S[i] is it(ref[i]) or S[i] == it(ref[i]),
                   "S[%d] is %r, expected %r" % (i, S[i], ref[i]))
            expect(S.successor(it(ref[i])) == it(ref[(i + 1) % len(ref)]),
                   "successor of %r" % (ref[i],))
            expect(S.predecessor(it(ref[i])) == it(ref[i - 1]),
                   "predecessor of %r" % (ref[i],))
        for bad in (len(ref), len(ref) + 1, -1):
            try:
                v = S[bad]
            except IndexError:
                pass
            else:
                raise Bad("S[%d] past the end returned %r" % (bad, v))
        expect(repr(S) == "Sequence([" + ",".join(
            repr(it(i)) for i in ref) + "])", "repr")
    observe()
    for op in ops:
        if op[0] == "append":
            S.append(it(op[1]))
            ref.append(op[1])
        elif op[0] == "remove":
            S.remove(it(op[1]))
            ref.remove(op[1])
        elif op[0] == "after":
            S.insertAfter(it(op[1]), it(op[2]))
            ref.insert(ref.index(op[1]) + 1, op[2])
        elif op[0] == "before":
            S.insertBefore(it(op[1]), it(op[2]))
            ref.insert(ref.index(op[1]), op[2])
        elif op[0] == "dup":
            from pads.sequence import SequenceError
            for f in ([lambda: S.append(it(op[1]))] +
                      ([lambda: S.insertAfter(it(ref[0]), it(op[1])),
                        lambda: S.insertBefore(it(ref[-1]), it(op[1]))])):
                try:
                    f()
                except SequenceError:
                    pass
                else:
                    raise Bad("duplicate %r accepted" % (op[1],))
                observe()
        elif op[0] == "absent":
            for f in ([lambda: S.remove(it(op[1])),
                       lambda: S.predecessor(it(op[1])),
                       lambda: S.successor(it(op[1])),
                       lambda: S.insertAfter(it(op[1]), it("new")),
                       lambda: S.insertBefore(it(op[1]), it("new"))]):
                try:
                    f()
                except KeyError:
                    pass
                else:
                    raise Bad("absent %r accepted" % (op[1],))
                observe()
        observe()


def _seq_random(rng, universe, n):
    init = rng.sample(universe, rng.randrange(0, min(5, len(universe))))
    ref = list(init)
    ops = []
    for _ in range(n):
        out = [x for x in universe if x not in ref]
        c = rng.random()
        if c < .3 and out:
            x = rng.choice(out)
            ops.append(("append", x))
            ref.append(x)
        elif c < .5 and out and ref:
            x, y = rng.choice(ref), rng.choice(out)
            ops.append(("after", x, y))
            ref.insert(ref.index(x) + 1, y)
        elif c < .7 and out and ref:
            x, y = rng.choice(ref), rng.choice(out)
            ops.append(("before", x, y))
            ref.insert(ref.index(x), y)
        elif c < .93 and ref:
            x = rng.choice(ref)
            ops.append(("remove", x))
            ref.remove(x)
        elif c < .96 and ref:
            ops.append(("dup", rng.choice(ref)))
        elif out:
            ops.append(("absent", rng.choice(out)))
    return init, ops


def _seq_exhaustive(universe, depth):
    def rec(ref, ops, d):
        yield list(ops)
        if d == 0:
            return
        for x in universe:
            if x in ref:
                r = list(ref)
                r.remove(x)
                yield from rec(r, ops + [("remove", x)], d - 1)
            else:
                yield from rec(ref + [x], ops + [("append", x)], d - 1)
                for y in ref:
                    i = ref.index(y)
                    yield from rec(ref[:i + 1] + [x] + ref[i + 1:],
                                   ops + [("after", y, x)], d - 1)
                    yield from rec(ref[:i] + [x] + ref[i:],
                                   ops + [("before", y, x)], d - 1)
    return rec([], [], depth)


@driver("C03", ["sequence.Sequence"],
        "all histories of <=5 ops over 3 items, seeded histories of up to 40"
        " ops over 12 items, plain and key=id")
def seq_histories(ctx):
    for ops in _seq_exhaustive([1, 2, 3], 5 if ctx.thorough else 4):
        for keyed in (False, True):
            ctx.run("Sequence history", (keyed, ops),
                    lambda: _seq_check([], ops, keyed))
    k = 0
    U1 = list(range(12))
    U2 = ["a", None, 0, (), "b", 5, 2.5, "", frozenset()]
    while ctx.more() and k < ctx.times(1500, 20000):
        k += 1
        keyed = ctx.rng.random() < .5
        init, ops = _seq_random(ctx.rng, ctx.rng.choice([U1, U2]),
                                ctx.rng.randrange(1, 40))
        ctx.run("Sequence history", (keyed, init, ops),
                lambda: _seq_check(init, ops, keyed))


def _seq_collide(words, ops):
    """Key function under which different items are the same."""
    from pads.sequence import Sequence, SequenceError
    S = Sequence(key=len)
    ref = []
    for op, w in zip(ops, words):
        at = [i for i, v in enumerate(ref) if len(v) == len(w)]
        try:
            if op == 0:
                S.append(w)
                ok = not at
            elif op == 1:
                S.remove(w)
                ok = bool(at)
            elif op == 2:
                got = S.successor(w)
                ok = bool(at)
                if ok:
                    expect(got == ref[(at[0] + 1) % len(ref)], "successor")
            else:
                got = S.predecessor(w)
                ok = bool(at)
                if ok:
                    expect(got == ref[at[0] - 1], "predecessor")
        except SequenceError:
            expect(op == 0 and at, "SequenceError raised without a reason")
        except KeyError:
            expect(op != 0 and not at, "KeyError raised without a reason")
        else:
            expect(ok, "operation %d on %r accepted" % (op, w))
            if op == 0:
                ref.append(w)
            elif op == 1:
                del ref[at[0]]
        expect(list(S) == ref, "items %r, expected %r" % (list(S), ref))


@driver("C03", ["sequence.Sequence"], "seeded histories of up to 12 ops with "
        "key=len over 8 words")
def seq_equal_keys(ctx):
    W = ["a", "b", "", "xx", "yy", "zz", "abc", "xyz"]
    k = 0
    while ctx.more() and k < ctx.times(1500, 20000):
        k += 1
        n = ctx.rng.randrange(1, 13)
        ops = [ctx.rng.choice([0, 0, 1, 2, 3]) for _ in range(n)]
        words = [ctx.rng.choice(W) for _ in range(n)]
        ctx.run("Sequence history with equal keys", (words, ops),
                lambda: _seq_collide(words, ops))


# ------------------------------------------------------------------ C04
def _oseq_check(cls, init, ops, keyed, full):
    boxes = {}

    def it(i):
        if not keyed:
            return i
        if i not in boxes:
            boxes[i] = Box([i])
        return boxes[i]
    S = cls([it(i) for i in init], key=id) if keyed else cls(
        [it(i) for i in init])
    ref = list(init)

    def observe(focus=None):
        expect([x for x in S] == [it(i) for i in ref], "iteration order")
        expect(len(S) == len(ref), "len")
        pairs = [(i, j) for i in range(len(ref)) for j in range(len(ref))]
        if len(ref) > 8 and not full:
            f = ref.index(focus) if focus in ref else 0
            pairs = [(f, j) for j in range(len(ref))] + \
                [(j, j + 1) for j in range(len(ref) - 1)]
        for i, j in pairs:
            c = S.cmp(it(ref[i]), it(ref[j]))
            e = (i > j) - (i < j)
            expect(c == e, "cmp(item %d, item %d) = %r, expected %r" %
                   (i, j, c, e))
    observe()
    for op in ops:
        if op[0] == "append":
            S.append(it(op[1]))
            ref.append(op[1])
        elif op[0] == "remove":
            S.remove(it(op[1]))
            ref.remove(op[1])
        elif op[0] == "after":
            S.insertAfter(it(op[1]), it(op[2]))
            ref.insert(ref.index(op[1]) + 1, op[2])
        elif op[0] == "before":
            S.insertBefore(it(op[1]), it(op[2]))
            ref.insert(ref.index(op[1]), op[2])
        observe(op[-1])


@driver("C04", ["ordered_sequence.SimpleOrderedSequence",
                "ordered_sequence.LogarithmicOrderedSequence"],
        "all histories of <=4 ops over 3 items, seeded histories of up to 40"
        " ops, and runs of 70-200 insertions at one place that force"
        " relabelling")
def oseq_histories(ctx):
    from pads.ordered_sequence import SimpleOrderedSequence, \
        LogarithmicOrderedSequence
    classes = [SimpleOrderedSequence, LogarithmicOrderedSequence]
    for ops in _seq_exhaustive([1, 2, 3], 4):
        for cls in classes:
            ctx.run(cls.__name__, ops,
                    lambda: _oseq_check(cls, [], ops, False, True))
    # forced relabelling
    for cls in classes:
        for n in (70, 130, 200):
            for kind in ("front", "after0", "before1", "back", "mid"):
                ops = [("append", 0), ("append", 1)]
                last = 1
                for k in range(2, n):
                    if kind == "front":
                        ops.append(("before", 0 if k == 2 else k - 1, k))
                    elif kind == "after0":
                        ops.append(("after", 0, k))
                    elif kind == "before1":
                        ops.append(("before", 1, k))
                    elif kind == "back":
                        ops.append(("append", k))
                    else:
                        ops.append(("after" if k % 3 else "before", last, k))
                        last = k
                ctx.run("%s %s" % (cls.__name__, kind), (kind, n),
                        lambda: _oseq_check(cls, [], ops, False, False))
    k = 0
    while ctx.more() and k < ctx.times(800, 8000):
        k += 1
        cls = ctx.rng.choice(classes)
        keyed = ctx.rng.random() < .4
        init, ops = _seq_random(ctx.rng, list(range(14)),
                                ctx.rng.randrange(1, 40))
        ops = [o for o in ops if o[0] != "dup"]
        ctx.run(cls.__name__, (keyed, init, ops),
                lambda: _oseq_check(cls, init, ops, keyed, True))


# ------------------------------------------------------------------ C05
def _bq_check(ops):
    from pads.bucketqueue import BucketQueue
    Q = BucketQueue()
    ref = {}

    def observe():
        expect(len(Q) == len(ref), "len is %d, expected %d" %
               (len(Q), len(ref)))
        for x in ref:
            expect(x in Q, x, "missing")
            expect(Q[x] == ref[x], "priority of", x, "is", Q[x], "not",
                   ref[x])

    def apply(op):
        if op[0] == "set":
            Q[op[1]] = op[2]
            ref[op[1]] = op[2]
        elif op[0] == "dec":
            if op[1] in ref:
                Q[op[1]] -= op[2]
                ref[op[1]] -= op[2]
        elif op[0] == "del":
            if op[1] in ref:
                del Q[op[1]]
                del ref[op[1]]
                expect(op[1] not in Q, "deleted item still present")
            else:
                try:
                    del Q[op[1]]
                except KeyError:
                    pass
                else:
                    raise Bad("deleting an absent item raised nothing")
        elif op[0] == "bad":
            try:
                Q[op[1]] = 1.5
            except TypeError:
                pass
            else:
                raise Bad("non-integer priority accepted")
        observe()

    pending = list(ops)
    while pending:
        op = pending.pop(0)
        if op[0] == "iter":
            body = op[2]
            n = 0
            stepper = Q.items() if op[1] else iter(Q)
            for got in stepper:
                if op[1]:
                    x, p = got
                else:
                    x, p = got, None
                expect(ref, "iteration yields", x, "from an empty queue")
                expect(x in ref, "iteration yields absent", x)
                m = min(ref.values())
                expect(ref[x] == m, "yielded", x, "of priority", ref[x],
                       "while the minimum is", m)
                if op[1]:
                    expect(p == m, "items() reported priority", p, "not", m)
                del ref[x]
                expect(x not in Q, "yielded item still in the queue")
                observe()
                if n < len(body):
                    for o in body[n]:
                        apply(o)
                n += 1
                if op[3] is not None and n >= op[3]:
                    break
            else:
                expect(not ref, "iteration stopped with", ref, "left")
        else:
            apply(op)
    out = list(Q)
    expect([ref[x] for x in out] == sorted(ref.values()) and
           set(out) == set(ref) and len(out) == len(ref),
           "final drain gives", out, "for", ref)


@driver("C05", ["bucketqueue.BucketQueue"],
        "all histories of <=4 ops over 2 items and priorities -1,0,2, seeded"
        " histories of up to 40 ops over 10 items, with the queue modified"
        " during iteration")
def bq_histories(ctx):
    base = [("set", x, p) for x in "ab" for p in (-1, 0, 2)]
    base += [("del", "a"), ("del", "b"), ("dec", "a", 1), ("bad", "a"),
             ("iter", False, [], None), ("iter", True, [], 1)]
    for n in range(1, 5 if ctx.thorough else 4):
        for h in itertools.product(base, repeat=n):
            ctx.run("BucketQueue history", h, lambda: _bq_check(h))
    rng = ctx.rng
    items = ["a", "b", 0, None, (), 5, "c", frozenset([1]), 7, 8]

    def op():
        r = rng.random()
        x = rng.choice(items)
        if r < .6:
            return ("set", x, rng.choice([rng.randrange(-4, 8),
                                          rng.randrange(-100, 300)]))
        if r < .8:
            return ("dec", x, rng.choice([1, 1, 1, -1, 5]))
        if r < .95:
            return ("del", x)
        return ("bad", x)
    k = 0
    while ctx.more() and k < ctx.times(2500, 20000):
        k += 1
        h = []
        for _ in range(rng.randrange(1, 25)):
            if rng.random() < .15:
                h.append(("iter", rng.random() < .5,
                          [[op() for _ in range(rng.randrange(0, 3))]
                           for _ in range(rng.randrange(0, 8))],
                          rng.choice([None, None, 1, 2, 3])))
            else:
                h.append(op())
        ctx.run("BucketQueue history", h, lambda: _bq_check(h))


# ------------------------------------------------------------------ C06
def _pr_check(items, ops):
    from pads.partition_refinement import PartitionRefinement, PartitionError
    P = PartitionRefinement(list(items))
    ref = {}
    first = set(items)
    classes = [first]           # reference classes (may become empty)
    for x in items:
        ref[x] = first

    def observe():
        got = [frozenset(s) for s in P]
        expect(sorted(map(lambda s: sorted(map(repr, s)), got)) ==
               sorted(map(lambda s: sorted(map(repr, s)), classes)),
               "sets are %r, expected %r" % (got, classes))
        expect(len(P) == len(classes), "len is %d, expected %d" %
               (len(P), len(classes)))
        for x in ref:
            expect(set(P[x]) == ref[x], "P[%r] is %r, expected %r" %
                   (x, P[x], ref[x]))
            expect(any(P[x] is s for s in P), "P[x] is not one of the sets")
        for x in ref:
            for y in ref:
                expect((P[x] is P[y]) == (ref[x] is ref[y]),
                       "identity of the sets of %r and %r" % (x, y))
    observe()
    for op in ops:
        if op[0] == "refine":
            S = op[1]
            before = {id(s): set(s) for s in P}
            objs = {id(s): s for s in P}
            out = P.refine(S if op[2] else iter(S))
            Sset = set(S)
            want = []
            for c in list(classes):
                i, d = c & Sset, c - Sset
                if i and d:
                    want.append((frozenset(i), frozenset(d)))
                    c -= i
                    new = set(i)
                    classes.append(new)
                    for x in new:
                        ref[x] = new
            gotp = [(frozenset(a), frozenset(b)) for a, b in out]
            expect(sorted(map(repr, map(lambda t: (sorted(map(repr, t[0])),
                                                   sorted(map(repr, t[1]))),
                                        gotp))) ==
                   sorted(map(repr, map(lambda t: (sorted(map(repr, t[0])),
                                                   sorted(map(repr, t[1]))),
                                        want))),
                   "refine(%r) returned %r, expected %r" % (S, gotp, want))
            for a, b in out:
                expect(id(b) in objs and objs[id(b)] is b,
                       "A - S is not the existing set object")
                expect(not any(a is o for o in objs.values()),
                       "A & S is not a new object")
                expect(before[id(b)] == set(a) | set(b), "pair does not"
                       " partition the old set")
        elif op[0] == "remove":
            if op[1] in ref:
                P.remove(op[1])
                ref[op[1]].discard(op[1])
                del ref[op[1]]
                try:
                    P[op[1]]
                except KeyError:
                    pass
                else:
                    raise Bad("removed element still mapped")
        elif op[0] == "add":
            x, y = op[1], op[2]
            if y in ref:
                tgt = P[y]
                if x in ref:
                    try:
                        P.add(x, tgt)
                    except PartitionError:
                        pass
                    else:
                        raise Bad("element added twice")
                else:
                    P.add(x, tgt)
                    ref[y].add(x)
                    ref[x] = ref[y]
            try:
                P.add("brand new", {1, 2})
            except PartitionError:
                pass
            else:
                raise Bad("add to a foreign set accepted")
        elif op[0] == "freeze":
            if not all(classes):
                continue
            P.freeze()
            for s in P:
                expect(isinstance(s, frozenset), "set not frozen")
            observe()
            return
        observe()


@driver("C06", ["partition_refinement.PartitionRefinement"],
        "all pairs of refinements of <=4 items, seeded histories of up to 25"
        " ops over up to 10 items")
def pr_histories(ctx):
    for n in range(0, 5):
        items = list(range(n))
        subs = [[x for x in items + [99] if m >> x & 1 or
                 (x == 99 and m & 1)] for m in range(1 << n)]
        for a in subs:
            for b in subs:
                ops = [("refine", a, True), ("refine", b, True),
                       ("freeze",)]
                ctx.run("refine twice", (items, ops),
                        lambda: _pr_check(items, ops), trivial=(n < 2))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(2500, 20000):
        k += 1
        U = rng.choice([list(range(10)), ["a", None, 0, (), 1, "", 2.5]])
        items = rng.sample(U, rng.randrange(0, len(U)))
        ops = []
        for _ in range(rng.randrange(1, 25)):
            r = rng.random()
            if r < .6:
                S = [rng.choice(U) for _ in range(rng.randrange(0, 8))]
                ops.append(("refine", S, rng.random() < .7))
            elif r < .8:
                ops.append(("remove", rng.choice(U)))
            else:
                ops.append(("add", rng.choice(U), rng.choice(U)))
        if rng.random() < .4:
            ops.append(("freeze",))
        ctx.run("PartitionRefinement history", (items, ops),
                lambda: _pr_check(items, ops))


# ------------------------------------------------------------------ C07
def _ss_check(init, ops, mode):
    from pads.sorted_set import SortedSet
    if mode == "plain":
        S, key = SortedSet(init), (lambda x: x)
    elif mode == "rev":
        S = SortedSet(init, lambda a, b: (b > a) - (b < a))
        key = (lambda x: -x)
    else:
        weight = {}

        def key(x):
            return weight.get(x, 0), x

        def cmp(a, b):
            return (key(a) > key(b)) - (key(a) < key(b))
        S = SortedSet(init, cmp)
    ref = set(init)

    def observe():
        got = list(S)
        expect(got == sorted(ref, key=key), "iteration gives %r, expected %r"
               % (got, sorted(ref, key=key)))
    for op in ops:
        if op[0] == "add":
            S.add(op[1])
            ref.add(op[1])
        elif op[0] == "remove":
            if op[1] in ref:
                S.remove(op[1])
                ref.remove(op[1])
            else:
                try:
                    S.remove(op[1])
                except KeyError:
                    pass
                else:
                    raise Bad("removing an absent item raised nothing")
        elif op[0] == "update":
            if op[1] in ref:
                if mode == "weight":
                    weight[op[1]] = op[2]
                S.update(op[1])
        elif op[0] == "iter":
            observe()
        expect(len(S) == len(ref), "len is %d, expected %d" %
               (len(S), len(ref)))
    observe()
    observe()


@driver("C07", ["sorted_set.SortedSet"],
        "all histories of <=5 ops over 2 items (6 thorough), seeded histories"
        " of up to 40 ops over 12 items; natural, reversed and changing"
        " orders")
def ss_histories(ctx):
    base = [("add", 1), ("add", 2), ("remove", 1), ("remove", 2), ("iter",),
            ("update", 1, 5)]
    for n in range(1, 7 if ctx.thorough else 6):
        for h in itertools.product(base, repeat=n):
            mode = "plain"
            ctx.run("SortedSet history", h, lambda: _ss_check([], h, mode))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(3000, 30000):
        k += 1
        mode = rng.choice(["plain", "rev", "weight", "weight"])
        init = [rng.randrange(12) for _ in range(rng.randrange(0, 8))]
        ops = []
        for _ in range(rng.randrange(1, 40)):
            r = rng.random()
            x = rng.randrange(12)
            ops.append(("add", x) if r < .35 else ("remove", x) if r < .6
                       else ("update", x, rng.randrange(-3, 4)) if r < .8
                       else ("iter",))
        ctx.run("SortedSet history", (mode, init, ops),
                lambda: _ss_check(init, ops, mode))


# ------------------------------------------------------------------ C08
def _heap_check(make, ops, lo_absent_ok=True, kind=""):
    Q = make()
    ref = set()

    def observe():
        expect(bool(Q) == bool(ref), "truth value is %r for %r" %
               (bool(Q), ref))
        if ref:
            m = Q.min()
            expect(m == min(ref), "min is %r for %r" % (m, sorted(ref)))
        else:
            try:
                v = Q.min()
            except ValueError:
                pass
            else:
                raise Bad("min of an empty heap returned %r" % (v,))
    for op in ops:
        if op[0] == "add":
            Q.add(op[1])
            ref.add(op[1])
        elif op[0] == "remove":
            if op[1] in ref:
                Q.remove(op[1])
                ref.remove(op[1])
            elif lo_absent_ok:
                Q.remove(op[1])
        elif op[0] == "removemin":
            if ref:
                x = Q.min()
                expect(x == min(ref), "min")
                Q.remove(x)
                ref.remove(x)
        observe()
    while ref:
        x = Q.min()
        expect(x == min(ref), "drain: min is %r for %r" % (x, sorted(ref)))
        Q.remove(x)
        ref.remove(x)
        observe()


@driver("C08", ["integer_heap.IntegerHeap", "integer_heap.log2",
                "integer_heap.BitVectorHeap", "integer_heap.FlatHeap",
                "integer_heap.LinearHeap"],
        "all histories of <=5 add/remove ops over 3 keys for each heap kind,"
        " seeded histories of up to 60 ops for orders 0-7")
def heap_histories(ctx):
    from pads.integer_heap import IntegerHeap, BitVectorHeap, FlatHeap, \
        LinearHeap
    kinds = [("BitVectorHeap", BitVectorHeap, [0, 1, 3], True),
             ("LinearHeap", LinearHeap, [0, 1, 3], False),
             ("FlatHeap(1)", lambda: FlatHeap(1), [0, 1, 3], True),
             ("FlatHeap(2)", lambda: FlatHeap(2), [0, 4, 5], True),
             ("IntegerHeap(4)", lambda: IntegerHeap(4), [0, 256, 257], True)]
    for nm, mk, keys, absent in kinds:
        base = [("add", k) for k in keys] + [("remove", k) for k in keys]
        for n in range(1, 6 if ctx.thorough else 5):
            for h in itertools.product(base, repeat=n):
                ctx.run(nm, h, lambda: _heap_check(mk, h, absent))
    rng = ctx.rng
    k = 0
    while ctx.more() and k < ctx.times(2500, 20000):
        k += 1
        i = rng.randrange(0, 8)
        which = rng.randrange(4)
        absent = True
        if which == 0:
            nm, mk = "BitVectorHeap", BitVectorHeap
        elif which == 1:
            nm, mk, absent = "LinearHeap", LinearHeap, False
        elif which == 2:
            i = max(i, 1)
            nm, mk = "FlatHeap(%d)" % i, lambda: FlatHeap(i)
        else:
            nm, mk = "IntegerHeap(%d)" % i, lambda: IntegerHeap(i)
        top = 1 << min(1 << i, 512)
        pool = {0, 1, top - 1, top // 2, max(0, top // 2 - 1)}
        pool |= {rng.randrange(top) for _ in range(6)}
        if which == 0:
            pool = {x % 700 for x in pool}
        half = 1 << ((1 << i) // 2)
        b = rng.randrange(half) * half
        pool |= {x for x in {b, b + 1, b + half - 1} if 0 <= x < top and
                 (which or x < 700)}
        pool = sorted(pool)
        h = []
        for _ in range(rng.randrange(1, 60)):
            r = rng.random()
            h.append(("add", rng.choice(pool)) if r < .55 else
                     ("remove", rng.choice(pool)) if r < .85 else
                     ("removemin",))
        ctx.run(nm, h, lambda: _heap_check(mk, h, absent))

    def out_of_range(i, x):
        Q = FlatHeap(i)
        Q.add(0)
        for f in (Q.add, Q.remove):
            try:
                f(x)
            except ValueError:
                pass
            else:
                raise Bad("out-of-range %r accepted" % x)
        expect(Q.min() == 0, "min changed")
    for i in (1, 2, 3, 4, 5):
        for x in (-1, 1 << (1 << i), (1 << (1 << i)) + 5, -10 ** 9):
            ctx.run("FlatHeap range", (i, x), lambda: out_of_range(i, x))


# ------------------------------------------------------------------ C09
def _fe_check(acc, stream):
    from pads.frequencyestimator import FrequencyEstimator
    F = FrequencyEstimator(acc)
    true = {}
    cap = int(1. / acc)
    n = 0
    for x in stream:
        F += x
        true[x] = true.get(x, 0) + 1
        n += 1
        keys = list(F)
        expect(len(keys) <= cap, "keeps %d keys, more than 1/accuracy" %
               len(keys))
        for y in set(true) | {"never seen"}:
            t = true.get(y, 0) / n
            e = F[y]
            expect(e <= t + 1e-12, "estimate %r of %r exceeds its frequency"
                   " %r" % (e, y, t))
            expect(e >= t - acc - 1e-12, "estimate %r of %r is more than"
                   " %r below its frequency %r" % (e, y, acc, t))
            # sharper bound of the contract: error <= n/(k+1) occurrences
            expect(round(t * n - e * n) * (cap + 1) <= n,
                   "count of %r is short by more than n/(k+1)" % (y,))
        for y in keys:
            expect(y in true and F[y] > 0, "listed key", y,
                   "has no estimate")


@driver("C09", ["frequencyestimator.FrequencyEstimator"],
        "all streams of <=7 items over 3 keys for k=1,2 (8 thorough), seeded"
        " streams of up to 120 items over up to 12 keys for k=1..12")
def fe_streams(ctx):
    for acc in (1.0, 0.5):
        for n in range(1, 9 if ctx.thorough else 8):
            for s in itertools.product("abc", repeat=n):
                ctx.run("stream", (acc, s), lambda: _fe_check(acc, s))
    rng = ctx.rng
    pal = ["a", 0, None, (), 1, "b", frozenset(), 2.5, "c", 3, -1, "zz"]
    k = 0
    while ctx.more() and k < ctx.times(1200, 10000):
        k += 1
        acc = 1. / rng.randrange(1, 13)
        m = rng.randrange(1, 13)
        w = [rng.random() ** 3 for _ in range(m)]
        s = rng.choices(pal[:m], w, k=rng.randrange(1, 120))
        ctx.run("stream", (acc, s), lambda: _fe_check(acc, s))
