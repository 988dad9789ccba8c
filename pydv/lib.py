"""Axiomatised operations on the model sorts, and the contract registry."""
import z3
from .ty import (T, INT, BOOL, OBJ, NONE, parse_type, parse_binders, sort,
                 sname, l_len, l_arr, l_get, l_mk, d_dom, d_val, d_mk, res,
                 Unsupported, ObjS, DATA, MODELS, SORTS, empty)
from .solve import AXIOMS

_F = {}


def fn_decl(name, sorts, ret):
    if name not in _F:
        _F[name] = z3.Function(name, *(list(sorts) + [ret]))
    return _F[name]


def axioms(name, *fs):
    AXIOMS.setdefault(name, []).extend(fs)


def FA(vs, body, pats=None):
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)


_I, _J = z3.Ints("i_ j_")


# ---- sets
def card(s):
    srt = s.sort()
    n = "card_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [srt], z3.IntSort())
    if new:
        S, x = z3.Const("S_", srt), z3.Const("x_", srt.domain())
        e = z3.K(srt.domain(), z3.BoolVal(False))
        w = fn_decl("wit_" + san(srt), [srt], srt.domain())
        axioms(n,
               f(e) == 0,
               FA([S], z3.And(f(S) >= 0,
                              z3.Implies(f(S) > 0, z3.Select(S, w(S)))),
                  [f(S)]),
               FA([S, x], z3.Implies(z3.Select(S, x), f(S) > 0),
                  [z3.MultiPattern(f(S), z3.Select(S, x))]),
               FA([S, x], f(z3.Store(S, x, True)) ==
                  f(S) + z3.If(z3.Select(S, x), 0, 1),
                  [f(z3.Store(S, x, True))]),
               FA([S, x], f(z3.Store(S, x, False)) ==
                  f(S) - z3.If(z3.Select(S, x), 1, 0),
                  [f(z3.Store(S, x, False))]))
    return f(s)


def san(srt):
    return "".join(c if c.isalnum() else "_" for c in srt.sexpr())


def setop(op, a, b):
    srt = a.sort()
    n = "set%s_%s" % (op, san(srt))
    new = n not in _F
    f = fn_decl(n, [srt, srt], srt)
    if new:
        A, B, x = (z3.Const("A_", srt), z3.Const("B_", srt),
                   z3.Const("x_", srt.domain()))
        ax, bx = z3.Select(A, x), z3.Select(B, x)
        r = {"or": z3.Or(ax, bx), "and": z3.And(ax, bx),
             "sub": z3.And(ax, z3.Not(bx)), "xor": z3.Xor(ax, bx)}[op]
        axioms(n, FA([A, B, x], z3.Select(f(A, B), x) == r,
                     [z3.Select(f(A, B), x)]))
        if op == "or":
            axioms(n, FA([A, B, x], z3.Implies(ax, z3.Select(f(A, B), x)),
                         [z3.MultiPattern(f(A, B), ax)]),
                   FA([A, B, x], z3.Implies(bx, z3.Select(f(A, B), x)),
                      [z3.MultiPattern(f(A, B), bx)]))
    return f(a, b)


def asgraph(d, dt, gt):
    """The sets of members of the lists in a dictionary."""
    ls, ss = d.sort(), sort(gt)
    n = "asgraph_" + san(ls)
    new = n not in _F
    f = fn_decl(n, [ls], ss)
    if new:
        D = z3.Const("D_", ls)
        k = z3.Const("k_", d_dom(D).sort().domain())
        lst = z3.Select(d_val(D), k)
        x = z3.Const("x_", l_get(lst, _I).sort())
        st = z3.Select(d_val(f(D)), k)
        w = fn_decl("ix_" + n, [ls, k.sort(), x.sort()], z3.IntSort())
        i = w(D, k, x)
        axioms(n, FA([D], d_dom(f(D)) == d_dom(D), [f(D)]),
               FA([D, k, _I], z3.Implies(
                   z3.And(0 <= _I, _I < l_len(lst)),
                   z3.Select(st, l_get(lst, _I))),
                  [z3.MultiPattern(f(D), l_get(lst, _I))]),
               FA([D, k, x], z3.Implies(
                   z3.Select(st, x),
                   z3.And(0 <= i, i < l_len(lst), l_get(lst, i) == x)),
                  [z3.Select(st, x)]))
    return f(d)


# ---- lists
def slice_(l, i, j):
    srt = l.sort()
    n = "slice_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [srt, z3.IntSort(), z3.IntSort()], srt)
    if new:
        L = z3.Const("L_", srt)
        a, b, k = z3.Ints("a_ b_ k_")
        app = f(L, a, b)
        axioms(n, FA([L, a, b], l_len(app) == z3.If(b > a, b - a, 0),
                     [app]),
               FA([L, a, b, k], z3.Implies(
                   z3.And(0 <= k, k < b - a), l_get(app, k) == l_get(L, a + k)),
                  [l_get(app, k)]))
    return f(l, i, j)


def concat(l, m):
    srt = l.sort()
    n = "concat_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [srt, srt], srt)
    if new:
        L, M = z3.Const("L_", srt), z3.Const("M_", srt)
        k = z3.Int("k_")
        app = f(L, M)
        axioms(n, FA([L, M], l_len(app) == l_len(L) + l_len(M), [app]),
               FA([L, M, k], l_get(app, k) == z3.If(
                   k < l_len(L), l_get(L, k), l_get(M, k - l_len(L))),
                  [l_get(app, k)]),
               FA([L, M, k], z3.Implies(z3.And(0 <= k, k < l_len(L)),
                                        l_get(app, k) == l_get(L, k)),
                  [z3.MultiPattern(app, l_get(L, k))]),
               FA([L, M, k], z3.Implies(
                   z3.And(0 <= k, k < l_len(M)),
                   l_get(app, k + l_len(L)) == l_get(M, k)),
                  [z3.MultiPattern(app, l_get(M, k))]))
    return f(l, m)


def rev(l):
    srt = l.sort()
    n = "rev_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [srt], srt)
    if new:
        L = z3.Const("L_", srt)
        k = z3.Int("k_")
        app = f(L)
        axioms(n, FA([L], l_len(app) == l_len(L), [app]),
               FA([L, k], z3.Implies(z3.And(0 <= k, k < l_len(L)),
                                     l_get(app, k) ==
                                     l_get(L, l_len(L) - 1 - k)),
                  [l_get(app, k)]))
    return f(l)


def linsert(l, i, x):
    srt = l.sort()
    n = "insert_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [srt, z3.IntSort(), x.sort()], srt)
    if new:
        L, X = z3.Const("L_", srt), z3.Const("X_", x.sort())
        a, k = z3.Ints("a_ k_")
        app = f(L, a, X)
        axioms(n, FA([L, a, X], l_len(app) == l_len(L) + 1, [app]),
               FA([L, a, X, k], z3.Implies(
                   z3.And(0 <= k, k <= l_len(L)),
                   l_get(app, k) == z3.If(
                       k < a, l_get(L, k),
                       z3.If(k == a, X, l_get(L, k - 1)))),
                  [l_get(app, k)]))
    return f(l, i, x)


def ldelete(l, i):
    srt = l.sort()
    n = "delete_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [srt, z3.IntSort()], srt)
    if new:
        L = z3.Const("L_", srt)
        a, k = z3.Ints("a_ k_")
        app = f(L, a)
        axioms(n, FA([L, a], l_len(app) == l_len(L) - 1, [app]),
               FA([L, a, k], z3.Implies(
                   z3.And(0 <= k, k < l_len(L) - 1),
                   l_get(app, k) == z3.If(k < a, l_get(L, k),
                                          l_get(L, k + 1))),
                  [l_get(app, k)]))
    return f(l, i)


def repeat(srt, x, n_):
    n = "repeat_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [x.sort(), z3.IntSort()], srt)
    if new:
        X = z3.Const("X_", x.sort())
        a, k = z3.Ints("a_ k_")
        app = f(X, a)
        axioms(n, FA([X, a], l_len(app) == z3.If(a > 0, a, 0), [app]),
               FA([X, a, k], z3.Implies(z3.And(0 <= k, k < a),
                                        l_get(app, k) == X),
                  [l_get(app, k)]))
    return f(x, n_)


def lrepeat(l, n_):
    """l * n for a list l."""
    srt = l.sort()
    n = "lrepeat_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [srt, z3.IntSort()], srt)
    if new:
        L = z3.Const("L_", srt)
        a, k = z3.Ints("a_ k_")
        app = f(L, a)
        axioms(n, FA([L, a], l_len(app) ==
                     z3.If(a > 0, a * l_len(L), 0), [app]),
               FA([L, a, k], z3.Implies(
                   z3.And(0 <= k, k < l_len(app)),
                   l_get(app, k) == l_get(L, k % l_len(L))),
                  [l_get(app, k)]))
    return f(l, n_)


def list_eq(a, b):
    i = z3.Int("q_eq")
    body = z3.Implies(z3.And(0 <= i, i < l_len(a)),
                      l_get(a, i) == l_get(b, i))
    pats = [p for p in (l_get(a, i), l_get(b, i)) if is_pattern(i, p)]
    return z3.And(l_len(a) == l_len(b), z3.ForAll([i], body, patterns=pats))


def is_pattern(i, p):
    """Terms with connectives are not allowed as patterns."""
    try:
        z3.ForAll([i], p == p, patterns=[p])
        return True
    except z3.Z3Exception:
        return False


def list_sum(l):
    srt = l.sort()
    n = "sumto_" + san(srt)
    new = n not in _F
    f = fn_decl(n, [srt, z3.IntSort()], z3.IntSort())
    if new:
        L = z3.Const("L_", srt)
        k = z3.Int("k_")
        g = l_get(L, k - 1)
        axioms(n, FA([L], f(L, 0) == 0, [f(L, 0)]),
               FA([L, k], z3.Implies(k > 0, f(L, k) == f(L, k - 1) + g),
                  [f(L, k)]))
    return f


# ---- objects
def box_int(z):
    n = "box_int"
    new = n not in _F
    f = fn_decl(n, [z3.IntSort()], ObjS)
    if new:
        u = fn_decl("unbox_int", [ObjS], z3.IntSort())
        kd = fn_decl("obj_kind", [ObjS], z3.IntSort())
        i = z3.Int("i_")
        axioms(n, FA([i], z3.And(u(f(i)) == i, kd(f(i)) == 1), [f(i)]))
    return f(z)


def fset():
    """Frozen sets as objects: kind, members, the object of a set.

    members(box(S)) == S is stated for the sets a program builds only: for
    all S it would contradict Cantor's theorem."""
    ss = z3.ArraySort(ObjS, z3.BoolSort())
    new = "fset_members" not in _F
    mem = fn_decl("fset_members", [ObjS], ss)
    box = fn_decl("fset_of", [ss], ObjS)
    kd = fn_decl("obj_kind", [ObjS], z3.IntSort())
    if new:
        o = z3.Const("o_", ObjS)
        axioms("fset_members", FA([o], z3.Implies(
            kd(o) == 5, box(mem(o)) == o), [mem(o)]))
    return kd, mem, box


NoneObj = z3.Const("None_Obj", ObjS)
_kd = fn_decl("obj_kind", [ObjS], z3.IntSort())
axioms("None_Obj", _kd(NoneObj) == 0)


_strs = {}


def str_obj(s):
    if s not in _strs:
        n = "str_%d_%s" % (len(_strs), "".join(
            c if c.isalnum() else "_" for c in s[:16]))
        c = z3.Const(n, ObjS)
        sid = fn_decl("str_id", [ObjS], z3.IntSort())
        axioms(n, z3.And(sid(c) == len(_strs), _kd(c) == 2))
        _strs[s] = c
    return _strs[s]


def lt_obj(a, b):
    n = "lt_Obj"
    new = n not in _F
    f = fn_decl(n, [ObjS, ObjS], z3.BoolSort())
    if new:
        x, y, z = (z3.Const(c, ObjS) for c in "x_ y_ z_".split())
        axioms(n, FA([x], z3.Not(f(x, x)), [f(x, x)]),
               FA([x, y], z3.Or(f(x, y), x == y, f(y, x)), [f(x, y)]),
               FA([x, y], z3.Not(z3.And(f(x, y), f(y, x))), [f(x, y)]),
               FA([x, y, z], z3.Implies(z3.And(f(x, y), f(y, z)), f(x, z)),
                  [z3.MultiPattern(f(x, y), f(y, z))]))
    return f(a, b)


def pow2(k):
    n = "pow2"
    new = n not in _F
    f = fn_decl(n, [z3.IntSort()], z3.IntSort())
    if new:
        i, j = z3.Ints("i_ j_")
        axioms(n, f(0) == 1,
               FA([i], z3.Implies(i >= 0, z3.And(
                   f(i) >= 1, f(i) > i)), [f(i)]),
               FA([i, j], z3.Implies(z3.And(0 <= i, i < j), z3.And(
                   2 * f(i) <= f(j),
                   z3.Implies(j == i + 1, f(j) == 2 * f(i)))),
                  [z3.MultiPattern(f(i), f(j))]))
    return f(k)


# ------------------------------------------------------------ registry
class Loop:
    def __init__(self, inv=(), start="", end="", exit="", before="",
                 decreases=None, after_havoc="", brk="", selfinv=False):
        self.inv = norm(inv)
        self.selfinv = selfinv
        self.start, self.end, self.exit = start, end, exit
        self.before, self.decreases = before, decreases
        self.after_havoc = after_havoc
        self.brk = brk


def norm(xs):
    if isinstance(xs, str):
        xs = [xs]
    out = []
    for i, x in enumerate(xs):
        if isinstance(x, tuple):
            out.append(x)
        else:
            out.append((x if len(x) <= 60 else x[:57] + "...", x))
    return out


class Contract:
    def __init__(self, key, params="", returns=None, requires=(), ensures=(),
                 raises=None, modifies=(), loops=None, locals=None,
                 ghost=None, entry="", exit="", yields=None, each=(),
                 decreases=None, uses=(), captures="", lemma=False,
                 body=None, alias=None, trusted=False, props=(),
                 pattern=None, hints=(), variant=None, outs=None,
                 unroll=None, each_start="", timeout=None, model_self=True,
                 noinv=False, split=True, pure=False, torn=False,
                 interfere=False, each_own=(), ensures_own=(), inline=(),
                 after=None, marks=False, views=False, stream=None):
        self.key, self.props = key, list(props)
        self.params = parse_binders(params)
        self.returns = parse_type(returns) if returns else None
        self.requires, self.ensures = norm(requires), norm(ensures)
        self.raises = raises or {}
        self.modifies = list(modifies)
        self.loops = loops or {}
        self.locals = {k: parse_type(v) for k, v in (locals or {}).items()}
        self.ghost = {k: parse_type(v) for k, v in (ghost or {}).items()}
        self.outs = {k: parse_type(v) for k, v in (outs or {}).items()}
        self.entry, self.exit = entry, exit
        self.yields = parse_type(yields) if yields else None
        self.each = norm(each)
        self.each_start = each_start
        self.decreases = decreases
        self.uses = list(uses)
        self.captures = parse_binders(captures)
        self.lemma, self.body = lemma, body
        self.alias = alias
        self.trusted = trusted
        self.pattern = pattern
        self.variant = variant
        self.timeout = timeout
        self.noinv = noinv
        self.torn = torn
        self.interfere = interfere
        self.each_own = norm(each_own)
        self.stream = stream
        self.ensures_own = norm(ensures_own)
        self.pure = pure
        self.inline = list(inline)
        # may the identity of lists be stored?
        self.marks = marks
        # may graphs of neighbour lists be passed as graphs of sets?
        self.views = views
        # ghost statements after the calls of a function (by its last name),
        # in terms of its parameters and result
        self.after = after or {}

    @property
    def name(self):
        return self.key + (("#" + self.variant) if self.variant else "")


class Klass:
    def __init__(self, key, model, fields="", ghost="", abs=None, inv=(),
                 props=(), lazy=None, boxed=None, attrs=None, temps=""):
        self.key, self.model = key, parse_type(model)
        self.fields = parse_binders(fields)
        self.gfields = parse_binders(ghost)
        # fields which exist only while the constructor runs
        self.temps = parse_binders(temps)
        self.abs, self.inv = abs, norm(inv)
        # fields which exist only once the given condition holds
        self.lazy = lazy or {}
        # instances may be used as opaque objects; boxed is the class
        # invariant in terms of the model m, attrs give the attributes
        self.boxed = boxed
        self.attrs = attrs or {}


class SpecFun:
    def __init__(self, name, params, ret, body=None, auto=False,
                 pattern=None):
        self.name, self.params = name, parse_binders(params)
        self.ret = parse_type(ret)
        self.body, self.auto = body, auto
        self.pattern = pattern
        self.decl = fn_decl(name, [sort(t) for _, t in self.params],
                            sort(self.ret))


class Registry:
    def __init__(self):
        self.contracts = {}     # key -> [variants]
        self.klasses = {}       # "pads.mod.Class" -> Klass
        self.byclass = {}       # short class name -> Klass
        self.funs = {}
        self.lemmas = {}
        self.macros = {}
        self.assumptions = []
        self.extern = {}
        self.local_assumptions = {}

    def fn(self, key, **kw):
        c = Contract(key, **kw)
        self.contracts.setdefault(key, []).append(c)
        return c

    def klass(self, name, key, model, **kw):
        MODELS[name] = parse_type(model)
        k = Klass(key, model, **kw)
        k.name = name
        self.klasses[key] = k
        self.byclass[name] = k

    def data(self, name, **cons):
        """An algebraic type: constructor="field:type, ..."."""
        d = z3.Datatype(name)
        cs = [(c, parse_binders(fs)) for c, fs in cons.items()]
        for c, fs in cs:
            d.declare("%s_%s" % (name, c), *[
                ("%s_%s" % (name, f), sort(t)) for f, t in fs])
        DATA[name] = {"sort": d.create(), "cons": cs}

    def linked(self, name, fields):
        """Nested tuples ending in None, as an algebraic type."""
        DATA[name] = {"cons": [("none", []), ("pair", ())], "tuple": True}
        fs = parse_binders(fields)
        d = z3.Datatype(name)
        d.declare(name + "_none")
        d.declare(name + "_pair", *[
            ("%s_%s" % (name, f), d if t == T("data", (), name) else sort(t))
            for f, t in fs])
        DATA[name]["cons"] = [("none", []), ("pair", fs)]
        DATA[name]["sort"] = d.create()

    def fun(self, name, params, ret, body=None, auto=False, pattern=None):
        self.once(self.funs, name)
        self.funs[name] = SpecFun(name, params, ret, body, auto, pattern)

    def once(self, where, name):
        if name in where:
            raise ValueError("%s is defined twice" % name)

    def macro(self, name, params, body):
        self.once(self.macros, name)
        self.macros[name] = (parse_binders_untyped(params), body)

    def lemma(self, name, params, requires=(), ensures=(), body="",
              **kw):
        c = Contract(name, params=params, requires=requires,
                     ensures=ensures, body=body, lemma=True, **kw)
        self.once(self.lemmas, name)
        self.lemmas[name] = c
        return c

    def assume(self, key, text):
        """An assumption of the contract with this key."""
        self.local_assumptions.setdefault(key, []).append(text)

    def assumptions_for(self, names):
        out = list(self.assumptions)
        for n in names:
            out += self.local_assumptions.get(n.split("#")[0], [])
        return out

    def axiom(self, funname, expr, why):
        """An unproved axiom about a spec function (listed as assumption)."""
        self.extern.setdefault(funname, []).append(expr)
        self.assumptions.append("axiom on %s: %s (%s)" % (funname, expr,
                                                          why))


def parse_binders_untyped(s):
    return [x.strip().split(":")[0] for x in s.split(",") if x.strip()]


REG = Registry()
