"""Types of the verified subset and their SMT sorts."""
import re
import z3


class Unsupported(Exception):
    """The construct is outside of the verified subset."""


class NoName(Unsupported):
    """A specification mentions a variable the code does not have."""


class T:
    __slots__ = ("kind", "args", "name", "_h")

    def __init__(self, kind, args=(), name=None):
        self.kind, self.args, self.name = kind, tuple(args), name
        self._h = hash((kind, self.args, name))

    def __eq__(self, o):
        return isinstance(o, T) and self.kind == o.kind and \
            self.args == o.args and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.kind in ("cls", "data", "var", "sort"):
            return "%s:%s" % (self.kind, self.name)
        if self.args:
            return "%s[%s]" % (self.kind, ",".join(map(repr, self.args)))
        return self.kind


INT, BOOL, OBJ, NONE, REAL = (T("int"), T("bool"), T("Obj"), T("none"),
                              T("real"))
MUTABLE = ("list", "set", "dict", "iter", "cls")

_bind = {}
_nvar = [0]


def reset_types():
    _bind.clear()
    _nvar[0] = 0


def tvar():
    _nvar[0] += 1
    return T("var", (), _nvar[0])


def res(t):
    """Resolve bound type variables."""
    while t.kind == "var" and t.name in _bind:
        t = _bind[t.name]
    if t.args:
        a = tuple(res(x) for x in t.args)
        if a != t.args:
            return T(t.kind, a, t.name)
    return t


def holds(t):
    """Values of this type are or contain mutable containers."""
    t = res(t)
    return t.kind in MUTABLE or \
        t.kind in ("tuple", "opt") and any(holds(a) for a in t.args)


def linked(t):
    """Nested tuples ending in None."""
    return t.kind == "data" and DATA[t.name].get("tuple", False)


def open_type(t):
    t = res(t)
    return t.kind == "var" or any(open_type(x) for x in t.args)


def unify(a, b):
    """Make a and b equal if possible; returns success."""
    a, b = res(a), res(b)
    if a == b:
        return True
    if a.kind == "var":
        _bind[a.name] = b
        return True
    if b.kind == "var":
        _bind[b.name] = a
        return True
    if a.kind == b.kind and a.name == b.name and len(a.args) == len(b.args):
        return all([unify(x, y) for x, y in zip(a.args, b.args)])
    return False


# ------------------------------------------------------------- parsing
DATA = {}            # algebraic types declared by contracts
# function values as opaque values, with the function applying them
SORTS = {"Cmp": "cmpf", "KeyFn": "keyf", "Mat": "matf"}
MODELS = {}          # class name -> model type


def parse_type(s):
    s = s.strip()
    toks = re.findall(r"[A-Za-z_][\w]*|\[|\]|,|->", s)
    pos = [0]

    def p():
        n = toks[pos[0]]
        pos[0] += 1
        args = []
        if pos[0] < len(toks) and toks[pos[0]] == "[":
            pos[0] += 1
            while toks[pos[0]] != "]":
                if toks[pos[0]] in (",", "->"):
                    pos[0] += 1
                    continue
                args.append(p())
            pos[0] += 1
        if n in ("int", "bool", "Obj", "none", "real"):
            return T(n)
        if n in ("list", "set", "dict", "tuple", "opt", "iter", "map",
                 "fun"):
            if n == "dict" and len(args) != 2:
                raise ValueError("dict type " + s)
            return T(n, args)
        if n in DATA:
            return T("data", (), n)
        if n in SORTS:
            return T("sort", (), n)
        if n in MODELS:
            return T("cls", (), n)
        raise ValueError("unknown type %r in %r" % (n, s))
    t = p()
    if pos[0] != len(toks):
        raise ValueError("bad type " + s)
    return t


def parse_binders(s):
    """'x:int, y:list[Obj]' -> [(name, type)]"""
    out = []
    depth = 0
    cur = ""
    for ch in s + ",":
        if ch == "[":
            depth += 1
        elif ch == "]":
            depth -= 1
        if ch == "," and depth == 0:
            if cur.strip():
                n, t = cur.split(":", 1)
                out.append((n.strip(), parse_type(t)))
            cur = ""
        else:
            cur += ch
    return out


# --------------------------------------------------------------- sorts
_sorts = {}
ObjS = z3.DeclareSort("Obj")
_sortnames = {}


def sname(t):
    t = res(t)
    if t.kind in ("cls", "data", "sort"):
        return t.name
    if t.args:
        return t.kind + "_" + "_".join(sname(a) for a in t.args) + "_e"
    return t.kind


def sort(t):
    t = res(t)
    if t in _sorts:
        return _sorts[t]
    k = t.kind
    if k == "int":
        s = z3.IntSort()
    elif k == "bool":
        s = z3.BoolSort()
    elif k == "real":
        s = z3.RealSort()
    elif k == "Obj":
        s = ObjS
    elif k == "sort":
        s = z3.DeclareSort(t.name)
    elif k == "data":
        s = DATA[t.name]["sort"]
    elif k == "cls":
        s = sort(MODELS[t.name])
    elif k == "set":
        s = z3.ArraySort(sort(t.args[0]), z3.BoolSort())
    elif k == "map":
        s = sort(t.args[-1])
        for a in reversed(t.args[:-1]):
            s = z3.ArraySort(sort(a), s)
    elif k == "list":
        d = z3.Datatype(sname(t))
        d.declare("mk_" + sname(t), ("len_" + sname(t), z3.IntSort()),
                  ("arr_" + sname(t),
                   z3.ArraySort(z3.IntSort(), sort(t.args[0]))))
        s = d.create()
    elif k == "dict":
        d = z3.Datatype(sname(t))
        kk, v = sort(t.args[0]), sort(t.args[1])
        d.declare("mk_" + sname(t), ("dom_" + sname(t),
                                     z3.ArraySort(kk, z3.BoolSort())),
                  ("val_" + sname(t), z3.ArraySort(kk, v)))
        s = d.create()
    elif k == "tuple":
        d = z3.Datatype(sname(t))
        d.declare("mk_" + sname(t), *[("f%d_%s" % (i, sname(t)), sort(a))
                                      for i, a in enumerate(t.args)])
        s = d.create()
    elif k == "opt":
        d = z3.Datatype(sname(t))
        d.declare("none_" + sname(t))
        d.declare("some_" + sname(t), ("the_" + sname(t), sort(t.args[0])))
        s = d.create()
    elif k == "iter":
        d = z3.Datatype(sname(t))
        d.declare("mk_" + sname(t), ("seq_" + sname(t),
                                     sort(T("list", t.args))),
                  ("pos_" + sname(t), z3.IntSort()))
        s = d.create()
    elif k == "none":
        d = z3.Datatype("NoneT")
        d.declare("none_")
        s = d.create()
    else:
        raise Unsupported("no sort for type %r" % (t,))
    _sorts[t] = s
    return s


def acc(s, i, j=0):
    return s.accessor(j, i)


def _field(z, i):
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return z.arg(i)
    return acc(z.sort(), i)(z)


# list operations
def l_len(z):
    return _field(z, 0)


def l_arr(z):
    return _field(z, 1)


def l_get(z, i):
    return z3.Select(l_arr(z), i)


def l_mk(s, n, a):
    return s.constructor(0)(n, a)


def d_dom(z):
    return _field(z, 0)


def d_val(z):
    return _field(z, 1)


def d_mk(s, d, v):
    return s.constructor(0)(d, v)


def default(srt):
    """Some fixed but unspecified value of a sort."""
    return z3.Const("default_" + re.sub(r"\W", "_", srt.sexpr()), srt)


def empty(t):
    t = res(t)
    s = sort(t)
    if t.kind == "list":
        return l_mk(s, z3.IntVal(0),
                    default(z3.ArraySort(z3.IntSort(), sort(t.args[0]))))
    if t.kind == "set":
        return z3.K(sort(t.args[0]), z3.BoolVal(False))
    if t.kind == "dict":
        return d_mk(s, z3.K(sort(t.args[0]), z3.BoolVal(False)),
                    default(z3.ArraySort(sort(t.args[0]), sort(t.args[1]))))
    raise Unsupported("empty %r" % (t,))
