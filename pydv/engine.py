"""Symbolic execution of the real source into proof obligations.

Every function under contract is executed path by path over its current
abstract syntax tree.  Loops are cut by their invariants, calls of functions
under contract are replaced by their contracts, other calls of functions of
the package are executed in place.
"""
import ast
import z3

from . import lib
from .lib import (REG, FA, card, setop, slice_, concat, rev, linsert,
                  ldelete, repeat, lrepeat, list_eq, box_int, NoneObj,
                  str_obj, lt_obj, pow2)
from .ty import (T, INT, BOOL, OBJ, NONE, REAL, MUTABLE, holds, tvar, res,
                 open_type, unify, parse_type, parse_binders, sort, sname,
                 l_len, l_arr, l_get, l_mk, d_dom, d_val, d_mk, empty,
                 Unsupported, reset_types, _field, MODELS, DATA, linked)

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def I(n):
    return z3.IntVal(n)


# --------------------------------------------------------------- values
_GROUND = {}


def _ground(f):
    """No quantifiers or lambdas inside."""
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return False
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            todo += x.children()
    return True


class Val:
    __slots__ = ("ty", "z")

    def __init__(self, ty, z):
        self.ty, self.z = ty, z

    def __repr__(self):
        return "Val(%r,%s)" % (self.ty, self.z)


class Ref:
    """A mutable container: a heap cell and a path into it."""
    __slots__ = ("cid", "path", "ver")

    def __init__(self, cid, path=(), ver=0):
        self.cid, self.path, self.ver = cid, path, ver


class ObjV:
    """An instance of a class of the package."""
    __slots__ = ("oid", "cls")

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls


class PyTuple:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class Closure:
    def __init__(self, node, frame, mod, key, self_=None):
        self.node, self.frame, self.mod, self.key = node, frame, mod, key
        self.self_ = self_


class ClassV:
    def __init__(self, node, mod, key):
        self.node, self.mod, self.key = node, mod, key


class Builtin:
    def __init__(self, name):
        self.name = name


class Bound:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ModuleV:
    def __init__(self, name):
        self.name = name


class SeqV:
    """Anything iterable in a known order: length and element function."""

    def __init__(self, n, get, elt, src=None, kind="seq", listz=None):
        self.n, self.get, self.elt = n, get, elt
        self.src, self.kind, self.listz = src, kind, listz


class CoroV:
    """A running generator whose consumer may change the receiver."""

    def __init__(self, con, recv):
        self.con, self.recv = con, recv


class StreamV:
    """An endless generator; the cell holds the last item it yielded."""

    def __init__(self, con, ref):
        self.con, self.ref = con, ref


class CmpKey:
    """functools.cmp_to_key of a comparison, or of it and a value."""

    def __init__(self, cmp, val=None):
        self.cmp, self.val = cmp, val


class DomV:
    """Unordered iteration over the elements of a set term."""

    def __init__(self, dom, elt, wrap=None, src=None):
        self.dom, self.elt, self.wrap, self.src = dom, elt, wrap, src


class FunV:
    """A function valued parameter: an uninterpreted total function."""

    def __init__(self, decl, args, ret, exc=None):
        self.decl, self.args, self.ret = decl, args, ret


NoneV = Val(NONE, None)

# ----------------------------------------------------------- exceptions


class PathEnd(Exception):
    pass


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


EXC_PARENTS = {"KeyError": "LookupError", "IndexError": "LookupError",
               "LookupError": "Exception", "ValueError": "Exception",
               "TypeError": "Exception", "StopIteration": "Exception",
               "AssertionError": "Exception", "AttributeError": "Exception",
               "RuntimeError": "Exception", "Exception": "BaseException"}


def exc_matches(exc, handler):
    while exc:
        if exc == handler:
            return True
        exc = EXC_PARENTS.get(exc, "Exception" if exc != "Exception" and
                              exc != "BaseException" else
                              ("BaseException" if exc == "Exception"
                               else None))
    return False


class St:
    def __init__(self):
        self.vars, self.heap, self.objs = {}, {}, {}
        self.fwd, self.ver = {}, {}
        self.shared, self.frozen = set(), set()

    def copy(self):
        s = St()
        s.vars = {k: dict(v) for k, v in self.vars.items()}
        s.heap = dict(self.heap)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.fwd, s.ver = dict(self.fwd), dict(self.ver)
        s.shared, s.frozen = set(self.shared), set(self.frozen)
        return s


class Frame:
    def __init__(self, fid, parent, mod, key, caller=None):
        self.fid, self.parent, self.mod, self.key = fid, parent, mod, key
        self.caller = caller
        self.locals_decl = {}
        self.chain = ()


# ------------------------------------------------------------- sources
class Source:
    """The current source of the package."""

    def __init__(self, root):
        self.root = root
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            import os
            path = os.path.join(self.root, *name.split(".")) + ".py"
            with open(path) as f:
                tree = ast.parse(f.read(), path)
            env = {}
            for st in tree.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    env[st.name] = st
                elif isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        env[a.asname or a.name] = ("from", st.module,
                                                   st.level, a.name)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        env[a.asname or a.name] = ("import", a.name)
                elif isinstance(st, ast.Assign) and \
                        len(st.targets) == 1 and \
                        isinstance(st.targets[0], ast.Name):
                    env[st.targets[0].id] = ("expr", st.value)
                elif isinstance(st, ast.Try):
                    for s2 in st.body:
                        if isinstance(s2, ast.ImportFrom):
                            for a in s2.names:
                                env[a.asname or a.name] = (
                                    "from", s2.module, s2.level, a.name)
            self.mods[name] = (tree, env)
        return self.mods[name]

    def find(self, key):
        """Locate the definition with a dotted key; returns (mod, nodes)."""
        parts = key.split(".")
        mod = ".".join(parts[:2])
        tree, env = self.module(mod)
        nodes = []
        body = tree.body
        for p in parts[2:]:
            hit = None
            for st in walk_defs(body):
                if st.name == p:
                    hit = st
            if hit is None and nodes and isinstance(nodes[-1], ast.ClassDef):
                # method given by an assignment in the class body
                for st in body:
                    if isinstance(st, ast.Assign) and \
                            isinstance(st.targets[0], ast.Name) and \
                            st.targets[0].id == p and \
                            isinstance(st.value, ast.Name):
                        for s2 in walk_defs(body):
                            if s2.name == st.value.id:
                                hit = s2
            if hit is None:
                raise KeyError(key)
            nodes.append(hit)
            body = hit.body
        return mod, nodes


def walk_defs(body):
    for st in body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            yield st
        elif isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            for f in ("body", "orelse", "finalbody"):
                for x in walk_defs(getattr(st, f, []) or []):
                    yield x


def params_of(node):
    a = node.args
    return [x.arg for x in a.args]


def is_generator(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


BUILTINS = {"len", "range", "list", "dict", "set", "tuple", "min", "max",
            "sum", "sorted", "reversed", "enumerate", "zip", "iter", "next",
            "any", "all", "abs", "bool", "int", "isinstance", "map",
            "frozenset", "object", "print", "hash", "type", "str", "repr",
            "id", "divmod", "filter", "pow", "ord", "chr", "NotImplemented"}

_parse_cache = {}


def pexpr(s):
    if s not in _parse_cache:
        _parse_cache[s] = ast.parse(" ".join(s.split()), mode="eval").body
    return _parse_cache[s]


def pstmts(s):
    k = ("stmts", s)
    if k not in _parse_cache:
        import textwrap
        _parse_cache[k] = ast.parse(textwrap.dedent(s).strip("\n")).body
    return _parse_cache[k]


class Obligation:
    __slots__ = ("name", "hyps", "goal", "line", "fn", "kind")

    def __init__(self, name, hyps, goal, line, fn, kind):
        self.name, self.hyps, self.goal = name, hyps, goal
        self.line, self.fn, self.kind = line, fn, kind


class Engine:
    MAXPATHS = 6000

    def __init__(self, source):
        self.src = source
        self.obls = []
        self.used_trusted = set()
        self.used_contracts = set()
        self.notes = set()

    # ------------------------------------------------ path exploration
    def explore(self, run):
        """Run `run` over every decision vector."""
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            if n > self.MAXPATHS:
                raise Unsupported("too many paths")
            self.begin_path(prefix, work)
            try:
                run()
            except PathEnd:
                pass
        return n

    def begin_path(self, prefix, work):
        reset_types()
        self.decisions = list(prefix)
        self.replay_len = len(prefix)
        self.dpos = 0
        self.work = work
        self.counter = 0
        self.names = {}
        self.pc = []
        self.st = St()
        self.dry = 0
        self.pure = 0
        self.generic = []
        self.writes = []
        self.handlers = []
        self.frame = None
        self.frames = {}
        self.ghostf = None
        self.retframes = []
        self.entry_states = []
        self.ncell = 0
        self.depth = 0
        self.line = 0
        self.outs = []
        self.comp_count = 0
        self.origin = {}

    def fresh_name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def fresh(self, base, srt):
        n = self.fresh_name(base)
        if self.generic:
            gs = [g for g, _ in self.generic]
            f = z3.Function(n, *([g.sort() for g in gs] + [srt]))
            return f(*gs)
        return z3.Const(n, srt)

    def fresh_fn(self, base, sorts, ret):
        n = self.fresh_name(base)
        gs = [g for g, _ in self.generic]
        f = z3.Function(n, *([g.sort() for g in gs] + list(sorts) + [ret]))
        return lambda *a: f(*(gs + list(a)))

    def choose(self, cond):
        """Branch on a condition."""
        if self.pure:
            raise Unsupported("branch inside of a pure expression")
        c = z3.simplify(cond)
        if not self.dry:
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            if self.dpos >= len(self.decisions):
                d = self.forced(c)
                if d is not None:
                    # recorded, so that it is not asked again
                    self.decisions.append(d)
        d = self.decide()
        self.pc.append(cond if d else z3.Not(cond))
        return d

    def forced(self, c):
        """The value of a condition implied by the quantifier-free facts."""
        qf = [f for f in self.pc if self.ground(f)]
        s = z3.SimpleSolver()
        s.set("rlimit", 300000)
        s.add(qf)
        for d, g in ((False, c), (True, z3.Not(c))):
            s.push()
            s.add(g)
            if s.check() == z3.unsat:
                return d
            s.pop()
        return None

    def ground(self, f):
        r = _GROUND.get(f.get_id())
        if r is None:
            r = _ground(f)
            _GROUND[f.get_id()] = (r, f)
        else:
            r = r[0]
        return r

    def decide(self):
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            d = True
            self.work.append(self.decisions[:self.dpos] + [False])
            self.decisions.append(True)
        self.dpos += 1
        return d

    def assume(self, f):
        if isinstance(f, list):
            for x in f:
                self.assume(x)
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if z3.is_true(f):
            return
        self.pc.append(f)

    def emit(self, goal, name, kind="assert"):
        """Record an obligation and assume it afterwards."""
        if z3.is_and(goal) and goal.num_args() > 0:
            for c in goal.children():
                self.emit(c, name, kind)
            return
        if self.dry or self.dpos < self.replay_len:
            if not z3.is_true(goal):
                self.pc.append(goal)
            return
        g = goal
        hy = list(self.pc)
        if self.generic:
            pass
        self.obls.append(Obligation(name, hy, g, self.line, self.cur_fn,
                                    kind))
        if not z3.is_true(goal):
            self.pc.append(goal)

    def unreachable(self, why):
        """Construct outside of the subset: must be unreachable."""
        if self.dry:
            raise PathEnd()
        self.notes.add(why)
        self.emit(FALSE, "outside of the verified subset: " + why,
                  "unsupported")
        raise PathEnd()

    # --------------------------------------------------------- frames
    def new_frame(self, parent, mod, key):
        fid = len(self.frames)
        f = Frame(fid, parent, mod, key, self.frame)
        self.frames[fid] = f
        self.st.vars[fid] = {}
        return f

    def lookup(self, name, frame=None):
        f = frame or self.frame
        while f is not None:
            v = self.st.vars.get(f.fid)
            if v is not None and name in v:
                return v[name]
            f = f.parent
        return None

    def setvar(self, name, value, frame=None):
        f = frame or self.frame
        d = f.locals_decl.get(name)
        if d is not None and not isinstance(value, (Closure, ClassV)):
            value = self.conform(value, d)
        self.st.vars[f.fid][name] = value
        for w in self.writes:
            w.add(("var", f.fid, name))

    def conform(self, value, ty):
        """Give a value a declared type."""
        ty = res(ty)
        if isinstance(value, Ref):
            t, _ = self.content(value, True)
            if ty.kind == "opt" and res(t).kind != "opt":
                return self.coerce(self.freeze(value), ty)
            if ty.kind == "list" and res(t).kind in ("set", "dict") and \
                    unify(res(t).args[0], ty.args[0]):
                # a set or dictionary used for iteration only
                l = self.alloc(self.as_list(value))
                self.freeze(value)
                self.st.frozen.add(l.cid)
                return l
            if not unify(t, ty):
                if not self.retype(value, ty):
                    raise Unsupported("type %r declared %r" % (res(t), ty))
            return value
        if isinstance(value, (ObjV, FunV, Closure, SeqV, DomV)):
            return value
        if ty.kind in MUTABLE and isinstance(value, Val):
            return self.alloc(self.coerce(value, ty))
        return self.coerce(value, ty)

    def retype(self, ref, ty):
        """Give the items of a list display a more general type."""
        t, z = self.content(ref, True)
        r = self.follow(ref)
        if r.path or t.kind != "list" or ty.kind != "list" or z is None:
            return False
        n = z3.simplify(l_len(z))
        if z3.is_app(z) and z.decl().name().startswith("repeat_"):
            x = self.coerce(Val(t.args[0], z.arg(0)), ty.args[0])
            self.st.heap[r.cid] = (ty, repeat(sort(ty), x.z, z.arg(1)))
            return True
        if not z3.is_int_value(n):
            return False
        items = [Val(t.args[0], l_get(z, I(i))) for i in range(n.as_long())]
        self.st.heap[r.cid] = (ty, self.coerce(PyTuple(items), ty).z)
        return True

    # ----------------------------------------------------------- heap
    def alloc(self, v):
        """New cell with the content of a container value."""
        self.ncell += 1
        cid = self.ncell
        self.st.heap[cid] = (v.ty, v.z)
        self.st.ver[cid] = 0
        self.origin[cid] = self.depth
        return Ref(cid)

    def follow(self, ref):
        n = 0
        while ref.cid in self.st.fwd:
            f = self.st.fwd[ref.cid]
            ref = Ref(f.cid, f.path + ref.path, f.ver)
            n += 1
            if n > 50:
                raise Unsupported("cyclic aliasing")
        return ref

    def content(self, ref, raw=False):
        """(type, term) of a reference."""
        ref = self.follow(ref)
        ty, z = self.st.heap[ref.cid]
        if ref.path and ref.ver != self.st.ver[ref.cid]:
            raise Unsupported("use of an inner container after its "
                              "holder was rearranged")
        if z is None:
            t = res(ty)
            if open_type(t):
                if raw:
                    return t, None
                raise Unsupported("container of unknown type")
            z = empty(t)
            self.st.heap[ref.cid] = (t, z)
            ty = t
        for kind, key in ref.path:
            t = res(ty)
            if t.kind == "list":
                z, ty = l_get(z, key), t.args[0]
            elif t.kind == "dict":
                z, ty = z3.Select(d_val(z), key), t.args[1]
            elif t.kind == "map":
                z, ty = z3.Select(z, key), t.args[1]
            elif t.kind == "tuple":
                z, ty = _field(z, key), t.args[key]
            else:
                raise Unsupported("path into %r" % (t,))
        return res(ty), z

    def put(self, ref, z):
        ref = self.follow(ref)
        if ref.cid in self.st.frozen:
            raise Unsupported("mutation of a container held by value "
                              "elsewhere")
        if ref.path and ref.cid in self.st.shared:
            raise Unsupported("mutation of an inner container that may be "
                              "shared")
        if ref.path and ref.ver != self.st.ver[ref.cid]:
            raise Unsupported("use of an inner container after its "
                              "holder was rearranged")
        ty, top = self.st.heap[ref.cid]
        ty = res(ty)

        def upd(t, cur, path):
            if not path:
                return z
            t = res(t)
            key = path[0][1]
            if t.kind == "list":
                inner = upd(t.args[0], l_get(cur, key), path[1:])
                return l_mk(sort(t), l_len(cur),
                            z3.Store(l_arr(cur), key, inner))
            if t.kind == "dict":
                inner = upd(t.args[1], z3.Select(d_val(cur), key), path[1:])
                return d_mk(sort(t), d_dom(cur),
                            z3.Store(d_val(cur), key, inner))
            if t.kind == "tuple":
                fs = [_field(cur, i) for i in range(len(t.args))]
                fs[key] = upd(t.args[key], fs[key], path[1:])
                return sort(t).constructor(0)(*fs)
            raise Unsupported("path into %r" % (t,))
        self.st.heap[ref.cid] = (ty, upd(ty, top, ref.path))
        for w in self.writes:
            w.add(("cell", ref.cid))

    def bump(self, ref):
        """The inner containers of ref may have been replaced."""
        ref = self.follow(ref)
        t, _ = self.content(ref, True)
        if any(holds(a) or res(a).kind == "var"
               for a in t.args):
            if ref.path:
                t0 = self.st.heap[ref.cid][0]
            self.st.ver[ref.cid] += 1
            for w in self.writes:
                w.add(("ver", ref.cid))
            return Ref(ref.cid, ref.path, self.st.ver[ref.cid])
        return ref

    def freeze(self, value):
        """A container by value (no further mutation allowed)."""
        if isinstance(value, Ref):
            r = self.follow(value)
            t, z = self.content(r)
            if r.path:
                self.st.shared.add(r.cid)
            else:
                self.st.frozen.add(r.cid)
            return Val(t, z)
        return self.to_val(value)

    def to_val(self, v):
        """Value as a term (containers by current content)."""
        if isinstance(v, Val):
            return v
        if isinstance(v, Ref):
            t, z = self.content(v)
            return Val(t, z)
        if isinstance(v, PyTuple):
            items = [self.to_val(x) for x in v.items]
            ty = T("tuple", [x.ty for x in items])
            return Val(ty, sort(ty).constructor(0)(
                *[self.term(x) for x in items]))
        if isinstance(v, ObjV):
            return self.abstract(v)
        if isinstance(v, SeqV):
            return self.seq_to_list(v)
        if isinstance(v, (Closure, FunV, Builtin, ClassV, Bound)):
            raise Unsupported("function used as a value")
        raise Unsupported("value %s" % type(v).__name__)

    def term(self, v):
        if v.ty.kind == "none":
            return sort(NONE).constructor(0)()
        return v.z

    def token(self, v):
        """The identity of a list, as an opaque object.  It can be stored
        and compared with "is"; its content is not accessible this way."""
        r = self.follow(v)
        if r.path:
            raise Unsupported("identity of inner containers")
        z = z3.Const("list!%d" % r.cid, sort(OBJ))
        self.pc.append(lib.fn_decl("listobj", [sort(OBJ)], z3.BoolSort())(z))
        return z

    def coerce(self, v, ty):
        """Term-level value of the given type."""
        ty = res(ty)
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if ty.kind == "Obj" and t.kind == "list" and \
                    self.contract is not None and self.contract.marks:
                return Val(OBJ, self.token(v))
            if z is None:
                if ty.kind == "Obj":
                    raise Unsupported("container as opaque object")
                if not unify(t, ty):
                    raise Unsupported("type %r is not %r" % (t, ty))
                t, z = self.content(v)
            v = Val(t, z)
        if isinstance(v, PyTuple):
            if ty.kind == "tuple" and len(ty.args) == len(v.items):
                items = [self.coerce(x, a) for x, a in zip(v.items, ty.args)]
                t2 = T("tuple", [x.ty for x in items])
                return Val(t2, sort(t2).constructor(0)(
                    *[self.term(x) for x in items]))
            if ty.kind == "opt":
                return self.coerce(self.coerce(v, ty.args[0]), ty)
            if linked(ty):
                fs = DATA[ty.name]["cons"][1][1]
                if len(fs) != len(v.items):
                    raise Unsupported("tuple of another length")
                return Val(ty, sort(ty).constructor(1)(
                    *[self.term(self.coerce(x, a))
                      for x, (_, a) in zip(v.items, fs)]))
            if ty.kind == "list":
                z = empty(ty)
                for k, x in enumerate(v.items):
                    e = self.coerce(x, ty.args[0])
                    z = l_mk(sort(ty), I(k + 1),
                             z3.Store(l_arr(z), I(k), self.term(e)))
                return Val(ty, z)
            v = self.to_val(v)
        elif not isinstance(v, Val):
            v = self.to_val(v)
        t = res(v.ty)
        if t == ty:
            return v
        if t.kind == "cls" and ty.kind == "Obj" and \
                REG.byclass[t.name].boxed:
            k = REG.byclass[t.name]
            self.emit(self.spf(k.boxed, {"m": Val(k.model, v.z)}),
                      "class invariant of %s" % k.name, "invariant")
            return Val(OBJ, self.boxfns(k)[0](v.z))
        if ty.kind == "cls" and t.kind == "Obj" and \
                REG.byclass[ty.name].boxed:
            raise Unsupported("object where %r is expected" % (ty,))
        if linked(ty):
            if t.kind == "none":
                return Val(ty, sort(ty).constructor(0)())
            if t.kind == "tuple":
                return self.coerce(self.untuple(v), ty)
        if unify(t, ty):
            t = res(t)
            if v.z is None and t.kind in ("list", "set", "dict"):
                return Val(t, empty(t))
            return Val(t, v.z)
        if t.kind == "bool" and ty.kind == "int":
            return Val(INT, z3.If(v.z, I(1), I(0)))
        if t.kind == "int" and ty.kind == "real":
            return Val(REAL, z3.ToReal(v.z))
        if ty.kind == "opt":
            s = sort(ty)
            if t.kind == "none":
                return Val(ty, s.constructor(0)())
            inner = self.coerce(v, ty.args[0])
            return Val(ty, s.constructor(1)(inner.z))
        if t.kind == "opt" and t.args[0] == ty:
            return Val(ty, sort(t).accessor(1, 0)(v.z))
        if ty.kind == "Obj":
            if t.kind == "int":
                return Val(OBJ, box_int(v.z))
            if t.kind == "bool":
                return Val(OBJ, box_int(z3.If(v.z, I(1), I(0))))
            if t.kind == "none":
                return Val(OBJ, NoneObj)
            if t.kind == "tuple":
                n = "box_" + sname(t)
                new = n not in lib._F
                f = lib.fn_decl(n, [sort(t)], sort(OBJ))
                if new:
                    u = lib.fn_decl("un" + n, [sort(OBJ)], sort(t))
                    x = z3.Const("x_", sort(t))
                    kd = lib.fn_decl("obj_kind", [sort(OBJ)], z3.IntSort())
                    lib.axioms(n, FA([x], z3.And(u(f(x)) == x,
                                                 kd(f(x)) == 3), [f(x)]))
                return Val(OBJ, f(v.z))
        if ty.kind == "tuple" and t.kind == "tuple" and \
                len(ty.args) == len(t.args):
            return self.coerce(self.untuple(v), ty)
        if ty.kind == "cls" and MODELS[ty.name] == t:
            return Val(ty, v.z)
        if t.kind == "cls" and MODELS[t.name] == ty:
            return Val(ty, v.z)
        if ty.kind == "iter" and t.kind == "list" and t.args == ty.args:
            return Val(ty, sort(ty).constructor(0)(v.z, I(0)))
        raise Unsupported("type %r where %r is expected" % (t, ty))

    def boxfns(self, k):
        """Instances of a class as opaque objects: box, unbox, test."""
        n = "box_" + k.name
        ms = sort(k.model)
        new = n not in lib._F
        f = lib.fn_decl(n, [ms], sort(OBJ))
        u = lib.fn_decl("un" + n, [sort(OBJ)], ms)
        i = lib.fn_decl("is_" + n, [sort(OBJ)], z3.BoolSort())
        if new:
            kd = lib.fn_decl("obj_kind", [sort(OBJ)], z3.IntSort())
            x, o = z3.Const("x_", ms), z3.Const("o_", sort(OBJ))
            inv = self.spf(k.boxed, {"m": Val(k.model, u(o))})
            code = 10 + sorted(REG.byclass).index(k.name)
            # only models satisfying the invariant are those of instances
            ok = self.spf(k.boxed, {"m": Val(k.model, x)})
            ax = [FA([x], z3.Implies(ok, z3.And(u(f(x)) == x, i(f(x)))),
                     [f(x)]),
                  FA([o], z3.And(i(o) == (kd(o) == code), z3.Implies(
                      i(o), z3.And(f(u(o)) == o, inv))), [i(o)])]
            lib.axioms(n, *ax)
            lib.axioms("is_" + n, *ax)
            lib.axioms("un" + n, *ax)
        return f, u, i

    def unbox(self, k, v):
        return Val(T("cls", (), k.name), self.boxfns(k)[1](v.z))

    def untuple(self, v):
        if isinstance(v, PyTuple):
            return v
        t = res(v.ty)
        if linked(t):
            return PyTuple([Val(a, sort(t).accessor(1, i)(v.z)) for i, (_, a)
                            in enumerate(DATA[t.name]["cons"][1][1])])
        if t.kind != "tuple":
            raise Unsupported("unpacking of %r" % (t,))
        return PyTuple([Val(a, _field(v.z, i))
                        for i, a in enumerate(t.args)])

    # wrap a term read from a container or a contract result
    def wf(self, ty, z, depth=0):
        """Well-formedness facts of a term of a type."""
        ty = res(ty)
        if ty.kind == "cls":
            return self.wf(MODELS[ty.name], z, depth)
        if ty.kind == "list":
            fs = [l_len(z) >= 0]
            if res(ty.args[0]).kind in ("list", "tuple", "dict", "opt"):
                i = z3.Int("w%d_" % depth)
                inner = self.wf(ty.args[0], l_get(z, i), depth + 1)
                if inner:
                    fs.append(FA([i], z3.And(inner), [l_get(z, i)]))
            return fs
        if ty.kind == "dict":
            if res(ty.args[1]).kind in ("list", "tuple", "dict", "opt"):
                k = z3.Const("w%d_" % depth, sort(ty.args[0]))
                e = z3.Select(d_val(z), k)
                inner = self.wf(ty.args[1], e, depth + 1)
                if inner:
                    return [FA([k], z3.And(inner), [e])]
            return []
        if ty.kind == "map":
            if len(ty.args) == 2 and res(ty.args[1]).kind in (
                    "list", "tuple", "dict", "opt"):
                k = z3.Const("w%d_" % depth, sort(ty.args[0]))
                e = z3.Select(z, k)
                inner = self.wf(ty.args[1], e, depth + 1)
                if inner:
                    return [FA([k], z3.And(inner), [e])]
            return []
        if ty.kind == "tuple":
            out = []
            for i, a in enumerate(ty.args):
                out += self.wf(a, _field(z, i), depth)
            return out
        if ty.kind == "opt":
            inner = self.wf(ty.args[0], sort(ty).accessor(1, 0)(z), depth)
            return inner
        if ty.kind == "iter":
            s, p = _field(z, 0), _field(z, 1)
            return self.wf(T("list", ty.args), s, depth) + [
                0 <= p, p <= l_len(s)]
        return []

    def havoc_val(self, base, ty):
        ty = res(ty)
        if ty.kind == "none":
            return NoneV
        z = self.fresh(base, sort(ty))
        self.assume(self.wf(ty, z))
        return Val(ty, z)

    def wrap(self, v):
        """Fresh containers become cells."""
        if isinstance(v, Val) and res(v.ty).kind in MUTABLE:
            return self.alloc(v)
        if isinstance(v, Val) and res(v.ty).kind == "tuple" and holds(v.ty):
            return PyTuple([self.wrap(x) for x in self.untuple(v).items])
        return v

    # -------------------------------------------------------- objects
    def new_obj(self, cls, fields):
        oid = len(self.st.objs) + 1
        while oid in self.st.objs:
            oid += 1
        self.st.objs[oid] = fields
        return ObjV(oid, cls)

    def abstract(self, o):
        """The model value of an instance."""
        k = REG.klasses.get(o.cls)
        if k is None or k.abs is None:
            raise Unsupported("instance of %s as a value" % o.cls)
        f = self.frame
        v = self.spec(k.abs, {"self": o})
        return self.coerce(v, k.model)

    def setfield(self, o, name, value):
        k = REG.klasses.get(o.cls)
        if k:
            for n, t in k.fields + k.gfields + k.temps:
                if n == name:
                    value = self.conform(value, t)
        self.st.objs[o.oid][name] = value
        for w in self.writes:
            w.add(("fld", o.oid, name))

    # -------------------------------------------------------- equality
    def eq(self, a, b):
        if isinstance(a, PyTuple) and isinstance(b, PyTuple):
            if len(a.items) != len(b.items):
                return FALSE
            return z3.And([self.eq(x, y) for x, y in
                           zip(a.items, b.items)] or [TRUE])
        if isinstance(a, Ref):
            t, z = self.content(a, True)
            if z is None:
                tb = self.content(b, True)[0] if isinstance(b, Ref) else (
                    res(b.ty) if isinstance(b, Val) else None)
                if tb is not None:
                    unify(t, tb)
        if isinstance(b, Ref) and not isinstance(a, PyTuple):
            t, z = self.content(b, True)
            if z is None:
                ta = self.content(a, True)[0] if isinstance(a, Ref) else (
                    res(a.ty) if isinstance(a, Val) else None)
                if ta is not None:
                    unify(t, ta)
        if isinstance(a, PyTuple) or isinstance(b, PyTuple):
            x, y = (a, b) if isinstance(a, PyTuple) else (b, a)
            y = self.to_val(y)
            t = res(y.ty)
            if t.kind == "tuple":
                return self.eq(x, self.untuple(y))
            if t.kind == "list":
                return self.eq(self.coerce(x, t), y)
            return self.eq(self.to_val(x), y)
        a, b = self.to_val(a), self.to_val(b)
        ta, tb = res(a.ty), res(b.ty)
        if ta.kind == "cls":
            a = Val(MODELS[ta.name], a.z)
            ta = res(a.ty)
        if tb.kind == "cls":
            b = Val(MODELS[tb.name], b.z)
            tb = res(b.ty)
        if ta.kind == "none" and tb.kind == "none":
            return TRUE
        if ta.kind == "none":
            a, b, ta, tb = b, a, tb, ta
        if tb.kind == "none":
            if ta.kind == "opt":
                return sort(ta).recognizer(0)(a.z)
            if ta.kind == "Obj":
                return a.z == NoneObj
            if linked(ta):
                return sort(ta).recognizer(0)(a.z)
            return FALSE
        if ta != tb:
            if ta.kind == "var" or tb.kind == "var":
                unify(ta, tb)
                ta, tb = res(ta), res(tb)
            if ta.kind == "opt" and tb.kind != "opt":
                b = self.coerce(b, ta)
            elif tb.kind == "opt":
                a = self.coerce(a, tb)
            elif {ta.kind, tb.kind} == {"int", "bool"}:
                a, b = self.coerce(a, INT), self.coerce(b, INT)
            elif {ta.kind, tb.kind} == {"int", "real"}:
                a, b = self.coerce(a, REAL), self.coerce(b, REAL)
            elif ta.kind == "Obj" or tb.kind == "Obj":
                a, b = self.coerce(a, OBJ), self.coerce(b, OBJ)
            elif ta.kind == "tuple" and tb.kind == "tuple":
                if len(ta.args) != len(tb.args):
                    return FALSE
                return self.eq(self.untuple(a), self.untuple(b))
            elif {ta.kind, tb.kind} <= {"set", "list", "dict", "int",
                                        "tuple"} and ta.kind != tb.kind:
                return FALSE
            elif not unify(ta, tb):
                raise Unsupported("comparison of %r and %r" % (ta, tb))
            ta = res(a.ty)
            tb = res(b.ty)
            if a.z is None and ta.kind in ("list", "set", "dict"):
                a = Val(ta, empty(ta))
            if b.z is None and tb.kind in ("list", "set", "dict"):
                b = Val(tb, empty(tb))
        t = res(a.ty)
        if t.kind == "list":
            if res(t.args[0]).kind in ("list", "dict"):
                i = z3.Const(self.fresh_name("q"), z3.IntSort())
                e = t.args[0]
                return z3.And(l_len(a.z) == l_len(b.z), z3.ForAll(
                    [i], z3.Implies(z3.And(0 <= i, i < l_len(a.z)),
                                    self.eq(Val(e, l_get(a.z, i)),
                                            Val(e, l_get(b.z, i)))),
                    patterns=[l_get(a.z, i), l_get(b.z, i)]))
            return list_eq(a.z, b.z)
        if t.kind == "dict":
            k = z3.Const(self.fresh_name("q"), sort(t.args[0]))
            va, vb = z3.Select(d_val(a.z), k), z3.Select(d_val(b.z), k)
            return z3.And(d_dom(a.z) == d_dom(b.z), z3.ForAll(
                [k], z3.Implies(z3.Select(d_dom(a.z), k),
                                self.eq(Val(t.args[1], va),
                                        Val(t.args[1], vb)))))
        if t.kind == "tuple":
            return z3.And([self.eq(Val(x, _field(a.z, i)),
                                   Val(x, _field(b.z, i)))
                           for i, x in enumerate(t.args)] or [TRUE])
        return a.z == b.z

    def less(self, a, b, strict=True):
        if isinstance(a, CmpKey):
            c = self.coerce(self.call_cmp(a.cmp, a.val, b.val), INT).z
            return c < 0 if strict else c <= 0
        if isinstance(a, PyTuple) or isinstance(b, PyTuple) or (
                isinstance(a, Val) and res(a.ty).kind == "tuple"):
            x, y = self.untuple(a).items, self.untuple(b).items
            if len(x) != len(y):
                raise Unsupported("ordering of tuples")

            def go(i):
                if i == len(x) - 1:
                    return self.less(x[i], y[i], strict)
                return z3.Or(self.less(x[i], y[i], True),
                             z3.And(self.eq(x[i], y[i]), go(i + 1)))
            return go(0)
        a, b = self.to_val(a), self.to_val(b)
        ta, tb = res(a.ty), res(b.ty)
        if ta.kind == "set" and tb.kind == "set":
            x = z3.Const(self.fresh_name("q"), sort(ta.args[0]))
            sub = z3.ForAll([x], z3.Implies(z3.Select(a.z, x),
                                            z3.Select(b.z, x)))
            return z3.And(sub, a.z != b.z) if strict else sub
        if ta.kind == "opt" and tb.kind in ("int", "opt"):
            a = self.coerce(a, ta.args[0])
            return self.less(a, b, strict)
        if tb.kind == "opt":
            return self.less(a, self.coerce(b, tb.args[0]), strict)
        if ta.kind == "bool":
            a = self.coerce(a, INT)
        if tb.kind == "bool":
            b = self.coerce(b, INT)
        ta, tb = res(a.ty), res(b.ty)
        if ta.kind == "Obj" or tb.kind == "Obj":
            x, y = self.coerce(a, OBJ).z, self.coerce(b, OBJ).z
            return lt_obj(x, y) if strict else z3.Not(lt_obj(y, x))
        if ta.kind == "var" or tb.kind == "var":
            unify(ta, tb)
            ta, tb = res(ta), res(tb)
        if ta.kind in ("int", "real") and tb.kind in ("int", "real"):
            return a.z < b.z if strict else a.z <= b.z
        raise Unsupported("ordering of %r and %r" % (ta, tb))

    def truth(self, v):
        if isinstance(v, PyTuple):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if z is None:
                return FALSE
        if isinstance(v, (Closure, ClassV, FunV, Builtin)):
            return TRUE
        if isinstance(v, ObjV):
            for m in ("__bool__", "__len__"):
                if self.find_method(v.cls, m):
                    return self.truth(self.call_method(v, m, [], {}))
            return TRUE
        if isinstance(v, SeqV):
            return v.n > 0
        if isinstance(v, DomV):
            return card(v.dom) > 0
        v = self.to_val(v)
        t = res(v.ty)
        if t.kind == "cls":
            r = self.model_len(v)
            if r is None:
                return TRUE
            return r > 0
        return self.truth_val(v)

    def truth_val(self, v):
        t = res(v.ty)
        if t.kind == "bool":
            return v.z
        if t.kind in ("int", "real"):
            return v.z != 0
        if t.kind == "none":
            return FALSE
        if t.kind == "list":
            return l_len(v.z) > 0
        if t.kind == "set":
            return card(v.z) > 0
        if t.kind == "dict":
            return card(d_dom(v.z)) > 0
        if t.kind == "opt":
            s = sort(t)
            inner = Val(t.args[0], s.accessor(1, 0)(v.z))
            return z3.And(s.recognizer(1)(v.z), self.truth(inner))
        if t.kind == "tuple":
            return z3.BoolVal(len(t.args) > 0)
        if t.kind == "sort":
            return TRUE
        if linked(t):
            return sort(t).recognizer(1)(v.z)
        if t.kind == "Obj":
            f = lib.fn_decl("truth_Obj", [sort(OBJ)], z3.BoolSort())
            return f(v.z)
        raise Unsupported("truth value of %r" % (t,))

    def model_len(self, v):
        t = res(v.ty)
        m = res(MODELS[t.name])
        if m.kind == "dict":
            return card(d_dom(v.z))
        if m.kind == "set":
            return card(v.z)
        if m.kind == "list":
            return l_len(v.z)
        return None

    def member(self, x, c):
        """x in c as a formula."""
        if isinstance(c, PyTuple):
            return z3.Or([self.eq(x, y) for y in c.items] or [FALSE])
        if isinstance(c, SeqV):
            if c.kind == "range":
                xv = self.coerce(x, INT).z
                return z3.And(c.get(I(0)).z <= xv, xv < c.hi)
            c = self.seq_to_list(c)
        if isinstance(c, DomV) and c.wrap is None:
            return z3.Select(c.dom, self.coerce(x, c.elt).z)
        if isinstance(c, Ref):
            t, z = self.content(c, True)
            if z is None:
                return FALSE
        c = self.to_val(c)
        t = res(c.ty)
        if t.kind == "cls":
            c = Val(MODELS[t.name], c.z)
            t = res(c.ty)
        if t.kind in ("set", "dict"):
            k = res(t.args[0])
            xv = self.to_val(x) if not isinstance(x, PyTuple) else x
            if isinstance(xv, Val) and res(xv.ty).kind == "opt" and \
                    k.kind != "opt" and k.kind != "Obj":
                inner = self.coerce(xv, k)
                base = z3.Select(c.z if t.kind == "set" else d_dom(c.z),
                                 inner.z)
                return z3.And(sort(res(xv.ty)).recognizer(1)(xv.z), base)
            if isinstance(xv, Val) and res(xv.ty).kind == "none" and \
                    k.kind not in ("opt", "Obj", "none"):
                return FALSE
            key = self.coerce(xv, k)
            return z3.Select(c.z if t.kind == "set" else d_dom(c.z), key.z)
        if t.kind == "list":
            i = z3.Const(self.fresh_name("q"), z3.IntSort())
            e = Val(t.args[0], l_get(c.z, i))
            return z3.Exists([i], z3.And(0 <= i, i < l_len(c.z),
                                         self.eq(e, x)),
                             patterns=[l_get(c.z, i)])
        raise Unsupported("membership in %r" % (t,))
