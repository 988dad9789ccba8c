"""Evaluation of specification expressions and ghost statements."""
import ast
import z3

from . import lib
from .engine import *
from .engine import _field
from .ty import NoName, res, sort


def ite(c, a, b):
    return z3.If(c, a, b)


class SpecMixin:
    # ------------------------------------------------------ expressions
    def spec(self, e, env=None):
        node = pexpr(e) if isinstance(e, str) else e
        try:
            return self.sp(node, env or {})
        except (Unsupported, KeyError, AttributeError, z3.Z3Exception,
                TypeError) as ex:
            if isinstance(ex, Unsupported):
                raise type(ex)("specification %r: %s" % (
                    e if isinstance(e, str) else ast.unparse(e), ex))
            raise SpecError("specification %r: %s: %s" % (
                e if isinstance(e, str) else ast.unparse(e),
                type(ex).__name__, ex))

    def spf(self, e, env=None):
        """Specification as formula."""
        v = self.spec(e, env)
        if isinstance(v, Val) and res(v.ty).kind == "bool":
            return v.z
        return self.truth(v)

    def find_name(self, name):
        f = self.frame
        seen = set()
        while f is not None:
            g = f
            while g is not None:
                if g.fid not in seen:
                    seen.add(g.fid)
                    v = self.st.vars.get(g.fid)
                    if v is not None and name in v:
                        return v[name]
                g = g.parent
            f = f.caller
        return None

    def sp_name(self, name, env):
        if name in env:
            return env[name]
        if name == "_k" or name == "_seq" or name == "_n":
            v = self.find_name(name)
            if v is not None:
                return v
        v = self.find_name(name)
        if v is not None:
            return v
        if self.ghostf is not None:
            g = self.st.vars[self.ghostf.fid]
            if name in g:
                return g[name]
        if name in REG.funs and not REG.funs[name].params:
            f = REG.funs[name]
            return Val(f.ret, f.decl())
        if name in ("True", "False"):
            return Val(BOOL, z3.BoolVal(name == "True"))
        if name in REG.macros and not REG.macros[name][0]:
            return self.sp(pexpr(REG.macros[name][1]), env)
        raise NoName("unknown name %r" % name)

    def sv(self, node, env):
        """Specification value as a plain value (containers by content)."""
        v = self.sp(node, env)
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            return Val(t, z)
        if isinstance(v, ObjV):
            return self.abstract(v)
        if isinstance(v, SeqV):
            return self.seq_to_list(v)
        return v

    def si(self, node, env):
        return self.coerce(self.sv(node, env), INT).z

    def sb(self, node, env):
        v = self.sv(node, env)
        if isinstance(v, Val) and res(v.ty).kind == "bool":
            return v.z
        return self.truth(v)

    def join(self, a, b):
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and \
                len(a.items) == len(b.items):
            ps = [self.join(x, y) for x, y in zip(a.items, b.items)]
            return PyTuple([p[0] for p in ps]), PyTuple([p[1] for p in ps])
        a = self.to_val(a)
        b = self.to_val(b)
        ta, tb = res(a.ty), res(b.ty)
        if ta == tb:
            return a, b
        if linked(ta) or linked(tb):
            t = ta if linked(ta) else tb
        elif ta.kind == "none" and tb.kind != "opt" and tb.kind != "Obj":
            t = T("opt", [tb])
        elif tb.kind == "none" and ta.kind != "opt" and ta.kind != "Obj":
            t = T("opt", [ta])
        elif ta.kind == "int" and tb.kind == "real":
            t = tb
        elif ta.kind in ("none", "bool") or tb.kind == "opt" or \
                tb.kind == "Obj":
            t = tb
        else:
            t = ta
        return self.coerce(a, t), self.coerce(b, t)

    def if_val(self, c, a, b):
        a, b = self.join(a, b)
        if isinstance(a, PyTuple):
            return PyTuple([self.if_val(c, x, y)
                            for x, y in zip(a.items, b.items)])
        if res(a.ty).kind == "none":
            return NoneV
        return Val(a.ty, z3.If(c, a.z, b.z))

    def arith(self, op, a, b):
        a, b = self.to_val(a), self.to_val(b)
        ta, tb = res(a.ty), res(b.ty)
        if ta.kind in ("int", "bool") and tb.kind in ("int", "bool"):
            x, y = self.coerce(a, INT).z, self.coerce(b, INT).z
            if isinstance(op, ast.Add):
                return Val(INT, x + y)
            if isinstance(op, ast.Sub):
                return Val(INT, x - y)
            if isinstance(op, ast.Mult):
                return Val(INT, x * y)
            if isinstance(op, ast.FloorDiv):
                return Val(INT, x / y)
            if isinstance(op, ast.Mod):
                return Val(INT, x % y)
            if isinstance(op, ast.Pow) and z3.is_int_value(x) and \
                    x.as_long() == 2:
                return Val(INT, pow2(y))
            if isinstance(op, ast.Pow) and z3.is_int_value(y) and \
                    0 <= y.as_long() <= 4:
                r = I(1)
                for _ in range(y.as_long()):
                    r = r * x
                return Val(INT, r)
            if isinstance(op, ast.LShift):
                if z3.is_int_value(x) and x.as_long() == 1:
                    return Val(INT, pow2(y))
                return Val(INT, x * pow2(y))
            if isinstance(op, ast.RShift):
                return Val(INT, x / pow2(y))
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return Val(INT, bitop(op, x, y))
        if "real" in (ta.kind, tb.kind):
            x, y = self.coerce(a, REAL).z, self.coerce(b, REAL).z
            if isinstance(op, ast.Add):
                return Val(REAL, x + y)
            if isinstance(op, ast.Sub):
                return Val(REAL, x - y)
            if isinstance(op, ast.Mult):
                return Val(REAL, x * y)
            if isinstance(op, ast.Div):
                return Val(REAL, x / y)
        if ta.kind == "opt" and tb.kind == "int":
            return self.arith(op, self.coerce(a, ta.args[0]), b)
        if tb.kind == "opt" and ta.kind == "int":
            return self.arith(op, a, self.coerce(b, tb.args[0]))
        if ta.kind == "set" and tb.kind == "set":
            unify(ta, tb)
            ta = res(ta)
            b = Val(ta, b.z) if b.z is not None else Val(ta, empty(ta))
            a = a if a.z is not None else Val(ta, empty(ta))
            n = {ast.BitOr: "or", ast.BitAnd: "and", ast.Sub: "sub",
                 ast.BitXor: "xor"}.get(type(op))
            if n:
                return Val(ta, setop(n, a.z, b.z))
        if ta.kind == "list" and tb.kind == "list" and \
                isinstance(op, ast.Add):
            unify(ta, tb)
            ta = res(ta)
            x = a.z if a.z is not None else empty(ta)
            y = b.z if b.z is not None else empty(ta)
            return Val(ta, concat(x, y))
        if ta.kind == "list" and tb.kind == "int" and \
                isinstance(op, ast.Mult):
            return self.list_times(a, b)
        if tb.kind == "list" and ta.kind == "int" and \
                isinstance(op, ast.Mult):
            return self.list_times(b, a)
        raise Unsupported("%s of %r and %r" % (type(op).__name__, ta, tb))

    def list_times(self, a, n):
        t = res(a.ty)
        ln = z3.simplify(l_len(a.z))
        if z3.is_int_value(ln) and ln.as_long() == 1:
            return Val(t, repeat(sort(t), l_get(a.z, I(0)), n.z))
        return Val(t, lrepeat(a.z, n.z))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq,)):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.eq(a, b))
        if isinstance(op, ast.Lt):
            return self.less(a, b)
        if isinstance(op, ast.Gt):
            return self.less(b, a)
        if isinstance(op, ast.LtE):
            return self.less(a, b, False)
        if isinstance(op, ast.GtE):
            return self.less(b, a, False)
        if isinstance(op, ast.In):
            return self.member(a, b)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.member(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identity(a, b)
            return r if isinstance(op, ast.Is) else z3.Not(r)
        raise Unsupported("comparison " + type(op).__name__)

    def identity(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Val) and res(y.ty).kind == "none":
                if isinstance(x, Val):
                    return self.eq(x, y)
                return FALSE
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return z3.BoolVal(a.oid == b.oid)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.follow(a), self.follow(b)
            if not ra.path and not rb.path:
                return z3.BoolVal(ra.cid == rb.cid)
            raise Unsupported("identity of inner containers")
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Ref) and isinstance(x, Val) and \
                    res(x.ty).kind == "Obj" and \
                    self.content(y, True)[0].kind == "list":
                return x.z == self.token(y)
        if isinstance(a, (Closure, FunV)) or isinstance(b, (Closure, FunV)):
            return z3.BoolVal(a is b)
        ta = res(self.to_val(a).ty)
        if ta.kind == "bool":
            return self.eq(a, b)
        if ta.kind in ("Obj", "opt", "int"):
            for x in (a, b):
                z = z3.simplify(self.to_val(x).z)
                if z3.is_int_value(z) and -5 <= z.as_long() <= 256:
                    # such integers exist once
                    return self.eq(a, b)
            # identical objects are equal
            r = self.fresh("is", z3.BoolSort())
            self.pc.append(z3.Implies(r, self.eq(a, b)))
            return r
        raise Unsupported("identity test")

    def index(self, c, k, env=None):
        """Value of c[k] without any check."""
        if isinstance(c, PyTuple):
            kk = z3.simplify(self.coerce(k, INT).z)
            if z3.is_int_value(kk):
                return c.items[kk.as_long()]
            raise Unsupported("symbolic index into a tuple")
        if isinstance(c, FunV):
            return self.apply_fun(c, [k])
        c = self.to_val(c)
        t = res(c.ty)
        if t.kind == "cls":
            c = Val(MODELS[t.name], c.z)
            t = res(c.ty)
        if t.kind == "opt":
            c = self.coerce(c, t.args[0])
            t = res(c.ty)
        if t.kind == "list":
            i = self.coerce(k, INT).z
            s = z3.simplify(i)
            if z3.is_int_value(s) and s.as_long() < 0:
                i = l_len(c.z) + i
            return Val(t.args[0], l_get(c.z, i))
        if t.kind == "dict":
            return Val(t.args[1], z3.Select(d_val(c.z),
                                            self.coerce(k, t.args[0]).z))
        if t.kind == "map":
            if len(t.args) > 2:
                ks = self.untuple(k).items
                z = c.z
                for x, a in zip(ks, t.args):
                    z = z3.Select(z, self.coerce(x, a).z)
                return Val(t.args[-1], z)
            return Val(t.args[1], z3.Select(c.z,
                                            self.coerce(k, t.args[0]).z))
        if t.kind == "tuple":
            return self.index(self.untuple(c), k)
        raise Unsupported("index into %r" % (t,))

    def slice_val(self, c, lo, hi):
        t = res(c.ty)
        n = l_len(c.z)
        if lo is None and hi is None:
            return Val(t, c.z)

        def clamp(x, dflt):
            if x is None:
                return dflt
            s = z3.simplify(x)
            if z3.is_int_value(s):
                if s.as_long() == 0:
                    return x
                if s.as_long() < 0:
                    return z3.If(n + s.as_long() > 0, n + s.as_long(), I(0))
                return z3.If(x > n, n, x)
            return z3.If(x < 0, z3.If(x + n < 0, I(0), x + n),
                         z3.If(x > n, n, x))
        return Val(t, slice_(c.z, clamp(lo, I(0)), clamp(hi, n)))

    def sp(self, node, env):
        m = getattr(self, "sp_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("spec construct " + type(node).__name__)
        return m(node, env)

    def sp_Constant(self, node, env):
        return self.const(node.value)

    def const(self, v):
        if v is True or v is False:
            return Val(BOOL, z3.BoolVal(v))
        if v is None:
            return NoneV
        if isinstance(v, int):
            return Val(INT, I(v))
        if isinstance(v, float):
            return Val(REAL, z3.RealVal(repr(v)))
        if isinstance(v, str):
            return Val(OBJ, str_obj(v))
        raise Unsupported("constant %r" % (v,))

    def sp_Name(self, node, env):
        return self.sp_name(node.id, env)

    def sp_Tuple(self, node, env):
        return PyTuple([self.sv(x, env) for x in node.elts])

    def sp_List(self, node, env):
        items = [self.sv(x, env) for x in node.elts]
        if not items:
            return Val(T("list", [tvar()]), None)
        v0 = self.to_val(items[0])
        return self.coerce(PyTuple(items), T("list", [v0.ty]))

    def sp_Set(self, node, env):
        items = [self.to_val(self.sv(x, env)) for x in node.elts]
        t = T("set", [items[0].ty])
        z = empty(t)
        for x in items:
            z = z3.Store(z, self.coerce(x, items[0].ty).z, TRUE)
        return Val(t, z)

    def sp_Attribute(self, node, env):
        b = self.sp(node.value, env)
        if isinstance(b, ObjV):
            f = self.st.objs[b.oid]
            if node.attr in f:
                return f[node.attr]
            raise Unsupported("field %s" % node.attr)
        if isinstance(b, Ref):
            b = self.to_val(b)
        if isinstance(b, Val) and res(b.ty).kind == "cls":
            b = Val(res(MODELS[res(b.ty).name]), b.z)
        if isinstance(b, Val) and res(b.ty).kind == "data":
            return self.data_field(b, node.attr)
        raise Unsupported("attribute %s" % node.attr)

    def data_field(self, b, attr):
        s = sort(b.ty)
        d = DATA[res(b.ty).name]
        for ci, (cn, fs) in enumerate(d["cons"]):
            for fi, (fname, ft) in enumerate(fs):
                if fname == attr:
                    return Val(ft, s.accessor(ci, fi)(b.z))
        raise Unsupported("field %s" % attr)

    def sp_Subscript(self, node, env):
        c = self.sp(node.value, env)
        if isinstance(c, ObjV):
            c = self.abstract(c)
        if isinstance(c, StreamV):
            c = c.ref
        if isinstance(node.slice, ast.Slice):
            v = self.to_val(c)
            lo = self.si(node.slice.lower, env) if node.slice.lower else None
            hi = self.si(node.slice.upper, env) if node.slice.upper else None
            if lo is None:
                lo = I(0)
            if hi is None:
                hi = l_len(v.z)
            # in specifications bounds are taken as given
            return Val(res(v.ty), slice_(v.z, lo, hi))
        if isinstance(c, Ref):
            t, z = self.content(c, True)
            if z is None:
                k = self.sv(node.slice, env)
                if t.kind == "dict":
                    unify(t.args[0], self.to_val(k).ty)
                t, z = self.content(c, True)
                if z is None:
                    # nothing is stored yet; any value
                    raise Unsupported("index into container of unknown type")
            c = Val(t, z)
        return self.index(c, self.sv(node.slice, env), env)

    def sp_BinOp(self, node, env):
        return self.arith(node.op, self.sv(node.left, env),
                          self.sv(node.right, env))

    def sp_UnaryOp(self, node, env):
        if isinstance(node.op, ast.Not):
            return Val(BOOL, z3.Not(self.sb(node.operand, env)))
        if isinstance(node.op, ast.USub):
            return Val(INT, -self.si(node.operand, env))
        raise Unsupported("unary operator")

    def sp_BoolOp(self, node, env):
        vs = [self.sb(x, env) for x in node.values]
        return Val(BOOL, z3.And(vs) if isinstance(node.op, ast.And)
                   else z3.Or(vs))

    def sp_Compare(self, node, env):
        left = self.sp_cmp_operand(node.left, env)
        out = []
        for op, r in zip(node.ops, node.comparators):
            right = self.sp_cmp_operand(r, env)
            out.append(self.compare(op, left, right))
            left = right
        return Val(BOOL, z3.And(out) if len(out) > 1 else out[0])

    def sp_cmp_operand(self, node, env):
        v = self.sp(node, env)
        if isinstance(v, ObjV):
            return self.abstract(v)
        return v

    def sp_IfExp(self, node, env):
        return self.if_val(self.sb(node.test, env), self.sv(node.body, env),
                           self.sv(node.orelse, env))

    # ----------------------------------------------------------- calls
    def quantifier(self, node, env, univ):
        bs = parse_binders(node.args[0].value)
        env2 = dict(env)
        vs, guard = [], []
        for n, t in bs:
            self.counter += 1
            c = z3.Const("%s_q%d" % (n, self.counter), sort(t))
            vs.append(c)
            env2[n] = Val(t, c)
            guard += self.wf(t, c)
        mark = len(self.pc)
        body = self.sb(node.args[1], env2)
        pats = []
        for p in node.args[2:]:
            if isinstance(p, ast.Tuple):
                ts = [self.term(self.to_val(self.sv(x, env2)))
                      for x in p.elts]
                pats.append(z3.MultiPattern(*ts))
                pats[-1].terms = ts     # patterns do not hold their terms
            else:
                pats.append(self.term(self.to_val(self.sv(p, env2))))
        self.closed(mark, vs)
        if guard:
            body = z3.Implies(z3.And(guard), body) if univ else \
                z3.And(guard + [body])
        q = z3.ForAll if univ else z3.Exists
        if pats:
            pats = [self.clean_pattern(p, vs) for p in pats]
            pats = [p for p in pats if p is not None]
            return Val(BOOL, q(vs, body, patterns=pats))
        return Val(BOOL, q(vs, body))

    def closed(self, mark, vs):
        """Constants named meanwhile may not depend on bound variables."""
        for f in self.pc[mark:]:
            if any(self.mentions(f, v) for v in vs):
                raise SpecError("a set or map depends on a bound variable")

    def clean_pattern(self, p, vs):
        """Patterns may not contain connectives: name those subterms."""
        bad = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT,
               z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_GE,
               z3.Z3_OP_LT, z3.Z3_OP_GT)
        found = {}

        def walk(e):
            if z3.is_quantifier(e):
                found[e.get_id()] = e
                return
            if not z3.is_app(e):
                return
            if e.decl().kind() in bad:
                found[e.get_id()] = e
                return
            for c in e.children():
                walk(c)
        if isinstance(p, z3.PatternRef):
            ts = [p.arg(i) for i in range(p.num_args())] if hasattr(
                p, "num_args") else None
            if ts is None:
                return p
        else:
            ts = [p]
        for t in ts:
            for c in t.children():
                walk(c)
        if not found:
            return p
        sub = []
        for e in found.values():
            if any(self.mentions(e, b) for b in vs):
                return None
            c = self.fresh("nm", e.sort())
            self.pc.append(c == e)
            sub.append((e, c))
        ts = [z3.substitute(t, *sub) for t in ts]
        if len(ts) == 1:
            return ts[0]
        p = z3.MultiPattern(*ts)
        p.terms = ts
        return p

    def sp_Call(self, node, env):
        f = node.func
        if isinstance(f, ast.Attribute):
            return self.sp_method(node, env)
        if not isinstance(f, ast.Name):
            raise Unsupported("spec call")
        n = f.id
        a = node.args
        if n == "forall":
            return self.quantifier(node, env, True)
        if n == "exists":
            return self.quantifier(node, env, False)
        if n == "imp":
            return Val(BOOL, z3.Implies(self.sb(a[0], env),
                                        self.sb(a[1], env)))
        if n == "iff":
            return Val(BOOL, self.sb(a[0], env) == self.sb(a[1], env))
        if n == "ite":
            return self.if_val(self.sb(a[0], env), self.sv(a[1], env),
                               self.sv(a[2], env))
        if n == "old":
            return self.in_state(self.old_state(), a[0], env)
        if n == "entry":
            lvl = a[1].value if len(a) > 1 else 1
            return self.in_state(self.entry_states[-lvl], a[0], env)
        if n in env and isinstance(env[n], FunV):
            return self.apply_fun(env[n], [self.sv(x, env) for x in a])
        if n in REG.funs:
            return self.apply_spec(REG.funs[n],
                                   [self.sv(x, env) for x in a])
        if n in REG.macros:
            ps, body = REG.macros[n]
            if len(ps) != len(a):
                raise Unsupported("macro %s arity" % n)
            e2 = dict(env)
            for p, x in zip(ps, a):
                e2[p] = self.sp(x, env)
            return self.sp(pexpr(body), e2)
        m = getattr(self, "spb_" + n, None)
        if m is not None:
            return m(a, env)
        v = self.find_name(n)
        if v is None and self.ghostf is not None:
            v = self.st.vars[self.ghostf.fid].get(n)
        if isinstance(v, FunV):
            return self.apply_fun(v, [self.sv(x, env) for x in a])
        if isinstance(v, Closure):
            return self.spec_closure(v, [self.sv(x, env) for x in a])
        if isinstance(v, Val) and res(v.ty).kind == "map":
            args = [self.sv(x, env) for x in a]
            return self.index(v, args[0] if len(args) == 1
                              else PyTuple(args))
        raise Unsupported("unknown spec function %r" % n)

    def spec_closure(self, c, args):
        if not isinstance(c.node, ast.Lambda):
            raise Unsupported("spec call of a closure")
        env = dict(zip(params_of(c.node), args))
        return self.sp(c.node.body, env)

    def sp_method(self, node, env):
        raise Unsupported("method call in specification")

    def apply_fun(self, f, args):
        if len(args) != len(f.args):
            raise Unsupported("arity of function parameter")
        zs = [self.term(self.coerce(x, t)) for x, t in zip(args, f.args)]
        return Val(f.ret, f.decl(*zs))

    def apply_spec(self, f, args):
        if len(args) != len(f.params):
            raise Unsupported("arity of %s" % f.name)
        zs = [self.term(self.coerce(x, t)) for x, (_, t) in
              zip(args, f.params)]
        return Val(f.ret, f.decl(*zs))

    def old_state(self):
        return self.retframes[-1]

    def in_state(self, state, node, env):
        st, fr = state
        save, savef = self.st, self.frame
        self.st = st.copy()
        try:
            v = self.sp(node, env)
            if isinstance(v, Ref):
                t, z = self.content(v)
                v = Val(t, z)
            elif isinstance(v, ObjV):
                v = self.abstract(v)
            return v
        finally:
            self.st = save

    # builtin specification functions
    def spb_len(self, a, env):
        v = self.sp(a[0], env)
        if isinstance(v, ObjV):
            v = self.abstract(v)
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if z is None:
                return Val(INT, I(0))
            v = Val(t, z)
        if isinstance(v, SeqV):
            return Val(INT, v.n)
        if isinstance(v, PyTuple):
            return Val(INT, I(len(v.items)))
        t = res(v.ty)
        if t.kind == "cls":
            v = Val(MODELS[t.name], v.z)
            t = res(v.ty)
        if v.z is None:
            return Val(INT, I(0))
        if t.kind == "list":
            return Val(INT, l_len(v.z))
        if t.kind == "set":
            return Val(INT, card(v.z))
        if t.kind == "dict":
            return Val(INT, card(d_dom(v.z)))
        raise Unsupported("len of %r" % (t,))

    def spb_dom(self, a, env):
        v = self.to_val(self.sv(a[0], env))
        t = res(v.ty)
        if t.kind == "cls":
            v = Val(MODELS[t.name], v.z)
            t = res(v.ty)
        return Val(T("set", [t.args[0]]), d_dom(v.z))

    def spb_vals(self, a, env):
        v = self.to_val(self.sv(a[0], env))
        t = res(v.ty)
        return Val(T("map", t.args), d_val(v.z))

    def spb_ident(self, a, env):
        """The identity of a list."""
        v = self.sp(a[0], env)
        if not isinstance(v, Ref):
            raise SpecError("identity of something else than a list")
        return Val(OBJ, self.token(v))

    def spb_listobj(self, a, env):
        """Is the object a list?  Lists are not hashable."""
        v = self.coerce(self.sv(a[0], env), OBJ)
        return Val(BOOL, lib.fn_decl("listobj", [v.z.sort()],
                                     z3.BoolSort())(v.z))

    def spb_asgraph(self, a, env):
        """The graph of neighbour sets of a graph of neighbour lists."""
        v = self.to_val(self.sv(a[0], env))
        t = res(v.ty)
        g = T("dict", [t.args[0], T("set", [res(t.args[1]).args[0]])])
        return Val(g, lib.asgraph(v.z, t, g))

    def spb_card(self, a, env):
        return Val(INT, card(self.to_val(self.sv(a[0], env)).z))

    def spb_abs(self, a, env):
        z = self.si(a[0], env)
        return Val(INT, z3.If(z < 0, -z, z))

    def spb_min(self, a, env):
        x, y = self.si(a[0], env), self.si(a[1], env)
        return Val(INT, z3.If(x <= y, x, y))

    def spb_max(self, a, env):
        x, y = self.si(a[0], env), self.si(a[1], env)
        return Val(INT, z3.If(x >= y, x, y))

    def spb_the(self, a, env):
        v = self.sv(a[0], env)
        t = res(v.ty)
        if t.kind != "opt":
            return v
        return Val(t.args[0], sort(t).accessor(1, 0)(v.z))

    def spb_some(self, a, env):
        v = self.to_val(self.sv(a[0], env))
        return self.coerce(v, T("opt", [v.ty]))

    def spb_store(self, a, env):
        """Functional update of a map, dict, list or set."""
        m = self.to_val(self.sv(a[0], env))
        t = res(m.ty)
        if t.kind == "cls":
            t = res(MODELS[t.name])
        k = self.sv(a[1], env)
        v = self.sv(a[2], env)
        if t.kind == "map":
            if len(t.args) > 2:
                ks = [self.coerce(x, y).z for x, y in
                      zip(self.untuple(k).items, t.args)]

                def go(z, ks):
                    if len(ks) == 1:
                        return z3.Store(z, ks[0],
                                        self.coerce(v, t.args[-1]).z)
                    return z3.Store(z, ks[0], go(z3.Select(z, ks[0]),
                                                 ks[1:]))
                return Val(t, go(m.z, ks))
            return Val(t, z3.Store(m.z, self.coerce(k, t.args[0]).z,
                                   self.coerce(v, t.args[1]).z))
        if t.kind == "set":
            return Val(t, z3.Store(m.z, self.coerce(k, t.args[0]).z,
                                   self.coerce(v, BOOL).z))
        if t.kind == "dict":
            kz = self.coerce(k, t.args[0]).z
            return Val(t, d_mk(sort(t), z3.Store(d_dom(m.z), kz, TRUE),
                               z3.Store(d_val(m.z), kz,
                                        self.coerce(v, t.args[1]).z)))
        if t.kind == "list":
            kz = self.coerce(k, INT).z
            return Val(t, l_mk(sort(t), l_len(m.z), z3.Store(
                l_arr(m.z), kz, self.coerce(v, t.args[0]).z)))
        raise Unsupported("store into %r" % (t,))

    def spb_lam(self, a, env):
        """lam('x:K', e): the map sending x to e."""
        bs = parse_binders(a[0].value)
        env2 = dict(env)
        vs = []
        for n, t in bs:
            self.counter += 1
            c = z3.Const("%s_q%d" % (n, self.counter), sort(t))
            vs.append(c)
            env2[n] = Val(t, c)
        mark = len(self.pc)
        body = self.to_val(self.sv(a[1], env2))
        self.closed(mark, vs)
        ty = T("map", [t for _, t in bs] + [body.ty])
        m = self.fresh("lam", sort(ty))
        sel = m
        for v in vs:
            sel = z3.Select(sel, v)
        self.pc.append(FA(vs, sel == body.z, [sel]))
        return Val(ty, m)

    def spb_setof(self, a, env):
        """setof('x:K', cond): the set of the x satisfying cond."""
        (n, t), = parse_binders(a[0].value)
        env2 = dict(env)
        self.counter += 1
        c = z3.Const("%s_q%d" % (n, self.counter), sort(t))
        env2[n] = Val(t, c)
        mark = len(self.pc)
        body = self.sb(a[1], env2)
        self.closed(mark, [c])
        ty = T("set", [t])
        m = self.fresh("setof", sort(ty))
        pats = [z3.Select(m, c)]
        for p in a[2:]:
            pats.append(self.term(self.to_val(self.sv(p, env2))))
        self.pc.append(FA([c], z3.Select(m, c) == body, pats))
        return Val(ty, m)

    def spb_emptyset(self, a, env):
        return Val(*self._empty("set[%s]" % a[0].value))

    def spb_emptylist(self, a, env):
        return Val(*self._empty("list[%s]" % a[0].value))

    def spb_emptydict(self, a, env):
        return Val(*self._empty("dict[%s]" % a[0].value))

    def _empty(self, s):
        t = parse_type(s)
        return t, empty(t)

    def spb_append(self, a, env):
        l = self.to_val(self.sv(a[0], env))
        t = res(l.ty)
        x = self.coerce(self.sv(a[1], env), t.args[0])
        z = l.z if l.z is not None else empty(res(l.ty))
        return Val(res(l.ty), l_mk(sort(res(l.ty)), l_len(z) + 1,
                                   z3.Store(l_arr(z), l_len(z),
                                            self.term(x))))

    def spb_rev(self, a, env):
        l = self.to_val(self.sv(a[0], env))
        return Val(l.ty, rev(l.z))

    def spb_delete(self, a, env):
        l = self.to_val(self.sv(a[0], env))
        return Val(l.ty, ldelete(l.z, self.si(a[1], env)))

    def spb_insert(self, a, env):
        l = self.to_val(self.sv(a[0], env))
        return Val(l.ty, linsert(l.z, self.si(a[1], env), self.coerce(
            self.sv(a[2], env), res(l.ty).args[0]).z))

    def spb_without(self, a, env):
        """Dictionary or set without a key."""
        m = self.to_val(self.sv(a[0], env))
        t = res(m.ty)
        if t.kind == "cls":
            t = res(MODELS[t.name])
        kz = self.coerce(self.sv(a[1], env), t.args[0]).z
        if t.kind == "set":
            return Val(t, z3.Store(m.z, kz, FALSE))
        return Val(t, d_mk(sort(t), z3.Store(d_dom(m.z), kz, FALSE),
                           d_val(m.z)))

    def spb_mkdict(self, a, env):
        d = self.to_val(self.sv(a[0], env))
        m = self.to_val(self.sv(a[1], env))
        t = T("dict", [res(d.ty).args[0], res(m.ty).args[1]])
        return Val(t, d_mk(sort(t), d.z, m.z))

    def spb_subset(self, a, env):
        return Val(BOOL, self.less(self.sv(a[0], env), self.sv(a[1], env),
                                   False))

    def spb_members(self, a, env):
        """The members of a frozenset that is used as an object."""
        v = self.coerce(self.sv(a[0], env), OBJ)
        return Val(T("set", [OBJ]), lib.fset()[1](v.z))

    def spb_isfset(self, a, env):
        v = self.coerce(self.sv(a[0], env), OBJ)
        return Val(BOOL, lib.fset()[0](v.z) == 5)

    def spb_pow2(self, a, env):
        return Val(INT, pow2(self.si(a[0], env)))

    def spb_sumto(self, a, env):
        l = self.to_val(self.sv(a[0], env))
        return Val(INT, lib.list_sum(l.z)(l.z, self.si(a[1], env)))

    def spb_seqof(self, a, env):
        """The elements still to come of an iterator: list and position."""
        v = self.to_val(self.sv(a[0], env))
        t = res(v.ty)
        return Val(T("list", t.args), _field(v.z, 0))

    def spb_posof(self, a, env):
        v = self.to_val(self.sv(a[0], env))
        return Val(INT, _field(v.z, 1))

    def spb_glob(self, a, env):
        """A module variable."""
        mod, _, name = a[0].value.rpartition(".")
        return self.resolve_global(mod, name)

    def spb_box(self, a, env):
        return self.coerce(self.sv(a[0], env), OBJ)

    def spb_bit(self, a, env):
        return Val(BOOL, bit(self.si(a[0], env), self.si(a[1], env)))

    def spb_lowbit(self, a, env):
        return Val(INT, lowbit(self.si(a[0], env)))

    def spb_topbit(self, a, env):
        return Val(INT, topbit(self.si(a[0], env)))

    def spb_diffbit(self, a, env):
        return Val(INT, diffbit(self.si(a[0], env), self.si(a[1], env)))

    def spb_same(self, a, env):
        """Equality of terms (stronger than equality of contents)."""
        x, y = self.sv(a[0], env), self.sv(a[1], env)
        x = self.to_val(x)
        y = self.coerce(y, x.ty)
        return Val(BOOL, self.term(x) == self.term(y))

    def spb_fresh(self, a, env):
        t = parse_type(a[0].value)
        return self.havoc_val("any", t)

    def spb_isdefined(self, a, env):
        n = a[0].value
        return Val(BOOL, z3.BoolVal(self.find_name(n) is not None))

    def spb_is_(self, a, env):
        """is_(v, 'cons'): constructor test of a declared data type."""
        v = self.sv(a[0], env)
        d = DATA[res(v.ty).name]
        for ci, (cn, fs) in enumerate(d["cons"]):
            if cn == a[1].value:
                return Val(BOOL, sort(v.ty).recognizer(ci)(v.z))
        raise Unsupported("constructor")

    def spb_isinst(self, a, env):
        """isinst('Class', o): the object is an instance of the class."""
        k = REG.byclass[a[0].value]
        return Val(BOOL, self.boxfns(k)[2](self.coerce(
            self.sv(a[1], env), OBJ).z))

    def spb_boxed(self, a, env):
        """boxed('Class', m): the instance with the given model."""
        k = REG.byclass[a[0].value]
        return Val(OBJ, self.boxfns(k)[0](self.coerce(
            self.sv(a[1], env), k.model).z))

    def spb_unboxed(self, a, env):
        k = REG.byclass[a[0].value]
        return Val(k.model, self.boxfns(k)[1](self.coerce(
            self.sv(a[1], env), OBJ).z))

    def spb_hashof(self, a, env):
        f = lib.fn_decl("hash_Obj", [sort(OBJ)], z3.IntSort())
        return Val(INT, f(self.coerce(self.sv(a[0], env), OBJ).z))

    def spb_con(self, a, env):
        """con('Type.cons', args...)"""
        tn, cn = a[0].value.split(".")
        d = DATA[tn]
        for ci, (c, fs) in enumerate(d["cons"]):
            if c == cn:
                zs = [self.coerce(self.sv(x, env), ft).z
                      for x, (_, ft) in zip(a[1:], fs)]
                return Val(T("data", (), tn),
                           d["sort"].constructor(ci)(*zs))
        raise Unsupported("constructor")

    # ------------------------------------------------ ghost statements
    def ghost(self, text, env=None):
        if not text:
            return
        for st in pstmts(text):
            try:
                self.gst(st, env or {})
            except NoName:
                # a hint about a variable that is no longer there: dropping
                # it leaves the obligations as they are
                if getattr(self, "cur_lemma", None) is not None:
                    raise

    def gst(self, st, env):
        if self.dry and (isinstance(st, ast.Assert) or isinstance(
                st, ast.Expr) and isinstance(st.value, ast.Call) and
                st.value.func.id not in ("obtain", "choose_any")):
            return      # no effect on the state
        if isinstance(st, ast.Assign):
            v = self.spec(st.value, env)
            if isinstance(v, Ref):
                v = Val(*self.content(v))
            tgt = st.targets[0]
            if isinstance(tgt, ast.Name):
                self.set_ghost(tgt.id, v)
            elif isinstance(tgt, ast.Attribute):
                o = self.spec(tgt.value, env)
                cur = self.st.objs[o.oid].get(tgt.attr)
                k = REG.klasses.get(o.cls)
                for n, t in k.gfields:
                    if n == tgt.attr:
                        v = self.coerce(v, t)
                if tgt.attr not in [n for n, _ in k.gfields]:
                    raise SpecError("ghost write to real field")
                self.st.objs[o.oid][tgt.attr] = v
                for w in self.writes:
                    w.add(("fld", o.oid, tgt.attr))
            elif isinstance(tgt, ast.Subscript):
                node = ast.Call(ast.Name("store"), [
                    tgt.value, tgt.slice, st.value], [])
                self.gst(ast.Assign([tgt.value], node), env)
            else:
                raise SpecError("ghost assignment")
        elif isinstance(st, ast.Assert):
            nm = st.msg.value if st.msg is not None else \
                ast.unparse(st.test)[:70]
            self.emit(self.spf(st.test, env), "ghost assert: " + nm,
                      "lemma")
        elif isinstance(st, ast.If) and self.dry:
            # only what is written counts: both branches, without their facts
            mark = len(self.pc)
            for s in st.body + st.orelse:
                try:
                    self.gst(s, env)
                except NoName:
                    pass
            del self.pc[mark:]
        elif isinstance(st, ast.If):
            if self.choose(self.spf(st.test, env)):
                for s in st.body:
                    self.gst(s, env)
            else:
                for s in st.orelse:
                    self.gst(s, env)
        elif isinstance(st, ast.Pass):
            pass
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            self.gcall(st.value, env)
        elif isinstance(st, ast.Return):
            raise ReturnX(NoneV)
        else:
            raise SpecError("ghost statement " + ast.unparse(st))

    def set_ghost(self, name, v):
        g = self.ghostf
        if name in self.ghost_types:
            v = self.coerce(v, self.ghost_types[name])
        elif isinstance(v, PyTuple):
            v = self.to_val(v)
        if isinstance(v, Val) and v.z.num_args():
            # a name for the value keeps patterns free of connectives
            c = self.fresh(name, v.z.sort())
            self.assume(c == v.z)
            v = Val(v.ty, c)
        self.st.vars[g.fid][name] = v
        for w in self.writes:
            w.add(("var", g.fid, name))

    def gcall(self, node, env):
        n = node.func.id
        a = node.args
        if n == "unfold":
            self.unfold(a[0], env)
        elif n == "obtain":
            # obtain("x:T, ...", formula): existence proved, then named
            bs = parse_binders(a[0].value)
            ex = ast.Call(ast.Name("exists"), [a[0]] + a[1:], [])
            self.emit(self.spf(ex, env), "obtain: " + ast.unparse(a[1])[:60],
                      "lemma")
            self.pc.pop() if False else None
            e2 = dict(env)
            for nm, t in bs:
                v = self.havoc_val(nm, t)
                self.set_ghost(nm, v)
                e2[nm] = v
            self.assume(self.spf(a[1], e2))
        elif n in REG.lemmas:
            self.lemma_call(REG.lemmas[n], [self.sv(x, env) for x in a])
        elif n == "use":
            self.assume(self.lemma_closure(REG.lemmas[a[0].value]))
        elif n == "choose_any":
            bs = parse_binders(a[0].value)
            for nm, t in bs:
                self.set_ghost(nm, self.havoc_val(nm, t))
        elif n == "trigger":
            # mention terms so that quantifiers can be instantiated
            for x in a:
                v = self.to_val(self.sv(x, env))
                f = lib.fn_decl("touch_" + lib.san(v.z.sort()),
                                [v.z.sort()], z3.BoolSort())
                self.pc.append(f(v.z))
        elif n == "card_subset":
            # finite sets: a subset is not larger, and smaller if different
            x, y = [self.to_val(self.sv(e, env)).z for e in a]
            q = z3.Const(self.fresh_name("q"), x.sort().domain())
            sub = z3.ForAll([q], z3.Implies(z3.Select(x, q),
                                            z3.Select(y, q)))
            self.pc.append(z3.Implies(sub, z3.And(
                card(x) <= card(y), z3.Implies(card(x) == card(y),
                                               x == y))))
        elif n == "forall_intro":
            # forall_intro("x:T", hyp, concl, "ghost statements")
            self.forall_intro(a, env)
        else:
            raise SpecError("ghost call " + n)

    def forall_intro(self, a, env):
        """Prove concl for arbitrary x satisfying hyp, then generalise."""
        bs = parse_binders(a[0].value)
        node = ast.Call(ast.Name("forall"), [a[0], ast.Call(
            ast.Name("imp"), [a[1], a[2]], [])], [])
        goal = self.spf(node, env)
        if self.decide_nd():
            e2 = dict(env)
            for nm, t in bs:
                e2[nm] = self.havoc_val(nm, t)
            self.assume(self.spf(a[1], e2))
            if len(a) > 3:
                self.ghost(a[3].value, e2)
            self.emit(self.spf(a[2], e2), "forall_intro: " +
                      ast.unparse(a[2])[:60], "lemma")
            raise PathEnd()
        self.pc.append(goal)

    def decide_nd(self):
        """Demonic choice: both alternatives are explored."""
        return self.decide()

    def unfold(self, node, env):
        f = REG.funs[node.func.id]
        args = [self.coerce(self.sv(x, env), t)
                for x, (_, t) in zip(node.args, f.params)]
        e2 = {n: v for (n, _), v in zip(f.params, args)}
        body = self.coerce(self.spec(f.body, e2), f.ret)
        self.pc.append(f.decl(*[self.term(x) for x in args]) ==
                       self.term(body))

    def lemma_call(self, c, args):
        self.used_lemmas.add(c.key)
        env = {n: self.coerce(v, t) for (n, t), v in zip(c.params, args)}
        if len(args) != len(c.params):
            raise SpecError("lemma %s arity" % c.key)
        for nm, r in c.requires:
            self.emit(self.spf(r, env), "lemma %s needs %s" % (c.key, nm),
                      "lemma")
        if c.key == getattr(self, "cur_lemma", None):
            d0 = self.cur_decr
            d1 = self.coerce(self.spec(c.decreases, env), INT).z
            self.emit(z3.And(0 <= d1, d1 < d0), "induction on %s decreases"
                      % c.key, "lemma")
        elif getattr(self, "cur_lemma", None) is not None and \
                c.key not in self.lemma_order:
            raise SpecError("lemma %s used before it is proved" % c.key)
        for nm, e in c.ensures:
            self.assume(self.spf(e, env))

    def lemma_closure(self, c):
        self.used_lemmas.add(c.key)
        if getattr(self, "cur_lemma", None) is not None and (
                c.key == self.cur_lemma or c.key not in self.lemma_order):
            raise SpecError("lemma %s used before it is proved" % c.key)
        env, vs, guard = {}, [], []
        for n, t in c.params:
            self.counter += 1
            v = z3.Const("%s_q%d" % (n, self.counter), sort(t))
            vs.append(v)
            env[n] = Val(t, v)
            guard += self.wf(t, v)
        guard += [self.spf(r, env) for _, r in c.requires]
        body = z3.And([self.spf(e, env) for _, e in c.ensures])
        if guard:
            body = z3.Implies(z3.And(guard), body)
        if c.pattern:
            pats = []
            node = pexpr(c.pattern)
            alts = node.elts if isinstance(node, ast.List) else [node]
            for p in alts:
                if isinstance(p, ast.Tuple):
                    pats.append(z3.MultiPattern(*[
                        self.term(self.to_val(self.sv(x, env)))
                        for x in p.elts]))
                else:
                    pats.append(self.term(self.to_val(self.sv(p, env))))
            return z3.ForAll(vs, body, patterns=pats)
        return z3.ForAll(vs, body)


class SpecError(Exception):
    """A mistake in a contract file."""


def ibit():
    """Bits of integers in two's complement."""
    new = "ibit" not in lib._F
    f = lib.fn_decl("ibit", [z3.IntSort(), z3.IntSort()], z3.BoolSort())
    if new:
        p = pow2
        a, k, j = z3.Ints("a_ k_ j_")
        lib.axioms("ibit",
                   FA([k], z3.Implies(k >= 0, z3.Not(f(0, k))), [f(0, k)]),
                   FA([k], z3.Implies(k >= 0, f(-1, k)), [f(-1, k)]),
                   FA([j, k], z3.Implies(z3.And(j >= 0, k >= 0),
                                         f(p(j), k) == (j == k)),
                      [f(p(j), k)]))
    return f


def bnot(x):
    new = "bnot" not in lib._F
    f = lib.fn_decl("bnot", [z3.IntSort()], z3.IntSort())
    if new:
        a, k = z3.Ints("a_ k_")
        b = ibit()
        lib.axioms("bnot", FA([a], f(a) == -a - 1, [f(a)]),
                   FA([a, k], z3.Implies(k >= 0, b(f(a), k) ==
                                         z3.Not(b(a, k))), [b(f(a), k)]))
    return f(x)


def bit(n, k):
    return ibit()(n, k)


def lowbit(x):
    """Position of the lowest bit set (of a nonzero integer)."""
    new = "lowbit" not in lib._F
    f = lib.fn_decl("lowbit", [z3.IntSort()], z3.IntSort())
    if new:
        a, k = z3.Ints("a_ k_")
        b = ibit()
        lib.axioms("lowbit",
                   FA([a], z3.Implies(a != 0, z3.And(
                       f(a) >= 0, b(a, f(a)))), [f(a)]),
                   FA([a, k], z3.Implies(z3.And(a != 0, 0 <= k, k < f(a)),
                                         z3.Not(b(a, k))),
                      [z3.MultiPattern(f(a), b(a, k))]))
    return f(x)


def topbit(x):
    """Position of the highest bit set (of a positive integer)."""
    new = "topbit" not in lib._F
    f = lib.fn_decl("topbit", [z3.IntSort()], z3.IntSort())
    if new:
        a, k = z3.Ints("a_ k_")
        b = ibit()
        lib.axioms("topbit",
                   FA([a], z3.Implies(a > 0, z3.And(
                       f(a) >= 0, b(a, f(a)), pow2(f(a)) <= a,
                       a < 2 * pow2(f(a)))), [f(a)]),
                   FA([a, k], z3.Implies(z3.And(a > 0, f(a) < k),
                                         z3.Not(b(a, k))),
                      [z3.MultiPattern(f(a), b(a, k))]))
    return f(x)


def diffbit(x, y):
    """Position of a bit in which two different integers differ."""
    new = "diffbit" not in lib._F
    f = lib.fn_decl("diffbit", [z3.IntSort(), z3.IntSort()], z3.IntSort())
    if new:
        a, c = z3.Ints("a_ c_")
        b = ibit()
        lib.axioms("diffbit",
                   FA([a, c], z3.Implies(a != c, z3.And(
                       f(a, c) >= 0, b(a, f(a, c)) != b(c, f(a, c)))),
                      [f(a, c)]))
    return f(x, y)


def bitop(op, x, y):
    nm = {ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor"}[type(op)]
    new = nm not in lib._F
    f = lib.fn_decl(nm, [z3.IntSort(), z3.IntSort()], z3.IntSort())
    if new:
        a, b, k = z3.Ints("a_ b_ k_")
        bt = ibit()
        r = {"band": z3.And(bt(a, k), bt(b, k)),
             "bor": z3.Or(bt(a, k), bt(b, k)),
             "bxor": z3.Xor(bt(a, k), bt(b, k))}[nm]
        pos = {"band": z3.Or(a >= 0, b >= 0), "bor": z3.And(a >= 0, b >= 0),
               "bxor": (a >= 0) == (b >= 0)}[nm]
        lib.axioms(nm, FA([a, b, k], z3.Implies(
            k >= 0, bt(f(a, b), k) == r), [bt(f(a, b), k)]),
            FA([a, b], (f(a, b) >= 0) == pos, [f(a, b)]),
            FA([a, b], z3.Implies(f(a, b) != 0, bt(
                f(a, b), lowbit(f(a, b)))), [f(a, b)]))
    return f(x, y)
