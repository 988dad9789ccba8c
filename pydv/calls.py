"""Calls: contracts, inlined functions, builtins and container methods."""
import ast
import z3

from . import lib
from .engine import *
from .engine import _field
from .spec import SpecError
from .ty import res, sort

MAXDEPTH = 12


class CallMixin:
    def ex_Call(self, node):
        f = node.func
        # all/any over generator expressions
        if isinstance(f, ast.Name) and self.lookup(f.id) is None and \
                len(node.args) == 1 and isinstance(
                    node.args[0], ast.GeneratorExp):
            if f.id in ("all", "any"):
                return self.quantified(node.args[0], f.id == "all")
            if f.id in ("set", "frozenset"):
                return self.alloc(self.set_comp(node.args[0]))
            if f.id == "dict" and isinstance(node.args[0].elt, ast.Tuple) \
                    and len(node.args[0].elt.elts) == 2:
                g = node.args[0]
                dc = ast.DictComp(g.elt.elts[0], g.elt.elts[1],
                                  g.generators)
                return self.ex_DictComp(ast.copy_location(dc, g))
        if isinstance(f, ast.Name) and f.id == "dict" and \
                self.lookup("dict") is None and len(node.args) == 1 and \
                isinstance(node.args[0], ast.ListComp) and isinstance(
                    node.args[0].elt, ast.Tuple) and \
                len(node.args[0].elt.elts) == 2:
            g = node.args[0]
            dc = ast.DictComp(g.elt.elts[0], g.elt.elts[1], g.generators)
            return self.ex_DictComp(ast.copy_location(dc, g))
        fv = self.ev(f)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if not isinstance(v, PyTuple):
                    raise Unsupported("starred argument")
                args.extend(v.items)
            else:
                args.append(self.ev(a))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                raise Unsupported("keyword unpacking")
            kw[k.arg] = self.ev(k.value)
        line = self.line
        r = self.call(fv, args, kw, node)
        self.line = line
        return r

    def call(self, f, args, kw, node=None):
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Bound):
            if isinstance(f.recv, ObjV) or self.is_model(f.recv):
                return self.call_method(f.recv, f.name, args, kw, node)
            if isinstance(f.recv, ClassV):
                if args and f.name == "fromkeys":
                    raise Unsupported("fromkeys")
                key = self.method_key(f.recv.key, f.name)
                m = self.find_method(f.recv.key, f.name)
                return self.call_closure(Closure(m, None, f.recv.mod, key),
                                         args, kw, node)
            return self.container_method(f.recv, f.name, args, kw, node)
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, kw, node)
        if isinstance(f, FunV):
            if self.fun_raises(f):
                pass
            return self.wrap(self.apply_fun(f, args))
        if isinstance(f, ObjV):
            return self.call_method(f, "__call__", args, kw, node)
        if isinstance(f, Val) and res(f.ty).kind == "opt" and \
                res(f.ty).args[0].kind == "sort":
            f = self.unopt(f)
        if isinstance(f, Val) and res(f.ty).kind == "sort":
            from .ty import SORTS
            return self.wrap(self.apply_spec(
                REG.funs[SORTS[res(f.ty).name]], [f] + list(args)))
        if isinstance(f, Val) and res(f.ty).kind == "map":
            return self.index(f, args[0] if len(args) == 1
                              else PyTuple(args))
        raise Unsupported("call of %s" % type(f).__name__)

    def fun_raises(self, f):
        return False

    def is_model(self, v):
        if isinstance(v, Ref):
            return self.content(v, True)[0].kind == "cls"
        return isinstance(v, Val) and res(v.ty).kind == "cls"

    def bind(self, node, args, kw, mod):
        """Parameter name -> value (defaults evaluated)."""
        a = node.args
        if a.kwonlyargs or a.kwarg:
            raise Unsupported("signature")
        names = [x.arg for x in a.args]
        out = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise Unsupported("too many arguments")
            out[a.vararg.arg] = PyTuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = PyTuple([])
        for n, v in zip(names, args):
            out[n] = v
        for n, v in kw.items():
            if n not in names or n in out:
                raise Unsupported("keyword argument %s" % n)
            out[n] = v
        given = set(out)
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in out:
                out[n] = ("default", d)
        for n in names:
            if n not in out:
                raise Unsupported("missing argument %s" % n)
        return out, given, names

    def call_closure(self, c, args, kw, node=None):
        if isinstance(c.node, ast.Lambda):
            return self.inline(c, args, kw, node)
        for con in REG.contracts.get(c.key, ()):
            if c.key in self.contract.inline:
                break
            b, given, names = self.bind(c.node, args, kw, c.mod)
            ps = [n for n, _ in con.params]
            if all(g in ps for g in given) and \
                    self.fits(con, b):
                return self.call_contract(con, b, c)
        if c.key == self.contract.key:
            raise Unsupported("no contract of %s for these arguments"
                              % c.key)
        return self.inline(c, args, kw, node)

    def fits(self, con, b):
        for n, t in con.params:
            v = b.get(n)
            if isinstance(v, tuple) and v and v[0] == "default":
                continue
            if t.kind == "fun":
                if not isinstance(v, (FunV, Closure, Builtin)):
                    return False
                continue
            if isinstance(v, Ref):
                vt = self.content(v, True)[0]
            elif isinstance(v, Val):
                vt = res(v.ty)
            elif isinstance(v, ObjV):
                if t.kind != "cls":
                    return False
                continue
            else:
                continue
            if t.kind == "iter" or t.kind == "opt":
                continue
            if vt.kind == "var" or t.kind == "Obj":
                continue
            if vt.kind == "opt" and t.kind != "opt":
                vt = res(vt.args[0])
            if vt.kind == "cls" and t.kind != "cls":
                vt = res(MODELS[vt.name])
            if t.kind == "list" and vt.kind in ("list", "set", "dict",
                                                "iter"):
                continue
            if not self.compatible(vt, t) and not self.viewable(vt, t):
                return False
        return True

    def viewable(self, a, b):
        """Neighbour lists where a graph of neighbour sets is expected."""
        return self.contract.views and a.kind == b.kind == "dict" and \
            a.args[0] == b.args[0] and res(a.args[1]).kind == "list" and \
            res(b.args[1]).kind == "set" and \
            res(a.args[1]).args[0] == res(b.args[1]).args[0]

    def compatible(self, a, b):
        a, b = res(a), res(b)
        if a.kind == "var" or b.kind == "var" or b.kind == "Obj":
            return True
        if {a.kind, b.kind} == {"int", "bool"}:
            return True
        if a.kind == "cls" or b.kind == "cls":
            x = res(MODELS[a.name]) if a.kind == "cls" else a
            y = res(MODELS[b.name]) if b.kind == "cls" else b
            return self.compatible(x, y) if (x, y) != (a, b) else \
                a == b
        if b.kind == "opt":
            return a.kind == "none" or self.compatible(
                a.args[0] if a.kind == "opt" else a, b.args[0])
        return a.kind == b.kind and len(a.args) == len(b.args) and all(
            self.compatible(x, y) for x, y in zip(a.args, b.args))

    def inline(self, c, args, kw, node):
        if self.depth > MAXDEPTH:
            raise Unsupported("call depth (recursive function without "
                              "contract: %s)" % c.key)
        b, given, names = self.bind(c.node, args, kw, c.mod)
        fr = self.frame
        f = self.new_frame(c.frame, c.mod, c.key)
        f.caller = fr
        f.chain = fr.chain + ((id(node),) if node is not None else ())
        f.locals_decl = dict(self.contract.locals)
        for n, v in list(b.items()):
            if isinstance(v, tuple) and v and v[0] == "default":
                b[n] = self.ev_in_module(v[1], c.mod)
        self.depth += 1
        self.frame = f
        for n, v in b.items():
            self.st.vars[f.fid][n] = v
        for w in self.writes:
            pass
        try:
            if isinstance(c.node, ast.Lambda):
                return self.ev(c.node.body)
            if is_generator(c.node):
                ref = self.alloc(Val(T("list", [tvar()]), None))
                self.outs.append({"ref": ref, "top": False})
                self.st.vars[f.fid]["_out"] = ref
                try:
                    self.block(c.node.body)
                except ReturnX:
                    pass
                finally:
                    self.outs.pop()
                return ref
            body = c.node.body
            if self.pure:
                return self.inline_pure(body)
            try:
                self.block(body)
            except ReturnX as r:
                return r.v
            return NoneV
        finally:
            self.depth -= 1
            self.frame = fr

    def inline_pure(self, body):
        """Functions made of returns and ifs, without branching."""
        body = [s for s in body if not (isinstance(s, ast.Expr) and
                                        isinstance(s.value, ast.Constant))]
        if not body:
            return NoneV
        s = body[0]
        if isinstance(s, ast.Return):
            return self.ev(s.value) if s.value is not None else NoneV
        if isinstance(s, ast.If):
            c = self.truth(self.ev(s.test))
            a = self.guarded(c, lambda: self.inline_pure(
                s.body + (body[1:] if not self.ends(s.body) else [])))
            b = self.guarded(z3.Not(c), lambda: self.inline_pure(
                s.orelse + body[1:]))
            return self.if_val(c, a, b)
        if isinstance(s, (ast.Assign, ast.Expr)):
            self.stmt(s)
            return self.inline_pure(body[1:])
        raise Unsupported("call inside of a comprehension")

    def ends(self, body):
        return bool(body) and isinstance(body[-1], ast.Return)

    # -------------------------------------------------------- contracts
    def call_contract(self, con, b, c=None, selfv=None):
        """Use a contract at a call site."""
        self.used_contracts.add(con.name)
        if con.interfere:
            return CoroV(con, b["self"])
        if con.stream:
            if con.params:
                raise Unsupported("endless generator with arguments")
            return StreamV(con, self.alloc(self.coerce(PyTuple(
                [self.spec(con.stream)]), T("list", [con.yields]))))
        if con.trusted:
            self.used_trusted.add(con.name)
        env = {}
        for n, t in con.params:
            if n not in b:
                raise Unsupported("argument %s" % n)
            v = b[n]
            if isinstance(v, tuple) and v and v[0] == "default":
                v = self.ev_in_module(v[1], c.mod)
            env[n] = self.pass_arg(v, t, n in con.modifies)
        # captured variables of nested functions
        for n, t in con.captures:
            v = None
            if c is not None and c.frame is not None:
                v = self.lookup(n, c.frame)
            if v is None:
                v = self.find_name(n)
            if v is None:
                v = self.st.vars[self.ghostf.fid].get(n)
            if v is None:
                raise Unsupported("captured variable %s" % n)
            if isinstance(v, Ref):
                unify(self.content(v, True)[0], t)
            env[n] = v
        fr = self.frame
        sf = self.new_frame(None, con.key.rsplit(".", 1)[0], con.key)
        sf.caller = None
        self.frame = sf
        saved_ret = self.retframes
        try:
            self.st.vars[sf.fid].update(env)
            pre = (self.st.copy(), sf)
            for nm, e in con.requires:
                self.emit(self.spf(e), "precondition of %s: %s" % (
                    con.key.split("pads.")[-1], nm), "precondition")
            k = self.klass_of(con)
            if k and isinstance(env.get("self"), ObjV) and not con.noinv \
                    and not con.key.endswith(".__init__"):
                for nm, e in k.inv:
                    self.emit(self.spf(e), "class invariant before %s: %s" %
                              (con.key.split("pads.")[-1], nm),
                              "precondition")
            for exc, cnd in con.raises.items():
                if cnd is None:
                    bad = self.fresh("raises", z3.BoolSort())
                else:
                    bad = self.spf(cnd)
                    if z3.is_false(z3.simplify(bad)):
                        continue
                if con.torn and con.modifies and self.catching(exc) and \
                        (self.handled(exc) or
                         self.contract.torn is not True) and \
                        (con.torn != "model" or
                         isinstance(env.get("self"), ObjV)):
                    raise Unsupported("state after " + exc)
                self.frame = fr
                self.may_raise(exc, z3.Not(bad), "raised by " + con.key)
                self.frame = sf
            if con.key == self.contract.key and self.contract.decreases \
                    and not self.dry:
                d1 = self.coerce(self.spec(con.decreases), INT).z
                self.emit(z3.And(0 <= d1, d1 < self.cur_decr),
                          "recursive call decreases the measure",
                          "termination")
            if con.key == self.contract.key and not con.decreases:
                self.nomeasure.add(self.cur_fn)
            for m in con.modifies:
                self.havoc_target(env, m, con)
            self.retframes = [pre]
            genv = {}
            for n, t in con.outs.items():
                genv[n] = self.havoc_val(n, t)
            rt = con.returns
            if con.yields is not None:
                rt = T("list", [con.yields])
            if con.alias:
                result = env[con.alias]
                genv["result"] = result
            elif rt is None:
                result = NoneV
            else:
                result = self.wrap(self.havoc_val("ret", rt))
                genv["result"] = result
                genv["out"] = result
            if con.yields is not None:
                genv["out"] = result
            for n, t in con.outs.items():
                pass
            for nm, e in con.ensures:
                self.assume(self.spf(e, genv))
            if isinstance(env.get("self"), ObjV):
                for nm, e in con.ensures_own:
                    self.assume(self.spf(e, genv))
            k = self.klass_of(con)
            if k and "self" in env and isinstance(env["self"], ObjV) and \
                    not con.noinv and "self" in con.modifies:
                for nm, e in k.inv:
                    self.assume(self.spf(e, genv))
            if con.outs:
                self.frame = fr
                for n in con.outs:
                    self.set_ghost("%s" % n, genv[n])
            g = self.contract.after.get(con.key.rsplit(".", 1)[-1])
            if g:
                self.frame = fr
                genv = dict(env)
                genv["result"] = result
                self.ghost(g, genv)
            return result
        finally:
            self.frame = fr
            self.retframes = saved_ret

    def klass_of(self, con):
        parts = con.key.rsplit(".", 1)
        return REG.klasses.get(parts[0])

    def havoc_target(self, env, m, con):
        if "." in m:
            o, fld = m.split(".", 1)
            ob = env[o]
            if not isinstance(ob, ObjV):
                return
            cur = self.st.objs[ob.oid].get(fld)
            if isinstance(cur, Ref):
                self.havoc_ref(cur)
            else:
                k = REG.klasses[ob.cls]
                t = dict(k.fields + k.gfields)[fld]
                v = self.wrap(self.havoc_val(fld, t))
                self.st.objs[ob.oid][fld] = v
                for w in self.writes:
                    w.add(("fld", ob.oid, fld))
            return
        v = env[m]
        if isinstance(v, Ref):
            self.havoc_ref(v)
        elif isinstance(v, ObjV):
            k = REG.klasses[v.cls]
            for n, t in k.fields + k.gfields:
                cur = self.st.objs[v.oid].get(n)
                if isinstance(cur, Ref):
                    self.havoc_ref(cur)
                else:
                    nv = self.wrap(self.havoc_val(n, t))
                    self.st.objs[v.oid][n] = nv
                    for w in self.writes:
                        w.add(("fld", v.oid, n))
        elif isinstance(v, Val):
            # captured immutable variable rebound by the function
            raise Unsupported("modifies of a value")

    def havoc_ref(self, r):
        t, z = self.content(r, True)
        if open_type(t):
            raise Unsupported("modified container of unknown type")
        if z is None:
            self.content(r)
        self.put(r, self.havoc_val("mod", t).z)
        self.bump(r)

    def pass_arg(self, v, t, mutated=False):
        t = res(t)
        if t.kind == "fun":
            return self.pass_fun(v, t)
        if isinstance(v, ObjV):
            return v
        if isinstance(v, Ref):
            vt, z = self.content(v, True)
            if z is None:
                if vt.kind == "cls" or t.kind == "cls":
                    if vt.kind == t.kind and vt != t:
                        raise Unsupported("argument class")
                if t.kind == vt.kind or vt.kind == "var":
                    unify(vt, t)
                elif t.kind == "opt":
                    unify(vt, t.args[0])
                elif t.kind == "list":
                    unify(vt.args[0], t.args[0])
                vt, z = self.content(v)
            if vt == t:
                return v
            if t.kind == "list" and vt.kind in ("set", "dict", "iter",
                                                "list"):
                if mutated:
                    raise Unsupported("argument type")
                return self.alloc(self.coerce(self.as_list(v), t))
            if vt.kind == "cls" or t.kind == "cls":
                x = res(MODELS[vt.name]) if vt.kind == "cls" else vt
                if x == t and not mutated:
                    return self.alloc(Val(t, z))
            if t.kind == "iter" and vt.kind == "list":
                return self.alloc(self.coerce(v, t))
            if t.kind == "opt" and not mutated:
                return self.coerce(v, t)
            if self.viewable(vt, t) and not mutated:
                k = z3.Const(self.fresh_name("k"), d_dom(z).sort().domain())
                i, j = z3.Ints("%s %s" % (self.fresh_name("i"),
                                          self.fresh_name("j")))
                l = z3.Select(d_val(z), k)
                self.emit(z3.ForAll([k, i, j], z3.Implies(
                    z3.And(z3.Select(d_dom(z), k), 0 <= i, i < j,
                           j < l_len(l)), l_get(l, i) != l_get(l, j))),
                    "neighbour lists without repetitions", "precondition")
                return self.alloc(Val(t, lib.asgraph(z, vt, t)))
            raise Unsupported("argument of type %r for %r" % (vt, t))
        if isinstance(v, (SeqV, DomV)) and t.kind == "list":
            return self.alloc(self.coerce(self.as_list(v), t))
        if isinstance(v, PyTuple) and t.kind == "list":
            v = self.coerce(v, t)
            a = self.fresh("args", l_arr(v.z).sort())
            for i in range(z3.simplify(l_len(v.z)).as_long()):
                self.pc.append(z3.Select(a, i) ==
                               z3.simplify(l_get(v.z, I(i))))
            return self.alloc(Val(t, l_mk(sort(t), l_len(v.z), a)))
        if isinstance(v, Val) and res(v.ty).kind == "opt" and \
                t.kind != "opt":
            v = self.unopt(v)
        v = self.coerce(v, t)
        return self.wrap(v)

    def pass_fun(self, v, t):
        """A function argument, seen as a total mathematical function."""
        if isinstance(v, FunV):
            return v
        if isinstance(v, (Closure, Builtin)):
            args, ret = t.args[:-1], t.args[-1]
            n = self.fresh_name("fn")
            xs = [z3.Const("%s_a%d" % (n, i), sort(a))
                  for i, a in enumerate(args)]
            self.pure += 1
            for x in xs:
                self.generic.append((x, TRUE))
            mark = len(self.pc)
            try:
                r = self.call(v, [Val(a, x) for a, x in zip(args, xs)], {})
                r = self.coerce(r, ret)
            finally:
                facts = self.pc[mark:]
                del self.pc[mark:]
                self.pure -= 1
                for x in xs:
                    self.generic.pop()
            d = z3.Function(n, *([sort(a) for a in args] + [sort(ret)]))
            for f in facts:
                self.pc.append(z3.ForAll(xs, f))
            self.pc.append(z3.ForAll(xs, d(*xs) == r.z,
                                     patterns=[d(*xs)]))
            return FunV(d, args, ret)
        raise Unsupported("function argument")

    # ---------------------------------------------------------- classes
    def instantiate(self, c, args, kw, node):
        k = REG.klasses.get(c.key)
        if k is not None and k.key != getattr(self, "own_class", None):
            # model object
            for con in REG.contracts.get(c.key + ".__init__", ()):
                r = self.alloc(self.havoc_val("new", T("cls", (), k.name)))
                m = self.find_method(c.key, "__init__")
                if m is not None:
                    b, given, names = self.bind(m, [r] + args, kw, c.mod)
                else:
                    b, given = {"self": r}, {"self"}
                ps = [n for n, _ in con.params]
                if all(g in ps for g in given) and self.fits(con, b):
                    self.call_contract(con, b, Closure(m, None, c.mod,
                                                       con.key))
                    return r
            raise Unsupported("no contract for constructing " + c.key)
        m = self.find_method(c.key, "__init__")
        o = self.new_obj(c.key, {})
        for w in self.writes:
            pass
        if m is not None:
            cons = REG.contracts.get(c.key + ".__init__", ())
            mk = self.method_key(c.key, "__init__")
            self.inline(Closure(m, None, c.mod, mk), [o] + args, kw, node)
        elif args or kw:
            raise Unsupported("constructor arguments")
        return o

    def call_method(self, recv, name, args, kw, node=None):
        if isinstance(recv, ObjV):
            cls = recv.cls
        else:
            t = self.content(recv, True)[0] if isinstance(recv, Ref) \
                else res(recv.ty)
            cls = REG.byclass[t.name].key
        m = self.find_method(cls, name)
        if m is None:
            if not isinstance(recv, ObjV) and name in ("__contains__",
                                                       "__len__"):
                pass
            raise Unsupported("method %s of %s" % (name, cls))
        if not isinstance(m, ast.FunctionDef):
            v = self.getattr(recv, name)
            return self.call(v, args, kw, node)
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod"
                     for d in m.decorator_list)
        full = list(args) if static else [recv] + list(args)
        mkey = self.method_key(cls, name)
        mod = ".".join(mkey.split(".")[:2])
        c = Closure(m, None, mod, mkey)
        for key in (cls + "." + name, mkey):
            for con in REG.contracts.get(key, ()):
                b, given, names = self.bind(m, full, kw, mod)
                ps = [n for n, _ in con.params]
                if all(g in ps for g in given) and self.fits(con, b):
                    return self.call_contract(con, b, c)
        if isinstance(recv, ObjV):
            return self.inline(c, full, kw, node)
        raise Unsupported("no contract for %s.%s" % (cls, name))

    # --------------------------------------------------------- builtins
    def builtin(self, name, args, kw, node):
        m = getattr(self, "bi_" + name.replace(".", "_"), None)
        if m is None:
            raise Unsupported("builtin %s" % name)
        return m(args, kw)

    def noargs(self, kw):
        if kw:
            raise Unsupported("keyword arguments")

    def bi_len(self, a, kw):
        v = a[0]
        if isinstance(v, PyTuple):
            return Val(INT, I(len(v.items)))
        if isinstance(v, ObjV):
            return self.call_method(v, "__len__", [], {})
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if z is None:
                return Val(INT, I(0))
        if isinstance(v, SeqV):
            return Val(INT, v.n)
        v2 = self.to_val(v)
        t = res(v2.ty)
        if t.kind == "opt":
            v2 = self.unopt(v2)
            t = res(v2.ty)
        if t.kind == "cls":
            return self.call_method(v, "__len__", [], {})
        if t.kind == "list":
            return Val(INT, l_len(v2.z))
        if t.kind == "set":
            self.pc.append(card(v2.z) >= 0)
            return Val(INT, card(v2.z))
        if t.kind == "dict":
            self.pc.append(card(d_dom(v2.z)) >= 0)
            return Val(INT, card(d_dom(v2.z)))
        if t.kind == "tuple":
            return Val(INT, I(len(t.args)))
        raise Unsupported("len of %r" % (t,))

    def bi_range(self, a, kw):
        zs = [self.coerce(self.plain(x), INT).z for x in a]
        step = 1
        if len(zs) == 1:
            lo, hi = I(0), zs[0]
        else:
            lo, hi = zs[0], zs[1]
        if len(zs) == 3:
            s = z3.simplify(zs[2])
            if not z3.is_int_value(s):
                self.emit(zs[2] > 0, "range step is positive", "safety")
                st = zs[2]
                n = z3.If(hi > lo, (hi - lo + st - 1) / st, I(0))
                return SeqV(n, lambda k: Val(INT, lo + k * st), INT)
            step = s.as_long()
        if step == 1:
            q = SeqV(z3.If(hi > lo, hi - lo, I(0)),
                     lambda k: Val(INT, lo + k), INT, kind="range")
            q.lo, q.hi = lo, hi
            return q
        if step == -1:
            return SeqV(z3.If(lo > hi, lo - hi, I(0)),
                        lambda k: Val(INT, lo - k), INT)
        if step > 0:
            return SeqV(z3.If(hi > lo, (hi - lo + step - 1) / step, I(0)),
                        lambda k: Val(INT, lo + k * step), INT)
        raise Unsupported("range step")

    def bi_list(self, a, kw):
        if not a:
            return self.alloc(Val(T("list", [tvar()]), None))
        if isinstance(a[0], Ref):
            t = self.content(a[0], True)[0]
            if t.kind == "list" and holds(t.args[0]):
                self.freeze_inner(a[0])
        v = self.as_list(a[0])
        r = self.alloc(v)
        if v.z is not None and holds(res(v.ty).args[0]):
            self.st.shared.add(r.cid)
        return r

    def bi_tuple(self, a, kw):
        if not a:
            return PyTuple([])
        if isinstance(a[0], PyTuple):
            return a[0]
        r = self.alloc(self.as_list(a[0]))
        self.st.frozen.add(r.cid)
        return r

    def bi_set(self, a, kw):
        if not a:
            return self.alloc(Val(T("set", [tvar()]), None))
        return self.alloc(self.as_set(a[0]))

    def bi_frozenset(self, a, kw):
        """Frozen sets of opaque objects are opaque objects themselves."""
        if len(a) == 1:
            s = self.as_set(a[0])
            if s.z is not None and res(s.ty).args[0] == OBJ:
                if self.pure:
                    raise Unsupported("frozenset inside of a comprehension")
                kd, mem, box = lib.fset()
                z = self.name_set(s.z)
                o = box(z)
                # only finite sets get here, so this is consistent
                self.assume(z3.And(kd(o) == 5, mem(o) == z))
                return Val(OBJ, o)
        return self.bi_set(a, kw)

    def name_set(self, z):
        if z3.is_const(z):
            return z
        c = self.fresh("fs", z.sort())
        self.pc.append(c == z)
        return c

    def thaw(self, v):
        """The members of an opaque object that must be a frozen set."""
        kd, mem, box = lib.fset()
        self.emit(kd(v.z) == 5, "is a frozenset", "safety")
        self.assume(kd(v.z) == 5)
        return Val(T("set", [OBJ]), mem(v.z))

    def as_set(self, v):
        if isinstance(v, PyTuple):
            v = self.to_listval(v)
            if v.z is None:
                return Val(T("set", [tvar()]), None)
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if z is None:
                return Val(T("set", [t.args[0]]), None)
        if isinstance(v, (Ref, Val)):
            x = self.to_val(v)
            t = res(x.ty)
            if t.kind == "set":
                return x
            if t == OBJ:
                return self.thaw(x)
            if t.kind == "dict":
                return Val(T("set", [t.args[0]]), d_dom(x.z))
            if t.kind == "cls":
                m = res(MODELS[t.name])
                key = REG.byclass[t.name].key + ".__iter__"
                if key not in REG.contracts:
                    return self.as_set(Val(m, x.z))
        if isinstance(v, DomV) and v.wrap is None:
            return Val(T("set", [v.elt]), v.dom)
        l = self.as_list(v)
        t = res(l.ty)
        return Val(T("set", [t.args[0]]), self.range_set(l))

    def range_set(self, l):
        """The set of the elements of a list."""
        srt = l.z.sort()
        es = sort(res(l.ty).args[0])
        n = "elems_" + lib.san(srt)
        new = n not in lib._F
        f = lib.fn_decl(n, [srt], z3.ArraySort(es, z3.BoolSort()))
        if new:
            L, x, i = z3.Const("L_", srt), z3.Const("x_", es), z3.Int("i_")
            w = lib.fn_decl("where_" + lib.san(srt), [srt, es],
                            z3.IntSort())
            lib.axioms(n, FA([L, x], z3.Implies(
                z3.Select(f(L), x),
                z3.And(0 <= w(L, x), w(L, x) < l_len(L),
                       l_get(L, w(L, x)) == x)), [z3.Select(f(L), x)]),
                FA([L, i], z3.Implies(
                    z3.And(0 <= i, i < l_len(L)),
                    z3.Select(f(L), l_get(L, i))),
                   [z3.MultiPattern(f(L), l_get(L, i))]))
        return f(l.z)

    def spb_elems(self, a, env):
        l = self.to_val(self.sv(a[0], env))
        t = res(l.ty)
        return Val(T("set", [t.args[0]]), self.range_set(l))

    def bi_dict(self, a, kw):
        if not a:
            return self.alloc(Val(T("dict", [tvar(), tvar()]), None))
        v = a[0]
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if t.kind == "dict":
                if any(holds(x) for x in t.args):
                    self.freeze_inner(v)
                r = self.alloc(Val(t, z))
                if any(holds(x) for x in t.args):
                    self.st.shared.add(r.cid)
                return r
        l = self.as_list(v)
        t = res(l.ty)
        e = res(t.args[0])
        if e.kind == "tuple" and len(e.args) == 2:
            ty = T("dict", e.args)
            R = self.fresh("dict", sort(ty))
            i = z3.Const(self.fresh_name("i"), z3.IntSort())
            y = z3.Const(self.fresh_name("y"), sort(e.args[0]))
            w = self.fresh_fn("w", [sort(e.args[0])], z3.IntSort())
            ke = _field(l_get(l.z, i), 0)
            self.pc.append(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < l_len(l.z)),
                z3.And(z3.Select(d_dom(R), ke), i <= w(ke))),
                patterns=[l_get(l.z, i)]))
            self.pc.append(z3.ForAll([y], z3.Implies(
                z3.Select(d_dom(R), y), z3.And(
                    0 <= w(y), w(y) < l_len(l.z),
                    _field(l_get(l.z, w(y)), 0) == y,
                    z3.Select(d_val(R), y) ==
                    _field(l_get(l.z, w(y)), 1))),
                patterns=[z3.Select(d_dom(R), y)]))
            return self.alloc(Val(ty, R))
        raise Unsupported("dict()")

    def keyfn(self, kw, a=None):
        k = kw.get("key")
        if k is None or (isinstance(k, Val) and res(k.ty).kind == "none"):
            return lambda x: x

        if isinstance(k, CmpKey):
            return lambda x: CmpKey(k.cmp, x)

        def f(x):
            self.pure += 1
            try:
                return self.call(k, [x], {})
            finally:
                self.pure -= 1
        return f

    def bi_functools_cmp_to_key(self, a, kw):
        return CmpKey(a[0])

    def call_cmp(self, c, x, y):
        return self.call(c, [x, y], {})

    def bi_min(self, a, kw):
        return self.minmax(a, kw, True)

    def bi_max(self, a, kw):
        return self.minmax(a, kw, False)

    def minmax(self, a, kw, mn):
        key = self.keyfn({k: v for k, v in kw.items() if k == "key"})
        if len(a) > 1:
            r = a[0]
            for x in a[1:]:
                kx, kr = key(x), key(r)
                c = self.less(kx, kr) if mn else self.less(kr, kx)
                r = self.if_val(c, x, r)
            return r
        if "default" in kw:
            raise Unsupported("min/max default")
        src = a[0]
        if isinstance(src, DomV) or (isinstance(src, (Ref, Val)) and res(
                self.to_val(src).ty).kind in ("set", "dict")):
            s = self.as_set(src) if not isinstance(src, DomV) or \
                src.wrap is None else None
            if s is not None:
                et = res(s.ty).args[0]
                self.may_raise("ValueError", card(s.z) > 0,
                               "min/max of nonempty")
                m = self.fresh("ext", sort(et))
                self.pc.append(z3.Select(s.z, m))
                x = z3.Const(self.fresh_name("x"), sort(et))
                self.pure += 1
                self.generic.append((x, z3.Select(s.z, x)))
                mark = len(self.pc)
                self.pc.append(z3.Select(s.z, x))
                kx = key(Val(et, x))
                km = key(Val(et, m))
                c = self.less(km, kx, False) if mn else \
                    self.less(kx, km, False)
                facts = self.pc[mark + 1:]
                del self.pc[mark:]
                self.generic.pop()
                self.pure -= 1
                self.pc.append(z3.ForAll([x], z3.Implies(
                    z3.Select(s.z, x), z3.And([c] + facts))))
                return Val(et, m)
        l = self.as_list(src)
        t = res(l.ty)
        if l.z is None:
            self.may_raise("ValueError", FALSE, "min/max of nonempty")
            raise PathEnd()
        self.may_raise("ValueError", l_len(l.z) > 0, "min/max of nonempty")
        j = self.fresh("arg", z3.IntSort())
        self.pc.append(z3.And(0 <= j, j < l_len(l.z)))
        m = l_get(l.z, j)
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        km = key(Val(t.args[0], m))
        rng = z3.And(0 <= i, i < l_len(l.z))
        self.pure += 1
        self.generic.append((i, rng))
        mark = len(self.pc)
        self.pc.append(rng)
        ki = key(Val(t.args[0], l_get(l.z, i)))
        facts = self.pc[mark + 1:]
        del self.pc[mark:]
        self.generic.pop()
        self.pure -= 1
        c = self.less(km, ki, False) if mn else self.less(ki, km, False)
        # the first extreme element is returned
        d = self.less(km, ki, True) if mn else self.less(ki, km, True)
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < l_len(l.z)),
            z3.And([c, z3.Implies(i < j, d)] + facts)),
            patterns=[l_get(l.z, i)]))
        return Val(t.args[0], m)

    def bi_abs(self, a, kw):
        z = self.coerce(a[0], INT).z
        return Val(INT, z3.If(z < 0, -z, z))

    def bi_bool(self, a, kw):
        return Val(BOOL, self.truth(a[0]))

    def bi_int(self, a, kw):
        v = self.to_val(a[0])
        if res(v.ty).kind in ("int", "bool"):
            return self.coerce(v, INT)
        raise Unsupported("int()")

    def bi_sum(self, a, kw):
        l = self.as_list(a[0])
        if l.z is None:
            return Val(INT, I(0))
        if res(l.ty).args[0].kind == "bool":
            raise Unsupported("sum of booleans")
        r = lib.list_sum(l.z)(l.z, l_len(l.z))
        if len(a) > 1:
            r = r + self.coerce(a[1], INT).z
        return Val(INT, r)

    def bi_reversed(self, a, kw):
        s = self.iter_seq(a[0])
        return SeqV(s.n, lambda k: s.get(s.n - 1 - k), s.elt, src=s.src)

    def bi_enumerate(self, a, kw):
        s = self.iter_seq(a[0])
        st = I(0)
        if len(a) > 1:
            st = self.coerce(a[1], INT).z
        return SeqV(s.n, lambda k: PyTuple([Val(INT, st + k), s.get(k)]),
                    T("tuple", [INT, s.elt]) if s.elt is not None else None,
                    src=s.src)

    def bi_zip(self, a, kw):
        ss = [self.iter_seq(x) for x in a]
        n = ss[0].n
        for s in ss[1:]:
            n = z3.If(s.n < n, s.n, n)
        return SeqV(n, lambda k: PyTuple([s.get(k) for s in ss]),
                    T("tuple", [s.elt for s in ss])
                    if all(s.elt is not None for s in ss) else None)

    def bi_map(self, a, kw):
        s = self.iter_seq(a[1])
        f = a[0]

        def get(k):
            self.pure += 1
            try:
                return self.call(f, [s.get(k)], {})
            finally:
                self.pure -= 1
        return SeqV(s.n, get, OBJ)

    def bi_iter(self, a, kw):
        v = a[0]
        if isinstance(v, Ref) and self.content(v, True)[0].kind == "iter":
            return v
        co = self.coroutine(v)
        if co is not None:
            return co
        l = self.as_list(v)
        if l.z is None:
            raise Unsupported("iterator over container of unknown type")
        t = T("iter", res(l.ty).args)
        return self.alloc(Val(t, sort(t).constructor(0)(l.z, I(0))))

    def bi_next(self, a, kw):
        r = a[0]
        if isinstance(r, StreamV):
            t, z = self.content(r.ref)
            item = self.havoc_val("item", r.con.yields)
            env = {"_prev": Val(t.args[0], l_get(z, I(0))), "yielded": item}
            for nm, e in r.con.each:
                self.assume(self.spf(e, env))
            self.put(r.ref, self.coerce(PyTuple([item]), t).z)
            return item
        if isinstance(r, (SeqV, DomV)):
            q = self.iter_seq(r)
            self.may_raise("StopIteration", q.n > 0, "next()")
            return q.get(I(0))
        if not isinstance(r, Ref):
            raise Unsupported("next()")
        t, z = self.content(r)
        if t.kind == "list":
            # freshly made generator used once
            self.may_raise("StopIteration", l_len(z) > 0, "next()")
            e = self.elem(r, I(0))
            self.put(r, slice_(z, I(1), l_len(z)))
            return e
        s, p = _field(z, 0), _field(z, 1)
        ok = p < l_len(s)
        if len(a) > 1:
            if self.choose(ok):
                self.put(r, sort(t).constructor(0)(s, p + 1))
                return Val(t.args[0], l_get(s, p))
            return a[1]
        self.may_raise("StopIteration", ok, "next()")
        self.put(r, sort(t).constructor(0)(s, p + 1))
        v = Val(t.args[0], l_get(s, p))
        return self.wrap(v)

    def bi_sorted(self, a, kw):
        l = self.as_list(a[0])
        if l.z is None:
            return self.alloc(l)
        return self.alloc(self.sort_list(l, kw))

    def sort_list(self, l, kw):
        rv = kw.get("reverse")
        desc = False
        if rv is not None:
            s = z3.simplify(self.truth(rv))
            if not (z3.is_true(s) or z3.is_false(s)):
                raise Unsupported("sort direction")
            desc = z3.is_true(s)
        key = self.keyfn(kw)
        t = res(l.ty)
        R = self.fresh("sorted", sort(t))
        n = l_len(l.z)
        p = self.fresh_fn("perm", [z3.IntSort()], z3.IntSort())
        q = self.fresh_fn("iperm", [z3.IntSort()], z3.IntSort())
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        j = z3.Const(self.fresh_name("j"), z3.IntSort())
        self.pc.append(l_len(R) == n)
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < n), z3.And(
                0 <= p(i), p(i) < n, l_get(R, i) == l_get(l.z, p(i)),
                q(p(i)) == i)), patterns=[l_get(R, i)]))
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < n), z3.And(
                0 <= q(i), q(i) < n, l_get(R, q(i)) == l_get(l.z, i),
                p(q(i)) == i)), patterns=[l_get(l.z, i)]))
        self.generic.append((i, TRUE))
        self.generic.append((j, TRUE))
        mark = len(self.pc)
        self.pc.append(z3.And(0 <= i, i < n, 0 <= j, j < n))
        ki = key(Val(t.args[0], l_get(R, i)))
        kj = key(Val(t.args[0], l_get(R, j)))
        facts = self.pc[mark + 1:]
        del self.pc[mark:]
        self.generic.pop()
        self.generic.pop()
        c = self.less(kj, ki, False) if desc else self.less(ki, kj, False)
        self.pc.append(z3.ForAll([i, j], z3.Implies(
            z3.And(0 <= i, i < j, j < n), z3.And([c] + facts)),
            patterns=[z3.MultiPattern(l_get(R, i), l_get(R, j))]))
        return Val(t, R)

    def bi_isinstance(self, a, kw):
        if isinstance(a[1], ClassV):
            k = REG.klasses.get(a[1].key)
            if k is not None and k.boxed and isinstance(a[0], Val) and \
                    res(a[0].ty) == OBJ:
                return Val(BOOL, self.boxfns(k)[2](a[0].z))
            if isinstance(a[0], ObjV):
                return Val(BOOL, z3.BoolVal(a[0].cls == a[1].key))
            if isinstance(a[0], Val) and res(a[0].ty).kind == "data":
                d = DATA[res(a[0].ty).name]
                if a[1].key in d.get("isclass", {}):
                    ci = d["isclass"][a[1].key]
                    return Val(BOOL, sort(a[0].ty).recognizer(ci)(a[0].z))
        if isinstance(a[1], Builtin) and isinstance(a[0], Val):
            t = res(a[0].ty)
            if t.kind == "int":
                return Val(BOOL, z3.BoolVal(a[1].name == "int"))
        raise Unsupported("isinstance")

    def bi_hash(self, a, kw):
        f = lib.fn_decl("hash_Obj", [sort(OBJ)], z3.IntSort())
        return Val(INT, f(self.coerce(a[0], OBJ).z))

    def bi_object(self, a, kw):
        """A new object different from everything mentioned so far."""
        o = self.fresh("object", sort(OBJ))
        stamp = lib.fn_decl("born", [sort(OBJ)], z3.IntSort())
        return Val(OBJ, o)

    def bi_print(self, a, kw):
        return NoneV

    def bi_any(self, a, kw):
        l = self.as_list(a[0])
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        e = self.truth(Val(res(l.ty).args[0], l_get(l.z, i)))
        return Val(BOOL, z3.Exists([i], z3.And(0 <= i, i < l_len(l.z), e)))

    def bi_all(self, a, kw):
        l = self.as_list(a[0])
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        e = self.truth(Val(res(l.ty).args[0], l_get(l.z, i)))
        return Val(BOOL, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < l_len(l.z)), e)))

    def bi_collections_deque(self, a, kw):
        return self.bi_list(a, kw)

    def bi_itertools_chain(self, a, kw):
        v = None
        for x in a:
            l = self.as_list(x)
            v = l if v is None else self.arith(ast.Add(), v, l)
        return self.alloc(v)

    def bi_bisect_bisect_left(self, a, kw):
        return self.bisect(a, True)

    def bi_bisect_bisect_right(self, a, kw):
        return self.bisect(a, False)

    bi_bisect_bisect = bi_bisect_bisect_right

    def bisect(self, a, left):
        l = self.to_val(a[0])
        t = res(l.ty)
        n = l_len(l.z)
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        j = z3.Const(self.fresh_name("j"), z3.IntSort())
        e = lambda q: Val(t.args[0], l_get(l.z, q))
        self.emit(z3.ForAll([i, j], z3.Implies(
            z3.And(0 <= i, i < j, j < n), self.less(e(i), e(j), False))),
            "bisect in a sorted list", "safety")
        r = self.fresh("bis", z3.IntSort())
        self.pc.append(z3.And(0 <= r, r <= n))
        if left:
            before, after = self.less(e(i), a[1]), \
                self.less(a[1], e(i), False)
        else:
            before, after = self.less(e(i), a[1], False), \
                self.less(a[1], e(i))
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < r), before), patterns=[l_get(l.z, i)]))
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(r <= i, i < n), after), patterns=[l_get(l.z, i)]))
        return Val(INT, r)

    # ------------------------------------------------ container methods
    def container_method(self, r, name, args, kw, node):
        if isinstance(r, Ref):
            t, z = self.content(r, True)
        else:
            if isinstance(r, (SeqV, DomV)):
                raise Unsupported("method %s of an iterator" % name)
            v = self.to_val(r)
            if res(v.ty).kind == "opt":
                v = self.unopt(v)
                r = v
            t, z = res(v.ty), v.z
        m = getattr(self, "m_%s_%s" % (t.kind, name), None)
        if m is None:
            raise Unsupported("method %s of %r" % (name, t))
        return m(r, args, kw)

    def list_append(self, r, v, alias=True):
        t, z = self.content(r, True)
        if z is None:
            self.unify_to(t.args[0], v)
            if open_type(res(t)):
                raise Unsupported("list of containers of unknown type")
            t, z = self.content(r)
        e = self.store_val(v, t.args[0])
        t, z = self.content(r)
        n = l_len(z)
        self.put(r, l_mk(sort(t), n + 1, z3.Store(l_arr(z), n,
                                                  self.term(e))))
        if alias:
            self.forward(v, r, ("l", n))

    def m_list_append(self, r, a, kw):
        self.list_append(r, a[0])
        return NoneV

    def list_extend(self, r, v):
        t, z = self.content(r, True)
        l = self.as_list(v)
        if l.z is None:
            return
        if z is None:
            unify(t, l.ty)
            t, z = self.content(r)
        l = self.coerce(l, t)
        if holds(t.args[0]):
            raise Unsupported("extending a list of containers")
        self.put(r, concat(z, l.z))

    def m_list_extend(self, r, a, kw):
        self.list_extend(r, a[0])
        return NoneV

    def m_list_pop(self, r, a, kw):
        t, z = self.content(r, True)
        if z is None:
            self.may_raise("IndexError", FALSE, "pop from empty list")
            raise PathEnd()
        n = l_len(z)
        if a:
            i = self.coerce(a[0], INT).z
            s = z3.simplify(i)
            if not (z3.is_int_value(s) and s.as_long() == -1):
                self.may_raise("IndexError", z3.And(-n <= i, i < n),
                               "pop index")
                i = self.nonneg(i, n)
                v = Val(t.args[0], l_get(z, i))
                self.put(r, ldelete(z, i))
                self.bump(r)
                return self.wrap(v)
        self.may_raise("IndexError", n > 0, "pop from empty list")
        v = Val(t.args[0], l_get(z, n - 1))
        self.put(r, l_mk(sort(t), n - 1, l_arr(z)))
        self.bump(r)
        return self.wrap(v)

    def m_list_popleft(self, r, a, kw):
        return self.m_list_pop(r, [Val(INT, I(0))], kw)

    def m_list_appendleft(self, r, a, kw):
        return self.m_list_insert(r, [Val(INT, I(0)), a[0]], kw)

    def m_list_insert(self, r, a, kw):
        t, z = self.content(r, True)
        if z is None:
            self.unify_to(t.args[0], a[1])
            t, z = self.content(r)
        i = self.coerce(a[0], INT).z
        n = l_len(z)
        e = self.store_val(a[1], t.args[0])
        if isinstance(a[1], Ref):
            raise Unsupported("inserting a container")
        i = z3.If(i < 0, z3.If(i + n < 0, I(0), i + n), z3.If(i > n, n, i))
        self.put(r, linsert(z, z3.simplify(i) if z3.is_int_value(
            z3.simplify(i)) else i, self.term(e)))
        self.bump(r)
        return NoneV

    def m_list_reverse(self, r, a, kw):
        t, z = self.content(r, True)
        if z is None:
            return NoneV
        self.put(r, rev(z))
        self.bump(r)
        return NoneV

    def m_list_sort(self, r, a, kw):
        t, z = self.content(r, True)
        if z is None:
            return NoneV
        self.put(r, self.sort_list(Val(t, z), kw).z)
        self.bump(r)
        return NoneV

    def m_list_index(self, r, a, kw):
        v = self.to_val(r)
        t = res(v.ty)
        x = self.coerce(a[0], t.args[0])
        self.may_raise("ValueError", self.member(x, v), "list.index")
        j = self.fresh("where", z3.IntSort())
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        self.pc.append(z3.And(0 <= j, j < l_len(v.z),
                              l_get(v.z, j) == x.z))
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < j), l_get(v.z, i) != x.z),
            patterns=[l_get(v.z, i)]))
        return Val(INT, j)

    def m_list_remove(self, r, a, kw):
        j = self.m_list_index(r, a, kw)
        t, z = self.content(r)
        self.put(r, ldelete(z, j.z))
        self.bump(r)
        return NoneV

    def m_list_copy(self, r, a, kw):
        return self.bi_list([r], {})

    def m_list_clear(self, r, a, kw):
        t, z = self.content(r, True)
        if z is not None:
            self.put(r, empty(t))
            self.bump(r)
        return NoneV

    m_set_clear = m_list_clear
    m_dict_clear = m_list_clear

    # sets
    def set_open(self, r, v):
        t, z = self.content(r, True)
        if z is None:
            self.unify_to(t.args[0], v)
        return self.content(r)

    def m_set_add(self, r, a, kw):
        t, z = self.set_open(r, a[0])
        x = self.term(self.coerce(self.plain_key(a[0], t.args[0]),
                                  t.args[0]))
        self.put(r, z3.Store(z, x, TRUE))
        return NoneV

    def m_set_discard(self, r, a, kw):
        t, z = self.set_open(r, a[0])
        x = self.coerce(a[0], t.args[0]).z
        self.put(r, z3.Store(z, x, FALSE))
        return NoneV

    def m_set_remove(self, r, a, kw):
        t, z = self.set_open(r, a[0])
        x = self.coerce(self.plain_key(a[0], t.args[0]), t.args[0]).z
        self.may_raise("KeyError", z3.Select(z, x), "set.remove")
        self.put(r, z3.Store(z, x, FALSE))
        return NoneV

    def m_set_pop(self, r, a, kw):
        t, z = self.content(r, True)
        if z is None:
            self.may_raise("KeyError", FALSE, "pop from empty set")
            raise PathEnd()
        self.may_raise("KeyError", card(z) > 0, "pop from empty set")
        x = self.fresh("popped", sort(t.args[0]))
        self.pc.append(z3.Select(z, x))
        self.put(r, z3.Store(z, x, FALSE))
        return Val(t.args[0], x)

    def m_set_update(self, r, a, kw):
        for v in a:
            s = self.as_set(v)
            t, z = self.content(r, True)
            if s.z is None:
                continue
            if z is None:
                unify(t, s.ty)
                t, z = self.content(r)
            self.put(r, setop("or", z, self.coerce(s, t).z))
        return NoneV

    def set_bin(self, op, r, a):
        v = self.to_val(r)
        z = v.z
        for x in a:
            s = self.as_set(x)
            if s.z is None:
                s = Val(v.ty, empty(res(v.ty)))
            z = setop(op, z, self.coerce(s, v.ty).z)
        return self.alloc(Val(v.ty, z))

    def m_set_union(self, r, a, kw):
        return self.set_bin("or", r, a)

    def m_set_intersection(self, r, a, kw):
        return self.set_bin("and", r, a)

    def m_set_difference(self, r, a, kw):
        return self.set_bin("sub", r, a)

    def m_set_copy(self, r, a, kw):
        return self.alloc(self.to_val(r))

    def m_set_issubset(self, r, a, kw):
        return Val(BOOL, self.less(self.to_val(r), self.as_set(a[0]),
                                   False))

    def m_set_difference_update(self, r, a, kw):
        for x in a:
            s = self.as_set(x)
            t, z = self.content(r)
            if s.z is not None:
                self.put(r, setop("sub", z, s.z))
        return NoneV

    # dictionaries
    def dict_keys(self, r):
        t, z = self.content(r, True) if isinstance(r, Ref) else (
            res(r.ty), r.z)
        return t, z

    def m_dict_keys(self, r, a, kw):
        t, z = self.dict_keys(r)
        if z is None:
            return PyTuple([])
        return DomV(d_dom(z), t.args[0],
                    src=r if isinstance(r, Ref) else None)

    m_dict_iterkeys = m_dict_keys

    def m_dict___iter__(self, r, a, kw):
        return self.bi_iter([r], {})

    def m_dict_values(self, r, a, kw):
        t, z = self.dict_keys(r)
        if z is None:
            return PyTuple([])
        return DomV(d_dom(z), t.args[0],
                    wrap=lambda k: self.dict_at(r, t, z, k),
                    src=r if isinstance(r, Ref) else None)

    def dict_at(self, r, t, z, k):
        if res(t.args[1]).kind in MUTABLE and isinstance(r, Ref) and \
                not self.pure:
            q = self.follow(r)
            return Ref(q.cid, q.path + (("d", k.z),), self.st.ver[q.cid])
        if isinstance(r, Ref):
            t, z = self.content(r)
        v = Val(t.args[1], z3.Select(d_val(z), k.z))
        return v

    def m_dict_items(self, r, a, kw):
        t, z = self.dict_keys(r)
        if z is None:
            return PyTuple([])
        return DomV(d_dom(z), t.args[0], wrap=lambda k: PyTuple(
            [k, self.dict_at(r, t, z, k)]),
            src=r if isinstance(r, Ref) else None)

    def m_dict_get(self, r, a, kw):
        t, z = self.dict_keys(r)
        d = a[1] if len(a) > 1 else NoneV
        if z is None:
            return d
        k = self.coerce(self.plain_key(a[0], t.args[0]), t.args[0])
        has = z3.Select(d_dom(z), self.term(k))
        if res(t.args[1]).kind in MUTABLE or isinstance(d, (Ref, PyTuple)):
            if self.choose(has):
                return self.getitem(r, k)
            return d
        v = Val(t.args[1], z3.Select(d_val(z), self.term(k)))
        return self.if_val(has, v, d)

    def m_dict_setdefault(self, r, a, kw):
        t, z = self.dict_keys(r)
        if z is None:
            self.setitem(r, a[0], a[1])
            return self.getitem(r, a[0])
        k = self.coerce(a[0], t.args[0])
        if self.choose(z3.Select(d_dom(z), self.term(k))):
            return self.getitem(r, a[0])
        self.setitem(r, a[0], a[1])
        return self.getitem(r, a[0])

    def m_dict_pop(self, r, a, kw):
        t, z = self.dict_keys(r)
        if z is None:
            if len(a) > 1:
                return a[1]
            self.may_raise("KeyError", FALSE, "dict.pop")
            raise PathEnd()
        k = self.coerce(self.plain_key(a[0], t.args[0]), t.args[0])
        if len(a) > 1:
            if not self.choose(z3.Select(d_dom(z), self.term(k))):
                return a[1]
        else:
            self.may_raise("KeyError", z3.Select(d_dom(z), self.term(k)),
                           "dict.pop")
        v = Val(t.args[1], z3.Select(d_val(z), self.term(k)))
        self.put(r, d_mk(sort(t), z3.Store(d_dom(z), self.term(k), FALSE),
                         d_val(z)))
        self.bump(r)
        return self.wrap(v)

    def m_dict_popitem(self, r, a, kw):
        t, z = self.dict_keys(r)
        if z is None:
            self.may_raise("KeyError", FALSE, "popitem")
            raise PathEnd()
        self.may_raise("KeyError", card(d_dom(z)) > 0, "popitem")
        k = self.fresh("key", sort(t.args[0]))
        self.pc.append(z3.Select(d_dom(z), k))
        v = Val(t.args[1], z3.Select(d_val(z), k))
        self.put(r, d_mk(sort(t), z3.Store(d_dom(z), k, FALSE), d_val(z)))
        self.bump(r)
        return PyTuple([Val(t.args[0], k), self.wrap(v)])

    def m_dict_copy(self, r, a, kw):
        return self.bi_dict([r], {})

    def m_dict_update(self, r, a, kw):
        t, z = self.content(r, True)
        v = a[0]
        if isinstance(v, Ref) and self.content(v, True)[1] is None:
            return NoneV
        s = self.to_val(v)
        st = res(s.ty)
        if st.kind != "dict":
            raise Unsupported("dict.update")
        if z is None:
            unify(t, st)
            t, z = self.content(r)
        if any(holds(x) for x in t.args):
            raise Unsupported("dict.update of containers")
        R = self.fresh("upd", sort(t))
        k = z3.Const(self.fresh_name("k"), sort(t.args[0]))
        inn = z3.Select(d_dom(s.z), k)
        self.pc.append(z3.ForAll([k], z3.Select(d_dom(R), k) == z3.Or(
            inn, z3.Select(d_dom(z), k)), patterns=[z3.Select(d_dom(R), k)]))
        self.pc.append(z3.ForAll([k], z3.Select(d_val(R), k) == z3.If(
            inn, z3.Select(d_val(s.z), k), z3.Select(d_val(z), k)),
            patterns=[z3.Select(d_val(R), k)]))
        self.put(r, R)
        return NoneV
