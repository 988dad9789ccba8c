"""Obligations of the functions under contract."""
import ast
import os
import z3

from . import lib
from .engine import *
from .spec import SpecMixin, SpecError
from .code import CodeMixin, COMPS, comp_loops
from .calls import CallMixin
from .ty import res, sort
from .solve import to_smt2, AXIOMS


class Verifier(SpecMixin, CodeMixin, CallMixin, Engine):
    def __init__(self, source):
        Engine.__init__(self, source)
        self.used_lemmas = set()
        self.lemma_order = set()
        self.ghost_types = {}
        self.cur_lemma = None
        self.cur_exc = "Exception"
        self.ncell0 = 0
        self.vacuity = []
        self.nomeasure = set()
        self.dropped = set()

    # ------------------------------------------------- loop numbering
    def number_loops(self, con, node, mod, cls):
        out = {}
        count = [0]
        comps = [0]

        def scope_defs(body, key):
            return {d.name: (d, key + "." + d.name)
                    for d in walk_defs(body)
                    if isinstance(d, ast.FunctionDef)}

        def walk_fn(fnode, key, mod, cls, chain, scopes, depth, active):
            scopes = scopes + [scope_defs(fnode.body, key)]
            for s in fnode.body:
                visit(s, key, mod, cls, chain, scopes, depth, active)

        def callee(n, key, mod, cls, scopes):
            if isinstance(n.func, ast.Name):
                for sc in reversed(scopes):
                    if n.func.id in sc:
                        return sc[n.func.id] + (mod, cls)
                m, nm = mod, n.func.id
                for _ in range(5):
                    try:
                        _, env = self.src.module(m)
                    except OSError:
                        return None
                    d = env.get(nm)
                    if isinstance(d, ast.FunctionDef):
                        return d, m + "." + nm, m, None
                    if isinstance(d, tuple) and d[0] == "from" and \
                            d[2] >= 1 and d[1]:
                        m, nm = "pads." + d[1], d[3]
                        continue
                    return None
            if isinstance(n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and \
                    n.func.value.id == "self" and cls:
                d = self.find_method(cls, n.func.attr)
                if isinstance(d, ast.FunctionDef):
                    k = self.method_key(cls, n.func.attr)
                    return d, k, ".".join(k.split(".")[:2]), cls
            if isinstance(n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and cls:
                # Base.method(self, ...)
                k = self.class_key(mod, n.func.value.id)
                d = k and self.find_method(k, n.func.attr)
                if isinstance(d, ast.FunctionDef):
                    k = self.method_key(k, n.func.attr)
                    return d, k, ".".join(k.split(".")[:2]), cls
            return None

        def visit(n, key, mod, cls, chain, scopes, depth, active):
            rec = lambda x: visit(x, key, mod, cls, chain, scopes, depth,
                                  active)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                return
            if isinstance(n, ast.For):
                rec(n.iter)
                count[0] += 1
                out[(chain, id(n))] = count[0]
                for s in n.body + n.orelse:
                    rec(s)
                return
            if isinstance(n, ast.While):
                count[0] += 1
                out[(chain, id(n))] = count[0]
                rec(n.test)
                for s in n.body + n.orelse:
                    rec(s)
                return
            if isinstance(n, COMPS):
                comps[0] += 1
                for i, f in enumerate(comp_loops(n)):
                    out[(chain, id(f))] = "c%d" % comps[0] + (
                        ".%d" % (i + 1) if i else "")
            for c in ast.iter_child_nodes(n):
                rec(c)
            if isinstance(n, ast.Call):
                r = callee(n, key, mod, cls, scopes)
                if r is not None:
                    d, k, m2, c2 = r
                    if (k not in REG.contracts or k in con.inline) and \
                            k not in active and \
                            depth < 8:
                        sc = scopes if m2 == mod and k.startswith(key) or \
                            any(d is x[0] for s in scopes
                                for x in s.values()) else []
                        walk_fn(d, k, m2, c2, chain + (id(n),), sc,
                                depth + 1, active | {k})
        walk_fn(node, con.key, mod, cls, (), [], 0, {con.key})
        # functions passed as arguments and methods called otherwise: loops
        # are called name.1, name.2
        methods = []
        if cls:
            try:
                methods = [d for d in self.src.find(cls)[1][-1].body
                           if isinstance(d, ast.FunctionDef)]
            except KeyError:
                pass
        for d in list(walk_defs(node.body)) + methods:
            if isinstance(d, ast.FunctionDef):
                n = 0
                for x in ast.walk(d):
                    if isinstance(x, (ast.For, ast.While)):
                        n += 1
                        out[("any", id(x))] = "%s.%d" % (d.name, n)
        return out

    # --------------------------------------------------------- function
    def verify_function(self, con):
        """Generate the obligations of a function under contract."""
        self.contract = con
        self.cur_fn = con.name
        self.cur_lemma = None
        try:
            mod, nodes = self.src.find(con.key)
        except (KeyError, OSError) as e:
            self.obls.append(Obligation("function exists", [], FALSE, 0,
                                        con.name, "missing"))
            return
        node = nodes[-1]
        cls = None
        if len(nodes) > 1 and isinstance(nodes[-2], ast.ClassDef):
            cls = con.key.rsplit(".", 1)[0]
        start = len(self.obls)
        try:
            self.loopmap = self.number_loops(con, node, mod, cls)
            self.explore(lambda: self.run_function(con, node, mod, cls,
                                                   nodes))
        except Unsupported as e:
            self.obls.append(Obligation(
                "outside of the verified subset: %s" % e, [], FALSE,
                getattr(self, "line", 0), con.name, "unsupported"))
        except RecursionError as e:
            self.obls.append(Obligation(
                "outside of the verified subset: recursion", [], FALSE,
                getattr(self, "line", 0), con.name, "unsupported"))
        return len(self.obls) - start

    def make_param(self, n, t):
        t = res(t)
        if t.kind == "fun":
            d = z3.Function(self.fresh_name(n),
                            *[sort(a) for a in t.args])
            return FunV(d, t.args[:-1], t.args[-1])
        v = self.havoc_val(n, t)
        return self.wrap(v)

    def run_function(self, con, node, mod, cls, nodes):
        own = REG.klasses.get(cls) if cls else None
        self.own_class = cls
        g = self.new_frame(None, mod, "<ghost>")
        self.ghostf = g
        self.ghost_types = dict(con.ghost)
        outer = self.new_frame(None, mod, con.key.rsplit(".", 1)[0])
        for n, t in con.captures:
            self.st.vars[outer.fid][n] = self.make_param(n, t)
        # nested functions see their siblings
        if len(nodes) > 1 and isinstance(nodes[-2], ast.FunctionDef):
            okey = con.key.rsplit(".", 1)[0]
            for d in walk_defs(nodes[-2].body):
                if isinstance(d, ast.FunctionDef) and \
                        d.name not in self.st.vars[outer.fid]:
                    self.st.vars[outer.fid][d.name] = Closure(
                        d, outer, mod, okey + "." + d.name)
        f = self.new_frame(outer, mod, con.key)
        f.locals_decl = dict(con.locals)
        self.frame = f
        names = params_of(node)
        a = node.args
        if a.vararg is not None:
            names = names + [a.vararg.arg]
        ptypes = dict(con.params)
        env = {}
        defaults = dict(zip(params_of(node)[len(a.args) - len(a.defaults):],
                            a.defaults))
        for n in names:
            if n == "self" and cls and own is not None and n in ptypes and \
                    ptypes[n].kind == "cls":
                o = self.new_obj(cls, {})
                env[n] = o
                if not con.key.endswith(".__init__"):
                    for fn_, ft in own.fields + own.gfields:
                        if fn_ in [x for x, _ in own.gfields]:
                            v = self.havoc_val(fn_, ft)
                        else:
                            v = self.make_param(fn_, ft)
                        self.st.objs[o.oid][fn_] = v
                else:
                    for fn_, ft in own.gfields:
                        self.st.objs[o.oid][fn_] = self.havoc_val(fn_, ft)
            elif n in ptypes:
                env[n] = self.make_param(n, ptypes[n])
            elif n in defaults:
                env[n] = self.ev_in_module(defaults[n], mod)
            else:
                raise Unsupported("parameter %s has no contract type" % n)
        for n in ptypes:
            if n not in env:
                raise Unsupported("no parameter %s" % n)
        self.st.vars[f.fid].update(env)
        selfv = env.get("self")
        if own and isinstance(selfv, ObjV) and not con.noinv and \
                not con.key.endswith(".__init__"):
            for nm, e in own.inv:
                self.assume(self.spf(e))
        for nm, e in con.requires:
            self.assume(self.spf(e))
        for l in con.uses:
            self.pc.append(self.lemma_closure(REG.lemmas[l]))
        for gname, gt in con.ghost.items():
            self.st.vars[g.fid][gname] = self.havoc_val(gname, gt)
        if con.decreases:
            self.cur_decr = self.coerce(self.spec(con.decreases), INT).z
        self.retframes = [(self.st.copy(), f)]
        self.params_env = dict(env)
        pcells = {v.cid for v in env.values() if isinstance(v, Ref)}
        raise_conds = {}
        for exc, cnd in con.raises.items():
            raise_conds[exc] = self.spf(cnd) if cnd is not None else None
        gen = is_generator(node)
        if gen:
            ref = self.alloc(Val(T("list", [con.yields]),
                                 empty(T("list", [con.yields]))))
            self.outs = [{"ref": ref, "top": True}]
            self.st.vars[g.fid]["out"] = ref
            self.st.vars[g.fid]["_out"] = ref
            if con.interfere:
                self.set_ghost("_pre", self.abstract(selfv))
            if con.stream:
                self.set_ghost("_prev", self.coerce(self.spec(con.stream),
                                                    con.yields))
        self.ghost(con.entry)
        self.reach("entry")
        result = NoneV
        try:
            self.block(node.body)
        except ReturnX as r:
            result = r.v
        except PyRaise as p:
            for exc, c in raise_conds.items():
                if exc_matches(p.exc, exc):
                    if c is not None:
                        self.emit(c, "raises %s only when allowed" % exc,
                                  "ensures")
                    if con.torn == "model":
                        self.emit(self.spf("same(self, old(self))"),
                                  "nothing changes when raising " + exc,
                                  "ensures")
                        for nm, e in own.inv:
                            self.emit(self.spf(e), "class invariant when "
                                      "raising %s: %s" % (exc, nm),
                                      "invariant")
                    elif not con.torn:
                        self.check_frame(con, env, True)
                    return
            self.emit(FALSE, "no uncaught %s" % p.exc, "safety")
            return
        except (BreakX, ContinueX):
            raise Unsupported("break outside of a loop")
        self.line = node.lineno
        try:
            self.finish(con, env, result, raise_conds, own, selfv, gen,
                        pcells)
        except Unsupported as e:
            self.unreachable("postcondition: %s" % e)

    def finish(self, con, env, result, raise_conds, own, selfv, gen,
               pcells):
        genv = dict(env)
        if gen:
            result = self.outs[0]["ref"]
        rt = con.returns
        if con.yields is not None:
            rt = T("list", [con.yields])
        if rt is not None:
            if isinstance(result, Ref):
                r = self.follow(result)
                if r.cid in pcells and not con.alias and not r.path:
                    raise Unsupported("returns one of its arguments")
                if con.alias and (not isinstance(env[con.alias], Ref) or
                                  r.cid != env[con.alias].cid):
                    raise Unsupported("does not return its argument %s"
                                      % con.alias)
            if isinstance(result, Ref):
                t, z = self.content(result, True)
                if t.kind == rt.kind:
                    unify(t, rt)
                if self.content(result, True)[0] != rt:
                    if rt.kind == "list" and t.kind in ("set", "dict"):
                        raise Unsupported("result type %r" % (t,))
                    if rt.kind == "iter" or t.kind == "iter":
                        result = self.coerce(result, rt)
                    else:
                        result = self.coerce(result, rt)
            elif isinstance(result, ObjV):
                k = REG.klasses.get(result.cls)
                if k is not None and result is not selfv:
                    for nm, e in k.inv:
                        self.emit(self.spf(e, {"self": result}),
                                  "class invariant of the result " + nm,
                                  "invariant")
            elif isinstance(result, (SeqV, DomV)):
                result = self.coerce(self.as_list(result), rt)
            else:
                result = self.coerce(result, rt)
            genv["result"] = result
        elif isinstance(result, Val) and res(result.ty).kind != "none":
            # result not described by the contract
            genv["result"] = result
        if gen:
            genv["out"] = result
        if con.exit:
            self.ghost(con.exit, {k: v for k, v in genv.items()})
        for exc, c in raise_conds.items():
            if c is not None:
                self.emit(z3.Not(c), "raises %s when required" % exc,
                          "ensures")
        for nm, e in con.ensures + con.ensures_own:
            self.emit(self.spf(e, genv), "ensures " + nm, "ensures")
        if own and isinstance(selfv, ObjV) and not con.noinv:
            for fn_, ft in own.fields:
                if fn_ in own.lazy:
                    now = self.st.objs[selfv.oid].get(fn_)
                    st0 = self.retframes[-1][0]
                    if now is None or now is st0.objs[
                            selfv.oid].get(fn_):
                        c = "not (%s)" % own.lazy[fn_]
                        if now is not None:
                            c += " or old(%s)" % own.lazy[fn_]
                        self.emit(self.spf(c), "field %s exists" % fn_,
                                  "safety")
                    if now is None:
                        self.st.objs[selfv.oid][fn_] = self.wrap(
                            self.havoc_val(fn_, ft))
                elif fn_ not in self.st.objs[selfv.oid]:
                    raise Unsupported("field %s not set" % fn_)
            for nm, e in own.inv:
                self.emit(self.spf(e, genv), "class invariant " + nm,
                          "invariant")
        self.check_frame(con, env)
        self.reach("exit")

    def check_frame(self, con, env, raised=False):
        """Parameters not listed in modifies keep their contents.

        Functions which raise an exception leave everything as it was."""
        st0 = self.retframes[-1][0]
        modifies = () if raised else con.modifies
        fields = {m.split(".", 1)[1] for m in modifies
                  if m.startswith("self.")}
        for n, v in list(env.items()) + [
                (c, self.lookup(c)) for c, _ in con.captures]:
            if isinstance(v, Ref) and n not in modifies:
                t0, z0 = st0.heap[v.cid]
                t1, z1 = self.st.heap[v.cid]
                if v.cid in self.st.fwd:
                    continue
                if z0 is None or z1 is None or z0.eq(z1):
                    continue
                self.emit(self.eq(Val(t1, z1), Val(t0, z0)),
                          "frame: %s is not modified" % n, "frame")
            if n == "self" and con.key.endswith(".__init__"):
                continue
            if isinstance(v, ObjV) and n not in modifies:
                for fld, cur in st0.objs[v.oid].items():
                    if fld in fields:
                        continue
                    now = self.st.objs[v.oid].get(fld)
                    if isinstance(cur, Ref):
                        if not isinstance(now, Ref) or now.cid != cur.cid:
                            self.emit(FALSE, "frame: %s.%s is not rebound"
                                      % (n, fld), "frame")
                            continue
                        t0, z0 = st0.heap[cur.cid]
                        t1, z1 = self.st.heap[cur.cid]
                        if z0 is None or z1 is None or z0.eq(z1):
                            continue
                        self.emit(self.eq(Val(t1, z1), Val(t0, z0)),
                                  "frame: %s.%s is not modified" % (n, fld),
                                  "frame")
                    elif isinstance(cur, Val):
                        if isinstance(now, Val) and now.z is not None and \
                                cur.z is not None and now.z.eq(cur.z):
                            continue
                        self.emit(self.eq(now, cur),
                                  "frame: %s.%s is not modified" % (n, fld),
                                  "frame")

    def reach(self, where):
        """Vacuity guard: this point must not be refutable."""
        if self.dry or self.dpos < self.replay_len:
            return
        self.vacuity.append((self.cur_fn, where, list(self.pc)))

    # ----------------------------------------------------------- lemmas
    def verify_lemma(self, con):
        self.contract = con
        self.cur_fn = "lemma " + con.key
        self.cur_lemma = con.key
        try:
            self.explore(lambda: self.run_lemma(con))
        except Unsupported as e:
            raise SpecError("lemma %s: %s" % (con.key, e))
        self.cur_lemma = None
        self.lemma_order.add(con.key)

    def run_lemma(self, con):
        self.ghostf = self.new_frame(None, "pads", "<ghost>")
        self.ghost_types = dict(con.ghost)
        self.frame = self.new_frame(None, "pads", con.key)
        self.own_class = None
        env = {}
        for n, t in con.params:
            env[n] = self.havoc_val(n, t)
        self.st.vars[self.frame.fid].update(env)
        for nm, e in con.requires:
            self.assume(self.spf(e))
        for l in con.uses:
            self.pc.append(self.lemma_closure(REG.lemmas[l]))
        if con.decreases:
            self.cur_decr = self.coerce(self.spec(con.decreases), INT).z
        self.retframes = [(self.st.copy(), self.frame)]
        try:
            self.ghost(con.body, env)
        except ReturnX:
            pass
        for nm, e in con.ensures:
            self.emit(self.spf(e, env), "lemma %s: %s" % (con.key, nm),
                      "lemma")
        self.reach("exit")

    # ------------------------------------------------------------ setup
    def define_funs(self):
        """Axioms of the specification functions with automatic bodies."""
        self.begin_path([], [])
        self.contract = lib.Contract("setup")
        self.cur_fn = "setup"
        self.ghostf = self.new_frame(None, "pads", "<ghost>")
        self.frame = self.new_frame(None, "pads", "setup")
        for f in REG.funs.values():
            if f.body is None or not f.auto:
                continue
            env, vs = {}, []
            for n, t in f.params:
                v = z3.Const("%s_d" % n, sort(t))
                vs.append(v)
                env[n] = Val(t, v)
            n0 = len(self.pc)
            body = self.coerce(self.spec(f.body, env), f.ret)
            if len(self.pc) != n0:
                raise SpecError("body of %s is not closed" % f.name)
            app = f.decl(*vs)
            ax = app == self.term(body)
            if vs:
                ax = z3.ForAll(vs, ax, patterns=[app])
            AXIOMS.setdefault(f.name, []).append(ax)
        for name, es in REG.extern.items():
            for e in es:
                AXIOMS.setdefault(name, []).append(self.spf(e))


class ContractSpecificError(Exception):
    pass
