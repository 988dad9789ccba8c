"""Symbolic execution of Python statements and expressions."""
import ast
import z3

from . import lib
from .lib import REG
from .engine import *
from .engine import _field
from .spec import SpecError, bnot
from .ty import NoName, res, sort, linked

MAXDEPTH = 14


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def comp_loops(node):
    """The nest of loops a comprehension stands for."""
    fs = getattr(node, "_loops", None)
    if fs is not None:
        return fs
    if isinstance(node, ast.DictComp):
        body = ast.parse("_out[_0] = _1").body
        body[0].targets[0].slice = node.key
        body[0].value = node.value
    else:
        body = ast.parse("_out.%s(_0)" % (
            "add" if isinstance(node, ast.SetComp) else "append")).body
        body[0].value.args = [node.elt]
    fs = []
    for g in reversed(node.generators):
        for c in reversed(g.ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        fs.insert(0, body[0])
    for f in fs:
        for x in ast.walk(f):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, node)
            elif hasattr(x, "end_lineno") and x.lineno == 1:
                ast.copy_location(x, node)
    node._loops = fs
    return fs


MUTATORS = ("append extend insert pop remove clear sort reverse add discard "
            "update setdefault popitem appendleft popleft "
            "difference_update intersection_update "
            "symmetric_difference_update").split()


class CodeMixin:
    # ------------------------------------------------------ exceptions
    def handled(self, exc):
        return any(exc_matches(exc, h) for hs in self.handlers for h in hs)

    def catching(self, exc):
        return self.handled(exc) or any(
            exc_matches(exc, r) for r in self.contract.raises)

    def may_raise(self, exc, ok, what):
        """The operation raises exc unless ok holds."""
        if self.pure:
            self.emit(ok, "no %s: %s" % (exc, what), "safety")
            return
        if self.catching(exc):
            if not self.choose(ok):
                raise PyRaise(exc)
            return
        self.emit(ok, "no %s: %s" % (exc, what), "safety")

    # ------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.line = getattr(s, "lineno", self.line)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            return self.unreachable("statement " + type(s).__name__)
        try:
            m(s)
        except Unsupported as e:
            self.unreachable("line %d: %s" % (self.line, e))

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Pass(self, s):
        pass

    def st_Import(self, s):
        pass

    st_ImportFrom = st_Import
    st_Global = st_Import
    st_Nonlocal = st_Import

    def st_FunctionDef(self, s):
        self.setvar(s.name, Closure(s, self.frame, self.frame.mod,
                                    self.frame.key + "." + s.name))

    def st_ClassDef(self, s):
        if len(s.bases) != 1 or not isinstance(s.bases[0], ast.Name) or \
                s.bases[0].id not in EXC_PARENTS or \
                any(not isinstance(x, ast.Pass) for x in s.body[
                    1 if ast.get_docstring(s) is not None else 0:]):
            raise Unsupported("local class")
        self.setvar(s.name, ClassV(s, self.frame.mod,
                                   self.frame.key + "." + s.name))

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.ev(s.value)
            if isinstance(cur, Ref):
                self.inplace(s.op, cur, v)
                return
            self.setvar(t.id, self.binop(s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            key = self.ev(t.slice)
            cur = self.getitem(base, key)
            v = self.ev(s.value)
            if isinstance(cur, Ref):
                self.inplace(s.op, cur, v)
                return
            self.setitem(base, key, self.binop(s.op, cur, v))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.getattr(base, t.attr)
            v = self.ev(s.value)
            if isinstance(cur, Ref):
                self.inplace(s.op, cur, v)
                return
            self.setattr_(base, t.attr, self.binop(s.op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        t, z = self.content(cur, True)
        if t.kind == "list" and isinstance(op, ast.Add):
            self.list_extend(cur, v)
        elif t.kind == "set":
            r = self.arith(op, self.to_val_t(cur, v), self.to_val(v))
            self.put(cur, r.z)
        else:
            raise Unsupported("in-place operator")

    def to_val_t(self, ref, other):
        t, z = self.content(ref, True)
        if z is None:
            unify(t, self.to_val(other).ty)
        return self.to_val(ref)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, PyTuple):
                items = v.items
            else:
                items = self.unpack(v, len(t.elts))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            if len(items) != len(t.elts):
                raise Unsupported("unpacking length")
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            if isinstance(t.slice, ast.Slice):
                return self.setslice(base, t.slice, v)
            self.setitem(base, self.ev(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, SeqV) or isinstance(v, DomV):
            v = self.seq_to_list(self.iter_seq(v))
        if isinstance(v, Ref):
            tv = self.to_val(v)
            t = res(tv.ty)
        else:
            tv = self.to_val(v)
            t = res(tv.ty)
        if t.kind == "opt":
            tv = self.unopt(tv)
            t = res(tv.ty)
        if t.kind == "tuple":
            return self.untuple(tv).items
        if linked(t):
            self.may_raise("TypeError", sort(t).recognizer(1)(tv.z),
                           "unpacking None")
            return self.untuple(tv).items
        if t.kind == "list":
            self.may_raise("ValueError", l_len(tv.z) == n, "unpacking")
            return [self.elem(v, I(i)) for i in range(n)]
        if t.kind in ("set", "dict"):
            seq = self.iter_seq(v)
            self.may_raise("ValueError", seq.n == n, "unpacking")
            return [seq.get(I(i)) for i in range(n)]
        raise Unsupported("unpacking of %r" % (t,))

    def setslice(self, base, sl, v):
        if not isinstance(base, Ref):
            raise Unsupported("slice assignment")
        t, z = self.content(base)
        if t.kind != "list" or sl.step is not None:
            raise Unsupported("slice assignment")
        lo = self.coerce(self.ev(sl.lower), INT).z if sl.lower else None
        hi = self.coerce(self.ev(sl.upper), INT).z if sl.upper else None
        new = self.coerce(self.as_list(v), t)
        cur = Val(t, z)
        n = l_len(z)
        pre = self.slice_val(cur, I(0), lo) if lo is not None else \
            Val(t, empty(t))
        if hi is None:
            r = concat(pre.z, new.z)
        else:
            # upper bound below the lower one means an empty range
            lo_ = lo if lo is not None else I(0)
            self.emit(z3.And(0 <= lo_, lo_ <= hi), "slice bounds in order",
                      "safety")
            post = self.slice_val(cur, hi, None)
            r = concat(concat(pre.z, new.z), post.z)
        self.put(base, r)
        self.bump(base)

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                if isinstance(t.slice, ast.Slice):
                    ty, z = self.content(base)
                    cur = Val(ty, z)
                    lo = self.coerce(self.ev(t.slice.lower), INT).z \
                        if t.slice.lower else I(0)
                    if t.slice.upper is None:
                        self.put(base, self.slice_val(cur, I(0), lo).z
                                 if t.slice.lower else empty(ty))
                    else:
                        hi = self.coerce(self.ev(t.slice.upper), INT).z
                        self.emit(z3.And(0 <= lo, lo <= hi),
                                  "slice bounds in order", "safety")
                        self.put(base, concat(
                            self.slice_val(cur, I(0), lo).z,
                            self.slice_val(cur, hi, None).z))
                    self.bump(base)
                    continue
                self.delitem(base, self.ev(t.slice))
            elif isinstance(t, ast.Name):
                f = self.frame
                self.st.vars[f.fid].pop(t.id, None)
                for w in self.writes:
                    w.add(("var", f.fid, t.id))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if not isinstance(o, ObjV) or self.writes or \
                        t.attr not in self.st.objs[o.oid]:
                    raise Unsupported("del of an attribute")
                del self.st.objs[o.oid][t.attr]
            else:
                raise Unsupported("del")

    def st_If(self, s):
        if self.cond(s.test):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def cond(self, test):
        """Evaluate a condition and branch."""
        if isinstance(test, ast.BoolOp) and not self.simple(test):
            if isinstance(test.op, ast.And):
                for x in test.values:
                    if not self.cond(x):
                        return False
                return True
            for x in test.values:
                if self.cond(x):
                    return True
            return False
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return not self.cond(test.operand)
        if isinstance(test, ast.Compare) and len(test.ops) > 1 and \
                not self.simple(test):
            left = test.left
            for op, r in zip(test.ops, test.comparators):
                if not self.cond(ast.copy_location(
                        ast.Compare(left, [op], [r]), test)):
                    return False
                left = r
            return True
        v = self.ev(test)
        return self.choose(self.truth(v))

    def st_Return(self, s):
        raise ReturnX(self.ev(s.value) if s.value is not None else NoneV)

    def st_Break(self, s):
        raise BreakX()

    def st_Continue(self, s):
        raise ContinueX()

    def st_Assert(self, s):
        v = self.truth(self.ev(s.test)) if not isinstance(
            s.test, ast.BoolOp) else None
        if v is None:
            if not self.cond(s.test):
                if self.catching("AssertionError"):
                    raise PyRaise("AssertionError")
                self.emit(FALSE, "assert statement", "safety")
                raise PathEnd()
            return
        if self.catching("AssertionError"):
            if not self.choose(v):
                raise PyRaise("AssertionError")
            return
        self.emit(v, "assert statement", "safety")

    def st_Raise(self, s):
        if s.exc is None:
            raise PyRaise(self.cur_exc)
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            raise PyRaise(e.id)
        raise Unsupported("raise")

    def st_Try(self, s):
        hs = []
        for h in s.handlers:
            if h.type is None:
                hs.append("BaseException")
            elif isinstance(h.type, ast.Name):
                hs.append(h.type.id)
            elif isinstance(h.type, ast.Tuple):
                hs.extend(x.id for x in h.type.elts)
        depth = len(self.handlers)
        if hs:
            self.handlers.append(hs)
        try:
            try:
                self.block(s.body)
                del self.handlers[depth:]
                self.block(s.orelse)
            except PyRaise as pr:
                inner = len(self.handlers) > depth
                del self.handlers[depth:]
                if not inner:
                    raise
                for h in s.handlers:
                    names = ["BaseException"] if h.type is None else (
                        [h.type.id] if isinstance(h.type, ast.Name) else
                        [x.id for x in h.type.elts])
                    if any(exc_matches(pr.exc, n) for n in names):
                        self.cur_exc = pr.exc
                        self.block(h.body)
                        break
                else:
                    raise
        except (ReturnX, BreakX, ContinueX, PyRaise):
            del self.handlers[depth:]
            self.block(s.finalbody)
            raise
        del self.handlers[depth:]
        self.block(s.finalbody)

    # ------------------------------------------------------------ loops
    def loop_spec(self, node):
        o = self.loopmap.get((self.frame.chain, id(node)))
        if o is None:
            o = self.loopmap.get(("any", id(node)))
        if o is None:
            return None, lib.Loop()
        sp = self.contract.loops.get(o)
        return o, sp or lib.Loop()

    def loop_invs(self, sp):
        """The invariants of a loop, with those of the class if asked."""
        if sp.selfinv:
            return REG.klasses[self.own_class].inv + sp.inv
        return sp.inv

    def check_inv(self, sp, o, when):
        for nm, e in self.loop_invs(sp):
            if (id(sp), nm) in self.dropped:
                continue
            try:
                f = self.spf(e)
            except NoName:
                if when != "on entry":
                    raise
                self.dropped.add((id(sp), nm))
                continue
            self.emit(f, "loop %s invariant %s: %s" % (o, when, nm),
                      "invariant")

    def assume_inv(self, sp):
        for nm, e in self.loop_invs(sp):
            if (id(sp), nm) not in self.dropped:
                self.assume(self.spf(e))

    def st_While(self, s):
        self.loop(s, None)

    def st_For(self, s):
        v = self.ev(s.iter)
        if isinstance(v, PyTuple):
            return self.unrolled(s, v.items)
        co = self.coroutine(v)
        if co is not None:
            return self.loop(s, None, it=co)
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if z is None:
                return self.block(s.orelse)
            if t.kind == "iter":
                return self.loop(s, None, it=v)
        seq = self.iter_seq(v)
        n = z3.simplify(seq.n)
        o, _ = self.loop_spec(s)
        if z3.is_int_value(n) and n.as_long() <= 4 and \
                o not in self.contract.loops:
            return self.unrolled(s, [seq.get(I(i))
                                     for i in range(n.as_long())])
        self.loop(s, seq)

    def unrolled(self, s, items):
        for x in items:
            self.assign(s.target, x)
            try:
                self.block(s.body)
            except BreakX:
                return
            except ContinueX:
                continue
        self.block(s.orelse)

    def loop(self, s, seq, it=None):
        o, sp = self.loop_spec(s)
        if self.dry:
            self.ghost(sp.before)
            # one arbitrary iteration, or none
            if self.decide_nd():
                try:
                    self.iteration(s, seq, it, None, sp)
                except ContinueX:
                    pass
                except BreakX:
                    return
                if not self.dry_loop_repeat:
                    raise PathEnd()
                raise PathEnd()
            if isinstance(it, CoroV):
                self.resume(it, True)
            elif seq is None and it is None:
                self.cond(s.test)
            self.ghost(sp.exit)
            self.block(s.orelse)
            return
        self.ghost(sp.before)
        entry = (self.st.copy(), self.frame)
        self.entry_states.append(entry)
        fr = self.frame
        saved = {n: self.st.vars[fr.fid].get(n) for n in
                 ("_k", "_seq", "_n")}
        try:
            self.loop_main(s, seq, it, o, sp)
        finally:
            if self.entry_states and self.entry_states[-1] is entry:
                self.entry_states.pop()
            vs = self.st.vars.get(fr.fid)
            if vs is not None:
                for n, v in saved.items():
                    if v is None:
                        vs.pop(n, None)
                    else:
                        vs[n] = v

    dry_loop_repeat = False

    def loop_main(self, s, seq, it, o, sp):
        fr = self.frame
        vs = self.st.vars[fr.fid]
        if seq is not None:
            vs["_k"] = Val(INT, I(0))
            vs["_n"] = Val(INT, seq.n)
            if seq.listz is not None:
                vs["_seq"] = seq.listz
            else:
                vs["_seq"] = seq
            if o is not None:
                g = self.st.vars[self.ghostf.fid]
                g["_seq%s" % o] = vs["_seq"]
                g["_k%s" % o] = vs["_k"]
        # what does the body write?
        written = set()
        shapes = {}
        base = self.st.copy()
        base_pc = len(self.pc)
        hav = None
        for rnd in range(6):
            w, sh = self.dry_run(lambda: self.iteration(s, seq, it, None,
                                                        sp))
            w = {k for k in w if k[1] in {
                "var": base.vars, "fld": base.objs}.get(k[0], base.heap)}
            new = w - written
            for k, v in sh.items():
                shapes.setdefault(k, []).extend(v)
            first = not written and rnd == 0
            written |= w
            if rnd > 0 and not new:
                break
            # havoc and look again with the joined types
            self.st = base.copy()
            del self.pc[base_pc:]
            self.havoc(written, shapes, base)
        else:
            raise Unsupported("loop types do not stabilise")
        self.st = base.copy()
        del self.pc[base_pc:]
        self.check_inv(sp, o, "on entry")
        src = seq.src if seq is not None else None
        frozen_dom = None
        if isinstance(src, Ref):
            r = self.follow(src)
            if ("cell", r.cid) in written:
                t, z = self.content(src)
                if t.kind == "list":
                    raise Unsupported("list modified while iterated")
                frozen_dom = d_dom(z) if t.kind == "dict" else z
        self.havoc(written, shapes, base)
        vs = self.st.vars[fr.fid]
        if seq is not None:
            k = self.fresh("k", z3.IntSort())
            vs["_k"] = Val(INT, k)
            if o is not None:
                self.st.vars[self.ghostf.fid]["_k%s" % o] = vs["_k"]
            self.assume(0 <= k)
            self.assume(k <= seq.n)
        else:
            k = None
        self.assume_inv(sp)
        self.ghost(sp.after_havoc)
        if seq is not None:
            go = self.decide_nd()
            if go:
                self.assume(k < seq.n)
        elif isinstance(it, CoroV):
            go = self.decide_nd()
        elif it is not None:
            t, z = self.content(it)
            go = self.choose(_field(z, 1) < l_len(_field(z, 0)))
        else:
            go = self.cond(s.test)
        if go:
            wr = set()
            self.writes.append(wr)
            dec = None
            if seq is None and not sp.decreases and (
                    it is None or isinstance(it, CoroV)):
                self.nomeasure.add(self.cur_fn)
            if sp.decreases:
                dec = self.coerce(self.spec(sp.decreases), INT).z
            nh = len(self.handlers)
            try:
                try:
                    self.iteration(s, seq, it, k, sp, tested=True)
                finally:
                    self.drop_writes(wr)
            except ContinueX:
                pass
            except BreakX:
                self.check_writes(wr, written, base)
                self.ghost(sp.brk)
                return
            except (ReturnX, PyRaise):
                self.check_writes(wr, written, base)
                raise
            self.check_writes(wr, written, base)
            vs = self.st.vars[fr.fid]
            self.ghost(sp.end)
            if k is not None:
                vs["_k"] = Val(INT, k + 1)
                if o is not None:
                    self.st.vars[self.ghostf.fid]["_k%s" % o] = vs["_k"]
            if frozen_dom is not None:
                t, z = self.content(src)
                self.emit((d_dom(z) if t.kind == "dict" else z) ==
                          frozen_dom, "iterated container keeps its keys",
                          "safety")
            self.check_inv(sp, o, "maintained")
            if dec is not None:
                d2 = self.coerce(self.spec(sp.decreases), INT).z
                self.emit(z3.And(dec >= 0, d2 < dec), "loop %s decreases"
                          % o, "termination")
            raise PathEnd()
        # exit
        if isinstance(it, CoroV):
            self.resume(it, True)
        if seq is not None:
            self.assume(k == seq.n)
            vs["_k"] = Val(INT, seq.n)
            self.bind_last(s.target, seq, shapes)
        self.ghost(sp.exit)
        self.block(s.orelse)

    def bind_last(self, target, seq, shapes):
        """After the loop the target keeps its last value, if any."""
        if not isinstance(target, ast.Name):
            for n in ast.walk(target):
                if isinstance(n, ast.Name):
                    self.st.vars[self.frame.fid].pop(n.id, None)
            return
        n0 = z3.simplify(seq.n)
        try:
            v = seq.get(seq.n - 1)
        except Unsupported:
            self.st.vars[self.frame.fid].pop(target.id, None)
            return
        if isinstance(v, Val):
            cur = self.st.vars[self.frame.fid].get(target.id)
            if isinstance(cur, Val) and res(cur.ty) == res(v.ty):
                self.setvar(target.id, Val(v.ty, z3.If(seq.n > 0, v.z,
                                                       cur.z)))
            else:
                c = self.fresh("last", sort(v.ty))
                self.assume(z3.Implies(seq.n > 0, c == v.z))
                self.setvar(target.id, Val(v.ty, c))
        else:
            self.st.vars[self.frame.fid].pop(target.id, None)

    def iteration(self, s, seq, it, k, sp, tested=False):
        """One execution of the loop body."""
        if seq is not None:
            if k is None:
                k = self.fresh("k", z3.IntSort())
                self.st.vars[self.frame.fid]["_k"] = Val(INT, k)
                self.st.vars[self.frame.fid]["_seq"] = \
                    seq.listz if seq.listz is not None else seq
            self.assign(s.target, seq.get(k))
        elif isinstance(it, CoroV):
            self.assign(s.target, self.wrap(self.resume(it, False)))
        elif it is not None:
            t, z = self.content(it)
            q, p = _field(z, 0), _field(z, 1)
            self.put(it, sort(t).constructor(0)(q, p + 1))
            self.assign(s.target, Val(t.args[0], l_get(q, p)))
        elif not tested:
            if not self.cond(s.test):
                self.block(s.orelse)
                raise PathEnd()
        self.ghost(sp.start)
        try:
            self.block(s.body)
        except ContinueX:
            pass
        except BreakX:
            if self.dry:
                self.ghost(sp.brk)
            raise
        if self.dry:
            self.ghost(sp.end)

    def dry_run(self, body):
        """All writes a piece of code may perform."""
        sv = (self.decisions, self.replay_len, self.dpos, self.work,
              self.pc, self.st, self.counter, self.frame, self.handlers,
              self.ncell, self.outs, self.line, self.entry_states,
              self.retframes, self.depth)
        w = set()
        shapes = {}
        self.writes.append(w)
        self.dry += 1
        work = [[]]
        n = 0
        try:
            while work:
                p = work.pop()
                n += 1
                if n > 4000:
                    raise Unsupported("too many paths in loop body")
                self.decisions, self.replay_len = list(p), len(p)
                self.dpos, self.work = 0, work
                self.pc = list(sv[4])
                self.st = sv[5].copy()
                self.frame = sv[7]
                self.handlers = [list(h) for h in sv[8]]
                self.ncell = sv[9] + 1000
                self.entry_states = list(sv[12])
                self.retframes = list(sv[13])
                self.depth = sv[14]
                try:
                    body()
                except (PathEnd, BreakX, ContinueX, ReturnX, PyRaise):
                    pass
                except Unsupported:
                    pass
                for key in w:
                    if key[0] == "var":
                        d = self.st.vars.get(key[1])
                        if d is not None and key[2] in d:
                            v = d[key[2]]
                            shapes.setdefault(key, []).append(
                                self.shape(v))
                    elif key[0] == "fld" and key[1] in sv[5].objs:
                        v = self.st.objs[key[1]].get(key[2])
                        if v is not None:
                            shapes.setdefault(key, []).append(
                                self.shape(v))
        finally:
            self.dry -= 1
            self.drop_writes(w)
            (self.decisions, self.replay_len, self.dpos, self.work, self.pc,
             self.st, self.counter, self.frame, self.handlers, self.ncell,
             self.outs, self.line, self.entry_states, self.retframes,
             self.depth) = sv
        for ws in self.writes:
            ws |= w
        return w, shapes

    def drop_writes(self, w):
        self.writes = [x for x in self.writes if x is not w]

    def shape(self, v):
        if isinstance(v, Val):
            return ("val", v.ty)
        if isinstance(v, PyTuple):
            try:
                return ("val", self.to_val(v).ty)
            except Unsupported:
                return ("tuple", [self.shape(x) for x in v.items])
        if isinstance(v, Ref):
            r = self.follow(v)
            if r.path and r.ver != self.st.ver[r.cid]:
                return ("stale",)
            t, _ = self.content(v, True)
            return ("ref", t, r.cid, bool(r.path))
        if isinstance(v, ObjV):
            return ("obj", v.oid)
        return ("other", v)

    def join_types(self, ts):
        t = ts[0]
        for u in ts[1:]:
            t = self.join2(res(t), res(u))
        return res(t)

    def join2(self, a, b):
        a, b = res(a), res(b)
        if a == b:
            return a
        if a.kind == "none":
            return b if b.kind in ("opt", "Obj") else T("opt", [b])
        if b.kind == "none":
            return a if a.kind in ("opt", "Obj") else T("opt", [a])
        if a.kind == "opt":
            return T("opt", [self.join2(a.args[0], b.args[0]
                                        if b.kind == "opt" else b)])
        if b.kind == "opt":
            return self.join2(b, a)
        if {a.kind, b.kind} == {"int", "bool"}:
            return INT
        if a.kind == "tuple" and b.kind == "tuple" and \
                len(a.args) == len(b.args):
            return T("tuple", [self.join2(x, y)
                               for x, y in zip(a.args, b.args)])
        if a.kind == "Obj" or b.kind == "Obj":
            return OBJ
        if unify(a, b):
            return res(a)
        raise Unsupported("variable of types %r and %r" % (a, b))

    def havoc(self, written, shapes, base):
        """Arbitrary values for everything a loop body may write."""
        vis = set()
        rebound = []
        for key in sorted(written, key=str):
            if key[0] == "cell" and key[1] in base.heap:
                ty, z = self.st.heap[key[1]]
                ty = res(ty)
                if open_type(ty):
                    continue
                v = self.havoc_val("h", ty)
                self.st.heap[key[1]] = (ty, v.z)
            elif key[0] == "ver" and key[1] in base.heap:
                self.st.ver[key[1]] += 1000 + self.st.ver[key[1]]
            elif key[0] == "frz":
                self.st.frozen.add(key[1])
            elif key[0] == "shr":
                self.st.shared.add(key[1])
        for key in sorted(written, key=str):
            if key[0] == "var" and key[1] in base.vars:
                cur = base.vars[key[1]]
                if key[2] not in cur:
                    self.st.vars[key[1]].pop(key[2], None)
                    continue
                nv = self.havoc_shape(key, cur[key[2]],
                                      shapes.get(key, []), rebound)
                if nv is None:
                    self.st.vars[key[1]].pop(key[2], None)
                else:
                    self.st.vars[key[1]][key[2]] = nv
            elif key[0] == "fld" and key[1] in base.objs:
                cur = base.objs[key[1]].get(key[2])
                if cur is None:
                    self.st.objs[key[1]].pop(key[2], None)
                    continue
                nv = self.havoc_shape(key, cur, shapes.get(key, []),
                                      rebound)
                self.st.objs[key[1]][key[2]] = nv
        # cells stored into containers by the body
        for key in written:
            if key[0] == "fwd" and key[1] in base.heap:
                for d in list(self.st.vars.values()) + \
                        list(self.st.objs.values()):
                    for v in d.values():
                        if isinstance(v, Ref) and v.cid == key[1]:
                            raise Unsupported("container stored by a loop "
                                              "and still in use")

    def havoc_shape(self, key, cur, shs, rebound):
        shs = [self.shape(cur)] + shs
        name = str(key[2])
        kinds = {x[0] for x in shs}
        if "stale" in kinds and isinstance(cur, Ref):
            rebound.append(cur)
            return None
        if kinds == {"val"}:
            ty = self.join_types([x[1] for x in shs])
            if open_type(ty):
                raise Unsupported("variable %s of unknown type" % name)
            return self.havoc_val(name, ty)
        if kinds == {"ref"}:
            cids = {(x[2], x[3]) for x in shs}
            if len(cids) == 1 and not shs[0][3]:
                return cur
            ty = self.join_types([x[1] for x in shs])
            rebound.append(cur)
            if open_type(ty):
                raise Unsupported("variable %s of unknown type" % name)
            if any(x[3] for x in shs):
                # bound to inner containers: by value and read only
                r = self.alloc(self.havoc_val(name, ty))
                self.st.frozen.add(r.cid)
                return r
            return self.alloc(self.havoc_val(name, ty))
        if kinds == {"obj"} and len({x[1] for x in shs}) == 1:
            return cur
        if kinds == {"other"}:
            return cur if all(x[1] is cur for x in shs) else self._bad(name)
        if kinds <= {"val", "ref"}:
            ty = self.join_types([x[1] for x in shs])
            return self.havoc_val(name, ty)
        self._bad(name)

    def _bad(self, name):
        raise Unsupported("variable %s rebound in a loop" % name)

    def check_writes(self, real, predicted, base):
        for key in real:
            if key in predicted:
                continue
            if key[0] == "cell" and key[1] not in base.heap:
                continue
            if key[0] in ("ver", "frz", "shr", "fwd") and \
                    key[1] not in base.heap:
                continue
            if key[0] == "var" and key[1] not in base.vars:
                continue
            if key[0] == "fld" and key[1] not in base.objs:
                continue
            raise Unsupported("unpredicted write %r" % (key,))

    # -------------------------------------------------------- iteration
    def parts(self, c, step, v):
        """Components of a tuple held inside a container; the mutable ones
        stay references."""
        r = self.follow(c)
        return PyTuple([
            Ref(r.cid, r.path + (step, ("t", i)), self.st.ver[r.cid])
            if res(a).kind in MUTABLE else Val(a, _field(v.z, i))
            for i, a in enumerate(res(v.ty).args)])

    def elem(self, c, k):
        """Element of a list value or reference at an index."""
        if isinstance(c, Ref):
            t, z = self.content(c)
            if res(t.args[0]).kind in MUTABLE:
                r = self.follow(c)
                return Ref(r.cid, r.path + (("l", k),),
                           self.st.ver[r.cid])
            v = Val(t.args[0], l_get(z, k))
            if res(v.ty).kind == "tuple" and holds(v.ty):
                return self.parts(c, ("l", k), v)
            return v
        c = self.to_val(c)
        t = res(c.ty)
        v = Val(t.args[0], l_get(c.z, k))
        if res(t.args[0]).kind in MUTABLE:
            r = self.alloc(v)
            self.st.frozen.add(r.cid)
            return r
        return v

    def enum_set(self, dom, elt):
        """Arbitrary enumeration of a finite set without repetition."""
        lt = T("list", [elt])
        E = self.fresh("enum", sort(lt))
        n = l_len(E)
        idx = self.fresh_fn("idx", [sort(elt)], z3.IntSort())
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        x = z3.Const(self.fresh_name("x"), sort(elt))
        self.pc.append(n >= 0)
        self.pc.append(n == card(dom))
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < n),
            z3.And(z3.Select(dom, l_get(E, i)), idx(l_get(E, i)) == i)),
            patterns=[l_get(E, i)]))
        self.pc.append(z3.ForAll([x], z3.Implies(
            z3.Select(dom, x), z3.And(0 <= idx(x), idx(x) < n,
                                      l_get(E, idx(x)) == x)),
            patterns=[z3.Select(dom, x)]))
        return Val(lt, E)

    def iter_seq(self, v):
        if isinstance(v, SeqV):
            return v
        if self.coroutine(v) is not None:
            raise Unsupported("iteration over a changing object")
        if isinstance(v, PyTuple):
            v = self.to_listval(v)
        if isinstance(v, DomV):
            E = self.enum_set(v.dom, v.elt)
            w = v.wrap or (lambda x: x)
            return SeqV(l_len(E.z), lambda k: w(Val(v.elt, l_get(E.z, k))),
                        v.elt, src=v.src, listz=E if v.wrap is None
                        else None, kind="dom")
        if isinstance(v, ObjV):
            if self.find_method(v.cls, "__iter__"):
                return self.iter_seq(self.call_method(v, "__iter__", [],
                                                      {}))
            raise Unsupported("iteration over an instance")
        ref = v if isinstance(v, Ref) else None
        if ref is not None and self.content(ref, True)[1] is None:
            t = self.content(ref, True)[0]
            return SeqV(I(0), lambda k: self._noelem(), None)
        v2 = self.to_val(v)
        t = res(v2.ty)
        if t.kind == "cls":
            k = REG.byclass[t.name]
            key = k.key + ".__iter__"
            if key in REG.contracts:
                return self.iter_seq(self.call_method(v, "__iter__", [],
                                                      {}))
            v2 = Val(MODELS[t.name], v2.z)
            t = res(v2.ty)
        if t.kind == "opt":
            v2 = self.unopt(v2)
            t = res(v2.ty)
        if t.kind == "list":
            z = v2.z
            return SeqV(l_len(z), lambda k: self.elem(
                ref if ref is not None else v2, k), t.args[0], src=ref,
                listz=v2)
        if t == OBJ:
            v2 = self.thaw(v2)
            t = v2.ty
        if t.kind == "set":
            return self.iter_seq(DomV(v2.z, t.args[0], src=ref))
        if t.kind == "dict":
            return self.iter_seq(DomV(d_dom(v2.z), t.args[0], src=ref))
        if t.kind == "iter":
            # an iterator consumed as a whole
            s, p = _field(v2.z, 0), _field(v2.z, 1)
            if ref is not None:
                self.put(ref, sort(t).constructor(0)(s, l_len(s)))
            lt = T("list", t.args)
            sl = slice_(s, p, l_len(s))
            return self.iter_seq(Val(lt, sl))
        if t.kind == "tuple":
            return self.iter_seq(self.to_listval(self.untuple(v2)))
        raise Unsupported("iteration over %r" % (t,))

    def _noelem(self):
        raise PathEnd()

    def to_listval(self, tup):
        if not tup.items:
            return Val(T("list", [tvar()]), None)
        t = self.join_types([self.to_val(x).ty for x in tup.items])
        return self.coerce(tup, T("list", [t]))

    def seq_to_list(self, q):
        """A list value with the elements of a sequence."""
        if q.listz is not None:
            return q.listz
        if q.elt is None:
            return Val(T("list", [tvar()]), None)
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        self.generic.append((i, TRUE))
        self.pure += 1
        mark = len(self.pc)
        try:
            e = self.to_val(q.get(i))
        finally:
            self.generic.pop()
            self.pure -= 1
        facts = self.pc[mark:]
        del self.pc[mark:]
        lt = T("list", [e.ty])
        L = self.fresh("seq", sort(lt))
        self.pc.append(l_len(L) == q.n)
        self.pc.append(q.n >= 0)
        rng = z3.And(0 <= i, i < q.n)
        self.pc.append(z3.ForAll([i], z3.Implies(
            rng, z3.And([l_get(L, i) == self.term(e)] + facts)),
            patterns=[l_get(L, i)]))
        q.listz = Val(lt, L)
        return q.listz

    def as_list(self, v):
        """Any iterable as list value."""
        if isinstance(v, PyTuple):
            return self.to_listval(v)
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if z is None:
                return Val(T("list", [t.args[0]]), None)
        return self.seq_to_list(self.iter_seq(v))

    # ------------------------------------------------------ containers
    def unopt(self, v):
        """Use an optional value as a plain one (must not be None)."""
        t = res(v.ty)
        if t.kind != "opt":
            return v
        self.emit(sort(t).recognizer(1)(v.z), "value is not None", "safety")
        return Val(t.args[0], sort(t).accessor(1, 0)(v.z))

    def norm_index(self, i, n):
        s = z3.simplify(i)
        if z3.is_int_value(s):
            return n + i if s.as_long() < 0 else i
        return z3.If(i < 0, i + n, i)

    def getitem(self, c, k):
        if isinstance(c, StreamV):
            c = c.ref
        if isinstance(c, PyTuple):
            if c.items and all(isinstance(x, (Bound, Closure))
                               for x in c.items):
                return self.choose_item(c.items, k)
            return self.index(c, k)
        if isinstance(c, ObjV):
            return self.call_method(c, "__getitem__", [k], {})
        if isinstance(c, SeqV):
            c = self.seq_to_list(c)
        if isinstance(c, Ref):
            t, z = self.content(c, True)
            if z is None:
                if t.kind == "dict":
                    self.may_raise("KeyError", FALSE, "empty dictionary")
                else:
                    self.may_raise("IndexError", FALSE, "empty list")
                raise PathEnd()
        v = self.to_val(c)
        t = res(v.ty)
        if t.kind == "opt":
            v = self.unopt(v)
            t, c = res(v.ty), v
        if t.kind == "cls":
            return self.call_method(c, "__getitem__", [k], {})
        if t.kind == "list":
            i = self.coerce(self.plain(k), INT).z
            n = l_len(v.z)
            self.may_raise("IndexError", z3.And(-n <= i, i < n),
                           "list index")
            i = self.nonneg(i, n)
            return self.elem(c, i)
        if t.kind == "dict":
            k = self.plain_key(k, t.args[0])
            kz = self.coerce(k, t.args[0]).z
            self.may_raise("KeyError", z3.Select(d_dom(v.z), kz),
                           "dictionary key")
            if res(t.args[1]).kind in MUTABLE:
                if isinstance(c, Ref):
                    r = self.follow(c)
                    return Ref(r.cid, r.path + (("d", kz),),
                               self.st.ver[r.cid])
                r = self.alloc(Val(t.args[1], z3.Select(d_val(v.z), kz)))
                self.st.frozen.add(r.cid)
                return r
            e = Val(t.args[1], z3.Select(d_val(v.z), kz))
            if isinstance(c, Ref) and res(e.ty).kind == "tuple" and \
                    holds(e.ty):
                return self.parts(c, ("d", kz), e)
            return e
        if linked(t):
            self.may_raise("TypeError", sort(t).recognizer(1)(v.z),
                           "index into None")
        if t.kind == "tuple" or linked(t):
            return self.index(self.untuple(v), k)
        if t.kind == "map":
            return self.index(v, k)
        raise Unsupported("index into %r" % (t,))

    def choose_item(self, items, k):
        """One of several functions, by cases on the index."""
        i = self.coerce(self.plain(k), INT).z
        n = len(items)
        self.may_raise("IndexError", z3.And(-n <= i, i < n), "list index")
        for j, x in enumerate(items[:-1]):
            if self.choose(z3.Or(i == j, i == j - n)):
                return x
        return items[-1]

    def nonneg(self, i, n):
        """Index normalised for negative values."""
        s = z3.simplify(i)
        if z3.is_int_value(s):
            return i if s.as_long() >= 0 else n + i
        return z3.If(i < 0, i + n, i)

    def plain(self, k):
        v = self.to_val(k) if not isinstance(k, PyTuple) else k
        if isinstance(v, Val) and res(v.ty).kind == "opt":
            return self.unopt(v)
        return v

    def plain_key(self, k, kt):
        kt = res(kt)
        if isinstance(k, Val) and res(k.ty).kind == "opt" and \
                kt.kind not in ("opt", "var"):
            return self.unopt(k)
        return k

    def setitem(self, c, k, v):
        if isinstance(c, ObjV):
            return self.call_method(c, "__setitem__", [k, v], {})
        if not isinstance(c, Ref):
            raise Unsupported("item assignment to a value")
        t, z = self.content(c, True)
        if t.kind == "cls":
            return self.call_method(c, "__setitem__", [k, v], {})
        if t.kind == "list":
            if z is None:
                self.may_raise("IndexError", FALSE, "empty list")
                raise PathEnd()
            i = self.coerce(self.plain(k), INT).z
            n = l_len(z)
            self.may_raise("IndexError", z3.And(-n <= i, i < n),
                           "list index")
            i = self.nonneg(i, n)
            e = self.store_val(v, t.args[0])
            self.put(c, l_mk(sort(t), n, z3.Store(l_arr(z), i, e.z)))
            c2 = self.bump(c)
            self.forward(v, c2, ("l", i))
            return
        if t.kind == "dict":
            if z is None:
                self.unify_to(t.args[0], k)
                self.unify_to(t.args[1], v)
                t, z = self.content(c)
            k = self.plain_key(k, t.args[0])
            kz = self.coerce(k, t.args[0])
            v = self.mark(v, t.args[1])
            e = self.store_val(v, t.args[1])
            t, z = self.content(c)
            kt = self.term(kz)
            self.put(c, d_mk(sort(t), z3.Store(d_dom(z), kt, TRUE),
                             z3.Store(d_val(z), kt, self.term(e))))
            c2 = self.bump(c)
            self.forward(v, c2, ("d", kt))
            return
        raise Unsupported("item assignment to %r" % (t,))

    def mark(self, v, ty):
        """A list stored as an opaque object: its identity."""
        if isinstance(v, Ref) and res(ty).kind == "Obj" and \
                self.contract.marks:
            return self.coerce(v, OBJ)
        return v

    def unify_to(self, ty, v):
        if isinstance(v, Ref):
            unify(ty, self.content(v, True)[0])
        elif isinstance(v, PyTuple):
            tt = []
            for x in v.items:
                if isinstance(x, Ref):
                    tt.append(self.content(x, True)[0])
                else:
                    tt.append(self.to_val(x).ty)
            unify(ty, T("tuple", tt))
        else:
            unify(ty, self.to_val(v).ty)

    def store_val(self, v, ty):
        if isinstance(v, Ref):
            t, z = self.content(v, True)
            if z is None:
                unify(t, ty)
                if open_type(res(t)):
                    raise Unsupported("container of unknown type stored")
        if isinstance(v, PyTuple):
            for x in v.items:
                if isinstance(x, Ref):
                    self.freeze_ref(x)
        return self.coerce(v, ty)

    def freeze_ref(self, x):
        r = self.follow(x)
        if r.path:
            self.st.shared.add(r.cid)
            for w in self.writes:
                w.add(("shr", r.cid))
        else:
            self.st.frozen.add(r.cid)
            for w in self.writes:
                w.add(("frz", r.cid))

    def forward(self, v, c, step):
        """v was stored at a place inside c: keep both views together."""
        if not isinstance(v, Ref):
            return
        r = self.follow(v)
        if r.path:
            self.st.shared.add(r.cid)
            cr = self.follow(c)
            self.st.shared.add(cr.cid)
            for w in self.writes:
                w.add(("shr", r.cid))
                w.add(("shr", cr.cid))
            return
        cr = self.follow(c)
        if cr.cid == r.cid:
            raise Unsupported("container stored into itself")
        self.st.fwd[r.cid] = Ref(cr.cid, cr.path + (step,),
                                 self.st.ver[cr.cid])
        if cr.path == () and False:
            pass
        for w in self.writes:
            w.add(("fwd", r.cid))

    def detach(self, c, kz):
        """Variables naming the container at a deleted key keep it."""
        c = self.follow(c)
        new = None
        for vs in self.st.vars.values():
            for n, v in list(vs.items()):
                if not isinstance(v, Ref):
                    continue
                r = self.follow(v)
                if r.cid != c.cid or len(r.path) != len(c.path) + 1 or \
                        r.ver != self.st.ver[r.cid] or \
                        not all(a[1] is b[1] or not isinstance(a[1], int) and
                                not isinstance(b[1], int) and
                                a[1].eq(b[1])
                                for a, b in zip(r.path, c.path)) or \
                        isinstance(r.path[-1][1], int) or \
                        not r.path[-1][1].eq(kz):
                    continue
                if new is None:
                    t, z = self.content(r)
                    new = self.alloc(Val(t, z))
                    if r.cid in self.st.shared or r.cid in self.st.frozen:
                        self.st.frozen.add(new.cid)
                vs[n] = new

    def delitem(self, c, k):
        if isinstance(c, ObjV):
            return self.call_method(c, "__delitem__", [k], {})
        t, z = self.content(c, True)
        if t.kind == "cls":
            return self.call_method(c, "__delitem__", [k], {})
        if z is None:
            self.may_raise("KeyError", FALSE, "delete from empty container")
            raise PathEnd()
        if t.kind == "dict":
            kz = self.coerce(self.plain_key(k, t.args[0]), t.args[0]).z
            self.may_raise("KeyError", z3.Select(d_dom(z), kz),
                           "dictionary key")
            if isinstance(c, Ref):
                self.detach(c, kz)
            self.put(c, d_mk(sort(t), z3.Store(d_dom(z), kz, FALSE),
                             d_val(z)))
            self.bump(c)
        elif t.kind == "list":
            i = self.coerce(k, INT).z
            n = l_len(z)
            self.may_raise("IndexError", z3.And(-n <= i, i < n),
                           "list index")
            s = z3.simplify(i)
            if z3.is_int_value(s) and s.as_long() == -1:
                self.put(c, l_mk(sort(t), n - 1, l_arr(z)))
            else:
                self.put(c, ldelete(z, self.nonneg(i, n)))
            self.bump(c)
        else:
            raise Unsupported("del item of %r" % (t,))

    # ------------------------------------------------------ attributes
    def getattr(self, b, attr):
        if isinstance(b, ObjV):
            f = self.st.objs[b.oid]
            if attr in f:
                k = REG.klasses.get(b.cls)
                if k is not None and attr in k.lazy:
                    self.may_raise("AttributeError", self.spf(
                        k.lazy[attr], {"self": b}), "field %s" % attr)
                return f[attr]
            m = self.find_method(b.cls, attr)
            if m is not None:
                if isinstance(m, ast.FunctionDef):
                    return Bound(b, attr)
                # class level constant
                mod = ".".join(b.cls.split(".")[:2])
                return self.ev_in_module(m, mod)
            raise Unsupported("attribute %s" % attr)
        if isinstance(b, ModuleV):
            return self.module_attr(b.name, attr)
        if isinstance(b, ClassV):
            return Bound(b, attr)
        if isinstance(b, Val) and res(b.ty).kind == "opt":
            b = self.unopt(b)
        if isinstance(b, Val) and res(b.ty).kind == "data":
            return self.data_field(b, attr)
        if isinstance(b, Val) and res(b.ty) == OBJ:
            for k in REG.byclass.values():
                if k.boxed and (attr in k.attrs or
                                self.find_method(k.key, attr)):
                    self.may_raise("AttributeError",
                                   self.boxfns(k)[2](b.z), attr)
                    b = self.unbox(k, b)
                    if attr in k.attrs:
                        return self.wrap(self.to_val(self.spec(
                            k.attrs[attr], {"m": Val(k.model, b.z)})))
                    break
        return Bound(b, attr)

    def setattr_(self, b, attr, v):
        if isinstance(b, ObjV):
            return self.setfield(b, attr, v)
        raise Unsupported("attribute assignment")

    def module_attr(self, mod, attr):
        if mod == "sys" and attr in ("maxint", "maxsize"):
            return Val(INT, I(2 ** 63 - 1))
        if mod.startswith("pads."):
            v = self.resolve_global(mod, attr)
            if v is not None:
                return v
        return Builtin(mod + "." + attr)

    def find_method(self, cls, name):
        """Definition of a method in a class or its bases."""
        try:
            mod, nodes = self.src.find(cls)
        except KeyError:
            return None
        node = nodes[-1]
        for st in node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                return st
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name) and \
                    st.targets[0].id == name:
                if isinstance(st.value, ast.Name):
                    for s2 in node.body:
                        if isinstance(s2, ast.FunctionDef) and \
                                s2.name == st.value.id:
                            return s2
                return st.value
        for b in node.bases:
            if isinstance(b, ast.Name):
                k = self.class_key(mod, b.id)
                if k:
                    r = self.find_method(k, name)
                    if r is not None:
                        return r
        return None

    def method_key(self, cls, name):
        mod, nodes = self.src.find(cls)
        node = nodes[-1]
        for st in node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                return cls + "." + name
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name) and \
                    st.targets[0].id == name:
                return cls + "." + name
        for b in node.bases:
            if isinstance(b, ast.Name):
                k = self.class_key(mod, b.id)
                if k:
                    r = self.method_key(k, name)
                    if r:
                        return r
        return None

    def class_key(self, mod, name):
        _, env = self.src.module(mod)
        d = env.get(name)
        if isinstance(d, ast.ClassDef):
            return mod + "." + name
        if isinstance(d, tuple) and d[0] == "from" and d[2] >= 1:
            return "pads." + (d[1] + "." if d[1] else "") + d[3]
        return None

    # ----------------------------------------------------- expressions
    def ev(self, node):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(node).__name__)
        return m(node)

    def ev_in_module(self, node, mod):
        f = self.frame
        self.frame = self.new_frame(None, mod, mod)
        self.frame.chain = f.chain if f else ()
        try:
            return self.ev(node)
        finally:
            self.frame = f

    def ex_Constant(self, node):
        return self.const(node.value)

    def ex_JoinedStr(self, node):
        return Val(OBJ, self.fresh("fstr", sort(OBJ)))

    def ex_Name(self, node):
        v = self.lookup(node.id)
        if v is not None:
            return v
        v = self.resolve_global(self.frame.mod, node.id)
        if v is not None:
            return v
        if node.id in BUILTINS or node.id in EXC_PARENTS:
            return Builtin(node.id)
        raise Unsupported("name %s is not bound" % node.id)

    def resolve_global(self, mod, name, depth=0):
        if depth > 5:
            return None
        _, env = self.src.module(mod)
        d = env.get(name)
        if d is None:
            return None
        if isinstance(d, ast.FunctionDef):
            return Closure(d, None, mod, mod + "." + name)
        if isinstance(d, ast.ClassDef):
            return ClassV(d, mod, mod + "." + name)
        if d[0] == "from":
            if d[2] >= 1 or (d[1] or "").startswith("pads"):
                m = "pads." + d[1] if d[2] >= 1 and d[1] else d[1]
                if m is None:
                    return ModuleV("pads." + d[3])
                return self.resolve_global(m, d[3], depth + 1)
            return Builtin("%s.%s" % (d[1], d[3]))
        if d[0] == "import":
            return ModuleV(d[1])
        if d[0] == "expr":
            if ast.unparse(d[1]) == "object()":
                n = "glob!%s.%s" % (mod, name)
                o = z3.Const(n, sort(OBJ))
                if n not in lib.AXIOMS:
                    # neither None, number, string, set nor instance
                    kd = lib.fn_decl("obj_kind", [sort(OBJ)], z3.IntSort())
                    lib.axioms(n, kd(o) == 4)
                return Val(OBJ, o)
            v = self.ev_in_module(d[1], mod)
            if isinstance(v, Ref):
                # read as its initial value, so nothing may change it
                if self.changed_global(mod, name):
                    raise Unsupported("module variable %s.%s is modified"
                                      % (mod, name))
                self.freeze_ref(v)
            return v
        return None

    def changed_global(self, mod, name):
        """Does code of the module modify this container?"""
        tree, _ = self.src.module(mod)

        def is_name(x):
            while isinstance(x, (ast.Subscript, ast.Attribute)):
                x = x.value
            return isinstance(x, ast.Name) and x.id == name
        for x in ast.walk(tree):
            if isinstance(x, ast.Global) and name in x.names:
                return True
            if isinstance(x, (ast.Subscript, ast.Attribute)) and \
                    isinstance(x.ctx, (ast.Store, ast.Del)) and is_name(x):
                return True
            if isinstance(x, ast.Call) and \
                    isinstance(x.func, ast.Attribute) and is_name(x.func) \
                    and x.func.attr in MUTATORS:
                return True
        return False

    def ex_Attribute(self, node):
        return self.getattr(self.ev(node.value), node.attr)

    def ex_Tuple(self, node):
        out = []
        for x in node.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if not isinstance(v, PyTuple):
                    raise Unsupported("starred element")
                out.extend(v.items)
            else:
                out.append(self.ev(x))
        return PyTuple(out)

    def ex_List(self, node):
        if not node.elts:
            return self.alloc(Val(T("list", [tvar()]), None))
        if any(isinstance(x, ast.Starred) for x in node.elts):
            raise Unsupported("starred element")
        items = [self.ev(x) for x in node.elts]
        if all(isinstance(x, (Bound, Closure)) for x in items):
            return PyTuple(items)       # table of functions
        return self.alloc(self.build_list(items))

    def build_list(self, items):
        ts = []
        for x in items:
            ts.append(self.content(x, True)[0] if isinstance(x, Ref)
                      else self.to_val(x).ty)
        et = self.join_types(ts)
        for x in items:
            for y in x.items if isinstance(x, PyTuple) else [x]:
                if isinstance(y, Ref):
                    self.freeze_ref(y)
        if open_type(et):
            if len(items) == 1 and isinstance(items[0], Ref):
                # [[]]: type still open
                raise Unsupported("nested container of unknown type")
        return self.coerce(PyTuple(items), T("list", [et]))

    def ex_Set(self, node):
        items = [self.ev(x) for x in node.elts]
        et = self.join_types([self.to_val(x).ty for x in items])
        z = empty(T("set", [et]))
        for x in items:
            z = z3.Store(z, self.term(self.coerce(x, et)), TRUE)
        return self.alloc(Val(T("set", [et]), z))

    def ex_Dict(self, node):
        r = self.alloc(Val(T("dict", [tvar(), tvar()]), None))
        for k, v in zip(node.keys, node.values):
            if k is None:
                raise Unsupported("dictionary unpacking")
            kk = self.ev(k)
            self.setitem(r, kk, self.ev(v))
        return r

    def ex_Subscript(self, node):
        c = self.ev(node.value)
        if isinstance(node.slice, ast.Slice):
            return self.getslice(c, node.slice)
        return self.getitem(c, self.ev(node.slice))

    def getslice(self, c, sl):
        lo = self.ev(sl.lower) if sl.lower is not None else None
        hi = self.ev(sl.upper) if sl.upper is not None else None
        if sl.step is not None:
            st = self.ev(sl.step)
            s = z3.simplify(self.coerce(st, INT).z)
            v = self.to_val(c)
            if z3.is_int_value(s) and s.as_long() == -1 and lo is None \
                    and hi is None and res(v.ty).kind == "list":
                return self.alloc(Val(v.ty, rev(v.z)))
            raise Unsupported("slice step")
        if isinstance(c, PyTuple):
            def cv(x):
                if x is None:
                    return None
                s = z3.simplify(self.coerce(x, INT).z)
                if not z3.is_int_value(s):
                    raise Unsupported("symbolic tuple slice")
                return s.as_long()
            return PyTuple(c.items[cv(lo):cv(hi)])
        if isinstance(c, Ref) and self.content(c, True)[1] is None:
            return self.alloc(Val(self.content(c, True)[0], None))
        v = self.to_val(c)
        if res(v.ty).kind != "list":
            raise Unsupported("slice of %r" % (res(v.ty),))
        z = lambda x: None if x is None or (
            isinstance(x, Val) and res(x.ty).kind == "none") else \
            self.coerce(self.plain(x), INT).z
        r = self.slice_val(v, z(lo), z(hi))
        r = self.alloc(r)
        if isinstance(c, Ref) and holds(res(v.ty).args[0]):
            self.freeze_inner(c)
            self.freeze_inner(r)
        return r

    def freeze_inner(self, c):
        r = self.follow(c)
        self.st.shared.add(r.cid)
        for w in self.writes:
            w.add(("shr", r.cid))

    def ex_BinOp(self, node):
        a = self.ev(node.left)
        b = self.ev(node.right)
        return self.binop(node.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and \
                isinstance(op, ast.Add):
            return PyTuple(a.items + b.items)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            n = {ast.Add: "__add__", ast.Sub: "__sub__",
                 ast.Mult: "__mul__"}.get(type(op))
            if isinstance(a, ObjV) and n and self.find_method(a.cls, n):
                return self.call_method(a, n, [b], {})
            raise Unsupported("operator on an instance")
        if isinstance(a, Ref) and isinstance(b, Ref):
            ta, za = self.content(a, True)
            tb, zb = self.content(b, True)
            unify(ta, tb)
            if za is None and zb is None and open_type(res(ta)):
                return self.alloc(Val(res(ta), None))
        if isinstance(a, Val):
            a = self.unopt(a) if res(a.ty).kind == "opt" else a
        if isinstance(b, Val):
            b = self.unopt(b) if res(b.ty).kind == "opt" else b
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            av, bv = self.to_val(a), self.to_val(b)
            if res(av.ty).kind == "Obj":
                return Val(OBJ, self.fresh("fmt", sort(OBJ)))
            self.emit(self.coerce(bv, INT).z > 0, "divisor is positive",
                      "safety")
        if isinstance(op, (ast.LShift, ast.RShift)):
            self.emit(self.coerce(b, INT).z >= 0, "shift is nonnegative",
                      "safety")
        if isinstance(op, ast.Pow):
            self.emit(self.coerce(b, INT).z >= 0,
                      "exponent is nonnegative", "safety")
        r = self.arith(op, a, b)
        return self.wrap(r)

    def ex_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            v = self.ev(node.operand)
            return Val(BOOL, z3.Not(self.truth(v)))
        v = self.ev(node.operand)
        if isinstance(v, ObjV):
            n = {ast.USub: "__neg__", ast.Invert: "__invert__"}.get(
                type(node.op))
            return self.call_method(v, n, [], {})
        if isinstance(node.op, ast.USub):
            v = self.to_val(v)
            if res(v.ty).kind == "real":
                return Val(REAL, -v.z)
            return Val(INT, -self.coerce(self.plain(v), INT).z)
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert):
            return Val(INT, bnot(self.coerce(self.plain(v), INT).z))
        raise Unsupported("unary operator")

    def simple(self, node):
        """Cannot raise, has no effects, needs no branching."""
        if isinstance(node, (ast.Name, ast.Constant)):
            if isinstance(node, ast.Name):
                v = self.lookup(node.id)
                if v is None or isinstance(v, ObjV):
                    return False
                if isinstance(v, Val) and res(v.ty).kind in ("opt",):
                    return True
            return True
        if isinstance(node, ast.Compare):
            return all(self.simple(x) for x in
                       [node.left] + node.comparators) and not any(
                isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and
                not self.intlike(x) for o, x in
                zip(node.ops, node.comparators))
        if isinstance(node, ast.BoolOp):
            return all(self.boolish(x) for x in node.values)
        if isinstance(node, ast.UnaryOp):
            return self.simple(node.operand)
        if isinstance(node, ast.BinOp) and isinstance(
                node.op, (ast.Add, ast.Sub)):
            return self.intlike(node.left) and self.intlike(node.right)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id == "len" and len(node.args) == 1 and \
                isinstance(node.args[0], ast.Name):
            return isinstance(self.lookup(node.args[0].id), (Ref, Val))
        return False

    def boolish(self, node):
        if isinstance(node, ast.Compare):
            return self.simple(node)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return self.simple(node.operand)
        if isinstance(node, ast.BoolOp):
            return all(self.boolish(x) for x in node.values)
        if isinstance(node, ast.Name):
            v = self.lookup(node.id)
            return isinstance(v, Val) and res(v.ty).kind == "bool"
        return False

    def intlike(self, node):
        if isinstance(node, ast.Constant):
            return isinstance(node.value, int)
        if isinstance(node, ast.Name):
            v = self.lookup(node.id)
            return isinstance(v, Val) and res(v.ty).kind == "int"
        if isinstance(node, ast.BinOp) and isinstance(
                node.op, (ast.Add, ast.Sub)):
            return self.intlike(node.left) and self.intlike(node.right)
        if isinstance(node, ast.Call):
            return self.simple(node)
        return False

    def guarded(self, cond, fn):
        """Evaluate fn under an assumption that does not persist."""
        mark = len(self.pc)
        self.pc.append(cond)
        try:
            v = fn()
        finally:
            facts = self.pc[mark + 1:]
            del self.pc[mark:]
            self.pc.extend(z3.Implies(cond, f) for f in facts)
        return v

    def ex_BoolOp(self, node):
        is_and = isinstance(node.op, ast.And)
        if self.simple(node):
            vs = [self.truth(self.ev(x)) for x in node.values]
            return Val(BOOL, z3.And(vs) if is_and else z3.Or(vs))
        if self.pure:
            v = self.ev(node.values[0])
            for x in node.values[1:]:
                c = self.truth(v)
                v2 = self.guarded(c if is_and else z3.Not(c),
                                  lambda: self.ev(x))
                if isinstance(v, Val) and isinstance(v2, Val) and \
                        res(v.ty).kind == res(v2.ty).kind == "bool":
                    v = Val(BOOL, z3.And(v.z, v2.z) if is_and
                            else z3.Or(v.z, v2.z))
                elif is_and:
                    v = self.if_val(c, v2, v)
                else:
                    v = self.if_val(c, v, v2)
            return v
        for x in node.values[:-1]:
            v = self.ev(x)
            c = self.choose(self.truth(v))
            if c != is_and:
                return v
        return self.ev(node.values[-1])

    def ex_Compare(self, node):
        left = self.ev(node.left)
        out = []
        for i, (op, r) in enumerate(zip(node.ops, node.comparators)):
            if i and not self.simple(r):
                if self.pure:
                    right = self.guarded(z3.And(out), lambda: self.ev(r))
                else:
                    if not self.choose(out[-1]):
                        return Val(BOOL, FALSE)
                    right = self.ev(r)
            else:
                right = self.ev(r)
            out.append(self.code_compare(op, left, right))
            left = right
        return Val(BOOL, z3.And(out) if len(out) > 1 else out[0])

    def code_compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = b
            m = None
            if isinstance(c, ObjV):
                m = self.call_method(c, "__contains__", [a], {})
            elif isinstance(c, (Ref, Val)):
                t = self.content(c, True)[0] if isinstance(c, Ref) \
                    else res(c.ty)
                if t.kind == "opt":
                    b = self.unopt(c)
                    t = res(b.ty)
                if t == OBJ and isinstance(b, Val):
                    b = self.thaw(b)
                elif t.kind == "cls":
                    m = self.call_method(c, "__contains__", [a], {})
                elif t.kind in ("list", "set", "dict") and \
                        isinstance(c, Ref) and \
                        self.content(c, True)[1] is None:
                    return FALSE if isinstance(op, ast.In) else TRUE
            if m is not None:
                z = self.truth(m)
                return z if isinstance(op, ast.In) else z3.Not(z)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, ObjV) \
                    and self.find_method(a.cls, "__eq__"):
                z = self.truth(self.call_method(a, "__eq__", [b], {}))
                return z if isinstance(op, ast.Eq) else z3.Not(z)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                z = self.identity(a, b) if isinstance(a, ObjV) and \
                    isinstance(b, ObjV) else FALSE
                return z if isinstance(op, ast.Eq) else z3.Not(z)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            a = self.unopt(a) if isinstance(a, Val) else a
            b = self.unopt(b) if isinstance(b, Val) else b
        return self.compare(op, a, b)

    def ex_IfExp(self, node):
        if self.pure:
            c = self.truth(self.ev(node.test))
            a = self.guarded(c, lambda: self.ev(node.body))
            b = self.guarded(z3.Not(c), lambda: self.ev(node.orelse))
            return self.if_val(c, a, b)
        if self.cond(node.test):
            return self.ev(node.body)
        return self.ev(node.orelse)

    def ex_Lambda(self, node):
        return Closure(node, self.frame, self.frame.mod,
                       self.frame.key + ".<lambda>")

    def ex_Yield(self, node):
        v = self.ev(node.value) if node.value is not None else NoneV
        self.do_yield(v)
        return NoneV

    def do_yield(self, v):
        if not self.outs:
            raise Unsupported("yield")
        o = self.outs[-1]
        t, z = self.content(o["ref"], True)
        if isinstance(v, Ref):
            # the consumer sees the container at this moment
            rv = self.follow(v)
            if not (o["top"] and self.contract.yields is not None):
                self.freeze_ref(v)
        if not (o["top"] and (self.contract.interfere or
                              self.contract.stream)):
            self.list_append(o["ref"], v, alias=False)
        if o["top"]:
            env = {"yielded": self.to_val(v) if not isinstance(v, PyTuple)
                   else v}
            if self.contract.yields is not None:
                env["yielded"] = self.coerce(v, res(
                    self.contract.yields))
            self.ghost(self.contract.each_start, env)
            con = self.contract
            for nm, e in con.each + con.each_own:
                self.emit(self.spf(e, env), "yield: " + nm, "ensures")
            if con.stream:
                self.set_ghost("_prev", env["yielded"])
            if con.interfere:
                # anything may happen to the receiver until the next call
                sv = self.params_env["self"]
                inv = REG.klasses[self.own_class].inv
                for nm, e in inv:
                    self.emit(self.spf(e), "class invariant at yield: " +
                              nm, "invariant")
                self.havoc_target({"self": sv}, "self", con)
                for nm, e in inv:
                    self.assume(self.spf(e))
                self.set_ghost("_pre", self.abstract(sv))

    def resume(self, co, done):
        """The next step of a generator of another (or the own) object."""
        con, recv = co.con, co.recv
        self.used_contracts.add(con.name)
        own = isinstance(recv, ObjV)
        inv = REG.klasses[con.key.rsplit(".", 1)[0]].inv if own else ()
        pre = self.abstract(recv) if own else Val(*self.content(recv))
        if not own:
            pre = Val(MODELS[res(pre.ty).name], pre.z)
        for nm, e in inv:
            self.emit(self.spf(e, {"self": recv}),
                      "class invariant before the next item: " + nm,
                      "precondition")
        self.havoc_target({"self": recv}, "self", con)
        env = {"self": recv, "_pre": pre}
        for nm, e in inv:
            self.assume(self.spf(e, env))
        item = None
        if not done:
            item = self.havoc_val("item", con.yields)
            env["yielded"] = item
        cl = con.ensures if done else con.each + (
            con.each_own if own else [])
        for nm, e in cl:
            self.assume(self.spf(e, env))
        return item

    def coroutine(self, v):
        """The generator iterating over an object, if it may change it."""
        if isinstance(v, CoroV):
            return v
        if isinstance(v, ObjV):
            key = self.method_key(v.cls, "__iter__") if self.find_method(
                v.cls, "__iter__") else None
        elif self.is_model(v):
            t = self.content(v, True)[0] if isinstance(v, Ref) \
                else res(v.ty)
            key = REG.byclass[t.name].key + ".__iter__"
        else:
            return None
        for con in REG.contracts.get(key, ()):
            if con.interfere:
                return CoroV(con, v)

    def ex_YieldFrom(self, node):
        raise Unsupported("yield from")

    # ---------------------------------------------------- comprehension
    def gens(self, comp, k):
        """Evaluate the generators generically and call k(binders, cond)."""
        def go(gi, binders, conds):
            if gi == len(comp.generators):
                return k(binders, conds)
            g = comp.generators[gi]
            src = self.ev(g.iter)
            b, rng, el = self.generic_source(src)
            self.generic.append((b, rng))
            mark = len(self.pc)
            self.pc.append(rng)
            try:
                self.assign(g.target, el(b))
                cs = [rng]
                for c in g.ifs:
                    f = self.truth(self.ev(c))
                    cs.append(f)
                    self.pc.append(f)
                r = go(gi + 1, binders + [(b, src)], conds + cs)
            finally:
                facts = self.pc[mark + 1:]
                del self.pc[mark:]
                self.generic.pop()
                keep = [f for f in facts if not any(f is c for c in cs)]
                for f in keep:
                    if self.mentions(f, b):
                        self.pc.append(z3.ForAll([b], z3.Implies(rng, f)))
                    else:
                        self.pc.append(f)
            return r
        fr = self.frame
        self.frame = self.new_frame(fr, fr.mod, fr.key)
        self.frame.chain = fr.chain
        self.frame.caller = fr.caller
        self.pure += 1
        try:
            return go(0, [], [])
        finally:
            self.pure -= 1
            self.frame = fr

    def mentions(self, f, b):
        seen = set()
        stack = [f]
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                stack.append(e.body())
            elif z3.is_app(e):
                if e.eq(b):
                    return True
                stack.extend(e.children())
        return False

    def generic_source(self, src):
        """(binder, range condition, element function)"""
        if isinstance(src, PyTuple):
            src = self.to_listval(src)
        if isinstance(src, Ref) and self.content(src, True)[1] is None:
            src = SeqV(I(0), lambda k: Val(INT, k), INT)
        if isinstance(src, ObjV):
            src = self.iter_seq(src)
        if isinstance(src, (Ref, Val)):
            v = self.to_val(src)
            t = res(v.ty)
            if t.kind == "cls":
                src = self.iter_seq(src)
            elif t.kind == "set":
                src = DomV(v.z, t.args[0])
            elif t.kind == "dict":
                src = DomV(d_dom(v.z), t.args[0])
            else:
                src = self.iter_seq(src)
        if isinstance(src, DomV):
            b = z3.Const(self.fresh_name("x"), sort(src.elt))
            w = src.wrap or (lambda x: x)
            return b, z3.Select(src.dom, b), lambda q: w(Val(src.elt, q))
        if src.kind == "range":
            b = z3.Const(self.fresh_name("i"), z3.IntSort())
            return b, z3.And(src.lo <= b, b < src.hi), \
                lambda q: Val(INT, q)
        b = z3.Const(self.fresh_name("i"), z3.IntSort())
        return b, z3.And(0 <= b, b < src.n), lambda q: src.get(q)

    def ex_SetComp(self, node):
        r = self.loop_comp(node)
        if r is not None:
            return r
        return self.alloc(self.set_comp(node))

    def set_comp(self, node):
        box = {}

        def k(binders, conds):
            e = self.to_val(self.ev(node.elt))
            box.update(e=e, b=[b for b, _ in binders], c=z3.And(conds))
        self.gens(node, k)
        e, bs, c = box["e"], box["b"], box["c"]
        ty = T("set", [e.ty])
        if len(bs) == 1 and e.z.eq(bs[0]):
            R = self.fresh("setc", sort(ty))
            self.pc.append(z3.ForAll(bs, z3.Select(R, bs[0]) == c,
                                     patterns=[z3.Select(R, bs[0])]))
            return Val(ty, R)
        R = self.fresh("setc", sort(ty))
        y = z3.Const(self.fresh_name("y"), sort(e.ty))
        ws = [self.fresh_fn("w", [sort(e.ty)], b.sort())(y) for b in bs]
        sub = list(zip(bs, ws))
        self.pc.append(z3.ForAll(bs, z3.Implies(c, z3.Select(R, e.z))))
        self.pc.append(z3.ForAll([y], z3.Implies(
            z3.Select(R, y), z3.And(z3.substitute(c, *sub),
                                    z3.substitute(e.z, *sub) == y)),
            patterns=[z3.Select(R, y)]))
        return Val(ty, R)

    def ex_DictComp(self, node):
        r = self.loop_comp(node)
        if r is not None:
            return r
        box = {}

        def k(binders, conds):
            kk = self.to_val(self.ev(node.key))
            v = self.ev(node.value)
            if self.comp_type(node) is not None:
                v = self.mark(v, self.comp_type(node).args[1])
            if isinstance(v, Ref) and self.content(v, True)[1] is None:
                box["open"] = self.content(v, True)[0]
                d = self.comp_type(node)
                if d is not None:
                    unify(d.args[1], box["open"])
                if open_type(res(box["open"])):
                    vz = None
                else:
                    vz = self.to_val(v)
            else:
                if isinstance(v, Ref):
                    r = self.follow(v)
                    if r.path or self.origin.get(r.cid) is None or \
                            r.cid <= box.get("nc", self.ncell0):
                        self.freeze_ref(v)
                vz = self.to_val(v)
            box.update(k=kk, v=vz, b=[b for b, _ in binders],
                       c=z3.And(conds))
        self.ncell0 = self.ncell
        self.gens(node, k)
        kk, v, bs, c = box["k"], box["v"], box["b"], box["c"]
        if v is None:
            # values of a type not known yet: delay by declaring it
            ty = T("dict", [kk.ty, box["open"]])
            return self.alloc_pending(ty, kk, bs, c)
        ty = T("dict", [kk.ty, v.ty])
        R = self.fresh("dictc", sort(ty))
        if len(bs) == 1 and kk.z.eq(bs[0]):
            x = bs[0]
            self.pc.append(z3.ForAll([x], z3.Select(d_dom(R), x) == c,
                                     patterns=[z3.Select(d_dom(R), x)]))
            self.pc.append(z3.ForAll([x], z3.Implies(
                c, z3.Select(d_val(R), x) == self.term(v)),
                patterns=[z3.Select(d_val(R), x)]))
            if res(v.ty).kind in ("list", "dict"):
                pass
        else:
            y = z3.Const(self.fresh_name("y"), sort(kk.ty))
            ws = [self.fresh_fn("w", [sort(kk.ty)], b.sort())(y)
                  for b in bs]
            sub = list(zip(bs, ws))
            self.pc.append(z3.ForAll(bs, z3.Implies(
                c, z3.Select(d_dom(R), kk.z))))
            self.pc.append(z3.ForAll([y], z3.Implies(
                z3.Select(d_dom(R), y),
                z3.And(z3.substitute(c, *sub),
                       z3.substitute(kk.z, *sub) == y,
                       z3.Select(d_val(R), y) ==
                       z3.substitute(self.term(v), *sub))),
                patterns=[z3.Select(d_dom(R), y), z3.Select(d_val(R), y)]))
            if len(bs) == 1 and bs[0].sort() == z3.IntSort():
                w = self.fresh_fn  # later entries win
                wk = z3.substitute(ws[0], (y, kk.z))
                self.pc.append(z3.ForAll(bs, z3.Implies(
                    c, z3.And(z3.Select(d_dom(R), kk.z), bs[0] <= wk))))
        return self.alloc(Val(ty, R))

    def comp_type(self, node):
        t = self.contract.locals.get("_comp")
        return t

    def alloc_pending(self, ty, kk, bs, c):
        raise Unsupported("dictionary of empty containers of unknown type "
                          "(declare the type of the variable)")

    def loop_comp(self, node):
        """The comprehension as a loop, if the contract annotates it."""
        fs = comp_loops(node)
        o = self.loopmap.get((self.frame.chain, id(fs[0])))
        if o not in self.contract.loops or self.pure:
            return None
        fr = self.frame
        self.frame = self.new_frame(fr, fr.mod, fr.key)
        self.frame.chain = fr.chain
        try:
            if isinstance(node, ast.DictComp):
                v = self.ex_Dict(ast.Dict(keys=[], values=[]))
            elif isinstance(node, ast.SetComp):
                v = self.ev(ast.parse("set()", mode="eval").body)
            else:
                v = self.ex_List(ast.List(elts=[]))
            self.setvar("_out", v)
            self.stmt(fs[0])
            return self.ev(ast.Name("_out", ast.Load()))
        finally:
            self.frame = fr

    def ex_ListComp(self, node):
        r = self.loop_comp(node)
        if r is not None:
            return r
        return self.alloc(self.list_comp(node))

    ex_GeneratorExp = ex_ListComp

    def list_comp(self, node):
        if len(node.generators) != 1:
            return self.multi_list_comp(node)
        g = node.generators[0]
        src = self.ev(g.iter)
        if isinstance(src, PyTuple) and not self.pure:
            if not src.items:
                return Val(T("list", [tvar()]), None)
            if not g.ifs:
                out = []
                fr = self.frame
                self.frame = self.new_frame(fr, fr.mod, fr.key)
                self.frame.chain = fr.chain
                try:
                    for x in src.items:
                        self.assign(g.target, x)
                        out.append(self.ev(node.elt))
                finally:
                    self.frame = fr
                return self.build_list(out)
        if isinstance(src, Ref) and self.content(src, True)[1] is None:
            return Val(T("list", [tvar()]), None)
        seq = self.iter_seq(src)
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        rng = z3.And(0 <= i, i < seq.n)
        fr = self.frame
        self.frame = self.new_frame(fr, fr.mod, fr.key)
        self.frame.chain = fr.chain
        self.pure += 1
        self.generic.append((i, rng))
        mark = len(self.pc)
        self.pc.append(rng)
        conds = []
        try:
            self.assign(g.target, seq.get(i))
            for c in g.ifs:
                f = self.truth(self.ev(c))
                conds.append(f)
                self.pc.append(f)
            v = self.ev(node.elt)
            if isinstance(v, Ref):
                t, z = self.content(v, True)
                if z is None:
                    raise Unsupported("list of containers of unknown type")
            e = self.to_val(v)
        finally:
            facts = [f for f in self.pc[mark + 1:]
                     if not any(f is c for c in conds)]
            del self.pc[mark:]
            self.generic.pop()
            self.pure -= 1
            self.frame = fr
        lt = T("list", [e.ty])
        R = self.fresh("comp", sort(lt))
        ez = self.term(e)
        self.pc.append(l_len(R) >= 0)
        if not conds:
            self.pc.append(l_len(R) == seq.n)
            pats = [l_get(R, i)]
            trig = self.seq_trigger(seq, i)
            if trig is not None:
                pats.append(trig)
            if facts:
                self.pc.append(z3.ForAll([i], z3.Implies(
                    rng, z3.And(facts + [l_get(R, i) == ez])),
                    patterns=pats))
            else:
                self.pc.append(z3.ForAll([i], z3.Implies(
                    rng, l_get(R, i) == ez), patterns=pats))
            return Val(lt, R)
        c = z3.And(conds)
        for f in facts:
            self.pc.append(z3.ForAll([i], z3.Implies(rng, f)))
        pos = self.fresh_fn("pos", [z3.IntSort()], z3.IntSort())
        inv = self.fresh_fn("inv", [z3.IntSort()], z3.IntSort())
        j = z3.Const(self.fresh_name("j"), z3.IntSort())
        j2 = z3.Const(self.fresh_name("j"), z3.IntSort())
        at = lambda f: z3.substitute(f, (i, pos(j)))
        inr = z3.And(0 <= j, j < l_len(R))
        self.pc.append(z3.ForAll([j], z3.Implies(inr, z3.And(
            0 <= pos(j), pos(j) < seq.n, at(c), l_get(R, j) == at(ez),
            inv(pos(j)) == j)), patterns=[l_get(R, j), pos(j)]))
        self.pc.append(z3.ForAll([j, j2], z3.Implies(
            z3.And(0 <= j, j < j2, j2 < l_len(R)), pos(j) < pos(j2)),
            patterns=[z3.MultiPattern(pos(j), pos(j2))]))
        trig = self.seq_trigger(seq, i)
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(rng, c), z3.And(0 <= inv(i), inv(i) < l_len(R),
                                   pos(inv(i)) == i,
                                   l_get(R, inv(i)) == ez)),
            patterns=[trig] if trig is not None else [inv(i)]))
        self.pc.append(l_len(R) <= seq.n)
        return Val(lt, R)

    def seq_trigger(self, seq, i):
        if seq.listz is not None:
            return l_get(seq.listz.z, i)
        return None

    def multi_list_comp(self, node):
        """The elements correspond one to one to the values of the binders
        satisfying the conditions (their order is left open)."""
        box = {}

        def k(binders, conds):
            e = self.to_val(self.ev(node.elt))
            box.update(e=e, b=[b for b, _ in binders], c=conds)
        self.gens(node, k)
        e, bs, cs = box["e"], box["b"], box["c"]
        c = z3.And(cs)
        lt = T("list", [e.ty])
        R = self.fresh("comp", sort(lt))
        ez = self.term(e)
        i = z3.Const(self.fresh_name("i"), z3.IntSort())
        ws = [self.fresh_fn("w", [z3.IntSort()], b.sort())(i) for b in bs]
        inv = self.fresh_fn("inv", [b.sort() for b in bs], z3.IntSort())
        sub = list(zip(bs, ws))
        self.pc.append(l_len(R) >= 0)
        self.pc.append(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < l_len(R)), z3.And(
                z3.substitute(c, *sub), inv(*ws) == i,
                l_get(R, i) == z3.substitute(ez, *sub))),
            patterns=[l_get(R, i)]))
        n = inv(*bs)
        pats = [n]
        sel = [f for f in cs if z3.is_select(f)]
        if all(any(self.mentions(f, b) for f in sel) for b in bs):
            pats.append(z3.MultiPattern(*sel))
        self.pc.append(z3.ForAll(bs, z3.Implies(c, z3.And(
            0 <= n, n < l_len(R), l_get(R, n) == ez,
            *[z3.substitute(w, (i, n)) == b for w, b in zip(ws, bs)])),
            patterns=pats if len(pats) > 1 else []))
        return Val(lt, R)

    def quantified(self, node, univ):
        """all(...) / any(...) of a generator expression."""
        box = {}

        def k(binders, conds):
            e = self.truth(self.ev(node.elt))
            box.update(e=e, b=[b for b, _ in binders], c=z3.And(conds))
        self.gens(node, k)
        e, bs, c = box["e"], box["b"], box["c"]
        if univ:
            return Val(BOOL, z3.ForAll(bs, z3.Implies(c, e)))
        return Val(BOOL, z3.Exists(bs, z3.And(c, e)))
