"""C01: symbolic negation."""
from pydv.lib import REG, Loop

SN = "pads._not.SymbolicNegation"

# A negation is described by the value it negates, which is never itself a
# negation.  As an opaque object it is boxed('SymbolicNegation', value).
REG.klass("SymbolicNegation", SN, "Obj", fields="negation:Obj",
          abs="self.negation",
          boxed="not isinst('SymbolicNegation', m)",
          attrs={"negation": "m"},
          inv=[("the negated value is no negation",
                "not isinst('SymbolicNegation', self.negation)")])

# the value of Not(x)
REG.fun("neg", "x:Obj", "Obj", "ite(isinst('SymbolicNegation', x), "
        "unboxed('SymbolicNegation', x), boxed('SymbolicNegation', x))",
        auto=True)

REG.fn(SN + ".__init__", props=["C01"], params="self:SymbolicNegation, x:Obj",
       raises={"DoubleNegationError": "isinst('SymbolicNegation', x)"},
       torn=True,
       ensures=[("the value is stored", "self == x")])

REG.fn(SN + ".negate", props=["C01"], params="self:SymbolicNegation",
       returns="Obj",
       ensures=[("negating gives the value back", "result == self")])

REG.fn(SN + ".__eq__", props=["C01"],
       params="self:SymbolicNegation, other:Obj", returns="bool",
       ensures=[("negations are equal exactly when the values are",
                 "iff(result, other == boxed('SymbolicNegation', self))"),
                ("equality is that of the values",
                 "imp(isinst('SymbolicNegation', other), iff(result, "
                 "unboxed('SymbolicNegation', other) == self))")])

REG.fn(SN + ".__hash__", props=["C01"], params="self:SymbolicNegation",
       returns="int",
       ensures=[("the hash depends on the value only",
                 "result == -hashof(self)")])

REG.fn("pads._not.Not", props=["C01"], params="x:Obj", returns="Obj",
       ensures=[("value", "result == neg(x)"),
                ("negation of the negation is the value", "neg(result) == x"),
                ("no fixed point", "result != x"),
                ("one of the two is a negation",
                 "iff(isinst('SymbolicNegation', result), "
                 "not isinst('SymbolicNegation', x))")])

REG.lemma("neg_injective", "x:Obj, y:Obj", props=["C01"],
          ensures=["iff(neg(x) == neg(y), x == y)", "neg(neg(x)) == x",
                   "neg(x) != x"])
