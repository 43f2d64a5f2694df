"""C19: an expression knows exactly the variables it reads."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, tm, sq, sym
from .exprs import forms

RULES = ["the contained variables are the union of the operands' (a reference: its own name; constants, dice and assignments: none)",
         "asking for the contained variables does not change the operands' sets and hands out no set of theirs that later grows"]


def main():
    chk = Check("C19")
    S = chk.session()
    fac = S.new("ProbabilityDistributionFactory")
    cv = lambda e: tm.app("m:get_contained_variables", (e,), ("set", "str"))
    for fm in forms(S, fac, rich="more"):
        def one(fm=fm):
            code = chk.run(S, lambda: S.freeze(S.meth(fm.make(), "get_contained_variables")))
            sj = subj(S, fm.cls, "get_contained_variables") + " [%s]" % fm.label
            if fm.kind in ("binary", "unary"):
                sp_ = Res(sq.sunion([cv(o) for o in fm.operands]))
            elif fm.kind == "name":
                sp_ = Res(sq.sset([sym("name", "str")]))
            else:
                sp_ = Res(sq.EMPTY_SET)
            chk.same(sj, RULES[0], code, sp_, plain=True)
            bad = [e for e in code.events if e.kind == "mutate"]
            chk.holds(sj, RULES[1], not bad, "writes to a set that belongs to an operand (%s)" % (bad[:1] and bad[0].where,), "effects")
        chk.guard("%s [%s]" % (fm.cls, fm.label), RULES[0], one)
    return chk.finish(RULES)
