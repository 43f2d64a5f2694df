"""C11: averages, cumulative and tabulated views describe the same distribution."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, TOTAL_RULE, fails, subj, distmap, sym, tm, sq
from . import spec as sp

RULES = ["average is the probability-weighted mean", "at_least(v) is the probability of v or more, for every integer between the extremes",
         "at_most(v) is the probability of v or less, for every integer between the extremes",
         "contains_zero says whether zero has a nonzero count", "outcomes of equal value are added together in every view",
         "max and min of a distribution are its extreme values", TOTAL_RULE]
VIEWS = [("average", "average_of", 0), ("at_least", "at_least_of", 1), ("at_most", "at_most_of", 2), ("contains_zero", "contains_zero_of", 3),
         ("get_dict_form", "probabilities", 4), ("max", "max_of", 5), ("min", "min_of", 5)]


def main():
    chk = Check("C11")
    S = chk.session()
    A, B = S.obj("A", "IDiceExpression"), S.obj("B", "IDiceExpression")
    cls = "ProbabilityDistribution"
    im = sym("table", ("map", "int", "int"))
    ma, mb = distmap(A), distmap(B)
    d = lambda e: S.i.models.dist_of(S.i, e)
    sources = [("", lambda: d(A), sp.value_table(ma)),
               (" [of a - b]", lambda: S.meth(d(A), "__sub__", d(B)), sp.value_table(sp.combine(tm.sub, ma, mb))),
               (" [of !a]", lambda: S.meth(d(A), "not_operator"), sp.value_table(sp.apply1(sp.UNARY["!"][1], ma)))]
    for lab, mk, counts in sources:
        for meth, ref, r in VIEWS:
            def one(lab=lab, mk=mk, counts=counts, meth=meth, ref=ref, r=r):
                code = chk.run(S, lambda: S.freeze(S.meth(mk(), meth)))
                chk.same(subj(S, cls, meth) + lab, RULES[r], code, chk.ref(S, ref, S.dict_(counts)), values_only=True)
                chk.total(subj(S, cls, meth) + lab, code, tm.or_(tm.eq(tm.ZERO, sq.map_len(counts)), fails(chk.ref(S, ref, S.dict_(counts)))))
            chk.guard("%s.%s" % (cls, meth), RULES[r], one)

    def ints():
        fac = S.new("ProbabilityDistributionFactory")
        for meth, ref, r in VIEWS:
            code = chk.run(S, lambda: S.freeze(S.meth(S.meth(fac, "create", S.dict_(im, origin=im)), meth)))
            chk.same(subj(S, cls, meth) + " [table of values]", RULES[r], code, chk.ref(S, ref, S.dict_(im)), values_only=True)
            chk.total(subj(S, cls, meth) + " [table of values]", code, tm.or_(tm.eq(tm.ZERO, sq.map_len(im)), fails(chk.ref(S, ref, S.dict_(im)))))
    chk.guard(cls, RULES[0], ints)
    return chk.finish(RULES)
