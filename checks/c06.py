"""C06: combining distributions neither loses nor invents probability."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, EXACT, TOTAL_RULE, subj, distmap, sym, tm, sq, const, ZERO, ONE, TRUE, FALSE
from . import spec as sp
from . import c17

RULES = ["a binary operator counts every jointly possible pair of outcomes once with the product of their counts",
         "a unary operator carries every count over to the value of the operator",
         "a distribution built from a table has exactly that table",
         "result map and probabilities are the counts per value and those counts divided by their total", EXACT, TOTAL_RULE]

METHODS = {"+": "__add__", "-": "__sub__", "*": "__mul__", "//": "__floordiv__", "==": "__equal__", "!=": "__not_equal__",
           "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__", "AND": "__and__", "OR": "__or__",
           "MAX": "max_operator", "MIN": "min_operator"}
UNARY = {"!": "not_operator", "ABS": "__abs__"}


def table(S, d):
    return S.freeze(S.meth(d, "get_constraint_result_map"))


def main():
    chk = Check("C06")
    S = chk.session()
    A, B = S.obj("A", "IDiceExpression"), S.obj("B", "IDiceExpression")
    da = lambda: S.i.models.dist_of(S.i, A)
    db = lambda: S.i.models.dist_of(S.i, B)
    ma, mb = distmap(A), distmap(B)
    cls = "ProbabilityDistribution"
    for op, meth in METHODS.items():
        f = sp.BINARY[op][2]

        def one(op=op, meth=meth, f=f):
            code = chk.run(S, lambda: table(S, S.meth(da(), meth, db())))
            chk.same(subj(S, cls, meth), RULES[0], code, Res(sp.combine(f, ma, mb)), values_only=True)
            chk.exact(subj(S, cls, meth), code)
            chk.total(subj(S, cls, meth), code, sp.has_value(mb, ZERO) if op == "//" else FALSE)
            code = chk.run(S, lambda: table(S, S.meth(da(), meth, da())))
            chk.total(subj(S, cls, meth) + " [with itself]", code, sp.has_value(ma, ZERO) if op == "//" else FALSE)
            chk.same(subj(S, cls, meth) + " [with itself]", RULES[0], code, Res(sp.combine(f, ma, ma)), values_only=True)
            code = chk.run(S, lambda: table(S, S.meth(S.meth(da(), meth, db()), "not_operator")))
            g = lambda x, y: sp.UNARY["!"][1](f(x, y))
            chk.same(subj(S, cls, meth) + " [then !]", RULES[0], code, Res(sp.combine(g, ma, mb)), values_only=True)
        chk.guard("%s.%s" % (cls, meth), RULES[0], one)
    for op, meth in UNARY.items():
        def one(op=op, meth=meth):
            code = chk.run(S, lambda: table(S, S.meth(da(), meth)))
            chk.same(subj(S, cls, meth), RULES[1], code, Res(sp.apply1(sp.UNARY[op][1], ma)), values_only=True)
            chk.exact(subj(S, cls, meth), code)
            chk.total(subj(S, cls, meth), code)
        chk.guard("%s.%s" % (cls, meth), RULES[1], one)

    # construction
    x = tm.fresh_bv("int")
    im = sym("table", ("map", "int", "int"))
    from_ints = sq.map_(None, [((x,), (sq.keys(im),), TRUE, sq.outcome(x, sq.CS_EMPTY), sq.mget(im, x))])

    def constr():
        fac = S.new("ProbabilityDistributionFactory")
        ofac = S.new("ProbabilityOutcomeFactory")
        for lab, mk in (("ProbabilityDistribution.__init__", lambda m: S.new(cls, ofac, m)),
                        ("ProbabilityDistributionFactory.create", lambda m: S.meth(fac, "create", m))):
            c, m = lab.split(".")
            code = chk.run(S, lambda: table(S, mk(S.dict_(im, origin=im))))
            chk.same(subj(S, c, m) + " [table of values]", RULES[2], code, Res(from_ints), values_only=True)
            chk.total(subj(S, c, m) + " [table of values]", code)
            code = chk.run(S, lambda: table(S, mk(S.dict_(ma, origin=A))))
            chk.same(subj(S, c, m) + " [table of outcomes]", RULES[2], code, Res(ma), values_only=True)
            chk.total(subj(S, c, m) + " [table of outcomes]", code)
        # a table that names some outcomes by their value and some by themselves
        w = [sym("nat:w%d" % j, "int") for j in range(5)]
        cs = sym("history", "cs")
        o1, o2, oh = sq.outcome(ONE, sq.CS_EMPTY), sq.outcome(const(2), sq.CS_EMPTY), sq.outcome(ONE, cs)
        for lab, ks in (("value first", (ONE, const(3), o1, o2)), ("outcome first", (o2, o1, ONE, const(4))), ("both with histories", (oh, ONE, o2, const(2)))):
            mixed = sq.map_lit(list(zip(ks, w)))
            want = sq.map_(None, [((), (), TRUE, sq.outcome(k, sq.CS_EMPTY) if k.ty == "int" else k, c) for k, c in zip(ks, w)])
            code = chk.run(S, lambda: table(S, S.new(cls, ofac, S.dict_(mixed))))
            chk.same(subj(S, cls, "__init__") + " [table of both, %s]" % lab, RULES[2], code, Res(want), values_only=True)
            chk.total(subj(S, cls, "__init__") + " [table of both, %s]" % lab, code)
        for lab, thunk in (("no table", lambda: S.meth(fac, "create")), ("None", lambda: S.meth(fac, "create", tm.NONE)),
                           ("empty table", lambda: S.meth(fac, "create", S.dict_(sq.EMPTY_MAP)))):
            code = chk.run(S, lambda: table(S, thunk()))
            chk.same(subj(S, "ProbabilityDistributionFactory", "create") + " [%s]" % lab, RULES[2], code, Res(sq.EMPTY_MAP), values_only=True)
            chk.total(subj(S, "ProbabilityDistributionFactory", "create") + " [%s]" % lab, code)
    chk.guard(cls + ".__init__", RULES[2], constr)

    # views
    vt = sp.value_table(ma)

    def views():
        code = chk.run(S, lambda: S.freeze(S.meth(da(), "get_result_map")))
        chk.same(subj(S, cls, "get_result_map"), RULES[3], code, Res(vt), values_only=True)
        chk.total(subj(S, cls, "get_result_map"), code)
        code = chk.run(S, lambda: S.freeze(S.meth(da(), "get_dict_form")))
        chk.same(subj(S, cls, "get_dict_form"), RULES[3], code,
                 chk.ref(S, "probabilities", S.dict_(vt)), values_only=True)
        # the views of a combination and of a table of plain values
        code = chk.run(S, lambda: S.freeze(S.meth(S.meth(da(), "__add__", db()), "get_result_map")))
        chk.same(subj(S, cls, "get_result_map") + " [of a sum]", RULES[3], code,
                 Res(sp.value_table(sp.combine(tm.add, ma, mb))), values_only=True)
        code = chk.run(S, lambda: S.freeze(S.meth(S.meth(da(), "__mul__", db()), "get_dict_form")))
        chk.same(subj(S, cls, "get_dict_form") + " [of a product]", RULES[3], code,
                 chk.ref(S, "probabilities", S.dict_(sp.value_table(sp.combine(tm.mul, ma, mb)))), values_only=True)
    chk.guard(cls + " views", RULES[3], views)
    # when two outcomes are one entry of a table
    c17.study(chk, False)
    return chk.finish(RULES + [c17.NOT_MERGED])

