"""C02: max and min are the true extremes of the distribution."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, EXACT, fails, subj, dist_term, sq, tm, N_VAL
from . import spec as sp
from .exprs import forms, small_counts

RULES = ["max(e) is the largest value in e's own distribution", "min(e) is the smallest value in e's own distribution",
         "max and min answer whenever the distribution does", EXACT]


def main():
    chk = Check("C02")
    S = chk.session()
    fac = S.new("ProbabilityDistributionFactory")
    for fm in forms(S, fac, rich="more"):
        if fm.kind == "name":
            continue  # reports what the assignment of the same query stored (C10)

        def one(fm=fm):
            d = chk.run(S, lambda: dist_term(S, fm.make()))
            vals = sq.keys(sp.value_table(d.value)) if d.value is not None else None
            for m, ext, rule in (("max", sq.smax, RULES[0]), ("min", sq.smin, RULES[1])):
                code = chk.run(S, lambda: S.freeze(S.meth(fm.make(), m)))
                sj = subj(S, fm.cls, m) + " [%s]" % fm.label
                if fm.kind == "assign":
                    spec = Res(ext(sq.keys(sp.value_table(sp.distmap(fm.operands[0])))))
                elif vals is None:
                    spec = Res(tm.unk("no distribution"))
                else:
                    spec = Res(ext(vals))
                chk.exact(sj, code)
                if vals is not None:
                    chk.same(sj, RULES[2], Res(tm.and_(fails(code), tm.not_(fails(d)))), Res(tm.FALSE), where=fm.where, n=24 if fm.kind in ("dice", "dropkeep") else 2 * N_VAL, plain=True,
                             over=small_counts(fm.label) if fm.kind in ("dice", "dropkeep") else None)
                known = ()
                if fm.label in ("MAX", "MIN"):
                    a, b = [tm.app("m:" + m, (o,), "int") for o in fm.operands]
                    known = [("combination of operand extremes", Res((sp.t_max if fm.label == "MAX" else sp.t_min)(a, b)))]
                chk.same(sj, rule, code, spec, where=fm.where, values_only=True, known=known,
                         n=24 if fm.kind == "dropkeep" and N_VAL == 60 else None,
                         over=small_counts(fm.label) if fm.kind in ("dice", "dropkeep") else None)
        chk.guard("%s [%s]" % (fm.cls, fm.label), RULES[0], one)
    # the distribution's own extremes
    def own():
        A = S.obj("A", "IDiceExpression")
        for m, ext, rule in (("max", sq.smax, RULES[0]), ("min", sq.smin, RULES[1])):
            code = chk.run(S, lambda: S.freeze(S.meth(S.i.models.dist_of(S.i, A), m)))
            chk.same(subj(S, "ProbabilityDistribution", m), rule, code,
                     Res(ext(sq.keys(sp.value_table(sp.distmap(A))))), values_only=True)
    chk.guard("ProbabilityDistribution", RULES[0], own)
    return chk.finish(RULES)
