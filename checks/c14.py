"""C14: estimating the cost is cheap and structural."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, tm, const, add, HOLDS, VIOLATED, FALSE, N_VAL
from .exprs import forms, small_counts, side_table, K

RULES = ["the estimated cost is the documented function of the operands' costs or of the dice",
         "estimating the cost never rolls dice, draws random numbers or asks for a distribution"]


def main():
    chk = Check("C14")
    S = chk.session(log_new=True)
    fac = S.new("ProbabilityDistributionFactory")
    cost = lambda e: tm.app("m:estimated_cost", (e,), "int")
    for fm in forms(S, fac, rich="more"):
        def one(fm=fm):
            code = chk.run(S, lambda: S.freeze(S.meth(fm.make(), "estimated_cost")))
            sj = subj(S, fm.cls, "estimated_cost") + " [%s]" % fm.label
            if fm.kind == "binary":
                sp_ = Res(add(cost(fm.operands[0]), cost(fm.operands[1])))
            elif fm.label == "!":
                sp_ = Res(tm.lift(tm.floordiv, tm.mul(const(11), cost(fm.operands[0])), const(10)))
            elif fm.kind == "unary":
                sp_ = Res(cost(fm.operands[0]))
            elif fm.kind == "const":
                sp_ = Res(const(2))
            elif fm.kind == "assign":
                sp_ = Res(add(const(2), cost(fm.operands[0])))
            elif fm.kind in ("dice", "dropkeep"):
                t = side_table(chk, S, fm.sides)
                if fm.kind == "dice":
                    sp_ = chk.ref(S, "dice_cost", fm.count, S.dict_(t))
                else:
                    sp_ = chk.ref(S, "keep_cost" if fm.keep == "k" else "drop_cost", fm.count, K, S.dict_(t))
            else:
                sp_ = None
            if sp_ is not None:
                chk.same(sj, RULES[0], code, sp_, plain=True, where=fm.where, over=counts(fm.label) if fm.sides else nonneg)
            bad = [e for e in code.events if e.guard is not FALSE and (
                e.kind in ("roll", "rng") or (e.kind == "new" and S.i.implements(S.cls(e.name), "IProbabilityDistribution")) or e.name == "get_probability_distribution" or
                (e.kind == "query" and e.name in ("max", "min", "get_var")))]
            chk.holds(sj, RULES[1], not bad, "the estimate performs %s" % (bad[:1] and (bad[0].kind, bad[0].name, str(bad[0].where))), "effects")
        chk.guard("%s [%s]" % (fm.cls, fm.label), RULES[0], one)
    return chk.finish(RULES)


def counts(label):
    """small numbers, and now and then larger ones: an estimate does not build the tables"""
    import random
    small = small_counts(label)

    def over(k):
        d = small(k)
        r = random.Random("cost %s/%d" % (label, k))
        if k % 3 == 0:
            d.update({n: r.choice((7, 12, 40, 64, 101, 257, 1000)) + r.randrange(8) for n in ("nat:N", "nat:K") if n in d})
        if k % 6 == 0 and "nat:X" in d:
            d["nat:X"] = r.choice((20, 100, 130))
        return d
    return over


def nonneg(k):
    """costs of operands are never negative"""
    return {}
