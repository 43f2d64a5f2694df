"""C04: a dice pool is that many independent draws from its side table."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, EXACT, subj, tm, sq, const, dist_term, ZERO, ONE, N_VAL, TIER
from .exprs import forms, small_counts, side_table
from . import spec as sp

RULES = ["rolling a pool is the sum of exactly that many independent draws weighted by the sides' multiplicities",
         "the distribution of a pool is the N-fold sum of the same weighted side table; no dice are the constant zero",
         "the distribution carries no variable history", EXACT]


def as_dist(t):
    x = tm.fresh_bv("int")
    sq.note_member(x, sq.keys(t))
    return sq.map_(None, [((x,), (sq.keys(t),), tm.TRUE, sq.outcome(x, sq.CS_EMPTY), sq.mget(t, x))])


def main():
    chk = Check("C04")
    S = chk.session()
    fac = S.new("ProbabilityDistributionFactory")
    for fm in forms(S, fac, rich="more"):
        if fm.kind != "dice":
            continue

        def one(fm=fm):
            t = side_table(chk, S, fm.sides)
            code = chk.run(S, lambda: S.freeze(S.meth(fm.make(), "roll")))
            chk.same(subj(S, fm.cls, "roll") + " [%s]" % fm.label, RULES[0], code, chk.ref(S, "pool_roll", fm.count, S.dict_(t)), where=fm.where,
                     over=small_counts(fm.label), law=True)
            code = chk.run(S, lambda: dist_term(S, fm.make()))
            spec = chk.ref(S, "pool_counts", fm.count, S.dict_(t))
            chk.same(subj(S, fm.cls, "get_probability_distribution") + " [%s]" % fm.label, RULES[1], code, Res(as_dist(spec.value)), where=fm.where,
                     over=small_counts(fm.label), plain=True)
            chk.exact(subj(S, fm.cls, "get_probability_distribution") + " [%s]" % fm.label, code)
        chk.guard("%s [%s]" % (fm.cls, fm.label), RULES[0], one)
    literal(chk, S, fac)
    return chk.finish(RULES)


SIDES = {"2": {1: 1, 2: 1}, "6": {k: 1 for k in range(1, 7)}, "F": {-1: 1, 0: 1, 1: 1}, "[1,3*2]": {1: 1, 3: 2}, "[-2,0,5-6*3]": {-2: 1, 0: 1, 5: 3, 6: 3},
         "%": {k: 1 for k in range(1, 101)}, "1": {1: 1}}
COUNTS = {"2": list(range(18)) + [31, 32, 33, 63, 64, 65, 127, 128], "6": list(range(8)) + [16], "F": list(range(8)), "[1,3*2]": list(range(12)) + [31, 32],
          "[-2,0,5-6*3]": list(range(6)), "%": [0, 1, 2], "1": [0, 1, 2, 31, 100, 1000]}


def lit_map(d):
    return sq.map_(None, [((), (), tm.TRUE, sq.outcome(const(v), sq.CS_EMPTY), const(c)) for v, c in sorted(d.items())])


def literal(chk, S, fac):
    """pools with a written-out number of dice: the code is interpreted with that constant, however it splits the pool up"""
    for side, counts in COUNTS.items():
        tot, now = {0: 1}, 0
        for n in counts:
            while now < n:
                new = {}
                for v, c in tot.items():
                    for x, w in SIDES[side].items():
                        new[v + x] = new.get(v + x, 0) + c * w
                tot, now = new, now + 1

            def one(n=n, tot=tot):
                text = const("%dd%s" % (n, side))
                code = chk.run(S, lambda: dist_term(S, S.new("DiceExpression", text, fac)))
                chk.same(subj(S, "DiceExpression", "get_probability_distribution") + " [%dd%s]" % (n, side), RULES[1], code, Res(lit_map(tot)), n=2)
                if n < 6 and side != "%":
                    t = sq.map_lit([(const(v), const(c)) for v, c in SIDES[side].items()])
                    code = chk.run(S, lambda: S.freeze(S.meth(S.new("DiceExpression", text, fac), "roll")))
                    chk.same(subj(S, "DiceExpression", "roll") + " [%dd%s]" % (n, side), RULES[0], code, chk.ref(S, "pool_roll", const(n), S.dict_(t)), n=2, law=True)
            chk.guard("DiceExpression [%dd%s]" % (n, side), RULES[1], one)
