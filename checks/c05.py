"""C05: keep and drop select the highest dice in rolls, bounds and distribution."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, EXACT, subj, tm, sq, const, dist_term, ZERO, ONE, ite, lt, sub, mul, et, N_VAL, TIER
from .exprs import forms, small_counts, side_table, K
from .c04 import as_dist

RULES = ["a roll sums the K highest of N draws (keep) or what is left without the K highest (drop)",
         "max and min are the number of dice that count times the extreme side, and the constant zero when none counts",
         "the distribution counts every combination of N draws under the sum of the dice that count", EXACT]


def selected_counts(env, number, amount, table, keep):
    """multisets of N draws, and the sum of the selected ones"""
    number, amount = int(number), int(amount)
    n_sel = min(number, amount) if keep else max(0, number - amount)
    states = {(): 1}
    for _ in range(number):
        new = {}
        for s, c in states.items():
            for side, w in table.items():
                k = tuple(sorted(s + (side,)))
                new[k] = new.get(k, 0) + c * w
                env.budget -= 1
        if env.budget < 0:
            raise et.Unknown("budget")
        states = new
    out = {}
    for s, c in states.items():
        v = sum(s[len(s) - n_sel:] if keep else s[:n_sel])
        out[v] = out.get(v, 0) + c
    return {k: v for k, v in out.items() if v}


HOOKS = {"keepcounts": lambda env, n, k, t: selected_counts(env, n, k, et.mapv(t), True),
         "dropcounts": lambda env, n, k, t: selected_counts(env, n, k, et.mapv(t), False)}


def probabilities(a):
    """a distribution up to a common factor of its counts"""
    if a[0] != "value" or not isinstance(a[1], et.Tok) or a[1][0] != "map":
        return a
    tot = sum(v for _, v in a[1][1:])
    if not tot:
        return a
    return ("value", et.Tok(("map",) + tuple((k, et.Fraction(v) / tot) for k, v in a[1][1:] if v)))


def main():
    chk = Check("C05")
    S = chk.session()
    fac = S.new("ProbabilityDistributionFactory")
    n = 24 if TIER != "thorough" else None
    for fm in forms(S, fac, rich="more"):
        if fm.kind != "dropkeep":
            continue

        def one(fm=fm):
            t = side_table(chk, S, fm.sides)
            keep = fm.keep == "k"
            lab = " [%s]" % fm.label
            over = small_counts(fm.label)
            code = chk.run(S, lambda: S.freeze(S.meth(fm.make(), "roll")))
            chk.same(subj(S, fm.cls, "roll") + lab, RULES[0], code, chk.ref(S, "keep_roll" if keep else "drop_roll", fm.count, K, S.dict_(t)),
                     where=fm.where, over=over, law=True)
            left = sub(fm.count, K)
            n_sel = ite(lt(fm.count, K), fm.count, K) if keep else ite(lt(left, ZERO), ZERO, left)
            for m, ext in (("max", sq.smax), ("min", sq.smin)):
                code = chk.run(S, lambda: S.freeze(S.meth(fm.make(), m)))
                chk.same(subj(S, fm.cls, m) + lab, RULES[1], code, Res(mul(n_sel, ext(sq.keys(t)))), where=fm.where, over=over, plain=True)
            code = chk.run(S, lambda: dist_term(S, fm.make()))
            spec = tm.app("keepcounts" if keep else "dropcounts", (fm.count, K, t), ("map", "int", "int"))
            chk.same(subj(S, fm.cls, "get_probability_distribution") + lab, RULES[2], code, Res(as_dist(spec)), where=fm.where,
                     over=over, plain=True, hooks=HOOKS, norm=probabilities, n=n)
            chk.exact(subj(S, fm.cls, "get_probability_distribution") + " [%s]" % fm.label, code)
        chk.guard("%s %s" % (fm.cls, fm.label), RULES[0], one)
    literal(chk, S, fac)
    return chk.finish(RULES)


SIDES = {"2": {1: 1, 2: 1}, "4": {k: 1 for k in range(1, 5)}, "F": {-1: 1, 0: 1, 1: 1}, "[1,3*2]": {1: 1, 3: 2}, "[-12,-7,0,5*3]": {-12: 1, -7: 1, 0: 1, 5: 3},
         "[9,10,11,100]": {9: 1, 10: 1, 11: 1, 100: 1}}
LITERAL = {"2": range(10), "4": range(6), "F": range(6), "[1,3*2]": range(6), "[-12,-7,0,5*3]": range(5), "[9,10,11,100]": range(5)}


def literal(chk, S, fac):
    """written-out numbers of dice: the code is interpreted with these constants"""
    cls = "DropKeepExpression"
    for side, counts in LITERAL.items():
        table = SIDES[side]
        states, now = {(): 1}, 0
        for n in counts:
            while now < n:
                new = {}
                for st, c in states.items():
                    for v, w in table.items():
                        k = tuple(sorted(st + (v,)))
                        new[k] = new.get(k, 0) + c * w
                states, now = new, now + 1
            for k in sorted({0, 1, 2, n - 1, n, n + 1, 10} - {-1}):
                if TIER != "thorough" and side != "2" and n > 3 and k not in (1, 2, n - 1):
                    continue
                for letter in "kd":
                    n_sel = min(n, k) if letter == "k" else max(0, n - k)
                    out = {}
                    for st, c in states.items():
                        v = sum(st[n - n_sel:] if letter == "k" else st[:n_sel])
                        out[v] = out.get(v, 0) + c

                    def one(n=n, k=k, letter=letter, out=out):
                        lab = "%dd%s%s%d" % (n, side, letter, k)
                        code = chk.run(S, lambda: dist_term(S, S.new(cls, const(lab), fac)))
                        want = sq.map_(None, [((), (), tm.TRUE, sq.outcome(const(v), sq.CS_EMPTY), const(c)) for v, c in sorted(out.items())])
                        chk.same(subj(S, cls, "get_probability_distribution") + " [%s]" % lab, RULES[2], code, Res(want), n=2, norm=probabilities)
                        for m, ext in (("max", max), ("min", min)):
                            code = chk.run(S, lambda: S.freeze(S.meth(S.new(cls, const(lab), fac), m)))
                            chk.same(subj(S, cls, m) + " [%s]" % lab, RULES[1], code, Res(const(ext(out))), n=2)
                    chk.guard("%s [%dd%s%s%d]" % (cls, n, side, letter, k), RULES[2], one)
