"""C03: dice notation denotes exactly the documented sides."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, tm, sq, txt, nat, sym, const, dist_term, eq, not_, ZERO, ONE, TIER
from .exprs import side_table, num, ge1
from . import spec as sp

RULES = ["the sides of a die text are the documented multiset", "an omitted number of dice means one",
         "a keep/drop die has the same sides as the pool it is written with"]


def entry(kind, names, mult):
    """(text parts, (low, high, multiplier))"""
    a, b = names
    A, B = num(a), num(b)
    if kind in ("p", "n"):
        s = "" if kind == "p" else "-"
        v = A if kind == "p" else tm.neg(A)
        parts, lo, hi = (s, nat(a)), v, v
    else:
        s1, s2 = ("-" if c == "n" else "" for c in kind)
        parts = (s1, nat(a), "-", s2, nat(b))
        lo = tm.neg(A) if kind[0] == "n" else A
        hi = tm.neg(B) if kind[1] == "n" else B
    m = ONE
    if mult is not None:
        parts += ("*", nat(mult) if not mult.isdigit() else mult)
        m = num(mult) if not mult.isdigit() else const(int(mult))
    return parts, (lo, hi, m)


KINDS = ("p", "n", "pp", "pn", "np", "nn")


def lists():
    """(label, text, entries)"""
    out = []
    for k in KINDS:
        for m in (None, "M", "3"):
            p, e = entry(k, "PQ", m)
            for lab, l, r in (("", "[", "]"), (" spaced", "[ ", "\t]"), (" comma", "[", ",]"), (" comma spaced", "[  ", " , ]")):
                if m == "3" and lab:
                    continue
                out.append((k + ("*" + m if m else "") + lab, (l,) + p + (r,), [e]))
    seps = [",", ", ", " , ", "\t,\n "]
    j = 0
    for k1 in KINDS:
        for k2 in KINDS:
            m1, m2 = [(None, None), ("M", None), (None, "2"), ("2", "M"), ("0", None)][j % 5]
            p1, e1 = entry(k1, "PQ", m1)
            p2, e2 = entry(k2, "RS", m2)
            tail = ["]", ",]", " ]", " , ]"][j % 4]
            out.append(("%s%s,%s%s %d" % (k1, "*" + m1 if m1 else "", k2, "*" + m2 if m2 else "", j), ("[",) + p1 + (seps[j % 4],) + p2 + (tail,), [e1, e2]))
            j += 1
    for k1, k2, k3 in (("p", "p", "p"), ("n", "pp", "p"), ("pn", "n", "np"), ("p", "nn", "n")):
        p1, e1 = entry(k1, "PQ", None)
        p2, e2 = entry(k2, "RS", "2")
        p3, e3 = entry(k3, "TU", None)
        out.append(("%s,%s*2,%s" % (k1, k2, k3), ("[",) + p1 + (",",) + p2 + (", ",) + p3 + (" ,]",), [e1, e2, e3]))
    # the same value in several entries
    P = nat("P")
    p = num("P")
    out.append(("repeated", ("[", P, ",", P, "*2,", P, "-", P, "]"), [(p, p, ONE), (p, p, const(2)), (p, p, ONE)]))
    out.append(("leading zeros", ("[0", P, ",-00", P, "*03]"),
                [(p, p, ONE), (tm.neg(p), tm.neg(p), const(3))]))
    return out


def main():
    chk = Check("C03")
    S = chk.session()
    fac = S.new("ProbabilityDistributionFactory")
    X = num("X")
    texts = [("X", (nat("X"),), [(ONE, X, ONE)]), ("0X", ("0", nat("X")), [(ONE, X, ONE)]),
             ("%", ("%",), [(ONE, const(100), ONE)]), ("F", ("F",), [(const(-1), ONE, ONE)])]
    texts += lists()
    thr = TIER == "thorough"
    for n, (lab, parts, entries) in enumerate(texts):
        def one(lab=lab, parts=parts, entries=entries, n=n):
            spec = sides_as_dist(chk, S, entries)
            where = ge1(X) if n < 2 else ge1(sq.map_len(side_table(chk, S, entries)))
            code = chk.run(S, lambda: dist_term(S, S.new("DiceExpression", txt("d", *parts), fac)))
            chk.same(subj(S, "DiceExpression", "get_probability_distribution") + " [d%s]" % lab, RULES[0], code, spec, where=where, plain=True)
            if n < 40 or thr:
                code = chk.run(S, lambda: dist_term(S, S.new("DropKeepExpression", txt("1d", *parts, "k1"), fac)))
                chk.same(subj(S, "DropKeepExpression", "get_probability_distribution") + " [1d%sk1]" % lab, RULES[2], code, spec, where=where, plain=True)
            if n < 4:
                for t2 in (txt("1d", *parts), txt("01d", *parts)):
                    code = chk.run(S, lambda: dist_term(S, S.new("DiceExpression", t2, fac)))
                    chk.same(subj(S, "DiceExpression", "get_probability_distribution") + " [1d%s]" % lab, RULES[1], code, spec, where=where, plain=True)
                code = chk.run(S, lambda: dist_term(S, S.new("DropKeepExpression", txt("d", *parts, "k2"), fac)))
                chk.same(subj(S, "DropKeepExpression", "get_probability_distribution") + " [d%sk2]" % lab, RULES[1], code, spec, where=where, plain=True)
        chk.guard("dice text d%s" % lab, RULES[0], one)
    literal(chk, S, fac)
    return chk.finish(RULES)


def written_out():
    """(text after the d, sides): texts without unknown parts"""
    import random
    out = [("1", {1: 1}), ("7", {k: 1 for k in range(1, 8)}), ("20", {k: 1 for k in range(1, 21)}), ("012", {k: 1 for k in range(1, 13)}),
           ("%", {k: 1 for k in range(1, 101)}), ("F", {-1: 1, 0: 1, 1: 1})]
    out += [("[1*00,2]", {2: 1}), ("[1*0,2]", {2: 1}), ("[3,3*0]", {3: 1}), ("[4-6*000,5*2]", {5: 2}), ("[007-009*02]", {7: 2, 8: 2, 9: 2}), ("[-0]", {0: 1}),
            ("[-0--0,0]", {0: 2}), ("[0-0*2,-0-1]", {0: 3, 1: 1}), ("[1000000-1000002]", {1000000: 1, 1000001: 1, 1000002: 1}), ("[1-2*100000,3]", {1: 100000, 2: 100000, 3: 1}),
            ("[-3--1,2*04,]", {-3: 1, -2: 1, -1: 1, 2: 4}), ("[-1--3,-2-0]", {-3: 1, -2: 2, -1: 2, 0: 1}), ("[12345678901234567890]", {12345678901234567890: 1}),
            ("[5*1,5-5*1,6-4*1]", {5: 3, 4: 1, 6: 1}), ("[1*12345678901234567890,2]", {1: 12345678901234567890, 2: 1})]
    r = random.Random("C03")
    for j in range(90):
        table, parts = {}, []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            lo = r.choice([-12, -5, -3, -1, 0, 1, 2, 3, 7, 10, 11, 100])
            sp = lambda: r.choice(["", "", "", " ", "  ", "\t", "\n"]) if j % 3 == 0 else ""
            hi, t = lo, str(lo)
            if r.random() < 0.5:
                hi = lo + r.choice([0, 1, 2, 5, -1, -2, -4, -9])
                t = "%d-%d" % (lo, hi)
            m = r.choice([None, None, 1, 2, 3, 10])
            if m is not None:
                t += "*%d" % m
            for k in range(min(lo, hi), max(lo, hi) + 1):
                table[k] = table.get(k, 0) + (1 if m is None else m)
            parts.append(sp() + t + sp())
        out.append(("[" + ",".join(parts) + r.choice(["", "", ","] if j % 3 else ["", " ", ",", ", "]) + "]", table))
    return out


def literal(chk, S, fac):
    """the same texts without unknown parts, whatever way the code takes them apart"""
    for text, table in written_out():
        def one(text=text, table=table):
            want = Res(sq.map_(None, [((), (), tm.TRUE, sq.outcome(const(v), sq.CS_EMPTY), const(c)) for v, c in sorted(table.items())]))
            for cls, t, rule in (("DiceExpression", "d" + text, RULES[0]), ("DiceExpression", "1d" + text, RULES[1]), ("DropKeepExpression", "1d%sk1" % text, RULES[2]),
                                 ("DropKeepExpression", "d%sd0" % text, RULES[1])):
                code = chk.run(S, lambda: dist_term(S, S.new(cls, const(t), fac)))
                chk.same(subj(S, cls, "get_probability_distribution") + " [%r]" % t, rule, code, want, n=2)
        chk.guard("dice text %r" % text, RULES[0], one)


def sides_as_dist(chk, S, entries):
    t = side_table(chk, S, entries)
    x = tm.fresh_bv("int")
    sq.note_member(x, sq.keys(t))
    return Res(sq.map_(None, [((x,), (sq.keys(t),), tm.TRUE, sq.outcome(x, sq.CS_EMPTY), sq.mget(t, x))]))
