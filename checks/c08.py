"""C08: a constraint set means the conjunction of everything added to it."""
from itertools import permutations
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, tm, sq, sym, const, eq, not_, and_, or_, lt, TRUE, FALSE, ZERO, ONE, TIER, Obj, et

RULES = ["the set is possible exactly when no two demands on one variable are disjoint and nothing impossible was added",
         "a possible set accepts exactly the values that every constraint accepts",
         "the order in which constraints arrive and the way they are put together make no difference"]

V, W, Z, U, Y = (sym(n, ("set", "int")) for n in ("V", "W", "Z", "U", "Y"))
X1, X2, X3 = (sym(n, "int") for n in ("x", "y", "z"))


def demand(c):
    return {"aV": (0, V), "aW": (0, W), "aZ": (0, Z), "bU": (1, U), "bV": (1, V), "bY": (1, Y)}.get(c)


def possible(seq):
    if "imp" in seq:
        return FALSE
    c = TRUE
    for k in (0, 1):
        s = None
        for e in seq:
            d = demand(e)
            if d and d[0] == k:
                s = d[1] if s is None else sq.sinter(s, d[1])
        if s is not None:
            c = and_(c, not_(lt(sq.set_len(s), ONE)))
    return c


def accepts(seq, asg):
    c = TRUE
    for e in seq:
        d = demand(e)
        if d and d[0] in asg:
            c = and_(c, sq.in_set(asg[d[0]], d[1]))
    return c


def sequences():
    els = ["aV", "aW", "bU", "null", "imp"]
    out = [(e,) for e in els + ["bV"]]
    out += list(permutations(els, 2)) + [("aV", "bV"), ("bV", "aV"), ("aV", "aV"), ("null", "null"), ("imp", "imp")]
    out += list(permutations(["aV", "aW", "aZ"])) + list(permutations(["aV", "bU", "aW"])) + list(permutations(["aV", "bV", "aW"]))
    out += list(permutations(["aV", "aW", "null"])) + list(permutations(["aV", "aW", "imp"])) + list(permutations(["aV", "bU", "null"]))
    out += list(permutations(["aV", "bU", "imp"])) + [("aV", "aW", "aV"), ("aV", "null", "null"), ("imp", "null", "null"), ("imp", "null", "aV")]
    out += [("aV", "bU", "aW", "bY"), ("aV", "aW", "bU", "bY"), ("bU", "aV", "bY", "aW"), ("aV", "bU", "bY", "aW"), ("null", "aV", "bU", "aW"),
            ("aV", "bV", "aW", "bU"), ("aV", "aW", "aZ", "bU"), ("bU", "aV", "aW", "aZ"), ("aV", "null", "bU", "imp"), ("imp", "aV", "bU", "null"),
            ("aV", "bU", "aW", "null")]
    return out


FEW = [("aV",), ("aV", "aW"), ("aW", "aV"), ("aV", "bU"), ("aV", "aW", "aZ"), ("aV", "bU", "aW"), ("bU", "aV", "aW"), ("null", "aV", "aW"), ("aV", "bU", "aW", "bY")]


def main():
    chk = Check("C08")
    study(chk, sequences())
    return chk.finish(RULES)


def study(chk, seqs, accepted=True):
    """constraint sets mean the conjunction of what was added; also used where histories of outcomes matter"""
    S = chk.session()
    S.i.abstract_cs = False
    fac = S.new("ConstraintFactory")
    where = TRUE
    for s in (V, W, Z, U, Y):
        where = and_(where, not_(lt(sq.set_len(s), ONE)))
    pairs = [("a", "b")] + ([("a_1", "a_11"), ("b", "a")] if TIER == "thorough" else [("a_1", "a_11")])

    def con(c, names):
        if c == "null":
            return S.i.getattr(fac, "null_constraint")
        if c == "imp":
            return S.i.getattr(fac, "impossible_constraint")
        k, s = demand(c)
        return S.meth(fac, "var_value_constraint", const(names[k]), S.set_(s))

    def group(cs):
        return S.i.alloc(Obj("set", None, {"c": sq.sset(cs)}))

    def one_by_one(seq, names):
        r = S.new("ConstraintSet", group([con(seq[0], names)]), S.new("ConstraintMerger"))
        for c in seq[1:]:
            S.meth(r, "add_constraint", con(c, names))
        return r

    def at_once(seq, names):
        return S.new("ConstraintSet", group([con(c, names) for c in seq]), S.new("ConstraintMerger"))

    def from_factory(seq, names):
        r = S.meth(S.new("ConstraintSetFactory"), "create_constraint_set")
        for c in seq:
            S.meth(r, "add_constraint", con(c, names))
        return r

    def combined(k):
        def f(seq, names):
            a, b = at_once(seq[:k], names), one_by_one(seq[k:], names)
            return S.meth(a, "combine_sets", b)
        return f

    def merged(seq, names):
        m = S.meth(S.new("ConstraintMerger"), "merge_constraints", group([con(c, names) for c in seq]))
        return S.new("ConstraintSet", m, S.new("ConstraintMerger"))

    modes = [("add_constraint", "ConstraintSet", one_by_one), ("__init__", "ConstraintSet", at_once),
             ("create_constraint_set then add", "ConstraintSetFactory", from_factory), ("merge_constraints", "ConstraintMerger", merged)]
    for pi, names in enumerate(pairs):
        for seq in seqs:
            if pi and len(seq) != 2:
                continue
            ms = list(modes)
            if len(seq) > 1:
                ms += [("combine_sets", "ConstraintSet", combined(k)) for k in ((1, len(seq) - 1) if len(seq) > 2 else (1,))]
            for mode, cls, build in ms:
                if len(set(seq)) < len(seq) and mode in ("__init__", "merge_constraints") or len(seq) > 3 and mode == "merge_constraints":
                    continue
                def one(seq=seq, mode=mode, cls=cls, build=build, names=names):
                    sj = subj(S, cls, mode.split(" ")[0]) + " [%s of %s; names %s]" % (mode, " ".join(seq), "/".join(names))
                    code = chk.run(S, lambda: S.freeze(S.meth(build(seq, names), "is_possible")))
                    p = possible(seq)
                    chk.same(sj + " is_possible", RULES[0], code, Res(p), where=where, over=small)
                    if p is FALSE or not accepted:
                        return
                    for lab, asg in (("a and b", {0: X1, 1: X2}), ("a", {0: X1}), ("b", {1: X2}), ("none", {})):
                        d = [(const(names[k]), v) for k, v in asg.items()] + [(const("other"), X3)]
                        code = chk.run(S, lambda: S.freeze(S.meth(build(seq, names), "complies", S.dict_(sq.map_lit(d)))))
                        chk.same(sj + " complies with values of %s" % lab, RULES[1], code, Res(accepts(seq, asg)), where=and_(where, p), over=small)
                chk.guard("%s of %s" % (mode, " ".join(seq)), RULES[2], one)
    # many variables at once: sizes written in the program, and some of our own
    sizes = sorted({n + d for n in chk.literals(S, 3, 40) for d in (0, 1)} | {5, 9})

    def many(n):
        names = [const("v%d" % j) for j in range(n)]
        # every variable is pinned to one value; the last one is demanded twice
        pin = lambda j, s: S.meth(fac, "var_value_constraint", names[j], S.set_(s))

        def parts(first):
            a = [pin(j, sq.sset([const(j)])) for j in range(n - 1)] + [pin(n - 1, V)]
            b = [pin(n - 1, W)] + [pin(j, sq.sset([const(j)])) for j in range(0, n - 1, 2)]
            return (a, b) if first else (b, a)

        def built(first, mode):
            a, b = parts(first)
            if mode == "combine_sets":
                return S.meth(S.new("ConstraintSet", group(a), S.new("ConstraintMerger")), "combine_sets", S.new("ConstraintSet", group(b), S.new("ConstraintMerger")))
            r = S.new("ConstraintSet", group(a), S.new("ConstraintMerger"))
            for c in b:
                S.meth(r, "add_constraint", c)
            return r
        p = not_(lt(sq.set_len(sq.sinter(V, W)), ONE))
        for mode in ("combine_sets", "add_constraint"):
            for first in (True, False):
                sj = subj(S, "ConstraintSet", mode) + " [%d variables, %s]" % (n, "all with some" if first else "some with all")
                code = chk.run(S, lambda: S.freeze(S.meth(built(first, mode), "is_possible")))
                chk.same(sj + " is_possible", RULES[0], code, Res(p), where=where, over=small, n=20)
                if not accepted:
                    continue
                d = [(names[j], const(j)) for j in range(1, n - 1)] + [(names[0], X1), (names[n - 1], X2)]
                ok = and_(eq(X1, ZERO), and_(sq.in_set(X2, V), sq.in_set(X2, W)))
                code = chk.run(S, lambda: S.freeze(S.meth(built(first, mode), "complies", S.dict_(sq.map_lit(d)))))
                chk.same(sj + " complies", RULES[1], code, Res(ok), where=and_(where, p), over=small, n=20)
    for n in sizes:
        chk.guard("%d variables" % n, RULES[2], lambda: many(n))
    # two demands whose names are equal texts (not necessarily one object), or different ones
    n1, n2 = sym("name1", "str"), sym("name2", "str")

    def texts(k):
        d = small(k)
        d.update({"name1": "a", "name2": "b" if k % 3 == 0 else "a"})
        return d

    def two():
        c1 = lambda: S.meth(fac, "var_value_constraint", n1, S.set_(V))
        c2 = lambda: S.meth(fac, "var_value_constraint", n2, S.set_(W))

        def added():
            r = S.new("ConstraintSet", group([c1()]), S.new("ConstraintMerger"))
            S.meth(r, "add_constraint", c2())
            return r
        p = or_(not_(eq(n1, n2)), not_(lt(sq.set_len(sq.sinter(V, W)), ONE)))
        for mode, build in (("add_constraint", added), ("__init__", lambda: S.new("ConstraintSet", group([c1(), c2()]), S.new("ConstraintMerger"))),
                            ("combine_sets", lambda: S.meth(S.new("ConstraintSet", group([c1()]), S.new("ConstraintMerger")), "combine_sets",
                                                            S.new("ConstraintSet", group([c2()]), S.new("ConstraintMerger"))))):
            sj = subj(S, "ConstraintSet", mode) + " [names given as texts]"
            code = chk.run(S, lambda: S.freeze(S.meth(build(), "is_possible")))
            chk.same(sj + " is_possible", RULES[0], code, Res(p), where=where, over=texts)
            if not accepted:
                continue
            code = chk.run(S, lambda: S.freeze(S.meth(build(), "complies", S.dict_(sq.map_lit([(n1, X1)])))))
            ok = and_(sq.in_set(X1, V), or_(not_(eq(n1, n2)), sq.in_set(X1, W)))
            chk.same(sj + " complies", RULES[1], code, Res(ok), where=and_(where, p), over=texts)
    chk.guard("ConstraintSet", RULES[0], two)


def small(k):
    """small value sets that overlap, coincide and are disjoint"""
    import random
    r = random.Random(k)
    u = range(0, 4)
    d = {n: frozenset(r.sample(u, r.choice([1, 1, 2, 3]))) for n in ("V", "W", "Z", "U", "Y")}
    if k % 5 == 0:
        d["W"] = d["V"]
    if k % 7 == 0:
        d["U"] = d["V"]
    d.update({n: r.choice(u) for n in ("x", "y", "z")})
    return d
