"""C07: a variable denotes one shared draw."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, distmap, sym, tm, sq, const, et, ONE, TRUE, TIER, NONE
from . import spec as sp
from .c06 import METHODS, UNARY
from . import c08, c17

RULES = ["combinations that would need one assigned variable to take two values at once do not occur, all others do",
         "an assignment is a draw of its own, whatever the variable was before",
         "assigning leaves the distribution's probabilities as they were"]
MOD = const(1000)


def joint(x, y):
    """an expression from whose values those of both operands can be read"""
    return ("+", ("*", x, "K"), y)


def programs(literals):
    """(label, rule, steps, result)"""
    out = []
    for op in METHODS:
        if op == "//":
            continue  # divisors that may be zero are refused
        out.append(("a %s a" % op, 0, [("a", "A")], (op, "a", "a")))
        out.append(("b = a %s B, b with a" % op, 0, [("a", "A"), ("b", (op, "a", "B"))], joint("b", "a")))
        out.append(("b = B %s a, a with b" % op, 0, [("a", "A"), ("b", (op, "B", "a"))], joint("a", "b")))
    for op in UNARY:
        out.append(("b = %s a, b with a" % op, 0, [("a", "A"), ("b", (op, "a"))], joint("b", "a")))
        out.append(("%s a with a" % op, 0, [("a", "A")], joint((op, "a"), "a")))
        out.append(("b = %s a, a with %s b" % (op, op), 0, [("a", "A"), ("b", (op, "a"))], joint("a", (op, "b"))))
    out += [
        ("c = b = a, c with a", 0, [("a", "A"), ("b", "a"), ("c", "b")], joint("c", "a")),
        ("b = a + A, a with b", 0, [("a", "A"), ("b", ("+", "a", "A"))], joint("a", "b")),
        ("b = a - 1, c = a + 1, b with c", 0, [("a", "A"), ("b", ("-", "a", "ONE")), ("c", ("+", "a", "ONE"))], joint("b", "c")),
        ("a with b", 0, [("a", "A"), ("b", "B")], joint("a", "b")),
        ("a with b, both of A", 0, [("a", "A"), ("b", "A")], joint("a", "b")),
        ("a with a, b assigned between", 0, [("a", "A"), ("b", "B")], joint("a", "a")),
        ("(a == 1) AND !(a == 1)", 0, [("a", "A")], ("AND", ("==", "a", "ONE"), ("!", ("==", "a", "ONE")))),
        ("MAX(a, B) with MIN(a, B)", 0, [("a", "A"), ("c", ("MAX", "a", "B")), ("d", ("MIN", "a", "B"))], joint("c", "d")),
        ("b = a, a reassigned", 1, [("a", "A"), ("b", "a"), ("a", "B")], joint("b", "a")),
        ("b = a, a reassigned with the same distribution", 1, [("a", "A"), ("b", "a"), ("a", "A")], joint("b", "a")),
        ("b = a, a = a + B", 1, [("a", "A"), ("b", "a"), ("a", ("+", "a", "B"))], joint("b", "a")),
        ("b = a, a = a", 1, [("a", "A"), ("b", "a"), ("a", "a")], joint("b", "a")),
        ("a = A, a = B, a with a", 1, [("a", "A"), ("a", "B")], joint("a", "a")),
        ("b = a, a reassigned, c = a, a reassigned", 1, [("a", "A"), ("b", "a"), ("a", "A"), ("c", "a"), ("a", "A")], joint("b", ("*", "c", "ONE"))),
        ("b = a, a reassigned, c = a, a reassigned, a with b", 1, [("a", "A"), ("b", "a"), ("a", "A"), ("c", "a"), ("a", "A")], joint("b", "a")),
        ("constants between", 1, [("a", "A"), ("b", "a"), ("a", "#"), ("a", "B")], joint("b", "a")),
        ("constants before", 1, [("a", "#"), ("a", "#"), ("a", "A"), ("b", "a"), ("a", "A")], joint("b", "a")),
        ("a constant in place of a distribution", 0, [("a", "A"), ("a", "#")], joint("a", "a")),
        ("a constant of another name", 1, [("a", "A"), ("b", "#"), ("b", "a"), ("a", "B"), ("b", "#")], joint("b", "a")),
    ]
    sizes = {3, 8, 9, 10, 11, 15, 16, 17} | ({12, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256} if TIER != "quick" else set())
    for c in literals:
        sizes |= {c - 1, c, c + 1}
    for n in sorted(sizes):
        steps = [("a", "A"), ("b", "a")]
        for k in range(n):
            steps.append(("a", "A" if k == n - 1 else "ONE"))
        out.append(("a reassigned %d times" % n, 1, steps, joint("b", "a")))
    import random
    r = random.Random("programs")
    for k in range(40 if TIER == "quick" else 300):
        steps, known, cost = [], [], 0
        for _ in range(r.choice([4, 5, 6, 7])):
            name = r.choice("aabc")
            e = r.choice(["A"] * 3 + ["#"] + ["get"] * 4 + ["derived"])
            if e in ("get", "derived"):
                e = r.choice(known) if known else "A"
            if e == "A":
                cost += 1
                e = "A" if cost < 4 else "ONE"
            steps.append((name, e))
            if e != "#" and name not in known:
                known.append(name)
        if len(known) > 1:
            x, y = r.sample(known, 2)
            out.append(("program %d: %s" % (k, ", ".join("%s = %s" % st for st in steps)), 1, steps, joint(x, y)))
    return out


NAMES = [("a", "b", "c", "d"), ("b", "a", "ab", "ba"), ("a", "a_", "_a", "_"), ("x", "xx", "x_x", "xxx"), ("stdout", "a", "var", "max"),
         ("a" * 70, "a" * 70 + "b", "b" + "a" * 70, "a" * 71), ("aaaaaaaab", "aaaaaaaac", "baaaaaaaa", "caaaaaaaa")]


def main():
    chk = Check("C07")
    S = chk.session()
    A, B = S.obj("A", "IDiceExpression"), S.obj("B", "IDiceExpression")
    leafs = {"A": A, "B": B}

    def fac():
        return S.new("ProbabilityDistributionFactory")

    def point(v):
        return S.meth(fac(), "create", S.dict_(sq.map_lit([(v, ONE)])))

    def new_state():
        return S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")

    # -------------------------------------------------------- what is required
    def spec(steps, result):
        env, n = {}, 0

        def val(e):
            if isinstance(e, tuple):
                if len(e) == 2:
                    return sp.apply1(sp.UNARY[e[0]][1], val(e[1]))
                return sp.combine(sp.BINARY[e[0]][2], val(e[1]), val(e[2]))
            if e in leafs:
                return distmap(leafs[e])
            if e in ("K", "ONE"):
                return sp.point(MOD if e == "K" else ONE)
            return env[e]
        for name, e in steps:
            if e == "#":
                continue
            n += 1
            m = val(e)
            x = tm.fresh_bv("outcome")
            sq.note_member(x, sq.keys(m))
            c = tm.mk("varc", (const("#%d" % n), sq.sset([sp.val(x)])), "constraint")
            env[name] = sq.map_(None, [((x,), (sq.keys(m),), TRUE, sq.outcome(sp.val(x), sq.cs_union([sp.csof(x), c])), sq.mget(m, x))])
        return val(result)

    # -------------------------------------------------------- what the code does
    def by_state(steps, result, nm):
        st = new_state()

        def val(e):
            if isinstance(e, tuple):
                a = [val(x) for x in e[1:]]
                return S.meth(a[0], (UNARY if len(e) == 2 else METHODS)[e[0]], *a[1:])
            if e in leafs:
                return S.i.models.dist_of(S.i, leafs[e])
            if e in ("K", "ONE"):
                return point(MOD if e == "K" else ONE)
            return S.meth(st, "get_var", nm[e])
        for name, e in steps:
            if e == "#":
                S.meth(st, "set_constant", nm[name], sym("x", "int"))
            else:
                S.meth(st, "set_var", nm[name], val(e))
        return val(result)

    def by_expression(ask):
        def f(steps, result, nm):
            st = new_state()

            def val(e):
                if isinstance(e, tuple):
                    a = [val(x) for x in e[1:]]
                    cls, *rest = sp.BINARY[e[0]] if len(e) == 3 else sp.UNARY[e[0]]
                    return S.new(cls, *([const(x) for x in rest[0]] if len(e) == 3 else []), *a)
                if e in leafs:
                    return leafs[e]
                if e in ("K", "ONE"):
                    return S.new("ConstantIntegerExpression", const("1000" if e == "K" else "1"), fac())
                return S.new("GetVarExpression", st, nm[e])
            for name, e in steps:
                if e == "#":
                    S.meth(S.new("VarAssignmentExpression", st, nm[name], A), "roll")
                else:
                    S.meth(S.new("VarAssignmentExpression", st, nm[name], val(e)), ask)
            return S.meth(val(result), "get_probability_distribution")
        return f

    modes = [("set_var", "ProbabilityDistributionState", by_state, True)] + [
        (m, "VarAssignmentExpression", by_expression(m), False) for m in ("get_probability_distribution", "max", "min")]

    def values(a):
        """values with a nonzero count"""
        if a[0] != "value" or not isinstance(a[1], et.Tok) or a[1][0] != "map":
            return a
        return ("value", tuple(sorted({o[0] for o, c in a[1][1:] if c})))

    jobs = []
    for lab, rule, steps, result in programs(chk.literals(S, 3, 130 if TIER == "quick" else 1100)):
        long = len(steps) > 3
        for mode, cls, build, direct in modes:
            if not direct and (lab.startswith("program") or mode != "get_probability_distribution") and (long or rule == 0 and lab[0] == "b" and TIER == "quick"):
                continue
            for nms in NAMES if len(steps) > 1 and mode == "set_var" and not long and not lab.startswith("b = ") else NAMES[:1]:
                jobs.append((lab, rule, steps, result, long, mode, cls, build, nms))

    def one(job):
        lab, rule, steps, result, long, mode, cls, build, nms = job
        nm = dict(zip("abcd", map(const, nms)))
        sj = subj(S, cls, mode) + " [%s; names %s]" % (lab, "/".join(nms[:2]))
        code = chk.run(S, lambda: S.freeze(S.meth(build(steps, result, nm), "get_constraint_result_map")))
        code.raises = [(c, n) for c, n in code.raises if n != "ValueError"]  # extremes of an empty distribution
        chk.same(sj, RULES[rule], code, Res(spec(steps, result)), norm=values, n=(12 if long else 20) if TIER == "quick" else None)
    chk.parallel(jobs, one, "programs", RULES[0])

    # -------------------------------------------------------- probabilities
    def tables():
        for mode, cls, build, direct in modes:
            for lab, steps in (("a = A", [("a", "A")]), ("a = B, a = A", [("a", "B"), ("a", "A")]), ("b = A, a = b", [("b", "A"), ("a", "b")]),
                               ("a = A, a = a", [("a", "A"), ("a", "a")])):
                for nms in NAMES:
                    nm = dict(zip("abcd", map(const, nms)))
                    code = chk.run(S, lambda: S.freeze(S.meth(build(steps, "a", nm), "get_result_map")))
                    code.raises = [(c, n) for c, n in code.raises if n != "ValueError"]
                    chk.same(subj(S, cls, mode) + " [probabilities after %s; names %s]" % (lab, "/".join(nms[:2])), RULES[2], code,
                             Res(sp.value_table(distmap(A))), n=30)
        # the table that was assigned is still what the caller holds
        for mode, cls, ask in (("get_probability_distribution", "VarAssignmentExpression", lambda e: S.meth(e, "get_probability_distribution")),):
            code = chk.run(S, lambda: S.freeze(S.meth(ask(S.new(cls, new_state(), const("a"), A)), "get_result_map")))
            chk.same(subj(S, cls, mode) + " [the value of an assignment]", RULES[2], code, Res(sp.value_table(distmap(A))))
    chk.guard("probabilities", RULES[2], tables)
    # what the histories of outcomes mean, and when two outcomes are one
    chk.parallel([lambda: c08.study(chk, c08.FEW, False), lambda: c17.study(chk, False)], lambda f: f(), "histories", RULES[0])
    return chk.finish(RULES + c08.RULES[:1] + [c17.NOT_MERGED])
