"""C10: a program runs every line once, in order, against one shared state."""
from itertools import product
import random
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, sym, tm, sq, const, et, NONE, TIER, bi

RULES = ["every line is read once and in order",
         "every line is evaluated once, in order and in the query's own mode",
         "the report is the last line's result next to the variables known after the last line; the cost is the sum over all lines; "
         "charts are those of the last line; an empty program reports nothing"]

VALUES = ["roll", "max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average", "get_estimated_cost"]
CHARTS = ["get_histogram", "get_at_least_histogram", "get_at_most_histogram"]
# text of a line -> what it stands for: (variable assigned, expression or name looked up)
LINES = {"VAR a = d4": ("a", "A"), "VAR b = 2d6": ("b", "B"), "d4": ("", "A"), "2d6": ("", "B"), "a": ("", "@a"), "b": ("", "@b"),
         "VAR a = 2d6": ("a", "B"), "VAR b = a": ("b", "@a"), "VAR a = a": ("a", "@a"), "VAR stdout = d4": ("stdout", "A"),
         "VAR c = b": ("c", "@b"), "": ("", "A"), "#": ("", "B"), "0": ("", "A"), "VAR": ("", "B"), "quit": ("", "A"), "d4 + 1": ("", "B"),
         "stdout": ("", "@stdout")}


def programs():
    r = random.Random("programs of C10")
    small = ["VAR a = d4", "VAR b = 2d6", "d4", "2d6", "a", "VAR a = 2d6"]
    out = [[]] + [list(p) for k in (1, 2) for p in product(small, repeat=k)]
    three = [list(p) for p in product(small, repeat=3)]
    r.shuffle(three)
    out += three[:40 if TIER == "quick" else 216]
    out += [[x] for x in LINES if x not in small]
    out += [["d4", x] for x in LINES] + [[x, "2d6"] for x in LINES]
    out += [["VAR a = d4", x, "a"] for x in LINES] + [["VAR b = 2d6", "VAR a = d4", x, x] for x in LINES]
    out += [["VAR stdout = d4", "2d6", "stdout"], ["2d6", "VAR stdout = d4", "2d6", "VAR a = d4", "stdout"]]
    for k in range(20 if TIER == "quick" else 120):
        n = r.choice([4, 5, 6, 7])
        names = list(LINES)
        out.append(["VAR a = d4", "VAR b = 2d6"] + [r.choice(names) for _ in range(n)])
    return out


def main():
    chk = Check("C10")
    S = chk.session()
    cls = "PythonDiceInterpreter"
    E = {"A": S.obj("A", "IDiceExpression"), "B": S.obj("B", "IDiceExpression")}
    D = {"A": S.obj("DA", "IProbabilityDistribution"), "B": S.obj("DB", "IProbabilityDistribution")}

    def ref(name, *a):
        return S.i.call(S.attr("verif_ref", name), list(a))

    def parser(charts):
        rows = []
        for text, (name, e) in LINES.items():
            if e[0] == "@":
                x = const(e[1:])
            elif charts:
                x = ref("Fixed", D[e], sym("x", "int"), sym("y", "int"))
            else:
                x = E[e]
            rows.append((const(text), tm.tup([const(name), x])))
        return ref("NotingParser", S.dict_(sq.map_lit(rows)))

    def state():
        return S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")

    def view(r, q):
        """what the user can see of a result"""
        if q != "get_probability_distributions":
            return r
        r2 = S.dict_(sq.EMPTY_MAP)
        for k in ("a", "b", "c", "stdout"):
            d = S.meth(r, "get", const(k))
            v = S.i.cases(d, lambda x: NONE if x is NONE else S.meth(x, "get_result_map"))
            S.meth(r2, "__setitem__", const(k), v)
        return S.list_([S.i.call(bi("set"), [r]), r2])

    def lst(p):
        return S.list_([const(x) for x in p])

    def code(progs, charts):
        def f():
            ps = parser(charts)
            i = S.new(cls, ps, state())
            for q, p in progs:
                r = S.meth(i, q, lst(p))
            return S.freeze(S.list_([view(r, progs[-1][0]), S.i.getattr(ps, "parsed"), S.i.getattr(ps, "asked")]))
        return chk.run(S, f)

    def spec(progs, charts):
        def f():
            ps = parser(charts)
            st = ref("PlainState")
            for q, p in progs:
                r = ref("run_program", const(q), lst(p), ps, st)
            return S.freeze(S.list_([view(r, progs[-1][0]), S.i.getattr(ps, "parsed"), S.i.getattr(ps, "asked")]))
        return chk.run(S, f)

    def compare(lab, progs, charts=False):
        a, b = code(progs, charts), spec(progs, charts)
        q = progs[-1][0]
        v = chk.same(subj(S, cls, q) + " [%s]" % lab, RULES[2], a, b, n=10)
        return v

    def label(p):
        return "; ".join(repr(x) for x in p) or "no lines"
    jobs = []
    for p in programs():
        assigns = any(LINES[x][0] for x in p)
        for q in VALUES:
            jobs.append((label(p), [(q, p)]))
        if p and not assigns and not any(LINES[x][1][0] == "@" for x in p):
            for q in CHARTS:
                jobs.append((label(p), [(q, p)], True))
    # sizes written in the program
    sizes = sorted({n + d for n in chk.literals(S, 3, 130) for d in (-1, 0, 1)} | {8, 16, 32})
    for n in sizes:
        for q in VALUES:
            base = ["VAR a = d4"] + ["2d6"] * (n - 2) + ["VAR b = a"]
            jobs.append(("%d lines" % n, [(q, base)]))
            again = ["VAR a = d4"] * (n - 1) + ["VAR a = 2d6", "VAR b = 2d6", "a"]
            jobs.append(("%d assignments" % n, [(q, again)]))
    # one query after another: the variables stay
    for q1 in VALUES:
        for q2 in VALUES:
            for p1, p2 in ((["VAR a = d4"], ["VAR b = 2d6", "d4"]), (["VAR a = d4", "d4"], ["VAR a = 2d6"]), (["d4"], []), (["VAR a = d4"], ["d4"]), (["VAR a = d4"], ["VAR a = d4"]),
                           (["d4"], ["stdout"]), (["VAR stdout = d4", "2d6"], ["stdout"])):
                jobs.append(("%s of %s before %s" % (q1, label(p1), label(p2)), [(q1, p1), (q2, p2)]))
    for q1 in CHARTS:
        for q2 in CHARTS:
            jobs.append(("after %s" % q1, [(q1, ["d4", "2d6"]), (q2, ["2d6", "d4"])], True))
    chk.parallel(jobs, lambda j: compare(*j), cls, RULES[2])
    return chk.finish(RULES)
