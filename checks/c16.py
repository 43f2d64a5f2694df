"""C16: charts draw the data they are named after and leave nothing open."""
from fractions import Fraction
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, sym, tm, sq, const, et, NONE, TRUE, FALSE, ONE, TIER, bi, Obj, txt, nat

RULES = ["a single chart shows its view for every integer between the extremes and marks the average",
         "a comparison shows its view of both distributions, each under its own label",
         "the comparison histogram shows the difference of the probabilities",
         "the figure of a chart is saved into the returned image and closed, no other figure is touched",
         "an interpreter's chart is the chart of the program's last line"]
SINGLE = [("get_histogram", "plain"), ("get_at_least_histogram", "at_least"), ("get_at_most_histogram", "at_most")]
COMPARE = [("get_compare", "plain"), ("get_compare_at_least", "at_least"), ("get_compare_at_most", "at_most")]
SHAPES = [(4,), (0,), (1, 2, 3), (3, 1, 2), (1, 4), (-2, 1), (-3, -2), (0, 1), (-1, 0, 1), (2, 9), (7, 3, 5), (10, -10), (100,), (1, 2, 3, 4, 5, 6)]
PAIRS = [((1, 2), (4, 6)), ((5, 7), (1, 2)), ((1,), (2,)), ((-3, -1), (1, 3)), ((4, 5), (-2,))]
SHARED = [((1, 2), (2, 3)), ((1, 2, 3), (1, 2, 3)), ((1,), (1,)), ((1, 5), (3,)), ((3, 6), (1, 4)), ((-2, 0), (0, 2)), ((0,), (-2, 3))]


def num(x):
    return Fraction(x).limit_denominator(10 ** 9)


def bars_of(bars):
    """the visible bars: {(left, right): height}"""
    out = {}
    for low, high, h in bars:
        if num(high) == num(low):
            continue
        k = (num(low), num(high))
        out[k] = out.get(k, 0) + num(h)
    return tuple(sorted((k, h) for k, h in out.items() if h))


def tag(o, f):
    """apply f to the value of an outcome"""
    if isinstance(o, tuple) and len(o) == 2 and o[0] == "value":
        return ("value", f(o[1]))
    return o


def main():
    chk = Check("C16")
    S = chk.session(stubs=("matplotlib", "PIL", "io", "rply"))
    cls = "ProbabilityDistribution"
    fac = S.new("ProbabilityDistributionFactory")
    syms = {}

    def count(who, v):
        return syms.setdefault((who, v), tm.add(sym("nat:%s%d" % (who, v), "int"), ONE))

    def table(who, keys):
        if len(keys) > 6:       # large tables have fixed counts
            return sq.map_lit([(const(k), const((k * k + len(who)) % 7 + 1)) for k in keys])
        return sq.map_lit([(const(k), count(who, k)) for k in keys])

    def dist(who, keys):
        return S.meth(fac, "create", S.dict_(table(who, keys)))

    def look(image):
        return S.meth(image, "load")

    def still_open():
        return S.i.call(bi("len"), [S.attr("matplotlib.pyplot", "OPEN")])

    # what is drawn on one set of axes: (bars, lines, legend shown)
    def single(v):
        if not (isinstance(v, tuple) and len(v) == 1 and len(v[0]) == 3):
            return ("other picture", v)
        bars, lines, _ = v[0]
        marks, others = [], []
        for l, xs, ys in lines:
            if len(set(xs)) == 1 and len(set(ys)) > 1:
                marks.append(num(xs[0]))
            else:
                others.append((l, xs, ys))
        return (bars_of(bars), tuple(sorted(set(marks))), tuple(others))

    def want_single(v):
        bars, marks = v
        return (tuple(sorted(((num(k) - Fraction(1, 2), num(k) + Fraction(1, 2)), num(h)) for k, h in bars if num(h))), tuple(num(m) for m in marks), ())

    def double(v):
        if not (isinstance(v, tuple) and len(v) == 1 and len(v[0]) == 3):
            return ("other picture", v)
        bars, lines, named = v[0]
        return (bars_of(bars), tuple(sorted((l, tuple((num(x), num(y)) for x, y in zip(xs, ys)), len(xs) == len(ys)) for l, xs, ys in lines)), named)

    def want_double(v):
        return ((), tuple(sorted((l, tuple((num(x), num(y)) for x, y in sorted(pts)), True) for l, pts in v)), True)

    def diff(v):
        return single(v)

    def want_diff(v):
        return (tuple(sorted(((num(k) - Fraction(1, 2), num(k) + Fraction(1, 2)), num(h)) for k, h in v if num(h))), (), ())

    def norm(code_f, want_f):
        # the two sides of a comparison have different shapes: the code's is tagged
        def f(o):
            return tag(o, lambda v: code_f(v[1]) if isinstance(v, tuple) and len(v) == 2 and v[0] == "picture" else want_f(v))
        return f

    def picture(thunk):
        """the picture of an image looked at after everything was drawn"""
        def f():
            return tm.tup([const("picture"), S.freeze(look(thunk()))])
        return chk.run(S, f, keep=False)

    def closed(sj, thunk, before=0):
        """after thunk() the figures opened before, and only those, are open and as they were"""
        pp = "matplotlib.pyplot"

        def f():
            mine = []
            for k in range(before):
                fig = S.i.call(S.attr(pp, "figure"), [])
                S.meth(S.meth(fig, "add_subplot"), "plot", S.list_([const(k)]), S.list_([const(9)]), label=const("mine %d" % k))
                mine.append(fig)
            thunk()
            n = still_open()
            out = [n]
            for k in range(before):
                out.append(S.meth(S.i.getitem(S.i.getattr(S.i.getitem(S.attr(pp, "OPEN"), const(k)), "axes"), const(0)), "picture"))
            cur = S.i.call(S.attr(pp, "gcf"), [])
            out.append(S.i.getattr(cur, "number") if before else NONE)
            return S.freeze(S.list_(out))
        want = [const(before)] + [tm.tup([tm.tup([]), tm.tup([tm.tup([const("mine %d" % k), tm.tup([const(k)]), tm.tup([const(9)])])]), FALSE]) for k in range(before)]
        want.append(const(before) if before else NONE)
        chk.same(sj, RULES[3], chk.run(S, f, keep=False), Res(tm.tup(want)), n=4)

    def charts():
        """(label, rule, thunk, spec, code norm, wanted norm, known)"""
        sizes = sorted(chk.literals(S, 2, 40))
        shapes = SHAPES + [tuple(range(1, n + d)) for n in sizes for d in (0, 1)] + [(1, n) for n in sizes if n > 6] + [(-n, 1) for n in sizes if n > 6]
        shapes += [(v - 1, v, v + 1) for v in sorted(chk.literals(S, 41, 10 ** 6))]
        for keys in dict.fromkeys(shapes):
            for meth, view in SINGLE:
                yield (meth, "%s" % (list(keys),), 0, lambda keys=keys, meth=meth: S.meth(dist("a", keys), meth),
                       chk.ref(S, "drawn_bars", const(view), S.dict_(table("a", keys))), single, want_single, ())
        big = [p for n in sizes if n > 3 for p in ((tuple(range(1, n + 2)), tuple(range(-3, -1))), ((-5,), tuple(range(0, n + 1))), (tuple(range(-n - 1, 0)), tuple(range(1, n + 2))))]
        values = sorted(chk.literals(S, 41, 10 ** 6))
        big += [p for v in values for p in (((v - 1, v), (v + 1, v + 3)), ((v + 1, v + 3), (v - 1, v)))]
        for one, two in PAIRS + SHARED + big:
            for meth, view in COMPARE:
                for labels in ((), ("p", "q"), ("z", "c"), ("same", "same"), ("", "x")):
                    if labels and (one, two) != PAIRS[0] and (one, two) != SHARED[0]:
                        continue
                    names = labels or ("This distribution", "other distribution")
                    yield (meth, "%s and %s%s" % (list(one), list(two), " called %r, %r" % names if labels else ""), 1,
                           lambda one=one, two=two, meth=meth, labels=labels: S.meth(dist("a", one), meth, dist("b", two), *map(const, labels)),
                           chk.ref(S, "drawn_lines", const(view), S.dict_(table("a", one)), S.dict_(table("b", two)), const(names[0]), const(names[1])), double, want_double, ())
            known = [("shared outcomes twice", chk.ref(S, "drawn_difference_twice", S.dict_(table("a", one)), S.dict_(table("b", two))))] if (one, two) in SHARED else ()
            yield ("get_compare_histogram", "%s and %s" % (list(one), list(two)), 2, lambda one=one, two=two: S.meth(dist("a", one), "get_compare_histogram", dist("b", two)),
                   chk.ref(S, "drawn_difference", S.dict_(table("a", one)), S.dict_(table("b", two))), diff, want_diff, known)

    every = list(charts())

    def pictures():
        for meth, lab, r, thunk, spec, cn, wn, known in every:
            def one():
                chk.same(subj(S, cls, meth) + " [%s]" % lab, RULES[r], picture(thunk), spec, norm=norm(cn, wn), n=8, known=known)
            chk.guard(meth, RULES[r], one)
    chk.guard(cls, RULES[0], pictures)

    def small():
        """one chart of each kind"""
        seen = set()
        for c in every:
            if c[0] not in seen and c[1] != "[4]":
                seen.add(c[0])
                yield c

    def figures():
        for meth, lab, r, thunk, spec, cn, wn, known in small():
            for before in (0, 1, 2):
                def one():
                    closed(subj(S, cls, meth) + " [%s%s]" % (lab, ", %d figures of the user's open" % before if before else ""), thunk, before)
                chk.guard(meth, RULES[3], one)
    chk.guard(cls, RULES[3], figures)

    def histories():
        """a picture is what it was drawn as, whatever is drawn before and after"""
        cs = list(small())
        for a in cs:
            for b in cs:
                def after():
                    b[3]()
                    return a[3]()

                def then():
                    im = a[3]()
                    b[3]()
                    return im

                def look_twice():
                    look(a[3]())
                    look(b[3]())
                    return a[3]()
                for what, f in (("after", after), ("then", then), ("looked at after", look_twice)):
                    def one():
                        spec = a[7][0][1] if a[7] else a[4]
                        chk.same(subj(S, cls, a[0]) + " [%s %s]" % (what, b[0]), RULES[3], picture(f), spec, norm=norm(a[5], a[6]), n=3)
                    chk.guard(a[0], RULES[3], one)
            # the user's own figure is the current one
            def mine():
                S.i.call(S.attr("matplotlib.pyplot", "figure"), [])
                S.i.call(S.attr("matplotlib.pyplot", "plot"), [S.list_([const(1)]), S.list_([const(2)])])
                return a[3]()
            chk.same(subj(S, cls, a[0]) + " [while a figure of the user's is open]", RULES[3], picture(mine), a[7][0][1] if a[7] else a[4], norm=norm(a[5], a[6]), n=3)

        def many():
            for a in cs + cs:
                a[3]()
        closed(subj(S, cls, "chart methods") + " [two of each]", many, 0)
        closed(subj(S, cls, "chart methods") + " [two of each, user's figure open]", many, 1)
    chk.guard(cls, RULES[3], histories)

    def same_value():
        """outcomes of one value under different constraints are one bar; a count of zero is no bar"""
        def two(who):
            items = []
            for value, seen in ((2, 1), (1, 2), (1, 4)):
                cs = S.meth(S.new("ConstraintSetFactory"), "create_constraint_set")
                S.meth(cs, "add_constraint", S.meth(S.new("ConstraintFactory"), "var_value_constraint", const("v"), S.set_(sq.sset([const(seen)]))))
                items.append((S.new("ProbabilityOutcome", const(value), cs), count(who, seen)))
            d = S.dict_(sq.EMPTY_MAP)
            for k, v in items:
                S.meth(d, "__setitem__", k, v)
            return S.meth(fac, "create", d)
        counts = lambda w: sq.map_lit([(const(2), count(w, 1)), (const(1), tm.add(count(w, 2), count(w, 4)))])
        for meth, view in SINGLE:
            chk.same(subj(S, cls, meth) + " [outcomes of equal value]", RULES[0], picture(lambda: S.meth(two("a"), meth)),
                     chk.ref(S, "drawn_bars", const(view), S.dict_(counts("a"))), norm=norm(single, want_single), n=8)
        for meth, view in COMPARE:
            chk.same(subj(S, cls, meth) + " [outcomes of equal value]", RULES[1], picture(lambda: S.meth(two("a"), meth, two("b"), const("p"), const("q"))),
                     chk.ref(S, "drawn_lines", const(view), S.dict_(counts("a")), S.dict_(counts("b")), const("p"), const("q")), norm=norm(double, want_double), n=8)
    chk.guard(cls, RULES[0], same_value)

    # ------------------------------------------------------------ interpreter
    def interpreter():
        icls = "PythonDiceInterpreter"
        for meth, view in SINGLE:
            for n in (1, 2, 3):
                def f(q=None):
                    lines = S.list_([const("line %d" % k) for k in range(n)])
                    t = S.dict_(sq.map_lit([(const("line %d" % k), S.i.call(S.attr("verif_ref", "Fixed"), [dist("a%d" % k, (1, 3)), NONE, NONE])) for k in range(n)]))
                    p = S.i.call(S.attr("verif_ref", "TableParser"), [t])
                    return S.meth(S.new(icls, p), q or meth, lines)
                last = S.dict_(table("a%d" % (n - 1), (1, 3)))
                spec = chk.ref(S, "drawn_bars", const(view), last)
                chk.same(subj(S, icls, meth) + " [%d lines]" % n, RULES[4], picture(f), spec, norm=norm(single, want_single), n=8)
                closed(subj(S, icls, meth) + " [%d lines]" % n, f, 0)
                closed(subj(S, icls, meth) + " [%d lines, user's figure open]" % n, f, 1)

                def again():
                    for q, _ in SINGLE:
                        f(q)
                    return f()
                chk.same(subj(S, icls, meth) + " [%d lines, after every chart]" % n, RULES[4], picture(again), spec, norm=norm(single, want_single), n=4)
    chk.guard("PythonDiceInterpreter", RULES[4], interpreter)
    return chk.finish(RULES)
