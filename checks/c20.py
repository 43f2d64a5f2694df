"""C20: injected components are the ones that are used."""
from itertools import product
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, sym, tm, sq, const, et, NONE, TRUE, FALSE, ONE, TIER, bi, Obj, txt, nat
from .c09 import V, W, X, Y

RULES = ["a component given to a constructor is the one that is used, whatever else is given",
         "a default is used only for a component that was left out",
         "without injections every interpreter has one variable state of its own"]

QUERIES = ["roll", "max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average", "get_estimated_cost"]


def subsets(names):
    """(label, {name: truth of the component given}) for every choice of given components"""
    for choice in product((None, True, False), repeat=len(names)):
        yield {n: c for n, c in zip(names, choice) if c is not None}


def label(g):
    return ", ".join("%s%s" % (n, "" if t else " (falsy)") for n, t in sorted(g.items())) or "nothing given"


def main():
    chk = Check("C20")
    # ------------------------------------------------------------ constraints, outcomes, distributions
    T = chk.session(log_new=True)
    T.i.abstract_cs = False

    def mk(S, cls, inner, truth=True):
        return S.i.call(S.attr("verif_ref", cls), [inner, TRUE if truth else FALSE])

    def uses(S, m):
        return S.i.getattr(m, "uses")

    def used(S, subject, m_run, name, want, rule):
        """the frozen list of uses is (not) empty"""
        t = m_run
        ok = t is not None and t.op == "tup" and bool(t.args) == want
        und = t is None or t.op != "tup"
        if und:
            return chk.add(subject, rule, "undecided", "uses of %s not known: %s" % (name, t), "structure")
        return chk.holds(subject, rule, ok, "the %s that was given is %s" % (name, "not used" if want else "used"), "structure")

    def try_components(S, cls, names, make, act, where, need=None):
        """make(name, truth) -> marked component; act(object) uses every component"""
        for g in subsets(names):
            def f():
                ms = {n: make[n](t) for n, t in g.items()}
                o = S.new(cls, **ms)
                r = act(o)
                return S.freeze(S.list_([r] + [uses(S, ms[n]) for n in names if n in ms]))
            run = chk.run(S, f)
            plain = chk.run(S, lambda: S.freeze(S.list_([act(S.new(cls))])))
            sj = subj(S, cls, "__init__") + " [%s]" % label(g)
            vals = run.value.args if run.value is not None and run.value.op == "tup" else None
            given = [n for n in names if n in g]
            if vals is None or len(vals) != len(given) + 1:
                chk.add(sj, RULES[0], "undecided", "; ".join(run.notes) or "no value", "")
                continue
            for n, v in zip(given, vals[1:]):
                used(S, sj + " %s" % n, v, n, True, RULES[0])
            chk.same(sj + " result", RULES[1], Res(vals[0], run.raises, run.ok, run.notes), Res(plain.value.args[0], plain.raises, plain.ok), where=where, n=10)

    def lower():
        where = tm.not_(tm.lt(sq.set_len(V), ONE))
        try_components(T, "ConstraintSetFactory", ["constraint_factory", "constraint_merger"],
                       {"constraint_factory": lambda t: mk(T, "MarkedConstraintFactory", T.new("ConstraintFactory"), t),
                        "constraint_merger": lambda t: mk(T, "MarkedMerger", T.new("ConstraintMerger"), t)},
                       lambda o: T.meth(T.meth(o, "create_constraint_set"), "is_possible"), where)

        def grow(o):
            # the sets made use the merger for what is added later, and hand it on
            s = T.meth(o, "create_constraint_set")
            return T.meth(s, "is_possible")
        # a set goes on using its merger
        def several():
            k = T.new("ConstraintFactory")
            return T.new("ConstraintSet", T.i.alloc(Obj("set", None, {"c": sq.sset([
                T.meth(k, "var_value_constraint", const(x), T.set_(sq.sset([const(5)]))) for x in "pqrst"])})), T.new("ConstraintMerger"))

        for t in (True, False):
            for lab, act in (("add_constraint", lambda s, c: T.meth(s, "add_constraint", c)),
                             ("add_constraint to a combination", lambda s, c: T.meth(T.meth(s, "combine_sets", s), "add_constraint", c)),
                             ("add_constraint to a combination of several", lambda s, c: T.meth(T.meth(s, "combine_sets", several()), "add_constraint", c))):
                def f():
                    m = mk(T, "MarkedMerger", T.new("ConstraintMerger"), t)
                    k = T.new("ConstraintFactory")
                    a = T.meth(k, "var_value_constraint", const("a"), T.set_(V))
                    s = T.new("ConstraintSet", T.i.alloc(Obj("set", None, {"c": sq.sset([a])})), m)
                    n0 = T.i.call(bi("len"), [uses(T, m)])
                    act(s, T.meth(k, "var_value_constraint", const("b"), T.set_(W)))
                    return T.freeze(T.list_([n0, T.i.call(bi("len"), [uses(T, m)])]))
                r = chk.run(T, f)
                sj = subj(T, "ConstraintSet", lab) + " [merger%s]" % ("" if t else " (falsy)")
                v = r.value
                if v is None and r.raises and not r.notes:
                    chk.holds(sj, RULES[0], False, "with the merger that was given the operation fails")
                elif v is None or v.op != "tup" or any(x.op != "c" for x in v.args):
                    chk.add(sj, RULES[0], "undecided", "; ".join(r.notes), "")
                else:
                    chk.holds(sj, RULES[0], v.args[0].args[1] >= 1 and v.args[1].args[1] > v.args[0].args[1], "the merger that was given is not used")
        # a constraint makes its successors through its factory
        for t in (True, False):
            for lab, a, b in (("common values", (1, 2), (2, 3)), ("no common values", (1,), (2,))):
                def f():
                    m = mk(T, "MarkedConstraintFactory", T.new("ConstraintFactory"), t)
                    c = T.new("VarValueConstraint", const("a"), T.set_(sq.sset([const(x) for x in a])), m)
                    d = T.meth(T.new("ConstraintFactory"), "var_value_constraint", const("a"), T.set_(sq.sset([const(x) for x in b])))
                    T.meth(c, "merge", d)
                    return T.freeze(uses(T, m))
                used(T, subj(T, "VarValueConstraint", "merge") + " [%s%s]" % (lab, "" if t else ", falsy factory"), chk.run(T, f).value, "factory", True, RULES[0])

            def f():
                k = T.new("ConstraintFactory")
                return T.freeze(T.list_([T.meth(T.meth(T.meth(k, "var_value_constraint", const("a"), T.set_(V)), "merge",
                                                       T.meth(k, "var_value_constraint", const("a"), T.set_(V))), "is_possible")]))
        try_components(T, "ProbabilityOutcomeFactory", ["constraint_set_factory"],
                       {"constraint_set_factory": lambda t: mk(T, "MarkedConstraintSetFactory", T.new("ConstraintSetFactory"), t)},
                       lambda o: T.i.getattr(T.meth(o, "create_empty", X), "value"), where)
        try_components(T, "ProbabilityDistributionFactory", ["probability_outcome_factory"],
                       {"probability_outcome_factory": lambda t: mk(T, "MarkedOutcomeFactory", T.new("ProbabilityOutcomeFactory"), t)},
                       lambda o: T.meth(T.meth(o, "create", T.dict_(sq.map_lit([(X, ONE)]))), "get_result_map"), where)

        def assign(o):
            st = T.meth(o, "create_new_empty_set")
            d = T.meth(T.new("ProbabilityDistributionFactory"), "create", T.dict_(sq.map_lit([(const(4), ONE)])))
            T.meth(st, "set_var", const("a"), d)
            return T.meth(T.meth(st, "get_var", const("a")), "get_result_map")
        try_components(T, "ProbabilityDistributionStateFactory", ["probability_distribution_factory", "constraint_factory"],
                       {"probability_distribution_factory": lambda t: mk(T, "MarkedDistributionFactory", T.new("ProbabilityDistributionFactory"), t),
                        "constraint_factory": lambda t: mk(T, "MarkedConstraintFactory", T.new("ConstraintFactory"), t)}, assign, where)
        for tp, tc in ((True, True), (False, True), (True, False)):
            def f():
                p = mk(T, "MarkedDistributionFactory", T.new("ProbabilityDistributionFactory"), tp)
                c = mk(T, "MarkedConstraintFactory", T.new("ConstraintFactory"), tc)
                st = T.new("ProbabilityDistributionState", p, c)
                d = T.meth(T.new("ProbabilityDistributionFactory"), "create", T.dict_(sq.map_lit([(const(4), ONE)])))
                T.meth(st, "set_var", const("a"), d)
                return T.freeze(T.list_([uses(T, p), uses(T, c)]))
            v = chk.run(T, f).value
            for k, n in enumerate(("distribution factory", "constraint factory")):
                used(T, subj(T, "ProbabilityDistributionState", "set_var") + " [%s]" % n, v.args[k] if v is not None and v.op == "tup" else None, n, True, RULES[0])
    chk.guard("factories", RULES[0], lower)

    # ------------------------------------------------------------ expressions
    S = chk.session(log_new=True)
    F = S.obj("F", "IProbabilityDistributionFactory")
    # (what the operators of a distribution make is part of the distribution)
    home = subj(S, "ProbabilityDistribution", "__init__").split()[0]

    def only_f(S_, sj, run, rule=0):
        made = [e for e in run.events if e.kind == "new" and e.name in ("ProbabilityDistribution", "ProbabilityDistributionFactory") and e.guard is not FALSE
                and not e.where.split(":")[0].endswith(home)]
        asked = [e for e in run.events if e.kind in ("query", "call") and e.name == "create" and e.recv is F]
        if run.value is None or not asked and any("unsupported" in n for n in run.notes):
            return chk.add(sj, RULES[rule], "undecided", "; ".join(run.notes), "")
        return chk.holds(sj, RULES[rule], bool(asked) and not made,
                         "makes a distribution of its own at %s" % made[0].where if made else "does not ask the factory that was given", "effects")

    def expressions():
        for cls, texts in (("DiceExpression", ["d6", "2d6", "0d6", "3d[1,2]", "dF", "1d%"]),
                           ("DropKeepExpression", ["3d6k1", "3d6d1", "3d6k0", "3d6d0", "3d6k3", "3d6d3", "3d6k9", "3d6d9", "3d[1,2]k1", "3dFk2"]),
                           ("ConstantIntegerExpression", ["1", "-1", "0"]), ("ConstantBinaryExpression", ["True", "False"])):
            for t in texts:
                run = chk.run(S, lambda: S.freeze(S.meth(S.new(cls, const(t), F), "get_probability_distribution")))
                only_f(S, subj(S, cls, "get_probability_distribution") + " [%s]" % t, run)
    chk.guard("expressions", RULES[0], expressions)

    # ------------------------------------------------------------ parser
    R = chk.session(stubs=("rply",), log_new=True)

    def entry(kind):
        v = R.freeze(R.attr("rply", "LOG"))
        return [x for x in v.args if x.args and x.args[0] is const(kind)]

    def parser():
        for g in subsets(["lexer", "probability_distribution_factory", "probability_distribution_state_factory"]):
            def comps():
                out = {}
                if "lexer" in g:
                    out["lexer"] = mk(R, "MarkedLexer", NONE, g["lexer"])
                if "probability_distribution_factory" in g:
                    out["probability_distribution_factory"] = mk(R, "FixedDistributionFactory", R.obj("D", "IProbabilityDistribution"), g["probability_distribution_factory"])
                if "probability_distribution_state_factory" in g:
                    out["probability_distribution_state_factory"] = mk(R, "MarkedStateFactory", R.new("ProbabilityDistributionStateFactory"), g["probability_distribution_state_factory"])
                return out
            sj = subj(R, "PythonDiceParser", "%s") + " [" + label(g) + "]"

            def f(state=None):
                R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("echo"), TRUE)
                ms = comps()
                p = R.new("PythonDiceParser", **ms)
                r = R.meth(p, "parse", const("line"), *([state] if state is not None else []))
                tree = R.i.getitem(R.i.getitem(r, const(0)), ONE)
                st = R.i.getitem(r, ONE)
                consts = R.meth(st, "get_constant_dict") if state is None else st
                return R.freeze(R.list_([tree, consts]))
            toks = tm.tup([const("lexed"), const("line")]) if "lexer" in g else tm.tup([const("line")])
            made = sq.map_lit([(const("made"), const(7))]) if "probability_distribution_state_factory" in g else sq.EMPTY_MAP
            chk.same(sj % "parse", RULES[0 if g else 1], chk.run(R, f), Res(tm.tup([toks, made])), n=4)
            s1 = R.obj("s1", "IProbabilityDistributionState")
            chk.same(sj % "parse" + " with a state", RULES[0 if g else 1], chk.run(R, lambda: f(s1)), Res(tm.tup([toks, s1])), n=4)

            def falsy():
                R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("echo"), TRUE)
                p = R.new("PythonDiceParser", **comps())
                st = R.i.call(R.attr("verif_ref", "FalsyState"), [R.new("ProbabilityDistributionFactory"), R.new("ConstraintFactory")])
                R.meth(st, "set_constant", const("mine"), X)
                r = R.meth(p, "parse", const("line"), st)
                return R.freeze(R.list_([R.meth(R.i.getitem(r, ONE), "get_constant_dict"), R.meth(R.i.getitem(R.i.getitem(r, const(0)), const(2)), "get_constant_dict")]))
            mine = sq.map_lit([(const("mine"), X)])
            chk.same(sj % "parse" + " with a falsy state", RULES[0], chk.run(R, falsy), Res(tm.tup([mine, mine])), n=4)

            # the distribution factory reaches every production that needs one
            box = {}

            def build():
                ms = comps()
                R.new("PythonDiceParser", **ms)
                box["m"] = ms.get("probability_distribution_factory")
                box["log"] = R.attr("rply", "LOG")
                return NONE

            def productions():
                build()
                last = R.i.getitem(box["log"], const(-1))
                out = []
                for prod in R.i.getitem(last, const(3)).args:
                    rule = R.i.getitem(prod, const(0))
                    name = rule.args[1].split(":")[1].split() if rule.op == "c" else []
                    text = {"CONSTANT_INTEGER": "4", "CONSTANT_BINARY": "True", "DICE": "2d2", "DROP_KEEP_DICE": "3d2k1"}.get(name[0] if len(name) == 1 else "")
                    if text is None:
                        continue
                    tok = R.i.call(R.attr("rply", "Token"), [const(name[0]), const(text)])
                    e = R.i.call(R.i.getitem(prod, ONE), [R.obj("s1", "IProbabilityDistributionState"), R.list_([tok])])
                    d = R.meth(e, "get_probability_distribution")
                    if box["m"] is None:
                        d = R.meth(d, "get_result_map")
                    out.append(tm.tup([const(name[0]), R.freeze(d), R.freeze(R.i.call(bi("len"), [uses(R, box["m"])])) if box["m"] is not None else NONE]))
                return tm.tup(out)
            run = chk.run(R, productions)
            v = run.value
            if v is None or v.op != "tup" or len(v.args) < 1:
                chk.add(sj % "production functions", RULES[0], "undecided", "; ".join(run.notes), "")
                continue
            if "probability_distribution_factory" in g:
                n = 0
                for x in v.args:
                    k = x.args[2]
                    if k.op != "c":
                        chk.add(sj % x.args[0].args[1], RULES[0], "undecided", str(k), "")
                        continue
                    chk.holds(sj % ("production of " + x.args[0].args[1]), RULES[0], k.args[1] > n, "the distribution factory that was given is not asked", "structure")
                    n = k.args[1]
            else:
                for x in v.args:
                    want = {"CONSTANT_INTEGER": [(4, 1)], "CONSTANT_BINARY": [(1, 1)], "DICE": [(2, 1), (3, 2), (4, 1)], "DROP_KEEP_DICE": [(1, 1), (2, 7)]}[x.args[0].args[1]]
                    chk.same(sj % ("production of " + x.args[0].args[1]), RULES[1], Res(x.args[1]), Res(sq.map_lit([(const(a), const(b)) for a, b in want])), n=4)
    chk.guard("PythonDiceParser", RULES[0], parser)

    # ------------------------------------------------------------ interpreter
    def interpreter():
        cls = "PythonDiceInterpreter"
        names = ["parser", "starting_state", "probability_distribution_state_factory", "probability_distribution_factory"]
        A = R.obj("A", "IDiceExpression")
        D = R.obj("D", "IProbabilityDistribution")

        def comps(g):
            out = {}
            if "parser" in g:
                out["parser"] = mk(R, "MarkedParser", A, g["parser"])
            if "starting_state" in g:
                out["starting_state"] = (R.i.call(R.attr("verif_ref", "FalsyState"), [R.new("ProbabilityDistributionFactory"), R.new("ConstraintFactory")])
                                         if not g["starting_state"] else R.meth(R.new("ProbabilityDistributionStateFactory"), "create_new_empty_set"))
                R.meth(out["starting_state"], "set_constant", const("given"), const(5))
                R.meth(out["starting_state"], "set_var", const("given"), R.i.models.dist_of(R.i, A))
            if "probability_distribution_state_factory" in g:
                out["probability_distribution_state_factory"] = mk(R, "MarkedStateFactory", R.new("ProbabilityDistributionStateFactory"), g["probability_distribution_state_factory"])
            if "probability_distribution_factory" in g:
                out["probability_distribution_factory"] = mk(R, "FixedDistributionFactory", D, g["probability_distribution_factory"])
            return out

        for g in subsets(names):
            sj = subj(R, cls, "%s") + " [" + label(g) + "]"
            truthy = all(g.values())
            for q in QUERIES if truthy else ["roll", "max", "get_average"]:
                def f():
                    ms = comps(g)
                    R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("result"), A)
                    i = R.new(cls, **ms)
                    r = R.meth(i, q, R.list_([const("a"), const("b")]))
                    if q == "get_estimated_cost":
                        return R.freeze(R.list_([NONE, uses(R, ms["parser"]) if "parser" in ms else NONE]))
                    return R.freeze(R.list_([R.i.call(bi("set"), [r]), uses(R, ms["parser"]) if "parser" in ms else NONE]))
                keys = {"stdout"}
                if "parser" in g:
                    keys |= {"a", "b"}
                if "starting_state" in g:
                    keys.add("given")
                elif "probability_distribution_state_factory" in g and q in ("roll", "max", "min"):
                    keys.add("made")
                want = tm.tup([NONE if q == "get_estimated_cost" else sq.sset([const(k) for k in sorted(keys)]),
                               tm.tup([const("a"), const("b")]) if "parser" in g else NONE])
                chk.same(sj % q, RULES[0 if g else 1], chk.run(R, f), Res(want), n=4)
            # what a program without lines draws comes from the distribution factory
            if "probability_distribution_factory" in g:
                for q in ("get_histogram", "get_at_least_histogram", "get_at_most_histogram"):
                    def f():
                        i = R.new(cls, **comps(g))
                        return R.freeze(R.meth(i, q, R.list_([])))
                    run = chk.run(R, f)
                    asked = [e for e in run.events if e.kind == "query" and e.name == q and e.recv is D]
                    if not asked and any("unsupported" in n for n in run.notes):
                        chk.add(sj % q + " of no lines", RULES[0], "undecided", "; ".join(run.notes), "")
                        continue
                    chk.holds(sj % q + " of no lines", RULES[0], bool(asked), "the distribution factory that was given is not used", "effects")
            # the state is the one the parser is handed
            if "parser" not in g:
                def f():
                    ms = comps(g)
                    R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("echo"), FALSE)
                    R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("result"), A)
                    i = R.new(cls, **ms)
                    R.meth(i, "roll", R.list_([const("a")]))
                    last = R.i.getitem(R.attr("rply", "LOG"), const(-1))
                    st = R.i.getitem(last, const(2))
                    R.meth(st, "set_constant", const("through"), const(9))
                    return R.freeze(R.i.call(bi("set"), [R.meth(i, "roll", R.list_([const("a")]))]))
                keys = {"stdout", "through"} | ({"given"} if "starting_state" in g else {"made"} if "probability_distribution_state_factory" in g else set())
                chk.same(sj % "roll" + " state handed to the parser", RULES[2], chk.run(R, f), Res(sq.sset([const(k) for k in sorted(keys)])), n=4)
        # given by position
        def pos():
            ms = comps({n: True for n in names})
            i = R.new(cls, *[ms[n] for n in names])
            return R.freeze(R.list_([R.i.call(bi("set"), [R.meth(i, "roll", R.list_([const("a")]))]), uses(R, ms["parser"])]))
        chk.same(subj(R, cls, "__init__") + " [by position]", RULES[0], chk.run(R, pos),
                 Res(tm.tup([sq.sset([const(k) for k in ("a", "given", "stdout")]), tm.tup([const("a")])])), n=4)

        # interpreters do not share variables
        for how in ("parser given", "defaults"):
            for q in ("roll", "max", "get_average"):
                def f():
                    R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("echo"), FALSE)
                    R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("result"), A)
                    new = lambda: R.new(cls, mk(R, "MarkedParser", A)) if how == "parser given" else R.new(cls)
                    i, j = new(), new()
                    R.meth(i, q, R.list_([const("a")]))
                    if how == "defaults":
                        st = R.i.getitem(R.i.getitem(R.attr("rply", "LOG"), const(-1)), const(2))
                        R.meth(st, "set_constant", const("a"), const(1))
                        R.meth(st, "set_var", const("a"), R.i.models.dist_of(R.i, A))
                    k = new()
                    return R.freeze(R.list_([R.i.call(bi("set"), [R.meth(x, q, R.list_([const("b")]))]) for x in (j, k, i)]))
                b = {"b"} if how == "parser given" else set()
                ks = lambda s: sq.sset([const(k) for k in sorted(s)])
                chk.same(subj(R, cls, q) + " [two interpreters, %s]" % how, RULES[2], chk.run(R, f),
                         Res(tm.tup([ks(b | {"stdout"}), ks(b | {"stdout"}), ks(b | {"a", "stdout"})])), n=4)
        # nor do the states of one factory, or of two
        for lab, two in (("one factory", False), ("two factories", True)):
            def f():
                sf = R.new("ProbabilityDistributionStateFactory")
                sg = R.new("ProbabilityDistributionStateFactory") if two else sf
                s, t = R.meth(sf, "create_new_empty_set"), R.meth(sg, "create_new_empty_set")
                R.meth(s, "set_constant", const("a"), X)
                R.meth(s, "set_var", const("a"), R.i.models.dist_of(R.i, A))
                u = R.meth(sg, "create_new_empty_set")
                return R.freeze(R.list_([R.i.call(bi("set"), [R.meth(x, m)]) for x in (t, u) for m in ("get_constant_dict", "get_var_dict")]))
            chk.same(subj(R, "ProbabilityDistributionStateFactory", "create_new_empty_set") + " [%s]" % lab, RULES[2], chk.run(R, f), Res(tm.tup([sq.sset([])] * 4)), n=4)
    chk.guard("PythonDiceInterpreter", RULES[0], interpreter)
    return chk.finish(RULES)
