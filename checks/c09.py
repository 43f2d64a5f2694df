"""C09: objects handed in or out are never changed behind the user's back."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, sym, tm, sq, const, et, ONE, TRUE, NONE, TIER, Obj, not_, lt, and_, distmap, bi
from .c06 import METHODS, UNARY

RULES = ["an operation leaves what its operands answer as it was",
         "assigning a variable leaves the assigned distribution as it was",
         "a result of the interpreter is not altered by later calls",
         "a map, set or list passed in by the caller is not modified",
         "what an object has handed out does not change when the object is used further"]

V, W = sym("V", ("set", "int")), sym("W", ("set", "int"))
X, Y = sym("x", "int"), sym("y", "int")
N, M = sym("nat:N", "int"), sym("nat:M", "int")


def main():
    chk = Check("C09")
    T = chk.session()
    T.i.abstract_cs = False
    where = and_(not_(lt(sq.set_len(V), ONE)), not_(lt(sq.set_len(W), ONE)))

    def group(cs):
        return T.i.alloc(Obj("set", None, {"c": sq.sset(cs)}))

    def con(f, c):
        if c == "null":
            return T.i.getattr(f, "null_constraint")
        if c == "imp":
            return T.i.getattr(f, "impossible_constraint")
        return T.meth(f, "var_value_constraint", const(c[0]), T.set_({"V": V, "W": W}[c[1]]))

    def cset(f, *cs):
        return T.new("ConstraintSet", group([con(f, c) for c in cs]), T.new("ConstraintMerger"))

    def probe():
        """assignments of the variables that occur, for asking a set what it accepts"""
        return T.dict_(sq.map_lit([(const("a"), X), (const("b"), Y)]))

    def see_set(s):
        return T.list_([T.meth(s, "is_possible"), T.meth(s, "complies", probe()), T.i.getattr(s, "constraints")])

    def see_con(c):
        return T.list_([T.meth(c, "is_possible"), T.meth(c, "complies", probe())])

    def see_outcome(o):
        return T.list_([T.i.getattr(o, "value"), T.meth(o, "is_possible"), see_set(T.i.getattr(o, "constraint_set"))])

    def see_dist(d):
        return T.meth(d, "get_constraint_result_map")

    def unchanged(subject, rule, build, see, act, n=None):
        """build() -> (what is watched, everything act needs); see(what) before and after act(...)"""
        box = {}

        def first():
            box["w"], box["rest"] = build()
            return T.freeze(T.list_([see(w) for w in box["w"]]))
        before = chk.run(T, first, keep=True)

        def second():
            act(*box["rest"])
            return T.freeze(T.list_([see(w) for w in box["w"]]))
        box["during"] = []
        after = chk.run(T, second)
        after.raises = []  # an operation that fails has to leave its operands alone as well: see below
        before.raises = []
        chk.same(subject, rule, after, before, where=where, values_only=True, n=n)

    def fac():
        return T.new("ConstraintFactory")

    # ------------------------------------------------------------ outcomes and distributions
    def outcome(v, *cs):
        return T.new("ProbabilityOutcome", v, cset(fac(), *cs))

    def dist(pairs):
        return T.meth(T.new("ProbabilityDistributionFactory"), "create", T.dict_(sq.map_lit(pairs)))

    PAIRS = [("apart", ("aV",), ("bW",)), ("same variable", ("aV",), ("aW",)), ("several", ("aV", "bW"), ("aW", "null")), ("unconstrained", ("null",), ("aV",))]
    if TIER == "quick":
        PAIRS = PAIRS[:2] + PAIRS[3:]
    for op, meth in list(METHODS.items()) + list(UNARY.items()):
        for lab, one, two in PAIRS:
            def outs():
                def build():
                    a, b = outcome(X, *one), outcome(Y, *two)
                    return [a, b], (a, b)
                unchanged(subj(T, "ProbabilityOutcome", meth) + " [%s]" % lab, RULES[0], build, see_outcome,
                          lambda a, b: T.meth(a, meth, *([b] if op in METHODS else [])), n=20)
            chk.guard("ProbabilityOutcome.%s" % meth, RULES[0], outs)

            def dists():
                def build():
                    oa, ob = outcome(X, *one), outcome(Y, *two)
                    a, b = dist([(oa, N)]), dist([(ob, M)])
                    return [("d", a), ("d", b), ("o", oa), ("o", ob)], (a, b)

                def see(w):
                    return see_dist(w[1]) if w[0] == "d" else see_outcome(w[1])
                unchanged(subj(T, "ProbabilityDistribution", meth) + " [%s]" % lab, RULES[0], build, see,
                          lambda a, b: T.meth(a, meth, *([b] if op in METHODS else [])), n=20)
            chk.guard("ProbabilityDistribution.%s" % meth, RULES[0], dists)

    # whole tables: the operator does not change the table of either operand
    S = chk.session()
    A, B = S.obj("A", "IDiceExpression"), S.obj("B", "IDiceExpression")

    def tables():
        for op, meth in list(METHODS.items()) + list(UNARY.items()):
            for lab, other in (("", B), (" [with itself]", A)):
                if lab and op in UNARY:
                    continue
                if op == "//":
                    continue

                def f():
                    a = S.i.models.dist_of(S.i, A)
                    b = a if other is A else S.i.models.dist_of(S.i, other)
                    S.meth(a, meth, *([b] if op in METHODS else []))
                    return S.freeze(S.list_([S.meth(a, "get_constraint_result_map"), S.meth(b, "get_constraint_result_map"),
                                              S.meth(a, "get_result_map")]))

                def g():
                    a = S.i.models.dist_of(S.i, A)
                    b = a if other is A else S.i.models.dist_of(S.i, other)
                    return S.freeze(S.list_([S.meth(a, "get_constraint_result_map"), S.meth(b, "get_constraint_result_map"),
                                              S.meth(a, "get_result_map")]))
                chk.same(subj(S, "ProbabilityDistribution", meth) + " [tables]" + lab, RULES[0], chk.run(S, f), chk.run(S, g), values_only=True, n=20)
    chk.guard("ProbabilityDistribution tables", RULES[0], tables)

    VIEWS = ["get_dict_form", "at_least", "at_most", "average", "max", "min", "contains_zero", "get_result_map", "__str__"]

    def views():
        im = sym("table", ("map", "int", "int"))
        some = not_(lt(sq.set_len(sq.keys(im)), ONE))
        for v in VIEWS:
            def f():
                a = S.i.models.dist_of(S.i, A)
                S.meth(a, v)
                return S.freeze(S.list_([S.meth(a, "get_constraint_result_map"), S.meth(a, "get_result_map"), S.meth(a, "get_dict_form")]))

            def g():
                a = S.i.models.dist_of(S.i, A)
                return S.freeze(S.list_([S.meth(a, "get_constraint_result_map"), S.meth(a, "get_result_map"), S.meth(a, "get_dict_form")]))
            chk.same(subj(S, "ProbabilityDistribution", v) + " [table]", RULES[0], chk.run(S, f), chk.run(S, g), values_only=True, n=20)
        # what a view has handed out stays as it is
        for v in ("get_dict_form", "at_least", "at_most", "get_result_map", "get_constraint_result_map"):
            for w in ["get_dict_form", "at_least", "at_most", "get_result_map", "+", "!", "set_var"]:
                def do(late):
                    a = S.i.models.dist_of(S.i, A)
                    r = S.meth(a, v)
                    if late:
                        if w == "+":
                            S.meth(a, "__add__", a)
                        elif w == "!":
                            S.meth(a, "not_operator")
                        elif w == "set_var":
                            st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                            S.meth(st, "set_var", const("q"), a)
                        else:
                            S.meth(a, w)
                    return S.freeze(r)
                chk.same(subj(S, "ProbabilityDistribution", v) + " [kept during %s]" % w, RULES[4], chk.run(S, lambda: do(True)),
                         chk.run(S, lambda: do(False)), values_only=True, n=20)
            # nor does the caller's use of it change the distribution
            if v == "get_constraint_result_map":
                continue

            def spoil(late):
                a = S.i.models.dist_of(S.i, A)
                r = S.meth(a, v)
                if late:
                    S.meth(r, "clear")
                return S.freeze(S.list_([S.meth(a, "get_constraint_result_map"), S.meth(a, v)]))
            chk.same(subj(S, "ProbabilityDistribution", v) + " [its result emptied by the caller]", RULES[4], chk.run(S, lambda: spoil(True)),
                     chk.run(S, lambda: spoil(False)), values_only=True, n=20)
        # tables passed in
        for c, m, mk in (("ProbabilityDistribution", "__init__", lambda d: S.new("ProbabilityDistribution", S.new("ProbabilityOutcomeFactory"), d)),
                         ("ProbabilityDistributionFactory", "create", lambda d: S.meth(S.new("ProbabilityDistributionFactory"), "create", d))):
            for lab, table, guard in (("values", im, some), ("outcomes", distmap(A), None)):
                for use in (None, "__add__", "set_var", "at_least"):
                    def f():
                        d = S.dict_(table, origin=A if lab == "outcomes" else im)
                        r = mk(d)
                        if use == "set_var":
                            st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                            S.meth(st, "set_var", const("q"), r)
                        elif use == "__add__":
                            S.meth(r, use, r)
                        elif use:
                            S.meth(r, use)
                        return S.freeze(d)
                    chk.same(subj(S, c, m) + " [table of %s, then %s]" % (lab, use), RULES[3], chk.run(S, f), Res(table), values_only=True, where=guard, n=20)

            def later():
                # the caller goes on using the table
                d = S.dict_(im, origin=im)
                r = mk(d)
                S.meth(d, "clear")
                return S.freeze(S.meth(r, "get_result_map"))
            chk.same(subj(S, c, m) + " [table emptied by the caller afterwards]", RULES[3], chk.run(S, later),
                     chk.run(S, lambda: S.freeze(S.meth(mk(S.dict_(im, origin=im)), "get_result_map"))), values_only=True, where=some, n=20)
    chk.guard("ProbabilityDistribution views", RULES[4], views)

    # ------------------------------------------------------------ constraints
    KINDS = ["aV", "aW", "bW", "null", "imp"]

    def constraints():
        for c in KINDS:
            for d in KINDS:
                for m in ("merge", "can_merge", "__eq__"):
                    if m == "merge" and (c[0] in "ab" and (d[0] != c[0])):
                        continue  # refused

                    def build():
                        f = fac()
                        x, y = con(f, c), con(f, d)
                        return [x, y], (x, y)
                    unchanged("%s.%s of %s and %s" % (subj(T, {"n": "NullConstraint", "i": "ImpossibleConstraint"}.get(c[0], "VarValueConstraint"), m), m, c, d),
                              RULES[0], build, see_con, lambda x, y: T.meth(x, m, y), n=12)
        # the set of values passed in, and a constraint's own values
        def vals(act):
            def f():
                vs = T.set_(V)
                c = T.meth(fac(), "var_value_constraint", const("a"), vs)
                act(c)
                return T.freeze(vs)
            return f
        for lab, act in (("", lambda c: None), (" merged", lambda c: T.meth(c, "merge", con(fac(), "aW"))), (" merged into", lambda c: T.meth(con(fac(), "aW"), "merge", c)),
                         (" in a set", lambda c: T.meth(T.new("ConstraintSet", group([c]), T.new("ConstraintMerger")), "add_constraint", con(fac(), "aW"))),
                         (" asked", lambda c: see_con(c)), (" hashed", lambda c: T.meth(c, "__hash__"))):
            chk.same(subj(T, "ConstraintFactory", "var_value_constraint") + " [values%s]" % lab, RULES[3], chk.run(T, vals(act)), Res(V), where=where, values_only=True, n=20)
    chk.guard("constraints", RULES[0], constraints)

    SETS = [("aV",), ("aV", "bW"), ("null",), ("aV", "aW"), ("imp",)]

    def sets():
        for one in SETS:
            for two in SETS:
                def build():
                    f = fac()
                    x, y = cset(f, *one), cset(f, *two)
                    return [x, y], (x, y)
                for m in ("combine_sets", "__eq__"):
                    unchanged(subj(T, "ConstraintSet", m) + " [%s with %s]" % ("+".join(one), "+".join(two)), RULES[0], build, see_set,
                              lambda x, y: T.meth(x, m, y), n=12)

                def grown():
                    """a combination that grows leaves the sets it came from alone, and the other way round"""
                    f = fac()
                    x, y = cset(f, *one), cset(f, *two)
                    return [x, y], (x, y)
                unchanged(subj(T, "ConstraintSet", "combine_sets") + " [%s with %s, result extended]" % ("+".join(one), "+".join(two)), RULES[0], grown,
                          see_set, lambda x, y: T.meth(T.meth(x, "combine_sets", y), "add_constraint", con(fac(), "bV")), n=12)

                def source():
                    f = fac()
                    x, y = cset(f, *one), cset(f, *two)
                    return [T.meth(x, "combine_sets", y)], (x, y)
                unchanged(subj(T, "ConstraintSet", "combine_sets") + " [%s with %s, sources extended]" % ("+".join(one), "+".join(two)), RULES[4], source,
                          see_set, lambda x, y: (T.meth(x, "add_constraint", con(fac(), "bV")), T.meth(y, "add_constraint", con(fac(), "aW"))), n=12)
            for c in KINDS:
                def handed():
                    x = cset(fac(), *one)
                    return [T.i.getattr(x, "constraints")], (x,)
                unchanged(subj(T, "ConstraintSet", "constraints") + " [%s, %s added later]" % ("+".join(one), c), RULES[4], handed, lambda s: s,
                          lambda x: T.meth(x, "add_constraint", con(fac(), c)), n=12)

                def added():
                    f = fac()
                    k = con(f, c)
                    x = cset(f, *one)
                    return [k], (x, k)
                unchanged(subj(T, "ConstraintSet", "add_constraint") + " [%s added to %s]" % (c, "+".join(one)), RULES[0], added, see_con,
                          lambda x, k: T.meth(x, "add_constraint", k), n=12)

                def merged():
                    f = fac()
                    g = group([con(f, k) for k in one])
                    return [g], (g, con(f, c))
                unchanged(subj(T, "ConstraintMerger", "merge_new_constraints") + " [%s into %s]" % (c, "+".join(one)), RULES[3], merged, lambda s: s,
                          lambda g, k: T.meth(T.new("ConstraintMerger"), "merge_new_constraints", g, k), n=12)

            def all_():
                f = fac()
                g = group([con(f, k) for k in one])
                return [g], (g,)
            unchanged(subj(T, "ConstraintMerger", "merge_constraints") + " [%s]" % "+".join(one), RULES[3], all_, lambda s: s,
                      lambda g: T.meth(T.new("ConstraintMerger"), "merge_constraints", g), n=12)
            unchanged(subj(T, "ConstraintSet", "__init__") + " [%s]" % "+".join(one), RULES[3], all_, lambda s: s,
                      lambda g: T.meth(T.new("ConstraintSet", g, T.new("ConstraintMerger")), "add_constraint", con(fac(), "aW")), n=12)

            def kept():
                f = fac()
                g = group([con(f, k) for k in one])
                return [T.new("ConstraintSet", g, T.new("ConstraintMerger"))], (g,)
            unchanged(subj(T, "ConstraintSet", "__init__") + " [%s, the caller's set emptied afterwards]" % "+".join(one), RULES[3], kept, see_set,
                      lambda g: T.meth(g, "clear"), n=12)

            def spoilt():
                x = cset(fac(), *one)
                return [x], (x,)
            unchanged(subj(T, "ConstraintSet", "constraints") + " [%s, emptied by the caller]" % "+".join(one), RULES[4], spoilt, see_set,
                      lambda x: T.meth(T.i.getattr(x, "constraints"), "clear"), n=12)
        # sets made by one factory are separate
        def fresh():
            sf = T.new("ConstraintSetFactory")
            x, y = T.meth(sf, "create_constraint_set"), T.meth(sf, "create_constraint_set")
            return [x], (y,)
        unchanged(subj(T, "ConstraintSetFactory", "create_constraint_set") + " [another one extended]", RULES[4], fresh, see_set,
                  lambda y: T.meth(y, "add_constraint", con(fac(), "aV")), n=12)

        def fresh_outcomes():
            of = T.new("ProbabilityOutcomeFactory")
            x, y = T.meth(of, "create_empty", X), T.meth(of, "create_empty", X)
            return [x], (y,)
        unchanged(subj(T, "ProbabilityOutcomeFactory", "create_empty") + " [another one extended]", RULES[4], fresh_outcomes, see_outcome,
                  lambda y: T.meth(T.i.getattr(y, "constraint_set"), "add_constraint", con(fac(), "aV")), n=12)
        # a copy is a copy: sets given to an outcome
    chk.guard("constraint sets", RULES[0], sets)

    # ------------------------------------------------------------ assignment
    def assign():
        for lab, one, two in PAIRS:
            for derive in (None, "not_operator", "__abs__", "__add__"):
                for depth in (1, 2):
                    def build():
                        oa, ob = outcome(X, *one), outcome(Y, *two)
                        d = dist([(oa, N)])
                        e = dist([(ob, M)])
                        r = d if derive is None else T.meth(d, derive) if derive != "__add__" else T.meth(d, derive, e)
                        st = T.meth(T.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                        return [("d", d), ("d", e), ("d", r), ("o", oa), ("o", ob)], (st, r, d)

                    def act(st, r, d):
                        T.meth(st, "set_var", const("q"), r)
                        if depth == 2:
                            T.meth(st, "set_var", const("b"), d)
                            T.meth(st, "set_var", const("q"), T.meth(st, "get_var", const("q")))
                    unchanged(subj(T, "ProbabilityDistributionState", "set_var") + " [%s, %s, %d deep]" % (lab, derive, depth), RULES[1], build,
                              lambda w: see_dist(w[1]) if w[0] == "d" else see_outcome(w[1]), act, n=20)

            def twice():
                # what get_var handed out stays when the variable or another one is assigned
                d = dist([(outcome(X, *one), N)])
                st = T.meth(T.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                T.meth(st, "set_var", const("q"), d)
                g = T.meth(st, "get_var", const("q"))
                return [g], (st, g)

            def again(st, g):
                T.meth(st, "set_var", const("r"), g)
                T.meth(st, "set_var", const("q"), g)
                T.meth(st, "set_constant", const("q"), X)
            unchanged(subj(T, "ProbabilityDistributionState", "get_var") + " [%s, assigned again]" % lab, RULES[4], twice, see_dist, again, n=20)
        # whole tables, and through an assignment expression
        for ask in ("get_probability_distribution", "max", "min"):
            def f(late):
                st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                a = S.i.models.dist_of(S.i, A)
                e = S.i.call(S.attr("verif_ref", "Fixed"), [a, X, Y])
                if late:
                    S.meth(S.new("VarAssignmentExpression", st, const("q"), e), ask)
                    S.meth(S.new("VarAssignmentExpression", st, const("r"), S.new("GetVarExpression", st, const("q"))), "get_probability_distribution")
                return S.freeze(S.meth(a, "get_constraint_result_map"))
            chk.same(subj(S, "VarAssignmentExpression", ask) + " [the assigned table]", RULES[1], chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False)), values_only=True)
    chk.guard("ProbabilityDistributionState.set_var", RULES[1], assign)

    # constraint sets of outcomes that came from outside are never written to
    def written():
        def fixed_state():
            st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
            return st
        acts = [("ProbabilityDistributionState", "set_var", lambda a, b: S.meth(fixed_state(), "set_var", const("q"), a))]

        def again(*steps):
            def act(a, b):
                st = fixed_state()
                for name, what in steps:
                    S.meth(st, "set_var", const(name), a if what == "A" else b if what == "B" else S.meth(st, "get_var", const(what)))
            return act
        for steps in (("q", "A"), ("q", "q")), (("q", "A"), ("r", "q")), (("q", "A"), ("q", "A")), (("q", "A"), ("r", "A")), \
                (("q", "A"), ("r", "B"), ("q", "r")), (("q", "A"), ("r", "q"), ("r", "r"), ("q", "r"), ("s", "q")):
            acts.append(("ProbabilityDistributionState", "set_var", again(*steps), ", ".join("%s = %s" % x for x in steps)))
        for ask in ("get_probability_distribution", "max", "min"):
            acts.append(("VarAssignmentExpression", ask, lambda a, b, ask=ask: S.meth(S.new(
                "VarAssignmentExpression", fixed_state(), const("q"), S.i.call(S.attr("verif_ref", "Fixed"), [a, X, Y])), ask)))
        for meth in METHODS.values():
            acts.append(("ProbabilityDistribution", meth, lambda a, b, meth=meth: S.meth(a, meth, b)))
        for meth in list(UNARY.values()) + VIEWS:
            acts.append(("ProbabilityDistribution", meth, lambda a, b, meth=meth: S.meth(a, meth)))
        for c, m, act, *lab in acts:
            r = chk.run(S, lambda: act(S.i.models.dist_of(S.i, A), S.i.models.dist_of(S.i, B)))
            bad = [e for e in r.events if e.kind == "mutate" and e.name == "cs" and e.guard is not tm.FALSE]
            chk.holds(subj(S, c, m) + " [constraint sets of the operands' outcomes%s]" % "".join(": " + x for x in lab), RULES[1 if "set" in m or "Var" in c else 0], not bad,
                      "writes to the constraint set of an outcome it was given, at %s" % (bad and bad[0].where), "effects")
    chk.guard("constraint sets of given outcomes", RULES[1], written)

    # ------------------------------------------------------------ interpreter
    QUERIES = ["roll", "max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average"]

    def interpreter():
        cls = "PythonDiceInterpreter"
        for q in QUERIES:
            for q2 in QUERIES + ["get_estimated_cost"]:
                for lines2 in (["b"], ["a"], ["a", "b", "c"]):
                    def build():
                        st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                        p = S.i.call(S.attr("verif_ref", "AssigningParser"), [S.dict_(sq.map_lit([(const("a"), A), (const("b"), B), (const("c"), A)]))])
                        i = S.new(cls, p, st)
                        r = S.meth(i, q, lst_(["a", "b"]))
                        return i, r

                    def early():
                        return S.freeze(view(build()[1], q))

                    def late():
                        i, r = build()
                        S.meth(i, q2, lst_(lines2))
                        return S.freeze(view(r, q))
                    a, b = chk.run(S, late), chk.run(S, early)
                    chk.same(subj(S, cls, q) + " [kept during %s of %s]" % (q2, lines2), RULES[2], a, b, values_only=True, n=10)
            # the program is the caller's
            for lines in ([], ["a"], ["a", "b"]):
                def f():
                    st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                    p = S.i.call(S.attr("verif_ref", "AssigningParser"), [S.dict_(sq.map_lit([(const("a"), A), (const("b"), B)]))])
                    l = lst_(lines)
                    S.meth(S.new(cls, p, st), q, l)
                    return S.freeze(l)
                chk.same(subj(S, cls, q) + " [the list %s]" % lines, RULES[3], chk.run(S, f), Res(S.freeze(lst_(lines))), values_only=True, n=6)

            # a caller who changes the result does not change the interpreter
            def spoil(late):
                st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                p = S.i.call(S.attr("verif_ref", "AssigningParser"), [S.dict_(sq.map_lit([(const("a"), A), (const("b"), B)]))])
                i = S.new(cls, p, st)
                r = S.meth(i, q, lst_(["a"]))
                if late:
                    S.meth(r, "clear")
                return S.freeze(view(S.meth(i, q, lst_(["b"])), q))
            chk.same(subj(S, cls, q) + " [its result emptied by the caller]", RULES[2], chk.run(S, lambda: spoil(True)), chk.run(S, lambda: spoil(False)), values_only=True, n=10)

    def lst_(xs):
        return S.list_([const(x) for x in xs])

    def view(r, q):
        if q != "get_probability_distributions":
            return r
        return S.list_([S.i.call(bi("set"), [r]), S.meth(S.meth(r, "get", const("a")), "get_result_map"),
                         S.meth(S.meth(r, "get", const("stdout")), "get_result_map")])
    chk.guard("PythonDiceInterpreter", RULES[2], interpreter)
    return chk.finish(RULES)
