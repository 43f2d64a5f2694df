"""C15: only rolling is random, only assigning changes variables, nothing is remembered."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, sym, tm, sq, const, et, NONE, TRUE, FALSE, ONE, TIER, bi, Obj, distmap, txt, nat
from . import spec as sp
from .exprs import forms, small_counts
from .c06 import METHODS, UNARY
from .c09 import V, W, X, Y

RULES = ["only roll draws random numbers, and the source of randomness is never reset",
         "roll builds no distribution",
         "only an assignment changes variables, and only the one it names",
         "asking an object anything leaves its later answers as they were",
         "what other objects were asked before makes no difference",
         "every roll is drawn afresh"]

ASK = ["get_probability_distribution", "max", "min", "estimated_cost", "__str__", "get_contained_variables"]
VIEWS = ["get_result_map", "get_dict_form", "at_least", "at_most", "average", "max", "min", "contains_zero", "get_constraint_result_map"]


def main():
    chk = Check("C15")
    S = chk.session(log_new=True)

    def ref(name, *a):
        return S.i.call(S.attr("verif_ref", name), list(a))

    def fac():
        return S.new("ProbabilityDistributionFactory")

    def ask(e, m):
        r = S.meth(e, m)
        return S.meth(r, "get_result_map") if m == "get_probability_distribution" else r

    def live(es, *kinds):
        return [e for e in es if e.kind in kinds and e.guard is not FALSE]

    # ------------------------------------------------------------ randomness
    FORMS = forms(S, chk.run(S, fac, keep=True).value, rich=True)

    def no_draw(subject, run, rolls=False):
        bad = [e for e in live(run.events, "rng", "roll")]
        reset = [e for e in bad if e.kind == "rng" and e.name in ("seed", "setstate")]
        if rolls:
            bad = reset
        return chk.holds(subject, RULES[0], not bad, "draws random numbers (%s) at %s" % (bad and bad[0].name, bad and bad[0].where), "effects")

    def randomness():
        for f in FORMS:
            for m in ASK:
                r = chk.run(S, lambda: S.freeze(ask(f.make(), m)))
                no_draw(subj(S, f.cls, m) + " [%s]" % f.label, r)
            r = chk.run(S, lambda: S.freeze(S.meth(f.make(), "roll")))
            sj = subj(S, f.cls, "roll") + " [%s]" % f.label
            no_draw(sj, r, True)
            bad = [e for e in live(r.events, "query", "new") if e.name in ("get_probability_distribution", "ProbabilityDistribution", "set_var")]
            chk.holds(sj, RULES[1], not bad, "%s at %s" % (bad and bad[0].name, bad and bad[0].where), "effects")
        A, B = S.obj("A", "IDiceExpression"), S.obj("B", "IDiceExpression")
        for m in METHODS.values():
            r = chk.run(S, lambda: S.freeze(S.meth(S.meth(S.i.models.dist_of(S.i, A), m, S.i.models.dist_of(S.i, B)), "get_result_map")))
            no_draw(subj(S, "ProbabilityDistribution", m), r)
        for m in list(UNARY.values()):
            r = chk.run(S, lambda: S.freeze(S.meth(S.meth(S.i.models.dist_of(S.i, A), m), "get_result_map")))
            no_draw(subj(S, "ProbabilityDistribution", m), r)
        for m in VIEWS + ["__str__"]:
            r = chk.run(S, lambda: S.freeze(S.meth(S.i.models.dist_of(S.i, A), m)))
            no_draw(subj(S, "ProbabilityDistribution", m), r)
        for q in ("max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average", "get_estimated_cost"):
            r = chk.run(S, lambda: S.freeze(S.meth(S.new("PythonDiceInterpreter", ref("AssigningParser", S.dict_(sq.map_lit([(const("a"), A), (const("b"), B)])))), q,
                                                   S.list_([const("a"), const("b")]))))
            no_draw(subj(S, "PythonDiceInterpreter", q), r)
        r = chk.run(S, lambda: S.freeze(S.meth(S.new("PythonDiceInterpreter", ref("AssigningParser", S.dict_(sq.map_lit([(const("a"), A), (const("b"), B)])))), "roll",
                                               S.list_([const("a"), const("b")]))))
        no_draw(subj(S, "PythonDiceInterpreter", "roll"), r, True)
        bad = [e for e in live(r.events, "query", "new") if e.name in ("get_probability_distribution", "ProbabilityDistribution", "set_var")]
        chk.holds(subj(S, "PythonDiceInterpreter", "roll"), RULES[1], not bad, "%s at %s" % (bad and bad[0].name, bad and bad[0].where), "effects")

    # loading the modules resets nothing
    loaded = [e for e in S.base.events if e.kind == "rng"]
    chk.holds("module level of python_dice", RULES[0], not loaded, "draws or resets at %s" % (loaded and loaded[0].where), "effects")

    # ------------------------------------------------------------ variables
    A, B, C, D = (S.obj(n, "IDiceExpression") for n in "ABCD")

    def stocked(a=A, b=B, x=X, y=Y):
        st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
        S.meth(st, "set_var", const("a"), S.i.models.dist_of(S.i, a))
        S.meth(st, "set_var", const("b"), S.i.models.dist_of(S.i, b))
        S.meth(st, "set_constant", const("a"), x)
        S.meth(st, "set_constant", const("b"), y)
        return st

    def known(st, names=("a", "b")):
        out = [S.i.call(bi("set"), [S.meth(st, "get_constant_dict")]), S.i.call(bi("set"), [S.meth(st, "get_var_dict")])]
        for n in names:
            out += [S.meth(st, "get_constant", const(n)), S.meth(S.meth(st, "get_var", const(n)), "get_constraint_result_map")]
        return S.list_(out)

    def over_vars(st):
        """one expression of every kind over the variables of a state"""
        g = lambda n: S.new("GetVarExpression", st, const(n))
        out = [("a", "GetVarExpression", lambda: g("a"))]
        for op, (cls, lead, _) in sp.BINARY.items():
            if op != "//":
                out.append((op, cls, lambda cls=cls, lead=lead: S.new(cls, *[const(x) for x in lead], g("a"), g("b"))))
        for op, (cls, _) in sp.UNARY.items():
            out.append((op, cls, lambda cls=cls: S.new(cls, g("a"))))
        return out

    def variables():
        for k in range(len(over_vars(NONE))):
            for m in ASK + ["roll"]:
                lab, cls, _ = over_vars(NONE)[k]

                def f(late):
                    st = stocked()
                    e = over_vars(st)[k][2]()
                    if late:
                        ask(e, m)
                        ask(e, m)
                    return S.freeze(known(st))
                chk.same(subj(S, cls, m) + " [%s]" % lab, RULES[2], chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False)), values_only=True, n=20)
        for m in ASK + ["roll"]:
            def f(late):
                st = stocked()
                e = S.new("VarAssignmentExpression", st, const("c"), S.new("GetVarExpression", st, const("a")))
                if late:
                    ask(e, m)
                return S.freeze(S.list_([S.meth(st, "get_constant", const("a")), S.meth(S.meth(st, "get_var", const("a")), "get_constraint_result_map"),
                                         S.meth(st, "get_constant", const("b")), S.meth(S.meth(st, "get_var", const("b")), "get_constraint_result_map")]))
            chk.same(subj(S, "VarAssignmentExpression", m) + " [other variables]", RULES[2], chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False)),
                     values_only=True, n=20)
        for m, args in (("has_var", ("a",)), ("has_constant", ("a",)), ("has_var", ("z",)), ("has_constant", ("z",)), ("get_var", ("a",)), ("get_constant", ("a",)),
                        ("get_var_dict", ()), ("get_constant_dict", ())):
            def f(late):
                st = stocked()
                if late:
                    S.meth(st, m, *[const(x) for x in args])
                return S.freeze(known(st))
            chk.same(subj(S, "ProbabilityDistributionState", m) + " [%s]" % "".join(args), RULES[2], chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False)),
                     values_only=True, n=20)

    # ------------------------------------------------------------ asking twice
    def twice(f):
        over = small_counts(f.label) if f.kind in ("dice", "dropkeep") else None
        if f.kind == "assign":
            return  # assigning is meant to change things
        plans = [(ASK + ["roll"], ASK), (["max", "__str__", "roll"], ["roll"])]
        if f.kind in ("const", "name", "unary", "binary"):
            plans += [([m1], [m2]) for m1 in ASK + ["roll"] for m2 in ASK + ["roll"]]
        elif TIER != "quick":
            plans += [([m1], [m2]) for m1 in ASK + ["roll"] for m2 in ("roll", "get_probability_distribution", "max")]
        for first, second in plans:
            def answers(same):
                e = f.make()
                e2 = e if same else f.make()
                out = [ONE]
                for m1 in first:
                    r = ask(e, m1)
                    if m1 == "roll" and second == ["roll"]:
                        out[0] = S.freeze(r)
                for m2 in second:
                    out.append(S.freeze(ask(e2, m2)))
                return S.freeze(S.list_(out))
            a = chk.run(S, lambda: answers(True))
            S.i.__dict__.pop("thawed", None)
            b = chk.run(S, lambda: answers(False))
            chk.same(subj(S, f.cls, second[0] if len(second) == 1 else "*") + " [%s, after %s]" % (f.label, ", ".join(first)),
                     RULES[5 if second == ["roll"] else 3], a, b, over=over, where=f.where, law="roll" in second, n=12)
    chk.parallel(FORMS, twice, "asking twice", RULES[3])

    def dist_twice():
        for m1 in VIEWS + ["__str__", "__add__", "not_operator"]:
            for m2 in VIEWS + ["__add__", "not_operator"]:
                def f(first):
                    d = S.i.models.dist_of(S.i, A)
                    args = lambda m: [S.i.models.dist_of(S.i, B)] if m == "__add__" else []
                    if first:
                        S.meth(d, m1, *args(m1))
                    r = S.meth(d, m2, *args(m2))
                    return S.freeze(S.meth(r, "get_result_map") if m2 in ("__add__", "not_operator") else r)
                chk.same(subj(S, "ProbabilityDistribution", m2) + " [after %s]" % m1, RULES[3], chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False)), n=12)

    # a variable that is assigned again is seen by the expressions that mention it
    def follows():
        for k in range(len(over_vars(NONE))):
            lab, cls, _ = over_vars(NONE)[k]
            for m in ASK + ["roll"]:
                def f(early):
                    st = stocked()
                    e = over_vars(st)[k][2]()
                    if early:
                        ask(e, m)
                        ask(e, "roll")
                    S.meth(st, "set_var", const("a"), S.i.models.dist_of(S.i, C))
                    S.meth(st, "set_constant", const("a"), sym("z", "int"))
                    return S.freeze(ask(e, m))
                chk.same(subj(S, cls, m) + " [%s, variable assigned in between]" % lab, RULES[3], chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False)), n=15)

    # ------------------------------------------------------------ other objects
    DICE = ["2d3", "3d3", "2d4", "d3", "dF", "2dF", "d[1,2]", "d[1,3]", "2d[1,2]", "d[1-2]", "d[1,2*2]", "0d3", "02d3", "d[-1-1]", "d[1,-1]", "d%"]
    KEEP = ["3d3k1", "3d3d1", "3d3k2", "3d2k1", "2d3k1", "3d[1,2]k1", "3d[1,2*2]k1", "3dFk1", "3d3k3", "3d3k0", "3d3d0", "3d3d3", "03d3k1", "d3k1"]
    CONST = ["1", "2", "-1", "01", "10", "0"]
    OTHERS = [("DiceExpression", DICE), ("DropKeepExpression", KEEP), ("ConstantIntegerExpression", CONST), ("ConstantBinaryExpression", ["True", "False"])]

    def other_texts(item):
        cls, t2 = item
        for m in ASK + ["roll"]:
            def alone():
                return S.freeze(ask(S.new(cls, const(t2), fac()), m))
            spec_ = chk.run(S, alone)

            def after():
                for cls1, ts in OTHERS:
                    if cls1 != cls and cls1 != "DiceExpression":
                        continue
                    for t1 in ts:
                        if t1 == t2:
                            continue
                        e1 = S.new(cls1, const(t1), fac())
                        for m1 in (m,) if cls1 != cls else {m, "max"}:
                            if m1 != "roll":
                                ask(e1, m1)
                            else:
                                S.meth(e1, "roll")
                return S.freeze(ask(S.new(cls, const(t2), fac()), m))
            code = chk.run(S, after)
            chk.same(subj(S, cls, m) + " [%s, after others]" % t2, RULES[4], code, spec_, law=m == "roll", n=8)
    chk.parallel([(cls, t) for cls, texts in OTHERS for t in texts], other_texts, "other objects", RULES[4])

    def others():
        # the same text over another state
        for k in range(len(over_vars(NONE))):
            lab, cls, _ = over_vars(NONE)[k]
            for m in ASK + ["roll"]:
                def f(both):
                    one, two = stocked(), stocked(C, D, sym("z", "int"), sym("w", "int"))
                    if both:
                        ask(over_vars(one)[k][2](), m)
                    return S.freeze(ask(over_vars(two)[k][2](), m))
                chk.same(subj(S, cls, m) + " [%s, the same text over another state before]" % lab, RULES[4], chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False)), n=15)
        # other operands, other operators
        ops = list(sp.BINARY.items())
        for j, (op, (cls, lead, _)) in enumerate(ops):
            op0, (cls0, lead0, _) = ops[j - 1]
            for m in ASK + ["roll"]:
                def f(both):
                    if both:
                        ask(S.new(cls, *[const(x) for x in lead], C, D), m)
                        ask(S.new(cls0, *[const(x) for x in lead0], A, B), m)
                        ask(S.new(cls, *[const(x) for x in lead], A, D), m)
                        ask(S.new(cls, *[const(x) for x in lead], B, A), m)
                        S.i.st.heap  # noqa: B018
                    return S.freeze(ask(S.new(cls, *[const(x) for x in lead], A, B), m))
                if m == "roll":
                    # draws are numbered per operand: ask others first in both, through objects of their own
                    def g(shared):
                        mk = lambda x, y: S.new(cls, *[const(t) for t in lead], x, y)
                        S.meth(mk(C, D), "roll")
                        return S.freeze(S.meth(mk(A, B), "roll"))
                    a = chk.run(S, lambda: g(True))
                    b = chk.run(S, lambda: S.freeze(S.meth(S.new(cls, *[const(t) for t in lead], A, B), "roll")))
                    a.raises = [(c, n) for c, n in a.raises if op != "//"]  # the other division may fail
                    chk.same(subj(S, cls, m) + " [%s, after other operands]" % op, RULES[4], a, b, law=True, n=15, values_only=op == "//")
                    continue
                a, b = chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False))
                a.raises, b.raises = [(c, n) for c, n in a.raises if op != "//"], [(c, n) for c, n in b.raises if op != "//"]
                chk.same(subj(S, cls, m) + " [%s, after other operands]" % op, RULES[4], a, b, values_only=True, n=15)
        for j, (op, m) in enumerate(METHODS.items()):
            def f(both):
                d = lambda e: S.i.models.dist_of(S.i, e)
                if both:
                    S.meth(d(C), m, d(D))
                    S.meth(d(B), m, d(A))
                    S.meth(d(A), list(METHODS.values())[j - 1], d(B))
                return S.freeze(S.meth(S.meth(d(A), m, d(B)), "get_result_map"))
            a, b = chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False))
            a.raises, b.raises = [], []
            chk.same(subj(S, "ProbabilityDistribution", m) + " [after other operands]", RULES[4], a, b, values_only=True, n=15)
        for m in VIEWS:
            def f(both):
                d = lambda e: S.i.models.dist_of(S.i, e)
                if both:
                    S.meth(d(C), m)
                return S.freeze(S.meth(d(A), m))
            chk.same(subj(S, "ProbabilityDistribution", m) + " [after another distribution]", RULES[4], chk.run(S, lambda: f(True)), chk.run(S, lambda: f(False)), n=15)
    chk.parallel([randomness, variables, dist_twice, follows, others], lambda f: f(), "expressions", RULES[0])

    # ------------------------------------------------------------ constraints
    T = chk.session()
    T.i.abstract_cs = False
    U, Z = sym("U", ("set", "int")), sym("Z", ("set", "int"))
    where = TRUE
    for s in (V, W, U, Z):
        where = tm.and_(where, tm.not_(tm.lt(sq.set_len(s), ONE)))

    def con(f, c):
        if c == "null":
            return T.i.getattr(f, "null_constraint")
        if c == "imp":
            return T.i.getattr(f, "impossible_constraint")
        return T.meth(f, "var_value_constraint", const(c[0]), T.set_({"V": V, "W": W, "U": U, "Z": Z}[c[1]]))

    def probe():
        return T.dict_(sq.map_lit([(const("a"), X), (const("b"), Y)]))

    def group(f, cs):
        return T.new("ConstraintSet", T.i.alloc(Obj("set", None, {"c": sq.sset([con(f, c) for c in cs])})), T.new("ConstraintMerger"))

    def see(c):
        return T.list_([T.meth(c, "is_possible"), T.meth(c, "complies", probe())])

    ASKC = [("is_possible", lambda c, d: T.meth(c, "is_possible")), ("complies", lambda c, d: T.meth(c, "complies", probe())), ("__hash__", lambda c, d: T.meth(c, "__hash__")),
            ("__eq__", lambda c, d: T.meth(c, "__eq__", d)), ("can_merge", lambda c, d: T.meth(c, "can_merge", d)), ("merge", lambda c, d: see(T.meth(c, "merge", d)))]
    ASKS = [("is_possible", lambda c, d: T.meth(c, "is_possible")), ("complies", lambda c, d: T.meth(c, "complies", probe())), ("__hash__", lambda c, d: T.meth(c, "__hash__")),
            ("__eq__", lambda c, d: T.meth(c, "__eq__", d)), ("combine_sets", lambda c, d: see(T.meth(c, "combine_sets", d))), ("constraints", lambda c, d: T.i.getattr(c, "constraints"))]

    def constraints():
        for c, d in (("aV", "aW"), ("aV", "bW"), ("null", "aV"), ("imp", "aV")):
            cls = {"n": "NullConstraint", "i": "ImpossibleConstraint"}.get(c[0], "VarValueConstraint")
            for n1, m1 in ASKC:
                for n2, m2 in ASKC:
                    def f(first):
                        k = fac_()
                        x, y = con(k, c), con(k, d)
                        if first == 1:
                            m1(x, y)
                        if first == 2:
                            m1(con(k, "aU"), con(k, "aZ"))
                            m1(con(k, "bV"), con(k, "bW"))
                            m1(con(k, "aU"), y if d[0] == "a" else con(k, "aZ"))
                        return T.freeze(m2(x, y))
                    if "merge" in (n1, n2) and (c, d) == ("aV", "bW"):
                        continue
                    if "__hash__" == n2:
                        continue
                    spec_ = chk.run(T, lambda: f(0))
                    chk.same(subj(T, cls, n2) + " [%s, %s after %s]" % (c, d, n1), RULES[3], chk.run(T, lambda: f(1)), spec_, where=where, n=12)
                    chk.same(subj(T, cls, n2) + " [%s, %s after %s of others]" % (c, d, n1), RULES[4], chk.run(T, lambda: f(2)), spec_, where=where, n=12)
        for one, two in ((("aV",), ("aW",)), (("aV",), ("bW",)), (("aV", "bU"), ("null",)), (("aV", "bU"), ("aW",))):
            for n1, m1 in ASKS:
                for n2, m2 in ASKS:
                    def f(first):
                        k = fac_()
                        x, y = group(k, one), group(k, two)
                        if first == 1:
                            m1(x, y)
                        if first == 2:
                            m1(group(k, ("aU",)), group(k, ("aZ",)))
                            m1(x, group(k, ("aZ",)))
                            m1(y, x)
                        return T.freeze(m2(x, y))
                    if n2 == "__hash__":
                        continue
                    spec_ = chk.run(T, lambda: f(0))
                    chk.same(subj(T, "ConstraintSet", n2) + " [%s, %s after %s]" % ("+".join(one), "+".join(two), n1), RULES[3], chk.run(T, lambda: f(1)), spec_, where=where, n=12)
                    chk.same(subj(T, "ConstraintSet", n2) + " [%s, %s after %s of others]" % ("+".join(one), "+".join(two), n1), RULES[4], chk.run(T, lambda: f(2)), spec_, where=where, n=12)
            # a set that has answered and is then extended answers for what it is now
            for n1, m1 in ASKS:
                for n2, m2 in ASKS:
                    if n2 == "__hash__":
                        continue

                    def f(first):
                        k = fac_()
                        x, y = group(k, one), group(k, two)
                        if first:
                            m1(x, y)
                        T.meth(x, "add_constraint", con(k, "bZ"))
                        return T.freeze(m2(x, y))
                    chk.same(subj(T, "ConstraintSet", n2) + " [%s, %s extended after %s]" % ("+".join(one), "+".join(two), n1), RULES[3], chk.run(T, lambda: f(1)),
                             chk.run(T, lambda: f(0)), where=where, n=12)

    def fac_():
        return T.new("ConstraintFactory")
    chk.guard("constraints", RULES[3], constraints)

    # ------------------------------------------------------------ parser
    R = chk.session(stubs=("rply",))

    def parser():
        s1, s2 = R.obj("s1", "IProbabilityDistributionState"), R.obj("s2", "IProbabilityDistributionState")
        texts = [("same text", sym("t", "str"), sym("t", "str")), ("other text", sym("t", "str"), sym("u", "str"))]
        for lab, t1, t2 in texts:
            for l1, st1 in (("s1", s1), ("s2", s2), ("none", None)):
                def f(first):
                    R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("echo"), TRUE)
                    p = R.new("PythonDiceParser")
                    if first:
                        R.meth(p, "parse", t1, *([st1] if st1 is not None else []))
                    return R.freeze(R.meth(p, "parse", t2, s2))
                chk.same(subj(R, "PythonDiceParser", "parse") + " [%s, state %s before]" % (lab, l1), RULES[3], chk.run(R, lambda: f(True)), chk.run(R, lambda: f(False)), n=12)

            def g(first):
                R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("echo"), TRUE)
                p = R.new("PythonDiceParser")
                if first:
                    r = R.meth(p, "parse", t1)
                    R.meth(R.i.getitem(r, ONE), "set_constant", const("a"), X)
                r = R.meth(p, "parse", t2)
                return R.freeze(R.meth(R.i.getitem(r, ONE), "get_constant_dict"))
            chk.same(subj(R, "PythonDiceParser", "parse") + " [%s, variables of the state of an earlier call]" % lab, RULES[3], chk.run(R, lambda: g(True)), chk.run(R, lambda: g(False)), n=6)

            def h(first):
                R.meth(R.attr("rply", "CONTROL"), "__setitem__", const("echo"), TRUE)
                p = R.new("PythonDiceLexer")
                if first:
                    R.meth(p, "lex", t1)
                return R.freeze(R.meth(p, "lex", t2))
            chk.same(subj(R, "PythonDiceLexer", "lex") + " [%s before]" % lab, RULES[3], chk.run(R, lambda: h(True)), chk.run(R, lambda: h(False)), n=12)
    chk.guard("PythonDiceParser.parse", RULES[3], parser)
    return chk.finish(RULES)
