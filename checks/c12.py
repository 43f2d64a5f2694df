"""C12: bad input fails loudly with the documented kind of error."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, distmap, sym, tm, sq, const, not_, and_, or_, eq, lt, le, ZERO, ONE, TRUE, FALSE, NONE, Obj
from . import spec as sp
from .c06 import METHODS
from .exprs import forms, small_counts

RULES = ["text that cannot be tokenised raises ValueError, wherever in the text the offending character is",
         "text that cannot be parsed raises ValueError",
         "an error of the lexer, of a production or of a line of the program reaches the caller unchanged and nothing is processed after it",
         "reading a variable that was never assigned raises KeyError, reading an assigned one does not",
         "dividing by a value that is or may be zero raises ZeroDivisionError in roll, max, min and distribution, and only then",
         "combining a distribution or an outcome with anything else raises TypeError",
         "an empty constraint set and an illegal merge raise ValueError, a legal merge does not",
         "an error of an operand reaches the caller of every expression"]

QUERIES = ["roll", "max", "min", "get_probability_distributions_dict", "get_probability_distributions", "get_average", "get_histogram",
           "get_at_least_histogram", "get_at_most_histogram", "get_estimated_cost"]
ERRORS = ["ValueError", "KeyError", "ZeroDivisionError", "TypeError", "IndexError"]
X1, X2 = sym("x", "int"), sym("y", "int")


def raises(name, cond=TRUE):
    return Res(None, [(cond, name)], FALSE)


def bad_text(k):
    """a text of several lines and the position of a character that starts no token"""
    import random
    r = random.Random("c12/%d" % k)
    lines = ["".join(r.choice(["1", "+ ", "d6", " ", "VAR", "\t"]) for _ in range(r.choice([0, 0, 1, 3, 9, 30, 70]))) for _ in range(r.choice([1, 1, 2, 3, 5]))]
    j = r.choice([0, len(lines) - 1, r.randrange(len(lines))])
    p = r.choice([0, len(lines[j]), r.randrange(len(lines[j]) + 1)])
    bad = "?@#~\u00e9\0" if k % 5 == 0 else "?@#~"
    lines[j] = lines[j][:p] + r.choice(bad) + lines[j][p:]
    ends = ["\n"] if k % 2 else ["\n", "\r\n", "\r\n", "\n\n", "\r", "\x0b", "\x0c", "\u2028"]
    end = r.choice(ends)
    text = "".join(x + (r.choice(ends) if k % 3 == 0 else end) for x in lines[:-1]) + lines[-1]
    pos = min(text.index(c) for c in bad if c in text)
    ln = text.count("\n", 0, pos)
    return {"!": 1, "text1": text, "nat:pos": pos, "nat:line": ln + 1, "nat:column": pos - text.rfind("\n", 0, pos)}


def main():
    chk = Check("C12")
    R = chk.session(stubs=("rply",))
    ctl = R.attr("rply", "CONTROL")

    def control(**kw):
        for k, v in kw.items():
            R.meth(ctl, "__setitem__", const(k), v)

    # ------------------------------------------------------------ tokenising and parsing
    def lexing():
        def f():
            lx = R.new("PythonDiceLexer")
            control(fail=TRUE, position=sym("nat:pos", "int"), line=sym("nat:line", "int"), column=sym("nat:column", "int"))
            return R.freeze(R.meth(lx, "lex", sym("text1", "str")))
        code = chk.run(R, f)
        chk.same(subj(R, "PythonDiceLexer", "lex"), RULES[0], code, raises("ValueError"), over=bad_text, n=400)
        def f():
            p = R.new("PythonDiceParser")
            control(fail=TRUE, position=sym("nat:pos", "int"), line=sym("nat:line", "int"), column=sym("nat:column", "int"))
            return R.freeze(R.meth(p, "parse", sym("text1", "str")))
        code = chk.run(R, f)
        chk.same(subj(R, "PythonDiceParser", "parse") + " [text that cannot be tokenised]", RULES[0], code, raises("ValueError"), over=bad_text)
    chk.guard("PythonDiceLexer.lex", RULES[0], lexing)

    def parsing():
        for lab, pos in (("unexpected token", lambda: R.i.call(R.attr("rply", "SourcePosition"), [sym("nat:pos", "int"), ONE, ONE])), ("unexpected end", lambda: NONE)):
            for st in (None, "state"):
                def f():
                    p = R.new("PythonDiceParser")
                    tok = R.i.call(R.attr("rply", "Token"), [sym("kind", "str"), sym("text1", "str"), pos()])
                    control(parse_error=const("handler"), token=tok)
                    return R.freeze(R.meth(p, "parse", sym("text1", "str"), *([R.obj("state", "IProbabilityDistributionState")] if st else [])))
                code = chk.run(R, f)
                chk.same(subj(R, "PythonDiceParser", "parse") + " [%s%s]" % (lab, ", state given" if st else ""), RULES[1], code, raises("ValueError"))
        for kind in ("ValueError", "KeyError"):
            def f():
                p = R.new("PythonDiceParser")
                control(parse_error=const(kind))
                return R.freeze(R.meth(p, "parse", sym("text1", "str")))
            code = chk.run(R, f)
            chk.same(subj(R, "PythonDiceParser", "parse") + " [%s from a production]" % kind, RULES[2], code, raises(kind))
        for kind in ERRORS:
            def f():
                p = R.new("PythonDiceParser", R.i.call(R.attr("verif_ref", "FailingLexer"), [const(kind)]))
                return R.freeze(R.meth(p, "parse", sym("text1", "str")))
            code = chk.run(R, f)
            chk.same(subj(R, "PythonDiceParser", "parse") + " [%s from the lexer]" % kind, RULES[2], code, raises(kind))
    chk.guard("PythonDiceParser.parse", RULES[1], parsing)

    # ------------------------------------------------------------ interpreter
    S = chk.session()
    lines = [sym("line%d" % k, "str") for k in range(4)]

    def line_texts(k):
        import random
        r = random.Random("lines%d" % k)
        return {"line%d" % j: r.choice(["", " ", "1", "VAR a = 1", "# x", "2 + 2", "stdout"]) for j in range(4)}

    def queries():
        for q in QUERIES:
            for kind in ERRORS:
                for n, bad, how in ((1, 0, "evaluate"), (1, 0, "parse"), (3, 1, "evaluate"), (3, 1, "parse"), (3, 2, "evaluate"), (4, 0, "parse")):
                    def make():
                        good = [S.obj("token%d" % j, "IDiceExpression") for j in range(n)]
                        good[bad] = NONE if how == "parse" else S.i.call(S.attr("verif_ref", "FailingExpression"), [const(kind)])
                        return S.i.call(S.attr("verif_ref", "FailingParser"), [const(kind), S.list_(good)])
                    keep = {}

                    def f():
                        keep["p"] = make()
                        i = S.new("PythonDiceInterpreter", keep["p"])
                        return S.freeze(S.meth(i, q, S.list_(lines[:n])))
                    sj = subj(S, "PythonDiceInterpreter", q) + " [%s fails to %s line %d of %d]" % (kind, how, bad + 1, n)
                    code = chk.run(S, f)
                    chk.same(sj, RULES[2], code, raises(kind), over=line_texts)
                    seen = set()
                    for st in code.run.raise_states:
                        c = st.heap[st.heap[keep["p"].args[0]].fields["seen"].args[0]].fields["c"]
                        seen.add(len(c.args) if c.op == "tup" else bad + 1)
                    chk.holds(sj + " lines read", RULES[2], seen <= {bad + 1}, "%s lines are parsed" % sorted(seen))
    chk.guard("PythonDiceInterpreter", RULES[2], queries)

    # ------------------------------------------------------------ variables
    def variables():
        nm, other = sym("name", "str"), sym("other", "str")

        def names(k):
            import random
            r = random.Random("names%d" % k)
            a = r.choice(["a", "b", "ab", "stdout", "_"])
            return {"name": a, "other": r.choice([a, "a", "b", "stdout"])}
        cst, var = sym("constants", ("map", "str", "int")), sym("vars", ("map", "str", "int"))
        for what, setter, val in (("constant", "set_constant", lambda: X1), ("var", "set_var", lambda: S.meth(S.new("ProbabilityDistributionFactory"), "create", S.dict_(sq.map_lit([(X1, ONE)]))))):
            for n_set in (0, 1, 2):
                def state():
                    st = S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
                    for j in range(n_set):
                        S.meth(st, setter, other if j == 0 else const("zz"), val())
                    return st
                missing = TRUE if n_set == 0 else not_(eq(nm, other))

                def reads(get, sj):
                    code = chk.run(S, get)
                    chk.same(sj, RULES[3], Res(ONE if code.ok is not FALSE else None, [(c, n) for c, n in code.raises], code.ok),
                             Res(ONE, [(missing, "KeyError")]), over=names)
                lab = "[%d names set]" % n_set
                reads(lambda: S.meth(state(), "get_" + what, nm), subj(S, "ProbabilityDistributionState", "get_" + what) + " " + lab)
                for m in ("roll", "max", "min", "estimated_cost") if what == "constant" else ("get_probability_distribution",):
                    reads(lambda: S.meth(S.new("GetVarExpression", state(), nm), m), subj(S, "GetVarExpression", m) + " " + lab)
                code = chk.run(S, lambda: S.freeze(S.meth(state(), "has_" + what, nm)))
                chk.same(subj(S, "ProbabilityDistributionState", "has_" + what) + " " + lab, RULES[3], code, Res(not_(missing)), over=names)
                # the other kind of value was never set
                oth = "var" if what == "constant" else "constant"
                code = chk.run(S, lambda: S.meth(state(), "get_" + oth, nm))
                chk.same(subj(S, "ProbabilityDistributionState", "get_" + oth) + " [only a %s set]" % what, RULES[3], code, raises("KeyError"), over=names)
    chk.guard("ProbabilityDistributionState", RULES[3], variables)

    # ------------------------------------------------------------ division
    def division():
        A, B = S.obj("A", "IDiceExpression"), S.obj("B", "IDiceExpression")
        e = lambda: S.new("IntegerDivisionExpression", A, B)
        code = chk.run(S, lambda: S.freeze(S.meth(e(), "roll")))
        zero = FALSE
        for x in rolls_of(code, B):
            zero = or_(zero, eq(x, ZERO))
        chk.same(subj(S, "IntegerDivisionExpression", "roll") + " [divisor zero]", RULES[4], Res(ONE if code.ok is not FALSE else None, code.raises, code.ok),
                 Res(ONE, [(zero, "ZeroDivisionError")]))
        ma, mb = distmap(A), distmap(B)
        has0 = chk.ref(S, "contains_zero_of", S.dict_(sp.value_table(mb))).value
        some = not_(lt(sq.map_len(ma), ONE))
        for m in ("max", "min", "get_probability_distribution"):
            code = chk.run(S, lambda: S.freeze(S.meth(e(), m)) if m != "get_probability_distribution" else dist_term(S, e()))
            chk.same(subj(S, "IntegerDivisionExpression", m) + " [divisor may be zero]", RULES[4],
                     Res(ONE if code.ok is not FALSE else None, [(c, n) for c, n in code.raises if n == "ZeroDivisionError"], code.ok),
                     Res(ONE, [(has0, "ZeroDivisionError")]), where=and_(some, not_(lt(sq.map_len(mb), ONE))))
        da = lambda: S.i.models.dist_of(S.i, A)
        db = lambda: S.i.models.dist_of(S.i, B)
        code = chk.run(S, lambda: S.freeze(S.meth(S.meth(da(), "__floordiv__", db()), "get_constraint_result_map")))
        chk.same(subj(S, "ProbabilityDistribution", "__floordiv__") + " [divisor may be zero]", RULES[4],
                 Res(ONE if code.ok is not FALSE else None, [(c, n) for c, n in code.raises if n == "ZeroDivisionError"], code.ok),
                 Res(ONE, [(has0, "ZeroDivisionError")]), where=and_(some, not_(lt(sq.map_len(mb), ONE))))
        T = chk.session()
        T.i.abstract_cs = False
        o = lambda x: T.new("ProbabilityOutcome", x, T.meth(T.new("ConstraintSetFactory"), "create_constraint_set"))
        code = chk.run(T, lambda: T.freeze(T.i.getattr(T.meth(o(X1), "__floordiv__", o(X2)), "value")))
        chk.same(subj(T, "ProbabilityOutcome", "__floordiv__") + " [divisor zero]", RULES[4], Res(ONE if code.ok is not FALSE else None, code.raises, code.ok),
                 Res(ONE, [(eq(X2, ZERO), "ZeroDivisionError")]))
    chk.guard("division", RULES[4], division)

    # ------------------------------------------------------------ foreign operands
    def foreign():
        A = S.obj("A", "IDiceExpression")
        dist = lambda: S.i.models.dist_of(S.i, A)
        T = chk.session()
        T.i.abstract_cs = False
        out = lambda: T.new("ProbabilityOutcome", X1, T.meth(T.new("ConstraintSetFactory"), "create_constraint_set"))
        kinds = lambda Q: [("an int", lambda: X2), ("zero", lambda: ZERO), ("a text", lambda: sym("other", "str")), ("None", lambda: NONE),
                           ("a float", lambda: const(0.5)), ("a bool", lambda: TRUE), ("a list", lambda: Q.list_([X2])),
                           ("a dict", lambda: Q.dict_(sq.map_lit([(X2, ONE)]))), ("an empty dict", lambda: Q.dict_(sq.EMPTY_MAP)),
                           ("a set", lambda: Q.set_(sq.sset([X2])))]
        for op, meth in METHODS.items():
            for lab, mk in kinds(S) + [("an outcome", lambda: S.new("ProbabilityOutcome", X1, S.meth(S.new("ConstraintSetFactory"), "create_constraint_set"))),
                                       ("an expression", lambda: S.new("ConstantBinaryExpression", const("True"), S.new("ProbabilityDistributionFactory")))]:
                code = chk.run(S, lambda: S.meth(dist(), meth, mk()))
                chk.same(subj(S, "ProbabilityDistribution", meth) + " [with %s]" % lab, RULES[5], code, raises("TypeError"))
            for lab, mk in kinds(T) + [("a constraint set", lambda: T.meth(T.new("ConstraintSetFactory"), "create_constraint_set")),
                                       ("a distribution", lambda: T.meth(T.new("ProbabilityDistributionFactory"), "create"))]:
                code = chk.run(T, lambda: T.meth(out(), meth, mk()))
                chk.same(subj(T, "ProbabilityOutcome", meth) + " [with %s]" % lab, RULES[5], code, raises("TypeError"))
    chk.guard("foreign operands", RULES[5], foreign)

    # ------------------------------------------------------------ constraints
    def constraints():
        T = chk.session()
        T.i.abstract_cs = False
        empty = lambda: T.i.alloc(Obj("set", None, {"c": sq.EMPTY_SET}))
        code = chk.run(T, lambda: T.new("ConstraintSet", empty(), T.new("ConstraintMerger")))
        chk.same(subj(T, "ConstraintSet", "__init__") + " [no constraint]", RULES[6], code, raises("ValueError"))
        V, W = sym("V", ("set", "int")), sym("W", ("set", "int"))
        n1, n2 = sym("name", "str"), sym("other", "str")
        fac = lambda: T.new("ConstraintFactory")
        vc = lambda n, s: T.meth(fac(), "var_value_constraint", n, T.set_(s))

        def names(k):
            import random
            r = random.Random("n%d" % k)
            a = r.choice(["a", "b", "a_1", "a_11"])
            return {"name": a, "other": r.choice([a, "a", "b", "a_1"])}
        code = chk.run(T, lambda: T.meth(vc(n1, V), "merge", vc(n2, W)))
        chk.same(subj(T, "VarValueConstraint", "merge") + " [other variable]", RULES[6], Res(ONE if code.ok is not FALSE else None, code.raises, code.ok),
                 Res(ONE, [(not_(eq(n1, n2)), "ValueError")]), over=names)
        for lab, c in (("null", "NullConstraint"), ("impossible", "ImpossibleConstraint")):
            code = chk.run(T, lambda: T.meth(vc(n1, V), "merge", T.new(c)))
            chk.same(subj(T, "VarValueConstraint", "merge") + " [%s constraint]" % lab, RULES[6], code, raises("ValueError"))
        # a constraint of another kind, whatever it says about itself
        code = chk.run(T, lambda: T.meth(vc(n1, V), "merge", T.obj("C", "IConstraint")))
        chk.same(subj(T, "VarValueConstraint", "merge") + " [constraint of another kind]", RULES[6], code, raises("ValueError"))
        code = chk.run(T, lambda: T.freeze(T.meth(vc(n1, V), "can_merge", vc(n2, W))))
        chk.same(subj(T, "VarValueConstraint", "can_merge"), RULES[6], code, Res(eq(n1, n2)), over=names)
    chk.guard("constraints", RULES[6], constraints)

    # ------------------------------------------------------------ operands that fail
    def operands():
        fac = S.new("ProbabilityDistributionFactory")
        bad = lambda k: S.i.call(S.attr("verif_ref", "FailingExpression"), [const(k)])
        st = lambda: S.meth(S.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
        nm = sym("name", "str")
        A = S.obj("A", "IDiceExpression")
        mks = []
        for op, (cls, lead, f) in sp.BINARY.items():
            ld = [const(x) for x in lead]
            mks += [(cls, op + " left", lambda k, cls=cls, ld=ld: S.new(cls, *ld, bad(k), A)), (cls, op + " right", lambda k, cls=cls, ld=ld: S.new(cls, *ld, A, bad(k))),
                    (cls, op + " both", lambda k, cls=cls, ld=ld: S.new(cls, *ld, bad(k), bad(k)))]
        for op, (cls, f) in sp.UNARY.items():
            mks.append((cls, op, lambda k, cls=cls: S.new(cls, bad(k))))
        mks.append(("VarAssignmentExpression", "VAR", lambda k: S.new("VarAssignmentExpression", st(), nm, bad(k))))
        for cls, lab, mk in mks:
            for m in ("roll", "max", "min", "estimated_cost", "get_probability_distribution"):
                for kind in ERRORS:
                    def one():
                        code = chk.run(S, lambda: S.meth(mk(kind), m))
                        where = TRUE
                        sj = subj(S, cls, m) + " [%s, %s]" % (lab, kind)
                        if cls == "IntegerDivisionExpression" and lab.endswith("left") and m in ("roll", "max", "min", "get_probability_distribution"):
                            # the divisor may be looked at first
                            ok = all(n in (kind, "ZeroDivisionError") for c, n in code.raises) and code.ok is FALSE
                            chk.holds(sj, RULES[7], ok, "%s instead of %s" % ([n for c, n in code.raises] or "a value", kind))
                            return
                        chk.same(sj, RULES[7], code, raises(kind), where=where)
                    chk.guard(cls + "." + m, RULES[7], one)
    chk.guard("operands", RULES[7], operands)
    return chk.finish(RULES)


def rolls_of(code, e):
    out = []
    seen = set()
    for c, n in code.raises:
        for x in tm.walk(c, seen):
            if x.op == "app" and x.args[0] == "roll" and x.args[1] is e and x not in out:
                out.append(x)
    if code.value is not None:
        for x in tm.walk(code.value, seen):
            if x.op == "app" and x.args[0] == "roll" and x.args[1] is e and x not in out:
                out.append(x)
    return out
