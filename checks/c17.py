"""C17: equality and hashing of outcomes and constraints are coherent."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, tm, sq, sym, const, eq, not_, and_, TRUE, FALSE, Obj

RULES = ["two constraints are equal exactly when they are of the same kind with the same variable and values",
         "two constraint sets are equal exactly when they hold the same constraints",
         "two outcomes are equal exactly when their values and their constraints are",
         "inequality is the negation of equality",
         "equal objects have equal hashes, whatever order they were built or are enumerated in and whatever was asked before",
         "comparing an outcome with something else raises TypeError",
         "a variable constraint or a constraint set never equals an object of another kind"]
NOT_MERGED = "outcomes of different values or histories are different entries of a table"
V, W, U, Y = (sym(n, ("set", "int")) for n in ("V", "W", "U", "Y"))
REV = {"set_order": "rev", "alloc_order": "rev"}
N1, N2 = sym("name1", "str"), sym("name2", "str")
X1, X2 = sym("x", "int"), sym("y", "int")


def over(k):
    import random
    r = random.Random("c17/%d" % k)
    d = {n: frozenset(r.sample(range(-2, 3), r.choice([1, 1, 2, 3]))) for n in ("V", "W", "U", "Y")}
    for a, b in (("W", "V"), ("Y", "U")):
        if r.random() < 0.5:
            d[a] = d[b]
    if r.random() < 0.2:
        d["V"], d["W"] = frozenset([-1]), frozenset([-2])
    d["name1"], d["name2"] = r.choice("ab"), r.choice("ab")
    d["x"], d["y"] = r.choice([(-1, -2), (-2, -1), (0, 1), (1, 1), (2, 2), (0, 0), (-1, -1), (r.randrange(-3, 4), r.randrange(-3, 4))])
    return d


def main():
    chk = Check("C17")
    study(chk)
    return chk.finish(RULES)


def study(chk, everything=True):
    """equality and hashing; of outcomes alone where only these matter"""
    S = chk.session()
    S.i.abstract_cs = False
    cmp_ = {"==": "Eq", "!=": "NotEq"}

    def vc(n, s):
        return S.meth(S.new("ConstraintFactory"), "var_value_constraint", n, S.set_(s))

    def cset(*cs):
        r = S.new("ConstraintSet", S.i.alloc(Obj("set", None, {"c": sq.sset([cs[0]()])})), S.new("ConstraintMerger"))
        for c in cs[1:]:
            S.meth(r, "add_constraint", c())
        return r

    def compare(op, a, b):
        return S.freeze(S.i.models.compare(S.i, cmp_[op], a, b))

    def hash_(o):
        return S.freeze(S.i.call(bi("hash"), [o]))

    def order(o, thunk):
        old = {k: S.i.config.get(k) for k in o}
        S.i.config.update(o)
        try:
            return thunk()
        finally:
            S.i.config.update(old)

    null, imp = lambda: S.new("NullConstraint"), lambda: S.new("ImpossibleConstraint")
    fnull = lambda: S.i.getattr(S.new("ConstraintFactory"), "null_constraint")
    fimp = lambda: S.i.getattr(S.new("ConstraintFactory"), "impossible_constraint")
    cons = [("null", "NullConstraint", null, None), ("impossible", "ImpossibleConstraint", imp, None),
            ("factory null", "NullConstraint", fnull, None), ("factory impossible", "ImpossibleConstraint", fimp, None),
            ("name1 in V", "VarValueConstraint", lambda: vc(N1, V), (N1, V)), ("name2 in W", "VarValueConstraint", lambda: vc(N2, W), (N2, W)),
            ("a in V", "VarValueConstraint", lambda: vc(const("a"), V), (const("a"), V)),
            ("a in {1, 2}", "VarValueConstraint", lambda: vc(const("a"), sq.sset([const(1), const(2)])), (const("a"), sq.sset([const(1), const(2)]))),
            ("a in {2, 1}", "VarValueConstraint", lambda: vc(const("a"), sq.sset([const(2), const(1)])), (const("a"), sq.sset([const(1), const(2)])))]

    def equal(p, q):
        if p[1] != q[1]:
            return FALSE
        if p[3] is None:
            return TRUE
        return and_(eq(p[3][0], q[3][0]), sq.eq_(p[3][1], q[3][1]) if hasattr(sq, "eq_") else eq(p[3][1], q[3][1]))

    def pair(sj, rule, ma, mb, want):
        for lab, one, both in (("", {}, {}), (" [the second enumerated the other way]", REV, {}), (" [both enumerated the other way]", {}, REV)):
            for op, res in (("==", want), ("!=", not_(want))):
                if not everything and op == "!=":
                    continue
                code = chk.run(S, lambda: order(both, lambda: compare(op, ma(), order(one, mb))))
                if not everything:
                    if code.value is not None:
                        h = chk.run(S, lambda: order(both, lambda: S.freeze(S.i.models.compare(S.i, "Eq", S.i.call(bi("hash"), [ma()]), S.i.call(bi("hash"), [order(one, mb)])))))
                        merged_ = and_(code.value, h.value) if h.value is not None else FALSE
                        chk.same(sj % op + lab, NOT_MERGED, Res(and_(merged_, not_(res)), notes=code.notes + h.notes), Res(FALSE), over=over)
                    continue
                chk.same(sj % op + lab, rule if op == "==" else RULES[3], code, Res(res), over=over)

    def same_hash(sj, ma, mb):
        if not everything:
            return

        def one():
            a = chk.run(S, lambda: hash_(ma()))
            b = chk.run(S, lambda: order(REV, lambda: hash_(mb())))
            chk.same(sj, RULES[4], b, a, over=over)
            # asking first, or comparing first, makes no difference
            c = chk.run(S, lambda: (lambda o: (hash_(o), compare("==", o, mb()), S.freeze(S.i.call(bi("str"), [o])), hash_(o))[3])(ma()))
            chk.same(sj + " [asked before]", RULES[4], c, a, over=over)
        chk.guard(sj, RULES[4], one)

    for p in cons if everything else ():
        for q in cons:
            sj = "%s %%s %s" % (p[0], q[0])
            chk.guard(sj % "==", RULES[0], lambda: pair(subj(S, p[1], "__eq__") + " [" + sj + "]", RULES[0], p[2], q[2], equal(p, q)))
            if equal(p, q) is TRUE:
                same_hash("%s [%s and %s]" % (subj(S, p[1], "__hash__"), p[0], q[0]), p[2], q[2])
    # equal after different histories
    def merged(a, b):
        return lambda: S.meth(vc(const("a"), a), "merge", vc(const("a"), b))
    l12, l23, l2 = (sq.sset([const(x) for x in xs]) for xs in ((1, 2), (2, 3), (2,)))
    if everything:
        same_hash(subj(S, "VarValueConstraint", "__hash__") + " [merged and built]", merged(l12, l23), lambda: vc(const("a"), l2))
        chk.guard("merged", RULES[0], lambda: pair(subj(S, "VarValueConstraint", "__eq__") + " [merged %s built]", RULES[0], merged(l12, l23), lambda: vc(const("a"), l2), TRUE))

    # sets
    aV, aW, bU, bY = (lambda n=n, s=s: vc(const(n), s) for n, s in (("a", V), ("a", W), ("b", U), ("b", Y)))
    eVW, eUY = eq(V, W), eq(U, Y)
    sets = [("{null}", (null,), {}), ("{impossible}", (imp,), None), ("{a V}", (aV,), {"a": V}), ("{null, a V}", (null, aV), {"a": V}),
            ("{a W}", (aW,), {"a": W}), ("{b U}", (bU,), {"b": U}), ("{a V, b U}", (aV, bU), {"a": V, "b": U}),
            ("{b U, a V}", (bU, aV), {"a": V, "b": U}), ("{b Y, a W}", (bY, aW), {"a": W, "b": Y}), ("{a V, impossible}", (aV, imp), None),
            ("{b U, null, a V}", (bU, null, aV), {"a": V, "b": U})]

    def eq_sets(a, b):
        if a is None or b is None:
            return TRUE if a is b else FALSE
        if set(a) != set(b):
            return FALSE
        c = TRUE
        for n in a:
            c = and_(c, eq(a[n], b[n]))
        return c
    for la, ca, da in sets if everything else ():
        for lb, cb, db in sets:
            want = eq_sets(da, db)
            sj = "%s [%s %%s %s]" % (subj(S, "ConstraintSet", "__eq__"), la, lb)
            chk.guard(sj % "==", RULES[1], lambda: pair(sj, RULES[1], lambda: cset(*ca), lambda: cset(*cb), want))
            if want is TRUE:
                same_hash("%s [%s and %s]" % (subj(S, "ConstraintSet", "__hash__"), la, lb), lambda: cset(*ca), lambda: cset(*cb))
    # asked before it was complete
    def late(ask):
        def f():
            s = cset(aV)
            ask(s)
            S.meth(s, "add_constraint", bU())
            return s
        return f
    asks = (("hash", hash_), ("str", lambda s: S.i.call(bi("str"), [s])), ("==", lambda s: compare("==", s, cset(aV))),
            ("constraints", lambda s: S.i.getattr(s, "constraints")), ("is_possible", lambda s: S.meth(s, "is_possible")))
    for lab, ask in asks if everything else ():
        same_hash("%s [%s asked before b U was added]" % (subj(S, "ConstraintSet", "__hash__"), lab), lambda: cset(aV, bU), late(ask))
        chk.guard("late", RULES[1], lambda: pair("%s [%s asked before b U was added: %%s]" % (subj(S, "ConstraintSet", "__eq__"), lab), RULES[1],
                                                   lambda: cset(aV, bU), late(ask), TRUE))

    # outcomes
    def out(x, cs):
        return S.new("ProbabilityOutcome", x, cset(*cs))
    def grown():
        o = out(X1, (aV,))
        hash_(o)
        S.meth(S.i.getattr(o, "constraint_set"), "add_constraint", bU())
        return o
    outs = sets[:3] + [sets[4], sets[6], sets[8]]
    for la, ca, da in outs:
        for lb, cb, db in outs:
            for xa, xb in ((X1, X2), (X1, X1)):
                want = and_(eq(xa, xb), eq_sets(da, db))
                sj = "%s [(%s, %s) %%s (%s, %s)]" % (subj(S, "ProbabilityOutcome", "__eq__"), xa.args[0], la, xb.args[0], lb)
                chk.guard(sj % "==", RULES[2], lambda: pair(sj, RULES[2], lambda: out(xa, ca), lambda: out(xb, cb), want))
                if want is TRUE:
                    same_hash("%s [(%s, %s) and (%s, %s)]" % (subj(S, "ProbabilityOutcome", "__hash__"), xa.args[0], la, xb.args[0], lb),
                              lambda: out(xa, ca), lambda: out(xb, cb))
    same_hash("%s [constraint added later]" % subj(S, "ProbabilityOutcome", "__hash__"), lambda: out(X1, (aV, bU)), lambda: grown())

    if not everything:
        return
    others = [("an int", lambda: X2), ("a text", lambda: N1), ("None", lambda: tm.NONE), ("a constraint set", lambda: cset(aV)),
              ("a constraint", aV), ("a float", lambda: const(1.0)), ("a list", lambda: S.list_([X1])),
              ("a distribution", lambda: S.i.models.dist_of(S.i, S.obj("A", "IDiceExpression"))), ("a bool", lambda: TRUE)]
    for lab, mk in others:
        for op in cmp_:
            def one(lab=lab, mk=mk, op=op):
                code = chk.run(S, lambda: compare(op, out(X1, (aV,)), mk()))
                chk.same("%s [outcome %s %s]" % (subj(S, "ProbabilityOutcome", "__eq__"), op, lab), RULES[5], code, Res(None, [(TRUE, "TypeError")], FALSE))
            chk.guard("outcome %s %s" % (op, lab), RULES[5], one)
    # constraints and constraint sets against something else
    for what, cls, mo in (("a V", "VarValueConstraint", aV), ("{a V}", "ConstraintSet", lambda: cset(aV)), ("{null}", "ConstraintSet", lambda: cset(null))):
        for lab, mk in others:
            if what == "a V" and lab == "a constraint" or what != "a V" and lab == "a constraint set":
                continue
            for op in cmp_:
                def one(mo=mo, mk=mk, op=op, what=what, lab=lab, cls=cls):
                    code = chk.run(S, lambda: compare(op, mo(), mk()))
                    chk.same("%s [%s %s %s]" % (subj(S, cls, "__eq__"), what, op, lab), RULES[6], code, Res(FALSE if op == "==" else TRUE), over=over)
                chk.guard("%s %s %s" % (what, op, lab), RULES[6], one)
