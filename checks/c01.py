"""C01: rolling and the distribution give every operator the same meaning."""
from .core import *  # noqa: F401,F403
from .core import Check, Res, EXACT, TOTAL_RULE, HOLDS, VIOLATED, UNDECIDED, sym, const, txt, nat, subj, dist_term, distmap, et, tm, FALSE, TRUE
from . import spec as sp

RULES = ["roll(e) is the documented integer function of the operands' rolls",
         "the distribution of e maps every jointly possible operand outcome through the same function",
         "one roll of e rolls every operand exactly once", EXACT, TOTAL_RULE]


def counted(chk, S, code, subject, operands, key=None):
    """every operand rolled exactly once on each normal exit"""
    rule = RULES[2]
    evs = [e for e in code.events if e.kind == "roll"]
    if code.ok is FALSE:
        return
    verdict, detail = HOLDS, ""
    decided = 0
    for env in chk.envs(plain=True):
        memo = {}
        try:
            if any(et.truthy(et.ev(c, env, None, memo)) for c, _ in code.raises):
                continue
            n = {o: 0 for o in operands}
            for e in evs:
                if et.truthy(et.ev(e.guard, env, None, memo)):
                    k = 1
                    for lp in e.loops:
                        if lp[0] == "while":
                            raise et.Unknown("roll in a while loop")
                        k = 2  # once per iteration
                    n[e.recv] = n.get(e.recv, 0) + k
        except (et.Err, et.Unknown):
            continue
        decided += 1
        for o in operands:
            if n[o] != 1:
                verdict = VIOLATED
                detail = "operand %s is rolled %s times when %s" % (o, n[o] if n[o] < 2 else "several", ", ".join(
                    "%s=%s" % kv for kv in sorted(env.used.items()))[:200])
                break
        if verdict == VIOLATED:
            break
    if not decided:
        verdict, detail = UNDECIDED, "; ".join(code.notes[:2]) or "no valuation applies"
    chk.add(subject, rule, verdict, detail, "effect count" if verdict == HOLDS else "effect count under a valuation", key)


def main():
    chk = Check("C01")
    S = chk.session()
    A, B = S.obj("A", "IDiceExpression"), S.obj("B", "IDiceExpression")
    ra = tm.app("roll", (A, tm.ZERO), "int")
    rb = tm.app("roll", (B, tm.ZERO), "int")
    fac = S.new("ProbabilityDistributionFactory")
    for name, (cls, lead, f) in sp.BINARY.items():
        def one(name=name, cls=cls, lead=lead, f=f):
            mk_ = lambda: S.new(cls, *[const(x) for x in lead], A, B)
            code = chk.run(S, lambda: S.freeze(S.meth(mk_(), "roll")))
            sj = subj(S, cls, "roll") + " [%s]" % name
            known = [("bitwise", Res(sp.b2i(not_(eq(tm.app("BitAnd", tuple(sorted((ra, rb), key=lambda t: t.id)), "int"), tm.ZERO)))))] \
                if name == "AND" else ()
            chk.same(sj, RULES[0], code, Res(f(ra, rb)), plain=True, values_only=True, known=known)
            counted(chk, S, code, sj, (A, B))
            chk.total(sj, code, eq(rb, tm.ZERO) if name == "//" else tm.FALSE, plain=True)
            chk.exact(sj, code)
            code = chk.run(S, lambda: dist_term(S, mk_()))
            sj = subj(S, cls, "get_probability_distribution") + " [%s]" % name
            chk.same(sj, RULES[1], code, Res(sp.combine(f, distmap(A), distmap(B))), values_only=True)
            chk.total(sj, code, sp.has_value(distmap(B), tm.ZERO) if name == "//" else tm.FALSE)
            chk.exact(sj, code)
        chk.guard(cls + " [%s]" % name, RULES[0], one)
    for name, (cls, f) in sp.UNARY.items():
        def one(name=name, cls=cls, f=f):
            mk_ = lambda: S.new(cls, A)
            code = chk.run(S, lambda: S.freeze(S.meth(mk_(), "roll")))
            sj = subj(S, cls, "roll") + " [%s]" % name
            chk.same(sj, RULES[0], code, Res(f(ra)), plain=True, values_only=True)
            counted(chk, S, code, sj, (A,))
            chk.total(sj, code, plain=True)
            chk.exact(sj, code)
            code = chk.run(S, lambda: dist_term(S, mk_()))
            sj = subj(S, cls, "get_probability_distribution") + " [%s]" % name
            chk.same(sj, RULES[1], code, Res(sp.apply1(f, distmap(A))), values_only=True)
            chk.total(sj, code)
            chk.exact(sj, code)
        chk.guard(cls + " [%s]" % name, RULES[0], one)
    n = sym("nat:N", "int")
    consts = [("ConstantIntegerExpression", "N", nat("N"), n), ("ConstantIntegerExpression", "-N", txt("-", nat("N")), tm.neg(n)),
              ("ConstantBinaryExpression", "True", const("True"), tm.ONE), ("ConstantBinaryExpression", "False", const("False"), tm.ZERO)]
    for cls, label, text, v in consts:
        def one(cls=cls, label=label, text=text, v=v):
            mk_ = lambda: S.new(cls, text, fac)
            code = chk.run(S, lambda: S.freeze(S.meth(mk_(), "roll")))
            chk.same(subj(S, cls, "roll") + " [%s]" % label, RULES[0], code, Res(v))
            code = chk.run(S, lambda: dist_term(S, mk_()))
            chk.same(subj(S, cls, "get_probability_distribution") + " [%s]" % label, RULES[1], code, Res(sp.point(v)))
        chk.guard(cls + " [%s]" % label, RULES[0], one)
    return chk.finish(RULES)
