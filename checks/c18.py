"""C18: the text of an expression is the program that produced it."""
from .core import *  # noqa: F401,F403
from .core import Check, bi, Res, subj, tm, txt, nat, sym, const, UNDECIDED
from .exprs import forms
from . import grammar as gr

RULES = ["the text lexes to exactly the tokens of the grammar rule with the operands' texts in their places",
         "dice, constants and names are reproduced verbatim"]
TEXTS = ["5", "-3", "1d6", "d[-1,2*3,]", "a", "x_y", "(2 + a)", "!a", "ABS(-1)", "4d%k2", "MAX(1, b)", "1 - -2", "a == b", "VAR a = 3", "True",
         "0", "10dFd3", "2 AND 3", "VAR b = 1 - 2", "_q // 2"]


def main():
    chk = Check("C18")
    S = chk.session()
    table = gr.tokens(chk, S)
    fac = S.new("ProbabilityDistributionFactory")
    ok = all(n is not None and r is not None for n, r in table)

    def text_of(env, e):
        return env.rng("text", e).choice(TEXTS)

    def norm(a):
        if a[0] == "value" and isinstance(a[1], str):
            return ("value", gr.lex(table, a[1]) or "does not lex: %r" % a[1])
        return a

    st = lambda e: tm.app("m:__str__", (e,), "str")
    shapes = {"binary": lambda fm: (st(fm.operands[0]), " %s " % fm.label, st(fm.operands[1])),
              "MAX": lambda fm: (fm.label, "(", st(fm.operands[0]), ", ", st(fm.operands[1]), ")"),
              "!": lambda fm: ("!", st(fm.operands[0])),
              "ABS": lambda fm: ("ABS(", st(fm.operands[0]), ")"),
              "()": lambda fm: ("(", st(fm.operands[0]), ")"),
              "assign": lambda fm: ("VAR ", sym("name", "str"), " = ", st(fm.operands[0])),
              "name": lambda fm: (sym("name", "str"),),
              "const": lambda fm: ({"N": nat("N"), "-N": txt("-", nat("N"))}.get(fm.label, const(fm.label)),)}
    shapes["MIN"] = shapes["MAX"]
    for fm in forms(S, fac, rich="more"):
        def one(fm=fm):
            sj = subj(S, fm.cls, "__str__") + " [%s]" % fm.label
            if fm.text is not None:
                spec, rule = Res(fm.text), RULES[1]
            else:
                sh = shapes.get(fm.label) or shapes.get(fm.kind)
                spec, rule = Res(txt(*sh(fm))), RULES[0] if fm.operands else RULES[1]
            for how, f in (("str()", lambda: S.freeze(S.i.call(bi("str"), [fm.make()]))),):
                code = chk.run(S, f)
                if fm.operands and not ok:
                    chk.add(sj, rule, UNDECIDED, "the token table is not literal")
                    continue
                chk.same(sj, rule, code, spec, plain=True, hooks={"m:__str__": text_of} if fm.operands else None,
                         norm=norm if fm.operands else None)
        chk.guard("%s [%s]" % (fm.cls, fm.label), RULES[0], one)
    # verbatim spellings that are not canonical numbers
    odd = [("ConstantIntegerExpression", "text", sym("text", "str")), ("ConstantIntegerExpression", "00N", txt("00", nat("N"))),
           ("ConstantIntegerExpression", "-0", const("-0")),
           ("ConstantBinaryExpression", "text", sym("text", "str")),
           ("DiceExpression", "0Nd0X", txt("0", nat("N"), "d0", nat("X"))),
           ("DiceExpression", "d[ P , -Q*0M, ]", txt("d[ ", nat("P"), " , -", nat("Q"), "*0", nat("M"), ", ]")),
           ("DropKeepExpression", "0NdFd0K", txt("0", nat("N"), "dFd0", nat("K"))),
           ("DropKeepExpression", "Nd[Q- -P]k", txt(nat("N"), "d[ ", nat("Q"), "--", nat("P"), "]k00", nat("K")))]
    for cls, lab, t in odd:
        def one(cls=cls, lab=lab, t=t):
            code = chk.run(S, lambda: S.freeze(S.i.call(bi("str"), [S.new(cls, t, fac)])))
            chk.same(subj(S, cls, "__str__") + " [%s]" % lab, RULES[1], code, Res(t), plain=True, values_only=True)
        chk.guard("%s [%s]" % (cls, lab), RULES[1], one)
    return chk.finish(RULES)
