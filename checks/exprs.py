"""One abstract instance of every expression form, with symbolic operands and symbolic numbers."""
from .core import sym, const, txt, nat, tm, ZERO, ONE
from . import spec as sp


class Form:
    def __init__(self, label, cls, make, operands=(), where=None, kind="", sides=None, count=None, keep=None, text=None):
        self.label, self.cls, self.make, self.operands, self.where, self.kind = label, cls, make, operands, where, kind
        self.sides, self.count, self.keep, self.text = sides, count, keep, text  # entries (low, high, multiplier), dice, "k"/"d"


N, X, K = sym("nat:N", "int"), sym("nat:X", "int"), sym("nat:K", "int")


def ge1(x):
    return tm.not_(tm.lt(x, ONE))


def num(n):
    return sym("nat:" + n, "int")


def bracket_texts(more=False):
    """custom side lists; every one has at least one side. (label, text parts, side condition, entries)"""
    P, Q, R, M = (nat(c) for c in "PQRM")
    p, q, m = num("P"), num("Q"), num("M")
    return [
        ("[P,Q]", ("[", P, ",", Q, "]"), None, [(p, p, ONE), (q, q, ONE)]),
        ("[-P, Q*2]", ("[-", P, ", ", Q, "*2]"), None, [(tm.neg(p), tm.neg(p), ONE), (q, q, const(2))]),
        ("[P-Q]", ("[", P, "-", Q, "]"), None, [(p, q, ONE)]),
        ("[-P-Q*M,]", ("[-", P, "-", Q, "*", M, ",]"), ge1(m), [(tm.neg(p), q, m)]),
    ] + ([
        ("[P]", ("[", P, "]"), None, [(p, p, ONE)]),
        ("[2*2,5*3]", ("[2*2,5*3]",), None, [(const(2), const(2), const(2)), (const(5), const(5), const(3))]),
    ] if more else [])


def dice_texts(rich=True):
    """(label, text parts after the count, side condition, entries); rich: with side lists, "more": with further ones"""
    out = [("X", (nat("X"),), ge1(X), [(ONE, X, ONE)]), ("%", ("%",), None, [(ONE, const(100), ONE)]),
           ("F", ("F",), None, [(const(-1), ONE, ONE)])]
    if rich:
        out += bracket_texts(rich == "more")
    return out


def side_table(chk, S, entries):
    """the documented side table of a list of entries, as a term"""
    es = S.list_([tm.tup(e) for e in entries])
    return chk.ref(S, "side_table", es).value


SMALL = (0, 1, 2, 3)


def small_counts(label):
    """valuations that keep the tables of large dice small"""
    import random

    def over(k):
        r = random.Random("%s/%d" % (label, k))
        if "%" in label:
            return {"nat:N": r.choice((0, 1, 1, 2)), "nat:K": r.choice((0, 1, 1, 2, 3))}
        return {"nat:N": r.choice((0, 1, 2, 2, 3, 3, 4)), "nat:X": r.choice((0, 1, 2, 3, 4)), "nat:K": r.choice((0, 1, 1, 2, 2, 3, 5)),
                "nat:M": r.choice((0, 1, 1, 2, 3))}
    return over


def forms(S, fac, dice=True, rich=False):
    A, B = S.obj("A", "IDiceExpression"), S.obj("B", "IDiceExpression")
    st = S.obj("state", "IProbabilityDistributionState")
    name = sym("name", "str")
    out = []
    for op, (cls, lead, f) in sp.BINARY.items():
        out.append(Form(op, cls, lambda cls=cls, lead=lead: S.new(cls, *[const(x) for x in lead], A, B), (A, B), kind="binary"))
    for op, (cls, f) in sp.UNARY.items():
        out.append(Form(op, cls, lambda cls=cls: S.new(cls, A), (A,), kind="unary"))
    for lab, t in (("N", nat("N")), ("-N", txt("-", nat("N")))):
        out.append(Form(lab, "ConstantIntegerExpression", lambda t=t: S.new("ConstantIntegerExpression", t, fac), kind="const"))
    for lab in ("True", "False"):
        out.append(Form(lab, "ConstantBinaryExpression", lambda lab=lab: S.new("ConstantBinaryExpression", const(lab), fac), kind="const"))
    out.append(Form("VAR name = e", "VarAssignmentExpression", lambda: S.new("VarAssignmentExpression", st, name, A), (A,), kind="assign"))
    out.append(Form("name", "GetVarExpression", lambda: S.new("GetVarExpression", st, name), (), kind="name"))
    if dice:
        for lab, t, w, en in dice_texts(rich):
            out.append(Form("Nd" + lab, "DiceExpression", lambda t=t: S.new("DiceExpression", txt(nat("N"), "d", *t), fac), where=w, kind="dice",
                            sides=en, count=N, text=txt(nat("N"), "d", *t)))
            out.append(Form("d" + lab, "DiceExpression", lambda t=t: S.new("DiceExpression", txt("d", *t), fac), where=w, kind="dice",
                            sides=en, count=ONE, text=txt("d", *t)))
            for kd in "kd":
                for c, ct in (((nat("N"),), N), ((), ONE)):
                    if not c and lab not in ("X", "[P-Q]"):
                        continue
                    tx = txt(*c, "d", *t, kd, nat("K"))
                    out.append(Form("%sd%s%sK" % ("N" if c else "", lab, kd), "DropKeepExpression",
                                    lambda tx=tx: S.new("DropKeepExpression", tx, fac), where=w, kind="dropkeep",
                                    sides=en, count=ct, keep=kd, text=tx))
    return out
