"""What the documented language means, as terms."""
from .core import *  # noqa: F401,F403
from .core import sq, tm, ite, and_, or_, not_, lt, eq, add, sub, mul, ZERO, ONE, TRUE, const, distmap


def pos(x):
    return lt(ZERO, x)


def b2i(c):
    return ite(c, ONE, ZERO)


def t_max(x, y):
    return ite(lt(x, y), y, x)


def t_min(x, y):
    return ite(lt(x, y), x, y)


def t_abs(x):
    return ite(lt(x, ZERO), tm.neg(x), x)


# name -> (class, leading constructor arguments, integer function)
BINARY = {
    "+": ("AddExpression", (), add),
    "-": ("SubtractExpression", (), sub),
    "*": ("MultiplyExpression", (), mul),
    "//": ("IntegerDivisionExpression", (), lambda x, y: tm.lift(tm.floordiv, x, y)),
    "==": ("BinaryOperatorExpression", ("==",), lambda x, y: b2i(eq(x, y))),
    "!=": ("BinaryOperatorExpression", ("!=",), lambda x, y: b2i(not_(eq(x, y)))),
    "<": ("BinaryOperatorExpression", ("<",), lambda x, y: b2i(lt(x, y))),
    "<=": ("BinaryOperatorExpression", ("<=",), lambda x, y: b2i(not_(lt(y, x)))),
    ">": ("BinaryOperatorExpression", (">",), lambda x, y: b2i(lt(y, x))),
    ">=": ("BinaryOperatorExpression", (">=",), lambda x, y: b2i(not_(lt(x, y)))),
    "AND": ("BinaryOperatorExpression", ("AND",), lambda x, y: b2i(and_(pos(x), pos(y)))),
    "OR": ("BinaryOperatorExpression", ("OR",), lambda x, y: b2i(or_(pos(x), pos(y)))),
    "MAX": ("MinMaxExpression", ("MAX",), t_max),
    "MIN": ("MinMaxExpression", ("MIN",), t_min),
}
UNARY = {
    "!": ("NotExpression", lambda x: b2i(not_(pos(x)))),
    "ABS": ("AbsExpression", t_abs),
    "()": ("ParenthesisEnclosedExpression", lambda x: x),
}


def val(o):
    return sq.value_of(o)


def csof(o):
    return sq.cs_of(o)


def combine(f, ma, mb, filtered=True):
    """outcome table of the combination of two outcome tables"""
    x, y = tm.fresh_bv("outcome"), tm.fresh_bv("outcome")
    sq.note_member(x, sq.keys(ma))
    sq.note_member(y, sq.keys(mb))
    cs = sq.cs_union([csof(x), csof(y)])
    return sq.map_(None, [((x, y), (sq.keys(ma), sq.keys(mb)), sq.possible(cs) if filtered else TRUE,
                          sq.outcome(f(val(x), val(y)), cs), mul(sq.mget(ma, x), sq.mget(mb, y)))])


def apply1(f, ma):
    x = tm.fresh_bv("outcome")
    sq.note_member(x, sq.keys(ma))
    return sq.map_(None, [((x,), (sq.keys(ma),), TRUE, sq.outcome(f(val(x)), csof(x)), sq.mget(ma, x))])


def value_table(m):
    """counts per value of an outcome table"""
    x = tm.fresh_bv("outcome")
    sq.note_member(x, sq.keys(m))
    return sq.map_(None, [((x,), (sq.keys(m),), TRUE, val(x), sq.mget(m, x))])


def has_value(m, v):
    x = tm.fresh_bv("outcome")
    return sq.exists((x,), (sq.keys(m),), eq(val(x), v))


def point(v):
    """the distribution of a constant"""
    return sq.map_(None, [((), (), TRUE, sq.outcome(v, sq.CS_EMPTY), ONE)])
