"""Hash-consed terms of the gated value graph and their normalising constructors.

Conditions are ordered decision diagrams over atoms; numbers are polynomials over atoms; gates (`ite`) are lifted
to the top of scalar operators, so that two ways of writing one piecewise computation reach the same node.
"""
from fractions import Fraction
from itertools import permutations
import math


class T:
    __slots__ = ("op", "args", "id", "ty", "_fv", "_h")

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]


def mk(op, args, ty):
    key = (op, args, ty if op in ("sym", "bv") else None)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty = op, args, ty
        t.id = _next[0]
        t._fv = None
        t._h = None
        _next[0] += 1
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return mk("c", ("bool", v), "bool")
    if isinstance(v, int):
        return mk("c", ("int", v), "int")
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return mk("c", ("int", int(v)), "int")
        return mk("c", ("num", v), "num")
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk("c", ("float", repr(v)), "num")
        return const(Fraction(repr(v)))
    if v is None:
        return mk("c", ("none", None), "none")
    if isinstance(v, str):
        return mk("c", ("str", v), "str")
    if isinstance(v, bytes):
        return mk("c", ("bytes", v), "bytes")
    if v is Ellipsis:
        return mk("c", ("ellipsis", None), "any")
    raise TypeError(v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[1]


def is_num_const(t):
    return t.op == "c" and t.args[0] in ("int", "num", "bool")


def sym(name, ty):
    return mk("sym", (name,), ty)


def unk(reason):
    return mk("unk", (reason,), "any")


UNDEF = mk("undef", (), "any")


def tup(items):
    items = tuple(items)
    t = "bot"
    for x in items:
        t = x.ty if t == "bot" else (t if t == x.ty else "any")
    return mk("tup", items, ("seq", t))


def app(name, args, ty="any"):
    return mk("app", (name,) + tuple(args), ty)


# ---------------------------------------------------------------- types
def is_intty(ty):
    return ty in ("int", "bool")


def is_numty(ty):
    return ty in ("int", "bool", "num")


def join_ty(a, b):
    if a == b:
        return a
    if a == "bot":
        return b
    if b == "bot":
        return a
    if is_intty(a) and is_intty(b):
        return "int"
    if is_numty(a) and is_numty(b):
        return "num"
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if len(a) == len(b):
            return tuple([a[0]] + [join_ty(x, y) for x, y in zip(a[1:], b[1:])])
    return "any"


# ---------------------------------------------------------------- free bound variables
def fv(t):
    """ids of the bound variables (bv terms) occurring free in t"""
    if t._fv is not None:
        return t._fv
    if t.op == "bv":
        r = frozenset([t])
    else:
        r = frozenset()
        bound = binders(t)
        for a in children(t):
            r |= fv(a)
        if bound:
            r -= frozenset(bound)
    t._fv = r
    return r


def binders(t):
    if t.op in ("comp", "mc", "fold", "whl", "first"):
        return t.args[0]
    return ()


def children(t):
    out = []

    def rec(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)

    if t.op in ("comp", "mc", "fold", "whl", "first"):
        for a in t.args[1:]:
            rec(a)
    else:
        for a in t.args:
            rec(a)
    return out


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(children(x))


def contains_op(t, op):
    return any(x.op == op for x in walk(t))


def find_unk(t):
    for x in walk(t):
        if x.op in ("unk", "undef"):
            return x
    return None


def height(t):
    """largest index of a binder inside t"""
    if t._h is not None:
        return t._h
    h = 0
    for b in binders(t):
        h = max(h, b.args[0] if isinstance(b.args[0], int) else 0)
    for a in children(t):
        h = max(h, height(a))
    t._h = h
    return h


_fresh = [0]


def fresh_bv(ty="any"):
    _fresh[0] += 1
    return mk("bv", ("f%d" % _fresh[0],), ty)


def canon_bv(i, ty):
    return mk("bv", (i,), ty)


# ---------------------------------------------------------------- decision diagrams
def atom_key(a):
    if a.op in ("lt", "le"):
        return (a.args[0].id, cval(a.args[1]), 0 if a.op == "lt" else 1)
    return (a.id, 0, 0)


def top_atom(t):
    if t.op == "ite":
        return t.args[0]
    if t.ty == "bool" and t.op != "c":
        return t
    return None


def _same_thresh(a, b):
    return a.op in ("lt", "le") and b.op in ("lt", "le") and a.args[0] is b.args[0]


def cof(t, atom, pos):
    """cofactor of t with respect to atom, which is <= every atom of t"""
    top = top_atom(t)
    if top is None:
        return t
    if top is atom:
        if t.op == "ite":
            return t.args[1] if pos else t.args[2]
        return TRUE if pos else FALSE
    if pos and _same_thresh(top, atom):  # p < c1 implies p < c2
        return cof_all_true(t, atom)
    return t


def cof_all_true(t, atom):
    while True:
        top = top_atom(t)
        if top is None or not _same_thresh(top, atom):
            return t
        if t.op == "ite":
            t = t.args[1]
        else:
            return TRUE


def why_unknown(t):
    while t.op == "ite":
        t = t.args[1] if t.args[1].ty != "bool" else t.args[2] if t.args[2].ty != "bool" else t.args[0]
    return t.args[0] if t.op == "unk" else t.op


_ite_memo = {}
HOOKS_ITE = []


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op in ("unk", "undef") or (c.ty != "bool"):
        if c.op in ("unk", "undef"):
            return unk("condition: %s" % (c.args[0] if c.args else "undefined"))
        c = truth(c)
        if c.ty != "bool":
            return unk("condition: %s" % why_unknown(c))
        return ite(c, a, b)
    key = (c.id, a.id, b.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    tops = [x for x in (top_atom(c), top_atom(a), top_atom(b)) if x is not None]
    at = min(tops, key=atom_key)
    hi = ite(_cof_norm(c, at, True), _cof_norm(a, at, True), _cof_norm(b, at, True))
    lo = ite(_cof_norm(c, at, False), _cof_norm(a, at, False), _cof_norm(b, at, False))
    r = node(at, hi, lo)
    _ite_memo[key] = r
    return r


def _cof_norm(t, at, pos):
    r = cof(t, at, pos)
    if pos and at.op in ("lt", "le"):
        r = cof_all_true(r, at)
    return r


def node(at, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return at
    # g(p<c1, A, g(p<c2, A, C)) = g(p<c2, A, C)
    if lo.op == "ite" and _same_thresh(lo.args[0], at) and lo.args[1] is hi:
        return lo
    if lo.ty == "bool" and lo.op in ("lt", "le") and _same_thresh(lo, at) and hi is TRUE:
        return lo
    if at.op == "lt" and hi.op != "ite" and lo.op != "ite" and is_numty(hi.ty) and is_numty(lo.ty):
        if hi.ty != "bool" and lo.ty != "bool":
            # hi = lo wherever p = c: then p<c and p<=c select the same value; keep one of the two
            d = sub(hi, lo)
            pc = sub(at.args[0], at.args[1])
            if _proportional(poly_of(d), poly_of(pc)):
                if is_intty(at.args[0].ty):
                    at = mk("lt", (at.args[0], const(cval(at.args[1]) + 1)), "bool")
                else:
                    at = mk("le", at.args, "bool")
    for h in HOOKS_ITE:
        r = h(at, hi, lo)
        if r is not None:
            return r
    return mk("ite", (at, hi, lo), join_ty(hi.ty, lo.ty))


def _proportional(d, e):
    if set(d) != set(e) or not d:
        return False
    k = None
    for m in d:
        q = d[m] / e[m]
        if k is None:
            k = q
        elif k != q:
            return False
    return True


def not_(c):
    return ite(truth(c), FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def andn(xs):
    r = TRUE
    for x in xs:
        r = and_(r, x)
    return r


def leaves(t):
    """list of (guard, leaf) of a gated term"""
    if t.op != "ite":
        return [(TRUE, t)]
    out = []
    for g, x in leaves(t.args[1]):
        out.append((and_(t.args[0], g), x))
    n = not_(t.args[0])
    for g, x in leaves(t.args[2]):
        out.append((and_(n, g), x))
    return out


def n_leaves(t):
    return 1 if t.op != "ite" else n_leaves(t.args[1]) + n_leaves(t.args[2])


def lift(f, *ts):
    """apply f to gated arguments, case by case"""
    for i, t in enumerate(ts):
        if t.op == "ite":
            at = t.args[0]
            # split all arguments on the smallest atom
            for u in ts:
                if u.op == "ite" and atom_key(u.args[0]) < atom_key(at):
                    at = u.args[0]
            hi = lift(f, *[_split(u, at, True) for u in ts])
            lo = lift(f, *[_split(u, at, False) for u in ts])
            return ite(at, hi, lo)
        if t.op in ("unk", "undef"):
            return unk(t.args[0] if t.args else "undefined value")
    return f(*ts)


def _split(u, at, pos):
    if u.op != "ite":
        return u
    return _cof_norm(u, at, pos)


def restrict(t, pc):
    """simplify t under the assumption pc (a conjunction read off the diagram)"""
    if pc is TRUE or t.op in ("c",):
        return t
    lits = []
    c = pc
    while c is not TRUE:
        if c.op == "ite" and c.args[1] is FALSE:
            lits.append((c.args[0], False))
            c = c.args[2]
        elif c.op == "ite" and c.args[2] is FALSE:
            lits.append((c.args[0], True))
            c = c.args[1]
        elif c.op == "ite":
            break
        elif c is FALSE:
            break
        else:
            lits.append((c, True))
            break
    if not lits:
        return t
    return _assume(t, lits)


_prune_memo = {}


def prune(t, pc):
    """t with the branches dropped that no valuation satisfying pc reaches"""
    if pc is TRUE or pc is FALSE or t.op != "ite":
        return t
    key = (t.id, pc.id)
    r = _prune_memo.get(key)
    if r is not None:
        return r
    at = min(top_atom(t), top_atom(pc), key=atom_key) if top_atom(pc) is not None else top_atom(t)
    ph, pl = _cof_norm(pc, at, True), _cof_norm(pc, at, False)
    if ph is FALSE and pl is FALSE:
        r = t
    elif ph is FALSE:
        r = prune(_cof_norm(t, at, False), pl)
    elif pl is FALSE:
        r = prune(_cof_norm(t, at, True), ph)
    elif at is not t.args[0]:
        r = prune(t, or_(ph, pl))
    else:
        r = ite(at, prune(_cof_norm(t, at, True), ph), prune(_cof_norm(t, at, False), pl))
    _prune_memo[key] = r
    return r


def _assume(t, lits):
    if t.op == "ite":
        at = t.args[0]
        for l, pos in lits:
            v = implied(at, l, pos)
            if v is not None:
                return _assume(t.args[1] if v else t.args[2], lits)
        return ite(at, _assume(t.args[1], lits), _assume(t.args[2], lits))
    if t.ty == "bool" and t.op != "c":
        for l, pos in lits:
            v = implied(t, l, pos)
            if v is not None:
                return const(v)
    return t


def implied(at, l, pos):
    if at is l:
        return pos
    if _same_thresh(at, l):
        ka, kl = atom_key(at)[1:], atom_key(l)[1:]
        if pos and ka > kl:
            return True
        if not pos and ka < kl:
            return False
    return None


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """dict mono -> Fraction; mono = tuple of (atom, exp) sorted by id"""
    if t.op == "c":
        k, v = t.args
        if k == "bool":
            return {(): Fraction(int(v))} if v else {}
        if k in ("int", "num"):
            return {(): Fraction(v)} if v else {}
        raise TypeError(t)
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def mk_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: mono_key(mc[0])))
    ty = "int"
    for m, c in items:
        if c.denominator != 1 or any(not is_intty(a.ty) for a, _ in m):
            ty = "num"
    if any(a.ty == "any" for m, _ in items for a, _e in m):
        ty = "num"
    return mk("poly", items, ty)


def mono_key(m):
    return (sum(e for _, e in m), tuple((a.id, e) for a, e in m))


def mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    # x * inv(x) cancels (the division is guarded by its own ZeroDivisionError exit)
    for a in list(d):
        if a.op == "inv" and a.args[0] in d and d.get(a, 0) > 0:
            base = a.args[0]
            k = min(d[a], d[base])
            d[a] -= k
            d[base] -= k
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


def num(t):
    """numeric view of a scalar: booleans become gated 0/1"""
    if t.op == "ite":
        return ite(t.args[0], num(t.args[1]), num(t.args[2]))
    if t.ty == "bool":
        if t.op == "c":
            return const(int(cval(t)))
        return ite(t, ONE, ZERO)
    return t


def _bad_num(t):
    return t.op == "c" and t.args[0] not in ("int", "num", "bool") or t.op in ("tup", "ref", "map", "comp")


def add(a, b):
    def f(x, y):
        if _bad_num(x) or _bad_num(y):
            return unk("+ on non-numbers")
        d = poly_of(x)
        for m, c in poly_of(y).items():
            d[m] = d.get(m, 0) + c
        return mk_poly(d)

    return lift(f, num(a), num(b))


def scale(a, k):
    return lift(lambda x: mk_poly({m: c * k for m, c in poly_of(x).items()}), num(a))


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    def f(x, y):
        if _bad_num(x) or _bad_num(y):
            return unk("* on non-numbers")
        d = {}
        for m1, c1 in poly_of(x).items():
            for m2, c2 in poly_of(y).items():
                m = mono_mul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return mk_poly(d)

    return lift(f, num(a), num(b))


def inv(a):
    def f(x):
        if is_num_const(x):
            v = Fraction(cval(x))
            if v == 0:
                return unk("division by zero")
            return const(1 / v)
        # product: invert factors
        if x.op == "poly" and len(x.args) == 1:
            (m, c), = x.args
            r = const(1 / c)
            for at, e in m:
                for _ in range(e):
                    r = mul(r, inv(at))
            return r
        if x.op == "inv":
            return x.args[0]
        return mk("inv", (x,), "num")

    return lift(f, num(a))


def truediv(a, b):
    return mul(a, inv(b))


def floordiv(a, b):
    def f(x, y):
        if is_num_const(x) and is_num_const(y) and cval(y) != 0:
            return const(Fraction(math.floor(Fraction(cval(x)) / Fraction(cval(y)))))
        if y is ONE and is_intty(x.ty):
            return x
        if x is ZERO and y.op == "c":
            return ZERO
        if is_num_const(y) and cval(y) == 0:
            return unk("floor division by zero")
        if is_num_const(y):  # floor(x / const)
            return floor(mul(x, inv(y)))
        return mk("fdiv", (x, y), "int" if is_intty(x.ty) and is_intty(y.ty) else "num")

    return lift(f, num(a), num(b))


def floor(a):
    def f(x):
        if is_num_const(x):
            return const(Fraction(math.floor(Fraction(cval(x)))))
        if is_intty(x.ty):
            return x
        d = poly_of(x)
        # integer part of integer-typed monomials can be taken out
        out, rest = {}, {}
        for m, c in d.items():
            if all(is_intty(at.ty) for at, _ in m) and c.denominator == 1:
                out[m] = c
            elif m == ():
                out[m] = Fraction(math.floor(c))
                rest[m] = c - math.floor(c)
            else:
                rest[m] = c
        rest = {m: c for m, c in rest.items() if c}
        if not rest:
            return mk_poly(out)
        return add(mk_poly(out), mk("floor", (mk_poly(rest),), "int"))

    return lift(f, num(a))


def mod(a, b):
    def f(x, y):
        if is_num_const(x) and is_num_const(y) and cval(y) != 0:
            r = Fraction(cval(x)) - Fraction(cval(y)) * math.floor(Fraction(cval(x)) / Fraction(cval(y)))
            return const(r)
        return mk("mod", (x, y), "int" if is_intty(x.ty) and is_intty(y.ty) else "num")

    return lift(f, num(a), num(b))


def power(a, b):
    def f(x, y):
        if is_num_const(y) and Fraction(cval(y)).denominator == 1:
            n = int(cval(y))
            if n < 0:
                return inv(power(x, const(-n)))
            if n <= 12 or is_num_const(x):
                r = ONE
                for _ in range(n):
                    r = mul(r, x)
                return r
        return mk("pow", (x, y), join_ty(x.ty, y.ty))

    return lift(f, num(a), num(b))


# ---------------------------------------------------------------- comparisons
def _split_const(d):
    d = dict(d)
    c = d.pop((), Fraction(0))
    return d, c


def _norm_lin(d):
    """scale a constant-free polynomial to primitive form with positive leading coefficient: (p0, factor)"""
    items = sorted(d.items(), key=lambda mc: mono_key(mc[0]))
    den = 1
    for _, c in items:
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for _, c in items:
        g = math.gcd(g, int(c * den))
    f = Fraction(den, g)
    if items[-1][1] < 0:
        f = -f
    return {m: c * f for m, c in items}, f


def lt0(d):
    """condition  poly < 0"""
    p, c = _split_const(d)
    if not p:
        return const(c < 0)
    p0, f = _norm_lin(p)
    p0 = mk_poly(p0)
    bound = -c * abs(f)
    integral = is_intty(p0.ty)
    if f > 0:  # p0 < bound
        if integral:
            return _thr("lt", p0, Fraction(math.ceil(bound)))
        return _thr("lt", p0, bound)
    # -p0 < bound  <=>  p0 > -bound  <=>  not (p0 <= -bound)
    b = -bound
    if integral:
        return not_(_thr("lt", p0, Fraction(math.floor(b) + 1)))
    return not_(_thr("le", p0, b))


def _thr(op, p0, b):
    lo = lower_bound(p0)
    if lo is not None:
        if b < lo or (op == "lt" and b <= lo):
            return FALSE
    hi = upper_bound(p0)
    if hi is not None:
        if hi < b or (op == "le" and hi <= b):
            return TRUE
    return mk(op, (p0, const(b)), "bool")


NONNEG_OPS = {"len", "mlen"}


def lower_bound(t):
    """static lower bound of a normalised integer atom or polynomial"""
    if t.op in NONNEG_OPS:
        return 0
    if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("nat:"):
        return 0
    if t.op == "poly":
        s = Fraction(0)
        for m, c in t.args:
            if c < 0 or any(lower_bound(a) is None or lower_bound(a) < 0 for a, _ in m):
                return None
        return s
    return None


def upper_bound(t):
    return None


def lt(a, b):
    def f(x, y):
        if is_numty(x.ty) and is_numty(y.ty):
            d = poly_of(sub(x, y))
            return lt0(d)
        if x.op == "c" and y.op == "c":
            try:
                return const(cval(x) < cval(y))
            except TypeError:
                return unk("< between %s" % ((x, y),))
        if x.op == "tup" and y.op == "tup":
            return lex_lt(x.args, y.args)
        if x is y:
            return FALSE
        if x.ty == "any" or y.ty == "any":
            if is_numty(x.ty) or is_numty(y.ty):
                d = poly_of(sub(x, y))
                return lt0(d)
        return mk("ltx", (x, y), "bool")

    return lift(f, num(a), num(b))


def lex_lt(xs, ys):
    if not ys:
        return FALSE
    if not xs:
        return TRUE
    return ite(lt(xs[0], ys[0]), TRUE, and_(eq(xs[0], ys[0]), lex_lt(xs[1:], ys[1:])))


def le(a, b):
    return not_(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return not_(lt(a, b))


def definitely_distinct_types(x, y):
    groups = {"int": "n", "bool": "n", "num": "n", "str": "s", "none": "0"}

    def g(t):
        if isinstance(t, tuple):
            return t[0]
        return groups.get(t)

    a, b = g(x), g(y)
    return a is not None and b is not None and a != b


HOOKS_EQ = []


def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "c" and y.op == "c":
            return const(cval(x) == cval(y) and (is_num_const(x) == is_num_const(y)))
        if is_numty(x.ty) and is_numty(y.ty):
            d = poly_of(sub(x, y))
            p, c = _split_const(d)
            if not p:
                return const(c == 0)
            p0, fct = _norm_lin(p)
            p0 = mk_poly(p0)
            b0 = -c * fct
            if is_intty(p0.ty):
                if b0.denominator != 1:
                    return FALSE
                return and_(not_(_thr("lt", p0, b0)), _thr("lt", p0, b0 + 1))
            return and_(not_(_thr("lt", p0, b0)), _thr("le", p0, b0))
        if definitely_distinct_types(x.ty, y.ty):
            return FALSE
        if x.op == "tup" and y.op == "tup":
            if len(x.args) != len(y.args):
                return FALSE
            return andn([eq(p, q) for p, q in zip(x.args, y.args)])
        if x.op == "outcome" and y.op == "outcome":
            return and_(eq(x.args[0], y.args[0]), eq(x.args[1], y.args[1]))
        if x.ty == "outcome" and y.ty == "outcome" and (x.op == "outcome" or y.op == "outcome"):
            from . import seqs
            return and_(eq(seqs.value_of(x), seqs.value_of(y)), eq(seqs.cs_of(x), seqs.cs_of(y)))
        for h in HOOKS_EQ:
            r = h(x, y)
            if r is not None:
                return r
        if x.op in ("ref", "cls", "fn", "bi") and y.op in ("c", "ref", "cls", "fn", "bi"):
            return FALSE
        if y.op in ("ref", "cls", "fn", "bi") and x.op == "c":
            return FALSE
        if x.op == "sym" and y is NONE and isinstance(x.ty, tuple) and x.ty[0] == "obj":
            return FALSE
        if y.op == "sym" and x is NONE and isinstance(y.ty, tuple) and y.ty[0] == "obj":
            return FALSE
        if x.id > y.id:
            x, y = y, x
        return mk("eq", (x, y), "bool")

    if a.ty == "bool" and b.ty == "bool":
        return ite(a, truth(b), not_(b))
    return lift(f, num(a) if is_numty(b.ty) else a, num(b) if is_numty(a.ty) else b)


# ---------------------------------------------------------------- truth of a value
def truth(t):
    if t.ty == "bool":
        return t
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ("unk", "undef"):
        return t
    if t.op == "c":
        if t.args[0] == "num":
            return TRUE
        return const(bool(cval(t)))
    if is_numty(t.ty):
        return not_(eq(t, ZERO))
    if t.op == "tup":
        return const(len(t.args) > 0)
    if t.op in ("cls", "fn", "bi", "mod", "ext", "bm", "outcome", "obj", "partial", "rematch"):
        return TRUE
    if isinstance(t.ty, tuple):
        if t.ty[0] == "seq":
            return not_(eq(seq_len(t), ZERO))
        if t.ty[0] == "map":
            return not_(eq(map_len(t), ZERO))
        if t.ty[0] == "set":
            return not_(eq(mk("len", (t,), "int"), ZERO))
        if t.ty[0] == "obj":
            return TRUE
    if t.ty == "str":
        return not_(eq(t, const("")))
    return app("truth", (t,), "bool")


# these are set by seqs.py
def seq_len(t):
    return mk("len", (t,), "int")


def map_len(t):
    return mk("mlen", (t,), "int")


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 14:
        return "..."
    s = lambda x: show(x, depth + 1)
    o, a = t.op, t.args
    if o == "c":
        return repr(a[1]) if not isinstance(a[1], Fraction) else str(a[1])
    if o == "sym":
        return str(a[0]).replace("nat:", "")
    if o == "bv":
        return "x%s" % a[0]
    if o == "unk":
        return "?(%s)" % a[0]
    if o == "poly":
        parts = []
        for m, c in a:
            f = "*".join(s(x) + ("^%d" % e if e > 1 else "") for x, e in m)
            if not f:
                parts.append(str(c))
            elif c == 1:
                parts.append(f)
            else:
                parts.append("%s*%s" % (c, f))
        return "(" + " + ".join(parts) + ")"
    if o == "ite":
        return "[%s ? %s : %s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "lt":
        return "%s<%s" % (s(a[0]), s(a[1]))
    if o == "le":
        return "%s<=%s" % (s(a[0]), s(a[1]))
    if o == "comp":
        return "[%s for %s if %s]" % (s(a[3]), ", ".join("%s in %s" % (s(b), s(g)) for b, g in zip(a[0], a[1])), s(a[2]))
    if o == "mc":
        return "{%s: %s for %s if %s}" % (
            s(a[3]), s(a[4]), ", ".join("%s in %s" % (s(b), s(g)) for b, g in zip(a[0], a[1])), s(a[2]))
    if o == "map":
        return "map(%s + %s)" % (s(a[0]) if a[0] is not None else "{}", " + ".join(s(c) for c in a[1]))
    if o == "tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))

    def r(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(r(y) for y in x) + ")"
        return str(x)

    return "%s(%s)" % (o, ", ".join(r(x) for x in a))
