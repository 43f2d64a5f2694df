"""Meaning of value-graph terms under a valuation of their free symbols.

Used to interpret *terms extracted from the source*: when a summary and the specification have different normal forms,
an alarm is raised only with a valuation on which the two terms denote different values.
"""
import hashlib
import random
import re as _re
from bisect import bisect_right
from math import isqrt
from fractions import Fraction
from itertools import product as _product, accumulate
from . import terms as tm
from .terms import T, sym


class Err(Exception):
    """the term has no value under this valuation (the code would have raised)"""


class Unknown(Exception):
    """the term contains something that was not analysed"""


class Tok(tuple):
    """opaque value"""
    __slots__ = ()

    def __repr__(self):
        return "<%s>" % ",".join(str(x) for x in self)


class Out(tuple):
    """probability outcome: (value, constraint set)"""
    __slots__ = ()

    def __repr__(self):
        return "outcome(%r%s)" % (self[0], "" if self[1] == CS0 else ", %r" % (self[1],))


class CS(tuple):
    """normalised constraint set: (possible?, frozenset of (name, values), frozenset of opaque constraints)"""
    __slots__ = ()

    def __repr__(self):
        if not self[0]:
            return "impossible"
        return "{%s}" % ", ".join(["%s in %s" % (n, sorted(v, key=key)) for n, v in sorted(self[1], key=lambda z: key(z[0]))] +
                                  [repr(x) for x in self[2]])


CS0 = CS((True, frozenset(), frozenset()))
CSX = CS((False, frozenset(), frozenset()))


class FDict(dict):
    pass


def mk_cs(parts):
    d, o = {}, set()
    for p in parts:
        if isinstance(p, CS):
            if not p[0]:
                return CSX
            for n, v in p[1]:
                d[n] = d[n] & v if n in d else v
            o |= p[2]
        elif isinstance(p, Tok) and p[0] == "varc":
            d[p[1]] = d[p[1]] & p[2] if p[1] in d else p[2]
        elif isinstance(p, Tok) and p[0] == "nullc":
            pass
        elif isinstance(p, Tok) and p[0] == "impossc":
            return CSX
        else:
            o.add(canon(p))
    if any(not v for v in d.values()):
        return CSX
    return CS((True, frozenset(d.items()), frozenset(o)))


def key(v):
    """total order on values"""
    if v is None:
        return (0, 0)
    if isinstance(v, (int, Fraction, float)):
        return (1, v)
    if isinstance(v, str):
        return (2, v)
    if isinstance(v, Out):
        return (3, key(v[0]), repr(sorted(map(key, v[1][1]))), repr(v[1][2]), v[1][0])
    if isinstance(v, (tuple, list)):
        return (4, type(v).__name__, tuple(key(x) for x in v))
    if isinstance(v, frozenset):
        return (5, tuple(sorted((key(x) for x in v))))
    if isinstance(v, dict):
        return (6, tuple(sorted((key(a), key(b)) for a, b in v.items())))
    return (9, repr(v))


def canon(v):
    """hashable canonical form"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, dict):
        return Tok(("map",) + tuple(sorted(((canon(a), canon(b)) for a, b in v.items()), key=key)))
    if isinstance(v, (Tok, Out, CS)):
        return type(v)(canon(x) if not isinstance(x, frozenset) else frozenset(canon(y) for y in x) for x in v)
    if isinstance(v, (tuple, list)):
        return tuple(canon(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return frozenset(canon(x) for x in v)
    return v


def digest(*xs):
    return int.from_bytes(hashlib.md5(repr(tuple(key(canon(x)) for x in xs)).encode()).digest()[:8], "big")


BUDGET = 150000
NAMES = ["a", "b", "c", "x_y", "_q"]


class Env:
    """a valuation: every symbol and every unknown function gets a value determined by the seed"""

    def __init__(self, seed, over=None, hooks=None, plain=False, consts=()):
        self.seed = seed
        self.consts = tuple(consts)  # integers the terms compare with: values around them are tried as well
        self.over = over or {}
        self.hooks = hooks or {}
        self.used = {}
        self.plain = plain
        self.budget = BUDGET
        self.wide = 0
        big = [c for c in self.consts if 130 < c <= 50000]
        if big and self.rng("wide").random() < 0.12:  # tables whose combination has about as many pairs as the code compares with
            self.wide = isqrt(self.rng("wide", 1).choice(big)) + 1
            self.budget = 20 * BUDGET

    def rng(self, *k):
        return random.Random(digest(self.seed, *k))

    oracle = None

    def pick(self, n, ks, ws, tot):
        if self.oracle is not None:
            return self.oracle.pick(n, ks, ws, tot)
        return ks[min(bisect_right(list(accumulate(ws)), self.u(n) * tot), len(ks) - 1)]

    def u(self, n):
        if self.oracle is not None:
            raise Unknown("continuous random number")
        return Fraction(self.rng("u", n).randrange(9973), 9973)

    def gen(self, ty, r, name=""):
        if ty == "int":
            if name.startswith("nat:"):
                return self.near(r, r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]), 0)
            return self.near(r, r.choice([-7, -3, -2, -1, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 11, 13, 40]))
        if ty == "bool":
            return r.random() < 0.5
        if ty == "num":
            return Fraction(r.choice([-3, -1, 0, 1, 2, 5]), r.choice([1, 1, 2, 3]))
        if ty == "str":
            return r.choice(NAMES) if not name.startswith("text") else "<%s>" % name
        if ty == "none":
            return None
        if ty == "cs":
            return self.gen_cs(r)
        if ty == "outcome":
            return Out((self.gen("int", r), self.gen_cs(r)))
        if ty == "constraint":
            return Tok(("varc", r.choice(NAMES[:2]), frozenset(r.sample(range(0, 4), r.randrange(1, 3)))))
        if isinstance(ty, tuple):
            if ty[0] == "obj":
                return Tok(("obj", name or str(digest(r.random()))))
            if ty[0] == "seq":
                return tuple(self.gen(ty[1], r, "%s[%d]" % (name, j)) for j in range(self.size(r) or r.choice([0, 1, 2, 2, 3])))
            big = self.size(r) if ty[0] in ("set", "map") and ty[1] == "int" else 0
            if big and ty[0] == "set":
                return frozenset(r.sample(range(-big, big + 1), big))
            if big:
                return {k: self.gen(ty[2], r) for k in r.sample(range(-big, big + 1), big)}
            if ty[0] == "set":
                return frozenset(canon(self.gen(ty[1], r)) for j in range(r.choice([0, 1, 2, 2, 3])))
            if ty[0] == "map":
                if ty[1] == "outcome":
                    return self.gen_dist(r)
                return {canon(self.gen(ty[1], r)): self.gen(ty[2], r) for j in range(r.choice([0, 1, 2, 3]))}
        return Tok(("v", name, r.randrange(1000)))

    def size(self, r):
        """now and then a collection of about as many elements as the code compares with"""
        if self.consts and r.random() < 0.15:
            return min(130, max(0, r.choice(self.consts) + r.choice([0, 1])))
        return 0

    def near(self, r, v, low=None):
        if self.consts and r.random() < 0.4:
            c = r.choice(self.consts) + r.choice([-1, 0, 0, 1, 1, 3])
            if low is None or c >= low:
                return c
        return v

    def gen_cs(self, r):
        if self.plain:
            return CS0
        k = r.random()
        if k < 0.35:
            return CS0
        d = {}
        for n in ("p", "q"):
            if r.random() < 0.6:
                d[n] = frozenset(r.sample(range(0, 3), 1))
        return CS((True, frozenset(d.items()), frozenset()))

    def gen_dist(self, r):
        d = {}
        n = r.choice([1, 2, 2, 3, 3])
        if self.consts and r.random() < 0.15:
            n = min(130, max(1, r.choice(self.consts) + 1))
        if self.wide:
            n = self.wide
        if n > 8:  # many different values
            for v in r.sample(range(-n, n + 1), n):
                d[Out((v, self.gen_cs(r) if n < 20 else CS0))] = r.choice([1, 1, 2, 3])
            return d
        for _ in range(n):
            d[Out((self.near(r, r.choice([-3, -2, -1, -1, 0, 0, 1, 1, 2, 2, 3, 4, 6, 9])), self.gen_cs(r)))] = self.near(r, r.choice([1, 1, 2, 3, 5]), 1)
        if not self.plain and r.random() < 0.3:  # same value, two histories
            o = r.choice(sorted(d, key=key))
            d[Out((o[0], self.gen_cs(r)))] = r.choice([1, 2, 4])
        return d

    def symval(self, t):
        if t.args[0].startswith(("?", "raises:")):
            raise Unknown("condition %s" % t.args[0])
        v = self.over.get(t)
        if v is None:
            v = self.over.get(t.args[0])
        if v is None:
            v = self.gen(t.ty, self.rng("sym", t.args[0]), t.args[0])
        self.used[t.args[0]] = v
        return v


def constants_of(ts):
    """integers that occur in terms"""
    out = set()
    seen = set()
    for t in ts:
        for x in tm.walk(t, seen):
            if x.op == "c" and type(x.args[1]) is int and 2 <= abs(x.args[1]) <= 10 ** 7:
                out.add(x.args[1])
            elif x.op == "c" and isinstance(x.args[1], float) and x.args[1] == int(x.args[1]):
                out.add(int(x.args[1]))
    return sorted(out)


def truthy(v):
    if isinstance(v, Tok):
        if v[0] == "map":
            return len(v) > 1
        return True
    if isinstance(v, (Out, CS)):
        return True
    return bool(v)


def ev(t, env, b=None, memo=None):
    """value of term t"""
    if memo is None:
        memo = {}
    return _ev(t, env, b or {}, memo)


def _ev(t, env, b, memo):
    op = t.op
    if op == "c":
        k, v = t.args
        if k == "float":
            return float(v)
        if k == "ellipsis":
            return Tok(("...",))
        return v
    if op == "bv":
        if t in b:
            return b[t]
        raise Unknown("open variable")
    if op == "sym":
        return env.symval(t)
    f = tm.fv(t)
    if not f:
        r = memo.get(t)
        if r is not None:
            if r[0] == 0:
                return r[1]
            raise r[1]
        try:
            v = EV[op](t, env, b, memo) if op in EV else _miss(op)
        except (Err, Unknown) as e:
            memo[t] = (1, e)
            raise
        memo[t] = (0, v)
        return v
    env.budget -= 1
    if env.budget < 0:
        raise Unknown("budget")
    if op not in EV:
        _miss(op)
    return EV[op](t, env, b, memo)


def _miss(op):
    raise Unknown("term %s" % op)


EV = {}


def rule(*names):
    def d(f):
        for n in names:
            EV[n] = f
        return f
    return d


def numv(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction, float)):
        return v
    raise Err("not a number: %r" % (v,))


def arbitrary(v):
    """some order of a set: nothing may depend on it"""
    xs = sorted(v, key=key)
    if len(xs) > 1:
        random.Random(len(xs) * 31 + sum(x for x in xs if isinstance(x, int))).shuffle(xs)
    return tuple(xs)


def seqv(v):
    if isinstance(v, Tok) and v[0] != "map":
        raise Unknown("iteration over %r" % (v,))
    if isinstance(v, (Out, CS)):
        raise Err("not iterable")
    if isinstance(v, dict):
        return tuple(v)  # insertion order
    if isinstance(v, (set, frozenset)):
        return arbitrary(v)
    if isinstance(v, str):
        return tuple(v)
    if isinstance(v, (tuple, list)):
        return tuple(v)
    raise Err("not iterable: %r" % (v,))


def mapv(v):
    if isinstance(v, dict):
        return v
    raise Err("not a map: %r" % (v,))


@rule("unk")
def _(t, env, b, memo):
    raise Unknown(t.args[0])


@rule("undef")
def _(t, env, b, memo):
    raise Err("undefined")


@rule("ite")
def _(t, env, b, memo):
    return _ev(t.args[1] if truthy(_ev(t.args[0], env, b, memo)) else t.args[2], env, b, memo)


@rule("poly")
def _(t, env, b, memo):
    r = 0
    for m, c in t.args:
        x = c
        for a, e in m:
            v = _ev(a, env, b, memo)
            if isinstance(v, Tok):
                raise Unknown("arithmetic on %r" % (v,))
            x = x * numv(v) ** e
        r += x
    if isinstance(r, Fraction) and r.denominator == 1:
        r = int(r)
    return r


@rule("lt")
def _(t, env, b, memo):
    return numv(_ev(t.args[0], env, b, memo)) < numv(_ev(t.args[1], env, b, memo))


@rule("le")
def _(t, env, b, memo):
    return numv(_ev(t.args[0], env, b, memo)) <= numv(_ev(t.args[1], env, b, memo))


@rule("ltx")
def _(t, env, b, memo):
    x, y = _ev(t.args[0], env, b, memo), _ev(t.args[1], env, b, memo)
    try:
        return x < y
    except TypeError:
        return key(x) < key(y)


@rule("eq")
def _(t, env, b, memo):
    return canon(_ev(t.args[0], env, b, memo)) == canon(_ev(t.args[1], env, b, memo))


@rule("inv")
def _(t, env, b, memo):
    v = numv(_ev(t.args[0], env, b, memo))
    if v == 0:
        raise Err("division by zero")
    return 1 / Fraction(v) if not isinstance(v, float) else 1 / v


@rule("fdiv")
def _(t, env, b, memo):
    x, y = numv(_ev(t.args[0], env, b, memo)), numv(_ev(t.args[1], env, b, memo))
    if y == 0:
        raise Err("division by zero")
    return x // y


@rule("mod")
def _(t, env, b, memo):
    if len(t.args) == 1:  # a module
        return Tok(("mod", str(t.args[0])))
    x, y = numv(_ev(t.args[0], env, b, memo)), numv(_ev(t.args[1], env, b, memo))
    if y == 0:
        raise Err("division by zero")
    return x % y


@rule("floor")
def _(t, env, b, memo):
    return numv(_ev(t.args[0], env, b, memo)) // 1


@rule("pow")
def _(t, env, b, memo):
    x, y = numv(_ev(t.args[0], env, b, memo)), numv(_ev(t.args[1], env, b, memo))
    if x == 0 and y < 0:
        raise Err("zero to a negative power")
    if abs(y) > 64:
        raise Unknown("power")
    return Fraction(x) ** y if y < 0 else x ** y


@rule("tup")
def _(t, env, b, memo):
    return tuple(_ev(a, env, b, memo) for a in t.args)


def _gens(bvs, gens, cond, env, b, memo, i=0):
    if i == len(bvs):
        if cond is None or truthy(_ev(cond, env, b, memo)):
            yield b
        return
    for x in seqv(_ev(gens[i], env, b, memo)):
        b2 = dict(b)
        b2[bvs[i]] = x
        yield from _gens(bvs, gens, cond, env, b2, memo, i + 1)


@rule("comp")
def _(t, env, b, memo):
    bvs, gens, cond, elt = t.args
    return tuple(_ev(elt, env, b2, memo) for b2 in _gens(bvs, gens, cond, env, b, memo))


@rule("map")
def _(t, env, b, memo):
    base, comps = t.args
    d = dict(mapv(_ev(base, env, b, memo))) if base is not None else {}
    for c in comps:
        bvs, gens, cond, k, v = c.args
        for b2 in _gens(bvs, gens, cond, env, b, memo):
            kk, vv = canon(_ev(k, env, b2, memo)), _ev(v, env, b2, memo)
            if kk in d and isinstance(vv, (int, Fraction)) and isinstance(d[kk], (int, Fraction)):
                d[kk] = d[kk] + vv
            else:
                d[kk] = vv
    return d


@rule("mput")
def _(t, env, b, memo):
    d = dict(mapv(_ev(t.args[0], env, b, memo)))
    d[canon(_ev(t.args[1], env, b, memo))] = _ev(t.args[2], env, b, memo)
    return d


@rule("mdel")
def _(t, env, b, memo):
    d = dict(mapv(_ev(t.args[0], env, b, memo)))
    d.pop(canon(_ev(t.args[1], env, b, memo)), None)
    return d


@rule("mupd")
def _(t, env, b, memo):
    d = dict(mapv(_ev(t.args[0], env, b, memo)))
    d.update(mapv(_ev(t.args[1], env, b, memo)))
    return d


@rule("mputs")
def _(t, env, b, memo):
    d = dict(mapv(_ev(t.args[0], env, b, memo)))
    for p in seqv(_ev(t.args[1], env, b, memo)):
        d[canon(p[0])] = p[1]
    return d


@rule("mpairs")
def _(t, env, b, memo):
    d = {}
    for p in seqv(_ev(t.args[0], env, b, memo)):
        if len(p) != 2:
            raise Err("pair")
        d[canon(p[0])] = p[1]
    return d


@rule("mget")
def _(t, env, b, memo):
    d = mapv(_ev(t.args[0], env, b, memo))
    k = canon(_ev(t.args[1], env, b, memo))
    if k not in d:
        raise Err("KeyError")
    return d[k]


@rule("mget0")
def _(t, env, b, memo):
    return mapv(_ev(t.args[0], env, b, memo)).get(canon(_ev(t.args[1], env, b, memo)), 0)


@rule("mlen", "len")
def _(t, env, b, memo):
    v = _ev(t.args[0], env, b, memo)
    if isinstance(v, dict):
        return len(v)
    return len(seqv(v))


@rule("in")
def _(t, env, b, memo):
    k, v = _ev(t.args[0], env, b, memo), _ev(t.args[1], env, b, memo)
    if isinstance(v, str):
        return k in v
    if isinstance(v, dict):
        return canon(k) in v
    return canon(k) in {canon(x) for x in seqv(v)}


@rule("keys", "elems", "iterate")
def _(t, env, b, memo):
    return seqv(_ev(t.args[0], env, b, memo))


@rule("cat")
def _(t, env, b, memo):
    r = ()
    for a in t.args:
        r += seqv(_ev(a, env, b, memo))
    return r


@rule("range")
def _(t, env, b, memo):
    x, y = numv(_ev(t.args[0], env, b, memo)), numv(_ev(t.args[1], env, b, memo))
    if y - x > 4000:
        raise Unknown("long range")
    return tuple(range(int(x), int(y)))


@rule("sorted")
def _(t, env, b, memo):
    return tuple(sorted(seqv(_ev(t.args[0], env, b, memo)), key=key, reverse=truthy(_ev(t.args[1], env, b, memo))))


@rule("sortedby")
def _(t, env, b, memo):
    ks = seqv(_ev(t.args[0], env, b, memo))
    xs = seqv(_ev(t.args[1], env, b, memo))
    r = t.args[2]
    rv = truthy(_ev(r, env, b, memo)) if isinstance(r, T) else bool(r)
    idx = sorted(range(len(xs)), key=lambda j: key(ks[j]), reverse=rv)
    return tuple(xs[j] for j in idx)


@rule("rev")
def _(t, env, b, memo):
    return tuple(reversed(seqv(_ev(t.args[0], env, b, memo))))


@rule("idx")
def _(t, env, b, memo):
    v, j = _ev(t.args[0], env, b, memo), _ev(t.args[1], env, b, memo)
    if isinstance(v, dict):
        if canon(j) not in v:
            raise Err("KeyError")
        return v[canon(j)]
    s = v if isinstance(v, str) else seqv(v)
    if not isinstance(j, int) or not -len(s) <= j < len(s):
        raise Err("index")
    return s[j]


@rule("slice")
def _(t, env, b, memo):
    v = _ev(t.args[0], env, b, memo)
    s = v if isinstance(v, str) else seqv(v)
    return s[_ev(t.args[1], env, b, memo):_ev(t.args[2], env, b, memo)]


@rule("sl")
def _(t, env, b, memo):
    v = _ev(t.args[0], env, b, memo)
    s = v if isinstance(v, str) else seqv(v)
    return s[max(0, _ev(t.args[1], env, b, memo)):max(0, _ev(t.args[2], env, b, memo))]


@rule("zip")
def _(t, env, b, memo):
    return tuple(zip(*[seqv(_ev(a, env, b, memo)) for a in t.args]))


@rule("enum")
def _(t, env, b, memo):
    return tuple(enumerate(seqv(_ev(t.args[0], env, b, memo)), _ev(t.args[1], env, b, memo)))


@rule("sum")
def _(t, env, b, memo):
    r = 0
    for x in seqv(_ev(t.args[0], env, b, memo)):
        r += numv(x)
    return r


@rule("smin", "smax")
def _(t, env, b, memo):
    s = seqv(_ev(t.args[0], env, b, memo))
    if not s:
        raise Err("extreme of nothing")
    return (min if t.op == "smin" else max)(s, key=key)


@rule("exists")
def _(t, env, b, memo):
    return any(truthy(x) for x in seqv(_ev(t.args[0], env, b, memo)))


@rule("sset")
def _(t, env, b, memo):
    return frozenset(canon(_ev(a, env, b, memo)) for a in t.args)


@rule("setof")
def _(t, env, b, memo):
    return frozenset(canon(x) for x in seqv(_ev(t.args[0], env, b, memo)))


@rule("sunion")
def _(t, env, b, memo):
    r = frozenset()
    for a in t.args:
        r |= frozenset(canon(x) for x in seqv(_ev(a, env, b, memo)))
    return r


@rule("sinter")
def _(t, env, b, memo):
    xs = [frozenset(canon(x) for x in seqv(_ev(a, env, b, memo))) for a in t.args]
    return frozenset.intersection(*xs)


@rule("sdiff")
def _(t, env, b, memo):
    x, y = [frozenset(canon(x) for x in seqv(_ev(a, env, b, memo))) for a in t.args]
    return x - y


# ---------------------------------------------------------------- outcomes and constraints
@rule("varc")
def _(t, env, b, memo):
    return Tok(("varc", canon(_ev(t.args[0], env, b, memo)), frozenset(canon(x) for x in seqv(_ev(t.args[1], env, b, memo)))))


@rule("nullc")
def _(t, env, b, memo):
    return Tok(("nullc",))


@rule("impossc")
def _(t, env, b, memo):
    return Tok(("impossc",))


@rule("opqc")
def _(t, env, b, memo):
    return Tok(("opqc", canon(_ev(t.args[0], env, b, memo))))


@rule("cs")
def _(t, env, b, memo):
    return mk_cs([_ev(a, env, b, memo) for a in t.args])


@rule("possible")
def _(t, env, b, memo):
    v = _ev(t.args[0], env, b, memo)
    if isinstance(v, CS):
        return v[0]
    return digest("possible", v, env.seed) % 3 > 0


@rule("outcome")
def _(t, env, b, memo):
    return Out((canon(_ev(t.args[0], env, b, memo)), _ev(t.args[1], env, b, memo)))


# ---------------------------------------------------------------- loops
@rule("fold")
def _(t, env, b, memo):
    nb, s, inits, bodies = t.args
    cur = [Tok(("undef",)) if x.op == "undef" else _ev(x, env, b, memo) for x in inits]
    for x in seqv(_ev(s, env, b, memo)):
        b2 = dict(b)
        b2[nb[0]] = x
        for v, c in zip(nb[1:], cur):
            b2[v] = c
        env.budget -= 1
        if env.budget < 0:
            raise Unknown("budget")
        cur = [_ev(y, env, b2, memo) for y in bodies]
    return tuple(cur)


@rule("whl")
def _(t, env, b, memo):
    nb, inits, cond, bodies = t.args
    cur = [Tok(("undef",)) if x.op == "undef" else _ev(x, env, b, memo) for x in inits]
    for _ in range(3000):
        b2 = dict(b)
        for v, c in zip(nb, cur):
            b2[v] = c
        if not truthy(_ev(cond, env, b2, memo)):
            return tuple(cur)
        env.budget -= 1
        if env.budget < 0:
            raise Unknown("budget")
        cur = [_ev(y, env, b2, memo) for y in bodies]
    raise Err("does not terminate")


@rule("first")
def _(t, env, b, memo):
    nb, s, c, v, d = t.args
    for x in seqv(_ev(s, env, b, memo)):
        b2 = dict(b)
        b2[nb[0]] = x
        if truthy(_ev(c, env, b2, memo)):
            return _ev(v, env, b2, memo)
    return _ev(d, env, b, memo)


@rule("proj")
def _(t, env, b, memo):
    v = _ev(t.args[1], env, b, memo)
    return v[t.args[0]]


# ---------------------------------------------------------------- strings
def text(v):
    if isinstance(v, str):
        return v
    if isinstance(v, bool) or v is None or isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        return str(int(v)) if v.denominator == 1 else repr(float(v))
    return "\u00ab%r\u00bb" % (canon(v),)


@rule("istr")
def _(t, env, b, memo):
    return text(_ev(t.args[0], env, b, memo))


@rule("rope")
def _(t, env, b, memo):
    return "".join(text(_ev(a, env, b, memo)) for a in t.args)


@rule("enc")
def _(t, env, b, memo):
    return text(_ev(t.args[0], env, b, memo)).join(text(x) for x in seqv(_ev(t.args[1], env, b, memo)))


@rule("relen")
def _(t, env, b, memo):
    return len(_ev(t.args[1], env, b, memo))


# ---------------------------------------------------------------- randomness
@rule("draws")
def _(t, env, b, memo):
    w = mapv(_ev(t.args[0], env, b, memo))
    k = numv(_ev(t.args[1], env, b, memo))
    occ = _ev(t.args[2], env, b, memo)
    if k <= 0:
        return ()
    ks = sorted(w, key=key)
    ws = [numv(w[x]) for x in ks]
    tot = sum(ws)
    if not ks or tot <= 0 or any(x < 0 for x in ws):
        raise Err("no draw possible")
    return tuple(env.pick(occ + j if isinstance(occ, int) else (occ, j), ks, ws, tot) for j in range(int(k)))


class Need(Exception):
    def __init__(self, n):
        self.n = n


class Oracle:
    """fixed answers of the first draws"""
    def __init__(self, path):
        self.path, self.at, self.p, self.forced = path, {}, Fraction(1), 0

    def pick(self, n, ks, ws, tot):
        if n in self.at:
            return self.at[n]
        m = len(self.at) - self.forced
        js = [j for j, w in enumerate(ws) if w > 0]
        if len(js) == 1:
            self.forced += 1
            self.at[n] = ks[js[0]]
            return ks[js[0]]
        if m >= len(self.path):
            raise Need(js)
        j = self.path[m]
        self.at[n] = ks[j]
        self.p *= Fraction(ws[j]) / tot
        return ks[j]


def law(f, env, limit=3000):
    """exact law of f(env) over all random draws"""
    out = {}
    todo = [()]
    steps = 0
    try:
        while todo:
            steps += 1
            path = todo.pop()
            if steps > limit or len(path) > 30:
                raise Unknown("budget")
            env.oracle = Oracle(path)
            try:
                v = f(env)
            except Need as nd:
                todo.extend(path + (j,) for j in nd.n)
                continue
            out[v] = out.get(v, 0) + env.oracle.p
    finally:
        env.oracle = None
    return Tok(("law",) + tuple(sorted(out.items(), key=lambda kv: key(kv[0]))))


# ---------------------------------------------------------------- objects and unknown functions
@rule("ref", "cls", "fn", "bi", "ext")
def _(t, env, b, memo):
    return Tok((t.op,) + tuple(str(a) for a in t.args))


@rule("om")
def _(t, env, b, memo):
    v = _ev(t.args[1], env, b, memo) if isinstance(t.args[1], T) else t.args[1]
    c = canon(v)
    if isinstance(c, Tok) and c and c[0] == "inst":
        for f in c[2:]:
            if f[0] == t.args[0]:
                return f[1]
        raise Unknown("attribute %s of a value" % t.args[0])
    return Tok(("om", str(t.args[0]), c))


@rule("bm", "partial", "star", "static", "clsm", "prop")
def _(t, env, b, memo):
    return Tok((t.op,) + tuple(canon(_ev(a, env, b, memo)) if isinstance(a, T) else str(a) for a in t.args))


@rule("obj")
def _(t, env, b, memo):
    from .interp import CLASSES
    return Tok(("inst", CLASSES[t.args[0]].name) + tuple((n, canon(_ev(v, env, b, memo))) for n, k, v in t.args[1]))


STR_OK = {"split", "rsplit", "splitlines", "partition", "rpartition", "startswith", "endswith", "isdigit", "count", "find",
          "index", "isupper", "islower", "isalpha", "isspace", "isidentifier", "strip", "lstrip", "rstrip", "upper", "lower",
          "replace", "removeprefix", "removesuffix", "zfill", "title", "capitalize", "isnumeric", "isdecimal", "isalnum",
          "rfind", "rindex", "center", "ljust", "rjust"}


def dist_of(e, env):
    k = canon(e)
    ov = env.over.get(("distmap", k))
    if ov is not None:
        return ov
    return env.gen_dist(env.rng("distmap", k))


@rule("app")
def _(t, env, b, memo):
    name = t.args[0]
    args = [_ev(a, env, b, memo) if isinstance(a, T) else a for a in t.args[1:]]
    h = env.hooks.get(name)
    if h is not None:
        return h(env, *args)
    f = APP.get(name)
    if f is not None:
        return f(env, *args)
    if name.startswith("str.") and args and isinstance(args[0], str):
        m = name[4:]
        if m == "join":
            try:
                return args[0].join(seqv(args[1]))
            except TypeError:
                raise Err("join")
        if m == "in":
            return args[0] in args[1] if isinstance(args[1], str) else _u(t, env, args)
        if m == "char":
            if not -len(args[0]) <= args[1] < len(args[0]):
                raise Err("index")
            return args[0][args[1]]
        if m == "slice":
            return args[0][args[1]:args[2]:args[3]]
        if m == "repeat":
            return args[0] * args[1]
        if m in STR_OK:
            try:
                r = getattr(args[0], m)(*[tuple(a) if isinstance(a, list) else a for a in args[1:]])
            except (ValueError, TypeError):
                raise Err("str." + m)
            return tuple(r) if isinstance(r, list) else r
    if name.startswith("re.") and all(isinstance(a, str) for a in args[:2]):
        m = name[3:]
        try:
            if m in ("match", "search", "fullmatch"):
                return getattr(_re, m)(args[0], args[1]) is not None
            if m == "split":
                return tuple(_re.split(args[0], args[1]))
            if m == "findall":
                return tuple(_re.findall(args[0], args[1]))
            if m == "sub" and isinstance(args[2], str):
                return _re.sub(args[0], args[1], args[2])
        except _re.error:
            raise Err("regex")
    return _u(t, env, args)


def _u(t, env, args):
    """an uninterpreted function"""
    if any(isinstance(a, float) for a in args):
        args = [repr(a) if isinstance(a, float) else a for a in args]
    nm = t.args[0]
    if t.ty == "str":
        return "<%s %x>" % (nm, digest(env.seed, nm, *args))
    return env.gen(t.ty, env.rng("app", nm, *args), "%s(%s)" % (nm, ",".join(short(a) for a in args)))


def short(v, n=60):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def _hash(v):
    if isinstance(v, int):
        return -2 if v == -1 else int(v)
    if type(v) is tuple:
        return digest("hash", tuple(_hash(x) for x in v))
    if isinstance(v, frozenset):
        return digest("hash", frozenset(_hash(x) for x in v))
    return digest("hash", v)


def _value(env, o):
    if isinstance(o, Out):
        return o[0]
    raise Unknown("value of %r" % (o,))


def _csof(env, o):
    if isinstance(o, Out):
        return o[1]
    raise Unknown("constraints of %r" % (o,))


def _ext(env, e, big):
    d = dist_of(e, env)
    return (max if big else min)(o[0] for o in d)


def _sample(env, pop, k, n):
    rest, out = list(seqv(pop)), []
    k = numv(k)
    if k > len(rest):
        raise Err("sample larger than population")
    for j in range(int(k)):
        i = env.pick(("sample", n, j) if j else n, list(range(len(rest))), [1] * len(rest), len(rest))
        out.append(rest.pop(i))
    return tuple(out)


def _roll(env, e, n):
    d = dist_of(e, env)
    vs = sorted({o[0] for o in d})
    return env.rng("roll", e, n).choice(vs)


def _int(env, v):
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise Err("int(%r)" % v)
    if isinstance(v, (int, Fraction, float)):
        return int(v)
    raise Err("int")


def _float(env, v):
    if isinstance(v, str):
        try:
            return Fraction(v)
        except ValueError:
            raise Err("float(%r)" % v)
    return numv(v)


def _cumweights(env, pop, cum):
    d, last = {}, 0
    for p, c in zip(seqv(pop), seqv(cum)):
        d[canon(p)] = d.get(canon(p), 0) + c - last
        last = c
    return d


def _range3(env, a, b, c=1):
    if c == 0:
        raise Err("range")
    r = range(a, b, c)
    if len(r) > 4000:
        raise Unknown("long range")
    return tuple(r)


def _slice3(env, s, a, b, st):
    s = s if isinstance(s, str) else seqv(s)
    if st == 0:
        raise Err("slice")
    return s[a:b:st]


def _product(env, s, r):
    from itertools import product
    s = seqv(s)
    if len(s) ** max(r, 0) > 5000:
        raise Unknown("product")
    if r < 0:
        raise Err("repeat")
    return tuple(product(s, repeat=r))


def _choose(name):
    def f(env, s, r):
        import itertools
        s = seqv(s)
        if len(s) > 9:
            raise Unknown(name)
        g = getattr(itertools, name)
        return tuple(g(s, r) if r is not None else g(s))
    return f


def _elements(env, m):
    out = ()
    for k in sorted(m, key=key):
        out += (k,) * max(0, m[k])
    return out


def _lremove(env, s, x):
    s = list(seqv(s))
    for j, y in enumerate(s):
        if canon(y) == canon(x):
            del s[j]
            return tuple(s)
    raise Err("remove")


def _lindex(env, s, x):
    for j, y in enumerate(seqv(s)):
        if canon(y) == canon(x):
            return j
    raise Err("index")


def _lset(env, s, j, x):
    s = list(seqv(s))
    if not -len(s) <= j < len(s):
        raise Err("index")
    s[j] = x
    return tuple(s)


def _rnd(env, v, n=0):
    return round(Fraction(v), int(n)) if n else round(Fraction(v))


def _bits(f):
    def g(env, *xs):
        r = int(xs[0])
        for x in xs[1:]:
            r = f(r, int(x))
        return r
    return g


def _mathf(name):
    import math

    def f(env, *xs):
        if name in ("ceil", "floor", "trunc"):
            return getattr(math, name)(xs[0])
        if name in ("comb", "perm", "factorial", "gcd"):
            try:
                return getattr(math, name)(*[int(x) for x in xs])
            except ValueError:
                raise Err(name)
        if name == "prod":
            r = 1
            for x in seqv(xs[0]):
                r *= x
            return r
        if name == "fsum":
            return sum(seqv(xs[0]))
        if name == "copysign":
            return abs(xs[0]) if xs[1] >= 0 else -abs(xs[0])
        if name == "fabs":
            return abs(xs[0])
        if name in ("isnan", "isinf"):
            return False
        if name == "isfinite":
            return True
        raise Unknown("math." + name)
    return f


def _isinst(env, v, n):
    table = {"int": int, "str": str, "bool": bool, "float": (Fraction, float), "tuple": tuple, "list": tuple, "dict": dict,
             "set": frozenset, "frozenset": frozenset}
    if n in table and not isinstance(v, (Tok, Out, CS)):
        return isinstance(v, table[n])
    if isinstance(v, Out):
        return n in ("ProbabilityOutcome", "IProbabilityOutcome", "object")
    if isinstance(v, CS):
        return n in ("ConstraintSet", "IConstraintSet", "object")
    if n not in table and not isinstance(v, Tok):
        return n == "object"
    return digest("isinstance", v, n, env.seed) % 2 == 0


def _plus(env, x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x + y
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        return x + y
    return "%s%s" % (text(x), text(y))


def _genop(name):
    import operator

    def f(env, x, y):
        fn = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "FloorDiv": operator.floordiv,
              "Mod": operator.mod, "Pow": operator.pow, "Div": lambda p, q: Fraction(p) / q, "LShift": operator.lshift,
              "RShift": operator.rshift, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor}.get(name)
        if fn is None or isinstance(x, Tok) or isinstance(y, Tok):
            raise Unknown("operator " + name)
        try:
            return fn(x, y)
        except (TypeError, ValueError, ZeroDivisionError):
            raise Err(name)
    return f


def _gencmp(name):
    def f(env, x, y):
        kx, ky = key(canon(x)), key(canon(y))
        return {"Lt": kx < ky, "LtE": kx <= ky, "Gt": kx > ky, "GtE": kx >= ky}[name]
    return f


APP = {
    "value": _value, "csof": _csof, "distmap": lambda env, e: dist_of(e, env),
    "m:max": lambda env, e, *h: _ext(env, e, True), "m:min": lambda env, e, *h: _ext(env, e, False),
    "m:estimated_cost": lambda env, e, *h: env.rng("cost", e).choice([0, 1, 2, 3, 5, 7, 10, 11, 19, 20, 30]),
    "m:__str__": lambda env, e, *h: "\u2039%s\u203a" % short(e),
    "roll": _roll, "int": _int, "float": _float, "cumweights": _cumweights, "range3": _range3, "slice3": _slice3,
    "product": _product, "elements": _elements, "lremove": _lremove, "lindex": _lindex, "lset": _lset, "round": _rnd,
    "BitAnd": _bits(lambda x, y: x & y), "BitOr": _bits(lambda x, y: x | y), "BitXor": _bits(lambda x, y: x ^ y),
    "smax": lambda env, s: _sext(s, max), "smin": lambda env, s: _sext(s, min),
    "isinstance": _isinst, "truth": lambda env, v: truthy(v), "+": _plus, "fstr": lambda env, v: text(v),
    "str": lambda env, v: text(v), "contains": lambda env, k, o: canon(k) in {canon(x) for x in seqv(o)},
    "rng.random": lambda env, n: env.u(n), "rng.sample": lambda env, pop, k, n: _sample(env, pop, k, n), "hash": lambda env, v: _hash(v),
    "repr": lambda env, v: repr(v) if isinstance(v, str) else "<repr %x>" % digest(v),
    "strof": lambda env, *a: "<text %x>" % digest("strof", *a),
    "cs_of_set": lambda env, s: mk_cs(seqv(s)),
    "format": lambda env, v, s: format(v if not isinstance(v, Fraction) else float(v), s) if isinstance(s, str) and not isinstance(v, (Tok, tuple)) else text(v),
}
for _n in ("Add", "Sub", "Mult", "FloorDiv", "Mod", "Pow", "Div", "LShift", "RShift", "BitAnd", "BitOr", "BitXor"):
    APP["op:" + _n] = _genop(_n)
for _n in ("combinations", "combinations_with_replacement", "permutations"):
    APP[_n] = _choose(_n)
for _n in ("Lt", "LtE", "Gt", "GtE"):
    APP["cmp:" + _n] = _gencmp(_n)
for _n in ("ceil", "floor", "trunc", "comb", "perm", "factorial", "gcd", "prod", "fsum", "copysign", "fabs", "isnan",
           "isinf", "isfinite"):
    APP["math." + _n] = _mathf(_n)


def _sext(s, f):
    s = seqv(s)
    if not s:
        raise Err("extreme of nothing")
    return f(s, key=key)
