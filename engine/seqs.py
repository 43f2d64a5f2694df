"""Sequences, additive maps, sets, folds: normalising constructors, substitution."""
from fractions import Fraction
from itertools import permutations
from . import terms as tm
from .terms import (T, mk, const, TRUE, FALSE, NONE, ZERO, ONE, ite, and_, or_, not_, eq, lt, add, sub, mul, truth,
                    lift, fv, height, canon_bv, tup, unk, app, poly_of, mk_poly, is_numty, is_intty, num, is_const,
                    cval, is_num_const, join_ty)

MEMBER = {}  # fresh bound variable -> set of collections it is known to be a member of


def elem_ty(ty):
    if isinstance(ty, tuple) and ty[0] in ("seq", "set"):
        return ty[1]
    if isinstance(ty, tuple) and ty[0] == "map":
        return ty[1]
    return "any"


def val_ty(ty):
    if isinstance(ty, tuple) and ty[0] == "map":
        return ty[2]
    return "any"


def seq_elem_ty(s):
    """type of the elements of a sequence term"""
    if s.op == "tup":
        if not s.args:
            return "bot"
        t = s.args[0].ty
        for a in s.args[1:]:
            t = join_ty(t, a.ty)
        return t
    return elem_ty(s.ty)


# ---------------------------------------------------------------- substitution
_sub_memo = {}


def subst(t, m):
    """replace bound variables (or other terms) per dict m, renormalising"""
    if not m:
        return t
    key = tuple(sorted((k.id, v.id) for k, v in m.items()))
    memo = _sub_memo.setdefault(key, {})
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("c", "sym", "bv", "unk", "ref", "undef"):
        r = t
    else:
        def rec(a):
            if isinstance(a, T):
                return _subst(a, m, memo)
            if isinstance(a, tuple):
                return tuple(rec(x) for x in a)
            return a

        changed = False
        new = []
        for a in t.args:
            b = rec(a)
            if b != a and not (b is a):
                changed = True
            new.append(b)
        r = rebuild(t, tuple(new)) if changed else t
    memo[t] = r
    return r


def rebuild(t, args):
    f = REB.get(t.op)
    if f is None:
        return lift_generic(t.op, args, t.ty)
    return f(t, args)


def lift_generic(op, args, ty):
    return mk(op, args, ty)


# ---------------------------------------------------------------- binder closing
def close(bvs, parts):
    """alpha-canonical names for bvs in parts (nested tuples of terms). returns (newbvs, newparts)"""
    h = 0

    def mx(a):
        nonlocal h
        if isinstance(a, T):
            h = max(h, height(a))
        elif isinstance(a, tuple):
            for x in a:
                mx(x)

    for p in parts:
        mx(p)
    new = [canon_bv(h + 1 + i, b.ty) for i, b in enumerate(bvs)]
    if all(n is b for n, b in zip(new, bvs)):
        return tuple(bvs), parts
    m = {b: n for b, n in zip(bvs, new)}
    # a canonical name may also occur free (it belongs to an enclosing binder still being built): avoid capture
    occurring = set()

    def occ(a):
        if isinstance(a, T):
            occurring.update(fv(a))
        elif isinstance(a, tuple):
            for x in a:
                occ(x)

    for p in parts:
        occ(p)
    bset = set(bvs)
    i = h + 1
    new = []
    for b in bvs:
        while canon_bv(i, b.ty) in occurring and canon_bv(i, b.ty) not in bset:
            i += 1
        new.append(canon_bv(i, b.ty))
        i += 1
    m = {b: n for b, n in zip(bvs, new)}

    def rn(a):
        if isinstance(a, T):
            return subst(a, m)
        if isinstance(a, tuple):
            return tuple(rn(x) for x in a)
        return a

    return tuple(new), rn(parts)


def open_(bvs, parts):
    """replace canonical binders by fresh ones before taking a binder apart"""
    m = {}
    new = []
    for b in bvs:
        f = tm.fresh_bv(b.ty)
        m[b] = f
        new.append(f)

    def rn(a):
        if isinstance(a, T):
            return subst(a, m)
        if isinstance(a, tuple):
            return tuple(rn(x) for x in a)
        return a

    return tuple(new), rn(parts)


def note_member(b, s):
    """b ranges over the sequence s: remember which collections it belongs to"""
    MEMBER.setdefault(b, set()).add(s)
    if s.op == "keys":
        MEMBER[b].add(s.args[0])
    if s.op in ("sorted", "rev"):
        note_member(b, s.args[0])
    if s.op == "elems":
        MEMBER[b].add(s.args[0])


# ---------------------------------------------------------------- comprehension
def comp(bvs, gens, cond, elt, unordered=False):
    """sequence [elt for bvs[i] in gens[i] if cond]; gens[j] may mention bvs[i], i<j"""
    bvs, gens = list(bvs), list(gens)
    if cond is FALSE:
        return tup(())
    if elt.op in ("unk",) or cond.op == "unk":
        return elt if elt.op == "unk" else cond
    # gated generator
    for i, g in enumerate(gens):
        if g.op == "unk":
            return g
        if g.op == "ite" and not (fv(g.args[0]) & set(bvs)):
            c = g.args[0]
            a = list(gens)
            b = list(gens)
            a[i], b[i] = g.args[1], g.args[2]
            return ite(c, comp(bvs, a, cond, elt, unordered), comp(bvs, b, cond, elt, unordered))
    for i, g in enumerate(gens):
        if g.op == "tup" and (i == 0 or unordered or len(g.args) <= 1):
            parts = []
            for x in g.args:
                m = {bvs[i]: x}
                parts.append(comp(bvs[:i] + bvs[i + 1:], [subst(y, m) for y in gens[:i] + gens[i + 1:]],
                                  subst(cond, m), subst(elt, m), unordered))
            return cat(parts)
        if g.op == "cat" and (i == 0 or unordered):
            return cat([comp(bvs, gens[:i] + [p] + gens[i + 1:], cond, elt, unordered) for p in g.args])
        if g.op == "comp":
            ys, (gs, c2, e2) = open_(g.args[0], g.args[1:])
            for y, s in zip(ys, gs):
                note_member(y, s)
            m = {bvs[i]: e2}
            return comp(bvs[:i] + list(ys) + bvs[i + 1:],
                        gens[:i] + list(gs) + [subst(y, m) for y in gens[i + 1:]],
                        and_(c2, subst(cond, m)), subst(elt, m), unordered)
    if not gens:
        if cond is TRUE:
            return tup((elt,))
        return ite(cond, tup((elt,)), tup(()))
    # conditions that do not depend on the binders are gates of the whole sequence
    if cond.op == "ite" or cond.ty == "bool":
        at = tm.top_atom(cond)
        if at is not None and not (fv(at) & set(bvs)):
            return ite(at, comp(bvs, gens, tm._cof_norm(cond, at, True), elt, unordered),
                       comp(bvs, gens, tm._cof_norm(cond, at, False), elt, unordered))
    if cond is TRUE and len(gens) == 1 and elt is bvs[0]:
        return gens[0]
    nb, parts = close(bvs, (tuple(gens), cond, elt))
    gens2, cond2, elt2 = parts
    return mk("comp", (nb, gens2, cond2, elt2), ("seq", elt2.ty))


def cat(parts):
    out = []
    for p in parts:
        if p.op == "unk":
            return p
        if p.op == "cat":
            out.extend(p.args)
        elif p.op == "tup" and not p.args:
            continue
        else:
            out.append(p)
    if any(p.op == "ite" for p in out):
        return lift(lambda *xs: cat(xs), *out)
    merged = []
    for p in out:
        if merged and merged[-1].op == "tup" and p.op == "tup":
            merged[-1] = tup(merged[-1].args + p.args)
        else:
            merged.append(p)
    if not merged:
        return tup(())
    if len(merged) == 1:
        return merged[0]
    t = seq_elem_ty(merged[0])
    for p in merged[1:]:
        t = join_ty(t, seq_elem_ty(p))
    return mk("cat", tuple(merged), ("seq", t))


def range_(a, b):
    def f(x, y):
        if is_const(x) and is_const(y):
            n = cval(y) - cval(x)
            if n <= 0:
                return tup(())
            if n <= 12:
                return tup([const(i) for i in range(cval(x), cval(y))])
        d = sub(y, x)
        if is_const(d) and cval(d) <= 0:
            return tup(())
        if d is ONE:
            return tup((x,))
        return mk("range", (x, y), ("seq", "int"))

    return lift(f, num(a), num(b))


def distinct(s):
    if s.op in ("keys", "range", "elems"):
        return True
    if s.op in ("sorted", "rev"):
        return distinct(s.args[0])
    if s.op == "tup":
        return all(is_const(a) for a in s.args) and len(set(s.args)) == len(s.args)
    return False


def ascending(s):
    return s.op == "range" or (s.op == "sorted" and s.args[1] is FALSE) or (
        s.op == "tup" and all(is_num_const(a) for a in s.args)
        and all(cval(a) < cval(b) for a, b in zip(s.args, s.args[1:])))


def sorted_(s, reverse=FALSE):
    def f(x, r):
        if x.op == "tup":
            if all(is_num_const(a) or (is_const(a) and a.args[0] == "str") for a in x.args):
                try:
                    return tup(sorted(x.args, key=lambda a: cval(a), reverse=bool(cval(r))))
                except TypeError:
                    return unk("sort of mixed constants")
            if len(x.args) <= 1:
                return x
            if all(a.op == "tup" and a.args and is_num_const(a.args[0]) for a in x.args):
                keys = [cval(a.args[0]) for a in x.args]
                if len(set(keys)) == len(set(x.args)):   # equal keys only where the elements are equal
                    return tup(sorted(x.args, key=lambda a: cval(a.args[0]), reverse=bool(cval(r))))
        if x.op == "range" and r is FALSE:
            return x
        if x.op == "sorted":
            return sorted_(x.args[0], r)
        if x.op == "rev":
            return sorted_(x.args[0], r)
        if x.op == "keys":
            h = _histogram_keys(x.args[0])
            if h is not None:
                return h if r is FALSE else rev(h)
        if x.op == "comp" and len(x.args[0]) == 1:
            (b,), (gs, c, e) = open_(x.args[0], x.args[1:])
            g = gs[0]
            if e is b:
                return comp((b,), (sorted_(g, r),), c, e)
            if distinct(g) and e.op == "tup" and e.args and e.args[0] is b:
                return comp((b,), (sorted_(g, r),), c, e)
            # monotone images
            if is_intty(e.ty) and is_intty(b.ty):
                d = sub(e, b)
                if not (fv(d) & {b}):
                    return comp((b,), (sorted_(g, r),), c, e)
        return mk("sorted", (x, r), x.ty if isinstance(x.ty, tuple) and x.ty[0] == "seq" else ("seq", "any"))

    return lift(f, s, reverse)


def sorted_by(s, keyf, reverse=FALSE):
    """keyf: python function term -> key term"""
    if s.op == "ite":
        return ite(s.args[0], sorted_by(s.args[1], keyf, reverse), sorted_by(s.args[2], keyf, reverse))
    if s.op == "unk":
        return s
    if s.op == "tup":
        ks = [keyf(a) for a in s.args]
        if len(ks) <= 1:
            return s
        if all(is_num_const(a) for a in ks) and is_const(reverse):
            idx = sorted(range(len(ks)), key=lambda i: cval(ks[i]), reverse=bool(cval(reverse)))
            return tup([s.args[i] for i in idx])
        return mk("sortedby", (tup(ks), s, reverse), s.ty)
    if s.op == "comp":
        bvs, (gs, c, e) = open_(s.args[0], s.args[1:])
        ke = keyf(e)
        if ke.op == "unk":
            return ke
        if len(bvs) == 1:
            x = bvs[0]
            if ke is x:
                return comp((x,), (sorted_(gs[0], reverse),), c, e)
            if is_intty(ke.ty) and is_intty(x.ty):
                if sub(ke, neg1(x)) is ZERO and is_const(reverse):
                    return comp((x,), (sorted_(gs[0], const(not cval(reverse))),), c, e)
        if ke is e:
            return sorted_(s, reverse)
        nb, (g2, c2, k2) = close(bvs, (gs, c, ke))
        return mk("sortedby", (mk("comp", (nb, g2, c2, k2), ("seq", k2.ty)), s, reverse), s.ty)
    b = tm.fresh_bv(seq_elem_ty(s))
    k = keyf(b)
    if k.op == "unk":
        return k
    if k is b:
        return sorted_(s, reverse)
    if is_intty(k.ty) and is_intty(b.ty) and is_const(reverse) and sub(k, neg1(b)) is ZERO:
        return sorted_(s, const(not cval(reverse)))
    nb, (k2,) = close((b,), (k,))
    return mk("sortedby", (mk("comp", (nb, (s,), TRUE, k2), ("seq", k2.ty)), s, reverse), s.ty)


def neg1(x):
    return tm.neg(x)


def _histogram_keys(m):
    """keys of D padded with zeros over range(min D, max D + 1) are that range"""
    if m.op == "map" and m.args[0] is not None and len(m.args[1]) == 1:
        base, (c,) = m.args
        bvs, gs, cond, key, val = c.args
        if len(bvs) == 1 and cond is TRUE and key is bvs[0] and val is ZERO and gs[0].op == "range":
            lo, hi = gs[0].args
            if lo is smin(keys(base)) and hi is add(smax(keys(base)), ONE):
                return gs[0]
    return None


def rev(s):
    def f(x):
        if x.op == "tup":
            return tup(tuple(reversed(x.args)))
        if x.op == "rev":
            return x.args[0]
        if x.op == "sorted" and is_const(x.args[1]) and seq_elem_ty(x) in ("int", "num", "bool"):
            return mk("sorted", (x.args[0], const(not cval(x.args[1]))), x.ty)
        if x.op == "comp" and len(x.args[0]) == 1:
            (b,), (gs, c, e) = open_(x.args[0], x.args[1:])
            return comp((b,), (rev(gs[0]),), c, e)
        return mk("rev", (x,), x.ty)

    return lift(f, s)


def seq_len(s):
    def f(x):
        if x.op == "tup":
            return const(len(x.args))
        if x.op == "cat":
            r = ZERO
            for p in x.args:
                r = add(r, seq_len(p))
            return r
        if x.op == "comp":
            if x.args[2] is TRUE and len(x.args[0]) == 1:
                return seq_len(x.args[1][0])
            return sum_(comp(x.args[0], x.args[1], x.args[2], ONE))
        if x.op in ("sorted", "rev"):
            return seq_len(x.args[0])
        if x.op == "sortedby":
            return seq_len(x.args[1])
        if x.op == "keys":
            return map_len(x.args[0])
        if x.op == "draws":
            return num(x.args[1])
        if x.op == "range":
            d = sub(x.args[1], x.args[0])
            return ite(lt(d, ZERO), ZERO, d)
        if x.op == "c" and x.args[0] == "str":
            return const(len(cval(x)))
        if x.op == "elems":
            return mk("len", (x.args[0],), "int")
        return mk("len", (x,), "int")

    return lift(f, s)


tm.seq_len = seq_len


def map_len(m):
    def f(x):
        if x.op == "map":
            if x.args[0] is None and not x.args[1]:
                return ZERO
            ks = keys(x)
            if ks.op != "keys":
                return seq_len(ks)
        return mk("mlen", (x,), "int")

    return lift(f, m)


tm.map_len = map_len


def idx(s, i):
    def f(x, j):
        if x.op == "tup" and is_const(j):
            k = cval(j)
            if -len(x.args) <= k < len(x.args):
                return x.args[k]
            return unk("index %d out of range" % k)
        if x.op == "c" and x.args[0] == "str" and is_const(j):
            try:
                return const(cval(x)[cval(j)])
            except IndexError:
                return unk("string index out of range")
        if x.op == "sorted" and is_const(j) and is_const(x.args[1]):
            d = cval(x.args[1])
            if cval(j) == 0:
                return smax(x.args[0]) if d else smin(x.args[0])
            if cval(j) == -1:
                return smin(x.args[0]) if d else smax(x.args[0])
        if x.op == "range" and is_const(j):
            if cval(j) == 0:
                return x.args[0]
            if cval(j) == -1:
                return sub(x.args[1], ONE)
            if cval(j) > 0:
                return add(x.args[0], j)
        if x.op == "comp" and len(x.args[0]) == 1 and x.args[2] is TRUE:
            return subst(x.args[3], {x.args[0][0]: idx(x.args[1][0], j)})
        if x.op == "rev" and is_const(j):
            return idx(x.args[0], const(-1 - cval(j)))
        if x.op == "cat" and is_const(j):
            if cval(j) >= 0 and x.args[0].op == "tup" and cval(j) < len(x.args[0].args):
                return x.args[0].args[cval(j)]
            if cval(j) < 0 and x.args[-1].op == "tup" and -cval(j) <= len(x.args[-1].args):
                return x.args[-1].args[cval(j)]
        return mk("idx", (x, j), seq_elem_ty(x))

    return lift(f, s, num(i) if is_numty(i.ty) else i)


def slice_(s, a, b):
    """s[a:b]; a or b may be NONE"""
    def f(x, i, j):
        if x.op == "tup" and is_const(i) and is_const(j):
            return tup(x.args[cval(i):cval(j)])
        if x.op == "c" and is_const(i) and is_const(j):
            return const(cval(x)[cval(i):cval(j)])
        n = None

        def norm(v, default):
            nonlocal n
            if v is NONE:
                return default
            return v

        if (i is NONE or i is ZERO) and j is NONE:
            return x
        if x.op == "comp" and len(x.args[0]) == 1 and x.args[2] is TRUE:
            (y,), (gs, c, e) = open_(x.args[0], x.args[1:])
            return comp((y,), (slice_(gs[0], i, j),), c, e)
        i2 = ZERO if i is NONE else i
        # normalise bounds relative to the length when it is known as a term
        if x.op in ("sorted", "draws", "sym", "bv", "rev", "app", "cat", "proj"):
            n = seq_len(x)

            def pos(v):
                return ite(lt(v, ZERO), add(n, v), v)

            lo = ZERO if i is NONE else pos(num(i))
            hi = n if j is NONE else pos(num(j))
            # a negated literal symbol such as -k is only a negative index when k > 0; keep that distinction
            return lift(lambda l, h: _mk_slice(x, l, h, n), lo, hi)
        return mk("slice", (x, i2, j), x.ty)

    return lift(f, s, a, b)


def _mk_slice(x, lo, hi, n):
    if lo is ZERO and hi is n:
        return x
    if x.op == "rev":
        return rev(_mk_slice(x.args[0], sub(n, hi), sub(n, lo), n))
    if x.op == "sorted" and x.args[1] is TRUE and seq_elem_ty(x) in ("int", "num", "bool"):
        return rev(_mk_slice(sorted_(x.args[0], FALSE), sub(n, hi), sub(n, lo), n))
    return mk("sl", (x, lo, hi), x.ty)


def zip_(seqs):
    def f(*xs):
        if all(x.op == "tup" for x in xs):
            return tup([tup(t) for t in zip(*[x.args for x in xs])])
        base = None
        ok = True
        elts = []
        b = None
        for x in xs:
            if x.op == "comp" and len(x.args[0]) == 1 and x.args[2] is TRUE:
                g = x.args[1][0]
            else:
                g = x
            if base is None:
                base = g
                b = tm.fresh_bv(seq_elem_ty(g))
                note_member(b, g)
            elif g is not base:
                ok = False
                break
            if x.op == "comp" and g is not x:
                elts.append(subst(x.args[3], {x.args[0][0]: b}))
            else:
                elts.append(b)
        if ok and base is not None:
            return comp((b,), (base,), TRUE, tup(elts))
        return mk("zip", tuple(xs), ("seq", ("seq", "any")))

    return lift(f, *seqs)


def enum(s, start=ZERO):
    def f(x, st):
        if x.op == "tup":
            return tup([tup((add(st, const(i)), a)) for i, a in enumerate(x.args)])
        return mk("enum", (x, st), ("seq", ("seq", "any")))

    return lift(f, s, start)


# ---------------------------------------------------------------- aggregates
def sum_(s, unordered=True):
    def f(x):
        if x.op == "tup":
            r = ZERO
            for a in x.args:
                r = add(r, a)
            return r
        if x.op == "cat":
            r = ZERO
            for p in x.args:
                r = add(r, sum_(p))
            return r
        if x.op in ("sorted", "rev"):
            return sum_(x.args[0])
        if x.op == "sortedby":
            return sum_(x.args[1])
        if x.op == "comp":
            bvs, (gs, c, e) = open_(x.args[0], x.args[1:])
            for b, g in zip(bvs, gs):
                note_member(b, g)
            return _sum_comp(list(bvs), list(gs), c, e)
        if x.op in ("range", "keys", "draws", "sym", "bv", "idx", "app", "slice", "sl", "elems", "proj", "mget", "split_ints"):
            return mk("sum", (x,), seq_elem_ty(x) if is_numty(seq_elem_ty(x)) else "num")
        return mk("sum", (x,), "num")

    return lift(f, s)


def _unsort(g):
    while g.op in ("sorted", "rev"):
        g = g.args[0]
    return g


def _sum_comp(bvs, gens, cond, elt):
    gens = [_unsort(g) for g in gens]
    c2 = comp(bvs, gens, cond, elt, unordered=True)
    if c2.op != "comp":
        return sum_(c2)
    bvs, (gens, cond, elt) = open_(c2.args[0], c2.args[1:])
    bvs, gens = list(bvs), list(gens)
    if elt.op == "ite":
        at = elt.args[0]
        return add(_sum_comp(bvs, gens, and_(cond, at), elt.args[1]),
                   _sum_comp(bvs, gens, and_(cond, not_(at)), elt.args[2]))
    if elt.ty == "bool":
        return _sum_comp(bvs, gens, and_(cond, elt), ONE)
    if elt.op == "c" and not is_num_const(elt):
        return unk("sum of non-numbers")
    if not is_numty(elt.ty) and elt.op not in ("bv", "app", "sym", "mget", "idx", "proj"):
        return mk("sum", (c2,), "num")
    r = ZERO
    bs = set(bvs)
    for m, c in poly_of(elt).items():
        inside, outside = [], []
        for a, e in m:
            (inside if fv(a) & bs else outside).append((a, e))
        body = mk_poly({tuple(sorted(inside, key=lambda x: x[0].id)): Fraction(1)})
        s = _sum_mono(bvs, gens, cond, body)
        o = mk_poly({tuple(sorted(outside, key=lambda x: x[0].id)): c})
        r = add(r, mul(o, s))
    return r


def _sum_mono(bvs, gens, cond, body):
    # linear use of an additive map: replace "x in keys(M), M[x]" by M's own components
    for i, (b, g) in enumerate(zip(bvs, gens)):
        if g.op == "keys" and g.args[0].op == "map":
            M = g.args[0]
            L = mk_mget0(M, b)
            fl = _linear_in(body, L)
            if fl is not None and not _occurs(cond, L) and not any(_occurs(x, L) for x in gens):
                comps = flat_comps(M)
                if comps is not None:
                    r = ZERO
                    for cm in comps:
                        ys, (gs, cc, k, v) = open_(cm.args[0], cm.args[1:])
                        for y, q in zip(ys, gs):
                            note_member(y, q)
                        mm = {b: k}
                        r = add(r, _sum_comp(bvs[:i] + list(ys) + bvs[i + 1:],
                                             gens[:i] + list(gs) + [subst(x, mm) for x in gens[i + 1:]],
                                             and_(cc, subst(cond, mm)), mul(subst(fl, mm), v)))
                    return r
    if body is ONE and cond is TRUE and len(gens) == 1:
        return seq_len(gens[0])
    best = None
    n = len(bvs)
    for perm in permutations(range(n)) if n <= 3 else [tuple(range(n))]:
        if not _perm_ok(perm, bvs, gens):
            continue
        nb, (g2, c2, e2) = close([bvs[i] for i in perm], (tuple(gens[i] for i in perm), cond, body))
        cand = mk("comp", (nb, g2, c2, e2), ("seq", e2.ty))
        if best is None or cand.id < best.id:
            best = cand
    if cond is TRUE and len(gens) == 1 and best.args[3] is best.args[0][0]:
        return mk("sum", (best.args[1][0],), body.ty if is_numty(body.ty) else "num")
    return mk("sum", (best,), body.ty if is_numty(body.ty) else "num")


def _perm_ok(perm, bvs, gens):
    seen = set()
    bs = set(bvs)
    for i in perm:
        if (fv(gens[i]) & bs) - seen:
            return False
        seen.add(bvs[i])
    return True


def _occurs(t, s):
    return any(x is s for x in tm.walk(t))


def _linear_in(body, L):
    """body = f * L with f free of L: return f"""
    d = poly_of(body)
    out = {}
    for m, c in d.items():
        mm = dict(m)
        if mm.get(L, 0) != 1:
            return None
        rest = tuple((a, e) for a, e in m if a is not L)
        if any(_occurs(a, L) for a, _ in rest):
            return None
        out[rest] = c
    return mk_poly(out)


def smin(s):
    return _extreme("smin", s)


def smax(s):
    return _extreme("smax", s)


def _extreme(op, s):
    def f(x):
        if x.op == "tup":
            if not x.args:
                return unk("extreme of an empty sequence")
            r = x.args[0]
            for a in x.args[1:]:
                r = min2(r, a) if op == "smin" else max2(r, a)
            return r
        if x.op in ("sorted", "rev"):
            return _extreme(op, x.args[0])
        if x.op == "range":
            lo, hi = x.args
            return lo if op == "smin" else sub(hi, ONE)
        if x.op == "comp":
            bvs, (gs, c, e) = open_(x.args[0], x.args[1:])
            gs = tuple(_unsort(g) for g in gs)
            best = comp(bvs, gs, c, e, unordered=True)
            if best.op == "comp":
                if e.op == "poly" and c is TRUE:
                    k = poly_of(e).get((), Fraction(0))
                    if k:
                        return add(_extreme(op, comp(bvs, gs, c, sub(e, const(k)))), const(k))
                best = _perm_min(bvs, gs, c, e)
            if best is not x:
                if best.op == "comp":
                    return mk(op, (best,), seq_elem_ty(best))
                return _extreme(op, best)
        return mk(op, (x,), seq_elem_ty(x) if is_numty(seq_elem_ty(x)) else "any")

    return lift(f, s)


def _perm_min(bvs, gens, cond, elt):
    best = None
    n = len(bvs)
    for perm in permutations(range(n)) if n <= 3 else [tuple(range(n))]:
        if not _perm_ok(perm, bvs, gens):
            continue
        nb, (g2, c2, e2) = close([bvs[i] for i in perm], (tuple(gens[i] for i in perm), cond, elt))
        cand = mk("comp", (nb, g2, c2, e2), ("seq", e2.ty))
        if best is None or cand.id < best.id:
            best = cand
    return best


def min2(a, b):
    return ite(lt(b, a), b, a)


def max2(a, b):
    return ite(lt(a, b), b, a)


def any_(s):
    """truth of some element of s"""
    def f(x):
        if x.op == "tup":
            r = FALSE
            for a in x.args:
                r = or_(r, truth(a))
            return r
        if x.op == "cat":
            r = FALSE
            for p in x.args:
                r = or_(r, any_(p))
            return r
        if x.op in ("sorted", "rev"):
            return any_(x.args[0])
        if x.op == "comp":
            bvs, (gs, c, e) = open_(x.args[0], x.args[1:])
            return exists(bvs, gs, and_(c, truth(e)))
        b = tm.fresh_bv(seq_elem_ty(x))
        return exists((b,), (x,), truth(b))

    return lift(f, s)


def all_(s):
    def f(x):
        if x.op == "comp":
            bvs, (gs, c, e) = open_(x.args[0], x.args[1:])
            return not_(exists(bvs, gs, and_(c, not_(truth(e)))))
        if x.op == "tup":
            r = TRUE
            for a in x.args:
                r = and_(r, truth(a))
            return r
        if x.op == "cat":
            r = TRUE
            for p in x.args:
                r = and_(r, all_(p))
            return r
        b = tm.fresh_bv(seq_elem_ty(x))
        return not_(exists((b,), (x,), not_(truth(b))))

    return lift(f, s)


def exists(bvs, gens, cond):
    if cond is FALSE:
        return FALSE
    if cond.op == "unk":
        return cond
    for g in gens:
        if g.op == "unk":
            return g
    gens = [_unsort(g) for g in gens]
    bvs = list(bvs)
    for b, g in zip(bvs, gens):
        note_member(b, g)
    # gate out binder-independent atoms
    at = tm.top_atom(cond)
    if at is not None and not (fv(at) & set(bvs)):
        return ite(at, exists(bvs, gens, tm._cof_norm(cond, at, True)),
                   exists(bvs, gens, tm._cof_norm(cond, at, False)))
    # drop binders that the condition does not use: they only have to be non-empty
    for i in range(len(bvs)):
        b = bvs[i]
        if b not in fv(cond) and not any(b in fv(g) for g in gens):
            rest_b, rest_g = bvs[:i] + bvs[i + 1:], gens[:i] + gens[i + 1:]
            if not (fv(gens[i]) & set(bvs)):
                return and_(not_(eq(seq_len(gens[i]), ZERO)), exists(rest_b, rest_g, cond))
    if not bvs:
        return cond
    c = comp(bvs, gens, cond, TRUE, unordered=True)
    if c.op != "comp":
        return any_(c)
    bvs, (gens, cond, _) = open_(c.args[0], c.args[1:])
    # x == k for a member test
    best = _perm_min(list(bvs), list(gens), cond, TRUE)
    return mk("exists", (best,), "bool")


# ---------------------------------------------------------------- additive maps
EMPTY_MAP = mk("map", (None, ()), ("map", "bot", "bot"))


def mc(bvs, gens, cond, key, val):
    nb, (g, c, k, v) = close(bvs, (tuple(gens), cond, key, val))
    return mk("mc", (nb, g, c, k, v), ("mc",))


def flat_comps(M):
    """components of an additive map whose base is {} or itself additive / symbolic (keys(base) as a component)"""
    if M.op != "map":
        b = tm.fresh_bv(elem_ty(M.ty))
        note_member(b, mk_keys(M))
        return [mc((b,), (mk_keys(M),), TRUE, b, mget(M, b))]
    base, comps = M.args
    out = []
    if base is not None:
        if base.op in ("sym", "app", "bv", "proj", "mput", "mget", "idx"):
            b = tm.fresh_bv(elem_ty(base.ty))
            note_member(b, mk_keys(base))
            out.append(mc((b,), (mk_keys(base),), TRUE, b, mget(base, b)))
        else:
            return None
    return out + list(comps)


def map_(base, comps):
    """base: map term or None; comps: list of (bvs, gens, cond, key, val)"""
    if base is not None and base.op == "ite":
        return ite(base.args[0], map_(base.args[1], comps), map_(base.args[2], comps))
    if base is not None and base.op == "unk":
        return base
    out = []
    if base is not None and base.op == "map":
        out.extend(base.args[1])
        base = base.args[0]
    work = [tuple(c) for c in comps]
    r = _norm_all(work)
    if isinstance(r, T):
        if r.op == "unk":
            return r
        c, a, b = r.args
        m = mk_map(base, out)
        return ite(c, _map_work(m, a), _map_work(m, b))
    return mk_map(base, out + r)


def _map_work(m, work):
    """m plus a list of raw or normalised components"""
    if m.op == "ite":
        return ite(m.args[0], _map_work(m.args[1], work), _map_work(m.args[2], work))
    base, out = m, []
    if m.op == "map":
        base, out = m.args[0], list(m.args[1])
    r = _norm_all(work)
    if isinstance(r, T):
        if r.op == "unk":
            return r
        c, a, b = r.args
        return ite(c, _map_work(m, a), _map_work(m, b))
    return mk_map(base, out + r)


def _norm_all(work):
    """normalise a list of raw / normalised components; a list of components, a gate of lists, or unk"""
    out = []
    for j, w in enumerate(work):
        if isinstance(w, T):
            out.append(w)
            continue
        bvs, gens, cond, key, val = w
        r = _norm_mc(list(bvs), list(gens), cond, key, val)
        if isinstance(r, T):
            if r.op == "unk":
                return r
            c, a, b = r.args
            rest = list(work[j + 1:])
            return _gate(c, out + a + rest, out + b + rest)
        out.extend(r)
    return out


def _gate(c, a, b):
    t = T()
    t.op, t.args, t.ty, t.id, t._fv, t._h = "gate", (c, a, b), "any", -1, None, None
    return t


def _norm_mc(bvs, gens, cond, key, val):
    """list of mc terms, or a gate between lists of components"""
    if cond is FALSE:
        return []
    for x in (cond, key, val) + tuple(gens):
        if x.op == "unk":
            return x
    gens = [_unsort(g) for g in gens]
    bs = set(bvs)
    for i, g in enumerate(gens):
        if g.op == "ite" and not (fv(g.args[0]) & bs):
            return _gate(g.args[0], [(bvs, gens[:i] + [g.args[1]] + gens[i + 1:], cond, key, val)],
                         [(bvs, gens[:i] + [g.args[2]] + gens[i + 1:], cond, key, val)])
    at = tm.top_atom(cond)
    if at is not None and not (fv(at) & bs):
        return _gate(at, [(bvs, gens, tm._cof_norm(cond, at, True), key, val)],
                     [(bvs, gens, tm._cof_norm(cond, at, False), key, val)])
    if key.op == "ite":
        at = key.args[0]
        return _norm_all([
            (bvs, gens, and_(cond, at), tm.restrict(key.args[1], at), tm.restrict(val, at)),
            (bvs, gens, and_(cond, not_(at)), tm.restrict(key.args[2], not_(at)), tm.restrict(val, not_(at)))])
    if val.op == "ite" or (val.ty == "bool" and val.op != "c"):
        v = num(val)
        at = v.args[0]
        if fv(at) & bs:
            return _norm_all([(bvs, gens, and_(cond, at), key, v.args[1]),
                              (bvs, gens, and_(cond, not_(at)), key, v.args[2])])
        return _gate(at, [(bvs, gens, cond, key, v.args[1])], [(bvs, gens, cond, key, v.args[2])])
    for i, g in enumerate(gens):
        if g.op == "tup":
            work = []
            for x in g.args:
                m = {bvs[i]: x}
                work.append((bvs[:i] + bvs[i + 1:], [subst(y, m) for y in gens[:i] + gens[i + 1:]],
                             subst(cond, m), subst(key, m), subst(val, m)))
            return _norm_all(work)
        if g.op == "cat":
            return _norm_all([(bvs, gens[:i] + [p] + gens[i + 1:], cond, key, val) for p in g.args])
        if g.op == "comp":
            ys, (gs, c2, e2) = open_(g.args[0], g.args[1:])
            for y, q in zip(ys, gs):
                note_member(y, q)
            m = {bvs[i]: e2}
            return _norm_mc(bvs[:i] + list(ys) + bvs[i + 1:],
                            gens[:i] + list(gs) + [subst(y, m) for y in gens[i + 1:]],
                            and_(c2, subst(cond, m)), subst(key, m), subst(val, m))
        if g.op == "keys" and g.args[0].op == "map":
            M = g.args[0]
            L = mk_mget0(M, bvs[i])
            fl = _linear_in(val, L) if is_numty(val.ty) and val is not ZERO else None
            if fl is not None and not _occurs(cond, L) and not _occurs(key, L) and not any(
                    _occurs(x, L) for x in gens):
                comps = flat_comps(M)
                if comps is not None:
                    work = []
                    for cm in comps:
                        ys, (gs, cc, k, v) = open_(cm.args[0], cm.args[1:])
                        for y, q in zip(ys, gs):
                            note_member(y, q)
                        mm = {bvs[i]: k}
                        work.append((bvs[:i] + list(ys) + bvs[i + 1:],
                                     gens[:i] + list(gs) + [subst(x, mm) for x in gens[i + 1:]],
                                     and_(cc, subst(cond, mm)), subst(key, mm), mul(subst(fl, mm), v)))
                    return _norm_all(work)
    best = None
    n = len(bvs)
    for perm in permutations(range(n)) if n <= 3 else [tuple(range(n))]:
        if not _perm_ok(perm, bvs, gens):
            continue
        cand = mc([bvs[i] for i in perm], [gens[i] for i in perm], cond, key, val)
        if best is None or cand.id < best.id:
            best = cand
    return [best]


def mk_map(base, comps):
    comps = [c for c in comps]
    # literal components with the same key add up
    lit = {}
    rest = []
    for c in comps:
        if not c.args[0] and c.args[2] is TRUE:
            k = c.args[3]
            lit.setdefault(k, []).append(c)
        else:
            rest.append(c)
    out = []
    for k, cs in lit.items():
        if len(cs) == 1:
            out.append(cs[0])
        else:
            v = cs[0].args[4]
            for c in cs[1:]:
                v = add(v, c.args[4])
            if v.op == "ite":
                rest.extend(cs)
            else:
                out.append(mc((), (), TRUE, k, v))
    # equal components add up, a zero component next to a matching one is redundant
    agg = {}
    for c in rest:
        key = (c.args[0], c.args[1], c.args[2], c.args[3])
        agg.setdefault(key, []).append(c.args[4])
    for (b, g, cd, k), vs in agg.items():
        v = vs[0]
        for w in vs[1:]:
            v = add(v, w)
        out.append(mk("mc", (b, g, cd, k, v), ("mc",)))
    if base is not None or rest or not all(c.args[3].op == "c" and isinstance(c.args[3].args[1], str) for c in out):
        out.sort(key=lambda c: c.id)  # tables keyed by texts keep the order in which their entries were made
    if base is None and len(out) == 1:
        c = out[0]
        bvs, gs, cd, k, v = c.args
        if len(bvs) == 1 and cd is TRUE and k is bvs[0] and gs[0].op == "keys" and v is mget(gs[0].args[0], k):
            return gs[0].args[0]
    if base is not None and not out:
        return base
    kt, vt = None, None
    if base is not None:
        kt, vt = elem_ty(base.ty), val_ty(base.ty)
    for c in out:
        kt = c.args[3].ty if kt is None else join_ty(kt, c.args[3].ty)
        vt = c.args[4].ty if vt is None else join_ty(vt, c.args[4].ty)
    return mk("map", (base, tuple(out)), ("map", kt or "bot", vt or "bot"))


def map_lit(pairs):
    m = EMPTY_MAP
    for k, v in pairs:
        m = mput(m, k, v)
    return m


def all_literal(M):
    return M.op == "map" and M.args[0] is None and all(not c.args[0] and c.args[2] is TRUE for c in M.args[1])


def lit_items(M):
    return [(c.args[3], c.args[4]) for c in M.args[1]]


def decided_eq(a, b):
    """TRUE / FALSE / None"""
    e = eq(a, b)
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    return None


def mput(M, k, v):
    def f(m, kk, vv):
        if m.op == "map" and m.args[0] is None:
            if not m.args[1]:
                if is_numty(vv.ty) and vv.ty != "bool":
                    return map_(None, [((), (), TRUE, kk, vv)])
                return mk_map(None, [mc((), (), TRUE, kk, vv)])
            if all_literal(m):
                ds = [decided_eq(c.args[3], kk) for c in m.args[1]]
                if all(d is not None for d in ds):
                    if not any(ds):
                        return mk_map(None, list(m.args[1]) + [mc((), (), TRUE, kk, vv)])
                    return mk_map(None, [c if not d else mc((), (), TRUE, kk, vv) for c, d in zip(m.args[1], ds)])
        if m.op == "mput" and m.args[1] is kk:
            return mput(m.args[0], kk, vv)
        if is_numty(vv.ty):
            L = mk_mget0(m, kk)
            p = poly_of(num(vv)) if num(vv).op != "ite" else None
            if p is not None and p.get(((L, 1),)) == 1:
                r = sub(vv, L)
                if not _occurs(r, L):
                    return map_(m, [((), (), TRUE, kk, r)])
            if m.op == "map":  # M + {kk: ...} read back and overwritten
                g = mget0(m, kk)
                base = m.args[0]
                if g.op not in ("c", "ite"):
                    d = sub(vv, g)
                    if base is None or not any(x.op in ("mget0", "mget") and x.args[0] is base for x in tm.walk(d)):
                        return map_(m, [((), (), TRUE, kk, d)])
        return mk("mput", (m, kk, vv), ("map", join_ty(elem_ty(m.ty), kk.ty) if m.op != "map" or m.args[0] or m.args[1] else kk.ty,
                                        join_ty(val_ty(m.ty), vv.ty)))

    return lift(f, M, k, v)


def mdel(M, k):
    def f(m, kk):
        if all_literal(m):
            ds = [decided_eq(c.args[3], kk) for c in m.args[1]]
            if all(d is not None for d in ds):
                return mk_map(None, [c for c, d in zip(m.args[1], ds) if not d])
        return mk("mdel", (m, kk), m.ty)

    return lift(f, M, k)


def mk_mget0(M, k):
    return mk("mget0", (M, k), val_ty(M.ty) if is_numty(val_ty(M.ty)) else "num")


def mget(M, k):
    """value under k, for a k that is present"""
    def f(m, kk):
        if m.op == "mput":
            return ite(eq(kk, m.args[1]), m.args[2], mget(m.args[0], kk))
        if m.op == "map":
            base, comps = m.args
            if base is None and len(comps) == 1:
                c = comps[0]
                if len(c.args[0]) == 1 and c.args[3] is c.args[0][0]:
                    # {x: v(x) for x in S if ...}, distinct x
                    if distinct(c.args[1][0]):
                        return subst(c.args[4], {c.args[0][0]: kk})
                if not c.args[0] and c.args[2] is TRUE:
                    return c.args[4]
            if all_literal(m):
                its = lit_items(m)
                ds = [decided_eq(k2, kk) for k2, _ in its]
                if any(d is True for d in ds):
                    return its[ds.index(True)][1]
                if all(d is False for d in ds):
                    return unk("missing key")
                # gated lookup over the literal keys
                if is_numty(val_ty(m.ty)) and not all(d is None for d in ds):
                    pass
                r = its[-1][1]
                for (k2, v2) in reversed(its[:-1]):
                    r = ite(eq(kk, k2), v2, r)
                return r
            if is_numty(val_ty(m.ty)):
                # additive: base + every component that hits the key
                if base is None and kk.op == "bv" and any(c.args[0] for c in comps):
                    return mk_mget0(m, kk)  # kept: sums over the keys fuse with the components
                r = ZERO
                if base is not None:
                    r = mget0(base, kk)
                for c in comps:
                    if c.args[4] is ZERO:
                        continue
                    bvs, (gs, cd, ck, v) = open_(c.args[0], c.args[1:])
                    if len(bvs) == 1 and ck is bvs[0] and gs[0].op == "keys" and cd is TRUE:
                        mm = {bvs[0]: kk}
                        r = add(r, ite(in_(kk, gs[0].args[0]), subst(v, mm), ZERO))
                        continue
                    h = eq(ck, kk)
                    r = add(r, _sum_comp(list(bvs), list(gs), and_(cd, h), v))
                if n_ok(r):
                    return r
        if is_numty(val_ty(m.ty)):
            return mk_mget0(m, kk)
        return mk("mget", (m, kk), val_ty(m.ty))

    return lift(f, M, k)


def n_ok(r):
    return tm.n_leaves(r) < 40


def mget0(M, k):
    """value under k or 0"""
    def f(m, kk):
        if m.op == "map" and is_numty(val_ty(m.ty)):
            if m.args[0] is None and not m.args[1]:
                return ZERO
            if m.args[0] is None and len(m.args[1]) == 1:
                c = m.args[1][0]
                if kk.op == "bv" and c.args[0] and not (len(c.args[0]) == 1 and c.args[3] is c.args[0][0]):
                    return mk_mget0(m, kk)
                return ite(in_(kk, m), mget(m, kk), ZERO)
            if all_literal(m):
                r = ZERO
                for k2, v2 in reversed(lit_items(m)):
                    r = ite(eq(kk, k2), v2, r)
                return r
            return mget(m, kk)
        if m.op == "map" and m.args[0] is None and not m.args[1]:
            return ZERO
        return mk_mget0(m, kk)

    return lift(f, M, k)


def in_(k, M):
    def f(kk, m):
        if kk in MEMBER and m in MEMBER[kk]:
            return TRUE
        if m.op == "mput":
            return or_(eq(kk, m.args[1]), in_(kk, m.args[0]))
        if m.op == "map":
            base, comps = m.args
            r = in_(kk, base) if base is not None else FALSE
            for c in comps:
                if r is TRUE:
                    return r
                bvs, (gs, cd, ck, v) = open_(c.args[0], c.args[1:])
                if not bvs:
                    r = or_(r, and_(cd, eq(kk, ck)))
                elif len(bvs) == 1 and ck is bvs[0]:
                    r = or_(r, and_(in_seq(kk, gs[0]), subst(cd, {bvs[0]: kk})))
                else:
                    r = or_(r, exists(bvs, gs, and_(cd, eq(ck, kk))))
            return r
        return mk("in", (kk, m), "bool")

    return lift(f, k, M)


def in_seq(k, s):
    def f(kk, x):
        if kk in MEMBER and x in MEMBER[kk]:
            return TRUE
        if x.op == "tup":
            r = FALSE
            for a in x.args:
                r = or_(r, eq(kk, a))
            return r
        if x.op == "keys":
            return in_(kk, x.args[0])
        if x.op == "elems":
            return in_set(kk, x.args[0])
        if x.op == "range" and is_intty(kk.ty):
            return and_(tm.ge(kk, x.args[0]), lt(kk, x.args[1]))
        if x.op in ("sorted", "rev"):
            return in_seq(kk, x.args[0])
        if x.op == "cat":
            r = FALSE
            for p in x.args:
                r = or_(r, in_seq(kk, p))
            return r
        if x.op == "comp":
            bvs, (gs, cd, e) = open_(x.args[0], x.args[1:])
            if len(bvs) == 1 and e is bvs[0]:
                return and_(in_seq(kk, gs[0]), subst(cd, {bvs[0]: kk}))
            return exists(bvs, gs, and_(cd, eq(e, kk)))
        return mk("in", (kk, x), "bool")

    return lift(f, k, s)


def mk_keys(M):
    return mk("keys", (M,), ("seq", elem_ty(M.ty)))


def keys(M):
    def f(m):
        if m.op == "map":
            base, comps = m.args
            if base is None:
                if not comps:
                    return tup(())
                if all_literal(m):
                    ks = [c.args[3] for c in comps]
                    if all(decided_eq(a, b) is False for i, a in enumerate(ks) for b in ks[:i]):
                        return tup(ks)
                if len(comps) == 1:
                    c = comps[0]
                    if len(c.args[0]) == 1 and c.args[3] is c.args[0][0] and distinct(c.args[1][0]):
                        return comp(c.args[0], c.args[1], c.args[2], c.args[3])
        return mk_keys(m)

    return lift(f, M)


def values(M):
    ks = keys(M)
    return map_over(ks, lambda k: mget(M, k))


def items(M):
    ks = keys(M)
    return map_over(ks, lambda k: tup((k, mget(M, k))))


def map_over(s, f):
    def g(x):
        if x.op == "tup":
            return tup([f(a) for a in x.args])
        b = tm.fresh_bv(seq_elem_ty(x))
        note_member(b, x)
        return comp((b,), (x,), TRUE, f(b))

    return lift(g, s)


def map_from_pairs(s):
    """dict(iterable of pairs): later pairs overwrite, distinct first components are additive"""
    def f(x):
        if x.op == "tup":
            m = EMPTY_MAP
            for a in x.args:
                m = mput(m, idx(a, ZERO), idx(a, ONE))
            return m
        if x.op == "comp":
            bvs, (gs, c, e) = open_(x.args[0], x.args[1:])
            for b, g in zip(bvs, gs):
                note_member(b, g)
            return dict_comp(bvs, gs, c, idx(e, ZERO), idx(e, ONE))
        if x.op == "cat":
            m = None
            for p in x.args:
                q = map_from_pairs(p)
                m = q if m is None else map_update(m, q)
            return m
        return mk("mpairs", (x,), ("map", "any", "any"))

    return lift(f, s)


def dict_comp(bvs, gens, cond, key, val, base=None):
    """{key: val for bvs in gens if cond} put on top of base"""
    bvs, gens = list(bvs), list(gens)
    empty = base is None or base is EMPTY_MAP
    if not gens:
        m = EMPTY_MAP if base is None else base
        return ite(cond, mput(m, key, val), m)
    if empty and len(gens) == 1 and key is bvs[0] and distinct(_unsort(gens[0])):
        if gens[0].op == "tup":
            m = EMPTY_MAP
            for a in gens[0].args:
                mm = {bvs[0]: a}
                m = ite(subst(cond, mm), mput(m, a, subst(val, mm)), m)
            return m
        return map_(None, [(bvs, gens, cond, key, val)])
    if empty and injective(bvs, gens, key):
        return map_(None, [(bvs, gens, cond, key, val)])
    c = comp(bvs, gens, cond, tup((key, val)))
    if c.op == "tup":
        m = EMPTY_MAP if base is None else base
        for a in c.args:
            m = mput(m, a.args[0], a.args[1])
        return m
    if c.op == "unk":
        return c
    return mk("mputs", (EMPTY_MAP if base is None else base, c), ("map", key.ty, val.ty))


def injective(bvs, gens, key):
    """key determines the (single) binder"""
    if len(bvs) != 1 or not distinct(_unsort(gens[0])):
        return False
    b = bvs[0]
    if key is b:
        return True
    if key.op == "outcome":
        b0 = b
        if key.args[0] is b0:
            return True
        # an outcome rebuilt from the outcome b: same value, same constraints plus a common part
        v, cs = key.args
        if v is app("value", (b,), "int") and cs.op == "cs" and any(p is app("csof", (b,), "cs") for p in cs.args):
            return True
    if key.op == "poly" and is_intty(key.ty) and is_intty(b.ty):
        d = sub(key, b)
        s = add(key, b)
        return not (fv(d) & {b}) or not (fv(s) & {b})
    return False


def map_update(a, b):
    """b put on top of a"""
    def f(x, y):
        if x is EMPTY_MAP or (x.op == "map" and x.args[0] is None and not x.args[1]):
            return y
        if all_literal(y):
            m = x
            for k, v in lit_items(y):
                m = mput(m, k, v)
            return m
        if y.op == "mput":
            return mput(map_update(x, y.args[0]), y.args[1], y.args[2])
        return mk("mupd", (x, y), ("map", join_ty(elem_ty(x.ty), elem_ty(y.ty)), join_ty(val_ty(x.ty), val_ty(y.ty))))

    return lift(f, a, b)


def map_addall(a, b):
    """Counter.update: add every count of b to a"""
    if b.op == "ite":
        return ite(b.args[0], map_addall(a, b.args[1]), map_addall(a, b.args[2]))
    bv = tm.fresh_bv(elem_ty(b.ty))
    ks = keys(b)
    note_member(bv, ks)
    note_member(bv, mk_keys(b))
    return map_(a, [((bv,), (ks,), TRUE, bv, mget(b, bv))])


def map_positive(m):
    """the entries with a positive value (what Counter + Counter keeps)"""
    if m.op == "ite":
        return ite(m.args[0], map_positive(m.args[1]), map_positive(m.args[2]))
    if m.op == "unk":
        return m
    if m.op == "map" and m.args[0] is None and all(is_const(c.args[4]) and cval(c.args[4]) > 0 for c in m.args[1]):
        return m
    bv = tm.fresh_bv(elem_ty(m.ty))
    ks = keys(m)
    note_member(bv, ks)
    note_member(bv, mk_keys(m))
    v = mget(m, bv)
    return map_(None, [((bv,), (ks,), lt(ZERO, v), bv, v)])


# gates produced by "if key not in d: d[key] = 0" and friends
def _hook(at, hi, lo):
    if at.op != "in":
        return None
    k, M = at.args
    if not (isinstance(M.ty, tuple) and M.ty[0] == "map"):
        return None
    if hi is M and lo.op == "map" and lo.args[0] is M and len(lo.args[1]) == 1:
        c = lo.args[1][0]
        if not c.args[0] and c.args[3] is k and c.args[4] is ZERO:
            return lo
    if hi is M and lo.op == "mput" and lo.args[0] is M and lo.args[1] is k and lo.args[2] is ZERO:
        return map_(M, [((), (), TRUE, k, ZERO)])
    L = mk_mget0(M, k)
    if _occurs(hi, L):
        z = subst(hi, {L: ZERO})
        if z is lo:
            return hi
        if hi.op == "map" and hi.args[0] is M and lo.op == "mput" and lo.args[0] is M and lo.args[1] is k:
            cs = hi.args[1]
            if len(cs) == 1 and not cs[0].args[0] and cs[0].args[3] is k and cs[0].args[4] is lo.args[2]:
                return hi
    if hi.op == "map" and hi.args[0] is M and len(hi.args[1]) == 1:
        c = hi.args[1][0]
        if not c.args[0] and c.args[3] is k and c.args[2] is TRUE:
            if lo.op == "mput" and lo.args[0] is M and lo.args[1] is k and lo.args[2] is c.args[4]:
                return hi
    return None


tm.HOOKS_ITE.append(_hook)


# additive maps with a base that extends M: same rule with a richer base
def _hook2(at, hi, lo):
    if at.op != "in" or hi.op != "map" or lo.op != "mput":
        return None
    return None


# ---------------------------------------------------------------- sets
EMPTY_SET = mk("sset", (), ("set", "bot"))


def sset(elems):
    out = []
    for e in elems:
        if e.op == "unk":
            return e
        if e not in out:
            out.append(e)
    out.sort(key=lambda e: e.id)
    t = "any"
    if out:
        t = out[0].ty
        for e in out[1:]:
            t = join_ty(t, e.ty)
    return mk("sset", tuple(out), ("set", t))


def set_of_seq(s):
    def f(x):
        if x.op == "tup":
            if any(a.op == "ite" for a in x.args):
                return lift(lambda *ys: sset(ys), *x.args)
            return sset(x.args)
        if x.op == "elems":
            return x.args[0]
        if x.op in ("sorted", "rev"):
            return set_of_seq(x.args[0])
        if x.op == "cat":
            return sunion([set_of_seq(p) for p in x.args])
        return mk("setof", (x,), ("set", seq_elem_ty(x)))

    return lift(f, s)


def elems(s):
    """iterate a set"""
    def f(x):
        if x.op == "sset":
            return tup(x.args)
        if x.op == "setof" and distinct(x.args[0]):
            return x.args[0]
        return mk("elems", (x,), ("seq", elem_ty(x.ty)))

    return lift(f, s)


def sunion(parts):
    def f(*xs):
        lits, rest = [], []
        for x in xs:
            if x.op == "sunion":
                for y in x.args:
                    (lits.extend(y.args) if y.op == "sset" else rest.append(y))
            elif x.op == "sset":
                lits.extend(x.args)
            else:
                rest.append(x)
        rest = sorted(set(rest), key=lambda y: y.id)
        ps = list(rest)
        if lits:
            ps.append(sset(lits))
        if not ps:
            return EMPTY_SET
        if len(ps) == 1:
            return ps[0]
        t = elem_ty(ps[0].ty)
        for p in ps[1:]:
            t = join_ty(t, elem_ty(p.ty))
        return mk("sunion", tuple(ps), ("set", t))

    return lift(f, *parts)


def sinter(a, b):
    def f(x, y):
        if x is y:
            return x
        if x.op == "sset" and y.op == "sset":
            ds = {(i, j): decided_eq(i, j) for i in x.args for j in y.args}
            if all(v is not None for v in ds.values()):
                return sset([i for i in x.args if any(ds[(i, j)] for j in y.args)])
        if x is EMPTY_SET or y is EMPTY_SET:
            return EMPTY_SET
        parts = []
        for z in (x, y):
            parts.extend(z.args if z.op == "sinter" else [z])
        parts = sorted(set(parts), key=lambda z: z.id)
        if len(parts) == 1:
            return parts[0]
        return mk("sinter", tuple(parts), x.ty)

    return lift(f, a, b)


def sdiff(a, b):
    def f(x, y):
        if x is y:
            return EMPTY_SET
        if x.op == "sset" and y.op == "sset":
            ds = {(i, j): decided_eq(i, j) for i in x.args for j in y.args}
            if all(v is not None for v in ds.values()):
                return sset([i for i in x.args if not any(ds[(i, j)] for j in y.args)])
        if y is EMPTY_SET or x is EMPTY_SET:
            return x
        return mk("sdiff", (x, y), x.ty)

    return lift(f, a, b)


def in_set(k, s):
    def f(kk, x):
        if kk in MEMBER and x in MEMBER[kk]:
            return TRUE
        if x.op == "sset":
            r = FALSE
            for a in x.args:
                r = or_(r, eq(kk, a))
            return r
        if x.op == "sunion":
            r = FALSE
            for a in x.args:
                r = or_(r, in_set(kk, a))
            return r
        if x.op == "sinter":
            r = TRUE
            for a in x.args:
                r = and_(r, in_set(kk, a))
            return r
        if x.op == "sdiff":
            return and_(in_set(kk, x.args[0]), not_(in_set(kk, x.args[1])))
        if x.op == "setof":
            return in_seq(kk, x.args[0])
        return mk("in", (kk, x), "bool")

    return lift(f, k, s)


def set_len(s):
    def f(x):
        if x.op == "sset":
            if all(decided_eq(a, b) is False for i, a in enumerate(x.args) for b in x.args[:i]):
                return const(len(x.args))
            if len(x.args) == 1:
                return ONE
        if x.op == "setof" and distinct(x.args[0]):
            return seq_len(x.args[0])
        return mk("len", (x,), "int")

    return lift(f, s)


def _set_eq(x, y):
    if isinstance(x.ty, tuple) and x.ty[0] == "set" and isinstance(y.ty, tuple) and y.ty[0] == "set":
        if x.op == "sset" and y.op == "sset":
            if not x.args or not y.args:
                return const(len(x.args) == len(y.args))
            if len(x.args) == 1 and len(y.args) == 1:
                return eq(x.args[0], y.args[0])
        for a, b in ((x, y), (y, x)):
            if b is EMPTY_SET:
                return eq(set_len(a), ZERO)
        if x.id > y.id:
            x, y = y, x
        return mk("eq", (x, y), "bool")
    if isinstance(x.ty, tuple) and x.ty[0] == "seq" and isinstance(y.ty, tuple) and y.ty[0] == "seq":
        for a, b in ((x, y), (y, x)):
            if b.op == "tup" and not b.args:
                return eq(seq_len(a), ZERO)
    for a, b in ((x, y), (y, x)):  # an encoded list is "" exactly when the list is empty
        if a.op == "enc" and b is const(""):
            return eq(seq_len(a.args[1]), ZERO)
    if x.op == "enc" and y.op == "enc" and x.args[0] is y.args[0]:
        return eq(x.args[1], y.args[1])
    if x.op == "strlit" or y.op == "strlit":
        return None
    return None


tm.HOOKS_EQ.append(_set_eq)


# gate "S if S else []" : the empty case adds nothing
def _hook_empty(at, hi, lo):
    # at: len(S) < 1  -> hi is the empty case
    if at.op == "lt" and at.args[0].op in ("len", "mlen") and at.args[1] is ONE and hi.op == "tup" and not hi.args:
        s = at.args[0].args[0]
        if lo is s:
            return lo
    return None


tm.HOOKS_ITE.append(_hook_empty)


# ---------------------------------------------------------------- constraint-set contents
CS_EMPTY = mk("cs", (), "cs")


def cs_union(parts):
    def f(*xs):
        out = set()
        for x in xs:
            if x.op == "cs":
                out.update(x.args)
            else:
                out.add(x)
        if any(x.op == "unk" for x in out):
            return [x for x in out if x.op == "unk"][0]
        out = sorted(out, key=lambda y: y.id)
        if len(out) == 1 and out[0].ty == "cs":
            return out[0]
        return mk("cs", tuple(out), "cs")

    return lift(f, *parts)


def possible(c):
    def f(x):
        if x is CS_EMPTY:
            return TRUE
        return mk("possible", (x,), "bool")

    return lift(f, c)


def outcome(v, cs):
    def f(a, b):
        if a.op == "app" and a.args[0] == "value" and b.op == "app" and b.args[0] == "csof" and a.args[1] is b.args[1]:
            return a.args[1]
        return mk("outcome", (a, b), "outcome")

    return lift(f, num(v) if is_numty(v.ty) else v, cs)


def value_of(o):
    def f(x):
        if x.op == "outcome":
            return x.args[0]
        return app("value", (x,), "int")

    return lift(f, o)


def cs_of(o):
    def f(x):
        if x.op == "outcome":
            return x.args[1]
        return app("csof", (x,), "cs")

    return lift(f, o)


# ---------------------------------------------------------------- folds
def fold(bvs, s, inits, bodies):
    """bvs = (x, m1..mn): iterate s, m := bodies[m, x]; returns a tuple term"""
    nb, (bd,) = close(bvs, (tuple(bodies),))
    return mk("fold", (nb, s, tuple(inits), bd), ("seq", "any"))


def proj(i, t, ty="any"):
    if t.op == "tup":
        return t.args[i]
    return mk("proj", (i, t), ty)


def whl(bvs, inits, cond, bodies):
    nb, (c, bd) = close(bvs, (cond, tuple(bodies)))
    return mk("whl", (nb, tuple(inits), c, bd), ("seq", "any"))


def first(b, s, cond, val, default):
    nb, (c, v) = close((b,), (cond, val))
    return mk("first", (nb, s, c, v, default), join_ty(val.ty, default.ty))


# ---------------------------------------------------------------- rebuild table
def _reb_poly(t, args):
    r = ZERO
    for m, c in args:
        x = const(c)
        for a, e in m:
            for _ in range(e):
                x = mul(x, a)
        r = add(r, x)
    return r


def _thr_rebuild(t, args):
    p, c = args
    if t.op == "lt":
        return lt(p, c)
    return tm.le(p, c)


REB = {
    "poly": _reb_poly,
    "ite": lambda t, a: ite(a[0], a[1], a[2]),
    "lt": _thr_rebuild,
    "le": _thr_rebuild,
    "ltx": lambda t, a: lt(a[0], a[1]),
    "eq": lambda t, a: eq(a[0], a[1]),
    "inv": lambda t, a: tm.inv(a[0]),
    "fdiv": lambda t, a: tm.floordiv(a[0], a[1]),
    "floor": lambda t, a: tm.floor(a[0]),
    "mod": lambda t, a: tm.mod(a[0], a[1]),
    "pow": lambda t, a: tm.power(a[0], a[1]),
    "tup": lambda t, a: lift(lambda *x: tup(x), *a) if any(y.op in ("unk",) for y in a) else tup(a),
    "comp": lambda t, a: comp(a[0], a[1], a[2], a[3]),
    "mc": lambda t, a: mk("mc", a, ("mc",)),
    "map": lambda t, a: map_(a[0], [c.args for c in a[1]]),
    "mput": lambda t, a: mput(*a),
    "mdel": lambda t, a: mdel(*a),
    "mget0": lambda t, a: mget0(*a),
    "mget": lambda t, a: mget(*a),
    "in": lambda t, a: (in_set if isinstance(a[1].ty, tuple) and a[1].ty[0] == "set" else
                        in_ if isinstance(a[1].ty, tuple) and a[1].ty[0] == "map" else in_seq)(a[0], a[1]),
    "keys": lambda t, a: keys(a[0]),
    "cat": lambda t, a: cat(a),
    "range": lambda t, a: range_(a[0], a[1]),
    "sorted": lambda t, a: sorted_(a[0], a[1]),
    "rev": lambda t, a: rev(a[0]),
    "len": lambda t, a: set_len(a[0]) if isinstance(a[0].ty, tuple) and a[0].ty[0] == "set" else seq_len(a[0]),
    "mlen": lambda t, a: map_len(a[0]),
    "idx": lambda t, a: idx(a[0], a[1]),
    "slice": lambda t, a: slice_(a[0], a[1], a[2]),
    "sl": lambda t, a: lift(lambda l, h: _mk_slice(a[0], l, h, seq_len(a[0])), a[1], a[2]),
    "zip": lambda t, a: zip_(a),
    "enum": lambda t, a: enum(a[0], a[1]),
    "sum": lambda t, a: sum_(a[0]),
    "smin": lambda t, a: smin(a[0]),
    "smax": lambda t, a: smax(a[0]),
    "exists": lambda t, a: any_(a[0]),
    "sset": lambda t, a: set_of_seq(tup(a)),
    "setof": lambda t, a: set_of_seq(a[0]),
    "elems": lambda t, a: elems(a[0]),
    "sunion": lambda t, a: sunion(a),
    "sinter": lambda t, a: _reb_inter(a),
    "sdiff": lambda t, a: sdiff(a[0], a[1]),
    "cs": lambda t, a: cs_union(a) if a else CS_EMPTY,
    "possible": lambda t, a: possible(a[0]),
    "outcome": lambda t, a: outcome(a[0], a[1]),
    "mupd": lambda t, a: map_update(a[0], a[1]),
    "mpairs": lambda t, a: map_from_pairs(a[0]),
    "mputs": lambda t, a: _reb_mputs(a),
    "proj": lambda t, a: proj(a[0], a[1], t.ty),
    "app": lambda t, a: _reb_app(t, a),
    "fold": lambda t, a: fold(a[0], a[1], a[2], a[3]),
    "whl": lambda t, a: whl(a[0], a[1], a[2], a[3]),
    "first": lambda t, a: first(a[0][0], a[1], a[2], a[3], a[4]),
    "enc": lambda t, a: lift(lambda x: mk("enc", (a[0], x), "str"), a[1]),
}


def _reb_inter(a):
    r = a[0]
    for x in a[1:]:
        r = sinter(r, x)
    return r


def _reb_mputs(a):
    base, c = a
    if c.op == "comp":
        bvs, (gs, cd, e) = open_(c.args[0], c.args[1:])
        return dict_comp(bvs, gs, cd, e.args[0], e.args[1], base)
    if c.op == "tup":
        m = base
        for x in c.args:
            m = mput(m, x.args[0], x.args[1])
        return m
    return mk("mputs", (base, c), ("map", "any", "any"))


APP_REB = {}


def _reb_app(t, a):
    name = a[0]
    if name == "value":
        return value_of(a[1])
    if name == "csof":
        return cs_of(a[1])
    f = APP_REB.get(name)
    if f is not None:
        return f(*a[1:])
    return lift(lambda *xs: app(name, xs, t.ty), *a[1:])
