"""Strings with decimal blocks: literal characters and texts of non-negative integers of unknown length.

A rope is a list of elements; an element is a one-character str or ('D', term) for the decimal text of `term`.
Regular expressions are matched by a backtracking matcher that never looks inside a block.
"""
try:
    import re._parser as sre_parse
    import re._constants as sre_constants
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants

from . import terms as tm
from .terms import mk, const, lift


class Ambiguous(Exception):
    """the answer depends on the digits inside a block"""


def elements(t):
    """list of elements of a string term, or None"""
    if t.op == "c" and t.args[0] == "str":
        return list(t.args[1])
    if t.op == "istr":
        lb = tm.lower_bound(t.args[0])
        if lb is not None and lb >= 0:
            return [("D", t.args[0])]
        return None
    if t.op == "rope":
        out = []
        for p in t.args:
            e = elements(p)
            if e is None:
                return None
            out.extend(e)
        return out
    return None


def from_elements(es):
    parts = []
    cur = ""
    for e in es:
        if isinstance(e, str):
            cur += e
        else:
            if cur:
                parts.append(const(cur))
                cur = ""
            parts.append(istr(e[1]))
    if cur or not parts:
        parts.append(const(cur))
    return rope(parts)


def istr(v):
    def f(x):
        if x.op == "c":
            if x.args[0] == "bool":
                return const("True" if x.args[1] else "False")
            return const(str(x.args[1]))
        return mk("istr", (x,), "str")

    return lift(f, v)


def rope(parts):
    def f(*ps):
        out = []
        for p in ps:
            qs = p.args if p.op == "rope" else (p,)
            for q in qs:
                if q.op == "c" and q.args[0] == "str":
                    if q.args[1] == "":
                        continue
                    if out and out[-1].op == "c":
                        out[-1] = const(out[-1].args[1] + q.args[1])
                        continue
                out.append(q)
        if not out:
            return const("")
        if len(out) == 1:
            return out[0]
        return mk("rope", tuple(out), "str")

    return lift(f, *parts)


DIG = set("0123456789")


def _class_has(items, ch):
    neg = False
    hit = False
    for op, av in items:
        name = str(op)
        if name == "NEGATE":
            neg = True
        elif name == "LITERAL":
            hit = hit or ord(ch) == av
        elif name == "RANGE":
            hit = hit or av[0] <= ord(ch) <= av[1]
        elif name == "CATEGORY":
            hit = hit or _cat(str(av), ch)
        else:
            raise Ambiguous("class item %s" % name)
    return hit != neg


def _cat(cat, ch):
    if cat == "CATEGORY_DIGIT":
        return ch.isdigit()
    if cat == "CATEGORY_NOT_DIGIT":
        return not ch.isdigit()
    if cat == "CATEGORY_SPACE":
        return ch.isspace()
    if cat == "CATEGORY_NOT_SPACE":
        return not ch.isspace()
    if cat == "CATEGORY_WORD":
        return ch.isalnum() or ch == "_"
    if cat == "CATEGORY_NOT_WORD":
        return not (ch.isalnum() or ch == "_")
    raise Ambiguous(cat)


def _single(op, av, e):
    """does one-element pattern accept element e: True/False; raises Ambiguous for a partial match of a block"""
    name = str(op)
    if isinstance(e, str):
        if name == "LITERAL":
            return ord(e) == av
        if name == "NOT_LITERAL":
            return ord(e) != av
        if name == "ANY":
            return e != "\n"
        if name == "IN":
            return _class_has(av, e)
        if name == "CATEGORY":
            return _cat(str(av), e)
    else:
        rs = {_single(op, av, d) for d in DIG}
        if len(rs) == 1:
            return rs.pop()
        raise Ambiguous("digits of a number are told apart")
    raise Ambiguous(name)


SINGLE = {"LITERAL", "NOT_LITERAL", "ANY", "IN", "CATEGORY"}


def match_seq(pat, es, pos, groups, k):
    """continuation-passing backtracking matcher; k(pos, groups) -> result or None"""
    if not pat:
        return k(pos, groups)
    op, av = pat[0]
    rest = pat[1:]
    name = str(op)

    def cont(p, g):
        return match_seq(rest, es, p, g, k)

    if name in SINGLE:
        if pos >= len(es):
            return None
        if not isinstance(es[pos], str):
            if _single(op, av, es[pos]):
                raise Ambiguous("one character of a number")
            return None
        if _single(op, av, es[pos]):
            return cont(pos + 1, groups)
        return None
    if name in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
        lo, hi, sub = av
        sub = list(sub)
        simple = len(sub) == 1 and str(sub[0][0]) in SINGLE

        def rep(n, p, g):
            def more():
                if n >= hi:
                    return None
                if simple:
                    if p >= len(es):
                        return None
                    e = es[p]
                    if isinstance(e, str):
                        if _single(sub[0][0], sub[0][1], e):
                            return rep(n + 1, p + 1, g)
                        return None
                    if not _single(sub[0][0], sub[0][1], e):
                        return None
                    if lo > 1 or (hi is not sre_constants.MAXREPEAT and hi < 1000):
                        raise Ambiguous("counted digits")
                    return rep(max(n + 1, lo), p + 1, g)

                def after(p2, g2):
                    if p2 == p:
                        return None
                    return rep(n + 1, p2, g2)

                return match_seq(sub, es, p, g, after)

            def stop():
                if n < lo:
                    return None
                return cont(p, g)

            if name == "MIN_REPEAT":
                r = stop()
                return r if r is not None else more()
            r = more()
            return r if r is not None else stop()

        return rep(0, pos, groups)
    if name == "SUBPATTERN":
        gid, sub = av[0], list(av[-1])

        def after(p, g):
            if gid is not None:
                g = dict(g)
                g[gid] = (pos, p)
            return cont(p, g)

        return match_seq(sub, es, pos, groups, after)
    if name == "BRANCH":
        for alt in av[1]:
            r = match_seq(list(alt) + rest, es, pos, groups, k)
            if r is not None:
                return r
        return None
    if name == "AT":
        at = str(av)
        if at in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            return cont(pos, groups) if pos == 0 else None
        if at in ("AT_END",):
            ok = pos == len(es) or (pos == len(es) - 1 and es[pos] == "\n")
            return cont(pos, groups) if ok else None
        if at == "AT_END_STRING":
            return cont(pos, groups) if pos == len(es) else None
        if at in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            def word(i):
                if not 0 <= i < len(es):
                    return False
                return True if not isinstance(es[i], str) else _cat("CATEGORY_WORD", es[i])

            b = word(pos - 1) != word(pos)
            return cont(pos, groups) if b == (at == "AT_BOUNDARY") else None
        raise Ambiguous(at)
    if name in ("ASSERT", "ASSERT_NOT"):
        d, sub = av
        if d != 1:
            raise Ambiguous("lookbehind")
        r = match_seq(list(sub), es, pos, groups, lambda p, g: (p, g))
        if (r is not None) == (name == "ASSERT"):
            return cont(pos, groups)
        return None
    if name == "ATOMIC_GROUP":
        r = match_seq(list(av), es, pos, groups, lambda p, g: (p, g))
        if r is None:
            return None
        return cont(r[0], r[1])
    raise Ambiguous(name)


def parse(pattern):
    p = sre_parse.parse(pattern)
    return list(p), p.state.groups - 1, dict(p.state.groupdict)


def match_at(pattern, es, pos, full=False):
    pat, n, names = parse(pattern)

    def done(p, g):
        if full and p != len(es):
            return None
        return (p, g)

    return match_seq(pat, es, pos, {}, done)


def search(pattern, es, start=0):
    for p in range(start, len(es) + 1):
        r = match_at(pattern, es, p)
        if r is not None:
            return p, r
    return None


def finditer(pattern, es):
    out = []
    pos = 0
    while pos <= len(es):
        r = search(pattern, es, pos)
        if r is None:
            break
        s, (e, g) = r
        out.append((s, e, g))
        pos = e if e > s else e + 1
    return out


def split(pattern, es, maxsplit=0):
    _, n, _ = parse(pattern)
    out = []
    last = 0
    for s, e, g in finditer(pattern, es):
        if maxsplit and len(out) >= maxsplit * (n + 1):
            break
        out.append(es[last:s])
        for j in range(1, n + 1):
            out.append(es[g[j][0]:g[j][1]] if j in g else None)
        last = e
    out.append(es[last:])
    return out


def sub(pattern, repl, es, count=0):
    out = []
    last = 0
    k = 0
    for s, e, g in finditer(pattern, es):
        if count and k >= count:
            break
        out.extend(es[last:s])
        out.extend(repl(s, e, g))
        last = e
        k += 1
    out.extend(es[last:])
    return out


def str_split(es, sep, maxsplit=-1):
    """str.split with a literal separator (None: whitespace)"""
    if sep is None:
        parts, cur = [], []
        for e in es:
            if isinstance(e, str) and e.isspace():
                if cur:
                    parts.append(cur)
                cur = []
            else:
                cur.append(e)
        if cur:
            parts.append(cur)
        return parts
    if any(c in DIG for c in sep) and any(not isinstance(e, str) for e in es):
        raise Ambiguous("separator contains a digit")
    parts, cur, i = [], [], 0
    while i < len(es):
        if (maxsplit < 0 or len(parts) < maxsplit) and es[i:i + len(sep)] == list(sep):
            parts.append(cur)
            cur = []
            i += len(sep)
        else:
            cur.append(es[i])
            i += 1
    parts.append(cur)
    return parts


def strip(es, chars, left=True, right=True):
    def drop(e):
        if chars is None:
            return isinstance(e, str) and e.isspace()
        if isinstance(e, str):
            return e in chars
        if any(c in DIG for c in chars):
            raise Ambiguous("strip digits")
        return False

    es = list(es)
    while left and es and drop(es[0]):
        es.pop(0)
    while right and es and drop(es[-1]):
        es.pop()
    return es
