"""Abstract semantics of the values, builtins and library calls the analysed code may use."""
import copy
import re as pyre
import math as pymath
from fractions import Fraction

from . import terms as tm
from . import seqs as sq
from . import ropes as rp
from .terms import (T, mk, const, TRUE, FALSE, NONE, ZERO, ONE, UNDEF, ite, and_, or_, not_, eq, lt, le, gt, ge, add,
                    sub, mul, neg, truth, lift, fv, tup, unk, app, sym, is_const, cval, is_numty, is_intty, num,
                    restrict, leaves)
from .interp import Obj, Ctl, Dead, Func, Class, FUNCS, CLASSES, bi, ext, ref, EXC_NAMES, Unsupported, WORLD, Ev, exc_name, Exc

BUILTINS = set("""len sum max min abs sorted reversed range list tuple dict set frozenset str int float bool isinstance
issubclass hasattr getattr setattr callable type repr hash id zip map filter enumerate any all iter next super object
print round divmod pow property staticmethod classmethod NotImplemented format chr ord vars slice bytes
NotImplementedError""".split()) - {"NotImplementedError"}

NULLC = mk("nullc", (), "constraint")
IMPOSSC = mk("impossc", (), "constraint")


def varc(name, values):
    return lift(lambda n, v: mk("varc", (n, v), "constraint"), name, values)


sq.REB["varc"] = lambda t, a: varc(a[0], a[1])
sq.REB["rope"] = lambda t, a: rp.rope(a)
sq.REB["istr"] = lambda t, a: rp.istr(a[0])
sq.REB["draws"] = lambda t, a: draws(a[0], a[1], a[2])
sq.REB["obj"] = lambda t, a: mk("obj", a, t.ty)


def builtin(name):
    if name in BUILTINS:
        return bi(name)
    if name == "__name__":
        return const("module")
    return None


# ---------------------------------------------------------------- kinds of values
def cls_of(i, v):
    """class term of a value that is an instance of an analysed class, else None"""
    if v.op == "ref":
        o = i.deref(v)
        if o.kind == "inst":
            return mk("cls", (o.cls,), "fn")
    if v.op == "obj":
        return mk("cls", (v.args[0],), "fn")
    if v.ty == "outcome":
        return i.class_by_simple("ProbabilityOutcome")
    if isinstance(v.ty, tuple) and v.ty[0] == "obj":
        return i.class_by_simple(v.ty[1])
    return None


def is_seqlike(v):
    return isinstance(v.ty, tuple) and v.ty[0] == "seq"


def kind(i, v):
    if v.op == "ref":
        return i.deref(v).kind
    if v.op == "c":
        return v.args[0]
    if isinstance(v.ty, tuple):
        return {"seq": "seq", "map": "map", "set": "setv", "obj": "opaque", "dist": "distv"}.get(v.ty[0], "any")
    if v.ty in ("int", "num", "bool", "str", "outcome", "cs", "constraint"):
        return v.ty
    return v.op if v.op in ("fn", "bm", "cls", "bi", "ext", "mod", "om", "partial") else "any"


def is_scalar_num(v):
    return is_numty(v.ty)


def mixed(v):
    """a gated value whose leaves cannot be handled by the scalar operators"""
    if v.op != "ite":
        return False
    ls = [x for _, x in leaves(v)]
    return any(x.op in ("ref", "obj", "undef") or not (is_numty(x.ty)) for x in ls)


# ---------------------------------------------------------------- thawing: terms that stand for objects
def thaw(i, v):
    """an instance on the heap for an immutable description of one"""
    memo = i.__dict__.setdefault("thawed", {})
    r = memo.get(v)
    if r is not None and r.args[0] in i.st.heap:
        o = i.deref(r)
        if o.kind == "inst" and o.origin is v:
            return r
    if v.ty == "outcome":
        c = i.class_by_simple("ProbabilityOutcome")
        cs = i.alloc(Obj("cs", None, {"c": sq.cs_of(v)}, origin=v))
        r = i.call(c, [sq.value_of(v), cs])
        if r.op == "ref":
            o = i.deref(r)
            i.st.heap[r.args[0]] = Obj(o.kind, o.cls, o.fields, origin=v)
            memo[v] = r
        return r
    if v.op == "obj":
        f = {}
        for name, k, t in v.args[1]:
            f[name] = unbox(i, k, t)
        r = i.alloc(Obj("inst", v.args[0], f))
        return r
    if v.op == "varc" and not i.abstract_cs:
        raise Unsupported("thaw constraint")
    return v


def unbox(i, k, t):
    if k in ("list", "dict", "set", "iter", "cs"):
        return i.alloc(Obj(k, None, {"c": t}))
    return t


# ---------------------------------------------------------------- freezing
def freeze(i, v, depth=0):
    if not isinstance(v, T):
        return unk("not a value")
    if depth > 8:
        return unk("deep object")
    if v.op == "ite":
        return ite(v.args[0], freeze(i, v.args[1], depth), freeze(i, v.args[2], depth))
    if v.op == "ref":
        o = i.st.heap.get(v.args[0])
        if o is None:
            return unk("dangling reference")
        if o.kind in ("list", "iter", "set", "dict"):
            return freeze_content(i, o.fields["c"], depth)
        if o.kind == "cs":
            return o.fields["c"]
        if o.kind == "inst":
            c = mk("cls", (o.cls,), "fn")
            if i.implements(c, "IProbabilityOutcome"):
                val = freeze(i, i.getattr(v, "value"), depth + 1)
                cs = freeze(i, i.getattr(v, "constraint_set"), depth + 1)
                if cs.op == "obj":
                    cs = app("csobj", (cs,), "cs")
                return sq.outcome(val, cs)
            if i.implements(c, "IConstraint"):
                return constraint_term(i, v)
            fs = []
            for n in sorted(o.fields):
                x = o.fields[n]
                k = "val"
                if x.op == "ref" and i.st.heap.get(x.args[0]) is not None:
                    k = i.st.heap[x.args[0]].kind
                if k == "inst" or k not in ("list", "dict", "set", "iter", "cs"):
                    k = "val"
                fs.append((n, k, freeze(i, x, depth + 1)))
            if any(t.op == "unk" for _, _, t in fs):
                return [t for _, _, t in fs if t.op == "unk"][0]
            return mk("obj", (o.cls, tuple(fs)), ("obj", CLASSES[o.cls].name))
        return v
    if v.op in ("tup", "cat", "comp", "map", "mput", "sset", "sunion"):
        return freeze_content(i, v, depth)
    return v


def freeze_content(i, c, depth):
    rs = [x for x in tm.walk(c) if x.op == "ref"]
    if not rs:
        return c
    return sq.subst(c, {r: freeze(i, r, depth + 1) for r in rs})


def freeze_scalar(i, v):
    return freeze(i, v)


def constraint_term(i, v):
    if v.ty == "constraint":
        return v
    if v.op == "ite":
        return ite(v.args[0], constraint_term(i, v.args[1]), constraint_term(i, v.args[2]))
    c = cls_of(i, v)
    if c is None:
        return unk("constraint of unknown kind")
    if i.implements(c, "IVarValueConstraint"):
        return varc(freeze(i, i.getattr(v, "name")), freeze(i, i.getattr(v, "values")))
    if i.implements(c, "INullConstraint"):
        return NULLC
    if i.implements(c, "IImpossibleConstraint"):
        return IMPOSSC
    if v.op == "sym":
        return mk("opqc", (v,), "constraint")
    return unk("constraint of unknown kind")


def cs_content(i, s):
    """constraint-set content described by a set of constraints"""
    s = i.simplify(s)
    if s.op == "ite":
        return ite(s.args[0], cs_content(i, s.args[1]), cs_content(i, s.args[2]))
    if s.op == "ref":
        o = i.deref(s)
        if o.kind in ("set", "list", "iter"):
            return cs_content(i, o.fields["c"])
        if o.kind == "cs":
            return o.fields["c"]
        if o.kind == "inst":
            return cs_content(i, i.to_seq(s))
    if s.op in ("sset", "tup"):
        parts = []
        for e in s.args:
            t = constraint_term(i, e)
            parts.append(sq.CS_EMPTY if t is NULLC else lift(lambda x: sq.CS_EMPTY if x is NULLC else mk("cs", (x,), "cs"), t))
        return sq.cs_union(parts) if parts else sq.CS_EMPTY
    if s.op in ("sunion", "cat"):
        return sq.cs_union([cs_content(i, p) for p in s.args])
    if s.op == "app" and s.args[0] == "constraints":
        return s.args[1]
    if s.op == "elems":
        return cs_content(i, s.args[0])
    if s.op == "setof":
        return cs_content(i, s.args[0])
    if s.op in ("unk",):
        return s
    return app("cs_of_set", (s,), "cs")


def key_of(i, v):
    v = i.simplify(v)
    if v.op == "ite":
        return ite(v.args[0], key_of(i, v.args[1]), key_of(i, v.args[2]))
    if v.op == "tup":
        return tup([key_of(i, x) for x in v.args])
    if v.op == "ref":
        o = i.deref(v)
        if o.kind == "inst":
            c = mk("cls", (o.cls,), "fn")
            if i.implements(c, "IProbabilityOutcome"):
                return freeze(i, v)
            if i.implements(c, "IConstraint"):
                return freeze(i, v) if i.abstract_cs else v
            if i.class_attr(c, "__eq__") is not None or "dataclass" in CLASSES[o.cls].flags:
                return freeze(i, v)
            return v
        if o.kind in ("list", "dict", "set"):
            if o.kind == "set" and o.fields.get("frozen") is TRUE:
                return o.fields["c"]
            i.raise_name("TypeError")
    if v.ty == "bool":
        return num(v) if not is_const(v) else const(int(cval(v)))
    return v


# ---------------------------------------------------------------- conversion to sequences
def set_elems(i, c, r=None):
    """a set has no order of its own: with set_order=rev it is enumerated the other way round"""
    s = sq.elems(c)
    if i.config.get("set_order") == "rev" or r is not None and r.args[0] in i.rev_sets:
        return tup(reversed(s.args)) if s.op == "tup" else sq.rev(s)
    return s


def to_seq(i, v):
    if v.op == "cls" and "enum" in CLASSES[v.args[0]].flags:
        return i.deref(CLASSES[v.args[0]].hid).fields["__members_seq__"]
    if v.op == "ref":
        o = i.deref(v)
        if o.kind in ("list", "iter"):
            return o.fields["c"]
        if o.kind == "set":
            return set_elems(i, o.fields["c"], v)
        if o.kind == "dict":
            return sq.keys(o.fields["c"])
        if o.kind == "inst":
            c = mk("cls", (o.cls,), "fn")
            m = i.class_attr(c, "__iter__")
            if m is not None:
                return i.to_seq(i.call(m, [v]))
            if "__iter__" not in o.fields and i.class_attr(c, "__getitem__") is None:
                i.raise_name("TypeError")
    if v.op == "c":
        if v.args[0] == "str":
            return tup([const(x) for x in cval(v)])
        i.raise_name("TypeError")
    if v.op in ("unk", "undef"):
        return v if v.op == "unk" else unk("undefined")
    if isinstance(v.ty, tuple):
        if v.ty[0] == "seq":
            return v
        if v.ty[0] == "set":
            return set_elems(i, v)
        if v.ty[0] == "map":
            return sq.keys(v)
    if v.op == "app" and v.args[0] == "csobj":
        return unk("iterate constraint object")
    es = rp.elements(v) if v.ty == "str" else None
    if es is not None and all(isinstance(e, str) for e in es):
        return tup([const(e) for e in es])
    if v.ty == "str":
        return unk("characters of an unknown text")
    if v.op in ("sym", "app", "bv", "idx", "proj", "mget", "first", "c"):
        return mk("iterate", (v,), ("seq", "any"))
    i.note("iterate %s" % (v,))
    return unk("iterate %s" % v.op)


# ---------------------------------------------------------------- strings
def str_(i, v):
    v = i.simplify(v)
    if v.op == "ite":
        if all(is_intty(x.ty) for _, x in leaves(v)):
            return lift(rp.istr, v)
        return i.cases(v, lambda x: str_(i, x))
    if v.ty == "str":
        return v
    if v.op == "c":
        if v.args[0] == "none":
            return const("None")
        if v.args[0] == "num":
            return app("fstr", (v,), "str")
        return const(str(cval(v)))
    if v.ty == "bool":
        return ite(v, const("True"), const("False"))
    if v.ty == "int":
        return rp.istr(v)
    if v.ty == "num":
        return app("fstr", (v,), "str")
    if v.ty == "outcome" or v.op == "obj":
        v = thaw(i, v)
    if v.op == "ref":
        o = i.deref(v)
        if o.kind == "inst":
            c = mk("cls", (o.cls,), "fn")
            for n in ("__str__", "__repr__"):
                m = i.class_attr(c, n)
                if m is not None:
                    return i.call(m, [v])
            return app("strof", (const(CLASSES[o.cls].name),), "str")
        if o.kind == "list":
            parts = [const("[")]
            c = o.fields["c"]
            if c.op == "tup":
                for j, x in enumerate(c.args):
                    if j:
                        parts.append(const(", "))
                    parts.append(repr_(i, x))
                return strcat(parts + [const("]")])
        if o.kind == "set" and (i.config.get("set_order") == "rev" or v.args[0] in i.rev_sets) and not (o.fields["c"].op == "sset" and len(o.fields["c"].args) < 2):
            return app("strof", (const("set, other order"), freeze(i, v)), "str")
        return app("strof", (const(o.kind), freeze(i, v)), "str")
    if v.op in ("cls", "bi", "ext", "fn"):
        return app("strof", (const(name_of(v)),), "str")
    if isinstance(v.ty, tuple) and v.ty[0] == "obj":
        return call_opaque(i, v, "__str__", [], {})
    if v.op in ("unk", "undef"):
        return unk("text of unknown")
    return app("str", (freeze(i, v),), "str")


def name_of(v):
    if v.op == "cls":
        return CLASSES[v.args[0]].name
    if v.op == "fn":
        return FUNCS[v.args[0]].name
    if v.op == "bi":
        return v.args[0].replace("exc:", "")
    if v.op == "ext":
        return v.args[0].split(".")[-1]
    return v.op


def repr_(i, v):
    v = i.simplify(v)
    if v.op == "ite":
        return i.cases(v, lambda x: repr_(i, x))
    if v.op == "c" and v.args[0] == "str":
        return const(repr(cval(v)))
    if v.ty == "str":
        return app("repr", (v,), "str")
    if v.ty == "outcome" or v.op == "obj":
        v = thaw(i, v)
    if v.op == "ref" and i.deref(v).kind == "inst":
        c = cls_of(i, v)
        m = i.class_attr(c, "__repr__")
        if m is not None:
            return i.call(m, [v])
        return app("strof", (const(name_of(c)),), "str")
    return str_(i, v)


def strcat(parts):
    bad = [p for p in parts if p.op in ("unk", "undef")]
    if bad:
        return unk("text of unknown")
    return rp.rope(parts)


def pyconst(v):
    """python value of a constant term (tuples included), or raises"""
    if v.op == "c":
        return cval(v)
    if v.op == "tup":
        return tuple(pyconst(x) for x in v.args)
    raise KeyError


def is_pyconst(v):
    return v.op == "c" or (v.op == "tup" and all(is_pyconst(x) for x in v.args))


def lit(i, x):
    """python constant to a value"""
    if isinstance(x, (list,)):
        return i.alloc(Obj("list", None, {"c": tup([lit(i, y) for y in x])}))
    if isinstance(x, tuple):
        return tup([lit(i, y) for y in x])
    return const(x)


STR_METHODS = set(m for m in dir(str) if not m.startswith("_"))


def str_method(i, s, name, args, kwargs):
    args = [i.simplify(a) for a in args]
    if s.op == "ite" or any(a.op == "ite" and a.ty == "str" for a in args):
        if s.op == "ite":
            return i.cases(s, lambda x: str_method(i, x, name, args, kwargs))
    if name == "join":
        return str_join(i, s, i.to_seq(args[0]))
    if name == "format":
        return str_format(i, s, args, kwargs)
    if s.op == "c" and all(is_pyconst(a) for a in args) and all(is_pyconst(a) for a in kwargs.values()):
        try:
            return lit(i, getattr(cval(s), name)(*[pyconst(a) for a in args],
                                                 **{k: pyconst(a) for k, a in kwargs.items()}))
        except Exception as e:  # the operation itself fails on these constants
            i.raise_name(type(e).__name__)
    if s.op == "enc" and name == "split" and args and args[0] is s.args[0]:
        items = sq.map_over(s.args[1], lambda x: rp.istr(x))
        # "".split(sep) is [""] : the empty list must have been handled by the caller
        return i.alloc(Obj("list", None, {"c": items}))
    es = rp.elements(s)
    if es is not None and all(is_pyconst(a) for a in args):
        pa = [pyconst(a) for a in args]
        L = lambda parts: i.alloc(Obj("list", None, {"c": tup([rp.from_elements(p) for p in parts])}))
        try:
            if name == "split":
                return L(rp.str_split(es, pa[0] if pa else None, pa[1] if len(pa) > 1 else cval(kwargs["maxsplit"]) if "maxsplit" in kwargs else -1))
            if name == "rsplit" and len(pa) == 1 and not kwargs:
                return L(rp.str_split(es, pa[0]))
            if name in ("rsplit",) and len(pa) == 2 and pa[1] == 1:
                parts = rp.str_split(es, pa[0])
                if len(parts) > 2:
                    head = []
                    for j, p in enumerate(parts[:-1]):
                        if j:
                            head.extend(pa[0])
                        head.extend(p)
                    parts = [head, parts[-1]]
                return L(parts)
            if name in ("partition", "rpartition"):
                parts = rp.str_split(es, pa[0], 1 if name == "partition" else -1)
                if len(parts) == 1:
                    r = (parts[0], [], []) if name == "partition" else ([], [], parts[0])
                elif name == "partition":
                    r = (parts[0], list(pa[0]), parts[1])
                else:
                    head = []
                    for j, p in enumerate(parts[:-1]):
                        if j:
                            head.extend(pa[0])
                        head.extend(p)
                    r = (head, list(pa[0]), parts[-1])
                return tup([rp.from_elements(p) for p in r])
            if name in ("strip", "lstrip", "rstrip"):
                return rp.from_elements(rp.strip(es, pa[0] if pa and pa[0] is not None else None, name != "rstrip",
                                                 name != "lstrip"))
            if name == "replace" and len(pa) == 2:
                parts = rp.str_split(es, pa[0])
                out = []
                for j, p in enumerate(parts):
                    if j:
                        out.extend(pa[1])
                    out.extend(p)
                return rp.from_elements(out)
            if name in ("startswith", "endswith"):
                alts = pa[0] if isinstance(pa[0], tuple) else (pa[0],)
                res = False
                for a in alts:
                    seg = es[:len(a)] if name == "startswith" else (es[-len(a):] if a else [])
                    for x, y in zip(seg, a):
                        if not isinstance(x, str) and y in rp.DIG:
                            raise rp.Ambiguous("digit")
                    res = res or seg == list(a)
                return const(res)
            if name in ("removeprefix", "removesuffix"):
                a = pa[0]
                if name == "removeprefix":
                    return rp.from_elements(es[len(a):] if es[:len(a)] == list(a) else es)
                return rp.from_elements(es[:-len(a)] if a and es[-len(a):] == list(a) else es)
            if name in ("isdigit", "isnumeric", "isdecimal"):
                return const(len(es) > 0 and all(not isinstance(e, str) or e.isdigit() for e in es))
            if name in ("upper", "lower"):
                return rp.from_elements([getattr(e, name)() if isinstance(e, str) else e for e in es])
            if name == "count" and len(pa) == 1:
                return const(len(rp.str_split(es, pa[0])) - 1)
            if name in ("find", "index") and len(pa) == 1:
                parts = rp.str_split(es, pa[0], 1)
                if len(parts) == 1:
                    if name == "index":
                        i.raise_name("ValueError")
                    return const(-1)
                if all(isinstance(e, str) for e in parts[0]):
                    return const(len(parts[0]))
                return mk("relen", (const(len(parts[0])), rp.from_elements(parts[0])), "int")
            if name == "encode":
                return unk("encode")
        except rp.Ambiguous as e:
            i.note("text: %s" % e)
            return unk("text: %s" % e)
    fz = [freeze(i, a) for a in args]
    ty = {"split": ("seq", "str"), "rsplit": ("seq", "str"), "startswith": "bool", "endswith": "bool", "isdigit": "bool",
          "count": "int", "find": "int", "index": "int", "partition": ("seq", "str"), "isupper": "bool",
          "islower": "bool", "isalpha": "bool", "isspace": "bool", "isidentifier": "bool", "splitlines": ("seq", "str"),
          "rpartition": ("seq", "str")}.get(name, "str")
    if kwargs:
        return unk("string method with keywords")
    r = lift(lambda *xs: app("str." + name, xs, ty), s, *fz)
    if name in ("split", "rsplit", "splitlines"):
        return i.alloc(Obj("list", None, {"c": r}))
    return r


def str_join(i, sep, s):
    if s.op == "ite":
        return i.branch(s.args[0], lambda: str_join(i, sep, s.args[1]), lambda: str_join(i, sep, s.args[2]))
    if s.op == "tup":
        parts = []
        for j, x in enumerate(s.args):
            if j:
                parts.append(sep)
            parts.append(x)
        return strcat(parts) if parts else const("")
    if s.op == "unk":
        return s
    if s.op == "comp" and s.args[3].op == "istr":
        bvs, (gs, c, e) = sq.open_(s.args[0], s.args[1:])
        for b, g in zip(bvs, gs):
            sq.note_member(b, g)
        ints = sq.comp(bvs, gs, c, e.args[0])
        return lift(lambda x: mk("enc", (sep, x), "str"), ints)
    if s.op == "cat":
        return app("str.join", (sep, s), "str")
    return app("str.join", (sep, s), "str")


def str_format(i, s, args, kwargs):
    if s.op != "c":
        return unk("format of unknown text")
    out = []
    auto = 0
    import string
    for litt, field, spec, conv in string.Formatter().parse(cval(s)):
        if litt:
            out.append(const(litt))
        if field is None:
            continue
        if spec:
            return unk("format spec")
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            return unk("format field")
        out.append(repr_(i, v) if conv == "r" else str_(i, v))
    return strcat(out)


def narrow(i, v):
    """a whole number is made of a quotient that went through a float: exact only while the float is"""
    if isinstance(v, T) and not getattr(i, "exact_quotients", False) and tm.contains_op(v, "inv"):
        i.__dict__.setdefault("narrowed", []).append(i.where())


def to_int(i, v, base=None):
    v = i.simplify(v)
    if v.ty == "num":
        narrow(i, v)
    if v.op == "ite" and v.ty not in ("int", "bool", "num"):
        return i.cases(v, lambda x: to_int(i, x))
    if v.ty in ("int", "bool"):
        return num(v)
    if v.ty == "num":
        # truncation towards zero
        return lift(lambda x: ite(lt(x, ZERO), neg(tm.floor(neg(x))), tm.floor(x)), v)
    if v.op == "c" and v.args[0] == "str":
        try:
            return const(int(cval(v)))
        except ValueError:
            i.raise_name("ValueError")
    if v.op == "istr":
        return v.args[0]
    es = rp.elements(v)
    if es is not None:
        es = rp.strip(es, None)
        sgn = 1
        if es and es[0] in ("-", "+"):
            sgn = -1 if es[0] == "-" else 1
            es = es[1:]
        while len(es) > 1 and es[0] == "0" and not (isinstance(es[1], str) and es[1] != "0"):
            es = es[1:]
        if len(es) == 1 and not isinstance(es[0], str):
            return mul(const(sgn), es[0][1])
        if es and all(isinstance(e, str) and e.isdigit() for e in es):
            return const(sgn * int("".join(es)))
        if not es or any(isinstance(e, str) and not (e.isdigit() or e == "_") for e in es):
            i.raise_name("ValueError")
        return unk("digits joined to a number")
    if v.ty == "str":
        return app("int", (v,), "int")
    if v.op in ("unk", "undef"):
        return unk("int of unknown")
    if v.op == "ref":
        o = i.deref(v)
        if o.kind == "inst":
            m = i.class_attr(cls_of(i, v), "__int__")
            if m is not None:
                return i.call(m, [v])
        i.raise_name("TypeError")
    return app("int", (freeze(i, v),), "int")


# ---------------------------------------------------------------- regular expressions
MATCHES = []


def re_call(i, fn, args, kwargs):
    pat = args[0] if args else kwargs.get("pattern")
    if pat.op == "app" and pat.args[0] == "re.compile":
        pat = pat.args[1]
    if fn == "compile":
        return app("re.compile", (pat,), "any")
    if fn == "escape":
        return const(pyre.escape(cval(pat))) if is_const(pat) else unk("escape")
    rest = list(args[1:])
    names = {"sub": ["repl", "string", "count", "flags"], "subn": ["repl", "string", "count", "flags"],
             "split": ["string", "maxsplit", "flags"]}.get(fn, ["string", "flags"])
    vals = dict(zip(names, rest))
    vals.update({k: v for k, v in kwargs.items() if k != "pattern"})
    s = i.simplify(vals.get("string", NONE))
    if s.op == "ite":
        return i.cases(s, lambda x: re_call(i, fn, args[:1] + ([vals["repl"], x] if fn in ("sub", "subn") else [x]), {}))
    pat = i.simplify(pat)
    if pat.op == "ite":
        return i.cases(pat, lambda p: re_call(i, fn, [p] + list(args[1:]), kwargs))
    if not is_const(pat) or ("flags" in vals and vals["flags"] is not ZERO):
        i.note("regular expression is not a constant")
        return unk("regular expression")
    p = cval(pat)
    es = rp.elements(s)
    if s.op == "enc" and fn == "split" and pyre.escape(cval(s.args[0])) == p.strip("[]").replace("[", "") or (
            s.op == "enc" and fn == "split" and p in ("[|]", r"\|") and s.args[0] is const("|")):
        return str_method(i, s, "split", [s.args[0]], {})
    if es is None:
        if s.op in ("unk", "undef"):
            return unk("regular expression on unknown text")
        if fn in ("match", "fullmatch", "search"):
            c = app("re." + fn, (pat, s), "bool")
            return ite(c, app("re.matchobj", (const(fn), pat, s), "any"), NONE)
        if fn == "split":
            return i.alloc(Obj("list", None, {"c": app("re.split", (pat, s), ("seq", "str"))}))
        if fn == "sub":
            return app("re.sub", (pat, freeze(i, vals["repl"]), s), "str")
        if fn == "findall":
            return i.alloc(Obj("list", None, {"c": app("re.findall", (pat, s), ("seq", "any"))}))
        return unk("re." + fn)
    try:
        _, ngroups, gnames = rp.parse(p)

        def mobj(start, end, g):
            MATCHES.append((es, start, end, g, ngroups, gnames))
            return mk("rematch", (len(MATCHES) - 1,), "match")

        if fn in ("match", "fullmatch"):
            r = rp.match_at(p, es, 0, fn == "fullmatch")
            return NONE if r is None else mobj(0, r[0], r[1])
        if fn == "search":
            r = rp.search(p, es)
            return NONE if r is None else mobj(r[0], r[1][0], r[1][1])
        if fn == "split":
            ms = vals.get("maxsplit")
            parts = rp.split(p, es, cval(ms) if ms is not None else 0)
            return i.alloc(Obj("list", None, {"c": tup([NONE if q is None else rp.from_elements(q) for q in parts])}))
        if fn in ("findall", "finditer"):
            out = []
            for s0, e0, g in rp.finditer(p, es):
                if fn == "finditer":
                    out.append(mobj(s0, e0, g))
                elif ngroups == 0:
                    out.append(rp.from_elements(es[s0:e0]))
                elif ngroups == 1:
                    out.append(rp.from_elements(es[g[1][0]:g[1][1]] if 1 in g else []))
                else:
                    out.append(tup([rp.from_elements(es[g[j][0]:g[j][1]] if j in g else []) for j in range(1, ngroups + 1)]))
            return i.alloc(Obj("list" if fn == "findall" else "iter", None, {"c": tup(out)}))
        if fn == "sub":
            rpl = vals["repl"]
            if is_const(rpl):
                text = cval(rpl)

                def repl(s0, e0, g):
                    out, k = [], 0
                    while k < len(text):
                        if text[k] == "\\" and k + 1 < len(text):
                            n = text[k + 1]
                            if n.isdigit():
                                j = int(n)
                                if j == 0:
                                    out.extend(es[s0:e0])
                                elif j in g:
                                    out.extend(es[g[j][0]:g[j][1]])
                                k += 2
                                continue
                            if n == "g":
                                close_ = text.index(">", k)
                                nm = text[k + 3:close_]
                                j = int(nm) if nm.isdigit() else gnames[nm]
                                if j == 0:
                                    out.extend(es[s0:e0])
                                elif j in g:
                                    out.extend(es[g[j][0]:g[j][1]])
                                k = close_ + 1
                                continue
                            out.append({"n": "\n", "t": "\t"}.get(n, n))
                            k += 2
                            continue
                        out.append(text[k])
                        k += 1
                    return out
            else:
                def repl(s0, e0, g):
                    r = i.call(rpl, [mobj(s0, e0, g)])
                    q = rp.elements(r)
                    if q is None:
                        raise rp.Ambiguous("replacement")
                    return q
            return rp.from_elements(rp.sub(p, repl, es, cval(vals["count"]) if "count" in vals else 0))
    except rp.Ambiguous as e:
        i.note("regular expression %r: %s" % (p, e))
        return unk("regular expression: %s" % e)
    return unk("re." + fn)


def match_method(i, m, name, args):
    es, s0, e0, g, n, names = MATCHES[m.args[0]]

    def grp(k):
        if is_const(k):
            k = cval(k)
            if isinstance(k, str):
                k = names[k]
            if k == 0:
                return rp.from_elements(es[s0:e0])
            return rp.from_elements(es[g[k][0]:g[k][1]]) if k in g else NONE
        return unk("group")

    if name in ("group", "__getitem__"):
        if len(args) <= 1:
            return grp(args[0] if args else ZERO)
        return tup([grp(a) for a in args])
    if name == "groups":
        return tup([grp(const(k)) if k in g else (args[0] if args else NONE) for k in range(1, n + 1)])
    if name == "groupdict":
        m2 = sq.EMPTY_MAP
        for nm, k in names.items():
            m2 = sq.mput(m2, const(nm), grp(const(k)))
        return i.alloc(Obj("dict", None, {"c": m2}))
    if name in ("start", "end", "span"):
        if all(isinstance(x, str) for x in es[:e0]):
            return {"start": const(s0), "end": const(e0), "span": tup((const(s0), const(e0)))}[name]
        if name == "end":
            return mk("relen", (const(e0), rp.from_elements(es[:e0])), "int")
    return unk("match." + name)


# ---------------------------------------------------------------- randomness
def draws(w, k, occ):
    def f(a, b, c):
        return mk("draws", (a, b, c), ("seq", sq.elem_ty(a.ty)))

    return lift(f, w, num(k), occ)


def rng_take(i, n):
    o = i.st.heap[WORLD]
    c = o.fields.get(("rng",), ZERO)
    i.st.heap[WORLD] = o.put(("rng",), add(c, n))
    return c


def weight_map(pop, weights):
    """additive map value -> weight"""
    if weights is None:
        return sq.map_(None, [comp_parts(pop, lambda x: (x, ONE))]) if pop.op != "tup" else lit_weights(
            pop.args, [ONE] * len(pop.args))
    z = sq.zip_([pop, weights])
    if z.op == "tup":
        return lit_weights([a.args[0] for a in z.args], [a.args[1] for a in z.args])
    return lift(lambda s: sq.map_(None, [comp_parts(s, lambda x: (sq.idx(x, ZERO), sq.idx(x, ONE)))])
                if s.op != "tup" else lit_weights([a.args[0] for a in s.args], [a.args[1] for a in s.args]), z)


def lit_weights(ks, ws):
    return sq.map_(None, [((), (), TRUE, k, w) for k, w in zip(ks, ws)])


def comp_parts(s, f):
    if s.op == "comp":
        bvs, (gs, c, e) = sq.open_(s.args[0], s.args[1:])
        for b, g in zip(bvs, gs):
            sq.note_member(b, g)
        k, v = f(e)
        return (list(bvs), list(gs), c, k, v)
    b = tm.fresh_bv(sq.seq_elem_ty(s))
    sq.note_member(b, s)
    k, v = f(b)
    return ([b], [s], TRUE, k, v)


def do_draws(i, w, k, what):
    k = num(k)
    if w.op == "unk" or k.op == "unk":
        i.event("rng", what, None, (w, k))
        return unk("random draw")
    occ = rng_take(i, ite(lt(k, ZERO), ZERO, k))
    i.event("rng", what, None, (w, k))
    return draws(w, k, occ)


def random_call(i, fn, args, kwargs):
    a = list(args)
    if fn == "choices":
        pop = i.to_seq(a[0] if a else kwargs["population"])
        weights = a[1] if len(a) > 1 else kwargs.get("weights", NONE)
        k = kwargs.get("k", ONE)
        cum = kwargs.get("cum_weights", a[2] if len(a) > 2 else NONE)
        if cum is not NONE:
            i.event("rng", fn)
            cs = i.to_seq(cum)
            w = app("cumweights", (pop, cs), ("map", sq.seq_elem_ty(pop), "num"))
        else:
            ws = None if weights is NONE else i.to_seq(weights)
            w = lift(lambda p: weight_map(p, ws), pop) if ws is None else lift(lambda p, q: weight_map(p, q), pop, ws)
        return i.alloc(Obj("list", None, {"c": do_draws(i, w, k, fn)}))
    if fn == "choice":
        pop = i.to_seq(a[0])
        w = lift(lambda p: weight_map(p, None), pop)
        return sq.idx(do_draws(i, w, ONE, fn), ZERO)
    if fn in ("randint", "randrange"):
        lo = a[0] if len(a) > 1 or fn == "randint" else ZERO
        hi = a[1] if len(a) > 1 else a[0]
        if fn == "randint":
            hi = add(hi, ONE)
        w = lift(lambda p: weight_map(p, None), sq.range_(lo, hi))
        return sq.idx(do_draws(i, w, ONE, fn), ZERO)
    if fn == "sample":
        pop = i.to_seq(a[0])
        k = num(a[1] if len(a) > 1 else kwargs.get("k", ONE))
        i.event("rng", fn)
        return i.alloc(Obj("list", None, {"c": app("rng.sample", (pop, k, rng_take(i, k)), ("seq", sq.seq_elem_ty(pop)))}))
    if fn in ("random", "uniform", "shuffle", "gauss", "getrandbits", "seed"):
        i.event("rng", fn)
        n = rng_take(i, ONE)
        return app("rng." + fn, tuple(freeze(i, x) for x in a) + (n,), "num" if fn in ("random", "uniform") else "any")
    i.event("rng", fn)
    return unk("random." + fn)


# ---------------------------------------------------------------- builtin calls
def seq_obj(i, c, k="list"):
    return i.alloc(Obj(k, None, {"c": c}))


def call_builtin(i, name, args, kwargs):
    if name.startswith("exc:"):
        return mk("app", ("exc", bi(name)) + tuple(freeze(i, a) for a in args), "exc")
    f = globals().get("b_" + name)
    if f is None:
        i.note("builtin %s" % name)
        return unk("builtin %s" % name)
    return f(i, args, kwargs)


def split_star(i, args):
    out = []
    for a in args:
        if a.op == "star":
            s = i.simplify(a.args[0])
            if s.op == "tup":
                out.extend(s.args)
            else:
                return None
        else:
            out.append(a)
    return out


def b_len(i, a, k):
    v = i.simplify(a[0])
    if v.op == "ite":
        return i.cases(v, lambda x: b_len(i, [x], k))
    if v.op == "ref":
        o = i.deref(v)
        if o.kind in ("list", "iter"):
            return sq.seq_len(o.fields["c"])
        if o.kind == "dict":
            return sq.map_len(o.fields["c"])
        if o.kind == "set":
            return sq.set_len(o.fields["c"])
        if o.kind == "inst":
            return i.call(i.getattr(v, "__len__"), [])
    if v.op == "c":
        if v.args[0] == "str":
            return const(len(cval(v)))
        i.raise_name("TypeError")
    if isinstance(v.ty, tuple):
        if v.ty[0] == "seq":
            return sq.seq_len(v)
        if v.ty[0] == "map":
            return sq.map_len(v)
        if v.ty[0] == "set":
            return sq.set_len(v)
    if v.op == "unk":
        return v
    es = rp.elements(v) if v.ty == "str" else None
    if es is not None:
        return mk("relen", (const(len(es)), v), "int")
    return lift(lambda x: mk("len", (x,), "int"), v)


def b_sum(i, a, k):
    s = i.simplify(i.to_seq(a[0]))
    start = a[1] if len(a) > 1 else k.get("start", ZERO)
    et = sq.seq_elem_ty(s) if s.op != "ite" else "int"
    if is_numty(et) or et == "any" and is_numty(start.ty) and not seq_has_objects(i, s):
        return add(num(start), sq.sum_(s))
    return reduce_(i, lambda x, y: binop(i, "Add", x, y), s, start)


def seq_has_objects(i, s):
    if s.op == "tup":
        return any(x.op in ("ref", "obj") or x.ty == "outcome" for x in s.args)
    et = sq.seq_elem_ty(s)
    return et == "outcome" or (isinstance(et, tuple))


def reduce_(i, f, s, start):
    cell = i.alloc(Obj("cell", None, {"acc": start}))

    def body(x):
        o = i.deref(cell)
        v = f(o.fields["acc"], x)
        i.st.heap[cell.args[0]] = i.deref(cell).put("acc", v)

    i.loop_seq(s, body, None)
    return i.deref(cell).fields["acc"]


def minmax(i, a, k, big):
    name = "max" if big else "min"
    star = split_star(i, a)
    key = k.get("key", NONE)
    if star is None or len(a) == 1:
        s = i.simplify(i.to_seq(a[0]) if a[0].op != "star" else a[0].args[0])
        if s.op == "ite":
            return i.branch(s.args[0], lambda: minmax(i, [s.args[1]], k, big), lambda: minmax(i, [s.args[2]], k, big))
        if s.op == "unk":
            return s
        n = sq.seq_len(s)
        empty = eq(n, ZERO)
        if "default" in k:
            if empty is TRUE:
                return k["default"]
            v = extreme(i, s, key, big)
            return ite(empty, k["default"], v)
        i.raise_name("ValueError", restrict(empty, i.st.pc))
        return extreme(i, s, key, big)
    return extreme(i, tup(star), key, big)


def extreme(i, s, key, big):
    if key is NONE:
        if seq_has_objects(i, s):
            if s.op == "tup":
                r = s.args[0]
                for x in s.args[1:]:
                    c = truth(compare(i, "Gt" if big else "Lt", x, r))
                    r = ite(c, x, r)
                return r
            et = sq.seq_elem_ty(s)
            if et == "outcome":
                return unk("extreme of outcomes")
            return app("smax" if big else "smin", (s,), et)
        return sq.smax(s) if big else sq.smin(s)
    if s.op == "tup":
        r = s.args[0]
        kr = i.call(key, [r])
        for x in s.args[1:]:
            kx = i.call(key, [x])
            c = gt(kx, kr) if big else lt(kx, kr)
            r, kr = ite(c, x, r), ite(c, kx, kr)
        return r
    srt = sq.sorted_by(s, lambda x: key_call(i, key, x), const(big))
    return sq.idx(srt, ZERO)


def b_max(i, a, k):
    return minmax(i, a, k, True)


def b_min(i, a, k):
    return minmax(i, a, k, False)


def b_abs(i, a, k):
    v = i.simplify(a[0])
    if v.op == "ite" and mixed(v):
        return i.cases(v, lambda x: b_abs(i, [x], k))
    if is_numty(v.ty):
        return lift(lambda x: ite(lt(x, ZERO), neg(x), x), num(v))
    return unary_dunder(i, v, "__abs__")


def unary_dunder(i, v, name):
    if v.ty == "outcome" or v.op == "obj":
        v = thaw(i, v)
    c = cls_of(i, v)
    if v.op == "ref" and c is not None:
        m = i.class_attr(c, name)
        if m is not None:
            return i.call(m, [v])
        i.raise_name("TypeError")
    if isinstance(v.ty, tuple) and v.ty[0] == "obj":
        return call_opaque(i, v, name, [], {})
    if v.op in ("unk", "undef"):
        return unk("%s of unknown" % name)
    if v.ty == "any":
        return app(name, (v,), "any")
    i.raise_name("TypeError")


def b_sorted(i, a, k):
    s = i.simplify(i.to_seq(a[0]))
    return seq_obj(i, do_sort(i, s, k))


def do_sort(i, s, k):
    key = k.get("key", NONE)
    rev = k.get("reverse", FALSE)
    rev = truth(rev)
    if key is NONE:
        return lift(lambda x, r: sq.sorted_(x, r), s, rev)
    return lift(lambda x: sq.sorted_by(x, lambda y: key_call(i, key, y), rev), s)


def key_call(i, key, x):
    """key function on an element: failures that depend on which element it is are not followed"""
    if not fv(x):
        return i.call(key, [x])
    old, i.ctl = i.ctl, Ctl()
    pc = i.st.pc
    try:
        v = i.call(key, [x])
    except Dead:
        v = unk("key function fails")
    own, i.ctl = i.ctl, old
    old.raises.extend(r for r in own.raises if not fv(r[0].pc))
    if fv(i.st.pc):
        i.st.pc = pc
    return v


def b_reversed(i, a, k):
    return seq_obj(i, sq.rev(i.to_seq(a[0])), "iter")


def b_range(i, a, k):
    a = [num(x) for x in a]
    for x in a:
        if x.op == "unk":
            return x
        if not all(is_intty(l.ty) for _, l in leaves(x)) and any(l.ty == "num" for _, l in leaves(x)):
            i.raise_name("TypeError")
    if len(a) == 1:
        return sq.range_(ZERO, a[0])
    if len(a) == 2:
        return sq.range_(a[0], a[1])
    if is_const(a[2]):
        st = cval(a[2])
        if st == 1:
            return sq.range_(a[0], a[1])
        if st == -1:
            return sq.rev(sq.range_(add(a[1], ONE), add(a[0], ONE)))
        if st == 0:
            i.raise_name("ValueError")
    if all(is_const(x) for x in a):
        r = range(*[cval(x) for x in a])
        if len(r) <= 400:
            return tup([const(x) for x in r])
    return app("range3", tuple(a), ("seq", "int"))


def b_list(i, a, k):
    if not a:
        return seq_obj(i, tup(()))
    v = i.simplify(a[0])
    if v.op == "ref" and i.deref(v).kind == "iter":
        s = take_iter(i, v)
    else:
        s = i.to_seq(v)
    return seq_obj(i, s)


def take_iter(i, v):
    o = i.deref(v)
    s = o.fields["c"]
    i.setobj(v, o.put("c", tup(())))
    return s


def b_tuple(i, a, k):
    if not a:
        return tup(())
    return i.to_seq(a[0])


def b_iter(i, a, k):
    v = i.simplify(a[0])
    if i.is_lazy(v):
        return v
    if v.op == "ref" and i.deref(v).kind == "iter":
        return v
    return seq_obj(i, i.to_seq(v), "iter")


def b_next(i, a, k):
    v = i.simplify(a[0])
    if v.op == "ref" and i.deref(v).kind == "iter":
        o = i.deref(v)
        s = o.fields["c"]
        empty = eq(sq.seq_len(s), ZERO)
        if len(a) > 1:
            if empty is TRUE:
                return a[1]
            r = ite(empty, a[1], first_of(s))
        else:
            i.raise_name("StopIteration", restrict(empty, i.st.pc))
            r = first_of(s)
            s = i.deref(v).fields["c"]
        i.setobj(v, o.put("c", sq.slice_(s, ONE, NONE)))
        return r
    if v.op == "ref" and i.deref(v).kind == "inst":
        return i.call(i.getattr(v, "__next__"), [])
    return call_opaque(i, v, "__next__", [], {})


def first_of(s):
    if s.op == "comp" and s.args[2] is not TRUE and len(s.args[0]) == 1:
        (b,), (gs, c, e) = sq.open_(s.args[0], s.args[1:])
        return sq.first(b, gs[0], c, e, unk("no element"))if False else sq.idx(s, ZERO)
    return sq.idx(s, ZERO)


def b_dict(i, a, k):
    m = sq.EMPTY_MAP
    if a:
        m = i.to_map(a[0])
    for kk, v in k.items():
        m = sq.mput(m, const(kk), v)
    return i.alloc(Obj("dict", None, {"c": m}))


def b_set(i, a, k):
    if not a:
        return i.alloc(Obj("set", None, {"c": sq.EMPTY_SET}))
    return i.alloc(Obj("set", None, {"c": set_from(i, a[0])}))


def set_from(i, v):
    v = i.simplify(v)
    if v.op == "ite":
        return i.cases(v, lambda x: set_from(i, x))
    if v.op == "ref" and i.deref(v).kind == "set":
        return i.deref(v).fields["c"]
    if isinstance(v.ty, tuple) and v.ty[0] == "set":
        return v
    s = i.simplify(i.to_seq(v))
    if s.op == "tup":
        s = tup([key_of(i, x) for x in s.args])
    return sq.set_of_seq(s)


def b_frozenset(i, a, k):
    r = b_set(i, a, k)
    i.st.heap[r.args[0]] = i.deref(r).put("frozen", TRUE)
    return r


def b_str(i, a, k):
    return str_(i, a[0]) if a else const("")


def b_repr(i, a, k):
    return repr_(i, a[0])


def b_int(i, a, k):
    return to_int(i, a[0]) if a else ZERO


def b_float(i, a, k):
    v = i.simplify(a[0]) if a else ZERO
    if v.op == "c" and v.args[0] == "str":
        try:
            return const(float(cval(v)))
        except ValueError:
            i.raise_name("ValueError")
    if is_numty(v.ty):
        return lift(lambda x: x, num(v))
    return app("float", (freeze(i, v),), "num")


def b_bool(i, a, k):
    return i.cond(a[0]) if a else FALSE


def b_hash(i, a, k):
    v = i.simplify(a[0])
    if v.ty == "outcome":
        v = thaw(i, v)
    if v.op == "ref":
        o = i.deref(v)
        if o.kind == "inst":
            c = cls_of(i, v)
            h = i.class_attr(c, "__hash__")
            if h is not None:
                if h is NONE:
                    i.raise_name("TypeError")
                return i.call(h, [v])
            fl = CLASSES[c.args[0]].flags
            if "dataclass" in fl and "noeq" not in fl:
                if not fl & {"frozen", "unsafe_hash"}:
                    i.raise_name("TypeError")
                return b_hash(i, [tup([o.fields[f] for f in dataclass_fields(i, c)])], k)
            if i.class_attr(c, "__eq__") is not None and i.class_attr(c, "__hash__") is None:
                i.raise_name("TypeError")
            return app("idhash", (v,), "int")
    return lift(lambda x: app("hash", (x,), "int"), freeze(i, v))


def b_id(i, a, k):
    return app("id", (a[0],), "int")


def b_callable(i, a, k):
    v = a[0]
    return const(v.op in ("fn", "bm", "cls", "bi", "partial", "ext", "om"))


def b_print(i, a, k):
    i.event("io", "print", None, tuple(freeze(i, x) for x in a))
    return NONE


def b_round(i, a, k):
    v = num(a[0])
    narrow(i, v)
    if len(a) > 1:
        return lift(lambda x, y: app("round", (x, y), "num"), v, a[1])
    if v.ty == "int":
        return v
    return lift(lambda x: app("round", (x,), "int"), v)


def b_divmod(i, a, k):
    return tup((binop(i, "FloorDiv", a[0], a[1]), binop(i, "Mod", a[0], a[1])))


def b_pow(i, a, k):
    return binop(i, "Pow", a[0], a[1])


def b_zip(i, a, k):
    st = split_star(i, a)
    if st is None:
        # zip(*rows): transposition
        s = a[0].args[0]
        return seq_obj(i, transpose(s), "iter")
    return seq_obj(i, sq.zip_([i.to_seq(x) for x in st]), "iter")


def transpose(s):
    def f(x):
        if x.op == "comp" and x.args[3].op == "tup":
            bvs, (gs, c, e) = sq.open_(x.args[0], x.args[1:])
            cols = [sq.comp(bvs, gs, c, t) for t in e.args]
            # an empty table has no columns at all
            return ite(lt(ZERO, sq.seq_len(x)), tup(cols), tup(()))
        if x.op == "sorted" and x.args[0].op in ("comp", "zip"):
            w = 2
            if x.args[0].op == "zip":
                w = len(x.args[0].args)
            b = tm.fresh_bv(("seq", "any"))
            cols = []
            for j in range(w):
                t = "any"
                if x.args[0].op == "zip":
                    t = sq.seq_elem_ty(x.args[0].args[j])
                elif x.args[0].args[3].op == "tup":
                    w2 = len(x.args[0].args[3].args)
                    if j >= w2:
                        continue
                    t = x.args[0].args[3].args[j].ty
                cols.append(sq.comp((b,), (x,), TRUE, mk("idx", (b, const(j)), t)))
            return ite(lt(ZERO, sq.seq_len(x)), tup(cols), tup(()))
        if x.op == "cat" or x.op == "zip":
            return unk("transposition")
        if x.op == "tup":
            return tup([tup(t) for t in zip(*[y.args for y in x.args])]) if all(y.op == "tup" for y in x.args) else unk("transposition")
        return unk("transposition")

    return lift(f, s)


def b_map(i, a, k):
    f = a[0]
    if len(a) == 2 and (f.op in ("fn", "bm")):
        return lazy(i, "def map(f, it):\n    for x in it:\n        yield f(x)", a)
    s = i.to_seq(a[1]) if len(a) == 2 else sq.zip_([i.to_seq(x) for x in a[1:]])
    out = seq_obj(i, tup(()), "list")

    def body(x):
        v = i.call(f, [x] if len(a) == 2 else [sq.idx(x, const(j)) for j in range(len(a) - 1)])
        list_append(i, out, v)

    i.loop(s, body, None)
    return seq_obj(i, i.deref(out).fields["c"], "iter")


def lazy(i, source, args):
    """a generator of ours"""
    import ast
    node = LAZY.get(source)
    if node is None:
        node = LAZY[source] = ast.parse(source).body[0]
    fr, f = i.frames[-1]
    fn = Func(node, f.mod, (), (), {}, None, node.name)
    FUNCS.append(fn)
    return i.call_func(fn, list(args), {}, mk("fn", (len(FUNCS) - 1,), "fn"))


LAZY = {}


def b_filter(i, a, k):
    f = a[0]
    if f.op in ("fn", "bm"):
        return lazy(i, "def filter(f, it):\n    for x in it:\n        if f(x):\n            yield x", a)
    out = seq_obj(i, tup(()), "list")

    def body(x):
        c = i.cond(x if f is NONE else i.call(f, [x]))
        i.branch(c, lambda: (list_append(i, out, x), NONE)[1], lambda: NONE)

    i.loop(i.to_seq(a[1]), body, None)
    return seq_obj(i, i.deref(out).fields["c"], "iter")


def b_enumerate(i, a, k):
    start = a[1] if len(a) > 1 else k.get("start", ZERO)
    return seq_obj(i, sq.enum(i.to_seq(a[0]), start), "iter")


def b_any(i, a, k):
    return lift(sq.any_, i.to_seq(a[0]))


def b_all(i, a, k):
    return lift(sq.all_, i.to_seq(a[0]))


def b_isinstance(i, a, k):
    return isinst(i, i.simplify(a[0]), a[1])


def isinst(i, v, c):
    if v.op == "ite" and v.ty != "bool" and not (is_numty(v.ty) and all(x.ty == v.ty for _, x in leaves(v))):
        return ite(v.args[0], isinst(i, v.args[1], c), isinst(i, v.args[2], c))
    c = i.simplify(c)
    if c.op == "ref":
        c = i.to_seq(c)
    if c.op == "tup":
        r = FALSE
        for x in c.args:
            r = or_(r, isinst(i, v, x))
        return r
    if v.op in ("unk", "undef"):
        return unk("isinstance of unknown")
    if c is bi("object"):
        return TRUE
    if c.op == "bi":
        n = c.args[0]
        if v.op == "app" and v.args[0] == "exc":
            return const(i.exc_matches(Exc(v.args[1], (), None), c) is True)
        k = kind(i, v)
        table = {"int": ("int", "bool"), "bool": ("bool",), "float": ("num", "float"), "str": ("str",), "list": ("list",),
                 "dict": ("dict", "map"), "set": ("set", "setv"), "tuple": (), "frozenset": ()}
        if n in table:
            if k in table[n]:
                if n == "float" and v.op == "c" and is_intty(v.ty):
                    return FALSE
                return TRUE
            if n == "tuple":
                return const(k == "seq") if v.op != "bv" and v.op != "sym" else TRUE if k == "seq" else app("isinstance", (v, const(n)), "bool")
            if n == "list" and k == "seq":
                return FALSE if v.op == "tup" else app("isinstance", (v, const(n)), "bool")
            if k == "any" and v.op not in ("fn", "cls"):
                return app("isinstance", (v, const(n)), "bool")
            return FALSE
        return app("isinstance", (freeze(i, v), const(n)), "bool")
    if c.op == "cls":
        vc = cls_of(i, v)
        if vc is not None:
            if i.is_subclass(vc, c):
                return TRUE
            if v.op in ("ref", "obj") or v.ty == "outcome":
                return FALSE
            # opaque object of a declared interface: a subclass test is open, an unrelated class is not
            if i.is_subclass(c, vc):
                return app("isinstance", (v, const(name_of(c))), "bool")
            return FALSE
        if v.op == "ref":
            if i.deref(v).kind == "cs":
                return const(i.implements(c, "IConstraintSet") or name_of(c) == "IConstraintSet")
            return FALSE
        if v.ty == "cs":
            return const(i.implements(c, "IConstraintSet"))
        if v.ty == "constraint":
            return const(name_of(c) in {"varc": ("IVarValueConstraint", "VarValueConstraint", "IConstraint"),
                                        "nullc": ("INullConstraint", "NullConstraint", "IConstraint"),
                                        "impossc": ("IImpossibleConstraint", "ImpossibleConstraint", "IConstraint")
                                        }.get(v.op, ()))
        if kind(i, v) == "any":
            return app("isinstance", (v, const(name_of(c))), "bool")
        return FALSE
    if c.op == "ext":
        if kind(i, v) in ("any", "opaque"):
            return app("isinstance", (v, const(c.args[0])), "bool")
        n = c.args[0].split(".")[-1]
        if n in ("Mapping", "MutableMapping", "Dict"):
            return const(kind(i, v) in ("dict", "map"))
        if n in ("Iterable", "Collection", "Sized", "Container"):
            return const(kind(i, v) in ("dict", "map", "list", "seq", "set", "setv", "str"))
        if n in ("Sequence", "List"):
            return const(kind(i, v) in ("list", "seq", "str"))
        if n in ("Number", "Integral", "Real"):
            return const(kind(i, v) in ("int", "bool", "num"))
        return FALSE
    return unk("isinstance")


def b_issubclass(i, a, k):
    if a[0].op == "cls" and a[1].op == "cls":
        return const(i.is_subclass(a[0], a[1]))
    return unk("issubclass")


def b_type(i, a, k):
    v = i.simplify(a[0])
    if v.op == "ite":
        return i.cases(v, lambda x: b_type(i, [x], k))
    c = cls_of(i, v)
    if c is not None and (v.op in ("ref", "obj") or v.ty == "outcome"):
        return c
    n = {"int": "int", "bool": "bool", "num": "float", "str": "str", "list": "list", "dict": "dict", "set": "set",
         "seq": "tuple", "map": "dict"}.get(kind(i, v))
    if n:
        return bi(n)
    return app("type", (freeze(i, v),), "any")


def b_hasattr(i, a, k):
    v = i.simplify(a[0])
    if v.op == "ite":
        return i.cases(v, lambda x: b_hasattr(i, [x, a[1]], k))
    n = cval(a[1])
    c = cls_of(i, v)
    if v.op == "ref" and i.deref(v).kind == "inst":
        return const(n in i.deref(v).fields or i.class_attr(c, n) is not None)
    if v.op == "cls":
        return const(i.class_attr(v, n) is not None)
    if c is not None:
        if i.class_attr(c, n) is not None:
            return TRUE
        return app("hasattr", (v, a[1]), "bool")
    if is_numty(v.ty):
        return const(hasattr(1, n))
    if v.ty == "str":
        return const(hasattr("", n))
    return app("hasattr", (freeze(i, v), a[1]), "bool")


def b_getattr(i, a, k):
    if not is_const(a[1]):
        if a[1].op == "ite":
            return i.cases(a[1], lambda n: b_getattr(i, [a[0], n] + list(a[2:]), k))
        return unk("getattr with an unknown name")
    if len(a) > 2:
        h = b_hasattr(i, a[:2], k)
        return i.branch(h, lambda: i.getattr(a[0], cval(a[1])), lambda: a[2])
    return i.getattr(a[0], cval(a[1]))


def b_setattr(i, a, k):
    if not is_const(a[1]):
        raise Unsupported("setattr")
    i.setattr(a[0], cval(a[1]), a[2])
    return NONE


def b_super(i, a, k):
    fr, f = i.frames[-1]
    if a:
        return mk("super", (a[1], a[0]), "any")
    first = f.node.args.posonlyargs + f.node.args.args
    selfv = i.deref(fr).fields[first[0].arg]
    return mk("super", (selfv, mk("cls", (f.cls,), "fn")), "any")


def b_object(i, a, k):
    return i.alloc(Obj("rec", None, {}))


def b_property(i, a, k):
    g = a[0] if a else k.get("fget", NONE)
    return mk("prop", (g, a[1] if len(a) > 1 else k.get("fset", None)), "any")


def b_staticmethod(i, a, k):
    return mk("static", (a[0],), "any")


def b_classmethod(i, a, k):
    return mk("clsm", (a[0],), "any")


def b_vars(i, a, k):
    raise Unsupported("vars")


def b_ord(i, a, k):
    return const(ord(cval(a[0]))) if is_const(a[0]) else unk("ord")


def b_chr(i, a, k):
    return const(chr(cval(a[0]))) if is_const(a[0]) else unk("chr")


def b_format(i, a, k):
    return str_(i, a[0]) if len(a) == 1 else unk("format")


def b_slice(i, a, k):
    raise Unsupported("slice()")


# ---------------------------------------------------------------- library calls
OPERATOR = {"add": "Add", "sub": "Sub", "mul": "Mult", "floordiv": "FloorDiv", "truediv": "Div", "mod": "Mod",
            "pow": "Pow", "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor", "lshift": "LShift", "rshift": "RShift",
            "iadd": "Add", "concat": "Add"}
OPCMP = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}


def call_ext(i, name, args, kwargs):
    parts = name.split(".")
    root, last = parts[0], parts[-1]
    if root == "operator":
        if last in OPERATOR:
            return binop(i, OPERATOR[last], args[0], args[1])
        if last in OPCMP:
            return compare(i, OPCMP[last], args[0], args[1])
        if last == "not_":
            return not_(i.cond(args[0]))
        if last == "truth":
            return i.cond(args[0])
        if last == "neg":
            return unop(i, "USub", args[0])
        if last == "pos":
            return args[0]
        if last == "abs":
            return b_abs(i, args, {})
        if last == "getitem":
            return i.getitem(args[0], args[1])
        if last == "setitem":
            i.setitem(args[0], args[1], args[2])
            return NONE
        if last == "contains":
            return compare(i, "In", args[1], args[0])
        if last in ("itemgetter", "attrgetter", "methodcaller"):
            return mk("partial", (ext("operator._" + last), tuple(args), tuple(sorted(kwargs.items()))), "fn")
        if last == "_itemgetter":
            ks, o = args[:-1], args[-1]
            return i.getitem(o, ks[0]) if len(ks) == 1 else tup([i.getitem(o, k) for k in ks])
        if last == "_attrgetter":
            ks, o = args[:-1], args[-1]

            def dotted(k):
                r = o
                for part in cval(k).split("."):
                    r = i.getattr(r, part)
                return r
            return dotted(ks[0]) if len(ks) == 1 else tup([dotted(k) for k in ks])
        if last == "_methodcaller":
            return i.call(i.getattr(args[-1], cval(args[0])), list(args[1:-1]), kwargs)
    if root == "random":
        return random_call(i, last, args, kwargs)
    if root == "secrets":
        i.event("rng", last)
        return unk("secrets")
    if root == "re":
        return re_call(i, last, list(args), dict(kwargs))
    if root == "functools":
        if last == "reduce":
            s = i.simplify(i.to_seq(args[1]))
            f = lambda x, y: i.call(args[0], [x, y])
            if len(args) > 2 or "initial" in kwargs:
                return reduce_(i, f, s, args[2] if len(args) > 2 else kwargs["initial"])
            return reduce1(i, f, s)
        if last == "partial":
            return mk("partial", (args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))), "fn")
        if last in ("lru_cache", "cache", "cached_property", "wraps", "total_ordering", "singledispatch"):
            if last in ("lru_cache", "cache") and args and args[0].op in ("fn", "static", "clsm"):
                return make_cached(i, args[0])
            if last in ("lru_cache",):
                return ext("functools.cache")
            if last == "wraps":
                return ext("functools._identity")
            if last == "total_ordering":
                return args[0]
            if last == "cached_property":
                return mk("cprop", (args[0],), "any")
        if last == "_identity":
            return args[0]
        if last == "cmp_to_key":
            return unk("cmp_to_key")
    if root == "itertools":
        return itertools_call(i, ".".join(parts[1:]), args, kwargs)
    if root == "copy":
        if last == "copy":
            return shallow_copy(i, args[0])
        if last == "deepcopy":
            return deep_copy(i, args[0], {})
    if root == "collections":
        if last == "defaultdict":
            m = i.to_map(args[1]) if len(args) > 1 else sq.EMPTY_MAP
            return i.alloc(Obj("dict", None, {"c": m, "df": args[0] if args else NONE}))
        if last in ("OrderedDict",):
            return b_dict(i, args, kwargs)
        if last == "Counter":
            m = sq.EMPTY_MAP
            if args:
                m = counter_of(i, args[0])
            return i.alloc(Obj("dict", None, {"c": m, "df": bi("int"), "counter": TRUE}))
        if last == "deque":
            return b_list(i, args[:1], {})
        if last == "namedtuple":
            return make_named_tuple(i, args, kwargs)
    if root == "math":
        return math_call(i, last, args)
    if root == "statistics":
        s = i.to_seq(args[0])
        if last in ("mean", "fmean"):
            return tm.truediv(sq.sum_(s), sq.seq_len(s))
        return unk("statistics")
    if root == "fractions":
        i.exact_quotients = True
        if len(args) == 1:
            return num(args[0]) if is_numty(args[0].ty) else unk("Fraction")
        return binop(i, "Div", args[0], args[1])
    if root == "numbers" or root == "typing" or root == "typing_extensions":
        if last == "cast":
            return args[1]
        if last in ("TypeVar", "NewType"):
            return ext("typing.any")
        return ext(name)
    if root == "enum":
        if last == "auto":
            return ext("enum.auto()")
        if last == "unique":
            return args[0]
    if root == "dataclasses":
        if last == "dataclass":
            if args and args[0].op == "cls":
                CLASSES[args[0].args[0]].flags.add("dataclass")
                return args[0]
            return ext("dataclasses._deco" + "".join(
                "_" + k for k in ("frozen", "unsafe_hash", "order") if kwargs.get(k) is TRUE)
                + ("_noeq" if kwargs.get("eq") is FALSE else ""))
        if last.startswith("_deco"):
            return decorate_class(i, ext(name), args[0])
        if last == "field":
            if "default" in kwargs:
                return kwargs["default"]
            if "default_factory" in kwargs:
                return mk("dfield", (kwargs["default_factory"],), "any")
            return UNDEF
        if last == "replace":
            r = shallow_copy(i, args[0])
            for k, v in kwargs.items():
                i.setobj(r, i.deref(r).put(k, v))
            return r
    if root == "abc":
        return args[0] if args else ext(name)
    if root == "warnings":
        return NONE
    if root == "time" or root == "datetime" or root == "uuid" or root == "os":
        i.event("env", name, None, tuple(freeze(i, a) for a in args))
        return app("env:" + name, (count(i, ("env", name)),), "any")
    if root == "contextlib":
        if last in ("ExitStack", "closing", "nullcontext"):
            return library(i, last, args, kwargs)
        return unk("contextlib")
    if root in ("heapq", "bisect") and last in ("nlargest", "nsmallest", "bisect", "bisect_left", "bisect_right", "insort",
                                                "insort_left", "insort_right"):
        return library(i, last, args, kwargs)
    if root in PURE:
        return unk(name)
    # anything else is an opaque library: the call is recorded
    h = i.config.get("ext", {}).get(name)
    if h is not None:
        return h(i, args, kwargs)
    n = count(i, ("ext", name))
    fa = [keep(i, a) for a in args]
    fk = {k: keep(i, a) for k, a in kwargs.items()}
    i.event("ext", name, None, fa, fk, extra=n)
    return app("ext:" + name, (n,) + tuple(fa) + tuple(x for k in sorted(fk) for x in (const(k), fk[k])), "any")


# modules without effects outside the program, of which only some functions have a meaning here
PURE = {"functools", "heapq", "bisect", "string", "collections", "copy", "dataclasses", "enum", "operator", "decimal", "types",
        "inspect", "textwrap", "array", "struct", "pprint", "weakref", "json", "ast", "builtins", "hashlib", "base64"}


def library(i, name, args, kwargs):
    """a library function or class that is written out in checks/lib.py"""
    if "verif_lib" not in i.p.trees:
        return unk(name)
    i.load("verif_lib")
    return i.call(i.module_attr("verif_lib", name), list(args), kwargs)


def keep(i, a):
    """argument of a recorded call: functions stay what they are, data is frozen"""
    if a.op in ("fn", "bm", "partial", "cls", "ext", "bi", "star"):
        return a
    return freeze(i, a)


def count(i, key):
    o = i.st.heap[WORLD]
    c = o.fields.get(key, ZERO)
    i.st.heap[WORLD] = o.put(key, add(c, ONE))
    return c


def reduce1(i, f, s):
    s = i.simplify(s)
    if s.op == "ite":
        return i.branch(s.args[0], lambda: reduce1(i, f, s.args[1]), lambda: reduce1(i, f, s.args[2]))
    if s.op == "tup" and not s.args:
        i.raise_name("TypeError")
    if s.op == "tup":
        r = s.args[0]
        for x in s.args[1:]:
            r = f(r, x)
        return r
    i.raise_name("TypeError", restrict(eq(sq.seq_len(s), ZERO), i.st.pc))
    return reduce_(i, f, sq.slice_(s, ONE, NONE), sq.idx(s, ZERO))


def counter_of(i, v):
    v = i.simplify(v)
    if v.op == "ref" and i.deref(v).kind == "dict":
        return i.deref(v).fields["c"]
    if isinstance(v.ty, tuple) and v.ty[0] == "map":
        return v
    s = i.simplify(i.to_seq(v))

    def f(x):
        if x.op == "tup":
            return sq.map_(None, [((), (), TRUE, key_of(i, y), ONE) for y in x.args])
        return sq.map_(None, [comp_parts(x, lambda y: (y, ONE))])

    return lift(f, s)


def itertools_call(i, fn, args, kwargs):
    L = lambda s: seq_obj(i, s, "iter")
    if fn == "product":
        seqs = [i.to_seq(a) for a in args]
        rep = kwargs.get("repeat", ONE)
        if not is_const(rep):
            return L(lift(lambda s, r: app("product", (s, r), ("seq", ("seq", sq.seq_elem_ty(s)))), seqs[0], rep))
        seqs = seqs * cval(rep)
        bvs = [tm.fresh_bv(sq.seq_elem_ty(s)) for s in seqs]
        for b, s in zip(bvs, seqs):
            sq.note_member(b, s)
        return L(sq.comp(bvs, seqs, TRUE, tup(bvs)))
    if fn == "chain":
        st = split_star(i, args)
        if st is None:
            return itertools_call(i, "chain.from_iterable", [args[0].args[0]], {})
        return L(sq.cat([i.to_seq(a) for a in st]))
    if fn == "chain.from_iterable":
        s = i.to_seq(args[0])
        if s.op == "tup":
            return L(sq.cat([i.to_seq(x) for x in s.args]))
        out = seq_obj(i, tup(()))

        def body(x):
            o = i.deref(out)
            i.st.heap[out.args[0]] = o.put("c", sq.cat([o.fields["c"], i.to_seq(x)]))

        i.loop(s, body, None)
        return L(i.deref(out).fields["c"])
    if fn == "repeat":
        if len(args) > 1 or "times" in kwargs:
            n = args[1] if len(args) > 1 else kwargs["times"]
            b = tm.fresh_bv("int")
            return L(sq.comp((b,), (sq.range_(ZERO, num(n)),), TRUE, args[0]))
    if fn == "accumulate":
        out = seq_obj(i, tup(()))
        f = args[1] if len(args) > 1 else kwargs.get("func", ext("operator.add"))
        cell = i.alloc(Obj("cell", None, {"acc": kwargs.get("initial", ZERO)}))
        if f is not ext("operator.add") and "initial" not in kwargs:
            return unk("accumulate")

        def body2(x):
            v = i.call(f, [i.deref(cell).fields["acc"], x])
            i.st.heap[cell.args[0]] = i.deref(cell).put("acc", v)
            list_append(i, out, v)

        if "initial" in kwargs:
            list_append(i, out, kwargs["initial"])
        i.loop(i.to_seq(args[0]), body2, None)
        return L(i.deref(out).fields["c"])
    if fn == "islice":
        s = i.to_seq(args[0])
        if len(args) == 2:
            return L(sq.slice_(s, NONE, args[1]))
        return L(sq.slice_(s, args[1], args[2]))
    if fn == "starmap":
        s = i.to_seq(args[1])
        out = seq_obj(i, tup(()))

        def body3(x):
            y = i.simplify(i.to_seq(x))
            if y.op != "tup":
                raise Unsupported("starmap")
            list_append(i, out, i.call(args[0], list(y.args)))

        i.loop(s, body3, None)
        return L(i.deref(out).fields["c"])
    if fn in ("combinations", "combinations_with_replacement", "permutations"):
        s = i.to_seq(args[0])
        r = args[1] if len(args) > 1 else NONE
        return L(lift(lambda x, y: app(fn, (x, y), ("seq", ("seq", sq.seq_elem_ty(x)))), s, r))
    if fn in ("filterfalse", "takewhile", "dropwhile", "compress"):
        return library(i, fn, args, kwargs)
    return unk("itertools." + fn)


def math_call(i, fn, args):
    a = [num(x) if is_numty(x.ty) else x for x in args]
    if fn in ("floor", "ceil"):
        narrow(i, a[0])
    if fn == "floor":
        return lift(tm.floor, a[0])
    if fn == "ceil":
        return neg(lift(tm.floor, neg(a[0])))
    if fn == "trunc":
        return to_int(i, a[0])
    if fn == "fabs":
        return b_abs(i, a, {})
    if fn == "prod":
        return reduce_(i, lambda x, y: binop(i, "Mult", x, y), i.to_seq(args[0]), ONE)
    if fn == "fsum":
        return sq.sum_(i.to_seq(args[0]))
    if fn in ("comb", "factorial", "gcd", "perm"):
        return lift(lambda *xs: app("math." + fn, xs, "int"), *a)
    if fn == "pow":
        return binop(i, "Pow", a[0], a[1])
    return lift(lambda *xs: app("math." + fn, xs, "bool" if fn.startswith("is") else "num"), *a)


def make_cached(i, f):
    if f.op == "static":
        return mk("static", (make_cached(i, f.args[0]),), "any")
    return i.alloc(Obj("cachefn", None, {"fn": f, "c": sq.EMPTY_MAP}))


def call_cached(i, r, args, kwargs):
    o = i.deref(r)
    i.event("cache", name_of(o.fields["fn"]), None, ())
    key = tup([a if a.op == "ref" and i.deref(a).kind == "inst" else key_of(i, a) for a in args] +
              [x for k in sorted(kwargs) for x in (const(k), key_of(i, kwargs[k]))])
    c = o.fields["c"]
    hit = sq.in_(key, c)

    def miss():
        v = i.call(o.fields["fn"], args, kwargs)
        oo = i.deref(r)
        i.st.heap[r.args[0]] = oo.put("c", sq.mput(oo.fields["c"], key, v))
        return v

    return i.branch(restrict(hit, i.st.pc), lambda: sq.mget(c, key), miss)


def shallow_copy(i, v):
    v = i.simplify(v)
    if v.op == "ite":
        return i.cases(v, lambda x: shallow_copy(i, x))
    if v.ty == "outcome" or v.op == "obj":
        v = thaw(i, v)
    if v.op == "ref":
        o = i.deref(v)
        if o.kind == "inst":
            m = i.class_attr(cls_of(i, v), "__copy__")
            if m is not None:
                return i.call(m, [v])
        if o.kind in ("list", "dict", "set", "inst", "cs", "rec"):
            return i.alloc(Obj(o.kind, o.cls, dict(o.fields)))
    if isinstance(v.ty, tuple) and v.ty[0] == "map":
        return i.alloc(Obj("dict", None, {"c": v}))
    return v


def deep_copy(i, v, memo):
    v = i.simplify(v) if isinstance(v, T) else v
    if not isinstance(v, T):
        return v
    if v.op == "ite":
        return i.cases(v, lambda x: deep_copy(i, x, memo))
    if v.ty == "outcome" or v.op == "obj":
        v = thaw(i, v)
    if v.op == "tup":
        return tup([deep_copy(i, x, memo) for x in v.args])
    if v.op != "ref":
        if isinstance(v.ty, tuple) and v.ty[0] == "map":
            return i.alloc(Obj("dict", None, {"c": v}))
        return v
    if v in memo:
        return memo[v]
    o = i.deref(v)
    if o.kind == "inst":
        m = i.class_attr(cls_of(i, v), "__deepcopy__")
        if m is not None:
            return i.call(m, [v, i.alloc(Obj("dict", None, {"c": sq.EMPTY_MAP}))])
    if o.kind not in ("list", "dict", "set", "inst", "cs", "rec", "iter"):
        return v
    r = i.alloc(Obj(o.kind, o.cls, {}))
    memo[v] = r
    f = {}
    for k, x in o.fields.items():
        if isinstance(x, T) and any(y.op == "ref" for y in tm.walk(x)):
            if x.op in ("ref", "ite", "tup"):
                f[k] = deep_copy(i, x, memo)
            else:
                rs = {y for y in tm.walk(x) if y.op == "ref"}
                f[k] = sq.subst(x, {y: deep_copy(i, y, memo) for y in rs})
        else:
            f[k] = x
    i.st.heap[r.args[0]] = Obj(o.kind, o.cls, f)
    return r


# ---------------------------------------------------------------- opaque objects
MUTATORS = ("set", "add", "update", "remove", "pop", "clear", "reset", "insert", "append", "extend", "delete", "del_",
            "register", "increment", "push", "assign", "store")


def ann_type(i, node):
    """term type of an annotation"""
    import ast
    if node is None:
        return "any"
    if isinstance(node, ast.Constant):
        if node.value is None:
            return "none"
        if isinstance(node.value, str):
            try:
                return ann_type(i, ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return "any"
    if isinstance(node, ast.Name):
        n = node.id
        if n in ("int", "bool", "str"):
            return n
        if n == "float":
            return "num"
        if n == "object" or n == "Any":
            return "any"
        if n in ("IProbabilityOutcome", "ProbabilityOutcome"):
            return "outcome"
        if i.class_by_simple(n) is not None:
            return ("obj", n)
        return "any"
    if isinstance(node, ast.Attribute):
        return ann_type(i, ast.Name(id=node.attr))
    if isinstance(node, ast.Subscript):
        base = node.value.id if isinstance(node.value, ast.Name) else getattr(node.value, "attr", "")
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        if base in ("List", "Iterable", "Sequence", "Iterator", "Tuple", "list", "tuple"):
            return ("seq", ann_type(i, args[0]) if base not in ("Tuple", "tuple") else "any")
        if base in ("Set", "set", "FrozenSet"):
            return ("set", ann_type(i, args[0]))
        if base in ("Dict", "dict", "Mapping"):
            return ("map", ann_type(i, args[0]), ann_type(i, args[1]))
        if base == "Optional":
            return ann_type(i, args[0])
    return "any"


def method_return_type(i, iface, name):
    c = i.class_by_simple(iface)
    if c is None:
        return "any", False
    m = i.class_attr(c, name)
    is_prop = False
    if m is not None and m.op == "prop":
        is_prop = True
        m = m.args[0]
    if m is not None and m.op in ("static", "clsm"):
        m = m.args[0]
    if m is None or m.op != "fn":
        return "any", is_prop
    return ann_type(i, getattr(FUNCS[m.args[0]].node, "returns", None)), is_prop


DUNDER_TY = {"__str__": "str", "__repr__": "str", "__len__": "int", "__hash__": "int", "__bool__": "bool",
             "__eq__": "bool", "__ne__": "bool", "__contains__": "bool"}


def opaque_fn(i, recv, name, args, kwargs):
    """normalise keyword arguments of an interface method to positional ones"""
    out = list(args)
    if kwargs and isinstance(recv.ty, tuple) and recv.ty[0] == "obj":
        c = i.class_by_simple(recv.ty[1])
        m = i.class_attr(c, name) if c is not None else None
        if m is not None and m.op in ("static", "clsm"):
            m = m.args[0]
        if m is not None and m.op == "fn":
            a = FUNCS[m.args[0]].node.args
            names = [x.arg for x in a.posonlyargs + a.args][1:]
            d = dict(kwargs)
            for n in names[len(out):]:
                if n in d:
                    out.append(d.pop(n))
                elif d:
                    out.append(NONE)
            kwargs = d
    return out, kwargs


CHANGES = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "add", "discard", "update", "setdefault",
           "popitem", "appendleft", "popleft", "subtract"}


def inner_change(i, recv, name):
    """a container that lies, as a value, inside another one is changed in place: the outer one is not followed"""
    if recv.op in ("mget", "idx", "proj", "fold") and name in CHANGES:
        raise Unsupported("change of a container inside a container")


def call_opaque(i, recv, name, args, kwargs):
    args, kwargs = opaque_fn(i, recv, name, args, kwargs)
    iface = recv.ty[1] if isinstance(recv.ty, tuple) and recv.ty[0] == "obj" else None
    h = i.config.get("opaque", {}).get((iface, name)) or i.config.get("opaque", {}).get((iface, "*"))
    if h is not None:
        r = h(i, recv, name, args, kwargs)
        if r is not None:
            return r
    if iface is None:
        inner_change(i, recv, name)
    fa = [keep(i, a) for a in args]
    fk = {k: keep(i, a) for k, a in kwargs.items()}
    for handlers in i.try_stack:
        for hnd in handlers:
            for hh in (hnd.args if hnd.op == "tup" else (hnd,)):
                c = sym("raises:%s:%s:%s" % (name, exc_name(hh), count_static(i)), "bool")
                i.raise_(Exc(hh, (), i.where(), app("excobj", (recv, const(name)), "any")), c)
    if iface == "IDiceExpression" and i.config.get("mode") != "chain":
        if name == "roll":
            n = count(i, ("roll", recv))
            i.event("roll", name, recv, fa, fk)
            return app("roll", (recv, n), "int")
        if name == "get_probability_distribution":
            i.event("query", name, recv, fa, fk)
            return dist_of(i, recv)
    ty, _ = method_return_type(i, iface, name) if iface else ("any", False)
    ty = DUNDER_TY.get(name, ty)
    i.event("query" if iface else "call", name, recv, fa, fk)
    extra = ()
    o = i.st.heap[WORLD]
    if i.config.get("mode") == "chain":
        w = o.fields["w"]
        i.st.heap[WORLD] = o.put("w", app("w", (w, recv, const(name)) + tuple(fa), "world"))
        extra = (w,)
    elif iface is None:
        extra = (count(i, ("call", name)),)
    else:
        hk = ("h", recv)
        hist = o.fields.get(hk)
        if name.startswith(MUTATORS):
            old = hist if hist is not None and hist is not ZERO else app("h0", (recv,), "hist")
            i.st.heap[WORLD] = o.put(hk, app("h", (old, const(name)) + tuple(fa), "hist"))
            return NONE
        if hist is not None and hist is not ZERO:
            extra = (hist,)
    t = app(("m:" if iface else "call:") + name, (recv,) + tuple(fa) + tuple(x for k in sorted(fk) for x in (const(k), fk[k])) + extra, ty)
    return opaque_result(i, t, ty)


def count_static(i):
    i.nraise = getattr(i, "nraise", 0) + 1
    return i.nraise


def opaque_result(i, t, ty):
    if isinstance(ty, tuple) and i.config.get("box_results", True):
        k = {"seq": "list", "map": "dict", "set": "set"}.get(ty[0])
        if k and not (ty[0] == "seq" and ty[1] == "any"):
            return i.alloc(Obj(k, None, {"c": t}, origin=t))
    if isinstance(ty, tuple) and ty[0] == "obj" and ty[1] in ("IProbabilityDistribution", "ProbabilityDistribution") \
            and i.config.get("thaw_dists", True) and i.config.get("mode") != "chain":
        return make_dist(i, app("distmap", (t,), ("map", "outcome", "int")), t)
    if ty == "none":
        return NONE
    return t


def dist_of(i, e):
    """the (one) distribution an opaque expression reports"""
    memo = i.__dict__.setdefault("dists", {})
    r = memo.get(e)
    if r is not None and r.args[0] in i.st.heap:
        return r
    m = app("distmap", (e,), ("map", "outcome", "int"))
    r = make_dist(i, m, e)
    memo[e] = r
    return r


def make_dist(i, m, origin):
    """a ProbabilityDistribution whose outcome table is the unknown map m"""
    c = i.class_by_simple("ProbabilityDistribution")
    fac = i.__dict__.get("outcome_factory")
    if fac is None or fac.args[0] not in i.st.heap:
        fc = i.class_by_simple("ProbabilityOutcomeFactory")
        fac = i.call(fc, [])
        i.outcome_factory = fac
    d = i.alloc(Obj("dict", None, {"c": m}))
    n = len(i.st.events)
    r = i.call(c, [fac, d])
    del i.st.events[n:]
    if r.op == "ref":
        tag(i, r, origin, set())
        i.st.heap[d.args[0]] = Obj("dict", None, {"c": m}, origin=origin)
    return r


def tag(i, r, origin, seen):
    """everything reachable from r belongs to `origin`; later writes to it are reported"""
    if r in seen or r.op != "ref":
        return
    seen.add(r)
    o = i.deref(r)
    if o.kind == "frame" or r is i.__dict__.get("outcome_factory"):
        return
    i.st.heap[r.args[0]] = Obj(o.kind, o.cls, o.fields, origin)
    for x in o.fields.values():
        if isinstance(x, T):
            for y in tm.walk(x):
                if y.op == "ref":
                    tag(i, y, origin, seen)


def call_value(i, f, args, kwargs):
    """call of an opaque callable"""
    fa = [keep(i, a) for a in args]
    fk = {k: keep(i, a) for k, a in kwargs.items()}
    i.event("callv", "call", f, fa, fk)
    if len(args) == 1 and args[0].op == "fn" and not kwargs:
        return args[0]  # used as a decorator
    return app("callv", (f,) + tuple(fa), "any")


# ---------------------------------------------------------------- decorators, construction
def decorate(i, d, f):
    if d.op == "bi":
        if d.args[0] in ("staticmethod", "classmethod", "property"):
            return call_builtin(i, d.args[0], [f], {})
    if d.op == "ext":
        n = d.args[0].split(".")
        if n[0] == "abc":
            if n[-1] == "abstractproperty":
                return mk("prop", (f, None), "any")
            return f
        if n[0] == "functools" and n[-1] in ("lru_cache", "cache", "cached_property", "_identity"):
            return call_ext(i, d.args[0], [f], {})
        if n[0] == "typing":
            return f
        if n == ["contextlib", "contextmanager"] and f.op == "fn":
            fn = copy.copy(FUNCS[f.args[0]])
            fn.flags = tuple(fn.flags) + ("contextmanager",)
            FUNCS.append(fn)
            return mk("fn", (len(FUNCS) - 1,), "fn")
    if d.op == "propset":
        return mk("prop", (d.args[0].args[0], f), "any")
    return i.call(d, [f])


def decorate_class(i, d, c):
    if d.op == "ext":
        if d.args[0] == "dataclasses.dataclass" or d.args[0].startswith("dataclasses._deco"):
            fl = CLASSES[c.args[0]].flags
            fl.add("dataclass")
            fl.update(x for x in ("frozen", "unsafe_hash", "order", "noeq") if x in d.args[0].split("_deco")[-1])
            return c
        return c
    return i.call(d, [c])


def make_named_tuple(i, args, kwargs):
    import ast
    fs = args[1] if len(args) > 1 else kwargs.get("field_names")
    if fs is None or not is_const(args[0]):
        return unk("namedtuple")
    if is_const(fs):
        names = cval(fs).replace(",", " ").split()
    else:
        s = i.to_seq(fs)
        if s.op != "tup" or not all(is_const(x) for x in s.args):
            return unk("namedtuple")
        names = [cval(x) for x in s.args]
    ds = i.to_seq(kwargs["defaults"]).args if "defaults" in kwargs else ()
    src = "class %s(_NT):\n" % cval(args[0])
    for k, n in enumerate(names):
        src += "    %s: object%s\n" % (n, " = __d%d" % (k - len(names) + len(ds)) if k >= len(names) - len(ds) else "")
    node = ast.parse(src).body[0]
    node.bases = []
    from .interp import _named_tuple
    fr = i.frames[-1][0]
    for k, d in enumerate(ds):
        i.assign_name("__d%d" % k, d)
    old = i.deref(fr).fields.get(node.name)
    i.st_ClassDef(_named_tuple(node))
    v = i.deref(fr).fields[node.name]
    rec = i.deref(fr)
    i.st.heap[fr.args[0]] = rec.drop(node.name) if old is None else rec.put(node.name, old)
    return v


def dataclass_fields(i, c):
    import ast
    fields = []
    for k in reversed(i.mro(c)):
        if k.op != "cls":
            continue
        cl = CLASSES[k.args[0]]
        for s in cl.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if isinstance(s.annotation, ast.Subscript) and getattr(s.annotation.value, "id", "") == "ClassVar":
                    continue
                if s.target.id not in fields:
                    fields.append(s.target.id)
    return fields


def dataclass_init(i, c, o, args, kwargs):
    fields = dataclass_fields(i, c)
    vals = dict(zip(fields, args))
    vals.update(kwargs)
    rec = i.deref(o)
    for f in fields:
        if f in vals:
            rec = rec.put(f, vals[f])
        else:
            d = i.class_attr(c, f)
            if d is None or d is UNDEF:
                i.raise_name("TypeError")
            if d.op == "dfield":
                d = i.call(d.args[0], [])
                rec = Obj(rec.kind, rec.cls, dict(rec.fields), rec.origin)
            rec = rec.put(f, d)
    i.st.heap[o.args[0]] = rec
    post = i.class_attr(c, "__post_init__")
    if post is not None:
        i.call(post, [o])


def construct(i, c, args, kwargs):
    """constraint sets are handled by their contents unless a check analyses the constraint classes themselves"""
    h = i.config.get("construct", {}).get(CLASSES[c.args[0]].name)
    if h is not None:
        return h(i, c, args, kwargs)
    if i.abstract_cs and i.implements(c, "IConstraintSet"):
        s = args[0] if args else kwargs.get("constraints_set", NONE)
        return i.alloc(Obj("cs", None, {"c": cs_content(i, s)}))
    cl = CLASSES[c.args[0]]
    if "enum" in cl.flags:
        v = args[0]
        r = unk("no such member")
        ms = i.deref(cl.hid).fields["__members_seq__"].args
        i.raise_name("ValueError", and_(*[not_(compare(i, "Eq", v, i.deref(m).fields["value"])) for m in ms]))
        for m in reversed(ms):
            r = ite(compare(i, "Eq", v, i.deref(m).fields["value"]), m, r)
        return i.simplify(r)
    return None


# ---------------------------------------------------------------- attributes
LIST_METHODS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "copy", "index", "count", "clear",
                "appendleft", "popleft"}
DICT_METHODS = {"items", "keys", "values", "get", "pop", "setdefault", "update", "copy", "clear", "popitem",
                "most_common", "elements", "subtract", "total", "fromkeys"}
SET_METHODS = {"add", "remove", "discard", "union", "intersection", "difference", "copy", "update", "pop", "issubset",
               "issuperset", "isdisjoint", "symmetric_difference", "clear", "intersection_update", "difference_update"}
CS_METHODS = {"add_constraint", "combine_sets", "is_possible", "complies", "constraints"}


def get_attribute(i, v, name):
    if v.op == "undef":
        return unk("undefined")
    if v.op == "unk":
        return unk("attribute of unknown")
    if v.ty == "outcome" or v.op == "obj":
        v = thaw(i, v)
    if v.op == "ref":
        o = i.deref(v)
        if o.kind == "inst":
            return inst_attr(i, v, o, name)
        if o.kind in ("list", "dict", "set", "iter", "cs"):
            if o.kind == "cs" and name == "constraints":
                return i.alloc(Obj("set", None, {"c": app("constraints", (o.fields["c"],), ("set", "any"))}))
            return mk("bm", (bi("meth:%s:%s" % (o.kind, name)), v), "fn")
        if o.kind == "rec":
            if name in o.fields:
                return o.fields[name]
            return mk("om", (name, v), "fn")
        if o.kind == "cachefn":
            if name in ("cache_clear",):
                return mk("bm", (bi("meth:cachefn:cache_clear"), v), "fn")
            return i.getattr(o.fields["fn"], name)
    if v.op == "cls":
        a = i.class_attr(v, name)
        if a is not None:
            if a.op == "static":
                return a.args[0]
            if a.op == "clsm":
                return mk("bm", (a.args[0], v), "fn")
            return a
        if name in ("__name__", "__qualname__"):
            return const(CLASSES[v.args[0]].name)
        if name == "__module__":
            return const(CLASSES[v.args[0]].mod)
        if name == "__class__":
            return bi("type")
        for b in i.mro(v):
            if b.op == "ext" and not b.args[0].startswith(("abc", "typing")):
                return ext(b.args[0] + "." + name)
        i.raise_name("AttributeError")
    if v.op == "super":
        a = i.class_attr(obj_class(i, v.args[0]), name, start_after=v.args[1])
        if a is None:
            if name == "__init__":
                return bi("noop")
            return mk("bm", (bi("objmeth:" + name), v.args[0]), "fn")
        return bind_attr(i, a, v.args[0], obj_class(i, v.args[0]))
    if v.op == "mod":
        try:
            return i.module_attr(v.args[0], name)
        except KeyError:
            i.raise_name("AttributeError")
    if v.op == "ext":
        if v.args[0] == "math" and name in ("inf", "pi", "e"):
            return const(getattr(pymath, name))
        if name == "__name__":
            return const(v.args[0].split(".")[-1])
        return ext(v.args[0] + "." + name)
    if v.op == "bi":
        if name == "__name__":
            return const(v.args[0].replace("exc:", ""))
        if v.args[0] in ("dict", "str", "list", "set", "int", "object", "float"):
            return bi("%s.%s" % (v.args[0], name))
        return unk("attribute of builtin")
    if v.op in ("fn", "bm", "partial"):
        if name in ("__name__", "__qualname__"):
            x = v
            while x.op in ("bm", "partial"):
                x = x.args[0]
            return const(name_of(x))
        if name == "__doc__":
            return NONE
        if name == "__call__":
            return v
        if name == "__self__" and v.op == "bm":
            return v.args[1]
        return unk("function attribute")
    if v.op == "prop":
        if name == "setter":
            return mk("propset", (v,), "fn")
        if name == "fget":
            return v.args[0]
        return unk("property attribute")
    if v.op == "rematch":
        return mk("bm", (bi("meth:match:" + name), v), "fn")
    k = kind(i, v)
    if v.ty == "str":
        if name in STR_METHODS:
            return mk("bm", (bi("meth:str:" + name), v), "fn")
        i.raise_name("AttributeError")
    if is_numty(v.ty):
        if name in ("numerator", "real"):
            return v
        if name.startswith("__") and name.strip("_") in ("add", "sub", "mul", "floordiv", "eq", "lt", "le", "gt", "ge",
                                                         "ne", "and", "or", "mod", "truediv", "abs", "neg", "str",
                                                         "hash", "int", "bool", "xor", "pow"):
            return mk("bm", (bi("nummeth:" + name), v), "fn")
        if name == "bit_length":
            return unk("bit_length")
        i.raise_name("AttributeError")
    if k == "seq":
        return mk("bm", (bi("meth:tuple:" + name), v), "fn")
    if k == "map":
        return mk("bm", (bi("meth:dict:" + name), v), "fn")
    if k == "setv":
        return mk("bm", (bi("meth:set:" + name), v), "fn")
    if v.ty == "cs":
        r = i.alloc(Obj("cs", None, {"c": v}, origin=v))
        return get_attribute(i, r, name)
    if v.ty == "constraint":
        return constraint_attr(i, v, name)
    if v is NONE:
        i.raise_name("AttributeError")
    if v.op == "app" and v.args[0] == "re.compile":
        return mk("bm", (bi("meth:pattern:" + name), v), "fn")
    if v.op == "app" and v.args[0] == "exc":
        if name == "args":
            return tup(v.args[2:])
        return mk("om", (name, v), "fn")
    if isinstance(v.ty, tuple) and v.ty[0] == "obj":
        at = i.config.get("attrs", {}).get((v, name))
        if at is not None:
            return at
        ty, is_prop = method_return_type(i, v.ty[1], name)
        if is_prop:
            return call_opaque(i, v, name, [], {})
        return mk("om", (name, v), "fn")
    if v.op == "c":
        i.raise_name("AttributeError")
    at = i.config.get("attrs", {}).get((v, name))
    if at is not None:
        return at
    return mk("om", (name, v), "fn")


def constraint_attr(i, v, name):
    if v.op == "varc":
        if name == "name":
            return v.args[0]
        if name == "values":
            return i.alloc(Obj("set", None, {"c": v.args[1]}, origin=v))
    return mk("om", (name, v), "fn")


def obj_class(i, v):
    return mk("cls", (i.deref(v).cls,), "fn") if v.op == "ref" else v


def inst_attr(i, v, o, name):
    c = mk("cls", (o.cls,), "fn")
    a = i.class_attr(c, name)
    if a is not None and a.op == "prop":
        return i.call(a.args[0], [v])
    if a is not None and a.op == "cprop":
        if name in o.fields:
            return o.fields[name]
        val = i.call(a.args[0], [v])
        i.st.heap[v.args[0]] = i.deref(v).put(name, val)
        return val
    if name in o.fields:
        x = o.fields[name]
        if x.op == "ite" and tm.contains_op(x, "undef"):
            x = restrict(x, i.st.pc)
            for g, l in leaves(x):
                if l is UNDEF:
                    i.raise_name("AttributeError", g)
            from .interp import _drop_undef
            x = _drop_undef(x)
        return x
    if a is not None:
        return bind_attr(i, a, v, c)
    if name == "__class__":
        return c
    if name == "__dict__":
        m = sq.EMPTY_MAP
        for k, x in o.fields.items():
            m = sq.mput(m, const(k), x)
        return i.alloc(Obj("dict", None, {"c": m}))
    g = i.class_attr(c, "__getattr__")
    if g is not None:
        return i.call(g, [v, const(name)])
    if name in ("__eq__", "__ne__", "__hash__", "__str__", "__repr__", "__init__"):
        return mk("bm", (bi("objmeth:" + name), v), "fn")
    for b in i.mro(c):
        if b.op == "ext" and not b.args[0].startswith(("abc", "typing")):
            return mk("om", (name, v), "fn")
        if b.op == "bi" and b.args[0] in ("dict", "list", "set", "int", "str"):
            raise Unsupported("subclass of a builtin")
        if b.op == "bi" and b.args[0].startswith("exc:"):
            return unk("exception attribute")
    i.raise_name("AttributeError")


def bind_attr(i, a, v, c):
    if a.op == "static":
        return a.args[0]
    if a.op == "clsm":
        return mk("bm", (a.args[0], c), "fn")
    if a.op == "fn":
        return mk("bm", (a, v), "fn")
    if a.op == "ref" and i.deref(a).kind == "cachefn":
        return mk("bm", (a, v), "fn")
    if a.op == "prop":
        return i.call(a.args[0], [v])
    if a.op == "partial":
        return a
    return a


# ---------------------------------------------------------------- methods of builtin containers
def b_noop(i, a, k):
    return NONE


def dispatch_meth(i, name, args, kwargs):
    _, kindn, m = name.split(":", 2)
    recv, rest = args[0], list(args[1:])
    if kindn == "str":
        return str_method(i, recv, m, rest, kwargs)
    if kindn == "match":
        return match_method(i, recv, m, rest)
    if kindn == "pattern":
        return re_call(i, m, [recv.args[1]] + rest, kwargs)
    if kindn in ("list", "iter"):
        return list_method(i, recv, m, rest, kwargs)
    if kindn == "tuple":
        if m == "index":
            return unk("tuple.index")
        if m == "count":
            return sq.sum_(count_comp(recv, rest[0]))
        if m == "__len__":
            return sq.seq_len(recv)
        inner_change(i, recv, m)
        return unk("tuple." + m)
    if kindn == "dict":
        return dict_method(i, recv, m, rest, kwargs)
    if kindn == "set":
        return set_method(i, recv, m, rest, kwargs)
    if kindn == "cs":
        return cs_method(i, recv, m, rest, kwargs)
    if kindn == "cachefn":
        i.st.heap[recv.args[0]] = i.deref(recv).put("c", sq.EMPTY_MAP)
        return NONE
    return unk(name)


def count_comp(s, x):
    b = tm.fresh_bv(sq.seq_elem_ty(s))
    return sq.comp((b,), (s,), eq(b, x), ONE)


_old_call_builtin = call_builtin


def call_builtin(i, name, args, kwargs):  # noqa: F811
    if name.startswith("meth:"):
        return dispatch_meth(i, name, args, kwargs)
    if name.startswith("objmeth:"):
        m = name[8:]
        if m == "__eq__":
            return eq(args[0], args[1])
        if m == "__ne__":
            return not_(eq(args[0], args[1]))
        if m == "__hash__":
            return app("idhash", (args[0],), "int")
        if m == "__setattr__":
            o = i.deref(args[0])
            i.setobj(args[0], o.put(cval(args[1]), args[2]))
            return NONE
        return NONE if m == "__init__" else app("objtext", (args[0],), "str")
    if name.startswith("nummeth:"):
        m = name[8:].strip("_")
        tbl = {"add": "Add", "sub": "Sub", "mul": "Mult", "floordiv": "FloorDiv", "mod": "Mod", "truediv": "Div",
               "and": "BitAnd", "or": "BitOr", "xor": "BitXor", "pow": "Pow"}
        if m in tbl:
            return binop(i, tbl[m], args[0], args[1])
        cm = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}
        if m in cm:
            return compare(i, cm[m], args[0], args[1])
        if m == "abs":
            return b_abs(i, args, {})
        if m == "neg":
            return unop(i, "USub", args[0])
        if m == "str":
            return str_(i, args[0])
        if m == "int":
            return to_int(i, args[0])
        if m == "bool":
            return i.cond(args[0])
        if m == "hash":
            return b_hash(i, args, {})
    if name == "dict.fromkeys":
        s = i.simplify(i.to_seq(args[0]))
        val = args[1] if len(args) > 1 else NONE

        def f(x):
            if x.op == "tup":
                m2 = sq.EMPTY_MAP
                for y in x.args:
                    m2 = sq.mput(m2, key_of(i, y), val)
                return m2
            bvs, gens, c, k, v = comp_parts(x, lambda y: (y, val))
            return sq.dict_comp(bvs, gens, c, k, v)

        return i.alloc(Obj("dict", None, {"c": lift(f, s)}))
    if name == "str.join":
        return str_join(i, args[0], i.to_seq(args[1]))
    if name.startswith("str."):
        return str_method(i, args[0], name[4:], list(args[1:]), kwargs)
    if name.startswith(("int.", "float.")):
        return call_builtin(i, "nummeth:" + name.split(".")[1], args, kwargs)
    if name.startswith(("dict.", "list.", "set.")):
        return i.call(i.getattr(args[0], name.split(".")[1]), list(args[1:]), kwargs)
    if name.startswith("object."):
        return call_builtin(i, "objmeth:" + name[7:], args, kwargs)
    return _old_call_builtin(i, name, args, kwargs)


def list_append(i, r, v):
    o = i.deref(r)
    i.setobj(r, o.put("c", sq.cat([o.fields["c"], tup((v,))])))


def list_method(i, r, m, a, k):
    o = i.deref(r)
    c = o.fields["c"]

    def put(x):
        oo = i.deref(r)
        i.setobj(r, oo.put("c", x))
        return NONE

    if m == "append":
        return put(sq.cat([c, tup((a[0],))]))
    if m == "appendleft":
        return put(sq.cat([tup((a[0],)), c]))
    if m == "extend":
        return put(sq.cat([c, i.to_seq(a[0])]))
    if m == "insert":
        if a[0] is ZERO:
            return put(sq.cat([tup((a[1],)), c]))
        return put(sq.cat([sq.slice_(c, ZERO, a[0]), tup((a[1],)), sq.slice_(c, a[0], NONE)]))
    if m in ("pop", "popleft"):
        ix = ZERO if m == "popleft" else (a[0] if a else const(-1))
        n = sq.seq_len(c)
        i.raise_name("IndexError", restrict(eq(n, ZERO), i.st.pc))
        c = i.simplify(c)
        if is_const(ix):
            kx = cval(ix)
            v = sq.idx(c, ix)
            if kx == -1:
                put(lift(lambda x: tup(x.args[:-1]) if x.op == "tup" else sq.slice_(x, ZERO, const(-1)), c))
            elif kx == 0:
                put(sq.slice_(c, ONE, NONE))
            else:
                put(lift(lambda x: tup(x.args[:kx] + x.args[kx + 1:] if kx >= 0 else x.args[:len(x.args) + kx] + x.args[len(x.args) + kx + 1:])
                         if x.op == "tup" else unk("pop"), c))
            return v
        v = sq.idx(c, ix)
        put(sq.cat([sq.slice_(c, ZERO, ix), sq.slice_(c, add(num(ix), ONE), NONE)]))
        return v
    if m == "remove":
        def f(x):
            if x.op == "tup":
                ds = [sq.decided_eq(y, a[0]) for y in x.args]
                if True in ds and None not in ds[:ds.index(True)]:
                    j = ds.index(True)
                    return tup(x.args[:j] + x.args[j + 1:])
                if not ds or all(d is False for d in ds):
                    return unk("remove missing")
            return app("lremove", (x, freeze(i, a[0])), x.ty)

        i.raise_name("ValueError", restrict(not_(lift(lambda x: sq.in_seq(freeze(i, a[0]) if a[0].op != "ref" else a[0], x), c)), i.st.pc))
        return put(lift(f, c))
    if m == "sort":
        return put(do_sort(i, c, k))
    if m == "reverse":
        return put(sq.rev(c))
    if m == "copy":
        return seq_obj(i, c)
    if m == "clear":
        return put(tup(()))
    if m == "count":
        return sq.sum_(count_comp(c, a[0]))
    if m == "index":
        if c.op == "tup":
            ds = [sq.decided_eq(y, a[0]) for y in c.args]
            if True in ds and None not in ds[:ds.index(True)]:
                return const(ds.index(True))
            if all(d is False for d in ds):
                i.raise_name("ValueError")
        v = freeze(i, a[0])
        gone = restrict(not_(lift(lambda x: sq.in_(v, x), c)), i.st.pc)
        if gone is not FALSE:
            i.raise_name("ValueError", gone)
        return lift(lambda x: app("lindex", (x, v), "int"), c)
    if m == "__len__":
        return sq.seq_len(c)
    if m == "__getitem__":
        return get_item(i, r, a[0])
    if m == "__iter__":
        return seq_obj(i, c, "iter")
    if m == "__next__":
        return b_next(i, [r], {})
    if m == "__contains__":
        return contains(i, a[0], r)
    i.note("list.%s" % m)
    return unk("list." + m)


def dict_method(i, r, m, a, k):
    boxed = r.op == "ref"
    o = i.deref(r) if boxed else None
    c = o.fields["c"] if boxed else r

    def put(x):
        if not boxed:
            inner_change(i, r, "update")
            i.event("mutate", "mutate", None, (), {}, r)
            return NONE
        oo = i.deref(r)
        i.setobj(r, oo.put("c", x))
        return NONE

    if m == "items":
        return sq.items(c) if c.op != "ite" else lift(sq.items, c)
    if m == "keys":
        return lift(sq.keys, c)
    if m == "values":
        return lift(sq.values, c)
    if m in ("get", "__getitem__"):
        if m == "__getitem__":
            return get_item(i, r, a[0])
        kk = key_of(i, a[0])
        d = a[1] if len(a) > 1 else NONE
        if d is ZERO and isinstance(c.ty, tuple) and (is_numty(sq.val_ty(c.ty)) or c is sq.EMPTY_MAP):
            return lift(sq.mget0, c, kk)
        h = restrict(lift(sq.in_, kk, c), i.st.pc)
        if h is FALSE:
            return d
        v = lift(sq.mget, c, kk)
        return ite(h, v, d) if h.op != "unk" else unk("dict.get")
    if m == "copy":
        f = dict(o.fields) if boxed else {"c": c}
        return i.alloc(Obj("dict", None, f))
    if m == "update":
        if a:
            src = a[0]
            if boxed and o.fields.get("counter") is TRUE:
                put(lift(sq.map_addall, c, counter_of(i, src)))
            else:
                put(lift(sq.map_update, c, i.to_map(src)))
        for kk, v in k.items():
            put(sq.mput(i.deref(r).fields["c"], const(kk), v))
        return NONE
    if m == "setdefault":
        kk = key_of(i, a[0])
        d = a[1] if len(a) > 1 else NONE
        h = restrict(lift(sq.in_, kk, c), i.st.pc)

        def miss():
            put(sq.mput(c, kk, d))
            return d

        return i.branch(h, lambda: lift(sq.mget, c, kk), miss)
    if m == "pop":
        kk = key_of(i, a[0])
        h = restrict(lift(sq.in_, kk, c), i.st.pc)
        if len(a) < 2:
            i.raise_name("KeyError", not_(h))
            v = lift(sq.mget, c, kk)
            put(sq.mdel(c, kk))
            return v

        def hit():
            v = lift(sq.mget, c, kk)
            put(sq.mdel(c, kk))
            return v

        return i.branch(h, hit, lambda: a[1])
    if m == "clear":
        return put(sq.EMPTY_MAP)
    if m == "__contains__":
        return contains(i, a[0], r)
    if m == "__len__":
        return sq.map_len(c)
    if m == "__setitem__":
        set_item(i, r, a[0], a[1])
        return NONE
    if m == "total":
        return sq.sum_(sq.values(c))
    if m == "elements":
        return lift(lambda x: app("elements", (x,), ("seq", sq.elem_ty(x.ty))), c)
    if m == "__iter__":
        return seq_obj(i, sq.keys(c), "iter")
    i.note("dict.%s" % m)
    return unk("dict." + m)


def set_arg(i, v):
    return set_from(i, v)


def set_add(i, r, v):
    o = i.deref(r)
    i.setobj(r, o.put("c", sq.sunion([o.fields["c"], lift(lambda x: sq.sset([x]), key_of(i, v))])))


def set_method(i, r, m, a, k):
    boxed = r.op == "ref"
    o = i.deref(r) if boxed else None
    c = o.fields["c"] if boxed else r
    new = lambda x: i.alloc(Obj("set", None, {"c": x}))

    def put(x):
        if not boxed:
            inner_change(i, r, "update")
            i.event("mutate", "mutate", None, (), {}, r)
            return NONE
        oo = i.deref(r)
        i.setobj(r, oo.put("c", x))
        return NONE

    if m == "add":
        return put(sq.sunion([c, lift(lambda x: sq.sset([x]), key_of(i, a[0]))]))
    if m in ("remove", "discard"):
        kk = key_of(i, a[0])
        if m == "remove":
            i.raise_name("KeyError", restrict(not_(lift(sq.in_set, kk, c)), i.st.pc))
        return put(lift(sq.sdiff, c, lift(lambda x: sq.sset([x]), kk)))
    if m in ("union", "__or__"):
        st = split_star(i, a)
        if st is None:
            s = a[0].args[0]
            b = tm.fresh_bv("any")
            return unk("union of many")
        return new(sq.sunion([c] + [set_arg(i, x) for x in st]))
    if m in ("intersection", "__and__"):
        x = c
        for y in a:
            x = lift(sq.sinter, x, set_arg(i, y))
        return new(x)
    if m in ("difference", "__sub__"):
        x = c
        for y in a:
            x = lift(sq.sdiff, x, set_arg(i, y))
        return new(x)
    if m == "copy":
        return new(c)
    if m == "update":
        return put(sq.sunion([c] + [set_arg(i, x) for x in a]))
    if m == "intersection_update":
        return put(lift(sq.sinter, c, set_arg(i, a[0])))
    if m == "difference_update":
        return put(lift(sq.sdiff, c, set_arg(i, a[0])))
    if m == "clear":
        return put(sq.EMPTY_SET)
    if m == "isdisjoint":
        return eq(sq.set_len(lift(sq.sinter, c, set_arg(i, a[0]))), ZERO)
    if m == "issubset":
        return eq(sq.set_len(lift(sq.sdiff, c, set_arg(i, a[0]))), ZERO)
    if m == "issuperset":
        return eq(sq.set_len(lift(sq.sdiff, set_arg(i, a[0]), c)), ZERO)
    if m == "pop":
        i.raise_name("KeyError", restrict(eq(sq.set_len(c), ZERO), i.st.pc))
        cc = i.simplify(i.deref(r).fields["c"])

        def f(x):
            if x.op == "sset" and x.args:
                i.setobj(r, i.deref(r).put("c", sq.sset(x.args[1:])))
                return x.args[0]
            e = sq.idx(sq.elems(x), ZERO)
            i.setobj(r, i.deref(r).put("c", sq.sdiff(x, sq.sset([e]))))
            return e

        return i.cases(cc, f)
    if m == "__len__":
        return sq.set_len(c)
    if m == "__contains__":
        return contains(i, a[0], r)
    if m == "symmetric_difference":
        y = set_arg(i, a[0])
        return new(sq.sunion([lift(sq.sdiff, c, y), lift(sq.sdiff, y, c)]))
    i.note("set.%s" % m)
    return unk("set." + m)


def cs_method(i, r, m, a, k):
    o = i.deref(r)
    c = o.fields["c"]
    if m == "add_constraint":
        v = a[0] if a else list(k.values())[0]
        t = constraint_term(i, v)
        if t.op == "unk":
            i.setobj(r, o.put("c", t))
            return NONE
        part = lift(lambda x: sq.CS_EMPTY if x is NULLC else mk("cs", (x,), "cs"), t)
        i.setobj(r, o.put("c", sq.cs_union([c, part])))
        return NONE
    if m == "combine_sets":
        v = i.simplify(a[0] if a else list(k.values())[0])
        return i.alloc(Obj("cs", None, {"c": sq.cs_union([c, cs_value(i, v)])}))
    if m == "is_possible":
        return sq.possible(c)
    if m == "complies":
        v = a[0] if a else list(k.values())[0]
        return lift(lambda x, y: app("cs.complies", (x, y), "bool"), c, freeze(i, v))
    if m in ("__eq__",):
        return compare(i, "Eq", r, a[0])
    if m == "__str__" or m == "__repr__":
        return app("cs.str", (c,), "str")
    if m == "__hash__":
        return lift(lambda x: app("hash", (x,), "int"), c)
    i.note("constraint set method %s" % m)
    return unk("constraint set method %s" % m)


def cs_value(i, v):
    if v.op == "ite":
        return ite(v.args[0], cs_value(i, v.args[1]), cs_value(i, v.args[2]))
    if v.op == "ref" and i.deref(v).kind == "cs":
        return i.deref(v).fields["c"]
    if v.ty == "cs":
        return v
    return unk("not a constraint set")


# ---------------------------------------------------------------- items
def get_item(i, o, k):
    if o.op == "ext" or o.op == "bi" or o.op == "cls":
        return o  # a typing subscription
    if o.op in ("unk", "undef"):
        return unk("item of unknown")
    if o.op == "obj":
        o = thaw(i, o)
    if o.op == "ref":
        r = i.deref(o)
        if r.kind in ("list", "iter"):
            return seq_item(i, r.fields["c"], k)
        if r.kind == "dict":
            return map_item(i, o, r, k)
        if r.kind == "inst":
            return i.call(i.getattr(o, "__getitem__"), [k])
        return unk("item of %s" % r.kind)
    if isinstance(o.ty, tuple) and o.ty[0] == "seq":
        return seq_item(i, o, k)
    if isinstance(o.ty, tuple) and o.ty[0] == "map":
        kk = key_of(i, k)
        i.raise_name("KeyError", restrict(not_(lift(sq.in_, kk, o)), i.st.pc))
        return lift(sq.mget, o, kk)
    if o.op == "rematch":
        return match_method(i, o, "group", [k])
    if o.ty == "str":
        es = rp.elements(o)
        k = i.simplify(k)
        if es is not None and is_const(k):
            j = cval(k)
            if j < -len(es) or (j >= len(es) and all(isinstance(e, str) for e in es)):
                i.raise_name("IndexError")
            seg = es[:j + 1] if j >= 0 else es[j:]
            if all(isinstance(e, str) for e in seg):
                return const(es[j])
            return unk("character of a number")
        return lift(lambda x, y: app("str.char", (x, y), "str"), o, k)
    if isinstance(o.ty, tuple) and o.ty[0] == "obj":
        return call_opaque(i, o, "__getitem__", [k], {})
    if o.op in ("app", "sym", "bv", "idx", "proj", "mget"):
        return lift(lambda x, y: mk("idx", (x, y), "any"), o, freeze(i, k))
    if o is NONE or is_numty(o.ty):
        i.raise_name("TypeError")
    return unk("item of %s" % o.op)


def seq_item(i, s, k):
    k = i.simplify(k)
    s = i.simplify(s)
    if k.op == "unk" or s.op == "unk":
        return unk("index")
    n = sq.seq_len(s)
    if is_const(k) and isinstance(cval(k), int):
        j = cval(k)
        bad = not_(lt(const(j), n)) if j >= 0 else lt(n, const(-j))
        i.raise_name("IndexError", restrict(bad, i.st.pc))
        return sq.idx(i.simplify(s), k)
    kk = num(k)
    bad = or_(not_(lt(kk, n)), lt(add(kk, n), ZERO))
    i.raise_name("IndexError", restrict(bad, i.st.pc))
    if s.op == "tup" and len(s.args) <= 8 and s.args:
        r = s.args[-1]
        for j in range(len(s.args) - 1):
            r = ite(or_(eq(kk, const(j)), eq(kk, const(j - len(s.args)))), s.args[j], r) if j or True else r
        return r
    return sq.idx(s, kk)


def map_item(i, o, r, k):
    kk = key_of(i, k)
    c = r.fields["c"]
    df = r.fields.get("df")
    h = lift(sq.in_, kk, c)
    h = restrict(h, i.st.pc)
    if df is not None and df is not NONE:
        if df is bi("int") and (c is sq.EMPTY_MAP or (isinstance(c.ty, tuple) and is_numty(sq.val_ty(c.ty)))):
            if r.fields.get("counter") is not TRUE and h is not TRUE:
                i.setobj(o, i.deref(o).put("c", lift(lambda m, x: sq.map_(m, [((), (), TRUE, x, ZERO)]), c, kk)))
            return lift(sq.mget0, c, kk)

        def miss():
            v = i.call(df, [])
            i.setobj(o, i.deref(o).put("c", sq.mput(c, kk, v)))
            return v

        return i.branch(h, lambda: lift(sq.mget, c, kk), miss)
    if h.op == "unk":
        return unk("lookup")
    i.raise_name("KeyError", not_(h))
    return lift(sq.mget, c, kk)


def set_item(i, o, k, v):
    if o.op == "ref":
        r = i.deref(o)
        if r.kind == "dict":
            kk = key_of(i, k)
            if v.ty == "bool" and False:
                v = num(v)
            i.setobj(o, i.deref(o).put("c", lift(lambda m, x, y: sq.mput(m, x, y), r.fields["c"], kk, v)
                                       if v.op != "ref" else lift(lambda m, x: sq.mput(m, x, v), r.fields["c"], kk)))
            return
        if r.kind == "list":
            c = i.simplify(r.fields["c"])
            k = i.simplify(k)
            if c.op == "tup" and is_const(k):
                j = cval(k)
                if not -len(c.args) <= j < len(c.args):
                    i.raise_name("IndexError")
                xs = list(c.args)
                xs[j] = v
                i.setobj(o, r.put("c", tup(xs)))
                return
            kk = num(k)
            i.setobj(o, r.put("c", lift(lambda x, y: app("lset", (x, y, freeze(i, v)), x.ty), c, kk)))
            return
        if r.kind == "inst":
            i.call(i.getattr(o, "__setitem__"), [k, v])
            return
    inner_change(i, o, "update")
    if isinstance(o.ty, tuple) and o.ty[0] in ("map", "seq"):
        i.event("mutate", "mutate", None, (), {}, o)
        i.note("write into a value")
        return
    i.event("opaque_set", "item", o, (freeze(i, k), freeze(i, v)))


def delitem(i, o, k):
    o = i.simplify(o)
    if o.op == "ref" and i.deref(o).kind == "dict":
        r = i.deref(o)
        kk = key_of(i, k)
        i.raise_name("KeyError", restrict(not_(lift(sq.in_, kk, r.fields["c"])), i.st.pc))
        i.setobj(o, i.deref(o).put("c", sq.mdel(r.fields["c"], kk)))
        return
    if o.op == "ref" and i.deref(o).kind == "list":
        list_method(i, o, "pop", [k], {})
        return
    raise Unsupported("del item")


def get_slice(i, o, a, b, st):
    o = i.simplify(o)
    if o.op == "ite":
        return i.cases(o, lambda x: get_slice(i, x, a, b, st))
    if o.ty == "str":
        es = rp.elements(o)
        if es is not None and all(x is NONE or is_const(x) or x.op == "relen" for x in (a, b, st)):
            def ix(x):
                if x is NONE:
                    return None
                return cval(x.args[0]) if x.op == "relen" else cval(x)

            ia, ib, ist = ix(a), ix(b), ix(st)
            if all(isinstance(e, str) for e in es):
                return const("".join(es)[ia:ib:ist])
            if ist in (None, 1):
                # indices counted from an end must not cross a block
                for x, t in ((ia, a), (ib, b)):
                    if x is None or t.op == "relen":
                        continue
                    seg = es[:x] if x >= 0 else es[x:]
                    if not all(isinstance(e, str) for e in seg):
                        return unk("slice through a number")
                return rp.from_elements(es[ia:ib])
            return unk("slice of text")
        return lift(lambda x, y, z, w: app("str.slice", (x, y, z, w), "str"), o, a, b, st)
    boxed = o.op == "ref" and i.deref(o).kind in ("list", "iter")
    s = i.to_seq(o)
    if st is not NONE and st is not ONE:
        if st is const(-1) and a is NONE and b is NONE:
            r = sq.rev(s)
        elif s.op == "tup" and all(x is NONE or is_const(x) for x in (a, b, st)):
            g = lambda x: None if x is NONE else cval(x)
            r = tup(s.args[g(a):g(b):g(st)])
        elif st is const(-1):
            r = lift(lambda x, y, z: app("slice3", (x, y, z, st), x.ty), s, a, b)
        else:
            r = lift(lambda x, y, z, w: app("slice3", (x, y, z, w), x.ty), s, a, b, st)
    else:
        r = sq.slice_(s, num(a) if a is not NONE else a, num(b) if b is not NONE else b)
    return seq_obj(i, r) if boxed else r


def set_slice(i, o, a, b, v):
    if o.op == "ref" and i.deref(o).kind == "list" and a is NONE and b is NONE:
        i.setobj(o, i.deref(o).put("c", i.to_seq(v)))
        return
    raise Unsupported("slice assignment")


# ---------------------------------------------------------------- operators
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "FloorDiv": "floordiv", "Div": "truediv", "Mod": "mod",
          "Pow": "pow", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}


def augop(i, op, a, b):
    a = i.simplify(a)
    if a.op == "ite" and mixed(a):
        return i.cases(a, lambda x: augop(i, op, x, b))
    if a.op == "ref":
        o = i.deref(a)
        if o.kind == "list" and op == "Add":
            list_method(i, a, "extend", [b], {})
            return a
        if o.kind == "set" and op in ("BitOr", "BitAnd", "Sub"):
            set_method(i, a, {"BitOr": "update", "BitAnd": "intersection_update", "Sub": "difference_update"}[op], [b], {})
            return a
        if o.kind == "dict" and op in ("BitOr", "Add"):
            dict_method(i, a, "update", [b], {})
            return a
        if o.kind == "inst":
            m = i.class_attr(cls_of(i, a), "__i%s__" % DUNDER[op])
            if m is not None:
                return i.call(m, [a, b])
    return binop(i, op, a, b)


def is_objlike(i, v):
    return (v.op == "ref" and i.deref(v).kind in ("inst", "cs", "rec")) or v.op == "obj" or v.ty == "outcome" or (
        isinstance(v.ty, tuple) and v.ty[0] == "obj")


def binop(i, op, a, b):
    a, b = i.simplify(a), i.simplify(b)
    if a.op in ("unk", "undef") or b.op in ("unk", "undef"):
        return unk("operand unknown: %s" % ((a if a.op == "unk" else b).args[0] if (a.args or b.args) else ""))
    if mixed(a):
        return i.cases(a, lambda x: binop(i, op, x, b))
    if mixed(b):
        return i.cases(b, lambda x: binop(i, op, a, x))
    if is_objlike(i, a) or is_objlike(i, b):
        return obj_binop(i, op, a, b)
    ka, kb = kind(i, a), kind(i, b)
    if is_numty(a.ty) and is_numty(b.ty):
        return num_binop(i, op, a, b)
    if a.ty == "str" or b.ty == "str":
        if op == "Add":
            if a.ty == "str" and b.ty == "str":
                return strcat([a, b])
            if "any" not in (ka, kb):
                i.raise_name("TypeError")
            return app("+", (a, b), "str")
        if op == "Mult":
            s, n = (a, b) if a.ty == "str" else (b, a)
            if is_const(s) and is_const(n):
                return const(cval(s) * cval(n))
            return lift(lambda x, y: app("str.repeat", (x, y), "str"), s, num(n))
        if op == "Mod" and a.ty == "str":
            if is_const(a):
                vals = list(b.args) if b.op == "tup" else [b]
                out = []
                pos = 0
                for part in pyre.split(r"(%[sd])", cval(a)):
                    if part in ("%s", "%d"):
                        out.append(str_(i, vals[pos]))
                        pos += 1
                    elif "%" in part.replace("%%", ""):
                        return unk("% format")
                    elif part:
                        out.append(const(part.replace("%%", "%")))
                return strcat(out)
            return unk("% format")
    seqk = ("list", "seq", "iter")
    if ka in seqk and kb in seqk and op == "Add":
        r = sq.cat([i.to_seq(a), i.to_seq(b)])
        return seq_obj(i, r) if ka == "list" else r
    if op == "Mult" and (ka in seqk or kb in seqk):
        s, n = (a, b) if ka in seqk else (b, a)
        c = i.to_seq(s)
        n = num(n)
        x = None
        if is_const(n) and c.op == "tup" and cval(n) * len(c.args) <= 400:
            x = tup(c.args * max(0, cval(n)))
        else:
            z = tm.fresh_bv("int")
            if c.op == "tup" and len(c.args) == 1:
                x = sq.comp((z,), (sq.range_(ZERO, n),), TRUE, c.args[0])
            else:
                y = tm.fresh_bv(sq.seq_elem_ty(c))
                x = sq.comp((z, y), (sq.range_(ZERO, n), c), TRUE, y)
        return seq_obj(i, x) if kind(i, s) == "list" else x
    setk = ("set", "setv")
    if ka in setk and kb in setk:
        m = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}.get(op)
        if m:
            return set_method(i, a, m, [b], {})
    if ka in ("dict", "map") and kb in ("dict", "map"):
        if op == "BitOr":
            return i.alloc(Obj("dict", None, {"c": lift(sq.map_update, i.to_map(a), i.to_map(b))}))
        if op == "Add" and ka == "dict" and i.deref(a).fields.get("counter") is TRUE:
            return i.alloc(Obj("dict", None, {"c": lift(sq.map_positive, lift(sq.map_addall, i.to_map(a), i.to_map(b))),
                                              "df": bi("int"), "counter": TRUE}))
    if ka == "any" or kb == "any":
        # one operand of unknown type, most often a number
        return lift(lambda x, y: app("op:" + op, (x, y), "any"), freeze(i, a), freeze(i, b))
    i.raise_name("TypeError")


def num_binop(i, op, a, b):
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op in ("FloorDiv", "Div", "Mod"):
        i.raise_name("ZeroDivisionError", restrict(eq(num(b), ZERO), i.st.pc))
        a, b = i.simplify(num(a)), i.simplify(num(b))
        if op == "FloorDiv":
            narrow(i, a)
            narrow(i, b)
            return lift(tm.floordiv, num(a), num(b))
        if op == "Div":
            return tm.truediv(num(a), num(b))
        return lift(tm.mod, num(a), num(b))
    if op == "Pow":
        return lift(tm.power, num(a), num(b))
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a.ty == "bool" and b.ty == "bool":
            if op == "BitAnd":
                return and_(a, b)
            if op == "BitOr":
                return or_(a, b)
            return not_(eq(a, b))

        def f(x, y):
            if is_const(x) and is_const(y):
                p, q = int(cval(x)), int(cval(y))
                return const(p & q if op == "BitAnd" else p | q if op == "BitOr" else p ^ q)
            xs = []
            for z in (x, y):
                if z.op == "app" and z.args[0] == op:
                    xs.extend(z.args[1:])
                else:
                    xs.append(z)
            xs.sort(key=lambda z: z.id)
            return app(op, xs, "int")

        return lift(f, num(a), num(b))
    return lift(lambda x, y: app("op:" + op, (x, y), "int"), num(a), num(b))


def obj_binop(i, op, a, b):
    n = DUNDER[op]
    for x in (a, b):
        pass
    av = thaw(i, a) if (a.ty == "outcome" or a.op == "obj") else a
    bv = thaw(i, b) if (b.ty == "outcome" or b.op == "obj") else b
    if av.op == "ref" and i.deref(av).kind == "inst":
        m = i.class_attr(cls_of(i, av), "__%s__" % n)
        if m is not None:
            r = i.call(m, [av, bv])
            if r is bi("NotImplemented"):
                return reflected(i, n, av, bv)
            return r
        return reflected(i, n, av, bv)
    if isinstance(av.ty, tuple) and av.ty[0] == "obj":
        return call_opaque(i, av, "__%s__" % n, [bv], {})
    return reflected(i, n, av, bv)


def reflected(i, n, a, b):
    if b.op == "ref" and i.deref(b).kind == "inst":
        m = i.class_attr(cls_of(i, b), "__r%s__" % n)
        if m is not None:
            r = i.call(m, [b, a])
            if r is not bi("NotImplemented"):
                return r
    i.raise_name("TypeError")


def unop(i, op, v):
    v = i.simplify(v)
    if mixed(v):
        return i.cases(v, lambda x: unop(i, op, x))
    if is_numty(v.ty):
        if op == "USub":
            return neg(num(v))
        if op == "UAdd":
            return num(v)
        if op == "Invert":
            return sub(neg(num(v)), ONE)
    if v.op in ("unk", "undef"):
        return unk("operand unknown")
    return unary_dunder(i, v, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])


CMP = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}
SWAP = {"Eq": "Eq", "NotEq": "NotEq", "Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}


def compare(i, op, a, b):
    a, b = i.simplify(a), i.simplify(b)
    if op in ("In", "NotIn"):
        r = contains(i, a, b)
        return not_(r) if op == "NotIn" else r
    if a.op in ("unk", "undef") or b.op in ("unk", "undef"):
        return unk("comparison with unknown")
    if op in ("Is", "IsNot"):
        r = identical(i, a, b)
        return not_(r) if op == "IsNot" else r
    if mixed(a):
        return i.cases(a, lambda x: compare(i, op, x, b))
    if mixed(b):
        return i.cases(b, lambda x: compare(i, op, a, x))
    if is_objlike(i, a) or is_objlike(i, b):
        return obj_compare(i, op, a, b)
    fa, fb = freeze(i, a), freeze(i, b)
    if op == "Eq":
        return eq_values(i, fa, fb)
    if op == "NotEq":
        return not_(eq_values(i, fa, fb))
    if is_numty(fa.ty) and is_numty(fb.ty):
        return {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op](num(fa), num(fb))
    setk = ("set", "setv")
    if kind(i, a) in setk and kind(i, b) in setk:
        x, y = (fa, fb) if op in ("Lt", "LtE") else (fb, fa)
        sub_ = eq(sq.set_len(lift(sq.sdiff, x, y)), ZERO)
        return sub_ if op in ("LtE", "GtE") else and_(sub_, not_(eq(x, y)))
    if is_const(fa) and is_const(fb):
        try:
            x, y = cval(fa), cval(fb)
            return const({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
        except TypeError:
            i.raise_name("TypeError")
    if fa.op == "tup" and fb.op == "tup":
        try:
            r = tm.lex_lt(fa.args, fb.args)
            e = eq(fa, fb)
            return {"Lt": r, "LtE": or_(r, e), "Gt": and_(not_(r), not_(e)), "GtE": not_(r)}[op]
        except Exception:
            return unk("tuple comparison")
    ka, kb = kind(i, a), kind(i, b)
    if "any" in (ka, kb) or ka == kb:
        return lift(lambda x, y: app("cmp:" + op, (x, y), "bool"), fa, fb)
    i.raise_name("TypeError")


def eq_values(i, a, b):
    if a.ty == "cs" and b.ty == "cs":
        return lift(lambda x, y: TRUE if x is y else mk("eq", tuple(sorted((x, y), key=lambda t: t.id)), "bool"), a, b)
    ea, eb = (rp.elements(a), rp.elements(b)) if a.ty == "str" and b.ty == "str" and a.op != "ite" and b.op != "ite" else (None, None)
    if ea is not None and eb is not None and (a.op != "c" or b.op != "c"):
        return rope_eq(ea, eb)
    return eq(a, b)


def _text_eq(x, y):
    if x.ty != "str" or y.ty != "str" or x.op == "ite" or y.op == "ite":
        return None
    ex, ey = rp.elements(x), rp.elements(y)
    if ex is None or ey is None:
        return None
    r = rope_eq(ex, ey)
    return None if tm.contains_op(r, "unk") else r


tm.HOOKS_EQ.append(_text_eq)


def rope_eq(x, y):
    """equality of texts with blocks"""
    x, y = list(x), list(y)
    r = TRUE
    while x and y:
        p, q = x[0], y[0]
        if isinstance(p, str) and isinstance(q, str):
            if p != q:
                return FALSE
            x.pop(0)
            y.pop(0)
            continue
        if not isinstance(p, str) and not isinstance(q, str):
            nx = x[1] if len(x) > 1 else None
            ny = y[1] if len(y) > 1 else None
            if (nx is None or not (isinstance(nx, str) and nx.isdigit())) and (
                    ny is None or not (isinstance(ny, str) and ny.isdigit())):
                r = and_(r, eq(p[1], q[1]))
                x.pop(0)
                y.pop(0)
                continue
            return unk("text comparison")
        blk, other = (p, y) if not isinstance(p, str) else (q, x)
        ch = other[0]
        if not ch.isdigit():
            return FALSE
        digs = ""
        k = 0
        while k < len(other) and isinstance(other[k], str) and other[k].isdigit():
            digs += other[k]
            k += 1
        r = and_(r, eq(blk[1], const(int(digs)))) if str(int(digs)) == digs else FALSE
        if r is FALSE:
            return FALSE
        del other[:k]
        (x if not isinstance(p, str) else y).pop(0)
    if x or y:
        return FALSE
    return r


def identical(i, a, b):
    if a.op == "ite" or b.op == "ite":
        x, y = (a, b) if a.op == "ite" else (b, a)
        return ite(x.args[0], identical(i, x.args[1], y), identical(i, x.args[2], y))
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y is NONE:
            if x.op in ("ref", "fn", "bm", "cls", "tup", "rematch", "obj", "bi", "ext", "comp", "map", "range"):
                return FALSE
            if x.op == "c" or is_numty(x.ty) or x.ty in ("str", "outcome", "bool", "cs"):
                return FALSE
            if isinstance(x.ty, tuple):
                return FALSE
            return eq(x, NONE)
        if y.ty == "bool" and y.op == "c":
            if x.ty == "bool":
                return x if y is TRUE else not_(x)
            return FALSE
    if a.op == "ref" or b.op == "ref":
        if a.op == "ref" and b.op == "ref":
            oa, ob = i.deref(a).origin, i.deref(b).origin
            if oa is not None and oa is ob and i.deref(a).kind == i.deref(b).kind:
                return unk("identity of thawed objects")
        return FALSE
    if a.ty == "str" and b.ty == "str" and not (is_const(a) and is_const(b)):
        # equal texts need not be one object
        x, y = sorted((a, b), key=lambda t: t.id)
        return and_(eq(a, b), app("same_object", [x, y], "bool"))
    return eq(a, b)


def obj_compare(i, op, a, b):
    n = CMP[op]
    av = thaw(i, a) if (a.ty == "outcome" or a.op == "obj") else a
    bv = thaw(i, b) if (b.ty == "outcome" or b.op == "obj") else b
    if av.op == "ref" and i.deref(av).kind == "cs" or bv.op == "ref" and i.deref(bv).kind == "cs":
        if op in ("Eq", "NotEq"):
            x, y = (cs_value(i, av) if (av.op == "ref" and i.deref(av).kind == "cs") or av.ty == "cs" else None,
                    cs_value(i, bv) if (bv.op == "ref" and i.deref(bv).kind == "cs") or bv.ty == "cs" else None)
            r = FALSE if x is None or y is None else eq_values(i, x, y)
            return not_(r) if op == "NotEq" else r
        i.raise_name("TypeError")
    if av.op == "ref" and i.deref(av).kind == "inst":
        c = cls_of(i, av)
        m = i.class_attr(c, "__%s__" % n)
        if m is not None:
            r = i.call(m, [av, bv])
            if r is not bi("NotImplemented"):
                return r
        elif op == "NotEq" and i.class_attr(c, "__eq__") is not None:
            return not_(i.cond(i.call(i.class_attr(c, "__eq__"), [av, bv])))
        elif "dataclass" in CLASSES[c.args[0]].flags and "noeq" not in CLASSES[c.args[0]].flags and (
                op in ("Eq", "NotEq") or "order" in CLASSES[c.args[0]].flags):
            if bv.op != "ref" or i.deref(bv).kind != "inst" or i.deref(bv).cls != c.args[0]:
                if op in ("Eq", "NotEq"):
                    return const(op == "NotEq")
                i.raise_name("TypeError")
            fs = dataclass_fields(i, c)
            return compare(i, op, tup([i.deref(av).fields[f] for f in fs]), tup([i.deref(bv).fields[f] for f in fs]))
    elif isinstance(av.ty, tuple) and av.ty[0] == "obj" and av.op != "ref":
        return call_opaque(i, av, "__%s__" % n, [bv], {})
    if bv.op == "ref" and i.deref(bv).kind == "inst":
        m = i.class_attr(cls_of(i, bv), "__%s__" % CMP[SWAP[op]])
        if m is not None:
            r = i.call(m, [bv, av])
            if r is not bi("NotImplemented"):
                return r
    if op == "Eq":
        return identical(i, av, bv)
    if op == "NotEq":
        return not_(identical(i, av, bv))
    i.raise_name("TypeError")


def contains(i, k, o):
    o = i.simplify(o)
    if o.op == "ite":
        return i.cases(o, lambda x: contains(i, k, x))
    if o.op in ("unk", "undef"):
        return unk("membership in unknown")
    if o.op == "ref":
        r = i.deref(o)
        if r.kind == "dict":
            return lift(sq.in_, key_of(i, k), r.fields["c"])
        if r.kind in ("list", "iter"):
            return lift(sq.in_seq, kfreeze(i, k), r.fields["c"])
        if r.kind == "set":
            return lift(sq.in_set, key_of(i, k), r.fields["c"])
        if r.kind == "inst":
            m = i.class_attr(cls_of(i, o), "__contains__")
            if m is not None:
                return i.cond(i.call(m, [o, k]))
            return lift(sq.in_seq, kfreeze(i, k), i.to_seq(o))
    if isinstance(o.ty, tuple):
        if o.ty[0] == "map":
            return lift(sq.in_, key_of(i, k), o)
        if o.ty[0] == "set":
            return lift(sq.in_set, key_of(i, k), o)
        if o.ty[0] == "seq":
            return lift(sq.in_seq, kfreeze(i, k), o)
    if o.ty == "str":
        k = i.simplify(k)
        if k.op == "ite":
            return i.cases(k, lambda x: contains(i, x, o))
        es = rp.elements(o)
        if es is not None and is_const(k):
            if cval(k) == "":
                return TRUE
            try:
                return const(len(rp.str_split(es, cval(k))) > 1)
            except rp.Ambiguous:
                return unk("membership in text")
        return lift(lambda x, y: app("str.in", (x, y), "bool"), k, o)
    if isinstance(o.ty, tuple) and o.ty[0] == "obj":
        return truth(call_opaque(i, o, "__contains__", [k], {}))
    return lift(lambda x, y: app("contains", (x, y), "bool"), freeze(i, k), freeze(i, o))


def kfreeze(i, k):
    return k if k.op == "ref" and i.deref(k).kind == "inst" and not i.implements(cls_of(i, k), "IProbabilityOutcome") else freeze(i, k)


# ---------------------------------------------------------------- with
def enter(i, v):
    i.event("enter", "enter", v)
    return v


def exit(i, v):
    i.event("exit", "exit", v)
