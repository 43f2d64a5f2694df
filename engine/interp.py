"""Abstract interpreter: one pass over a function body per activation, states joined at control-flow merges.

Values are terms (terms.py / seqs.py).  The heap maps object ids to immutable records whose fields are terms.
"""
import ast
import copy
import builtins as pybuiltins
from fractions import Fraction

from . import terms as tm
from . import seqs as sq
from .terms import (T, mk, const, TRUE, FALSE, NONE, ZERO, ONE, UNDEF, ite, and_, or_, not_, eq, lt, le, gt, ge, add,
                    sub, mul, neg, truth, lift, fv, tup, unk, app, sym, is_const, cval, is_numty, is_intty, num,
                    restrict, prune)


class Dead(Exception):
    """no normal continuation from here"""


class Unsupported(Exception):
    pass


class Obj:
    """immutable heap record"""
    __slots__ = ("kind", "cls", "fields", "origin")

    def __init__(self, kind, cls=None, fields=None, origin=None):
        self.kind = kind
        self.cls = cls
        self.fields = fields or {}
        self.origin = origin

    def put(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return Obj(self.kind, self.cls, f, self.origin)

    def drop(self, k):
        f = dict(self.fields)
        f.pop(k, None)
        return Obj(self.kind, self.cls, f, self.origin)


class State:
    __slots__ = ("heap", "pc", "ctx", "events")

    def __init__(self, heap=None, pc=TRUE, ctx=TRUE, events=None):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.ctx = ctx
        self.events = events if events is not None else []

    def fork(self):
        return State(dict(self.heap), self.pc, self.ctx, list(self.events))

    def guard(self):
        return and_(self.ctx, self.pc)


class Ev:
    __slots__ = ("guard", "kind", "name", "recv", "args", "kwargs", "where", "extra", "loops", "src")

    def __init__(self, guard, kind, name, recv=None, args=(), kwargs=None, where=None, extra=None):
        self.guard, self.kind, self.name, self.recv = guard, kind, name, recv
        self.args, self.kwargs, self.where, self.extra = tuple(args), dict(kwargs or {}), where, extra
        self.loops, self.src = [], None

    def __repr__(self):
        return "<%s %s %s %s %s if %s>" % (self.kind, self.recv, self.name, self.args, self.kwargs, self.guard)


class Func:
    """a function object: its code and its lexical environment"""
    def __init__(self, node, mod, scope, defaults, kwdefaults, cls, name, flags=()):
        self.node, self.mod, self.scope = node, mod, scope
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls, self.name, self.flags = cls, name, tuple(flags)
        self.cache = None
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        self.locals = local_names(node)


def own_nodes(fn):
    """nodes of a function body without those of nested functions"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(fn):
    names, glob = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
    # comprehension targets live in their own scope; treating them as locals is harmless
    return names - glob


class Class:
    def __init__(self, name, mod, bases, hid, node):
        self.name, self.mod, self.bases, self.hid, self.node = name, mod, bases, hid, node
        self.flags = set()


class Ctl:
    """exits collected for the innermost function / loop / try"""
    def __init__(self):
        self.returns = []
        self.raises = []
        self.breaks = []
        self.continues = []


class Exc:
    __slots__ = ("cls", "args", "where", "term")

    def __init__(self, cls, args, where, term=None):
        self.cls, self.args, self.where, self.term = cls, args, where, term

    @property
    def name(self):
        return exc_name(self.cls)


def exc_name(c):
    if c is None:
        return "?"
    if c.op == "bi":
        return c.args[0][4:] if c.args[0].startswith("exc:") else c.args[0]
    if c.op == "ext":
        return c.args[0]
    if c.op == "cls":
        return CLASSES[c.args[0]].name
    return "?"


FUNCS = []
CLASSES = []
EXC_NAMES = {n for n in dir(pybuiltins) if isinstance(getattr(pybuiltins, n), type)
             and issubclass(getattr(pybuiltins, n), BaseException)}


def bi(name):
    return mk("bi", (name,), "fn")


def ext(name):
    return mk("ext", (name,), "fn")


def ref(i):
    return mk("ref", (i,), "ref")


WORLD = 0  # heap id of the counters of opaque effects


def writes(node):
    """may the body leave effects in objects of the caller"""
    for n in ast.walk(node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            return True
    return False


class Interp:
    MAX_DEPTH = 60
    MAX_UNROLL = 400

    def __init__(self, program):
        from . import models
        self.models = models
        self.Obj, self.Ctl, self.Dead, self.Unsupported = Obj, Ctl, Dead, Unsupported
        self.p = program
        self.next_id = 1
        self.st = State()
        self.st.heap[WORLD] = Obj("world", None, {"w": app("w0", (), "world")})
        self.ctl = Ctl()
        self.frames = []  # (frame id, Func)
        self.stack = []
        self.modules = {}
        self.loading = set()
        self.notes = []
        self.visited = set()
        self.abstract_cs = True
        self.try_stack = []
        self.hooks = {}
        self.steps = 0
        self.config = {}
        self.cur_node = None
        for m in sorted(program.trees):
            self.load(m)

    # ------------------------------------------------------------ bookkeeping
    rev_sets = set()

    def alloc(self, obj):
        i = self.next_id
        self.next_id += 1
        self.st.heap[i] = obj
        if obj.kind == "set" and self.config.get("alloc_order") == "rev":
            self.rev_sets.add(i)
        return ref(i)

    def note(self, msg):
        w = self.where()
        self.notes.append("%s: %s" % (w, msg))

    def where(self, node=None):
        node = node or self.cur_node
        line = getattr(node, "lineno", 0)
        if self.frames:
            f = self.frames[-1][1]
            if f is not None:
                return "%s:%s %s" % (self.p.files.get(f.mod, f.mod), line,
                                     (CLASSES[f.cls].name + "." if f.cls is not None else "") + f.name)
        return "?:%s" % line

    def deref(self, r):
        o = self.st.heap[r.args[0]]
        if o.kind == "gen":
            self.force(r)
            o = self.st.heap[r.args[0]]
        return o

    # ------------------------------------------------------------ generators
    def is_lazy(self, v):
        """a generator nobody has asked for an element yet"""
        return v.op == "ref" and self.st.heap[v.args[0]].kind == "gen"

    def run_gen(self, r, hook):
        """run the body of a generator; hook(v) takes the place of its consumer at every yield"""
        o = self.st.heap[r.args[0]]
        self.st.heap[r.args[0]] = Obj("iter", None, {"c": tup(())})
        fr = o.fields["frame"]
        self.hooks.setdefault(fr.args[0], []).append(hook)
        try:
            self.run_body(FUNCS[o.fields["fn"].args[0]], fr)
        finally:
            self.hooks[fr.args[0]].pop()

    def force(self, r):
        y = self.alloc(Obj("list", None, {"c": tup(())}))
        self.run_gen(r, lambda v: self.models.list_append(self, y, v))
        self.st.heap[r.args[0]] = Obj("iter", None, {"c": self.st.heap[y.args[0]].fields["c"]})

    def consumed_by(self, body):
        """the hook that runs body, a piece of the frame below the generator's, for one element"""
        def hook(v):
            frames = self.frames
            self.frames = frames[:-1]
            try:
                self.loop_literal([v], body, None)
            finally:
                self.frames = frames
        return hook

    def ev_lazy(self, e):
        """evaluate e; a generator expression becomes a generator"""
        if isinstance(e, ast.GeneratorExp):
            _, f = self.frames[-1]
            if f.name != "<module>" and not getattr(f, "is_class", False) and not any(isinstance(n, ast.NamedExpr) for n in ast.walk(e)):
                first = self.ev_lazy(e.generators[0].iter)
                node = GENEXPS.get(e)
                if node is None:
                    node = GENEXPS[e] = genexp_function(e)
                fn = self.make_func(node, "<genexpr>")
                return self.call_func(FUNCS[fn.args[0]], [first], {}, fn)
        return self.ev(e)

    def setobj(self, r, obj):
        old = self.st.heap.get(r.args[0])
        if old is not None and old.origin is not None:
            if self.__dict__.get("built_outcomes") and getattr(old.origin, "ty", None) == "outcome":
                raise Unsupported("write to an element of a list of outcomes")
            self.st.events.append(Ev(self.st.guard(), "mutate", old.kind, None, (), {}, self.where(), old.origin))
        self.st.heap[r.args[0]] = obj

    def opaque_bool(self, why):
        self.opq = getattr(self, "opq", 0) + 1
        return sym("?%s#%d" % (why, self.opq), "bool")

    def cond(self, t):
        """truth value as a usable condition"""
        c = self.truth(t)
        if c.op in ("unk", "undef"):
            return self.opaque_bool(c.args[0] if c.args else "undefined")
        return c

    def event(self, kind, name, recv=None, args=(), kwargs=None, extra=None):
        self.st.events.append(Ev(self.st.guard(), kind, name, recv, args, kwargs, self.where(), extra))

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2):
        """state that is s1 where c holds and s2 elsewhere (both reachable)"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        out = State(dict(s1.heap), or_(s1.pc, s2.pc), s1.ctx)
        for i, o2 in s2.heap.items():
            o1 = s1.heap.get(i)
            if o1 is None:
                out.heap[i] = o2
            elif o1 is not o2:
                out.heap[i] = self.merge_obj(c, o1, o2)
        n = 0
        e1, e2 = s1.events, s2.events
        while n < len(e1) and n < len(e2) and e1[n] is e2[n]:
            n += 1
        out.events = e1[:n] + e1[n:] + e2[n:]
        return out

    def merge_obj(self, c, a, b):
        f = {}
        if a.kind != b.kind and "gen" in (a.kind, b.kind):
            return Obj("iter", None, {"c": unk("a generator started on one of two paths")})
        for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
            x, y = a.fields.get(k, UNDEF), b.fields.get(k, UNDEF)
            if a.kind == "world" and isinstance(k, tuple):
                x = ZERO if x is UNDEF else x
                y = ZERO if y is UNDEF else y
            if isinstance(x, T) and isinstance(y, T):
                f[k] = x if x is y else ite(c, x, y)
            else:
                f[k] = x
        return Obj(a.kind, a.cls, f, a.origin or b.origin)

    def merge_exits(self, exits):
        """exits: list of (state, value); program order. returns (state, value)"""
        if not exits:
            return None, None
        st, val = exits[-1]
        for s, v in reversed(exits[:-1]):
            pc = s.pc
            val = v if v is val else (ite(pc, v, val) if isinstance(v, T) and isinstance(val, T) else v)
            st = self.merge(pc, s, st)
        # keep events in program order: the merge above nests from the right, which preserves it
        return st, val

    def branch(self, c, f_then, f_else):
        """run two thunks under c / not c, join values and states"""
        if c is TRUE:
            return f_then()
        if c is FALSE:
            return f_else()
        base = self.st
        s1 = base.fork()
        s1.pc = and_(base.pc, c)
        s2 = base.fork()
        s2.pc = and_(base.pc, not_(c))
        v1 = v2 = None
        if s1.pc is FALSE:
            s1 = None
        else:
            self.st = s1
            try:
                v1 = f_then()
                s1 = self.st
            except Dead:
                s1 = None
        if s2.pc is FALSE:
            s2 = None
        else:
            self.st = s2
            try:
                v2 = f_else()
                s2 = self.st
            except Dead:
                s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            self.st = s2
            return v2
        if s2 is None:
            self.st = s1
            return v1
        self.st = self.merge(c, s1, s2)
        if v1 is None or v2 is None:
            return v1 if v2 is None else v2
        return ite(c, v1, v2)

    def cases(self, v, f):
        """apply f to every leaf of a gated value, each in its own branch"""
        v = self.simplify(v)
        if v.op != "ite":
            return f(v)
        return self.branch(v.args[0], lambda: self.cases(v.args[1], f), lambda: self.cases(v.args[2], f))

    def simplify(self, v):
        if v.op == "ite":
            v = restrict(v, self.st.pc)
            if v.op == "ite":
                v = prune(v, self.st.pc)
        return v

    # ------------------------------------------------------------ exceptions
    def raise_(self, exc, cond=TRUE):
        """record an exceptional exit under cond; continues (or dies) under its negation"""
        if cond is FALSE:
            return
        s = self.st.fork()
        s.pc = and_(self.st.pc, cond)
        if s.pc is not FALSE:
            self.ctl.raises.append((s, exc))
        self.st.pc = and_(self.st.pc, not_(cond))
        if self.st.pc is FALSE or cond is TRUE:
            raise Dead()

    def raise_name(self, name, cond=TRUE):
        self.raise_(Exc(bi("exc:" + name), (), self.where()), cond)

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        fr = self.alloc(Obj("frame", None, {"__name__": const(name)}))
        self.modules[name] = fr
        node = self.p.trees[name]
        f = Func.__new__(Func)
        f.node, f.mod, f.scope, f.defaults, f.kwdefaults = node, name, (), (), {}
        f.cls, f.name, f.flags, f.cache, f.is_gen, f.locals = None, "<module>", (), None, False, None
        f.module_frame = fr
        old = self.frames, self.ctl
        self.frames = self.frames + [(fr, f)]
        self.ctl = Ctl()
        try:
            self.exec_block(node.body)
        except Dead:
            self.note("module %s does not finish loading" % name)
        finally:
            self.frames, self.ctl = old
        return fr

    def module_attr(self, modname, name):
        fr = self.deref(self.modules[modname])
        if name in fr.fields:
            return fr.fields[name]
        full = modname + "." + name
        if full in self.p.trees:
            self.load(full)
            return mk("mod", (full,), "mod")
        raise KeyError(name)

    def cls_named(self, modname, name):
        return self.module_attr(modname, name)

    # ------------------------------------------------------------ names
    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__") and self.frames:
            for fr, f in reversed(self.frames[-1:]):
                if f is not None and f.cls is not None:
                    return "_" + CLASSES[f.cls].name.lstrip("_") + name
        return name

    def lookup(self, name):
        fr, f = self.frames[-1]
        o = self.deref(fr)
        if name in o.fields:
            v = o.fields[name]
            if v.op == "ite":
                v = restrict(v, self.st.pc)
                if tm.contains_op(v, "undef"):
                    for g, leaf in tm.leaves(v):
                        if leaf is UNDEF:
                            self.raise_name("UnboundLocalError", g)
                    v = _drop_undef(v)
            if v is UNDEF:
                self.raise_name("UnboundLocalError")
            return v
        for sfr in reversed(f.scope):
            so = self.deref(sfr)
            if name in so.fields:
                return so.fields[name]
        mfr = self.modules.get(f.mod)
        if mfr is not None:
            mo = self.deref(mfr)
            if name in mo.fields:
                return mo.fields[name]
        b = self.models.builtin(name)
        if b is not None:
            return b
        if name in EXC_NAMES:
            return bi("exc:" + name)
        if f.locals is not None and name in f.locals:
            self.raise_name("UnboundLocalError")
        self.note("unknown name %s" % name)
        return unk("name " + name)

    def assign_name(self, name, v):
        fr, f = self.frames[-1]
        if getattr(f, "is_class", False):
            name = self.mangle(name)
        if f.locals is not None and name not in f.locals:
            for sfr in reversed(f.scope):
                if name in self.deref(sfr).fields:
                    self.st.heap[sfr.args[0]] = self.deref(sfr).put(name, v)
                    return
            mfr = self.modules.get(f.mod)
            self.event("global_write", name, None, ())
            self.st.heap[mfr.args[0]] = self.deref(mfr).put(name, v)
            return
        self.st.heap[fr.args[0]] = self.deref(fr).put(name, v)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.cur_node = s
        self.steps += 1
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.note("statement %s" % type(s).__name__)
            raise Unsupported(type(s).__name__)
        m(s)

    def st_Pass(self, s):
        pass

    def st_Expr(self, s):
        self.ev(s.value)

    def st_Global(self, s):
        pass

    def st_Nonlocal(self, s):
        pass

    def st_Assert(self, s):
        c = self.cond(self.ev(s.test))
        self.raise_name("AssertionError", not_(c))

    def st_Assign(self, s):
        v = self.ev_lazy(s.value) if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            new = self.models.augop(self, type(s.op).__name__, old, self.ev(s.value))
            self.assign_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            new = self.models.augop(self, type(s.op).__name__, old, self.ev(s.value))
            self.setattr(o, self.mangle(t.attr), new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            old = self.getitem(o, k)
            new = self.models.augop(self, type(s.op).__name__, old, self.ev(s.value))
            self.setitem(o, k, new)
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if isinstance(t.slice, ast.Slice):
                a = self.ev(t.slice.lower) if t.slice.lower else NONE
                b = self.ev(t.slice.upper) if t.slice.upper else NONE
                self.models.set_slice(self, o, a, b, v)
                return
            self.setitem(o, self.ev(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            seq = self.to_seq(v)
            n = len(t.elts)
            if star:
                i = star[0]
                tail = n - i - 1
                if n > 1:
                    few = restrict(lt(sq.seq_len(seq), const(n - 1)), self.st.pc)
                    if few is not FALSE:
                        self.raise_name("ValueError", few)
                for j in range(i):
                    self.assign(t.elts[j], sq.idx(seq, const(j)))
                mid = sq.slice_(seq, const(i), const(-tail) if tail else NONE)
                self.assign(t.elts[i].value, self.alloc(Obj("list", None, {"c": mid})))
                for j in range(tail):
                    self.assign(t.elts[i + 1 + j], sq.idx(seq, const(j - tail)))
                return
            for leaf in tm.leaves(seq):
                if leaf[1].op == "tup" and len(leaf[1].args) != n:
                    self.raise_name("ValueError", leaf[0])
            for j, e in enumerate(t.elts):
                self.assign(e, self.unpack(seq, j))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, seq, j):
        v = sq.idx(seq, const(j))
        return v

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr, _ = self.frames[-1]
                self.st.heap[fr.args[0]] = self.deref(fr).drop(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                self.models.delitem(self, o, self.ev(t.slice))
            else:
                raise Unsupported("del")

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.ctl_fn().returns.append((self.st, v))
        raise Dead()

    def ctl_fn(self):
        return self.ctl

    def st_Break(self, s):
        self.ctl.breaks.append((self.st, NONE))
        raise Dead()

    def st_Continue(self, s):
        self.ctl.continues.append((self.st, NONE))
        raise Dead()

    def st_If(self, s):
        c = self.cond(self.ev(s.test))
        c = restrict(c, self.st.pc)
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def st_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            self.raise_(cur if cur else Exc(None, (), self.where()))
            return
        v = self.ev(s.exc)
        self.raise_(self.as_exc(v))

    def as_exc(self, v):
        if v.op == "excv":
            return v.args[0].exc
        if v.op in ("bi", "cls", "ext"):
            return Exc(v, (), self.where(), v)
        if v.op == "ref" and self.deref(v).kind == "inst":
            return Exc(mk("cls", (self.deref(v).cls,), "fn"), (), self.where(), v)
        if v.op == "app" and v.args[0] == "exc":
            return Exc(v.args[1], v.args[2:], self.where(), v)
        return Exc(None, (), self.where(), v)

    def exc_matches(self, exc, handler):
        """TRUE/FALSE/None(unknown)"""
        if handler.op == "tup":
            rs = [self.exc_matches(exc, h) for h in handler.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if exc.cls is None:
            return None
        a, b = exc.cls, handler
        if a is b:
            return True
        if b.op == "bi" and b.args[0] in ("exc:Exception", "exc:BaseException"):
            return True
        if a.op == "bi" and b.op == "bi":
            ca, cb = getattr(pybuiltins, exc_name(a), None), getattr(pybuiltins, exc_name(b), None)
            if ca and cb:
                return issubclass(ca, cb)
        if a.op == "cls":
            for base in self.mro(a):
                if base is b:
                    return True
                if base.op == "bi" and b.op == "bi":
                    ca, cb = getattr(pybuiltins, exc_name(base), None), getattr(pybuiltins, exc_name(b), None)
                    if ca and cb and issubclass(ca, cb):
                        return True
            return False
        if a.op == "ext" and b.op == "bi":
            return False if b.args[0] not in ("exc:ValueError",) else None
        return False

    def st_Try(self, s, finalizer=None):
        outer = self.ctl
        inner = Ctl()
        inner.returns, inner.breaks, inner.continues = outer.returns, outer.breaks, outer.continues
        fin = bool(s.finalbody) or finalizer is not None
        finalizer = finalizer or (lambda: self.exec_block(s.finalbody))
        if fin:
            inner.returns, inner.breaks, inner.continues = [], [], []
        handlers = []
        for h in s.handlers:
            if h.type is None:
                handlers.append((bi("exc:BaseException"), h))
            else:
                t = self.ev(h.type)
                handlers.append((self.to_seq(t) if t.op == "ref" else t, h))
        self.ctl = inner
        self.try_stack.append([h for h, _ in handlers])
        normal = None
        try:
            self.exec_block(s.body)
            normal = self.st
        except Dead:
            normal = None
        finally:
            self.try_stack.pop()
            self.ctl = outer
        hctl = Ctl()
        hctl.returns, hctl.breaks, hctl.continues = inner.returns, inner.breaks, inner.continues
        if not fin:
            hctl.raises = outer.raises
        ends = []
        if normal is not None and s.orelse:
            self.st = normal
            self.ctl = hctl
            try:
                self.exec_block(s.orelse)
                normal = self.st
            except Dead:
                normal = None
            self.ctl = outer
        if normal is not None:
            ends.append((normal, NONE))
        for st, exc in inner.raises:
            caught = False
            for ht, h in handlers:
                m = self.exc_matches(exc, ht)
                if m is None:
                    m = False if exc.cls is not None and exc.cls.op == "ext" else True
                if m:
                    caught = True
                    self.st = st
                    self.ctl = hctl
                    old = getattr(self, "handling", None)
                    self.handling = exc
                    self.event("caught", exc_name(exc.cls), None, ())
                    try:
                        if h.name:
                            v = exc.term if exc.term is not None else app("excobj", (), "any")
                            self.assign_name(h.name, v)
                        self.exec_block(h.body)
                        ends.append((self.st, NONE))
                    except Dead:
                        pass
                    finally:
                        self.handling = old
                        self.ctl = outer
                    break
            if not caught:
                hctl.raises.append((st, exc))
        if fin:
            def run_fin(st):
                self.st = st
                self.ctl = outer
                finalizer()
                return self.st

            for name in ("returns", "breaks", "continues"):
                for st, v in getattr(inner, name):
                    try:
                        getattr(outer, name).append((run_fin(st), v))
                    except Dead:
                        pass
            for st, exc in hctl.raises:
                try:
                    outer.raises.append((run_fin(st), exc))
                except Dead:
                    pass
        if not ends:
            raise Dead()
        self.st, _ = self.merge_exits(ends)
        if fin:
            self.ctl = outer
            finalizer()

    def st_With(self, s):
        if len(s.items) > 1:
            inner = ast.copy_location(ast.With(items=s.items[1:], body=s.body), s)
            return self.st_With(ast.copy_location(ast.With(items=s.items[:1], body=[inner]), s))
        call = s.items[0].context_expr
        if isinstance(call, ast.Call) and isinstance(call.func, (ast.Name, ast.Attribute)):
            if self.ev(call.func) is ext("contextlib.suppress"):
                h = ast.ExceptHandler(type=ast.Tuple(elts=call.args, ctx=ast.Load()), name=None, body=[ast.Pass()])
                t = ast.Try(body=s.body, handlers=[h], orelse=[], finalbody=[])
                for n in (h, h.type, h.body[0], t):
                    ast.copy_location(n, s)
                return self.st_Try(t)
        v = self.simplify(self.ev(s.items[0].context_expr))
        if v.op in ("unk", "undef"):
            raise Unsupported("with over an unknown context manager")
        if v.op == "ref" and self.st.heap[v.args[0]].kind == "cm":
            return self.with_generator(s, self.st.heap[v.args[0]].fields["gen"])
        opened = []
        for it in s.items:
            if v.op == "ref" and self.deref(v).kind == "inst":
                e = self.call(self.getattr(v, "__enter__"), [], {})
                opened.append(v)
            else:
                e = self.models.enter(self, v)
                opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e)
        def leave():
            for v in reversed(opened):
                if v.op == "ref" and self.deref(v).kind == "inst":
                    r = self.call(self.getattr(v, "__exit__"), [NONE, NONE, NONE], {})
                    if r is not NONE and r is not FALSE:
                        raise Unsupported("a context manager that may swallow exceptions")
                else:
                    self.models.exit(self, v)
        self.st_Try(ast.copy_location(ast.Try(body=s.body, handlers=[], orelse=[], finalbody=[]), s), leave)

    def with_generator(self, s, g):
        """with over a contextlib.contextmanager: the body runs where the generator yields; leaving it by return, break or continue
        resumes the generator, an exception is raised at its yield"""
        me = self.frames[-1][0]
        outer = self.ctl
        kinds = ("returns", "breaks", "continues")

        def body(x):
            if s.items[0].optional_vars is not None:
                self.assign(s.items[0].optional_vars, x)
            ctl = Ctl()
            ctl.raises = self.ctl.raises
            gctl, self.ctl = self.ctl, ctl
            ends = []
            try:
                self.exec_block(s.body)
                ends.append((self.st, 0, NONE))
            except Dead:
                pass
            finally:
                self.ctl = gctl
            for n, k in enumerate(kinds):
                ends += [(st, n + 1, v) for st, v in getattr(ctl, k)]
            if not ends:
                raise Dead()
            for st, n, v in ends:
                st.heap[me.args[0]] = st.heap[me.args[0]].put("<left>", const(n)).put("<value>", v)
            self.st, _ = self.merge_exits([(st, NONE) for st, n, v in reversed(ends)])

        def hook(v):
            frames = self.frames
            self.frames = frames[:-1]
            try:
                body(v)
            finally:
                self.frames = frames
        self.run_gen(g, hook)
        fr = self.deref(me)
        left, value = fr.fields.get("<left>", ZERO), fr.fields.get("<value>", NONE)
        self.st.heap[me.args[0]] = fr.drop("<left>").drop("<value>")
        for n, k in enumerate(kinds):
            c = restrict(eq(left, const(n + 1)), self.st.pc)
            if c is FALSE:
                continue
            st = self.st.fork()
            st.pc = and_(st.pc, c)
            if st.pc is not FALSE:
                getattr(outer, k).append((st, restrict(value, st.pc)))
            self.st.pc = and_(self.st.pc, not_(c))
            if self.st.pc is FALSE:
                raise Dead()

    def st_Import(self, s):
        for al in s.names:
            if al.asname:
                self.assign_name(al.asname, self.import_(al.name))
            else:
                self.import_(al.name)
                self.assign_name(al.name.split(".")[0], self.import_(al.name.split(".")[0]))

    def import_(self, name):
        if name in self.p.trees:
            self.load(name)
            return mk("mod", (name,), "mod")
        return ext(name)

    def st_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            _, f = self.frames[-1]
            parts = f.mod.split(".")
            if not self.p.is_pkg.get(f.mod):
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        for al in s.names:
            if base in self.p.trees:
                self.load(base)
                if al.name == "*":
                    for k, v in self.deref(self.modules[base]).fields.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                    continue
                try:
                    v = self.module_attr(base, al.name)
                except KeyError:
                    self.note("cannot import %s from %s" % (al.name, base))
                    v = unk("import %s.%s" % (base, al.name))
            else:
                v = ext(base + "." + al.name)
            self.assign_name(al.asname or al.name, v)

    def make_func(self, node, name):
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {x.arg: self.ev(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr, f = self.frames[-1]
        scope = f.scope
        if f.name != "<module>" and not getattr(f, "is_class", False):
            scope = f.scope + (fr,)
        cls = f.cls
        fn = Func(node, f.mod, scope, defaults, kwd, cls, name)
        FUNCS.append(fn)
        return mk("fn", (len(FUNCS) - 1,), "fn")

    def st_FunctionDef(self, s):
        v = self.make_func(s, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.models.decorate(self, dv, v)
        self.assign_name(s.name, v)

    def st_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        if any(b.op == "ext" and b.args[0] in ("typing.NamedTuple", "typing_extensions.NamedTuple") for b in bases):
            bases = []
            s = _named_tuple(s)
        hid = self.alloc(Obj("classobj", None, {}))
        _, f = self.frames[-1]
        c = Class(s.name, f.mod, bases, hid, s)
        CLASSES.append(c)
        cid = len(CLASSES) - 1
        cf = Func.__new__(Func)
        cf.node, cf.mod, cf.scope, cf.defaults, cf.kwdefaults = s, f.mod, f.scope, (), {}
        if f.name != "<module>" and not getattr(f, "is_class", False):
            cf.scope = f.scope + (self.frames[-1][0],)
        cf.cls, cf.name, cf.flags, cf.cache, cf.is_gen, cf.locals = cid, s.name, (), None, False, None
        cf.is_class = True
        self.frames.append((hid, cf))
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        v = mk("cls", (cid,), "fn")
        if any(b.op == "ext" and b.args[0] in ENUMS for b in self.mro(v)):
            self.enum_members(v, s)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.models.decorate_class(self, dv, v)
        self.assign_name(s.name, v)

    def enum_members(self, v, s):
        """the simple assignments of an enumeration's body become its members"""
        c = CLASSES[v.args[0]]
        c.flags.add("enum")
        members = []
        for st in s.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                n = st.targets[0].id
                if n.startswith("_"):
                    continue
                rec = self.deref(c.hid)
                val = rec.fields.get(n)
                if val is None or val.op in ("fn", "prop", "static", "clsm", "cprop"):
                    continue
                if val.op == "ext" and val.args[0] == "enum.auto()":
                    val = const(len(members) + 1)
                o = self.alloc(Obj("inst", v.args[0], {"value": val, "_value_": val, "name": const(n), "_name_": const(n)}))
                init = self.class_attr(v, "__init__")
                if init is not None:
                    self.call(init, [o] + (list(val.args) if val.op == "tup" else [val]), {})
                self.st.heap[c.hid.args[0]] = self.deref(c.hid).put(n, o)
                members.append(o)
        self.st.heap[c.hid.args[0]] = self.deref(c.hid).put("__members_seq__", tup(members))

    # ------------------------------------------------------------ loops
    def st_For(self, s):
        if s.orelse and _has_break(s):
            return self.exec_block(_flag_breaks(s))
        it = self.ev_lazy(s.iter)
        broke = []

        def body(x):
            self.assign(s.target, x)
            self.exec_block(s.body)

        self.loop(it, body, s, broke)
        if s.orelse:
            self.exec_block(s.orelse)

    def loop(self, it, body, node, broke=None):
        """iterate the abstract iterable"""
        it = self.simplify(it)
        if self.is_lazy(it) and not _has_exit(node) and not _handles(FUNCS[self.st.heap[it.args[0]].fields["fn"].args[0]].node):
            self.run_gen(it, self.consumed_by(body))
            return
        if it.op == "ref" and self.deref(it).kind == "iter":
            src = self.deref(it)
            s = src.fields["c"]
            self.setobj(it, src.put("c", tup(())))
        else:
            s = self.to_seq(it)
        s = self.simplify(s)
        if s.op == "ite":
            self.branch(s.args[0], lambda: self.loop_seq(s.args[1], body, node, broke),
                        lambda: self.loop_seq(s.args[2], body, node, broke))
            return
        self.loop_seq(s, body, node, broke)

    def loop_seq(self, s, body, node, broke=None):
        s = self.simplify(s)
        if s.op == "ite":
            self.branch(s.args[0], lambda: self.loop_seq(s.args[1], body, node, broke),
                        lambda: self.loop_seq(s.args[2], body, node, broke))
            return
        if s.op == "unk" or s.op == "undef":
            self.note("loop over unknown sequence: %s" % (s,))
            self.havoc_loop(body, s, node)
            return
        if s.op == "tup" and len(s.args) <= self.MAX_UNROLL:
            self.loop_literal(s.args, body, broke)
            return
        if s.op == "cat":
            if broke is None or not _has_break(node):
                for p in s.args:
                    self.loop_seq(p, body, node, broke)
                return
        if s.op == "comp" and len(s.args[0]) > 1 and (broke is None or not _has_break(node)):
            bvs, gens, cond, elt = s.args[:4]
            k = next((j for j, g in enumerate(gens) if g.op == "tup" and len(g.args) <= self.MAX_UNROLL), None)
            if k is not None:
                def inner(m):
                    def each(x):
                        mm = dict(m)
                        mm[bvs[k]] = x
                        sub_ = lambda y: sq.subst(y, mm)
                        if k + 1 < len(bvs):
                            self.loop_seq(sq.comp(bvs[k + 1:], [sub_(g) for g in gens[k + 1:]], sub_(cond), sub_(elt)), body, node, broke)
                        else:
                            self.branch(restrict(sub_(cond), self.st.pc), lambda: body(sub_(elt)), lambda: None)
                    self.loop_literal(gens[k].args, each, broke)
                if k == 0:
                    inner({})
                else:
                    first = gens[0] if k == 1 else sq.comp(bvs[:k], gens[:k], TRUE, tm.tup(bvs[:k]))
                    self.loop_seq(first, lambda x: inner({bvs[0]: x} if k == 1 else {b: sq.idx(x, const(j)) for j, b in enumerate(bvs[:k])}),
                                  node, broke)
                return
        self.loop_symbolic(s, body, node, broke)

    def loop_literal(self, items, body, broke):
        outer = self.ctl
        brk = []
        for x in items:
            ctl = Ctl()
            ctl.returns, ctl.raises = outer.returns, outer.raises
            self.ctl = ctl
            end = None
            try:
                body(x)
                end = self.st
            except Dead:
                end = None
            finally:
                self.ctl = outer
            brk.extend(ctl.breaks)
            ends = list(ctl.continues)
            if end is not None:
                ends.append((end, NONE))
            if not ends:
                self.st = None
                break
            self.st, _ = self.merge_exits(ends)
        ends = list(brk)
        if broke is not None:
            broke.extend(brk)
        if self.st is not None:
            ends.append((self.st, NONE))
        if not ends:
            raise Dead()
        self.st, _ = self.merge_exits(ends)

    def havoc_loop(self, body, s, node):
        """the iterable is unknown: everything the body may write becomes unknown"""
        self.loop_symbolic(mk("app", ("?seq", sym("?seq%d" % self.next_id, "any")), ("seq", "any")), body, node, None)

    def st_While(self, s):
        if s.orelse and _has_break(s):
            return self.exec_block(_flag_breaks(s))
        # guarded unrolling while the condition is decided or dies out; otherwise a loop node
        base = self.st.fork()
        base_ctl = (len(self.ctl.returns), len(self.ctl.raises), len(self.ctl.breaks), len(self.ctl.continues))
        outer = self.ctl
        brk = []
        pending = []  # states that left the loop normally
        ok = False
        start_id = self.next_id
        sym_iters = 0
        for n in range(self.MAX_UNROLL):
            c = self.cond(self.ev(s.test))
            c = restrict(c, self.st.pc)
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                sym_iters += 1
                if sym_iters > self.config.get("while_unroll", 10):
                    break
            if c is not TRUE:
                out = self.st.fork()
                out.pc = and_(out.pc, not_(c))
                if out.pc is not FALSE:
                    pending.append((out, NONE))
                self.st.pc = and_(self.st.pc, c)
                if self.st.pc is FALSE:
                    self.st = None
                    ok = True
                    break
            ctl = Ctl()
            ctl.returns, ctl.raises = outer.returns, outer.raises
            self.ctl = ctl
            try:
                self.exec_block(s.body)
                end = self.st
            except Dead:
                end = None
            finally:
                self.ctl = outer
            brk.extend(ctl.breaks)
            ends = list(ctl.continues) + ([(end, NONE)] if end is not None else [])
            if not ends:
                self.st = None
                ok = True
                break
            self.st, _ = self.merge_exits(ends)
        if not ok:
            # summarise instead
            self.st = base
            r0, x0, b0, c0 = base_ctl
            del outer.returns[r0:], outer.raises[x0:], outer.breaks[b0:], outer.continues[c0:]
            self.while_symbolic(s)
            if s.orelse:
                self.exec_block(s.orelse)
            return
        ends = pending + ([(self.st, NONE)] if self.st is not None else [])
        if s.orelse and ends:
            self.st, _ = self.merge_exits(ends)
            self.exec_block(s.orelse)
            ends = [(self.st, NONE)]
        ends = ends + brk
        if not ends:
            raise Dead()
        self.st, _ = self.merge_exits(ends)

    # .......... symbolic loops
    def loop_symbolic(self, s, body, node, broke):
        Summary(self, s, body, node).run(broke)

    def while_symbolic(self, s):
        WhileSummary(self, s).run()

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.cur_node = e if hasattr(e, "lineno") else self.cur_node
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        try:
            return const(e.value)
        except TypeError:
            return unk("constant")

    def ex_Name(self, e):
        return self.lookup(e.id)

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign_name(e.target.id, v)
        return v

    def ex_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def ex_Tuple(self, e):
        return self.seq_display(e.elts)

    def seq_display(self, elts):
        parts = []
        cur = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(tup(cur))
                cur = []
                parts.append(self.to_seq(self.ev(x.value)))
            else:
                cur.append(self.ev(x))
        parts.append(tup(cur))
        if len(parts) == 1:
            return parts[0]
        return sq.cat(parts)

    def ex_List(self, e):
        return self.alloc(Obj("list", None, {"c": self.seq_display(e.elts)}))

    def ex_Set(self, e):
        c = self.seq_display(e.elts)
        if c.op == "tup":
            c = tup([self.key_of(x) for x in c.args])
        return self.alloc(Obj("set", None, {"c": sq.set_of_seq(c)}))

    def ex_Dict(self, e):
        m = sq.EMPTY_MAP
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = sq.map_update(m, self.to_map(self.ev(v)))
            else:
                kk = self.key_of(self.ev(k))
                m = sq.mput(m, kk, self.ev(v))
        return self.alloc(Obj("dict", None, {"c": m}))

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                if v.conversion == 114:
                    x = self.models.repr_(self, x)
                elif v.format_spec is not None:
                    spec = self.ev(v.format_spec)
                    if spec is const(""):
                        x = self.models.str_(self, x)
                    else:
                        x = lift(lambda a, b: app("format", (a, b), "str"), self.models.freeze_scalar(self, x), spec)
                else:
                    x = self.models.str_(self, x)
                parts.append(x)
        return self.models.strcat(parts)

    def ex_FormattedValue(self, e):
        return self.models.str_(self, self.ev(e.value))

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.models.binop(self, type(e.op).__name__, a, b)

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        o = type(e.op).__name__
        if o == "Not":
            return not_(self.cond(v))
        return self.models.unop(self, o, v)

    def ex_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def rec(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = restrict(self.cond(v), self.st.pc)
            if is_and:
                return self.branch(c, lambda: rec(i + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: rec(i + 1))

        return rec(0)

    def ex_IfExp(self, e):
        c = restrict(self.cond(self.ev(e.test)), self.st.pc)
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def ex_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for o, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.models.compare(self, type(o).__name__, left, right)
            if res is None:
                res = c
            else:
                # chained comparison: value of the last one when all hold
                res = and_(truth(res), truth(c)) if res.ty == "bool" or c.ty == "bool" else c
            left = right
        return res

    def ex_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            a = self.ev(e.slice.lower) if e.slice.lower else NONE
            b = self.ev(e.slice.upper) if e.slice.upper else NONE
            st = self.ev(e.slice.step) if e.slice.step else NONE
            return self.models.get_slice(self, o, a, b, st)
        return self.getitem(o, self.ev(e.slice))

    def ex_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def ex_Starred(self, e):
        raise Unsupported("starred")

    def ex_Slice(self, e):
        return tup([self.ev(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def ex_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        fr, _ = self.frames[-1]
        self.hooks[fr.args[0]][-1](v)
        return NONE

    def ex_YieldFrom(self, e):
        fr, _ = self.frames[-1]
        self.loop(self.ev_lazy(e.value), self.hooks[fr.args[0]][-1], e)
        return NONE

    def comprehension(self, gens, emit):
        """run nested generator loops; emit() records one element"""
        fr, f = self.frames[-1]
        saved = {}
        o = self.deref(fr)
        targets = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        for t in targets:
            saved[t] = o.fields.get(t)
        # comprehension variables are local to the comprehension
        old_locals = f.locals

        def rec(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]

            def body(x):
                self.bind_comp(g.target, x)
                c = TRUE
                for cnd in g.ifs:
                    c2 = restrict(self.cond(self.ev(cnd)), self.st.pc)
                    if c2 is FALSE:
                        return
                    if c2 is not TRUE:
                        c = c2
                        rest = g.ifs[g.ifs.index(cnd) + 1:]

                        def then():
                            for r in rest:
                                c3 = restrict(self.cond(self.ev(r)), self.st.pc)
                                if c3 is FALSE:
                                    return NONE
                                if c3 is not TRUE:
                                    self.branch(c3, lambda: (rec(i + 1), NONE)[1], lambda: NONE)
                                    return NONE
                            rec(i + 1)
                            return NONE

                        self.branch(c, then, lambda: NONE)
                        return
                rec(i + 1)

            self.loop(self.ev_lazy(g.iter), body, g)

        rec(0)
        o = self.deref(fr)
        for t in targets:
            if saved[t] is None:
                o = o.drop(t)
            else:
                o = o.put(t, saved[t])
        self.st.heap[fr.args[0]] = o

    def bind_comp(self, target, x):
        fr, f = self.frames[-1]
        if isinstance(target, ast.Name):
            self.st.heap[fr.args[0]] = self.deref(fr).put(target.id, x)
        elif isinstance(target, (ast.Tuple, ast.List)):
            seq = self.to_seq(x)
            for j, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    raise Unsupported("starred comprehension target")
                self.bind_comp(e, self.unpack(seq, j))
        else:
            raise Unsupported("comprehension target")

    def ex_ListComp(self, e):
        r = self.alloc(Obj("list", None, {"c": tup(())}))
        self.comprehension(e.generators, lambda: self.models.list_append(self, r, self.ev(e.elt)))
        return r

    def ex_GeneratorExp(self, e):
        r = self.ex_ListComp(e)
        o = self.deref(r)
        return self.alloc(Obj("iter", None, {"c": o.fields["c"]}))

    def ex_SetComp(self, e):
        r = self.alloc(Obj("set", None, {"c": sq.EMPTY_SET}))
        self.comprehension(e.generators, lambda: self.models.set_add(self, r, self.ev(e.elt)))
        return r

    def ex_DictComp(self, e):
        r = self.alloc(Obj("dict", None, {"c": sq.EMPTY_MAP}))

        def emit():
            k = self.ev(e.key)
            v = self.ev(e.value)
            self.setitem(r, k, v)

        self.comprehension(e.generators, emit)
        return r

    def ex_Call(self, e):
        f = self.ev(e.func)
        args, kwargs = [], {}
        star_seq = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.simplify(self.to_seq(self.ev(a.value)))
                if s.op == "tup":
                    args.extend(s.args)
                else:
                    args.append(mk("star", (s,), "any"))
            else:
                args.append(self.ev_lazy(a) if f.op in ("fn", "bm") else self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                m = self.to_map(self.ev(k.value))
                if sq.all_literal(m) and all(is_const(x) for x, _ in sq.lit_items(m)):
                    for kk, vv in sq.lit_items(m):
                        kwargs[cval(kk)] = vv
                else:
                    raise Unsupported("** with unknown keys")
            else:
                kwargs[k.arg] = self.ev(k.value)
        self.cur_node = e
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.simplify(f)
        if f.op == "ite":
            return self.cases(f, lambda g: self.call(g, list(args), dict(kwargs)))
        if f.op == "fn":
            return self.call_func(FUNCS[f.args[0]], args, kwargs, f)
        if f.op == "bm":
            return self.call(f.args[0], [f.args[1]] + list(args), kwargs)
        if f.op == "partial":
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + list(args), kw)
        if f.op == "cls":
            return self.instantiate(f, args, kwargs)
        if f.op == "bi":
            return self.models.call_builtin(self, f.args[0], args, kwargs)
        if f.op == "ext":
            return self.models.call_ext(self, f.args[0], args, kwargs)
        if f.op == "om":
            return self.models.call_opaque(self, f.args[1], f.args[0], args, kwargs)
        if f.op == "ref":
            o = self.deref(f)
            if o.kind == "inst":
                return self.call(self.getattr(f, "__call__"), args, kwargs)
            if o.kind == "cachefn":
                return self.models.call_cached(self, f, args, kwargs)
        if f.op in ("app", "sym"):
            return self.models.call_value(self, f, args, kwargs)
        if f.op in ("unk", "undef"):
            self.note("call of unknown value: %s" % (f,))
            return unk("call of unknown")
        self.note("call of %s" % (f,))
        return unk("call of %s" % f.op)

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        star = [i for i, x in enumerate(args) if x.op == "star"]
        if star:
            i = star[0]
            s = args[i].args[0]
            need = len(pos) - i
            if a.vararg is None and len(star) == 1 and i == len(args) - 1:
                args = args[:i] + [sq.idx(s, const(j)) for j in range(need - len([k for k in kwargs if k in pos[i:]]))]
            elif a.vararg is not None and i == len(pos) and i == len(args) - 1:
                for p, v in zip(pos, args[:i]):
                    vals[p] = v
                vals[a.vararg.arg] = s
                args = None
            else:
                raise Unsupported("star argument")
        if args is not None:
            for p, v in zip(pos, args):
                vals[p] = v
            extra = args[len(pos):]
            if a.vararg is not None:
                vals[a.vararg.arg] = tup(extra)
            elif extra:
                self.raise_name("TypeError")
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in vals:
                self.raise_name("TypeError")
            if k in pos or k in kwonly:
                vals[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            m = sq.EMPTY_MAP
            for k, v in rest.items():
                m = sq.mput(m, const(k), v)
            vals[a.kwarg.arg] = self.alloc(Obj("dict", None, {"c": m}))
        elif rest:
            self.raise_name("TypeError")
        nd = len(fn.defaults)
        for p, d in zip(pos[len(pos) - nd:], fn.defaults):
            vals.setdefault(p, d)
        for k, d in fn.kwdefaults.items():
            vals.setdefault(k, d)
        for p in pos + kwonly:
            if p not in vals:
                self.raise_name("TypeError")
        return vals

    def call_func(self, fn, args, kwargs, term=None):
        if len(self.frames) > self.MAX_DEPTH:
            self.note("call depth")
            return unk("recursion too deep")
        if sum(1 for _, f in self.frames if f is fn) > self.config.get("recursion", 12):
            self.note("recursion of %s" % fn.name)
            return unk("recursion")
        vals = self.bind(fn, args, kwargs)
        self.visited.add((fn.mod, CLASSES[fn.cls].name if fn.cls is not None else None, fn.name,
                          getattr(fn.node, "lineno", 0)))
        fr = self.alloc(Obj("frame", None, vals))
        if fn.is_gen:
            g = self.alloc(Obj("gen", None, {"frame": fr, "fn": term}))
            if "contextmanager" in fn.flags:
                return self.alloc(Obj("cm", None, {"gen": g}))
            return g
        return self.run_body(fn, fr)

    def run_body(self, fn, fr):
        pc, ctx = self.st.pc, self.st.ctx
        outer = self.ctl
        ctl = Ctl()
        self.ctl = ctl
        self.st.ctx = and_(ctx, pc)
        self.st.pc = TRUE
        self.frames.append((fr, fn))
        saved_node = self.cur_node
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body)
                ctl.returns.append((self.st, v))
            else:
                self.exec_block(fn.node.body)
                ctl.returns.append((self.st, NONE))
        except Dead:
            pass
        except Unsupported as u:
            self.note("unsupported: %s" % u)
            ctl.returns.append((self.st, unk("unsupported: %s" % u)))
            if writes(fn.node):
                self.lost = "unsupported: %s" % u  # what the rest of the body writes is not in the state
        finally:
            self.frames.pop()
            self.ctl = outer
            self.cur_node = saved_node
        for st, exc in ctl.raises:
            st.pc = and_(pc, st.pc)
            st.ctx = ctx
            if st.pc is not FALSE:
                outer.raises.append((st, exc))
        if not ctl.returns:
            raise Dead()
        # in program order of their conditions
        st, v = self.merge_exits(ctl.returns)
        self.st = st
        st.pc = and_(pc, st.pc)
        st.ctx = ctx
        if st.pc is FALSE:
            raise Dead()
        return v

    # ------------------------------------------------------------ classes
    def mro(self, c):
        """linearisation (C3 is not needed for these hierarchies: depth first, last occurrence wins)"""
        out = []

        def rec(x):
            out.append(x)
            if x.op == "cls":
                for b in CLASSES[x.args[0]].bases:
                    rec(b)

        rec(c)
        seen, res = set(), []
        for x in reversed(out):
            if x not in seen:
                seen.add(x)
                res.append(x)
        return list(reversed(res))

    def class_attr(self, c, name, start_after=None):
        skip = start_after is not None
        for x in self.mro(c):
            if skip:
                if x is start_after:
                    skip = False
                continue
            if x.op == "cls":
                o = self.deref(CLASSES[x.args[0]].hid)
                if name in o.fields:
                    return o.fields[name]
        return None

    def is_subclass(self, a, b):
        return b in self.mro(a)

    def cls_by_name(self, name):
        for i, c in reversed(list(enumerate(CLASSES))):
            if c.name == name and c.mod in self.p.trees:
                return mk("cls", (i,), "fn")
        return None

    def class_by_simple(self, name):
        if not hasattr(self, "_cbn"):
            self._cbn = {}
        if name not in self._cbn:
            found = None
            for m, fr in self.modules.items():
                v = self.deref(fr).fields.get(name)
                if v is not None and v.op == "cls" and CLASSES[v.args[0]].mod == m:
                    found = v
            self._cbn[name] = found
        return self._cbn[name]

    def implements(self, c, iface):
        """does class term c descend from the interface with that simple name"""
        i = self.class_by_simple(iface)
        return i is not None and i in self.mro(c)

    def instantiate(self, c, args, kwargs):
        h = self.models.construct(self, c, args, kwargs)
        if h is not None:
            return h
        if self.config.get("log_new"):
            self.event("new", CLASSES[c.args[0]].name)
        for b in self.mro(c):
            if b.op == "bi" and b.args[0].startswith("exc:"):
                o = self.alloc(Obj("inst", c.args[0], {"args": tup(args)}))
                init = self.class_attr(c, "__init__")
                if init is not None:
                    self.call(init, [o] + list(args), kwargs)
                return o
        new = self.class_attr(c, "__new__")
        if new is not None:
            o = self.call(new, [c] + list(args), kwargs)
        else:
            o = self.alloc(Obj("inst", c.args[0], {}))
        init = self.class_attr(c, "__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif "dataclass" in CLASSES[c.args[0]].flags:
            self.models.dataclass_init(self, c, o, args, kwargs)
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        name = self.mangle(name)
        v = self.simplify(v)
        if v.op == "ite":
            return self.cases(v, lambda x: self.getattr(x, name))
        return self.models.get_attribute(self, v, name)

    def setattr(self, v, name, val):
        v = self.simplify(v)
        if v.op == "ite":
            self.cases(v, lambda x: (self.setattr(x, name, val), NONE)[1])
            return
        if v.op == "ref":
            o = self.deref(v)
            if o.kind == "inst":
                c = mk("cls", (o.cls,), "fn")
                d = self.class_attr(c, name)
                if d is not None and d.op == "prop":
                    if d.args[1] is not None:
                        self.call(d.args[1], [v, val])
                        return
                    self.raise_name("AttributeError")
                if self.frames and self.config.get("log_attr_writes"):
                    self.event("attr_write", name, v, ())
            self.setobj(v, o.put(name, val))
            return
        if v.op == "cls":
            hid = CLASSES[v.args[0]].hid
            self.event("class_write", name, v, ())
            self.st.heap[hid.args[0]] = self.deref(hid).put(name, val)
            return
        if v.op == "mod":
            fr = self.modules[v.args[0]]
            self.event("global_write", name, None, ())
            self.st.heap[fr.args[0]] = self.deref(fr).put(name, val)
            return
        if v.op == "ext":
            self.event("ext_set", v.args[0] + "." + name, None, (self.freeze(val),))
            return
        self.event("opaque_set", name, v, (self.freeze(val),))

    def getitem(self, o, k):
        o = self.simplify(o)
        if o.op == "ite":
            return self.cases(o, lambda x: self.getitem(x, k))
        return self.models.get_item(self, o, k)

    def setitem(self, o, k, v):
        o = self.simplify(o)
        if o.op == "ite":
            self.cases(o, lambda x: (self.setitem(x, k, v), NONE)[1])
            return
        self.models.set_item(self, o, k, v)

    # ------------------------------------------------------------ conversions
    def truth(self, v):
        v = self.simplify(v)
        if v.op == "ite" and v.ty != "bool":
            return self.cases(v, self.truth)
        if v.op == "ref":
            o = self.deref(v)
            if o.kind in ("list", "iter"):
                return not_(eq(sq.seq_len(o.fields["c"]), ZERO))
            if o.kind == "dict":
                return not_(eq(sq.map_len(o.fields["c"]), ZERO))
            if o.kind == "set":
                return not_(eq(sq.set_len(o.fields["c"]), ZERO))
            if o.kind == "inst":
                c = mk("cls", (o.cls,), "fn")
                for n in ("__bool__", "__len__"):
                    m = self.class_attr(c, n)
                    if m is not None:
                        return self.truth(self.call(m, [v]))
                return TRUE
            return TRUE
        return truth(v)

    def to_seq(self, v):
        v = self.simplify(v)
        if v.op == "ite":
            return self.cases(v, self.to_seq)
        return self.models.to_seq(self, v)

    def to_map(self, v):
        v = self.simplify(v)
        if v.op == "ite":
            return self.cases(v, self.to_map)
        if v.op == "ref" and self.deref(v).kind == "dict":
            return self.deref(v).fields["c"]
        if isinstance(v.ty, tuple) and v.ty[0] == "map":
            return v
        if v.op == "ref" and self.deref(v).kind == "inst":
            # an object with keys() and __getitem__
            s = self.to_seq(self.call(self.getattr(v, "items"), []))
            return sq.map_from_pairs(s)
        return sq.map_from_pairs(self.to_seq(v))

    def key_of(self, v):
        return self.models.key_of(self, v)

    def freeze(self, v):
        return self.models.freeze(self, v)


ENUMS = ("enum.Enum",)


def _named_tuple(s):
    """a named tuple is the class with those fields, its order, equality and hash being those of the tuple of them"""
    fields = [(x.target.id, x.value) for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
    names = [f for f, _ in fields]
    own = {x.name for x in s.body if isinstance(x, ast.FunctionDef)}
    rest = [x for x in s.body if not (isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name))]
    every = "(%s)" % "".join("self.%s, " % n for n in names)
    src = ["class X:", "    def __init__(self, %s):" % ", ".join(n if d is None else n + "=None" for n, d in fields)]
    src += ["        self.%s = %s" % (n, n) for n in names] or ["        pass"]
    for m, a, r in [("__iter__", "self", "iter(%s)" % every), ("__len__", "self", str(len(names))),
                    ("__getitem__", "self, k", "%s[k]" % every), ("__hash__", "self", "hash(%s)" % every),
                    ("__eq__", "self, o", "%s == tuple(o)" % every), ("__ne__", "self, o", "not %s == tuple(o)" % every),
                    ("__lt__", "self, o", "%s < tuple(o)" % every), ("__le__", "self, o", "%s <= tuple(o)" % every),
                    ("__gt__", "self, o", "%s > tuple(o)" % every), ("__ge__", "self, o", "%s >= tuple(o)" % every),
                    ("__contains__", "self, x", "x in %s" % every), ("__add__", "self, o", "%s + tuple(o)" % every),
                    ("_asdict", "self", "{%s}" % ", ".join("%r: self.%s" % (n, n) for n in names)),
                    ("_replace", "self, **k", "self.__class__(**{**self._asdict(), **k})")]:
        src += ["    def %s(%s):" % (m, a), "        return " + r]
    new = ast.parse("\n".join(src)).body[0]
    new.body[0].args.defaults = [d for _, d in fields if d is not None]
    for n in ast.walk(new):
        if hasattr(n, "lineno") and not any(n is y for _, d in fields if d is not None for y in ast.walk(d)):
            ast.copy_location(n, s)
    made = ast.ClassDef(name=s.name, bases=[], keywords=[], decorator_list=s.decorator_list,
                        body=rest + [x for x in new.body if x.name not in own], type_params=[])
    return ast.copy_location(made, s)


def _drop_undef(v):
    if v.op != "ite":
        return v
    a, b = _drop_undef(v.args[1]), _drop_undef(v.args[2])
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    return ite(v.args[0], a, b)


def _has_exit(node):
    """whether the body of a for statement may leave its loop or function"""
    body = getattr(node, "body", None)
    if not isinstance(body, list):
        return False
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Return, ast.Break)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _handles(fn):
    return any(isinstance(n, ast.Try) and n.handlers for n in own_nodes(fn))


GENEXPS = {}


def genexp_function(e):
    """def <genexpr>(it): for ... in it: if ...: yield elt"""
    body = ast.Expr(ast.Yield(e.elt))
    for n, g in reversed(list(enumerate(e.generators))):
        for c in reversed(g.ifs):
            body = ast.If(c, [body], [])
        body = ast.For(g.target, ast.Name(".0", ast.Load()) if n == 0 else g.iter, [body], [])
    f = ast.FunctionDef("<genexpr>", ast.arguments([], [ast.arg(".0")], None, [], [], None, []), [body], [])
    ast.copy_location(f, e)
    for n in ast.walk(f):
        if not hasattr(n, "lineno"):
            ast.copy_location(n, e)
    return ast.fix_missing_locations(f)


def _has_break(node):
    body = getattr(node, "body", None)
    if not isinstance(body, list):
        return False
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            stack.extend(x for x in getattr(n, "orelse", []) or [])
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


_FLAGGED = {}


def _flag_breaks(node):
    """for/while ... else with a break: the same loop with a flag that says whether it was left by the break"""
    if node in _FLAGGED:
        return _FLAGGED[node]
    flag = "__broke_%d_%d" % (node.lineno, node.col_offset)

    def put(value):
        return ast.copy_location(ast.Assign([ast.Name(flag, ast.Store())], ast.Constant(value)), node)

    class Mark(ast.NodeTransformer):
        def visit_Break(self, n):
            return [put(True), n]

        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_FunctionDef

        def visit_For(self, n):
            n.orelse = [y for x in n.orelse for y in _listed(self.visit(x))]
            return n
        visit_While = visit_For

    new = copy.deepcopy(node)
    new.body = [y for x in new.body for y in _listed(Mark().visit(x))]
    new.orelse = []
    test = ast.UnaryOp(ast.Not(), ast.Name(flag, ast.Load()))
    out = [put(False), new, ast.copy_location(ast.If(test, node.orelse, []), node)]
    for x in out:
        ast.fix_missing_locations(x)
    _FLAGGED[node] = out
    return out


def _listed(x):
    return x if isinstance(x, list) else [x]


from .loops import Summary, WhileSummary  # noqa: E402  (mutual import)
