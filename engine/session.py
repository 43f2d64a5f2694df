"""Running the analyser on entry points: one Session per check, one fork of the abstract state per query."""
from . import terms as tm
from . import seqs as sq
from .terms import TRUE, FALSE, NONE, and_, or_, const, sym, mk, app
from .interp import Interp, Ctl, Dead, Unsupported, Obj, CLASSES, FUNCS, WORLD
from .program import Program


class Run:
    """what one abstract activation did"""
    def __init__(self, value, state, ok, raises, notes, events):
        self.value, self.state, self.ok, self.raises, self.notes, self.events = value, state, ok, raises, notes, events

    def raise_cond(self, name=None):
        c = FALSE
        for cond, exc in self.raises:
            if name is None or exc.name == name:
                c = or_(c, cond)
        return c


class Session:
    def __init__(self, program=None):
        self.p = program or Program()
        self.i = Interp(self.p)
        self.load_notes = list(self.i.notes)
        self.i.notes = []
        self.base = self.i.st

    # -------------------------------------------------------------- state handling
    def save(self):
        return self.i.st.fork()

    def restore(self, st):
        self.i.st = st.fork()

    def run(self, thunk, keep=True):
        """run thunk() in the current abstract state; collect value, exits and effects"""
        i = self.i
        before = i.st.fork()
        old_ctl, i.ctl = i.ctl, Ctl()
        n_ev = len(i.st.events)
        n_notes = len(i.notes)
        value, ok = None, TRUE
        try:
            value = thunk()
            ok = i.st.pc
        except Dead:
            ok = FALSE
        except Unsupported as u:
            i.note("unsupported: %s" % u)
            value = tm.unk("unsupported: %s" % u)
        except RecursionError:
            i.note("recursion")
            value = tm.unk("recursion")
        except Exception:
            i.st, i.ctl = before, old_ctl
            raise
        raises = [(s.pc, e) for s, e in i.ctl.raises]
        states = [s for s, e in i.ctl.raises]
        i.ctl = old_ctl
        st = i.st
        if st is None:
            ok = FALSE
        events = st.events[n_ev:] if st is not None else []
        if ok is FALSE:
            # effects of the paths that raised
            seen = set()
            events = []
            for s in states:
                for e in s.events[n_ev:]:
                    if id(e) not in seen:
                        seen.add(id(e))
                        events.append(e)
        r = Run(value, st, ok, raises, i.notes[n_notes:], events)
        r.raise_states = states
        if not keep or ok is FALSE:
            i.st = before
        else:
            i.st.pc = TRUE
        return r

    # -------------------------------------------------------------- names
    def cls(self, name):
        c = self.i.class_by_simple(name)
        if c is None:
            raise Missing("class %s" % name)
        return c

    def attr(self, mod, name):
        try:
            return self.i.module_attr(mod, name)
        except KeyError:
            raise Missing("%s.%s" % (mod, name))

    def new(self, cname, *args, **kw):
        return self.i.call(self.cls(cname), list(args), kw)

    def meth(self, o, name, *args, **kw):
        return self.i.call(self.i.getattr(o, name), list(args), kw)

    def static(self, cname, name, *args, **kw):
        return self.i.call(self.i.getattr(self.cls(cname), name), list(args), kw)

    def freeze(self, v):
        return self.i.freeze(v)

    def obj(self, name, iface):
        return sym(name, ("obj", iface))

    def rec(self, **fields):
        return self.i.alloc(Obj("rec", None, dict(fields)))

    def list_(self, items, origin=None):
        return self.i.alloc(Obj("list", None, {"c": tm.tup(items)}, origin=origin))

    def dict_(self, m, origin=None):
        return self.i.alloc(Obj("dict", None, {"c": m}, origin=origin))

    def set_(self, c, origin=None):
        return self.i.alloc(Obj("set", None, {"c": c}, origin=origin))


class Missing(Exception):
    """a public anchor of the property is not there any more"""
