"""Loop summaries: one abstract pass over the body per carried cell set, then a closed form or a fold term.

The body is analysed with a bound variable standing for an arbitrary element and bound variables standing for the
value each modified cell has at the start of an arbitrary iteration.  No iteration is ever executed.
"""
from . import terms as tm
from . import seqs as sq
from .terms import (T, mk, const, TRUE, FALSE, NONE, ZERO, ONE, UNDEF, ite, and_, or_, not_, eq, lt, add, sub, tup, unk,
                    fv, is_numty, is_const, cval, leaves, num)


class Leaf:
    __slots__ = ("mu", "init", "out", "exits", "result", "name")

    def __init__(self, mu, init, out, name):
        self.mu, self.init, self.out, self.name = mu, init, out, name
        self.exits = []
        self.result = None


def jty(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op in ("undef",) or x is NONE:
            return y.ty if not (y is NONE) else "any"
        if x.op == "tup" and not x.args and isinstance(y.ty, tuple):
            return y.ty if y.op != "tup" else ("seq", sq.seq_elem_ty(y))
        if x in (sq.EMPTY_MAP, sq.EMPTY_SET):
            return y.ty
    if a.op == "tup" or b.op == "tup":
        t = tm.join_ty(sq.seq_elem_ty(a) if isinstance(a.ty, tuple) and a.ty[0] == "seq" else "any",
                       sq.seq_elem_ty(b) if isinstance(b.ty, tuple) and b.ty[0] == "seq" else "any")
        if isinstance(a.ty, tuple) and isinstance(b.ty, tuple) and a.ty[0] == b.ty[0] == "seq":
            return ("seq", t)
    t = tm.join_ty(a.ty, b.ty)
    if t == "bool":
        return "bool"
    return t


def has_new_ref(t, base):
    return [x for x in tm.walk(t) if x.op == "ref" and x.args[0] not in base.heap]


class LoopBase:
    MAX_ROUNDS = 8

    def __init__(self, interp, node):
        self.i = interp
        self.node = node

    # ---------------------------------------------------------------- shapes of carried values
    def unify(self, v0, st0, v1, st1, base, depth=0):
        """common shape of the value before the loop and after one pass: (shape, [(init, out)]) or None"""
        if v0 is v1:
            return ("const", v0), []
        if v0.op == "ref" and v1.op == "ref" and depth < 6:
            o0, o1 = st0.heap.get(v0.args[0]), st1.heap.get(v1.args[0])
            if o0 is None or o1 is None or o0.kind != o1.kind or o0.cls != o1.cls:
                return None
            if set(o0.fields) != set(o1.fields):
                return None
            names = tuple(sorted(o0.fields, key=str))
            subs, ls = [], []
            for n in names:
                a, b = o0.fields[n], o1.fields[n]
                if not isinstance(a, T) or not isinstance(b, T):
                    if a != b:
                        return None
                    subs.append(("raw", a))
                    continue
                r = self.unify(a, st0, b, st1, base, depth + 1)
                if r is None:
                    return None
                subs.append(r[0])
                ls.extend(r[1])
            return ("obj", o0.kind, o0.cls, names, tuple(subs)), ls
        if v0.op == "ref" or v1.op == "ref":
            return None
        return ("leaf",), [(v0, v1)]

    def generalise(self, shape, v0, st0, v1, st1, base):
        """force the leaves of an earlier shape to stay leaves"""
        r = self.unify(v0, st0, v1, st1, base)
        if r is None:
            a, b = self.frozen(v0, st0), self.frozen(v1, st1)
            return ("leaf",), [(a, b)]
        new, ls = r
        if shape is None:
            return new, ls
        return self.join_shape(shape, new, v0, st0, v1, st1)

    def join_shape(self, old, new, v0, st0, v1, st1):
        if old[0] == "leaf":
            if new[0] == "leaf":
                return new, [(v0, v1)]
            return ("leaf",), [(self.frozen(v0, st0), self.frozen(v1, st1))]
        if old[0] == "const" or old[0] == "raw":
            if new[0] == "obj":
                out = []
                self.collect(new, v0, st0, v1, st1, out)
                return new, out
            if new[0] == "leaf":
                return new, [(v0, v1)]
            return new, []
        if old[0] == "obj":
            if new[0] == "obj" and old[1:4] == new[1:4]:
                o0, o1 = st0.heap[v0.args[0]], st1.heap[v1.args[0]]
                subs, ls = [], []
                for n, a, b in zip(old[3], old[4], new[4]):
                    if a[0] == "raw":
                        subs.append(a)
                        continue
                    s, l = self.join_shape(a, b, o0.fields[n], st0, o1.fields[n], st1)
                    subs.append(s)
                    ls.extend(l)
                return ("obj",) + old[1:4] + (tuple(subs),), ls
            if new[0] == "const":  # identical reference: expose the same leaves
                o0, o1 = st0.heap[v0.args[0]], st1.heap[v1.args[0]]
                subs, ls = [], []
                for n, a in zip(old[3], old[4]):
                    if a[0] == "raw":
                        subs.append(a)
                        continue
                    s, l = self.join_shape(a, ("const", o0.fields[n]), o0.fields[n], st0, o1.fields[n], st1)
                    subs.append(s)
                    ls.extend(l)
                return ("obj",) + old[1:4] + (tuple(subs),), ls
            return ("leaf",), [(self.frozen(v0, st0), self.frozen(v1, st1))]
        raise AssertionError(old)

    def collect(self, shape, v0, st0, v1, st1, out):
        if shape[0] == "leaf":
            out.append((v0, v1))
        elif shape[0] == "obj":
            o0, o1 = st0.heap[v0.args[0]], st1.heap[v1.args[0]]
            for n, s in zip(shape[3], shape[4]):
                if s[0] != "raw":
                    self.collect(s, o0.fields[n], st0, o1.fields[n], st1, out)

    def frozen(self, v, st):
        old = self.i.st
        self.i.st = st
        try:
            return self.i.freeze(v)
        finally:
            self.i.st = old

    def build(self, shape, it):
        if shape[0] in ("const", "raw"):
            return shape[1]
        if shape[0] == "leaf":
            return next(it)
        _, kind, cls, names, subs = shape
        f = {}
        for n, s in zip(names, subs):
            f[n] = self.build(s, it)
        return self.i.alloc(self.i.Obj(kind, cls, f))

    # ---------------------------------------------------------------- one abstract pass
    def start_state(self, base, cells):
        st = base.fork()
        self.i.st = st
        for (oid, fld), (shape, mus) in cells.items():
            v = self.build(shape, iter(mus))
            st.heap[oid] = st.heap[oid].put(fld, v)
        return st

    def fix_refs(self, v, st, base):
        """terms that will outlive the body must not point at objects of one iteration"""
        if v.op == "ref":
            return v
        rs = has_new_ref(v, base)
        if not rs:
            return v
        if not (isinstance(v.ty, tuple) and v.ty[0] == "map"):
            for r in rs:
                o = st.heap.get(r.args[0])
                if o is not None and o.kind == "inst" and o.origin is None and self.i.implements(tm.mk("cls", (o.cls,), "fn"), "IProbabilityOutcome"):
                    self.i.built_outcomes = True  # a list of new objects is kept as a list of their contents
        m = {r: self.frozen(r, st) for r in rs}
        if any(x.op == "unk" for x in m.values()):
            return unk("object of one iteration kept in a collection")
        return sq.subst(v, m)

    def modified(self, start, end, base):
        out = []
        for oid in base.heap:
            o0, o1 = start.heap.get(oid), end.heap.get(oid)
            if o0 is o1 or o1 is None:
                continue
            for k in list(o0.fields) + [k for k in o1.fields if k not in o0.fields]:
                a, b = o0.fields.get(k, UNDEF), o1.fields.get(k, UNDEF)
                if o0.kind == "world" and isinstance(k, tuple):
                    a = ZERO if a is UNDEF else a
                if a is not b:
                    out.append((oid, k))
        return out

    def live_after(self, oid, name):
        """is this frame variable, undefined before the loop, read outside the loop"""
        import ast
        i = self.i
        for fr, f in i.frames:
            if fr.args[0] == oid:
                if f.node is None:
                    return True
                inside = {id(n) for n in ast.walk(self.node)} if self.node is not None else set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in inside:
                        return True
                return False
        return True

    def discover(self, base, run_body):
        """find the carried cells; run_body(state) -> (end states, exits)"""
        cells = {}
        temps = set()
        for rnd in range(self.MAX_ROUNDS):
            start = self.start_state(base, cells)
            snapshot = self.i.st.fork()
            ends = run_body()
            changed = False
            newcells = {}
            sts = [s for s in ends["all"]]
            mod = set()
            for s in sts:
                mod.update(self.modified(snapshot, s, base))
            for c in list(mod) + list(cells):
                if c in newcells or c in temps:
                    continue
                oid, fld = c
                o = base.heap[oid]
                v0 = o.fields.get(fld, UNDEF)
                if o.kind == "world" and isinstance(fld, tuple) and v0 is UNDEF:
                    v0 = ZERO
                if v0 is UNDEF and o.kind == "frame" and not self.live_after(oid, fld):
                    temps.add(c)
                    continue
                shape = cells.get(c, (None, None))[0]
                ls = None
                for s in sts:
                    v1 = s.heap[oid].fields.get(fld, UNDEF) if oid in s.heap else v0
                    if o.kind == "world" and isinstance(fld, tuple) and v1 is UNDEF:
                        v1 = ZERO
                    v1 = self.fix_refs(v1, s, base)
                    shape, l = self.generalise(shape, v0, base, v1, s, base)
                    if ls is None or len(ls) != len(l):
                        ls = l
                    else:
                        ls = [(a, y if jt(x) else x) for (a, x), (_, y) in zip(ls, l)]
                old = cells.get(c)
                if old is not None and old[0] == shape and len(old[1]) == len(ls):
                    mus = []
                    for mu, (a, b) in zip(old[1], ls):
                        t = jty(a, b)
                        if mu.ty != t and mu.ty != "any" and tm.join_ty(mu.ty, t) != mu.ty:
                            mu = tm.fresh_bv(tm.join_ty(mu.ty, t))
                            changed = True
                        mus.append(mu)
                    newcells[c] = (shape, mus)
                else:
                    newcells[c] = (shape, [tm.fresh_bv(jty(a, b)) for a, b in ls])
                    changed = True
            cells = newcells
            if not changed:
                return cells, temps, ends
        self.i.note("loop: carried cells did not stabilise")
        return None, None, None

    def outs(self, cells, state, base):
        """the carried leaves at the end of a pass"""
        res = []
        for (oid, fld), (shape, mus) in cells.items():
            v0 = base.heap[oid].fields.get(fld, UNDEF)
            if base.heap[oid].kind == "world" and isinstance(fld, tuple) and v0 is UNDEF:
                v0 = ZERO
            v1 = state.heap[oid].fields.get(fld, UNDEF)
            if base.heap[oid].kind == "world" and isinstance(fld, tuple) and v1 is UNDEF:
                v1 = ZERO
            v1 = self.fix_refs(v1, state, base)
            sh, l = self.generalise(shape, v0, base, v1, state, base)
            if len(l) != len(mus):
                l = [(unk("shape"), unk("shape"))] * len(mus)
            res.append([(a, self.fix_refs(b, state, base)) for a, b in l])
        return res

    def havoc(self, base, ends):
        """give up: every cell the body touches becomes unknown"""
        st = base.fork()
        for s in ends:
            for oid, fld in self.modified(base, s, base):
                st.heap[oid] = st.heap[oid].put(fld, unk("loop not summarised"))
        self.i.st = st


def jt(x):
    return x.op in ("undef",) or x is NONE


class Summary(LoopBase):
    def __init__(self, interp, s, body, node):
        super().__init__(interp, node)
        self.s = s
        self.body = body

    def binders(self):
        s = self.s
        if s.op == "comp":
            bvs, (gens, cond, elt) = sq.open_(s.args[0], s.args[1:])
            for b, g in zip(bvs, gens):
                sq.note_member(b, g)
            return list(bvs), list(gens), cond, elt
        b = tm.fresh_bv(sq.seq_elem_ty(s))
        sq.note_member(b, s)
        x = b
        if s.op == "zip":
            x = tup([mk("idx", (b, const(j)), sq.seq_elem_ty(a)) for j, a in enumerate(s.args)])
        elif s.op == "enum":
            x = tup([mk("idx", (b, ZERO), "int"), mk("idx", (b, ONE), sq.seq_elem_ty(s.args[0]))])
        return [b], [s], TRUE, x

    def run(self, broke):
        i = self.i
        base = i.st
        bvs, gens, cond, x = self.binders()
        self.bvs, self.gens, self.cond = bvs, gens, cond
        outer = i.ctl
        ev0 = len(base.events)

        def run_body():
            ctl = i.Ctl()
            i.ctl = ctl
            i.st.ctx = and_(and_(base.ctx, base.pc), cond)
            i.st.pc = TRUE
            end = None
            try:
                self.body(x)
                end = i.st
            except i.Dead:
                end = None
            finally:
                i.ctl = outer
            ends = list(ctl.continues) + ([(end, NONE)] if end is not None else [])
            normal = None
            if ends:
                normal, _ = i.merge_exits(ends)
            exits = [("break", s, v) for s, v in ctl.breaks] + [("return", s, v) for s, v in ctl.returns] + \
                    [("raise", s, v) for s, v in ctl.raises]
            allst = ([normal] if normal is not None else []) + [s for _, s, _ in exits]
            return {"normal": normal, "exits": exits, "all": allst}

        cells, temps, res = self.discover(base, run_body)
        if cells is None:
            i.st = base.fork()
            ends = run_body()
            self.havoc(base, ends["all"])
            return
        normal, exits = res["normal"], res["exits"]
        allmu = {m for _, mus in cells.values() for m in mus}
        # objects allocated in the body stay addressable (they may be mentioned by events)
        post = base.fork()
        for s in res["all"]:
            for oid, o in s.heap.items():
                post.heap.setdefault(oid, o)
        for s in res["all"]:
            for e in s.events[ev0:]:
                e2 = self.wrap(e)
                if e2 is not None:
                    post.events.append(e2)
        seen = set()
        uniq = []
        for e in post.events[ev0:]:
            k = id(getattr(e, "src", e))
            if k not in seen:
                seen.add(k)
                uniq.append(e)
        post.events[ev0:] = uniq
        stops = [e for e in exits if e[0] != "raise"]
        raises = [e for e in exits if e[0] == "raise"]
        dep_raises = [e for e in raises if fv(e[1].pc) & allmu]
        self.post = post
        if not stops and not dep_raises:
            self.solve_plain(base, post, cells, normal, raises, temps)
            return
        self.solve_stopping(base, post, cells, normal, exits, temps, outer, broke, allmu)

    def wrap(self, e):
        from .interp import Ev
        n = Ev(e.guard, e.kind, e.name, e.recv, e.args, e.kwargs, e.where, e.extra)
        n.loops = [(tuple(self.bvs), tuple(self.gens), self.cond)] + list(e.loops)
        n.src = e.src if e.src is not None else e
        return n

    # ---------------------------------------------------------------- no early exits
    def solve_plain(self, base, post, cells, normal, raises, temps):
        i = self.i
        i.st = post
        for _, s, exc in raises:
            c = sq.exists(self.bvs, self.gens, and_(self.cond, s.pc))
            if c.op in ("unk",):
                c = i.opaque_bool("raise in loop")
            i.raise_(exc, c)
        post = i.st
        if normal is None:
            # every iteration leaves the loop exceptionally
            c = sq.exists(self.bvs, self.gens, self.cond)
            post.pc = and_(post.pc, not_(c))
            if post.pc is FALSE:
                raise i.Dead()
            return
        outs = self.outs(cells, normal, base)
        ls, order = [], []
        for ((oid, fld), (shape, mus)), pairs in zip(cells.items(), outs):
            group = []
            for mu, (a, b) in zip(mus, pairs):
                leaf = Leaf(mu, a, b, (oid, fld))
                group.append(leaf)
                ls.append(leaf)
            order.append(((oid, fld), shape, group))
        self.solve(ls)
        i.st = post
        for (oid, fld), shape, group in order:
            v = self.build(shape, iter([g.result for g in group]))
            i.st.heap[oid] = i.st.heap[oid].put(fld, v)
        for oid, fld in temps:
            if oid in i.st.heap:
                i.st.heap[oid] = i.st.heap[oid].drop(fld)

    def solve(self, ls):
        mus = {l.mu: l for l in ls}
        for l in ls:
            if l.out is l.mu:
                l.result = l.init
        changed = True
        # cells that never change stand for their initial value everywhere
        const_m = {l.mu: l.init for l in ls if l.out is l.mu}
        if const_m:
            for l in ls:
                l.out = sq.subst(l.out, const_m)
        for l in ls:
            if l.result is None:
                l.result = self.closed_form(l, mus)
        for l in ls:
            if l.result is None:
                l.result = self.with_prefix(l, mus)
        for l in ls:
            if l.result is None:
                l.result = self.by_fold(l, mus)

    def deps(self, t, mus):
        return [m for m in fv(t) if m in mus]

    def closed_form(self, l, mus):
        v, mu = l.out, l.mu
        if v.op in ("unk", "undef"):
            return v if v.op == "unk" else None
        if [m for m in self.deps(v, mus) if m is not mu]:
            return None
        return self.pattern(l, v)

    def free(self, t):
        return not any(m in self._mus for m in fv(t))

    def pattern(self, l, v):
        mu, init = l.mu, l.init
        bvs, gens, cond = self.bvs, self.gens, self.cond
        own = {mu}

        def free(t):
            return mu not in fv(t)

        if free(v):
            c = sq.comp(bvs, gens, cond, v)
            if c.op == "unk":
                return c
            n = sq.seq_len(c)
            return ite(tm.lt(ZERO, n), self.last(v), init)
        if is_numty(v.ty) and v.ty != "bool":
            d = sub(v, mu)
            if d.op != "unk" and free(d):
                return add(init, sq.sum_(sq.comp(bvs, gens, cond, d)))
        lvs = leaves(v)
        gfree = all(free(g) for g, _ in lvs)
        ty = mu.ty if isinstance(mu.ty, tuple) else None
        if gfree and (v.op == "map" or any(x.op == "map" for _, x in lvs)):
            comps = []
            ok = True
            for g, x in lvs:
                if x is mu:
                    continue
                if x.op == "map" and x.args[0] is mu and all(free(c) for c in x.args[1]):
                    for c in x.args[1]:
                        ys, (gs, cd, k, val) = sq.open_(c.args[0], c.args[1:])
                        for y, g2 in zip(ys, gs):
                            sq.note_member(y, g2)
                        comps.append((list(bvs) + list(ys), list(gens) + list(gs), and_(and_(cond, g), cd), k, val))
                else:
                    ok = False
                    break
            if ok:
                return sq.map_(init, comps)
        if gfree:
            puts = [(g, x) for g, x in lvs if x is not mu]
            if puts and all(x.op == "mput" and x.args[0] is mu and free(x.args[1]) and free(x.args[2]) for _, x in puts):
                if len(puts) == 1:
                    g, x = puts[0]
                    return sq.dict_comp(bvs, gens, and_(cond, g), x.args[1], x.args[2], init)
                k = puts[0][1].args[1]
                if all(x.args[1] is k for _, x in puts):
                    g = FALSE
                    val = puts[-1][1].args[2]
                    for gg, x in reversed(puts[:-1]):
                        val = ite(gg, x.args[2], val)
                    for gg, _ in puts:
                        g = or_(g, gg)
                    return sq.dict_comp(bvs, gens, and_(cond, g), k, val, init)
            if puts and all(x.op == "cat" and x.args[0] is mu and all(free(p) for p in x.args[1:]) for _, x in puts):
                if len(puts) == 1:
                    g, x = puts[0]
                    extra = sq.cat(list(x.args[1:]))
                    g = and_(cond, g)
                else:
                    extra = tup(())
                    for gg, x in reversed(puts):
                        extra = ite(gg, sq.cat(list(x.args[1:])), extra)
                    g = cond
                if extra.op == "tup" and len(extra.args) == 1:
                    app_ = sq.comp(bvs, gens, g, extra.args[0])
                else:
                    y = tm.fresh_bv(sq.seq_elem_ty(extra) if extra.op != "ite" else "any")
                    app_ = sq.comp(list(bvs) + [y], list(gens) + [extra], g, y)
                return sq.cat([init, app_])
            if puts and all(x.op == "sunion" and mu in x.args for _, x in puts):
                parts = []
                ok = True
                for g, x in puts:
                    for p in x.args:
                        if p is mu:
                            continue
                        if not free(p):
                            ok = False
                        y = tm.fresh_bv(sq.elem_ty(p.ty))
                        parts.append(sq.set_of_seq(sq.comp(list(bvs) + [y], list(gens) + [sq.elems(p)],
                                                           and_(cond, g), y)))
                if ok:
                    return sq.sunion([init] + parts)
        if v.ty == "bool" and mu.ty == "bool":
            hi = sq.subst(v, {mu: TRUE})
            lo = sq.subst(v, {mu: FALSE})
            if hi is TRUE and free(lo):
                return or_(tm.truth(init), sq.exists(bvs, gens, and_(cond, lo)))
            if lo is FALSE and free(hi):
                return and_(tm.truth(init), not_(sq.exists(bvs, gens, and_(cond, not_(hi)))))
        if is_numty(v.ty):
            cands = [x for _, x in lvs if x is not mu]
            if len(set(cands)) == 1 and free(cands[0]):
                e = cands[0]
                c = sq.comp(bvs, gens, cond, e)
                if v is sq.max2(mu, e) or v is sq.max2(e, mu):
                    return ite(lt(ZERO, sq.seq_len(c)), sq.max2(init, sq.smax(c)), init)
                if v is sq.min2(mu, e) or v is sq.min2(e, mu):
                    return ite(lt(ZERO, sq.seq_len(c)), sq.min2(init, sq.smin(c)), init)
        return None

    def last(self, v):
        if len(self.bvs) == 1 and self.cond is TRUE:
            if self.bvs[0] not in fv(v):
                return v
            return sq.subst(v, {self.bvs[0]: sq.idx(self.gens[0], const(-1))})
        return sq.idx(sq.comp(self.bvs, self.gens, self.cond, v), const(-1))

    def with_prefix(self, l, mus):
        """the cell reads running totals of the same loop: express them as sums over the elements before"""
        if len(self.bvs) != 1 or not (sq.ascending(self.gens[0]) and sq.distinct(self.gens[0])):
            return None
        b = self.bvs[0]
        if not tm.is_intty(b.ty):
            return None
        m = {}
        for d in self.deps(l.out, mus):
            if d is l.mu:
                continue
            o = mus[d]
            if not (is_numty(o.out.ty) and o.out.ty != "bool"):
                return None
            delta = sub(o.out, d)
            if delta.op == "unk" or self.deps(delta, mus):
                return None
            y = tm.fresh_bv(b.ty)
            sq.note_member(y, self.gens[0])
            sm = {b: y}
            m[d] = add(o.init, sq.sum_(sq.comp((y,), (self.gens[0],), and_(sq.subst(self.cond, sm), lt(y, b)),
                                               sq.subst(delta, sm))))
        if not m:
            return None
        v = sq.subst(l.out, m)
        return self.pattern(l, v)

    def elem_binder(self):
        """one bound variable for a whole element of the iteration, and how the binders are read off it"""
        if len(self.bvs) == 1 and self.cond is TRUE:
            return self.bvs[0], self.gens[0], {}
        if len(self.bvs) == 1:
            return self.bvs[0], sq.comp(self.bvs, self.gens, self.cond, self.bvs[0]), {}
        src = sq.comp(self.bvs, self.gens, self.cond, tup(self.bvs))
        X = tm.fresh_bv("any")
        m = {b: mk("idx", (X, const(j)), b.ty) for j, b in enumerate(self.bvs)}
        return X, src, m

    def closure(self, l, mus):
        out = [l]
        seen = {l.mu}
        k = 0
        while k < len(out):
            for m in ordered_fv(out[k].out):
                if m in mus and m not in seen:
                    seen.add(m)
                    out.append(mus[m])
            k += 1
        return out

    def by_fold(self, l, mus):
        grp = self.closure(l, mus)
        for g in grp:
            if g.out.op == "unk":
                return g.out
            if g.init.op == "unk":
                return g.init
        X, src, m = self.elem_binder()
        bodies = [sq.subst(g.out, m) for g in grp]
        f = sq.fold([X] + [g.mu for g in grp], src, [g.init for g in grp], bodies)
        return sq.proj(0, f, jty(l.init, l.out))

    # ---------------------------------------------------------------- break / return / conditional raise
    def solve_stopping(self, base, post, cells, normal, exits, temps, outer, broke, allmu):
        i = self.i
        codes = []
        outs_n = self.outs(cells, normal, base) if normal is not None else None
        exit_outs = [self.outs(cells, s, base) for _, s, _ in exits]
        code = ZERO
        stop = FALSE
        for k, (kind, s, v) in reversed(list(enumerate(exits))):
            code = ite(s.pc, const(k + 1), code)
            stop = or_(stop, s.pc)
        ls, order = [], []
        n = 0
        for ci, ((oid, fld), (shape, mus)) in enumerate(cells.items()):
            group = []
            for li, mu in enumerate(mus):
                init = (outs_n or exit_outs[0])[ci][li][0]
                v = outs_n[ci][li][1] if outs_n is not None else mu
                for (kind, s, _), eo in zip(reversed(exits), reversed(exit_outs)):
                    if kind == "raise":
                        continue
                    v = ite(s.pc, eo[ci][li][1], v)
                leaf = Leaf(mu, init, v, (oid, fld))
                group.append(leaf)
                ls.append(leaf)
            order.append(((oid, fld), shape, group))
        rvals = []
        for kind, s, v in exits:
            rvals.append(self.fix_refs(self.frozen_ret(v, s, base), s, base) if kind == "return" else NONE)
        rv = NONE
        for (kind, s, _), v in zip(reversed(exits), reversed(rvals)):
            if kind == "return":
                rv = ite(s.pc, v, rv) if rv is not NONE else v
        mustop = stop_dep = bool((fv(stop) | fv(code) | fv(rv)) & allmu)
        live = [l for l in ls if l.out is not l.mu]
        X, src, m = self.elem_binder()
        if not live and not stop_dep:
            sb = lambda t: sq.subst(t, m)
            fcode = self.mkfirst(X, src, sb(stop), sb(code), ZERO)
            fval = self.mkfirst(X, src, sb(stop), sb(rv), NONE) if rv is not NONE else NONE
            if not any(k == "return" and v is not NONE for k, _, v in exits):
                fval = NONE
            if all(e[0] == exits[0][0] for e in exits) and len(exits) >= 1:
                hit = sq.exists(self.bvs, self.gens, and_(self.cond, stop))
                if len(exits) == 1:
                    fcode = ite(hit, ONE, ZERO)
                conds = [hit if len(exits) == 1 else eq(fcode, const(k + 1)) for k in range(len(exits))]
            else:
                conds = [eq(fcode, const(k + 1)) for k in range(len(exits))]
            if len(exits) > 1 and all(e[0] == "return" for e in exits):
                self.finish(base, post, order, exits, [sq.exists(self.bvs, self.gens, and_(self.cond, stop))],
                            [fval], temps, outer, broke, merged=True)
                return
            vals = [fval] * len(exits)
            if len(exits) == 1 and not (fv(rv) & set(self.bvs)) and not (fv(rv) & {X}):
                vals = [rv]
            self.finish(base, post, order, exits, conds, vals, temps, outer, broke)
            return
        # joint fold with a stop code and a returned value
        mus = {l.mu: l for l in ls}
        mcode = tm.fresh_bv("int")
        mval = tm.fresh_bv("any")
        run = eq(mcode, ZERO)
        grp = list(ls)
        bodies = [ite(run, sq.subst(l.out, m), l.mu) for l in grp]
        bodies.append(ite(run, sq.subst(code, m), mcode))
        bodies.append(ite(run, sq.subst(rv, m), mval))
        inits = [l.init for l in grp] + [ZERO, NONE]
        bad = [b for b in bodies + inits if b.op == "unk"]
        if bad:
            for l in ls:
                l.result = bad[0]
            cnd = [i.opaque_bool("loop exit") for _ in exits]
            self.finish(base, post, order, exits, cnd, [bad[0]] * len(exits), temps, outer, broke)
            return
        f = sq.fold([X] + [l.mu for l in grp] + [mcode, mval], src, inits, bodies)
        for k, l in enumerate(grp):
            l.result = sq.proj(k, f, jty(l.init, l.out))
        fc = sq.proj(len(grp), f, "int")
        fvv = sq.proj(len(grp) + 1, f, rv.ty)
        self.finish(base, post, order, exits, [eq(fc, const(k + 1)) for k in range(len(exits))],
                    [fvv] * len(exits), temps, outer, broke)

    def frozen_ret(self, v, s, base):
        if not isinstance(v, T):
            return NONE
        if v.op == "ref" and v.args[0] not in base.heap:
            return self.frozen(v, s)
        return v

    def mkfirst(self, X, src, cond, val, default):
        if cond is TRUE and not (fv(val) & {X}):
            return ite(lt(ZERO, sq.seq_len(src)), val, default)
        return sq.first(X, src, cond, val, default)

    def finish(self, base, post, order, exits, conds, vals, temps, outer, broke, merged=False):
        i = self.i
        i.st = post
        for (oid, fld), shape, group in order:
            res = []
            for g in group:
                res.append(g.result if g.result is not None else g.init)
            v = self.build(shape, iter(res))
            post.heap[oid] = post.heap[oid].put(fld, v)
        for oid, fld in temps:
            if oid in post.heap:
                post.heap[oid] = post.heap[oid].drop(fld)
        if merged:
            exits = exits[:1]
        anystop = FALSE
        cont_break = FALSE
        for (kind, s, v), c in zip(exits, conds):
            if kind == "break":
                cont_break = or_(cont_break, c)
        pc0 = post.pc
        for (kind, s, v), c, rv in zip(exits, conds, vals):
            if kind == "break":
                continue
            g = and_(pc0, c)
            if g is FALSE:
                continue
            if kind == "return":
                st = post.fork()
                st.pc = g
                outer.returns.append((st, rv))
            else:
                st = post.fork()
                st.pc = g
                outer.raises.append((st, v))
            post.pc = and_(post.pc, not_(c))
        if broke is not None and cont_break is not FALSE:
            broke.append((cont_break, NONE))
        if post.pc is FALSE:
            raise i.Dead()


def ordered_fv(t):
    """free bound variables in order of first occurrence"""
    out, seen = [], set()
    free = fv(t)

    def rec(x):
        if x.id in seen or not (fv(x) & free):
            return
        seen.add(x.id)
        if x.op == "bv":
            if x in free and x not in out:
                out.append(x)
            return
        for c in tm.children(x):
            rec(c)

    rec(t)
    return out


class WhileSummary(LoopBase):
    def __init__(self, interp, stmt):
        super().__init__(interp, stmt)
        self.stmt = stmt

    def run(self):
        i = self.i
        base = i.st
        outer = i.ctl
        ev0 = len(base.events)
        holder = {}

        def run_body():
            i.st.ctx = and_(base.ctx, base.pc)
            i.st.pc = TRUE
            ctl = i.Ctl()
            i.ctl = ctl
            end = None
            cnd = FALSE
            holder["tested"] = FALSE
            try:
                cnd = i.cond(i.ev(self.stmt.test))
                holder["tested"] = i.st.pc
                i.st.pc = and_(i.st.pc, cnd)
                if i.st.pc is FALSE:
                    raise i.Dead()
                i.exec_block(self.stmt.body)
                end = i.st
            except i.Dead:
                end = None
            finally:
                i.ctl = outer
            ends = list(ctl.continues) + ([(end, NONE)] if end is not None else [])
            normal = i.merge_exits(ends)[0] if ends else None
            exits = [("break", s, v) for s, v in ctl.breaks] + [("return", s, v) for s, v in ctl.returns] + \
                    [("raise", s, v) for s, v in ctl.raises]
            allst = ([normal] if normal is not None else []) + [s for _, s, _ in exits]
            return {"normal": normal, "exits": exits, "all": allst, "cond": ite(holder["tested"], cnd, TRUE)}

        cells, temps, res = self.discover(base, run_body)
        if cells is None:
            i.st = base.fork()
            ends = run_body()
            self.havoc(base, ends["all"])
            return
        normal, exits = res["normal"], res["exits"]
        post = base.fork()
        for s in res["all"]:
            for oid, o in s.heap.items():
                post.heap.setdefault(oid, o)
        seen = set()
        from .interp import Ev
        for s in res["all"]:
            for e in s.events[ev0:]:
                k = id(e.src if e.src is not None else e)
                if k in seen:
                    continue
                seen.add(k)
                n = Ev(e.guard, e.kind, e.name, e.recv, e.args, e.kwargs, e.where, e.extra)
                n.loops = [("while", self.stmt.lineno)] + list(e.loops)
                n.src = e.src if e.src is not None else e
                post.events.append(n)
        outs_n = self.outs(cells, normal, base) if normal is not None else None
        exit_outs = [self.outs(cells, s, base) for _, s, _ in exits]
        if outs_n is None and not exit_outs:
            i.st = base.fork()
            return
        ls, order = [], []
        for ci, ((oid, fld), (shape, mus)) in enumerate(cells.items()):
            group = []
            for li, mu in enumerate(mus):
                init = (outs_n or exit_outs[0])[ci][li][0]
                v = outs_n[ci][li][1] if outs_n is not None else mu
                for (kind, s, _), eo in zip(reversed(exits), reversed(exit_outs)):
                    v = ite(s.pc, eo[ci][li][1] if kind != "raise" else mu, v)
                leaf = Leaf(mu, init, v, (oid, fld))
                group.append(leaf)
                ls.append(leaf)
            order.append(((oid, fld), shape, group))
        code, rv = ZERO, NONE
        for k, (kind, s, v) in reversed(list(enumerate(exits))):
            code = ite(s.pc, const(k + 1), code)
            if kind == "return":
                v = v if v.op != "ref" or v.args[0] in base.heap else self.frozen(v, s)
                rv = ite(s.pc, self.fix_refs(v, s, base), rv) if rv is not NONE else self.fix_refs(v, s, base)
        mcode, mval = tm.fresh_bv("int"), tm.fresh_bv("any")
        inits = [l.init for l in ls] + [ZERO, NONE]
        bodies = [l.out for l in ls] + [code, rv]
        cond = and_(eq(mcode, ZERO), res["cond"])
        bad = [b for b in bodies + inits + [cond] if b.op == "unk"]
        conds = []
        if bad:
            for l in ls:
                l.result = bad[0]
            conds = [i.opaque_bool("while exit") for _ in exits]
            vals = [bad[0]] * len(exits)
        else:
            f = sq.whl([l.mu for l in ls] + [mcode, mval], inits, cond, bodies)
            for k, l in enumerate(ls):
                l.result = sq.proj(k, f, jty(l.init, l.out))
            fc = sq.proj(len(ls), f, "int")
            conds = [eq(fc, const(k + 1)) for k in range(len(exits))]
            vals = [sq.proj(len(ls) + 1, f, rv.ty)] * len(exits)
        Summary.finish(self, base, post, order, exits, conds, vals, temps, outer, None)
