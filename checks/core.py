"""Obligations, verdicts, reports."""
import ast
import json
import os
import pickle
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

from engine import terms as tm  # noqa: E402
from engine import seqs as sq  # noqa: E402
from engine import ropes as rp  # noqa: E402
from engine import evalterm as et  # noqa: E402
from engine.interp import bi, Obj, CLASSES  # noqa: E402,F401
from engine.program import Program  # noqa: E402
from engine.session import Session, Missing, Run  # noqa: E402
from engine.terms import TRUE, FALSE, NONE, ZERO, ONE, const, sym, ite, and_, or_, not_, eq, lt, le, add, sub, mul  # noqa: E402,F401

HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"
NS = "python_dice.src."
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
N_VAL = {"quick": 60, "thorough": 600}.get(TIER, 60)


EXACT = "whole numbers stay exact: none is recovered from a floating-point quotient"

TOTAL_RULE = "an error is raised only where the meaning is undefined"


def fails(res):
    """the condition under which an activation raises"""
    c = FALSE
    for x, _ in res.raises:
        c = or_(c, x)
    return c


class Res:
    """value and exceptional exits of one activation"""

    def __init__(self, value, raises=(), ok=None, notes=(), events=()):
        self.value = value
        self.raises = [(c, n if isinstance(n, str) else n.name) for c, n in raises]
        self.wheres = [None if isinstance(n, str) else n.where for c, n in raises]
        self.notes = list(notes)
        self.events = list(events)
        self.ok = TRUE if ok is None else ok

    def cond(self, name):
        c = FALSE
        for x, n in self.raises:
            if n == name:
                c = or_(c, x)
        return c


class Ob:
    __slots__ = ("subject", "rule", "verdict", "detail", "method", "key")

    def __init__(self, subject, rule, verdict, detail="", method="", key=None):
        self.subject, self.rule, self.verdict, self.detail, self.method = subject, rule, verdict, detail, method
        self.key = key or "%s | %s" % (subject, rule)

    def as_dict(self):
        return {"subject": self.subject, "rule": self.rule, "verdict": self.verdict, "method": self.method,
                "detail": self.detail[:2000]}


def show(t, n=300):
    s = str(t)
    return s if len(s) <= n else s[:n] + "..."


class OutOfTime(Exception):
    """the time for one step of the analysis is used up"""


JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
STEP = 40  # seconds for one activation or comparison
TOTAL = int(os.environ.get("VERIF_BUDGET", "600" if TIER == "quick" else "3000"))
_depth = [0]


class limit:
    def __init__(self, chk):
        self.chk = chk

    def __enter__(self):
        _depth[0] += 1
        if _depth[0] == 1:
            left = TOTAL - (time.time() - self.chk.t0)
            signal.signal(signal.SIGALRM, expired)
            signal.setitimer(signal.ITIMER_REAL, max(0.2, min(STEP, left)), 1)
        return self

    def __exit__(self, *a):
        _depth[0] -= 1
        if _depth[0] == 0:
            signal.setitimer(signal.ITIMER_REAL, 0)


def expired(*a):
    raise OutOfTime("out of time")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.t0 = time.time()
        self.valuations = 0
        self.sessions = []
        self.missing = []

    # -------------------------------------------------------------- sessions
    def session(self, stubs=(), **config):
        p = Program()
        for f in sorted(os.listdir(os.path.join(HERE, "stubs"))):
            mod = f[:-3].replace("_", ".")
            if f.endswith(".py") and mod.split(".")[0] in stubs:
                with open(os.path.join(HERE, "stubs", f), encoding="utf-8") as fh:
                    p.trees[mod] = ast.parse(fh.read())
                p.files[mod] = "verif/checks/stubs/" + f
                p.is_pkg[mod] = mod.count(".") == 0
        for name in ("ref", "lib"):
            with open(os.path.join(HERE, name + ".py"), encoding="utf-8") as fh:
                p.trees["verif_" + name] = ast.parse(fh.read())
            p.files["verif_" + name] = "verif/checks/%s.py" % name
            p.is_pkg["verif_" + name] = False
        s = Session(p)
        s.i.config.update(config)
        self.sessions.append(s)
        return s

    @staticmethod
    def literals(S, low, high):
        """integers written in the program: sizes at which its behaviour might change"""
        out = set()
        for mod, tree in S.p.trees.items():
            if mod.startswith("python_dice."):
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and type(n.value) in (int, float) and low <= n.value <= high:
                        out.add(int(n.value))
        return sorted(out)

    # -------------------------------------------------------------- runs
    def run(self, S, thunk, keep=False):
        S.i.narrowed = []
        S.i.built_outcomes = False
        S.i.lost = None
        with limit(self):
            r = S.run(thunk, keep=keep)
        res = Res(r.value if r.ok is not FALSE else None, r.raises, r.ok, r.notes, r.events)
        res.run = r
        res.narrowed = list(S.i.narrowed)
        if S.i.lost:
            res = Res(tm.unk(S.i.lost), [], TRUE, r.notes, r.events)
            res.run, res.narrowed = r, []
        return res

    def ref(self, S, name, *args):
        """summary of a reference definition from ref.py"""
        return self.run(S, lambda: S.freeze(S.i.call(S.attr("verif_ref", name), list(args))))

    # -------------------------------------------------------------- verdicts
    def add(self, subject, rule, verdict, detail="", method="", key=None):
        self.obs.append(Ob(subject, rule, verdict, detail, method, key))
        return verdict

    def holds(self, subject, rule, ok, detail="", method="structure", key=None):
        return self.add(subject, rule, HOLDS if ok else VIOLATED, "" if ok else detail, method, key)

    def exact(self, subject, code):
        """integer results do not pass through a floating-point quotient"""
        bad = [w for w in code.narrowed if w and "ref.py" not in str(w)]
        return self.holds(subject, EXACT, not bad, "a whole number is recovered from a floating-point quotient at %s, which is wrong for large values"
                          % (bad and bad[0]), "dataflow")

    def total(self, subject, code, undefined=FALSE, **k):
        return self.same(subject, TOTAL_RULE, Res(and_(fails(code), not_(undefined)), notes=code.notes), Res(FALSE), **k)

    def envs(self, plain=False, hooks=None, over=None, n=None, consts=()):
        for k in range(n or N_VAL):
            ov = over(k) if callable(over) else over
            if consts and k % 2 and callable(over) and ov and "!" not in ov:
                import random
                r = random.Random("drop%d" % k)
                ov = {a: b for a, b in ov.items() if r.random() < 0.5}
            yield et.Env("%d.%d" % (SEED, k), hooks=hooks, plain=plain if plain is not None else k % 4 < 2,
                         over=ov, consts=consts if k % 2 else ())

    def same(self, subject, rule, *a, **k):
        try:
            with limit(self):
                return self._same(subject, rule, *a, **k)
        except OutOfTime:
            return self.add(subject, rule, UNDECIDED, "out of time", "", k.get("key"))

    def _same(self, subject, rule, code, specs, plain=None, where=None, hooks=None, over=None, values_only=False, n=None,
             norm=None, key=None, known=(), law=False):
        """code: Res; specs: Res or list of accepted Res. HOLDS when one spec has the same normal form; VIOLATED with a
        valuation that separates the code from every accepted spec"""
        if isinstance(specs, Res):
            specs = [specs]
        if known:
            v = self._same(subject, rule, code, specs, plain, where, hooks, over, values_only, n, norm, key)
            if v == VIOLATED:
                o = self.obs[-1]
                for tag, r in known:
                    v2 = self._same(subject, rule, code, r, plain, where, hooks, over, values_only, n, norm, key)
                    self.obs.pop()
                    if v2 == HOLDS:
                        o.key += " #" + tag
                        break
            return v
        for sp in specs:
            if identical(code, sp, values_only):
                return self.add(subject, rule, HOLDS, "", "normal form", key)
        compared, unknown, why = 0, 0, ""
        alive = list(range(len(specs)))
        witness = None
        known_c = set(et.constants_of([t for sp_ in specs for t in terms_of(sp_)]))
        consts = [c for c in et.constants_of(terms_of(code)) if c not in known_c]
        for env in self.envs(plain, hooks, over, n, consts):
            memo = {}
            try:
                if where is not None and not et.truthy(et.ev(where, env, None, memo)):
                    continue
                a = outcome(code, env, memo, values_only)
            except et.Err:
                continue
            except et.Unknown as e:
                unknown += str(e) != "budget"
                why = str(e)
                continue
            if a is None:
                continue
            if norm:
                a = norm(a)
            comp = False
            for j in list(alive):
                try:
                    b = outcome(specs[j], env, memo, values_only)
                except et.Err:
                    continue
                except et.Unknown as e:
                    why = "specification: %s" % e
                    continue
                if b is None:
                    continue
                if norm:
                    b = norm(b)
                if law and a != b:
                    # different values on one outcome of the draws: compare the exact laws
                    try:
                        la = et.law(lambda e: outcome(code, e, {}, values_only), env)
                        lb = et.law(lambda e: outcome(specs[j], e, {}, values_only), env)
                    except et.Err:
                        continue
                    except et.Unknown as e:
                        unknown += 1
                        why = "law of the roll: %s" % e
                        continue
                    if la == lb:
                        comp = True
                        continue
                    a, b = la, lb
                comp = True
                if a != b:
                    alive.remove(j)
                    if witness is None or not alive:
                        witness = (dict(env.used), a, b, dists(env, code, specs[j]))
            compared += comp
            self.valuations += comp
            if not alive:
                w = witness
                return self.add(subject, rule, VIOLATED,
                                "for %s the code gives %s where %s is required" % (describe(w[0], w[3]), et.short(w[1], 200), et.short(w[2], 200)),
                                "separating valuation", key)
        if compared == 0:
            return self.add(subject, rule, UNDECIDED, why or "no valuation applies" + ("; " + "; ".join(code.notes[:2]) if code.notes else ""), "", key)
        if unknown > compared:
            return self.add(subject, rule, UNDECIDED, "partly not analysable: %s" % why, "", key)
        return self.add(subject, rule, HOLDS, "", "no separating valuation among %d" % compared, key)

    def parallel(self, items, f, subject, rule):
        """f(item) for every item, spread over processes that start from the present state of the analysis"""
        items = list(items)
        n = min(JOBS, len(items))
        if n <= 1:
            for x in items:
                self.guard(subject, rule, lambda: f(x))
            return
        pipes = []
        for w in range(n):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = []
                try:
                    self.valuations, self.missing = 0, []
                    for k in range(w, len(items), n):
                        self.obs = []
                        self.guard(subject, rule, lambda: f(items[k]))
                        out.append((k, self.obs))
                    data = pickle.dumps((out, self.valuations, self.missing, [set(s.i.visited) for s in self.sessions]))
                    with os.fdopen(wr, "wb") as fh:
                        fh.write(data)
                finally:
                    os._exit(0)
            os.close(wr)
            pipes.append((pid, r))
        got = {}
        for pid, r in pipes:
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            if not data:
                self.add(subject, rule, UNDECIDED, "a process of the analysis ended early")
                continue
            out, nv, missing, seen = pickle.loads(data)
            got.update(out)
            self.valuations += nv
            self.missing += missing
            for s, v in zip(self.sessions, seen):
                s.i.visited |= v
        for k in sorted(got):
            self.obs += got[k]

    def guard(self, subject, rule, f, key=None):
        """run f(); a failure of the analyser is an undecided obligation, a vanished anchor is recorded"""
        t = time.time()
        try:
            return f()
        except Missing as m:
            self.missing.append(str(m))
            return self.add(subject, rule, UNDECIDED, "anchor missing: %s" % m, "", key)
        except RecursionError:
            return self.add(subject, rule, UNDECIDED, "analysis too deep", "", key)
        except Exception as e:  # an unexpected shape of the code: no verdict
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            at = tb[-1] if tb else None
            if os.environ.get("VERIF_DEBUG") and sum(x.verdict == UNDECIDED for x in self.obs) < 2:
                traceback.print_exc()
            return self.add(subject, rule, UNDECIDED, "analysis stopped: %s: %s (%s:%s)" % (
                type(e).__name__, str(e)[:200], at and os.path.basename(at.filename), at and at.lineno), "", key)
        finally:
            if os.environ.get("VERIF_TIMES") and time.time() - t > 1:
                print("  %.1fs %s" % (time.time() - t, subject))

    # -------------------------------------------------------------- report
    def finish(self, rules):
        known, fixed = load_known(self.pid)
        fns = set()
        files = set()
        for s in self.sessions:
            fns |= {v for v in s.i.visited if v[0].split(".")[0] == "python_dice"}
        nf = self.sessions[0].p.n_functions if self.sessions else 0
        nm = len(self.sessions[0].p.trees) - 1 if self.sessions else 0
        bad, kn = [], []
        for o in self.obs:
            if o.verdict == VIOLATED:
                m = [k for k in known if matches(k, o)]
                (kn if m else bad).append((o, m[0] if m else None))
        held = [o for o in self.obs if o.verdict == HOLDS]
        und = [o for o in self.obs if o.verdict == UNDECIDED]
        by_nf = sum(o.method in ("normal form", "structure") for o in held)
        wall = time.time() - self.t0
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
            "coverage": {
                "explanation": "abstract interpretation of /repo's source into normalised value graphs; each obligation "
                               "compares the summary of a function with its specification. %d obligations: %d held (%d by "
                               "normal form or structure, %d because no valuation separates the two terms), %d undecided, "
                               "%d known findings, %d violations." % (len(self.obs), len(held), by_nf, len(held) - by_nf,
                                                                      len(und), len(kn), len(bad)),
                "obligations": len(self.obs), "discharged": len(held), "held_by_normal_form": by_nf,
                "undecided": len(und), "known_findings": len(kn),
                "valuations_compared": self.valuations,
                "modules_parsed": nm, "functions_in_scope": nf, "functions_interpreted": len(fns),
                "rules": rules,
                "samples": [o.as_dict() for o in self.obs[:6]],
                "undecided_list": [o.as_dict() for o in und[:20]],
                "violations_list": [o.as_dict() for o, _ in bad[:20]],
            },
            "assumptions": ["the models of builtins, random, re, itertools and copy in /verif/engine/models.py",
                            "operands satisfy the same property (induction over the expression)"],
            "wall_s": round(wall, 3), "violations": len(bad),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", "%s.json" % self.pid)
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s: %d obligations, %d held (%d by normal form), %d undecided, %d known, %d violated; %d functions "
              "interpreted; %.1fs" % (self.pid, len(self.obs), len(held), by_nf, len(und), len(kn), len(bad), len(fns), wall))
        for o in und[:8]:
            print("  UNDECIDED %s: %s: %s" % (o.subject, o.rule, o.detail[:300]))
        seen = set()
        for o, k in kn:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if bad:
            rdir = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp_ = os.path.join(rdir, "%s.txt" % self.pid)
            with open(rp_, "w", encoding="utf-8") as fh:
                for o, _ in bad:
                    fh.write("%s\n  rule: %s\n  %s\n  decided by: %s\n\n" % (o.subject, o.rule, o.detail, o.method))
            for o, _ in bad[:12]:
                print("  VIOLATED %s: %s: %s" % (o.subject, o.rule, o.detail[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp_))
            return 1
        if self.missing and len(held) * 2 < len(self.obs):
            print("analysis broken: missing %s" % ", ".join(sorted(set(self.missing))))
            return 2
        if not held:
            print("analysis broken: nothing could be decided")
            return 2
        return 0


def matches(k, o):
    return all(s in o.key for s in k["match"])


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return [], []
    with open(path, encoding="utf-8") as fh:
        d = json.load(fh)
    return [k for k in d.get("known", []) if k["property"] == pid], []


def identical(a, b, values_only=False):
    if a.value is not b.value or a.value is None or tm.find_unk(a.value) is not None:
        return False
    if values_only:
        return True
    for n in {n for _, n in a.raises} | {n for _, n in b.raises}:
        if a.cond(n) is not b.cond(n):
            return False
    return True


def terms_of(r):
    return ([r.value] if r.value is not None else []) + [c for c, _ in r.raises]


def outcome(r, env, memo, values_only=False):
    """('raise', name) or ('value', v) under a valuation"""
    for (c, n) in r.raises:
        if c is FALSE:
            continue
        if et.truthy(et.ev(c, env, None, memo)):
            if values_only:
                return None
            return ("raise", n)
    if r.ok is FALSE or r.value is None:
        raise et.Err("no normal exit")
    if r.ok is not TRUE and not r.raises and not et.truthy(et.ev(r.ok, env, None, memo)):
        raise et.Err("no normal exit")
    return ("value", et.canon(et.ev(r.value, env, None, memo)))


def dists(env, a, b):
    out = {}
    for r in (a, b):
        for t in ([r.value] if r.value is not None else []) + [c for c, _ in r.raises]:
            for x in tm.walk(t):
                if x.op == "app" and x.args[0] == "distmap" and not tm.fv(x):
                    try:
                        e = et.ev(x.args[1], env)
                        out["distribution of %s" % show(x.args[1], 40)] = et.dist_of(e, env)
                    except (et.Err, et.Unknown):
                        pass
                if x.op == "app" and x.args[0] == "roll" and not tm.fv(x):
                    try:
                        out["roll of %s" % show(x.args[1], 40)] = et.ev(x, env)
                    except (et.Err, et.Unknown):
                        pass
    return out


def describe(used, extra):
    parts = ["%s=%s" % (k, et.short(v, 80)) for k, v in sorted(used.items())
             if not (isinstance(v, et.Tok) and v and v[0] == "obj")][:8]
    parts += ["%s %s" % (k, et.short(v, 160)) for k, v in sorted(extra.items())][:4]
    return ", ".join(parts) or "every input"


# ---------------------------------------------------------------- common material
def src_of(S, cname):
    c = S.i.class_by_simple(cname)
    if c is None:
        raise Missing("class " + cname)
    from engine.interp import CLASSES
    return S.p.files.get(CLASSES[c.args[0]].mod, "?")


def subj(S, cname, meth):
    return "%s %s.%s" % (src_of(S, cname), cname, meth)


def distmap(e):
    return tm.app("distmap", (e,), ("map", "outcome", "int"))


def dist_term(S, e):
    """outcome table of the distribution an expression reports, as a term"""
    d = S.meth(e, "get_probability_distribution")
    return S.freeze(S.meth(d, "get_constraint_result_map"))


def txt(*parts):
    return rp.rope(tuple(x if isinstance(x, tm.T) else const(x) for x in parts))


def nat(n):
    return rp.istr(sym("nat:" + n, "int"))
