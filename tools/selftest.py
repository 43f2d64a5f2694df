"""Differential test of the interpreter against CPython: every function of selftest_snippets.py is summarised once with unknown
arguments and its summary is compared, at many argument values, with what CPython computes. (No code of the repository is involved.)"""
import ast
import os
import random
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
from engine import terms as tm, evalterm as et, seqs as sq  # noqa: E402
from engine.program import Program  # noqa: E402
from engine.session import Session  # noqa: E402

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "selftest_snippets.py")
SRC = open(PATH).read()
ns = {}
exec(compile(SRC, PATH, "exec"), ns)
p = Program()
p.trees["snip"] = ast.parse(SRC)
p.files["snip"] = "snip"
p.is_pkg["snip"] = False
lib = os.path.join(os.path.dirname(PATH), "..", "checks", "lib.py")
p.trees["verif_lib"] = ast.parse(open(lib).read())
p.files["verif_lib"] = lib
p.is_pkg["verif_lib"] = False
S = Session(p)


def plain(v):
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return frozenset(plain(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted(((plain(a), plain(b)) for a, b in v.items()), key=repr))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


ARGS = {"x": ("int", lambda r: r.choice([-3, -2, -1, 0, 1, 2, 3, 5])), "y": ("int", lambda r: r.choice([-2, -1, 0, 1, 2, 4])),
        "n": ("nat", lambda r: r.choice([0, 1, 2, 3, 4])),
        "l": (("seq", "int"), lambda r: tuple(r.choice([-2, -1, 0, 1, 2, 3]) for _ in range(r.choice([0, 1, 2, 3, 4])))),
        "m": (("map", "int", "int"), lambda r: {k: r.choice([0, 1, 2, 3]) for k in r.sample(range(-2, 5), r.choice([0, 1, 2, 3]))}),
        "s": ("str", lambda r: r.choice(["", "a", "ab", "b", "abc"]))}
only = sys.argv[1:]
bad = und = good = 0
for name, f in ns.items():
    if not callable(f) or name.startswith("_") or getattr(f, "__module__", "x") is not None and f.__class__.__name__ != "function":
        continue
    if f.__code__.co_filename != PATH:
        continue
    if only and name not in only:
        continue
    params = f.__code__.co_varnames[:f.__code__.co_argcount]
    before = S.save()
    try:
        def thunk():
            args = []
            for a in params:
                ty = ARGS[a][0]
                t = tm.sym("nat:" + a if ty == "nat" else a, "int" if ty == "nat" else ty)
                if isinstance(ty, tuple):
                    from engine.interp import Obj
                    t = S.i.alloc(Obj("list" if ty[0] == "seq" else "dict", None, {"c": t}))
                args.append(t)
            return S.freeze(S.i.call(S.attr("snip", name), args))
        r = S.run(thunk)
    except Exception as e:  # noqa
        print("CRASH", name, type(e).__name__, e)
        bad += 1
        S.restore(before)
        continue
    S.restore(before)
    if r.value is not None and tm.contains_op(r.value, "unk"):
        print("UNKNOWN", name, str(r.value)[:160])
        und += 1
        continue
    if only:
        print(name, r.value, r.raises)
    rnd = random.Random(name)
    ok = True
    for k in range(60):
        vals = {a: ARGS[a][1](rnd) for a in params}
        over = {("nat:" + a if ARGS[a][0] == "nat" else a): v for a, v in vals.items()}
        try:
            want = plain(f(*[list(v) if isinstance(v, tuple) else dict(v) if isinstance(v, dict) else v for v in vals.values()]))
        except Exception as e:  # noqa
            want = ("raises", type(e).__name__)
        env = et.Env(k, over=over)
        got = None
        try:
            for c, e in r.raises:
                if et.ev(c, env):
                    got = ("raises", e.name)
                    break
            if got is None:
                got = plain(et.ev(r.value, env)) if r.value is not None else ("dead",)
        except Exception as e:  # noqa
            got = ("eval", type(e).__name__, str(e)[:80])
        if isinstance(got, (int, float, Fraction)) and isinstance(want, (int, float)) and abs(got - want) < 1e-9:
            continue
        if got != want:
            print("DIFF" if not isinstance(got, tuple) or got[:1] != ("eval",) else "UNEVALUATED", name, vals, "python", str(want)[:80], "engine", str(got)[:120])
            ok = False
            break
    good += ok
    bad += not ok
print(good, "agree,", bad, "differ,", und, "unknown")
