"""usage: quiet.py SPEC.py [ids...] (development aid): SPEC.py defines RF = {id: [(file under python_dice/src, old, new), ...]}, edits that keep
the behaviour; every check has to stay quiet on each. env CHECKS=C01,C02 limits the checks, TESTS=1 also runs the repository's tests."""
import concurrent.futures as cf
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
checks = os.environ.get("CHECKS", "").split(",") if os.environ.get("CHECKS") else \
    ["C15", "C10", "C07", "C02"] + ["C%02d" % k for k in range(1, 21) if k not in (15, 10, 7, 2)]


def one(c, copy):
    r = subprocess.run(["timeout", "880", "python3", "-m", "checks.run", c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=copy),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return c, r.returncode, r.stdout


for name, edits in m.RF.items():
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    base = tempfile.mkdtemp(prefix="quiet_")
    copy = os.path.join(base, "repo")
    shutil.copytree(os.environ.get("BASE", "/repo"), copy, symlinks=True)
    bad = None
    for f, old, new in edits:
        p = os.path.join(copy, "python_dice/src", f)
        if old is None:  # a new file
            open(p, "w").write(new)
            continue
        t = open(p).read()
        if old not in t:
            bad = "does not apply: %s: %r" % (f, old[:60])
            break
        open(p, "w").write(t.replace(old, new))
    if bad:
        print(name, bad, flush=True)
        shutil.rmtree(base)
        continue
    if os.environ.get("TESTS"):
        ok, why = plant.tests(copy)
        if not ok:
            print(name, "TESTS FAIL", why[:300], flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        rs = list(ex.map(lambda c: one(c, copy), checks))
    out = []
    for c, rc, so in sorted(rs):
        und = re.search(r"(\d+) undecided", so)
        t = re.search(r"([\d.]+)s$", so.splitlines()[0]) if so else None
        if rc != 0 or not und or int(und.group(1)) or (t and float(t.group(1)) > 300):
            out.append("  %s exit %d %s" % (c, rc, so.splitlines()[0][:140] if so else ""))
            out += ["      " + x[:420] for x in so.splitlines()[1:] if "UNDEC" in x or "VIOLATED" in x or "Error" in x][:int(os.environ.get("L", "2"))]
    print(name, "QUIET" if not out else "", flush=True)
    if out:
        print("\n".join(out), flush=True)
    shutil.rmtree(base)
