"""usage: plant.py SPEC.py [ids...]   (development aid, no check uses it)

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=python source, needs, breaks)].
Each is tried in a scratch copy: the tests must pass, the demo must pass without and fail with the change; then it is kept
under seeded/ and the check of its property is run on the changed copy."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# exit 0 when the property holds for this input\nPYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(copy):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(copy, ".hyp"))
    env.pop("PYTHONPATH", None)
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--dist", "worksteal", "--timeout=300",
            "--hypothesis-seed=0", "."], copy, env=env)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = []
    for x in r.stdout.splitlines():
        if x.startswith(("FAILED", "ERROR")):
            n = x.split(" ")[1].split("[")[0]
            f, _, rest = n.partition("::")
            full = f[:-3].replace("/", ".") + "." + rest.replace("::", ".", rest.count("::") - 1) if "::" in rest else f[:-3].replace("/", ".") + "::" + rest
            if full in stable or any(s.startswith(full) for s in stable) or x.startswith("ERROR"):
                bad.append(x)
    return not bad and "passed" in r.stdout, "\n".join(bad)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:]
    base = tempfile.mkdtemp(prefix="plant_")
    try:
        for s in m.SEEDS:
            if ids and s["id"] not in ids:
                continue
            copy = os.path.join(base, "repo")
            shutil.copytree("/repo", copy, symlinks=True)
            d = os.path.join(base, "seed")
            os.makedirs(d)
            with open(os.path.join(d, "demo.sh"), "w") as fh:
                fh.write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            with open(os.path.join(d, "demo.py"), "w") as fh:
                fh.write(s["demo"].lstrip("\n"))
            ok = True
            r = sh(["bash", os.path.join(d, "demo.sh")], copy)
            if r.returncode:
                print(s["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-800:])
                ok = False
            for f, old, new in s["edits"]:
                p = os.path.join(copy, "python_dice/src", f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT does not apply (%d)" % t.count(old), f)
                    ok = False
                    break
                open(p, "w").write(t.replace(old, new))
            if ok:
                r = sh(["bash", os.path.join(d, "demo.sh")], copy)
                if r.returncode == 0:
                    print(s["id"], "DEMO PASSES WITH BUG")
                    ok = False
            if ok:
                good, out = tests(copy)
                if not good:
                    f = [x for x in out.splitlines() if x.startswith("FAILED") or x.startswith("ERROR")]
                    print(s["id"], "TESTS FAIL", (f or [out[-300:]])[:2])
                    ok = False
            if ok:
                diff = sh(["git", "diff"], copy).stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(os.path.join(d, "meta.json"), "w"), indent=1)
                dst = os.path.join(ROOT, "seeded", s["id"])
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(d, dst)
                r = sh(["python3", "-m", "checks.run", s["prop"]], ROOT, env=dict(os.environ, VERIF_REPO=copy))
                last = [x for x in r.stdout.splitlines() if "VIOLAT" in x][:1]
                print(s["id"], "KEPT;", s["prop"], "exit", r.returncode, (last or r.stdout.splitlines()[-1:])[0][:300] if r.stdout else "")
            sys.stdout.flush()
            shutil.rmtree(copy)
            shutil.rmtree(d)
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    main()
