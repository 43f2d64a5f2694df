"""usage: mut.py CHECK[,CHECK] FILE OLD NEW [FILE OLD NEW ...]: run checks on a scratch copy with text replaced (development aid)"""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = tempfile.mkdtemp(prefix="mut_")
try:
    copy = os.path.join(base, "repo")
    shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".git", "test", "__pycache__"))
    a = sys.argv[2:]
    for f, old, new in zip(a[0::3], a[1::3], a[2::3]):
        old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
        p = os.path.join(copy, "python_dice/src", f)
        t = open(p).read()
        if old not in t:
            sys.exit("does not apply: " + f)
        open(p, "w").write(t.replace(old, new))
    for c in sys.argv[1].split(","):
        r = subprocess.run(["python3", "-m", "checks.run", c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(c, "exit", r.returncode)
        for x in [x for x in r.stdout.splitlines() if "KNOWN" not in x][:int(os.environ.get("L", "4"))]:
            print("   ", x[:int(os.environ.get("W", "400"))])
finally:
    shutil.rmtree(base)
