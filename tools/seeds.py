"""usage: seeds.py [ids...] (development aid): runs the check of each seed's property on a scratch copy with the seed applied, prints a table row"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.environ.get("SEEDS", os.path.join(ROOT, "seeded"))


def one(s):
    d = os.path.join(SEEDS, s)
    m = json.load(open(os.path.join(d, "meta.json")))
    base = tempfile.mkdtemp(prefix="seed_")
    copy = os.path.join(base, "repo")
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, check=True)
        r = subprocess.run(["python3", "-m", "checks.run", m["property"]], cwd=ROOT, env=dict(os.environ, VERIF_REPO=copy),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        caught = r.returncode == 1 and "VIOLATION property=%s" % m["property"] in r.stdout
    finally:
        shutil.rmtree(base)
    return "| %s | %s | %s | %s |" % (s, m["property"], m["needs"], "caught" if caught else "missed (exit %d)" % r.returncode)


ids = sys.argv[1:] or sorted(os.listdir(SEEDS))
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for row in ex.map(one, ids):
        print(row, flush=True)
