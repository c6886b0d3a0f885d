#!/usr/bin/env python3
"""Runs each planted change's own check (quick, seed 1) on a scratch copy and says whether it is caught.

usage: runseeds.py [-a] [id ...]     -a: all checks, not only that of the property
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "-a" in args
args = [a for a in args if a != "-a"]
ids = args or sorted(os.listdir(V + "/seeded"))
claims = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
res = {}
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    tree = tempfile.mkdtemp(prefix="rs.", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q && git apply %s/patch.diff" % (tree, tree, d), shell=True, check=True)
    for c in (claims if allc else [prop]):
        t = time.time()
        r = subprocess.run(["./check", c], cwd=V, env=dict(os.environ, VERIF_REPO=tree, VERIF_OUT=tree + ".out", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = re.findall(r"VIOLATION property=(\S+)", r.stdout)
        ok = r.returncode == 1 and c in v
        if not allc or ok or r.returncode not in (0, 1):
            tail = "" if ok else " | " + " / ".join(r.stdout.strip().splitlines()[-2:])[:300]
            print("%-22s %s rc=%d %s %ds%s" % (i, c, r.returncode, "caught" if ok else "MISSED", time.time() - t, tail), flush=True)
    shutil.rmtree(tree, ignore_errors=True)
    shutil.rmtree(tree + ".out", ignore_errors=True)
