#!/usr/bin/env python3
"""Builds /verif/seeded/* from the definitions in seedlib/*.py and confirms each one.

usage: mkseeds.py [id ...]      (scratch tree under /tmp)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(HERE, "seedlib")
OUT = os.path.join(os.path.dirname(HERE), "seeded")
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local",
           GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def original(tree, patch_files):
    """Every changed file must lose at least one line that the original repository had."""
    ok = False
    for f, lines in patch_files.items():
        bl = sh("git blame -s -l -- %s" % f, "/repo").stdout.splitlines()
        for ln in lines:
            if bl[ln - 1].startswith("^"):
                ok = True
    return ok


def removed_lines(diff):
    res, cur, n = {}, None, 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        elif line.startswith("@@"):
            n = int(line.split()[1][1:].split(",")[0])
        elif line.startswith("-") and not line.startswith("---"):
            res.setdefault(cur, []).append(n)
            n += 1
        elif line.startswith(" "):
            n += 1
    return res


def main():
    seeds = []
    for f in sorted(glob.glob(os.path.join(LIB, "*.py"))):
        spec = importlib.util.spec_from_file_location("x", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    want = sys.argv[1:]
    bad = 0
    for sd in seeds:
        if want and sd["id"] not in want:
            continue
        tree = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        try:
            sh("git -C /repo archive HEAD | tar x -C %s" % tree, "/")
            sh("git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", tree)
            msg = []
            for f, old, new in sd["edits"]:
                p = os.path.join(tree, f)
                s = open(p).read()
                if s.count(old) != 1:
                    msg.append("edit matches %d times in %s: %r" % (s.count(old), f, old[:50]))
                    continue
                open(p, "w").write(s.replace(old, new))
            diff = sh("git diff", tree).stdout
            d = os.path.join(OUT, sd["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            shutil.copy(os.path.join(LIB, "demo.sh"), d)
            main_go = sd["main"].strip() + "\n"
            open(os.path.join(d, "main.go"), "w").write(main_go)
            if "newCamera" in main_go:
                shutil.copy(os.path.join(LIB, "srv.go"), d)
            json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            if not original(tree, removed_lines(diff)):
                msg.append("changes no original line")
            r = sh("go build ./... && go vet ./net/... >/dev/null 2>&1; go build ./... && go test -vet=off -count=1 ./...", tree, timeout=300)
            if r.returncode:
                msg.append("build/tests: " + r.stdout[-600:])
            r = sh("bash %s/demo.sh" % d, "/repo", timeout=300)
            if r.returncode:
                msg.append("demo fails on the unchanged tree: " + r.stdout[-600:])
            r = sh("bash %s/demo.sh" % d, tree, timeout=300)
            if r.returncode == 0:
                msg.append("demo passes with the change: " + r.stdout[-300:])
            elif r.returncode != 1 and ".go:" not in r.stdout:
                msg.append("demo exit %d with the change: %s" % (r.returncode, r.stdout[-500:]))
            print(sd["id"], sd["property"], "BAD " + " | ".join(msg) if msg else "ok: " + r.stdout.strip().splitlines()[-1][:110])
            sys.stdout.flush()
            bad += bool(msg)
        finally:
            shutil.rmtree(tree, ignore_errors=True)
    sys.exit(1 if bad else 0)


main()
