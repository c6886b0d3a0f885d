"""Shared machinery of the checks: building the harness from /repo, running
TLC, running cases against the real code, validating traces, reporting."""
import concurrent.futures as cf
import json, os, random, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class CheckError(Exception):
    """The check itself could not reach a verdict (exit 2)."""


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="", GOTELEMETRY="off")
    return e


class TLCResult:
    def __init__(self, text, rc):
        self.text, self.rc = text, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", text)
        self.generated, self.distinct, self.left = (int(x) for x in m.groups()) if m else (0, 0, -1)
        if not m:
            g = re.findall(r"(\d+) states checked", text.replace(",", ""))
            self.generated = int(g[-1]) if g else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", text)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "No error has been found" in text or ("-simulate" in text and rc == 0)

    def tagged(self, tag):
        """Lines PrintT'ed as the string TAG@..., decoded."""
        out = []
        for ln in self.text.split("\n"):
            if ln.startswith('"' + tag + "@"):
                out.append(unquote(ln.strip())[len(tag) + 1:])
        return out

    def error(self):
        keep = [l for l in self.text.split("\n") if not l.startswith(("Parsing", "Semantic", "Linting", '"CASE@'))]
        return "\n".join(keep)[-3000:]


def unquote(s):
    """TLA+ string literal -> text."""
    s = s[1:-1]
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1), m.group(1)), s)


# a thorough run may take as long as it needs
SLACK = 6 if os.environ.get("VERIF_TIER") == "thorough" else 1


def tlc(work, module, cfg, env=None, workers=1, args=(), timeout=600, heap="3g", name=None):
    """Run TLC on spec/<module>.tla. cfg is a file name in spec/ or cfg text."""
    name = name or module
    timeout *= SLACK
    md = os.path.join(work, "tlc-" + name)
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md + "/tmp")
    if "\n" in cfg:
        cfgp = os.path.join(md, "m.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
    else:
        cfgp = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + md + "/tmp", "-cp", JAR, "tlc2.TLC",
           "-metadir", md + "/meta", "-workers", str(workers), "-config", cfgp, "-noGenerateSpecTE", "-deadlock"]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        txt, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC %s did not finish in %ds" % (name, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    if "-simulate" in args and rc == 0:
        txt += "\n-simulate"
    return TLCResult(txt, rc)


class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(OUT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assume = []
        self.violations, self.problems = [], []   # (text, replay dict)
        self.known_hits = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------
    def build(self, *cmds, extra=()):
        bins = []
        modfile = []
        if REPO != "/repo":
            mf = os.path.join(self.work, "go.mod")
            with open(os.path.join(HARNESS, "go.mod")) as f:
                t = f.read().replace("=> /repo", "=> " + REPO)
            with open(mf, "w") as f:
                f.write(t)
            open(os.path.join(self.work, "go.sum"), "w").close()
            modfile = ["-modfile=" + mf]
        for c in cmds:
            out = os.path.join(self.work, c)
            p = subprocess.run(["go", "build"] + modfile + list(extra) + ["-o", out, "./cmd/" + c], cwd=HARNESS, env=goenv(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise CheckError("harness does not build:\n" + p.stdout.decode()[-2000:])
            bins.append(out)
        return bins if len(bins) > 1 else bins[0]

    # ---- specification --------------------------------------------------
    def model(self, module, cfg, **kw):
        """Check the specification itself; its failure is ours, not the code's."""
        kw.setdefault("workers", CORES)
        r = tlc(self.work, module, cfg, **kw)
        if not r.ok:
            raise CheckError("specification %s (%s): \n%s" % (module, cfg if "\n" not in cfg else "inline", r.error()))
        self.cov["states"] += r.distinct or r.generated
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append(dict(module=module, cfg=cfg if "\n" not in cfg else cfg.replace("\n", "; "),
                                                      distinct=r.distinct, generated=r.generated, depth=r.depth,
                                                      exhaustive=(r.left == 0)))
        self.log("model %s: %d distinct states, depth %d" % (module, r.distinct, r.depth))
        return r

    def cases(self, module, cfg, **kw):
        """Behaviours generated by the specification (PrintT'ed CASE@json)."""
        r = self.model(module, cfg, **kw)
        out, seen = [], set()
        for t in r.tagged("CASE"):
            if t not in seen:
                seen.add(t)
                out.append(json.loads(t))
        if not out:
            raise CheckError("specification %s generated no cases" % module)
        self.log("generated %d cases from %s" % (len(out), module))
        return out

    # ---- real code ------------------------------------------------------
    def execute(self, binary, cases, shards=CORES, mem=6 << 30, timeout=600):
        """Run every case against the real code; results in order."""
        n = max(1, min(shards, len(cases)))
        timeout *= SLACK
        chunks = [list(range(k, len(cases), n)) for k in range(n)]
        res = [None] * len(cases)

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

        def work(ix):
            todo = list(ix)
            while todo:
                inp = "\n".join(json.dumps(cases[i]) for i in todo).encode()
                try:
                    p = subprocess.run([binary], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       timeout=timeout, env=goenv(), preexec_fn=limit)
                except subprocess.TimeoutExpired:
                    raise CheckError("driver did not finish")
                lines = [l for l in p.stdout.split(b"\n") if l.strip()]
                if p.returncode and lines and not p.stdout.endswith(b"\n"):
                    lines.pop()
                for k, l in enumerate(lines):
                    res[todo[k]] = json.loads(l)
                done = len(lines)
                if p.returncode == 3:
                    raise CheckError("driver: " + p.stderr.decode()[-500:])
                if p.returncode != 0:
                    err = p.stderr.decode("utf-8", "replace")
                    if "aboukirev/ouro" not in err and "out of memory" not in err:
                        raise CheckError("driver died: " + err[-1500:])
                    res[todo[done]] = {"crash": err[:1500]}
                    done += 1
                elif done < len(todo) and not (lines and b'"hang":true' in lines[-1]):
                    raise CheckError("driver stopped early")
                todo = todo[done:]
        with cf.ThreadPoolExecutor(n) as ex:
            list(ex.map(work, chunks))
        return res

    def execute_pool(self, binary, cases, procs=4, par=48, mem=6 << 30, timeout=840):
        """Run cases concurrently inside few driver processes. A case during
        which the process died is run again alone to see whose fault it was."""
        res = [None] * len(cases)
        timeout *= SLACK

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
            resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))

        def once(ix, width):
            inp = "\n".join(json.dumps(cases[i]) for i in ix).encode()
            try:
                p = subprocess.run([binary, str(width)], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=timeout, env=goenv(), preexec_fn=limit)
            except subprocess.TimeoutExpired:
                raise CheckError("driver did not finish")
            if p.returncode == 3:
                raise CheckError("driver: " + p.stderr.decode()[-500:])
            complete = False
            for l in p.stdout.split(b"\n"):
                if l.strip():
                    try:
                        o = json.loads(l)
                    except ValueError:
                        continue
                    if o["n"] < 0:
                        complete = True
                    else:
                        res[ix[o["n"]]] = o
            err = p.stderr.decode("utf-8", "replace")
            if p.returncode != 0 and "aboukirev/ouro" not in err and "out of memory" not in err:
                raise CheckError("driver died: " + err[-1500:])
            if p.returncode == 0 and not complete:
                raise CheckError("driver stopped early")
            return err if p.returncode else None

        chunks = [list(range(k, len(cases), procs)) for k in range(min(procs, len(cases)))]
        with cf.ThreadPoolExecutor(max(1, len(chunks))) as ex:
            died = list(ex.map(lambda ix: once(ix, par), chunks))
        left = [i for i in range(len(cases)) if res[i] is None]
        if left:
            def alone(i):
                e = once([i], 1)
                if res[i] is None:
                    res[i] = {"crash": (e or "")[:2500]}
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(alone, left[:64]))
            lost = [e for e in died if e and "aboukirev/ouro" in e.split("\n\n", 2)[1 if "\n\n" in e else 0]]
            if lost and not any("crash" in res[i] for i in left if res[i]):
                res[left[0]] = {"crash": "seen once, with other sessions under way: " + lost[0][:2500]}
            rest = [i for i in left if res[i] is None]
            for i in rest:
                res[i] = {"skip": "not run again after a crash"}
            if rest and not any("crash" in res[i] for i in left):
                raise CheckError("driver crashed but no case could be blamed")
        return res

    # ---- trace validation -----------------------------------------------
    def validate(self, module, cfg, behaviours, selftest=None, shards=CORES, timeout=800, label="trace", heap="2g", tag=None):
        """behaviours: list of lists of trace lines. Returns rejections as
        (behaviour index, line index, info). selftest(line) corrupts a line
        (or returns None): TLC must reject the corrupted trace."""
        n = max(1, min(shards, len(behaviours)))
        files, maps = [], []
        for k in range(n):
            fn = os.path.join(self.work, "%s-%d.ndjson" % (label, k))
            mp = []
            with open(fn, "w") as f:
                for b in range(k, len(behaviours), n):
                    for j, line in enumerate(behaviours[b]):
                        f.write(json.dumps(line) + "\n")
                        mp.append((b, j))
            files.append(fn)
            maps.append(mp)
        jobs = list(zip(files, maps))
        st = None
        if selftest:
            bad, hits = [], 0
            for b in self.rng.sample(behaviours, min(len(behaviours), 400)):
                nb, h = [], 0
                for line in b:
                    c = selftest(json.loads(json.dumps(line)))
                    if c is not None and c != line:
                        h += 1
                        line = c
                    nb.append(line)
                if h:
                    bad += nb
                    hits += h
                if hits >= 8:
                    break
            if not hits:
                self.problem("self-test found no line to corrupt in " + label)
        if selftest and hits:
            fn = os.path.join(self.work, "%s-selftest.ndjson" % label)
            with open(fn, "w") as f:
                for line in bad:
                    f.write(json.dumps(line) + "\n")
            st = (fn, len(bad), hits)

        def one(a):
            i, (fn, length) = a
            r = tlc(self.work, module, cfg, env={"TRACE": fn}, workers=1, timeout=timeout, heap=heap, name="%s-%s-%s" % (module, label, i))
            if not r.ok:
                raise CheckError("trace validation %s did not finish: %s" % (label, r.error()))
            if r.depth - 1 != length:
                raise CheckError("trace validation %s consumed %d of %d lines\n%s" % (label, r.depth - 1, length, r.error()))
            return r
        todo = [(k, (f, len(m))) for k, (f, m) in enumerate(jobs)]
        if st:
            todo.append(("self", (st[0], st[1])))
        with cf.ThreadPoolExecutor(CORES) as ex:
            rs = list(ex.map(one, todo))
        rej = []
        for (fn, mp), r in zip(jobs, rs):
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            for t in r.tagged("REJECT"):
                ln, info = t.split("@", 1)
                b, j = mp[int(ln) - 1]
                rej.append((b, j, info.strip('"')))
        if st and not any(tag in (None, t.split("@", 1)[1].strip('"')) for t in rs[-1].tagged("REJECT")):
            self.problem("self-test: a %s trace with %d corrupted lines was accepted" % (label, st[2]))
        self.cov["traces_validated_against_impl"] += len(behaviours)
        for f in files:
            os.remove(f)
        import collections
        self.log(dict(collections.Counter(x[2] for x in rej)))
        self.log("%s: %d behaviours, %d lines, %d rejected" % (label, len(behaviours), sum(len(m) for m in maps), len(rej)))
        return sorted(rej)

    def explain(self, module, cfg, sessions, selftest=None, label="sessions", heap="3g", timeout=800):
        """sessions: one object per recorded session; the specification says
        how far it could be explained. Returns (index, events explained).
        selftest(session) gives a corrupted copy (or None): at least one of
        those must not be explained."""
        n = max(1, min(CORES, len(sessions)))
        jobs = []
        for k in range(n):
            ix = list(range(k, len(sessions), n))
            jobs.append((k, ix, [sessions[i] for i in ix]))
        if selftest:
            bad = []
            for i in self.rng.sample(range(len(sessions)), min(len(sessions), 60)):
                b = selftest(json.loads(json.dumps(sessions[i])))
                if b is not None:
                    bad.append(b)
                if len(bad) >= 12:
                    break
            if bad:
                jobs.append(("self", list(range(len(bad))), bad))
            else:
                self.problem("self-test found nothing to corrupt in " + label)

        def one(j):
            k, ix, ss = j
            fn = os.path.join(self.work, "%s-%s.ndjson" % (label, k))
            with open(fn, "w") as f:
                for x in ss:
                    f.write(json.dumps(x) + "\n")
            r = tlc(self.work, module, cfg, env={"TRACE": fn}, workers=1, timeout=timeout, heap=heap, name="%s-%s-%s" % (module, label, k))
            os.remove(fn)
            if not r.ok or r.left != 0:
                raise CheckError("trace validation %s did not finish: %s" % (label, r.error()))
            out = []
            for t in r.tagged("REJECT"):
                a, b = t.split("@")[:2]
                out.append((ix[int(a) - 1], int(b) - 1))
            return k, r, out
        with cf.ThreadPoolExecutor(CORES) as ex:
            rs = list(ex.map(one, jobs))
        rej = []
        for k, r, out in rs:
            if k == "self":
                if not out:
                    self.problem("self-test: %d corrupted sessions were explained" % len(jobs[-1][2]))
                continue
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            rej += out
        self.cov["traces_validated_against_impl"] += len(sessions)
        self.log("%s: %d sessions, %d events, %d not explained" % (label, len(sessions), sum(len(x["ev"]) for x in sessions), len(rej)))
        return sorted(rej)

    # ---- verdicts --------------------------------------------------------
    def problem(self, text):
        """Something that makes a quiet verdict worthless, but takes nothing
        from a violation: only raised when there is none."""
        self.problems.append(text)

    def violation(self, text, replay):
        self.violations.append((text, replay))

    def sample(self, s, n=3):
        if len(self.cov["samples"]) < n:
            t = json.dumps(s)
            self.cov["samples"].append(s if len(t) < 3000 else t[:3000] + "...")

    def finish(self):
        if self.problems and not self.violations:
            raise CheckError("; ".join(self.problems))
        for x in self.problems:
            self.log("problem: " + x)
        wall = time.time() - self.t0
        ev = dict(property=self.id, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed,
                  level="model_checking", coverage=self.cov, assumptions=self.assume, wall_s=round(wall, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            rp = os.path.join(OUT, "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.id + ".json")
            with open(path, "w") as f:
                json.dump([dict(what=t, replay=r) for t, r in self.violations[:20]], f, indent=1)
            for t, _ in self.violations[:8]:
                print("  - " + t)
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            return 1
        print("OK property=%s (%.1fs; %d states, %d behaviours of the real code validated)" %
              (self.id, wall, self.cov["states"], self.cov["traces_validated_against_impl"]))
        return 0
