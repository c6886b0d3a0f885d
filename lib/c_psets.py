WHAT = {"P01": "sps", "P02": "pps", "P03": "store"}
HIGH = [100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135]


class W:
    """Bit writer."""

    def __init__(self):
        self.b = []

    def u(self, n, v):
        self.b += [(v >> (n - 1 - i)) & 1 for i in range(n)]

    def ue(self, v):
        n = (v + 1).bit_length()
        self.u(2 * n - 1, v + 1)

    def se(self, v):
        self.ue(2 * v - 1 if v > 0 else -2 * v)

    def done(self, zeros=0):
        b = self.b + [1]
        b += [0] * (-len(b) % 8)
        return [int("".join(map(str, b[i:i + 8])), 2) for i in range(0, len(b), 8)] + [0] * zeros


def lists(w, rng, n):
    for i in range(n):
        size = 16 if i < 6 else 64
        k = rng.choice([0, 0, 1, 2, 3])
        w.u(1, 1 if k else 0)
        if k == 1:
            w.se(-8)                    # default matrix
        elif k:
            last, stop = 8, rng.choice([size, rng.randint(1, size)])
            for j in range(size):
                if j == stop:
                    nxt = 0
                elif k == 2:
                    nxt = rng.randint(1, 255)
                else:
                    nxt = max(1, min(255, last + rng.randint(-2, 2)))
                d = (nxt - last + 128) % 256 - 128
                w.se(d)
                if nxt == 0:
                    break
                last = nxt


def sps(rng, sid, chroma_of):
    w = W()
    prof = rng.choice([66, 77, 88] + HIGH + [100, 100, 244])
    w.u(8, prof)
    w.u(8, rng.randrange(64) << 2)
    w.u(8, rng.choice([10, 11, 30, 31, 40, 51]))
    w.ue(sid)
    chroma, sep = 1, 0
    if prof in HIGH:
        chroma = rng.choice([0, 1, 1, 2, 3, 3])
        w.ue(chroma)
        if chroma == 3:
            sep = rng.randrange(2)
            w.u(1, sep)
        w.ue(rng.randint(0, 6))
        w.ue(rng.randint(0, 6))
        w.u(1, rng.randrange(2))
        m = rng.choice([0, 0, 1])
        w.u(1, m)
        if m:
            lists(w, rng, 12 if chroma == 3 else 8)
    w.ue(rng.randint(0, 12))
    poc = rng.randrange(3)
    w.ue(poc)
    if poc == 0:
        w.ue(rng.randint(0, 12))
    elif poc == 1:
        w.u(1, rng.randrange(2))
        w.se(rng.choice([0, 1, -1, 1000, -70000]))
        w.se(rng.choice([0, 5, -9]))
        n = rng.choice([0, 1, 2, 5, 255])
        w.ue(n)
        for _ in range(n):
            w.se(rng.choice([0, 1, -2, 300]))
    w.ue(rng.randint(0, 16))
    w.u(1, rng.randrange(2))
    wm, hm = rng.choice([(0, 0), (39, 29), (79, 44), (119, 67), (rng.randint(0, 250), rng.randint(0, 250)), (4095, 2000)])
    w.ue(wm)
    w.ue(hm)
    only = rng.choice([1, 1, 0])
    w.u(1, only)
    if not only:
        w.u(1, rng.randrange(2))
    w.u(1, rng.randrange(2))
    crop = rng.choice([0, 1])
    w.u(1, crop)
    if crop:
        cx = 1 if sep or chroma in (0, 3) else 2
        cy = (2 if chroma == 1 and not sep else 1) * (2 - only)
        for full, unit in ((16 * (wm + 1), cx), (16 * (hm + 1) * (2 - only), cy)):
            room = (full - 1) // unit
            a = rng.choice([0, rng.randint(0, min(room, 8)), rng.randint(0, room // 2)])
            w.ue(a)
            w.ue(rng.choice([0, rng.randint(0, min(room - a, 8))]))
    vui = rng.randrange(2)
    w.u(1, vui)
    if vui:
        for _ in range(rng.randint(1, 60)):
            w.u(1, rng.choice([0, 0, 0, 1]))
    chroma_of[sid] = chroma
    return w.done(rng.choice([0, 0, 0, 1, 2]))


def pps(rng, pid, sid, chroma_of):
    w, plain = W(), True
    w.ue(pid)
    w.ue(sid)
    w.u(2, rng.randrange(4))
    n = rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 7])
    w.ue(n)
    if n:
        t = rng.randrange(7)
        w.ue(t)
        if t == 0:
            for _ in range(n + 1):
                w.ue(rng.randint(0, 400))
        elif t == 2:
            for _ in range(n):
                a = rng.randint(0, 300)
                w.ue(a)
                w.ue(a + rng.randint(0, 90))
        elif t in (3, 4, 5):
            w.u(1, rng.randrange(2))
            w.ue(rng.randint(0, 99))
        elif t == 6:
            p = rng.choice([0, 1, 5, 17, 98, 395])
            w.ue(p)
            for _ in range(p + 1):
                w.u(n.bit_length(), rng.randint(0, n))
    w.ue(rng.randint(0, 31))
    w.ue(rng.randint(0, 31))
    w.u(1, rng.randrange(2))
    w.u(2, rng.randrange(3))
    w.se(rng.randint(-26, 25))
    w.se(rng.randint(-26, 25))
    w.se(rng.randint(-12, 12))
    w.u(3, rng.randrange(8))
    if rng.random() < .6:
        t8 = rng.randrange(2) if sid in chroma_of else 0
        m = rng.randrange(2)
        w.u(2, t8 * 2 + m)
        if m:
            lists(w, rng, 6 + (0 if not t8 else 6 if chroma_of[sid] == 3 else 2))
            plain = not t8                 # else it depends on the sequence set stored
        w.se(rng.randint(-12, 12))
    return w.done(rng.choice([0, 0, 0, 1, 2, 3])), plain


def esc(u):
    o, z = [], 0
    for x in u:
        if z == 2 and x <= 3:
            o.append(3)
            z = 0
        o.append(x)
        z = z + 1 if x == 0 else 0
    return o


SIDS = [0, 1, 2, 31]
PIDS = [0, 1, 7, 255]


def history(rng, focus):
    out, chroma_of = [], {}
    for _ in range(rng.randint(4, 14)):
        kind = rng.choice({"sps": ["sps", "sps", "sps", "pps"], "pps": ["pps", "pps", "sps"], "store": ["sps", "pps"]}[focus])
        known = dict(chroma_of)
        b, wf = (sps(rng, rng.choice(SIDS), known), True) if kind == "sps" else pps(rng, rng.choice(PIDS), rng.choice(SIDS), known)
        r = rng.random()
        bad = .4 if focus == "store" else .15
        if r < bad:                        # damaged on the way
            wf = False
            k = rng.randrange(3)
            if k == 0:
                b = b[:rng.randint(0, len(b) - 1)]
            elif k == 1 and len(b) > 3:
                b = b[:max(1, len(b) - rng.randint(1, 4))]
            else:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        how = kind
        if rng.random() < .5:
            how = "sprop"
            b = [rng.choice([0x60, 0x20, 0x40, 0]) | (7 if kind == "sps" else 8)] + esc(b)
        if rng.random() < .06:
            how, b, wf = "sprop", rng.choice([[], [0x65] + b, [0x67], [0x68], [0x06, 1, 2], [0x69] + b[1:], [0x70] + b]), False
        if wf and kind == "sps":
            chroma_of = known

        elif not wf:
            chroma_of = {}                 # the generator no longer knows what is stored
        out.append((how, b, wf))
    return out


def recorded(c, b, what):
    hs = [history(c.rng, what) for _ in range(c.pick(260, 2600))]
    cases = [dict(op="psets", steps=[dict(how=h, buf=x) for h, x, _ in s], sps=SIDS, pps=PIDS, solo=True) for s in hs]
    new = dict(op="new", buf=[], err=False, wf=False, sids=SIDS, pids=PIDS, sps=[], pps=[])
    beh = []
    acc = 0
    for case, s, r in zip(cases, hs, c.execute(b, cases)):
        if "res" not in r:
            c.violation("parameter set history: %s" % str(r)[:300], dict(case=case, result=r))
            continue
        ln = [new]
        for (how, buf, wf), x in zip(s, r["res"]):
            ln.append(dict(op=how, buf=buf, err=x["err"], wf=wf, sids=SIDS, pids=PIDS, sps=x.get("sps", []), pps=x.get("pps", []), solo=x.get("solo", {"id": -1, "err": True})))
            if "sps" not in x:
                break
            acc += not x["err"]
        beh.append((case, ln))

    def corrupt(l):
        if l["op"] == "new" or not l["wf"] or l["err"]:
            return
        k = dict(sps="sps", pps="pps").get(what, "pps")
        if what != "store" and l["op"] not in (k,):
            return
        f = [x for x in l["sps" if k == "sps" else "pps"] if x["has"]]
        if what == "store":
            f = f[-1:]
        if not f:
            return
        for x in f:
            for n in (("width", "maxref") if k == "sps" else ("l1",)):
                x["f"][n] += 1
        return l
    for bi, li, info in c.validate("ParamSetsTrace", "ParamSetsTrace.cfg", [x[1] for x in beh], selftest=corrupt, tag=what, heap="3g"):
        case, ln = beh[bi]
        if info == "generator":
            from vlib import CheckError
            raise CheckError("generated parameter set is not well-formed by the specification: %s" % ln[li]["buf"])
        if info == what:
            got = ln[li]
            c.violation("%s rejected: step %d, %s %s gave err=%s" % (info, li - 1, got["op"], bytes(got["buf"]).hex(), got["err"]),
                        dict(case=case, line=li, got=got))
    c.cov["sets_accepted"] = acc
    c.sample(dict(recorded=beh[0][1][1]))


def baseline(sid):
    """A 4:2:0 sequence set with this id."""
    w = W()
    w.u(24, 0x42001e)
    for v in (sid, 4, 2, 1):
        w.ue(v)
    w.u(1, 0)
    w.ue(39)
    w.ue(29)
    w.u(4, 0b1100)
    return w.done()


def replay(c, b, what):
    gen = c.cases("ParamSetsGen", "ParamSetsGen.%s%s.cfg" % (what, c.pick("", "T")), heap="6g", timeout=850)
    cases = []
    for g in gen:
        i = g["f"]["id"]
        q = dict(sps=[i], pps=[]) if what == "sps" else dict(sps=[], pps=[i])
        pre = [] if what == "sps" else [dict(how="sps", buf=baseline(g["f"]["sps"]))]
        cases.append(dict(op="psets", steps=pre + [dict(how=what, buf=g["buf"])], **q))
        nal = [0x67 if what == "sps" else 0x68] + esc(g["buf"])
        cases.append(dict(op="psets", steps=pre + [dict(how="sprop", buf=nal)], **q))
    res = c.execute(b, cases)
    for k, r in enumerate(res):
        g = gen[k // 2]
        if "res" not in r:
            c.violation("%s %s: %s" % (what, g["buf"], str(r)[:200]), dict(case=g, result=r))
            continue
        x = r["res"][-1]
        got = x.get(what, [{"has": False}])[0]
        if x["err"] or not got["has"]:
            c.violation("well-formed %s %s refused: %s" % (what, bytes(cases[k]["steps"][-1]["buf"]).hex(), x.get("why")), dict(case=g, result=x))
            continue
        want = dict(g["f"])
        if what == "sps":
            want.update(width=g["w"], height=g["h"])
        elif want["maptype"] != 6:
            want.pop("picsize")
        diff = {n: (v, got["f"].get(n)) for n, v in want.items() if got["f"].get(n) != v}
        if diff:
            c.violation("%s %s: wrong (expected, got) %s" % (what, bytes(cases[k]["steps"][-1]["buf"]).hex(), diff), dict(case=g, result=x))
    c.cov["behaviours_replayed"] = len(cases)
    c.sample(dict(generated=gen[len(gen) // 2]))


def store(c, b):
    """All histories of the store model, each set given as such or as a unit."""
    gen = c.cases("ParamSetsStore", "ParamSetsStore.%d.cfg" % c.pick(3, 4), heap="8g", timeout=850)
    pal = [g for g in gen if "palette" in g][0]
    hs = [g["h"] for g in gen if "h" in g]
    cases = []
    for h in hs:
        steps = []
        for s in h:
            e = pal["palette"][s["i"] - 1]
            if e["k"] == "none":
                steps.append(dict(how="sprop", buf=e["b"]))
            elif c.rng.random() < .5:
                steps.append(dict(how=e["k"], buf=e["b"]))
            else:
                steps.append(dict(how="sprop", buf=[c.rng.choice([0x60, 0x20, 0x40, 0]) | (7 if e["k"] == "sps" else 8)] + esc(e["b"])))
        cases.append(dict(op="psets", steps=steps, sps=pal["sids"], pps=pal["pids"]))
    seen = dict(none=0, open=0, set=0)
    for case, h, r in zip(cases, hs, c.execute(b, cases)):
        if "res" not in r:
            c.violation("parameter set history: %s" % str(r)[:300], dict(case=case, result=r))
            continue
        for k, (s, x) in enumerate(zip(h, r["res"])):
            bad = None
            e = pal["palette"][s["i"] - 1]["k"]
            if s["how"] == "ok" and x["err"]:
                bad = "a well-formed %s is refused" % e
            elif s["how"] == "short" and not x["err"]:
                bad = "a cut %s is accepted" % e
            for key, ids, view in (("sps", pal["sids"], s["s"]), ("pps", pal["pids"], s["p"])):
                for i, w, got in zip(ids, view, x[key]):
                    seen[w["w"]] += 1
                    if w["w"] == "none" and got["has"]:
                        bad = "%s %d appears from nowhere" % (key, i)
                    elif w["w"] == "set":
                        d = got["has"] and {n: (v, got["f"].get(n)) for n, v in w["f"].items() if got["f"].get(n) != v}
                        if not got["has"]:
                            bad = "%s %d is not found" % (key, i)
                        elif d:
                            bad = "%s %d is not the latest accepted: (expected, got) %s" % (key, i, d)
            if bad:
                c.violation("step %d of %s: %s" % (k, [pal["palette"][y["i"] - 1]["k"] + str(y["i"]) for y in h], bad), dict(case=case, step=k, want=s, got=x))
                break
    if not all(seen.values()):
        c.problem("the store model does not reach %s" % seen)
    c.cov["behaviours_replayed"] = len(cases)
    c.cov["views"] = seen


def run(c):
    b = c.build("vh-h264")
    what = WHAT[c.id]
    if what == "store":
        store(c, b)
    else:
        replay(c, b, what)
    recorded(c, b, what)
    c.assume += ["values outside the ranges of H.264 7.4.2 and profile 183 are only required not to crash (X01)",
                 "a picture set with 8x8 scaling lists needs its sequence set for the number of lists"]


check_P01 = check_P02 = check_P03 = run
