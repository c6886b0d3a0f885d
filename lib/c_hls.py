import json
URI = [("https://example.com/media", "/var/media/video.ts", "https://example.com/media/video.ts"),
       ("http://h:8080", "a.mp4", "http://h:8080/a.mp4"),
       ("https://cdn/x/y/", "/tmp/s/live.ts", "https://cdn/x/y/live.ts")]
DENS = [1000, 1, 90000, 7, 1000000007, 3, 44100, 1024]      # of a second
UNITS = [1, 1000, 1 << 31, 1 << 40]


def judge(c, cases, res):
    """Turn driver results into trace behaviours."""
    beh = []
    for case, r in zip(cases, res):
        if "res" not in r:
            c.violation("playlist history crashed or hung: %s" % json.dumps(r)[:200], dict(case=case, result=r))
            continue
        lines = []
        for o, x in zip(case["ops"], r["res"]):
            ln = dict(op=o["op"], ok=x["ok"], cap=o.get("cap", 0), dur=o.get("dur", 0), len=o.get("len", 0), rows=x.get("rows", []))
            lines.append(ln)
        beh.append((case, r, lines))
    return beh


def check_H01(c):
    b = c.build("vh-hls")
    gen = c.cases("PlaylistRing", c.pick("PlaylistRing.quick.cfg", "PlaylistRing.thorough.cfg"), heap="6g")
    # 1. behaviours of the specification replayed step by step into the real code
    cases = []
    for k, g in enumerate(gen):
        u = URI[k % len(URI)]
        ops = [dict(op="new", cap=g["cap"]), dict(op="render")]
        for d, n in g["adds"]:
            ops += [dict(op="add", dur=d, len=n), dict(op="render")]
        cases.append(dict(base=u[0], name=u[1], uri=u[2], unit=UNITS[k % len(UNITS)], den=DENS[k % len(DENS)], ops=ops))
    res = c.execute(b, cases)
    for g, case, r in zip(gen, cases, res):
        if "res" not in r:
            c.violation("playlist crashed or hung", dict(case=case, result=r))
            continue
        exp = [[]] + [[[w["dur"], w["len"], w["pos"]] for w in win] for win in g["windows"]]
        got = [x for o, x in zip(case["ops"], r["res"]) if o["op"] == "render"]
        bad = [x for x in r["res"] if not x["ok"]]
        if bad or [x["rows"] for x in got] != exp:
            i = next((i for i, x in enumerate(got) if not x["ok"] or x["rows"] != exp[i]), -1)
            c.violation("window of %d after %d additions: expected %s, got %s" %
                        (g["cap"], i, exp[i], got[i] if i >= 0 else bad[0]), dict(case=case, result=r["res"], expected=exp))
    c.cov["behaviours_replayed"] = len(cases)
    c.sample(dict(generated=gen[0]))
    # 2. long random histories recorded and validated
    rng = c.rng
    cases = []
    for k in range(c.pick(160, 1500)):
        cap = rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 16, 25, 40])
        u = rng.choice(URI)
        ops = [dict(op="new", cap=cap), dict(op="render")]
        for i in range(rng.randint(1, min(4 * cap + 5, 90))):
            ops.append(dict(op="add", dur=rng.choice([rng.randint(1, 9999), rng.randint(1, 1 << 30), rng.randint(0, 9)]), len=rng.choice([rng.randint(1, 100000), rng.randint(1, 1 << 23), 0, 1])))
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                ops.append(dict(op="render"))
        ops.append(dict(op="render"))
        cases.append(dict(base=u[0], name=u[1], uri=u[2], unit=rng.choice(UNITS[:3] + [10 ** 9 + 7]), den=rng.choice(DENS), ops=ops))
    for cap in c.pick([100, 150], [100, 150, 260, 300]):      # wide windows
        ops = [dict(op="new", cap=cap)]
        for i in range(2 * cap + rng.randint(5, 30)):
            ops.append(dict(op="add", dur=rng.randint(1, 9999), len=rng.randint(1, 100000)))
            if i in (cap - 2, cap - 1, cap, cap + 1, 2 * cap):
                ops.append(dict(op="render"))
        ops.append(dict(op="render"))
        u = rng.choice(URI)
        cases.append(dict(base=u[0], name=u[1], uri=u[2], unit=1000, den=1000, ops=ops))
    beh = judge(c, cases, c.execute(b, cases))

    def corrupt(l):
        if l["op"] == "render" and l["rows"]:
            l["rows"][-1][2] += 1
            return l
    for bi, li, info in c.validate("PlaylistTrace", "PlaylistTrace.cfg", [x[2] for x in beh], selftest=corrupt):
        case, r, lines = beh[bi]
        c.violation("history rejected at step %d (%s): %s" % (li, info, json.dumps(lines[li])[:300]), dict(case=case, result=r["res"], line=li))
    c.sample(dict(recorded=beh[0][2][:6]))
    c.assume += ["window size of at least 1", "rendered #EXTINF/#EXT-X-BYTERANGE/URI triples are read back by the harness"]
