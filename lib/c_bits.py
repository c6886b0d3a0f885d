import json


def stateless(c, b, cases, mk, label, selftest, group=60):
    """Run stateless cases, validate their lines; mk(case, result) -> line."""
    lines = []
    for case, r in zip(cases, c.execute(b, cases)):
        if "panic" in r or "hang" in r or "crash" in r:
            c.violation("%s: %s" % (label, str(r)[:200]), dict(case=case, result=r))
        else:
            lines.append((case, r, mk(case, r)))
    groups = [lines[i:i + group] for i in range(0, len(lines), group)]
    for bi, li, info in c.validate("BitsTrace", "BitsTrace.cfg", [[x[2] for x in g] for g in groups], selftest=selftest, label=label):
        case, r, ln = groups[bi][li]
        c.violation("%s of %s gave %s" % (label, str(ln["buf"])[:200], str(ln["out"])[:200]), dict(case=case, result=r))
    c.cov["traces_validated_against_impl"] += len(lines) - len(groups)


def bump(l):
    if l.get("out"):
        if isinstance(l["out"][-1], list):
            l["out"] = l["out"][:-1]
        else:
            l["out"][-1] ^= 5
        return l


def esc(u):
    o, z = [], 0
    for x in u:
        if z == 2 and x <= 3:
            o.append(3)
            z = 0
        o.append(x)
        z = z + 1 if x == 0 else 0
    return o


def rand_unit(rng, n):
    w = rng.choice([[0, 0, 0, 1, 2, 3], [0, 0, 0, 0, 3, 1, 255], list(range(256)), [0, 0, 1, 103, 104]])
    u = esc([rng.choice(w) for _ in range(n)])
    while u and u[-1] == 0:
        u[-1] = rng.choice([1, 3, 128, 255])
        u = esc2(u)
    return u or [rng.choice([9, 103, 3, 1])]


def esc2(u):
    """make safe after a tail change without re-escaping 3s"""
    o, z = [], 0
    for x in u:
        if z == 2 and x <= 2:
            o.append(3)
            z = 0
        o.append(x)
        z = z + 1 if x == 0 else 0
    return o


def check_B01(c):
    b = c.build("vh-h264")
    gen = []
    for cfg in c.pick(["long", "two", "three"], ["long", "two", "three", "longT", "twoT"]):
        gen += c.cases("AnnexBGen", "AnnexBGen.%s.cfg" % cfg, heap="6g", name="AnnexBGen-" + cfg)
    res = c.execute(b, [dict(op="split", buf=g["buf"]) for g in gen])
    for g, r in zip(gen, res):
        if r.get("units") != g["units"]:
            c.violation("stream %s: expected units %s, got %s" % (g["buf"], g["units"], str(r)[:200]), dict(case=g, result=r))
    c.cov["behaviours_replayed"] = len(gen)
    c.sample(dict(generated=gen[len(gen) // 2]))
    rng = c.rng
    cases = []
    for _ in range(c.pick(2000, 20000)):
        us = [rand_unit(rng, rng.choice([1, 2, 3, 5, 8, 20, 60])) for _ in range(rng.choice([1, 1, 2, 3, 4, 7]))]
        if rng.random() < .01:      # many units, or a long one
            us = [rand_unit(rng, rng.choice([1, 1, 2, 3])) for _ in range(rng.choice([17, 33, 70, 130, 260]))] if rng.random() < .6 else us + [rand_unit(rng, rng.choice([300, 1100, 2100]))]
        zs = [rng.choice([2, 2, 3, 3, 4, 5, 9]) for _ in us]
        tr = rng.choice([0, 0, 0, 1, 2, 3, 8])
        buf = []
        for u, z in zip(us, zs):
            buf += [0] * z + [1] + u
        cases.append(dict(op="split", buf=buf + [0] * tr, us=us, zeros=zs, trail=tr))
    stateless(c, b, cases, lambda q, r: dict(op="split", buf=q["buf"], us=q["us"], zeros=q["zeros"], trail=q["trail"], out=r["units"]), "split", bump)
    c.sample(dict(recorded=cases[0]))
    c.assume += ["streams are well-formed: units are non-empty, contain no start code pattern and do not end in a zero byte"]


def check_B02(c):
    b = c.build("vh-h264")
    gen = c.cases("EpbGen", c.pick("EpbGen.quick.cfg", "EpbGen.thorough.cfg"), heap="6g")
    res = c.execute(b, [dict(op="unesc", buf=g["b"]) for g in gen])
    for g, r in zip(gen, res):
        if r.get("out") != g["u"]:
            c.violation("removing emulation prevention from %s: expected %s, got %s" % (g["b"], g["u"], str(r)[:200]), dict(case=g, result=r))
    c.cov["behaviours_replayed"] = len(gen)
    c.sample(dict(generated=gen[-1]))
    rng = c.rng
    bufs = [g["b"] for g in gen if len(g["b"]) <= 5]        # exhaustive short strings, encapsulated
    bufs += [g["b"] for g in rng.sample(gen, min(len(gen), c.pick(3000, 20000)))]
    for _ in range(c.pick(800, 8000)):
        w = rng.choice([[0, 0, 0, 1, 2, 3], [0, 0, 0, 0, 3], list(range(256)), [0, 1], [0]])
        bufs.append([rng.choice(w) for _ in range(rng.choice([7, 9, 12, 30, 100, 300] if rng.random() < .99 else [520, 1030]))])
    stateless(c, b, [dict(op="esc", buf=x) for x in bufs], lambda q, r: dict(op="esc", buf=q["buf"], out=r["out"]), "esc", bump, group=100)
    rnd = bufs[-c.pick(800, 8000):]
    stateless(c, b, [dict(op="unesc", buf=x) for x in rnd], lambda q, r: dict(op="unesc", buf=q["buf"], out=r["out"]), "unesc", bump)


def golomb(rng, k):
    s = bin(k + 1)[2:]
    return "0" * (len(s) - 1) + s


def bits_case(rng):
    """A buffer laid out together with a plausible sequence of reads."""
    s, steps = "", []
    for _ in range(rng.randint(1, 25) if rng.random() < .96 else rng.randint(100, 400)):
        k = rng.randrange(10)
        if k <= 3:
            n = rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 25, 26, 27, 28, 29, 30, 31, 32, 32])
            s += "".join(rng.choice("01") for _ in range(n))
            steps.append(dict(op=rng.choice(["read", "read", "skip"]), n=n))
        elif k == 4:
            n = rng.randint(0, 8)
            s += "".join(rng.choice("01") for _ in range(n))
            steps.append(dict(op="byte", n=n))
        elif k == 5:
            s += rng.choice("01")
            steps.append(dict(op="flag", n=1))
        elif k == 6:
            z = rng.randint(0, 31)
            v = rng.choice([rng.randrange(1 << z), (1 << z) - 1, 0])
            s += "0" * z + "1" + (bin(v)[2:].zfill(z) if z else "")
            steps.append(dict(op=rng.choice(["ue", "se", "skipue"]), n=0))
        elif k == 7:
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                s += "1" * 8
            s += bin(rng.randrange(255))[2:].zfill(8)
            steps.append(dict(op="sei", n=0))
        elif k == 8:
            steps.append(dict(op="trail", n=0))
            s += "1" + "0" * ((-len(s) - 1) % 8)
            if rng.random() < .3:
                s = s[:-1] + rng.choice("01")
        else:
            steps.append(dict(op=rng.choice(["ue", "se", "sei", "trail", "read"]), n=rng.randint(0, 32)))
    s += "".join(rng.choice("01") for _ in range(rng.choice([0, 0, 3, 20])))
    s += "0" * (-len(s) % 8)
    buf = [int(s[i:i + 8], 2) for i in range(0, len(s), 8)]
    if rng.random() < .3:
        buf = buf[:rng.randint(0, len(buf))]
    steps += [dict(op=rng.choice(["read", "skip", "flag", "ue", "byte"]), n=rng.choice([1, 4, 8])) for _ in range(rng.choice([0, 2, 6]))]
    return dict(op="bits", buf=buf, steps=steps)


def check_B03(c):
    b = c.build("vh-h264")
    gen = c.cases("BitReaderGen", c.pick("BitReaderGen.quick.cfg", "BitReaderGen.thorough.cfg"), heap="6g")
    res = c.execute(b, [dict(op="bits", buf=g["buf"], steps=[dict(op=h[0], n=h[1]) for h in g["h"]]) for g in gen])
    for g, r in zip(gen, res):
        got = r.get("res", [])
        for i, h in enumerate(g["h"]):
            x = got[i] if i < len(got) else None
            exact = h[0] in ("read", "byte", "flag", "skip")
            if x is None or x["panic"] or x["err"] != h[2] or ((exact or not h[2]) and x["av"] != h[4]) or \
                    (not h[2] and h[0] not in ("skip", "skipue", "trail") and x["v"] != h[3]):
                c.violation("buffer %s, operation %d of %s: expected %s, got %s" % (g["buf"], i, [k[:2] for k in g["h"]], h[2:], x or r), dict(case=g, result=r))
                break
    c.cov["behaviours_replayed"] = len(gen)
    c.sample(dict(generated=gen[len(gen) // 2]))
    cases = [bits_case(c.rng) for _ in range(c.pick(400, 5000))]
    beh = []
    for q, r in zip(cases, c.execute(b, cases)):
        if "res" not in r or any(x["panic"] for x in r["res"]):
            c.violation("bit reader: %s" % str(r)[-300:], dict(case=q, result=r))
            continue
        beh.append((q, [dict(op="new", n=0, buf=q["buf"], err=False, v=[0, 0], av=0)] +
                    [dict(op=s["op"], n=s["n"], buf=[], err=x["err"], v=x["v"], av=x["av"]) for s, x in zip(q["steps"], r["res"])]))

    def corrupt(l):
        if l["op"] in ("read", "ue", "se") and not l["err"]:
            l["v"][1] ^= 1
            return l
    for bi, li, info in c.validate("BitsTrace", "BitsTrace.cfg", [x[1] for x in beh], selftest=corrupt):
        q, lines = beh[bi]
        c.violation("bit reader step %d of %s: %s" % (li, q["steps"][:li], lines[li]), dict(case=q, line=li, got=lines[li]))
    c.sample(dict(recorded=beh[0][1][:5]))
    c.assume += ["at most 32 bits per read and 31 leading zeros per Exp-Golomb value", "what a failed Exp-Golomb, SEI or trailing-bits read consumes is not claimed"]
