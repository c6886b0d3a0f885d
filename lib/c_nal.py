import json

WHAT = {"N01": "content", "N02": "fragment", "N03": "number"}


def U(units, cls):
    if cls == "number":
        return [[u["don"], u["ts"]] for u in units]
    return [[u["h"], u.get("idc", u["h"] >> 5 & 3), u.get("type", u["h"] & 31), u["d"]] for u in units]


def replay(c, b, cfg, cls):
    gen = c.cases("NalGen", cfg, heap="8g", name=cfg)
    cases = [dict(op="sink", steps=[dict(buf=p["buf"], ts=p["ts"]) for p in g]) for g in gen]
    for g, r in zip(gen, c.execute(b, cases)):
        got = r.get("res")
        if got is None:
            c.violation("payload sequence: %s" % str(r)[:200], dict(case=g, result=r))
            continue
        for i, p in enumerate(g):
            if i >= len(got):
                break
            if not p["wf"]:
                continue
            x = got[i]
            if cls == "number":
                bad = not x["err"] and len(x["units"]) == len(p["units"]) and any(
                    e["ts"] != u["ts"] or e["don"] not in (-1, u["don"]) for e, u in zip(p["units"], x["units"]))
            else:
                bad = p["class"] == cls and (x["err"] or U(x["units"], cls) != U(p["units"], cls))
            if bad:
                c.violation("payload %d of %s: expected %s, got %s" % (i, [q["buf"] for q in g], p["units"], x), dict(case=g, result=got))
                break
    c.cov["behaviours_replayed"] = c.cov.get("behaviours_replayed", 0) + len(gen)
    c.sample(dict(generated=gen[len(gen) // 3]))


def rbytes(rng, n):
    w = rng.choice([[0, 0, 0, 1, 2, 3], [0, 0, 3], list(range(256)), list(range(256))])
    return [rng.choice(w) for _ in range(n)]


def esc(u):
    o, z = [], 0
    for x in u:
        if z == 2 and x <= 3:
            o.append(3)
            z = 0
        o.append(x)
        z = z + 1 if x == 0 else 0
    return o


def nal(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 12, 40]) if n is None else n
    return [rng.choice([0x21, 0x41, 0x61, 0x65, 0x67, 0x68, 0x06, 0x09, 0x01, rng.randrange(4) * 32 + rng.randint(1, 23)])] + esc(rbytes(rng, n))


def be16(n):
    return [n >> 8, n & 255]


def stream(rng, focus, crowd=0):
    """A random stream of payloads as a sender (or a lossy network) produces."""
    out = []
    ts = [rng.choice([0, 65535, rng.randrange(65536)]), rng.choice([65530, 0, rng.randrange(65536)])]
    open_ser = None
    def many(n):
        return rng.randint(1, n) if rng.random() >= crowd else rng.choice([17, 21, 33, 65, 130, 260])

    def whole(k, t):
        """A payload that is complete in itself."""
        if k == 0:
            return nal(rng), t
        if k == 1:
            us = [nal(rng) for _ in range(many(5))]
            return [0x18 | rng.choice([0, 32, 96])] + [x for u in us for x in be16(len(u)) + u], t
        if k == 2:
            us = [nal(rng) for _ in range(many(4))]
            return [0x19 | rng.choice([0, 96])] + be16(rng.choice([0, 1, 3, 65535, 65534, rng.randrange(65536)])) + [x for u in us for x in be16(len(u)) + u], t
        if k in (3, 4):
            m = 3 if k == 4 else 2
            b = [(0x1b if k == 4 else 0x1a) | rng.choice([0, 96])] + be16(rng.choice([0, 65535, 65300, rng.randrange(65536)]))
            for _ in range(many(4)):
                u = nal(rng)
                b += be16(len(u)) + [rng.choice([0, 1, 255, rng.randrange(256)])] + [rng.choice([0, 0, 1, 255, rng.randrange(256)]) for _ in range(m)] + u
            return b, t
        b = []
        for _ in range(many(4)):
            u = nal(rng)
            while u[-1] == 0:
                u[-1] = 0x80
            z = sum(1 for _ in range(2) if rng.random() < .5)
            b += [0] * (2 + z) + [1] + u
        if b[2] == 0 and b[3] == 0:
            b = b[1:]
        return b + [0] * rng.choice([0, 0, 1, 3]), t
    for _ in range(rng.randint(3, 30)):
        if rng.random() < .5:
            lo = ts[1] + rng.choice([1, 3000, 65535])
            ts = [(ts[0] + (lo >> 16)) & 65535, lo & 65535]
        k = rng.choice({"content": [0, 0, 1, 2, 3, 3, 4, 5, 6], "fragment": [5, 5, 5, 5, 0, 1, 6], "number": [0, 1, 2, 3, 4, 5, 5, 6]}[focus])
        t = list(ts)
        if k != 5:
            out.append(whole(k, t))
        else:
            u = nal(rng, rng.choice([2, 4, 6, 9, 30, 120]))
            n = rng.randint(2, 6) if rng.random() >= crowd else rng.choice([17, 21, 33, 65, 130, 260])
            body = u[1:]
            cuts = sorted(rng.randint(0, len(body)) for _ in range(n - 1))
            parts = [body[i:j] for i, j in zip([0] + cuts, cuts + [len(body)])]
            isb = rng.random() < (.4 if focus == "number" else .2)
            pk = []
            for i, p in enumerate(parts):
                fl = 0x80 if i == 0 else 0x40 if i == n - 1 else 0
                if i == 0 and isb:
                    pk.append(([(u[0] & 0x60) | 29, fl | (u[0] & 31)] + be16(rng.choice([0, 3, 65535, rng.randrange(65536)])) + p, t))
                else:
                    pk.append(([(u[0] & 0x60) | 28, fl | (u[0] & 31)] + p, t))
            loss = rng.random()
            if loss < .12:
                pk = pk[1:]                       # start lost
            elif loss < .24:
                pk = pk[:-1]                      # end lost
            elif loss < .3 and len(pk) > 2:
                pk.insert(rng.randint(1, len(pk) - 1), whole(rng.choice([0, 0, 1, 2, 3, 4, 6]), t))
            elif loss < .36:
                pk = pk[:1] + pk                  # restarted
            out += pk
        if rng.random() < .05:      # a damaged payload
            b = list(rng.choice(out)[0])
            if b:
                b = b[:rng.randint(0, len(b))]
            out.append((b, t))
    return out


def big(rng):
    """Units larger than any 8-bit or 15-bit size field."""
    u = [0x41] + esc([rng.randrange(1, 256) for _ in range(300)])
    v = [0x65] + [rng.randrange(1, 256) for _ in range(33000)]
    out = [([0x18] + be16(len(u)) + u + be16(len(v)) + v, [0, 1]),
           ([0x1a, 0, 5] + be16(len(v)) + [1, 0, 2] + v, [0, 1]),
           ([0x1b, 0, 5] + be16(len(u)) + [1, 1, 0, 2] + u + be16(len(v)) + [1, 0, 0, 2] + v, [65535, 65535])]
    body = v[1:] + u[1:]
    n = 1400
    for i in range(0, len(body), n):
        out.append(([(v[0] & 0x60) | 28, (0x80 if i == 0 else 0x40 if i + n >= len(body) else 0) | 5] + body[i:i + n], [7, 7]))
    # many small parts
    us = [[rng.choice([0x41, 0x65, 0x68]), rng.randrange(1, 256)] for _ in range(300)]
    out.append(([0x18] + [x for u in us for x in [0, 2] + u], [8, 1]))
    out.append(([0x1a, 0, 5] + [x for u in us for x in [0, 2, rng.randrange(256), 0, 7] + u], [8, 2]))
    out.append(([x for u in us[:200] for x in [0, 0, 1] + u], [8, 3]))
    for i in range(301):
        out.append(([0x7c, (0x80 if i == 0 else 0x40 if i == 300 else 0) | 5, rng.randrange(4, 256)], [8, 4]))
    # sizes whose sum with the header overflows 16 bits, on a payload that long
    w = [0x41] + [7] * 65533
    out.append(([0x18] + be16(len(w)) + w, [0, 2]))
    out.append(([0x1b, 0, 5] + be16(65531) + [0, 0, 0, 1] + w[:65531], [0, 2]))
    return out


def recorded(c, b, cls):
    rng = c.rng
    streams = [stream(rng, cls) for _ in range(c.pick(250, 2500))] + [stream(rng, cls, .15) for _ in range(c.pick(6, 30))] + [big(rng)]
    cases = [dict(op="sink", steps=[dict(buf=p, ts=t) for p, t in s]) for s in streams]
    beh = []
    new = dict(op="new", buf=[0], ts=[0, 0], err=False, units=[], a=0, b=0, out=0)
    for case, r in zip(cases, c.execute(b, cases)):
        if "res" not in r:
            c.violation("payload stream: %s" % str(r)[:200], dict(case=case, result=r))
            continue
        ln = [new]
        for s, x in zip(case["steps"], r["res"]):
            ln.append(dict(op="push", buf=s["buf"], ts=s["ts"], err=x["err"], units=x["units"], a=0, b=0, out=0))
        beh.append((case, ln))
    if cls == "number":
        ln = [new]
        pairs = [(0, 0), (0, 65535), (65535, 0), (0, 32767), (0, 32768), (0, 32769), (32768, 0), (32767, 0), (32769, 0), (1, 32769), (65535, 32767), (32767, 65535)]
        pairs += [(rng.randrange(65536), rng.randrange(65536)) for _ in range(500)]
        for (x, y), r in zip(pairs, c.execute(b, [dict(op="dondiff", a=x, b=y) for x, y in pairs])):
            ln.append(dict(new, op="dondiff", a=x, b=y, out=r.get("out", 1 << 20)))
        beh.append((dict(pairs=pairs), ln))

    def corrupt(l):
        if l["op"] != "push" or not l["units"] or l["err"] or not l["buf"]:
            return
        if cls == "number":
            if l["buf"][0] & 31 in (25, 26, 27):
                l["units"][-1]["don"] ^= 1
                return l
        elif (l["buf"][0] & 31 == 28) == (cls == "fragment") and l["units"][0]["d"]:
            l["units"][0]["d"][-1] ^= 4
            return l
    seen = dict(content=0, fragment=0)
    for bi, li, info in c.validate("NalTrace", "NalTrace.cfg", [x[1] for x in beh], selftest=corrupt, tag=cls, heap="3g"):
        if info == cls:
            case, ln = beh[bi]
            c.violation("%s rejected: payload %d %s of a stream gave %s" % (info, li - 1, str(ln[li]["buf"])[:150], str(ln[li]["units"])[:300]),
                        dict(case=case, line=li, got=ln[li]))
    for _, ln in beh:
        for x in ln:
            if x["op"] == "push" and x["units"] and x["buf"] and not x["err"]:
                seen["fragment" if x["buf"][0] & 31 in (28, 29) else "content"] += len(x["units"])
    c.cov["units_seen"] = seen
    c.sample(dict(recorded=beh[1][1][:4]))


def run(c):
    b = c.build("vh-h264")
    cls = WHAT[c.id]
    cfgs = dict(content=["all"], fragment=["frag"], number=["all", "frag"])[cls]
    for x in cfgs:
        replay(c, b, "NalGen.%s%s.cfg" % (x, c.pick("", "T")), cls)
    recorded(c, b, cls)
    c.assume += ["malformed payloads (truncated, zero-sized entries, NAL types 0, 30, 31, S and E set together, FU-B without S) are only required not to crash, see X01",
                 "the forbidden bit of fragments is zero"]


check_N01 = check_N02 = check_N03 = run
