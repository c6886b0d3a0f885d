import json, random
from vlib import CheckError

PAIRS = ("interleaved", "port", "client_port", "server_port")
NUMS = ("ttl", "layers")
BADS = ["", "x", "1-", "-", "a-b", "5000-x", "1.5", "0x10", " ", "-1", "+1", "1-2-3", "5--6", "+5-6", "5-+6", "1 2", "1_0", "1e3", "99999999999999999999", "\u0661", "1,2", "\"1\""]
NOPAIR = ["1-2"]


def render(h, rng):
    """The header as text; blanks may stand between parameters, names and values (RFC 2068 2.1)."""
    blanks = rng.random() < .3
    bl = lambda: rng.choice(["", "", " ", "  ", "\t"]) if blanks else ""
    s = "RTP/AVP" + ("/" + h["lower"] if h["lower"] else "")
    for p in h["params"]:
        s += bl() + ";" + bl() + p["n"]
        if p.get("bad"):
            s += rng.choice([bl() + "=" + bl() + x for x in BADS + ([] if p["n"] in PAIRS else NOPAIR)] + [""])
        elif "v" in p:
            v = p["v"]
            v = "%d-%d" % tuple(v) if isinstance(v, (list, tuple)) else str(v)
            if p["n"] == "mode" and rng.random() < .5:
                v = '"%s"' % v
            s += bl() + "=" + bl() + v
    return s + bl()


def tokens(text):
    """An independent reading of a header the code wrote."""
    parts = text.split(";")
    proto = parts[0].strip().split("/")
    if proto[:2] != ["RTP", "AVP"]:
        return None
    ps = []
    for f in parts[1:]:
        n, _, v = f.strip().partition("=")
        n = n.strip()
        p = dict(n=n)
        try:
            if n in PAIRS:
                a, b = v.split("-")
                p["v"] = [int(a), int(b)]
            elif n in NUMS:
                p["v"] = int(v)
            elif v:
                p["v"] = v.strip('"')
        except ValueError:
            return None
        ps.append(p)
    return (proto[2].upper() if len(proto) > 2 else "UDP"), ps


BLANK = dict(tcp=False, multicast=False, interleaved=False, append=False, interleave=[0, 0], port=[0, 0], client_port=[0, 0],
             server_port=[0, 0], layers=0, ttl=0, destination="", source="", ssrc="", mode="PLAY")
HOSTS = ["10.0.0.1", "239.1.2.3", "camera.local", "[fe80::1]", "h=1", "UDP", "RTP-AVP", "mode"]


def pair(rng):
    a = rng.choice([1, 2, 5000, 65534, rng.randint(1, 65534)])
    return [a, rng.choice([a + 1, a + 1, rng.randint(0, 65535)])]


def rvalue(rng):
    t = dict(BLANK)
    t["tcp"] = t["interleaved"] = rng.random() < .5
    if t["interleaved"]:
        t["interleave"] = rng.choice([[0, 1], pair(rng)])
    t["multicast"] = not t["tcp"] and rng.random() < .6
    t["append"] = rng.random() < .3
    for n in ("port", "client_port", "server_port"):
        if rng.random() < .4:
            t[n] = pair(rng)
    if rng.random() < .4:
        t["layers"] = rng.randint(1, 9)
    if rng.random() < .4:
        t["ttl"] = rng.randint(1, 255)
    for n, vs in (("destination", HOSTS), ("source", HOSTS), ("ssrc", ["%08X" % rng.randrange(1 << 32)]), ("mode", ["RECORD", "PLAY"])):
        if rng.random() < .4:
            t[n] = rng.choice(vs)
    return t


def rheader(rng):
    v = rvalue(rng)
    h = dict(lower=rng.choice(["TCP", "UDP", ""]), params=[])
    names = ["append", "destination", "source", "ttl", "layers", "port", "client_port", "server_port", "ssrc", "mode", "x-weird", "RTP-Info"]
    names.append(rng.choice(["unicast", "multicast", "interleaved", "interleaved"]))
    rng.shuffle(names)
    for n in names[:rng.randint(1, len(names))]:
        p = dict(n=n)
        if n in PAIRS:
            p["v"] = pair(rng)
        elif n in NUMS:
            p["v"] = rng.randint(0, 300)
        elif n in ("source", "destination"):
            p["v"] = rng.choice(HOSTS)
        elif n == "ssrc":
            p["v"] = "%08x" % rng.randrange(1 << 32)
        elif n == "mode":
            p["v"] = rng.choice(["PLAY", "RECORD"])
        elif n == "x-weird":
            p["v"] = rng.choice(["port", "1-2", "ttl=3", "a/b/TCP"])
        if n in PAIRS + NUMS and rng.random() < .06:
            p.pop("v")
            p["bad"] = True
        if n == "destination" and rng.random() < .2:
            p.pop("v")
        h["params"].append(p)
    return h


def check_T01(c):
    b = c.build("vh-rtsp")
    gen = c.cases("TransportGen", "TransportGen.%d.cfg" % c.pick(2, 3), heap="6g")
    rng = random.Random(c.seed)
    cases = []
    for g in gen:
        if g["kind"] == "read":
            cases.append(dict(op="read", t=g["t"], value=render(g["h"], rng)))
        elif g["kind"] == "new":
            cases.append(dict(op="new", proto=g["t"]["proto"], i=g["t"]["i"]))
        else:
            cases.append(dict(op="write", t=g["t"]))
    for g, k, r in zip(gen, cases, c.execute(b, cases)):
        if "err" not in r:
            c.violation("%s: %s" % (k, str(r)[:200]), dict(case=k, result=r))
        elif g["kind"] == "read":
            if r["err"] != g["bad"] or (not g["bad"] and r["got"] != g["want"]):
                c.violation("reading %r: expected %s, got err=%s %s" % (k["value"], g.get("want", "an error"), r["err"], r["got"]), dict(case=k, want=g, result=r))
        else:
            want = {x: v for x, v in g["want"].items() if x in BLANK}
            tk = tokens(r["text"])
            key = lambda ps: sorted(json.dumps(p, sort_keys=True) for p in ps)
            if tk is None or (tk[0] == "TCP") != (g["lower"] == "TCP") or key(tk[1]) != key(g["carries"]):
                c.violation("written as %r: expected parameters %s" % (r["text"], g["carries"]), dict(case=k, want=g, result=r))
            elif r["err"] or r["back"] != want:
                c.violation("%r read back as %s, expected %s" % (r["text"], r["back"], want), dict(case=k, want=g, result=r))
    c.cov["behaviours_replayed"] = len(gen)
    c.sample(dict(generated=gen[len(gen) // 2]))
    n = c.pick(3000, 40000)
    cases = []
    for _ in range(n):
        k = c.rng.random()
        if k < .1:
            cases.append(dict(op="new", proto=c.rng.choice(["tcp", "http", "unicast", "multicast"]), i=c.rng.choice([c.rng.randint(0, 40), c.rng.randint(41, 127)])))
        elif k < .4:
            cases.append(dict(op="write", t=rvalue(c.rng)))
        else:
            h = rheader(c.rng)
            t = rvalue(c.rng)
            if h["lower"] == "" and t["tcp"]:
                h["lower"] = "UDP"
            cases.append(dict(op="read", t=t, h=h, value=render(h, c.rng)))
    beh = []
    for k, r in zip(cases, c.execute(b, cases)):
        if "err" not in r:
            c.violation("%s: %s" % (k, str(r)[:200]), dict(case=k, result=r))
            continue
        if k["op"] == "read":
            ln = dict(op="read", t=k["t"], h=k["h"], err=r["err"], got=r["got"])
        else:
            tk = tokens(r["text"]) or ("none", [])
            ln = dict(op=k["op"], lower=tk[0], params=tk[1], err=r["err"], back=r["back"], t=k.get("t", BLANK), proto=k.get("proto", ""), i=k.get("i", 0))
        beh.append((k, r, [ln]))

    def corrupt(l):
        if not l["err"]:
            (l["got"] if l["op"] == "read" else l["back"])["layers"] += 1
            return l
    for bi, li, info in c.validate("TransportTrace", "TransportTrace.cfg", [x[2] for x in beh], selftest=corrupt):
        k, r, _ = beh[bi]
        c.violation("%s %r gave %s" % (info, k.get("value", k.get("t", k)), json.dumps(r)), dict(case=k, result=r))
    c.sample(dict(recorded=beh[1][2]))
    c.assume += ["parameter names in lower case as RFC 2326 writes them; one transport per header",
                 "a single port or channel without the second number, and contradictory parameters (unicast with multicast), are left open"]
