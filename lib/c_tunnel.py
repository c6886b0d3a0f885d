"""S13: RTSP over HTTP."""
import base64, json, re
import vlib
import c_session
from c_session import Script, generate, gencfg, from_generator, randomsession, concurrent, judge, quote, trace, corrupt, CFG, ASSUME

GOOD = ["HTTP/1.0 200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n", "HTTP/1.0 200\r\n\r\n",
        "HTTP/1.0 200 OK\r\nServer: x\r\nConnection: close\r\nDate: Thu, 19 Aug 1982 18:30:00 GMT\r\nCache-Control: no-store\r\nPragma: no-cache\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n",
        "HTTP/1.1 200 OK\r\nX:\r\nY: %s\r\n\r\n" % ("z" * 3000),
        "HTTP/1.1 200 OK\r\n" + "".join("X-%d: %d\r\n" % (i, i) for i in range(140)) + "\r\n"]


def tunnel(s, rng):
    """Make a session one over HTTP."""
    s.proto = 3
    s.extra["get"] = rng.choice(GOOD)
    if rng.random() < .5:
        n = len(s.extra["get"])
        s.extra["cuts"] = sorted(rng.randint(1, n + 8) for _ in range(rng.randint(1, 4)))
    if rng.random() < .4:
        s.extra["tail"] = dict(ch=rng.randint(0, 3), len=rng.choice([0, 1, 10, 1500]), id=rng.randint(1, 10 ** 6))
    return s


def secrets(s):
    if not s.creds:
        return []
    x = [y for y in (s.user, s.pw) if len(y) > 4]
    return [list(y.encode("utf-8")) for y in x + [quote(y) for y in x] + [base64.b64encode(("%s:%s" % (s.user, s.pw)).encode()).decode()]]


def heads(s, r):
    ev = [dict(e="begin")]
    n = 0
    for e in r["log"]:
        if e["e"] == "http":
            ev.append(dict(e="http", b=list(e["raw"].encode("latin-1")), secrets=secrets(s)))
        elif e["e"] == "req":
            n += 1
    return ev + [dict(e="end", reqs=n)]


def check_S13(c):
    """Tunnelled sessions."""
    rng = c.rng
    b = c.build("vh-session")
    # ---- sessions as over TCP
    sc = []
    gen = generate(c, gencfg(Verbs=["PLAY", "TEARDOWN"], Codes=[200, 404], Chs=["d1", "basic"], Strays=["unknown"], Ends=["eof", "raw"], MaxChs=1, MaxFails=1, MaxStrays=1, MaxCmds=2, MaxUn=2, Feeds=1), c.pick(500, 5000))
    sc += [from_generator(g, rng, 1, True) for g in gen]
    sc += [randomsession(rng, chs=2, frames=.4, batch=.5, strays=.1, ids=.2) for _ in range(c.pick(150, 1500))]
    sc += [randomsession(rng, cmds=c.rng.choice([200, 260]), chs=3, provs=0, early=0) for _ in range(c.pick(2, 10))]      # more than a POST declares
    for s in sc:
        if rng.random() < .3:      # long requests, to the places where an encoder may break them
            s.path = "/" + "p" * rng.choice([rng.randint(1, 60), rng.randint(600, 800), rng.randint(1000, 3000)])
        if rng.random() < .2:
            s.user, s.pw = rng.choice([("uSeR7q", "pAsS9z"), ("uS eR/7q", "pA:s@S9z")])
    for s in sc:
        tunnel(s, rng)
    judge(c, sc, ["auth", "sess"], b, label="tunnel")
    con = [tunnel(concurrent(rng, rng.randint(2, 5), rng.randint(2, 5), rng.choice([0, 1, 3]), rng.choice([0, .3])), rng) for _ in range(c.pick(50, 500))]
    judge(c, con, ["auth", "sess"], b, label="tunnel-concurrent", procs=8, par=2)
    # ---- the heads, on some of these
    some = sc[:c.pick(160, 1200)] + con[:20]
    res = c.execute_pool(b, [dict(s.case(), steps=s.case()["steps"][:8]) for s in some])
    beh, who = [], []
    for s, r in zip(some, res):
        if "log" in r and "open" not in r:
            beh.append(heads(s, r))
            who.append(s)
        elif "skip" not in r:
            c.violation("session failed: %s" % str(r)[:400], dict(case=s.case(), result=r))
    # ---- the cookies, whichever process opened the tunnels
    own = []
    for x in beh:
        for e in x:
            m = e["e"] == "http" and re.match(rb"GET .*?\r\nx-sessioncookie:([^\r]*)", bytes(e["b"]), re.S | re.I)
            if m:
                own.append(dict(e="tunnel", c=m.group(1).decode("latin-1").strip()))
    c.cov["tunnels"] = len(own)
    beh.append(own)
    who.append(some[0])
    # ---- answers to the GET
    cases, info = [], []
    gen = c.cases("TunnelGen", "TunnelGen.%d.cfg" % c.pick(4, 6))
    by = {}
    for g in gen:
        by.setdefault(g["class"], []).append(g)
    for k, n in (("ok", c.pick(200, 3000)), ("bad", c.pick(500, 6000)), ("cut", c.pick(150, 3000))):
        for g in rng.sample(by[k], min(n, len(by[k]))):
            cases.append(g["b"])
    for _ in range(c.pick(150, 2000)):      # damaged and lengthened ones
        t = rng.choice(GOOD)
        k = rng.random()
        if k < .3:
            t = t[:rng.randint(0, len(t))]
        elif k < .7:
            i = rng.randrange(len(t) if len(t) < 500 else 60)
            t = t[:i] + rng.choice(["", " ", "x", "\r\n", "\x00", "\xff", "4", ":"]) + t[i + rng.randint(0, 1):]
        cases.append(list(t.encode("latin-1")))
    js = []
    for x in cases:
        s = Script(rng, 1, True, proto=3)
        s.extra.update(get=bytes(x).decode("latin-1"), end=True)
        if rng.random() < .4:
            s.extra["cuts"] = sorted(rng.randint(1, len(x) + 1) for _ in range(rng.randint(1, 4)))
        s.add("sleep", ms=5)
        js.append(s)
    res = c.execute_pool(b, [s.case() for s in js])
    for s, x, r in zip(js, cases, res):
        if "skip" in r:
            continue
        if "log" not in r:
            c.violation("opening failed: %s" % str(r)[:400], dict(case=s.case(), result=r))
            continue
        beh.append([dict(e="begin"), dict(e="open", b=x, ok="open" not in r)])
        who.append(s)

    def spoil(l):
        if l["e"] == "http":
            i = rng.randint(0, 2)
            if i == 0:
                l["b"] = l["b"][:-2]
            elif i == 1:
                l["b"] = list(bytes(l["b"]).replace(b"cookie: ", b"cookie: 0" if l["b"][0] == 71 else b"cookie: 1"))
            else:
                l["b"] = list(bytes(l["b"]).replace(b"cookie", b"kookie"))
        elif l["e"] == "tunnel":
            l["c"] = own[0]["c"]
        elif l["e"] == "open":
            l["ok"] = not l["ok"]
        return l
    for bi, li, what in c.validate("TunnelTrace", "TunnelTrace.cfg", beh, selftest=spoil, label="heads"):
        c.violation("%s: %s" % (what, repr(bytes(beh[bi][li].get("b", [])).decode("latin-1")[:500] or beh[bi][li])), dict(case=who[bi].case(), line=beh[bi][li]))
    c.cov["get_answers"] = len(cases)
    c.sample(dict(get=bytes(cases[0]).decode("latin-1")))
    c.assume += ASSUME + ["answers other than 200 within 2xx, folded header lines and bare LF in the answer to the GET are not judged"]
