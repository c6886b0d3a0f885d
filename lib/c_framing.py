"""M01: responses parsed as sent. S07: frames and responses on one stream."""
import json, re
import vlib
from c_session import Script, judge, ASSUME

# ---- M01 -----------------------------------------------------------------
WORDS = ["a", "b c", "x:y", "rtsp://h:554/a?b=c", "1;timeout=60", "\"q, r\"", "=", "é", "\xff", "0", "v" * 40, ",", "  in  side  ", "$"]
NAMES = ["Session", "session", "Public", "Date", "X-Y", "WWW-Authenticate", "www-authenticate", "Transport", "RTP-Info", "content-type", "Content-Base", "a", "Server", "X_1", "CACHE-CONTROL", "x.ext.name", "X-a1b.2c", "q!#%&'*+.^`|~z"]


def fold(n):
    return n.lower()


def rheader(rng, n, v):
    """One header line, possibly folded, with optional blanks."""
    if len(v) > 3 and rng.random() < .12 and v.strip() == v:
        w = v.split(" ", 1)
        if len(w) == 2 and w[0] and w[1].strip():
            v = w[0] + rng.choice(["\r\n ", "\r\n\t", " \r\n   "]) + w[1].strip()
    return n + rng.choice([":", ": ", ": ", ": ", " : ", ":\t"]) + v + rng.choice(["", "", "", " ", "\t "]) + "\r\n"


def rmessage(rng, big=(), odd=None):
    """A well-formed response."""
    code = rng.choice([200, 200, 401, 404, 100, 551, 999, 454, 0]) if rng.random() < .8 else rng.randint(100, 599)
    o = "RTSP/1.0 %03d %s\r\n" % (code, rng.choice(["OK", "Not Found", "", "No: colon", "a  b", "\xe9t\xe9", "200 OK"]))
    h = [("CSeq" if rng.random() < .6 else rng.choice(["cseq", "CSEQ", "Cseq"]), str(rng.choice([0, 1, 2, 9, 10, 65535, 65536, 999999999])))] if rng.random() < .9 else []
    for n in rng.sample(NAMES, rng.randint(0, 6)):
        if fold(n) not in [fold(x) for x, _ in h]:
            h.append((n, "".join(rng.choice(WORDS) for _ in range(rng.randint(0, 3)))))
    if odd == "headers":
        h += [("X-%s-%d" % (rng.choice("abcxyz"), i), str(i * i)) for i in range(rng.choice([17, 33, 65, 101, 130, 260]))]
    body = ""
    k = rng.random()
    if k < .55 or big:
        n = rng.choice([0, 1, 2, 3, 50, 300]) if not big else rng.choice(big)
        body = "".join(rng.choice(["v=0\r\n", "$\x00\x00\x04", "RTSP/1.0 200 OK\r\n\r\n", "\x00\xff", "abc", "\r\n\r\n"]) for _ in range(n // 3 + 1))[:n]
        h.append((rng.choice(["Content-Length", "Content-Length", "content-length", "CONTENT-LENGTH"]), str(n) if rng.random() < .9 else "%05d" % n))
    rng.shuffle(h)
    if odd == "folds":
        h.append(("X-Fold", "".join(rng.choice(["\r\n ", "\r\n\t"]) + "l%d" % i for i in range(rng.choice([5, 9, 20, 40])))))
    if odd == "long":
        h.append(("X-Long", "z" * rng.choice([8200, 20000])))
    elif rng.random() < .05:
        h.append(("X-Long", "z" * rng.choice([2000, 2048, 4100])))
    return o + "".join(rheader(rng, n, v) for n, v in h) + "\r\n" + body


BAD = ["RTSP/2.0 200 OK\r\n\r\n", "RTSP/1.1 200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "RTSP/1.0 20 OK\r\n\r\n", "RTSP/1.0 2000 OK\r\n\r\n", "RTSP/1.0 2x0 OK\r\n\r\n", "RTSP/1.0 -10 OK\r\n\r\n",
       "RTSP/1.0 +10 OK\r\n\r\n", "RTSP/1.0  \r\n\r\n", "garbage\r\n\r\n", "RTSP/1.0\r\n\r\n", "\x00\x01\r\n", "RTSP/1.0 200 OK\r\nnocolon\r\n\r\n", "RTSP/1.0 200 OK\r\nA: b\r\n: no name\r\n\r\n", "RTSP/1.0 200 OK\r\nA: b\r\nno colon at all\r\n\r\n",
       "RTSP/1.0 0x1 OK\r\n\r\n", "RTSP/1.0 2 00 OK\r\n\r\n", "XRTSP/1.0 200 OK\r\n\r\n", "RTSP/1.00 200 OK\r\n\r\n"]


def ambiguous(b):
    """Streams on which the property does not say what to make of them."""
    t = bytes(b).decode("latin-1")
    for head in re.split(r"\r\n\r\n", t):
        names, first = [], True
        for l in head.split("\r\n"):
            if l.startswith("RTSP/") or l in ("garbage",):
                names, first = [], True
                continue
            if l[:1] in " \t" and l.strip():
                if first or names and names[-1] == "content-length":
                    return True
                continue
            if ":" in l:
                n = l.split(":", 1)[0].strip().lower()
                if n in names:
                    return True
                names.append(n)
                first = False
    return False


def check_M01(c):
    b = c.build("vh-session")
    rng = c.rng
    gen = [g for g in c.cases("MessageGen", "MessageGen.%s.cfg" % c.pick("4", "5"), heap="8g") if not ambiguous(g["b"])]
    c.log("%d of them are decided by the property" % len(gen))
    n = c.pick(4000, 40000)
    gen = gen if len(gen) <= n else rng.sample(gen, n)
    c.cov["behaviours_replayed"] = len(gen)
    streams = [(bytes(g["b"]), g["msgs"], g["end"]) for g in gen]
    huge = dict(zip(range(1, 1000, 70), [32767, 32768, 65535, 65536, 65537, 70000, 98304, 131072, 200000, 40000, 50000, 60000][:c.pick(9, 12)]))
    for k in range(c.pick(1500, 12000)):
        ms = [rmessage(rng, odd={11: "headers", 12: "folds", 13: "long"}.get(k % 100) if i == 0 else None, big=(i == 0 and (k % 40 == 0 and [2047, 2048, 2049, 4096, 5000, 9000] or k in huge and [huge[k]]))) for i in range(rng.choice([1, 1, 2, 3, 5]))]
        t, end = "".join(ms), "clean"
        if rng.random() < .15:
            t, end = t + rng.choice(BAD), "error"
        elif rng.random() < .15:
            cut = rmessage(rng)
            cut = cut[:rng.randint(1, len(cut) - 1)]
            t, end = t + cut, "cut"
        streams.append((t.encode("latin-1"), len(ms), end))
    cases = []
    for k, (t, n, end) in enumerate(streams):
        ch, at = [], 0
        if k >= len(gen) or k % 4 == 0:
            cuts = sorted(set(rng.randrange(len(t) + 1) for _ in range(rng.choice([0, 0, 1, 2, 5])))) if len(t) else []
        else:
            cuts = []
        if rng.random() < .04 and len(t) < 200:
            cuts = list(range(len(t)))
        for z in cuts + [len(t)]:
            if z > at:
                ch.append(dict(b=t[at:z].decode("latin-1"), gap=rng.choice([0, 0, 1, 2]) if len(cuts) < 20 else 1))
                at = z
        tmo = 2000
        if ch and len(ch) < 8 and rng.random() < .25:      # pauses much longer than the read timeout
            tmo = 25
            for x in ch:
                x["gap"] = rng.choice([0, 1, 60, 90])
        cases.append(dict(op="unpack", chunks=ch, n=n + 1, timeout=tmo, close=end != "error"))
    res = c.execute_pool(b, cases, procs=8, par=32)
    beh, ix = [], []
    for k, ((t, n, end), r) in enumerate(zip(streams, res)):
        if "msgs" not in r:
            c.violation("%r: %s" % (t[:200], str(r)[:400]), dict(case=cases[k], result=r))
            continue
        ms = [dict(proto=m["proto"], status=list(m["status"].encode("latin-1")), code=m["code"], cseq=m["cseq"], length=m["length"],
                   headers=[dict(n=list(a.encode("latin-1")), v=list(v.encode("latin-1"))) for a, v in m["headers"]], body=list(m["body"].encode("latin-1"))) for m in r["msgs"]]
        beh.append([dict(b=list(t), msgs=ms, fail=r["fail"])])
        ix.append(k)

    def corrupt(l):
        if l["msgs"]:
            m = l["msgs"][-1]
            if m["body"]:
                m["body"][-1] ^= 1
            elif m["headers"]:
                m["headers"][0]["v"] += [65]
            else:
                m["code"] += 1
            return l
    for bi, li, info in c.validate("MessageTrace", "MessageTrace.cfg", beh, selftest=corrupt, label="streams", heap="3g"):
        k = ix[bi]
        c.violation("%s: stream %r was unpacked to %s" % (dict(count="wrong number of messages", content="wrong content", outcome="no error reported")[info], streams[k][0][:400], json.dumps(res[k])[:400]),
                    dict(case=cases[k], result=res[k]))
    c.sample(dict(stream=streams[-1][0].decode("latin-1")[:600], unpacked=res[-1]))
    c.assume += ["no header twice in one message, a number as Content-Length, CR LF as line end; blank-only continuation lines do not occur"]


# ---- M02 -----------------------------------------------------------------
def latin(x):
    return list(x.encode("latin-1"))


TOKEN = "abcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~--..__"


def hnames(rng):
    """A few names, so that operations meet."""
    return [rng.choice(NAMES + ["CSeq", "Content-Length", "x-very-long-header-name-0123456789", "ETag", "1a"]) if rng.random() < .5 else
            "".join(rng.choice(TOKEN) for _ in range(rng.choice([1, 2, 5, 9, 20]))) for _ in range(rng.choice([1, 2, 3, 6]))]


def hname(rng, pool):
    n = rng.choice(pool)
    return "".join(ch.upper() if rng.random() < .5 else ch.lower() for ch in n) if rng.random() < .6 else n


def check_M02(c):
    b = c.build("vh-session")
    rng = c.rng
    gen = [g for g in c.cases("MessageGen", "MessageGen.%s.cfg" % c.pick("4", "5"), heap="8g") if g["msgs"] and g["end"] == "clean" and not ambiguous(g["b"])]
    n = c.pick(1500, 12000)
    gen = gen if len(gen) <= n else rng.sample(gen, n)
    hist = c.cases("HeaderGen", "HeaderGen.%d.cfg" % c.pick(3, 4), heap="6g")
    hist = hist if len(hist) <= 6000 else rng.sample(hist, 6000)
    c.cov["behaviours_replayed"] = len(gen) + len(hist)
    cases = [dict(op="repack", b=bytes(g["b"]).decode("latin-1"), n=g["msgs"]) for g in gen]
    huge = [32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000]
    for k in range(c.pick(1500, 12000)):
        ms = [rmessage(rng, odd={11: "headers", 12: "folds", 13: "long"}.get(k % 100) if i == 0 else None, big=[2047, 2048, 2049, 4096, 5000, 9000] if k % 40 == 0 and not i else [huge[k // 100]] if k % 100 == 1 and k < 800 and not i else ()) for i in range(rng.choice([1, 1, 2, 3, 6]))]
        cases.append(dict(op="repack", b="".join(ms), n=len(ms)))
    for g in hist:
        cases.append(dict(op="header", ops=[dict(op=o["op"], n=bytes(o["n"]).decode(), v=o["v"]) for o in g["ops"]]))
    for _ in range(c.pick(600, 5000)):
        pool = hnames(rng)
        cases.append(dict(op="header", ops=[dict(op=rng.choice(["set", "set", "get", "get", "del"]), n=hname(rng, pool), v=rng.choice(["", "x", "a, b", "0", " y", "é"])) for _ in range(rng.randint(1, 40))]))
    for k in cases:
        for o in k.get("ops", ()):
            if o["op"] != "set":
                o["v"] = ""
    beh, ix = [], []
    for k, r in zip(cases, c.execute_pool(b, cases, procs=8, par=32)):
        if k["op"] == "header":
            if "outs" not in r or r["none"] != "":
                c.violation("%s: %s" % (str(k)[:200], str(r)[:400]), dict(case=k, result=r))
                continue
            ln = dict(k="header", ops=[dict(o, n=latin(o["n"])) for o in k["ops"]], outs=r["outs"], size=r["size"])
        else:
            if "packed" not in r:
                c.violation("%r: %s" % (k["b"][:200], str(r)[:400]), dict(case=k, result=r))
                continue
            ms = [dict(proto=m["proto"], status=latin(m["status"]), code=m["code"], cseq=m["cseq"], length=m["length"],
                       headers=[dict(n=latin(a), v=latin(v)) for a, v in m["headers"]], body=latin(m["body"])) for m in r["msgs"]]
            ln = dict(k="repack", b=latin(k["b"]), packed=latin(r["packed"]), size2=r["size2"], msgs=ms)
        beh.append([ln])
        ix.append((k, r))

    def corrupt(l):
        if l["k"] == "repack" and l["packed"]:
            l["packed"] += [13, 10]
            return l
    what = dict(framing="packed responses do not follow one another", packed="the packed response says something else", again="packing changed the response",
                unpacked="unpacking the packed response gives another one", header="the header map answers differently")
    for bi, li, info in c.validate("RepackTrace", "RepackTrace.cfg", beh, selftest=corrupt, label="repack", heap="3g"):
        k, r = ix[bi]
        c.violation("%s: %s gave %s" % (what[info], json.dumps(k)[:400], json.dumps(r)[:400]), dict(case=k, result=r))
    c.sample(dict(stream=cases[len(gen)]["b"][:400], packed=ix[len(gen)][1].get("packed", "")[:400] if ix[len(gen)][0]["op"] == "repack" else ""))
    c.sample(dict(header=cases[-1]))
    c.assume += ["responses that Unpack produced; header names are tokens"]


# ---- M03 -----------------------------------------------------------------
RESERVED = ("cseq", "session", "authorization", "user-agent", "content-length")


def check_M03(c):
    b = c.build("vh-session")
    rng = c.rng
    cases = []
    for g in c.cases("PackedGen", "PackedGen.%d.cfg" % c.pick(1, 2)):
        t = lambda x: bytes(x).decode("latin-1")
        cases.append(dict(op="pack", verb=t(g["verb"]), uri=t(g["uri"]), cseq=g["cseq"], session=t(g["session"]), auth=t(g["auth"]), hdrs=[[t(h["n"]), t(h["v"])] for h in g["hdrs"]]))
    c.cov["behaviours_replayed"] = len(cases)
    for k in range(c.pick(2500, 20000)):
        hs = {}
        for n in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 12, 30] if k % 100 else [70, 130, 260])):
            n = hname(rng, hnames(rng))
            if n.lower() not in RESERVED and n.lower() not in hs:
                hs[n.lower()] = (n, rng.choice(["", "x", "npt=0.000-", "RTP/AVP/TCP;unicast;interleaved=0-1", "a: b", "é", "x" * rng.choice([10, 300, 5000 if k % 50 == 0 else 40]), " a ", "0"]))
        cases.append(dict(op="pack", verb=rng.choice(["OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN", "GET_PARAMETER", "SET_PARAMETER", "ANNOUNCE", "RECORD", "REDIRECT"]),
                          uri=rng.choice(["*", "rtsp://h/", "rtsp://[::1]:8554/a?b=c&d", "rtsp://h:554/" + "y" * rng.randint(0, 200), "rtsp://h:1/%41%zz", "a"]),
                          cseq=rng.choice([0, 1, 9, 10, 99, 100, 65535, 65536, 999999, 1000000, 2147483647, rng.randint(0, 2 ** 31 - 1)]),
                          session=rng.choice(["", "12345678", "a-B_c.d+e$", "x" * 64]), auth=rng.choice(["", "Basic dXNlcjpwdw==", 'Digest username="u", realm="a, b=c", nonce="n%d", uri="rtsp://h/", response="00"' % k]),
                          hdrs=[list(x) for x in hs.values()] if hs or rng.random() < .5 else None))
    beh, ix = [], []
    for k, r in zip(cases, c.execute_pool(b, cases, procs=8, par=32)):
        if "b" not in r or not r["kept"]:
            c.violation("%s: %s" % (json.dumps(k)[:300], str(r)[:400]), dict(case=k, result=r))
            continue
        beh.append([dict(r=dict(verb=latin(k["verb"]), uri=latin(k["uri"]), cseq=k["cseq"], session=latin(k["session"]), auth=latin(k["auth"]), hdrs=[dict(n=latin(n), v=latin(v)) for n, v in k["hdrs"] or []]),
                         b=latin(r["b"]), again=latin(r["again"]))])
        ix.append((k, r))

    def corrupt(l):
        l["r"]["cseq"] ^= 1
        return l
    for bi, li, info in c.validate("PackedTrace", "PackedTrace.cfg", beh, selftest=corrupt, label="packed"):
        k, r = ix[bi]
        c.violation("wrong %s: %s was packed to %r" % (info, json.dumps(k)[:400], r["b"][:600]), dict(case=k, result=r))
    c.sample(dict(request=cases[-1], packed=ix[-1][1]["b"][:400] if ix else ""))
    c.assume += ["header names are tokens and not among %s; no line ends in any text" % ", ".join(RESERVED)]


# ---- S07 -----------------------------------------------------------------
VERBS = ["PLAY", "PAUSE"]


def place(items, p, rng):
    """Where symbol position p lies in the real items (see Framing.tla)."""
    size = dict(F0=4, F1=5, F3=7, R0=5, R3=8)
    i = 0
    while p >= size[items[i]]:
        p -= size[items[i]]
        i += 1
        if p == 0:
            return dict(i=i - 1, part="z")
    if items[i][0] == "F":
        return dict(i=i, part="h", arg=p) if p <= 4 else dict(i=i, part="p", arg=1000 * (p - 4) // 3)
    if p == 1:
        return dict(i=i, part="s", arg=rng.choice([20, 300, 700, 1000]))
    if p == 2:
        return dict(i=i, part="e", arg=rng.choice([1, 2]))
    if p == 3:
        return dict(i=i, part="m", arg=rng.choice([100, 500, 900, 1000]))
    if p == 4:
        return dict(i=i, part="n", arg=rng.choice([1, 2, 3]))
    if p == 5:
        return dict(i=i, part="n", arg=4)
    return dict(i=i, part="b", arg=1000 * (p - 5) // 3)


def size(k, rng, big):
    if k == "F0":
        return 0
    if k == "F1":
        return rng.choice([1, 1, 2, 3])
    return rng.choice([3, 8, 100, 255, 256, 257, 1400, 2043, 2044, 2045, 2048, 4096] + ([20000, 32768, 65535] if big else []))


def emit(s, items, rng, last, big=True):
    """The items in one go; last: how the write is cut."""
    v = 0
    for k in [k for k in items if k[0] == "R"]:
        s.add("cmd", verb=rng.choice(VERBS))
    if any(k[0] == "R" for k in items):
        s.sync()
    for j, k in enumerate(items):
        kw = last if j == len(items) - 1 else dict(hold=True)
        if k[0] == "F":
            s.frame(size(k, rng, big), **kw)
        else:
            n = len(s.steps)
            s.answer(0, rng.choice([200, 200, 454]), **kw)
            if k == "R3":
                s.steps[n]["body"] = "".join(rng.choice(["abc", "$\x00\x00\x02", "\r\n", "RTSP/1.0 200 OK\r\n\r\n"]) for _ in range(rng.randint(1, 6))) + "xyz"
                s.steps[n].pop("per", None)
                s.steps[n]["hdrs"] = s.steps[n]["hdrs"] + [["Content-Type", "text/parameters"]]
            elif rng.random() < .5:
                s.steps[n].pop("per", None)
    s.sync()


def check_S07(c):
    rng = c.rng
    gen = c.cases("Framing", "Framing.%s.cfg" % c.pick("q", "t"), heap="8g")
    n = c.pick(1500, 9000)
    gen = gen if len(gen) <= n else rng.sample(gen, n)
    if c.thorough:
        g3 = c.cases("Framing", "Framing.u.cfg", heap="8g")
        gen += rng.sample(g3, 3000)
    c.cov["behaviours_replayed"] = len(gen)
    sc = []
    # several behaviours of the generator in one session
    quietc = [g for g in gen if not any(x["pause"] for x in g["cuts"])]
    paused = [g for g in gen if any(x["pause"] for x in g["cuts"])]
    for group, per in ((quietc, 6), (paused, 1)):
        for k in range(0, len(group), per):
            s = Script(rng, 1).open()
            for g in group[k:k + per]:
                at = [dict(place(g["items"], x["at"], rng), gap=2250 if x["pause"] else 3) for x in g["cuts"]]
                emit(s, g["items"], rng, dict(at=at), big=rng.random() < .1)
            sc.append(s)
    kinds = ["F0", "F1", "F3", "F3", "F3", "R0", "R3"]
    for _ in range(c.pick(250, 2500)):      # long random streams, cut anywhere
        s = Script(rng, rng.randint(1, 2)).open()
        for _ in range(rng.randint(1, 4)):
            items = [rng.choice(kinds) for _ in range(rng.choice([1, 3, 8, 30]))]
            cuts = [rng.randrange(1, 70000) if rng.random() < .5 else rng.randrange(1, 40) for _ in range(rng.choice([0, 1, 3, 12]))]
            gaps = [rng.choice([0, 0, 1, 5] + [2300] * (len(cuts) < 4 and rng.random() < .2)) for _ in cuts]
            emit(s, items, rng, dict(cuts=cuts, gaps=gaps))
        sc.append(s)
    for _ in range(c.pick(40, 300)):        # a user who does not read for a while
        s = Script(rng, 1).open()
        s.add(rng.choice(["holddata", "holddata", "hold"]))
        for _ in range(rng.choice([15, 19, 20, 21, 22, 40, 70])):
            s.frame(rng.choice([0, 1, 5, 200, 1400]), hold=rng.random() < .7)
        s.frame(10)
        s.add("sleep", ms=rng.choice([5, 100, 2300])).add("release").sync()
        emit(s, ["R0", "F1", "R3", "F3"], rng, {})
        sc.append(s)
    for ln in [0, 1, 2, 3, 4, 254, 255, 256, 257, 2040, 2043, 2044, 2045, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 65531, 65534, 65535]:
        s = Script(rng, 1).open()
        s.frame(ln, cuts=[1, 3, 5, 1000, 60000], gap=2).sync()
        for _ in range(3):
            s.frame(ln, hold=True)
        s.frame(1)
        s.sync()
        sc.append(s)

    def corrupt(t):
        for i, e in enumerate(t["ev"]):
            if e["e"] == "dat":
                del t["ev"][i]
                return t
    judge(c, sc, [], procs=8, par=120, selftest=corrupt)
    c.assume += ASSUME
