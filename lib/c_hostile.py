"""X01: damaged and hostile input at every parser and on live sessions."""
import base64, json
import c_nal, c_psets, c_rtp, c_sdp, c_transport, c_digest, c_framing, c_tunnel
from c_session import Script, PARTIAL, GARBAGE, chtext

DONE = 4


def b64(x):
    return base64.b64encode(bytes(x)).decode()


def lat(s):
    return list(s.encode("latin-1", "replace"))


def apply(b, e):
    """Hostile.tla's Apply on real octets."""
    if e["op"] == "flip":
        k = len(b) // 2
        return b[k:] + b[:k]
    k = e["q"] * len(b) // 4
    if e["op"] == "cut":
        return b[:k]
    if e["op"] == "set":
        return b[:k] + [e["v"]] + b[k + 1:]
    if e["op"] == "ins":
        return b[:k] + [e["v"]] * e["n"] + b[k:]
    if e["op"] == "del":
        return b[:k] + b[k + e["n"]:]
    return b + b[k:]


def fine(rng, x, text):
    """An edit at any octet, not only at a quarter."""
    x = list(x)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randint(0, len(x)) if rng.random() < .7 else rng.randint(0, min(len(x), 6))
        c = rng.randrange(7)
        tok = lat(rng.choice(["=", ";", ",", "\"", "-", ":", "/", " ", "\r\n", "\n", "0", "-1", "99999999999999999999", "4294967296", "2147483648", "\x00", "\xff", "%", "a=", "m=", "a=fmtp:", "Digest ", "="]) if text else
                  rng.choice(["\x00", "\x00\x00\x01", "\x00\x00\x03", "\xff", "\xff\xff", "\x00\x00", "\x80", "\x01", "\x00\x00\x00\x00\x00\x00\x00\x00", "\x7f\xff\xff\xff"]))
        if c == 0:
            x = x[:k]
        elif c == 1 and k < len(x):
            x[k] = rng.choice([0, 1, 127, 128, 255, x[k] ^ (1 << rng.randrange(8)), rng.randrange(256)])
        elif c == 2:
            x[k:k] = tok
        elif c == 3:
            x[k:k + len(tok)] = tok
        elif c == 4:
            del x[k:k + rng.choice([1, 1, 2, 4, 20])]
        elif c == 5:
            z = x[rng.randint(0, len(x)):][:rng.choice([1, 4, 40])]
            x[k:k] = z * rng.choice([1, 2, 30])
        else:
            x[k:k] = [rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 50]))]
    return x


def corpus(p, rng, n):
    """Well-formed inputs: (how, octets)."""
    out = []
    chroma = {3: 1}
    while len(out) < n:
        if p == "rtp":
            out.append(("", c_rtp.rand_rtp(rng)))
        elif p == "rtcp":
            c = rng.randrange(32)
            out.append(("", [128 | c, rng.choice([200, 200, 201, 202, 203, 204])] + c_nal.be16(rng.choice([1, 6, 12])) + [rng.randrange(256) for _ in range(rng.choice([4, 24, 48, 60]))]))
        elif p == "sink":
            out += [("", x) for x, _ in c_nal.stream(rng, rng.choice(["content", "fragment", "number"]))]
        elif p == "media":
            out += [("", [128, 96] + c_nal.be16(k) + [0, 0, 0, 9, 1, 2, 3, 4] + x) for k, (x, _) in enumerate(c_nal.stream(rng, rng.choice(["content", "fragment"])))]
        elif p in ("split", "unesc", "esc"):
            b = []
            for _ in range(rng.randint(1, 4)):
                b += rng.choice([[0, 0, 1], [0, 0, 0, 1]]) + c_nal.nal(rng)
            out.append(("", b))
        elif p == "bits":
            out.append(("".join(chr(rng.randrange(32, 120)) for _ in range(rng.choice([3, 10, 40]))), [rng.choice([0, 0, 1, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 5, 30]))]))
        elif p == "psets":
            s = c_psets.esc([0x67] + c_psets.sps(rng, 3, chroma))
            q = c_psets.esc([0x68] + c_psets.pps(rng, 5, 3, chroma)[0])
            out += [("sps", s[1:]), ("pps", q[1:]), ("sprop", s), ("sprop", q)]
        elif p in ("sdp", "feeds"):
            out.append(("", lat(c_sdp.text(c_sdp.describe(rng), rng))))
        elif p == "transport":
            out.append(("", lat(c_transport.render(c_transport.rheader(rng), rng))))
        elif p == "pair":
            out.append(("", lat("%d-%d" % tuple(c_transport.pair(rng)))))
        elif p == "challenge":
            out.append(("", lat(c_digest.render(c_digest.rchallenge(rng), rng))))
        elif p == "unpack":
            out.append(("", lat("".join(c_framing.rmessage(rng) for _ in range(rng.randint(1, 3))))))
        elif p == "http":
            out.append(("", lat(rng.choice(c_tunnel.GOOD) + rng.choice(["", "$\x00\x00\x01x"]))))
    return out[:n]


TEXT = {"sdp", "feeds", "transport", "pair", "challenge", "unpack", "http"}
PARSERS = ["rtp", "rtcp", "sink", "media", "split", "unesc", "esc", "bits", "psets", "sdp", "feeds", "transport", "pair", "challenge", "unpack", "http"]
# What a parser is given in quantity.
BULK = {"sdp": ["m=video 0 RTP/AVP 96\r\n", "a=rtpmap:96 H264/90000\r\n", "a=fmtp:96 ", ";", "=", ",", "a", "\n", "a=control:", "sprop-parameter-sets=Z0,", "m=\n", "a=fmtp:96 sprop-parameter-sets=" + "A" * 40 + "\n"],
        "transport": [";", "RTP/AVP;", "=", "interleaved=0-1;", "-", "\"", "9", "/"], "pair": ["-", "9", "1-", "x"],
        "challenge": ["Digest ", ",", "=", "\"", "realm=\"\",", "a=b,", "x", " ", "qop=\"auth,\",", "\\"],
        "unpack": ["RTSP/1.0 200 OK\r\n\r\n", "RTSP/1.0 200 OK\r\n", "\r\n", "a", "A: b\r\n", " x\r\n", ":", "$", "\x00", "RTSP/1.0 200 OK\r\nContent-Length: 1\r\n\r\n"],
        "http": ["HTTP/1.0 200 OK\r\n", "A: b\r\n", "x", "\r\n", ":"],
        "": ["\x00", "\xff", "\x00\x00\x01", "\x00\x00\x00\x01", "\x00\x00\x03", "\x00\x01", "\x80", "\x01", "\x55", "\x00\x00\x02", "\x7f\xff"]}
HEADS = {"unpack": ["RTSP/1.0 200 OK\r\nCSeq: 1\r\n", "RTSP/1.0 200 OK\r\nContent-Length: 9\r\nX:"], "challenge": ["Digest ", "Digest realm=\"", "Basic "], "transport": ["RTP/AVP/TCP;", "RTP/AVP;interleaved="],
         "sdp": ["", "m=video 0 RTP/AVP 96\r\na=fmtp:96 "], "http": ["HTTP/1.0 200 OK\r\n"], "sink": ["\x18", "\x19\x00\x01", "\x1a\x00\x01", "\x1b\x00\x01", "\x1c\x85", "\x1c\x05", "\x1d\x85\x00\x01", "\x65"],
         "psets": ["", "\x64\x00\x1f", "\x67\x64\x00\x1f"], "rtp": ["\x80", "\x9f", "\xa0"], "rtcp": ["\x80\xc8"]}
SPECIAL = {"unpack": ["RTSP/1.0 200 OK\r\nContent-Length: %s\r\n\r\nabc" % n for n in ("2147483648", "1099511627776", "9223372036854775807", "9223372036854775808", "-1", "-9223372036854775808", "4294967297", "1000000000", "99999999999999999999", "0x10", "1e9", " 5 ", "+3")] +
                     ["RTSP/1.0 -12 OK\r\n\r\n", "RTSP/1.0  \r\n\r\n", "RTSP/1.0 \r\n\r\n", "RTSP/1.0 200 OK\r\n: x\r\n\r\n", "RTSP/1.0 200 OK\r\n:\r\n\r\n", "RTSP/1.0 200 OK\r\n x\r\n\r\n", "\r\n", "\n", " \r\n\r\n", "", "RTSP/1.0 200\n\n", "\n\n\n", "RTSP/1.0 200 OK\r\nA:b\n\r\n"],
           "challenge": ["", " ", "Digest", "Basic", "Digest ", "Digest realm", "Digest realm=", "Digest realm=\"", "Digest =", "Digest ,", "Digest =\"x\"", "digest nonce=\"\"", "Digest realm=\"a", "\"", "Digest realm=\"\"x", "Digest qop=auth", "Digest qop=\"\",nonce=\"\"", "Digest qop=\",\"", "=", "Digest algorithm=", "\x00", "Basic realm", "Digest\trealm=a", "Digest realm=a\"b\"c"],
           "transport": ["", ";", "RTP", "RTP/", "RTP/AVP", "RTP/AVP/", "//", "RTP/AVP;", "RTP/AVP;;", "RTP/AVP;=", "RTP/AVP;interleaved", "RTP/AVP;interleaved=", "RTP/AVP;interleaved=-", "RTP/AVP;interleaved=-1", "RTP/AVP;interleaved=1-", "RTP/AVP;ssrc", "RTP/AVP;mode=\"", "RTP/AVP;mode=\"\"", "RTP/AVP;mode=", "RTP/AVP;ttl=-5", "RTP/AVP;client_port=99999999999999999999-1", "RTP/AVP;port=--", "/;/", "RTP/AVP;mode=\"PLAY", ";mode"],
           "pair": ["", "-", "--", "1-", "-1", "1-2-3", "99999999999999999999-1", "1-99999999999999999999", " 1-2", "\x00"],
           "sdp": ["", "\n", "m=", "m=video", "m=video ", "m=video 0", "m=video 0 RTP/AVP", "m=video 0 RTP/AVP ", "m=video 0 RTP/AVP x", "m=video 0 RTP/AVP 96", "m=video  0  RTP/AVP  96", "a=", "a=control", "a=rtpmap", "a=fmtp", "a=fmtp:96", "=", "m", "a", "a=rtpmap:96 H264/90000"] +
                  ["m=video 0 RTP/AVP 96\r\n" + x for x in ("a=", "a=rtpmap", "a=rtpmap:", "a=rtpmap:96", "a=rtpmap:96 ", "a=rtpmap:96 H264", "a=rtpmap:96 H264/", "a=rtpmap:96 H264/x", "a=rtpmap:96 H264/-1", "a=rtpmap:96 H264/99999999999999999999", "a=rtpmap:96 /", "a=rtpmap:96 //", "a=fmtp", "a=fmtp:",
                   "a=fmtp:96", "a=fmtp:96 ", "a=fmtp:96 ;", "a=fmtp:96 =", "a=fmtp:96 sprop-parameter-sets", "a=fmtp:96 sprop-parameter-sets=", "a=fmtp:96 sprop-parameter-sets=,", "a=fmtp:96 sprop-parameter-sets=Z", "a=fmtp:96 sprop-parameter-sets=!!!", "a=fmtp:96 sprop-parameter-sets=Zw==", "a=fmtp:96 sprop-parameter-sets=Z0I=,aA==,", "a=fmtp:96 config", "a=fmtp:96 config=", "a=fmtp:96 config=1",
                   "a=fmtp:96 config=zz", "a=fmtp:96 sizelength=", "a=fmtp:96 sizelength=x", "a=fmtp:96 sizelength=-1", "a=fmtp:96 indexlength", "a=control", "a=control:", "b", "=", "a=control:\x00", "\x00")],
           "http": ["", "HTTP/1.0", "HTTP/1.0 ", "HTTP/1.0 2", "HTTP/1.0 200", "HTTP/1.0 200 OK\r\n", "HTTP/1.0 200 OK\r\n\r", "HTTP/1.0 200 OK\r\nx\r\n\r\n", "HTTP/1.0 200 OK\r\n:\r\n\r\n", " \r\n", "\r\n", "HTTP/1.0 -20 X\r\n\r\n", "HTTP/1.0  \r\n\r\n", "HTTP/1.0 401 No\r\n\r\n"]}
SPECIAL["feeds"] = SPECIAL["sdp"]
for _d in (BULK, HEADS):
    _d["feeds"] = _d["sdp"]


def probes(p, rng):
    """Well-formed inputs that do not lean on what came before."""
    if p == "sink":
        return [("", x) for x in ([0x65, 1, 2, 3], [0x7c, 0x85, 9, 8], [0x7c, 0x05, 7], [0x7c, 0x45, 6, 5], [0x78, 0, 2, 0x67, 1, 0, 3, 0x68, 2, 3], [0x41, 0])]
    if p == "media":
        return [("", [128, 96] + c_nal.be16(k) + [0, 0, 0, 9, 1, 2, 3, 4] + x) for k, (_, x) in enumerate(probes("sink", rng))]
    if p == "psets":
        import random
        r = random.Random(7)
        ch = {}
        s = c_psets.esc([0x67] + c_psets.sps(r, 3, ch))
        q = c_psets.esc([0x68] + c_psets.pps(r, 5, 3, ch)[0])
        return [("sprop", s), ("sprop", q), ("sps", s[1:]), ("pps", q[1:])]
    if p in ("unpack", "http"):
        return []
    return corpus(p, rng, 2)


def attack(c, p, edits):
    """Cases for one parser."""
    rng = c.rng
    text = p in TEXT
    n = c.pick(700, 9000)
    if p in ("unpack", "http"):
        n = c.pick(700, 4000)
    good = corpus(p, rng, max(40, n // 10))
    bad = []
    singles = [e for e in edits if len(e) == 1]
    for e in singles + rng.sample(edits, min(n, len(edits))):
        how, b = rng.choice(good)
        for x in e:
            b = apply(b, x)
        bad.append((how, b))
    for _ in range(2 * n):
        how, b = rng.choice(good)
        bad.append((how, fine(rng, b, text)))
    for how, b in good[:c.pick(8, 40)]:          # cut everywhere
        for k in range(0, len(b), 1 + len(b) // 120):
            bad.append((how, b[:k]))
    for _ in range(n // 4):
        how, b = rng.choice(good)
        bad.append((how, [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 8, 12, 13, 30, 200]))]))
    if not text:                                  # everything short
        hows = sorted(set(h for h, _ in good[:8]))[:4]
        for h in hows:
            bad += [(h, [x]) for x in range(256)] + [(h, [])]
            bad += [(h, [x] + t) for x in (range(256) if p in ("sink", "rtp", "rtcp") else rng.sample(range(256), 30))
                    for t in ([0], [255], [0, 0], [255, 255], [0, 1, 2], [0, 0, 0], [0, 1, 0x65], [0x80, 0, 0], [0xc5, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0])]
    bad += [("", lat(x)) for x in SPECIAL.get(p, [])] * 2
    for h in HEADS.get(p, [""]):
        for x in BULK.get(p, BULK[""]):
            for size in c.pick([70000], [70000, 1000000]):
                if p in ("sink", "media", "rtp", "rtcp"):
                    size = min(size, 65535)
                hw = rng.choice(good)[0]
                t = lat(h + x * (size // len(x)))
                bad.append((hw, ([128, 96, 0, 1] + [0] * 8 + t) if p == "media" else t))
    if p in ("unpack", "challenge", "transport"):  # no end in sight
        bad.append(("", lat("RTSP/1.0 200 OK\r\nX: " + "a" * 400000)))
    rng.shuffle(bad)
    per = dict(unpack=4, http=4).get(p, 5 if p in ("sink", "media", "psets") else 10)
    pr = [dict(how=h, buf=b64(b)) for h, b in probes(p, rng)]
    cases = []
    while bad:
        grp, bad = bad[:per], bad[per:]
        if p in ("sink", "media") and rng.random() < .5:   # well-formed ones in between
            grp = [y for x in grp for y in ((x,) if rng.random() < .5 else (rng.choice(good), x))]
        cases.append(dict(p=p, **{"in": [dict(how=h, buf=b64(b)) for h, b in grp]}, probe=pr))
    return [dict(p=p, **{"in": []}, probe=pr)] + cases


def parsers(c):
    b = c.build("vh-hostile")
    edits = [g["edits"] for g in c.cases("HostileGen", c.pick("HostileGen.q.cfg", "HostileGen.t.cfg"), heap="8g")]
    c.cov["behaviours_replayed"] = len(edits)
    cases, first = [], []
    for p in PARSERS:
        first.append(len(cases))
        cases += attack(c, p, edits)
    res = c.execute(b, cases, shards=8)
    beh, ix = [], []
    ends = {}
    for k, (q, r) in enumerate(zip(cases, res)):
        f = max(i for i in first if i <= k)
        if "res" not in r:
            what = next((w for w in ("hang", "crash", "panic") if w in r), "lost")
            beh.append([dict(e="feed", n=0, out=what, alloc=0)])
            ix.append(k)
            continue
        ln = [dict(e="feed", n=x["n"], out=x["out"], alloc=x["alloc"]) for x in r["res"]]
        for x in r["res"]:
            ends.setdefault(q["p"], {}).setdefault(x["out"], 0)
            ends[q["p"]][x["out"]] += 1
        if not any(x["out"] == "panic" for x in ln) and "res" in res[f]:
            ln.append(dict(e="probe", fresh=[list(x) for x in res[f]["probe"]], after=[list(x) for x in r["probe"]]))
        if ln:
            beh.append(ln)
            ix.append(k)
    c.cov["inputs"] = ends
    c.log("ends: " + json.dumps(ends))

    def corrupt(l):
        if l["e"] == "feed":
            l["alloc"] = (1 << 31) - 1
            return l
    for bi, li, info in c.validate("HostileTrace", "HostileTrace.cfg", beh, selftest=corrupt, label="attacks"):
        q, r = cases[ix[bi]], res[ix[bi]]
        ins = [base64.b64decode(x["buf"])[:120] for x in q["in"]]
        if "res" in r and li < len(r["res"]):
            c.violation("%s: %s on %r: %s" % (q["p"], info, ins[li], str(r["res"][li])[:300]), dict(case=q, result=r))
        else:
            c.violation("%s: %s after %r: %s" % (q["p"], info, ins[-3:], str(r)[:600]), dict(case=q, result=r))
    c.sample(dict(attack=dict(parser=cases[-3]["p"], inputs=[repr(base64.b64decode(x["buf"])[:80]) for x in cases[-3]["in"]], result=res[-3])))


# ---- sessions --------------------------------------------------------------
def bad_text(rng, kind):
    s = rng.choice(SPECIAL[kind])
    if rng.random() < .5:
        s = bytes(fine(rng, corpus(kind, rng, 1)[0][1], True)).decode("latin-1")
    return s


def hostile_session(rng):
    s = Script(rng, rng.randint(0, 3) if rng.random() < .2 else rng.randint(1, 3))
    s.add("await", i=1)
    at = rng.randint(0, 5)
    for k in range(rng.randint(0, min(at, 2 + len(s.feeds)))):
        s.answer(0).sync()
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(8)
        n = len(s.steps)
        if k == 0:
            m = bytes(fine(rng, lat("RTSP/1.0 200 OK\r\nCSeq: %d\r\nSession: 12;timeout=60\r\nContent-Length: 4\r\n\r\nabcd" % rng.randint(1, 5)), True)).decode("latin-1")
            s.add("raw", raw=m, id=1)
        elif k == 1:
            s.answer(0)
            s.steps[n]["per"] = {"DESCRIBE": dict(hdrs=[], body=bad_text(rng, "sdp")), "SETUP": dict(hdrs=[["Transport", bad_text(rng, "transport").replace("\r", " ").replace("\n", " ")]])}
        elif k == 2:
            s.answer(0)
            s.steps[n]["code"] = "401 Unauthorized"
            s.steps[n].pop("per", None)
            s.steps[n]["hdrs"] = [["WWW-Authenticate", bad_text(rng, "challenge").replace("\r", " ").replace("\n", " ")]]
        elif k == 3:
            s.answer(0)
            s.steps[n]["hdrs"] = [["Session", rng.choice(["", ";", ";timeout=", ";timeout=x", "a;timeout=-1", "a;timeout=0", "a;timeout=99999999999999999999", " ", "=", ";;;", "a;timeout=1;timeout", "x" * 5000])]]
        elif k == 4:
            s.add("raw", raw=rng.choice(PARTIAL + GARBAGE + SPECIAL["unpack"][:13]), id=1)
        elif k == 5:
            s.add("raw", raw="".join("$" + chr(rng.randrange(256)) + chr(rng.choice([0, 0, 0, 255])) + chr(rng.randrange(256)) + "z" * rng.randrange(300) for _ in range(3)), id=1)
        elif k == 6:
            s.answer(0, rng.choice([200, 401, 404]), hold=True)
            s.add("raw", raw="".join(chr(rng.randrange(256)) for _ in range(rng.randint(1, 60))), id=1)
        else:
            s.add("stray", cseq=rng.choice(["-1", "0", "1", "99999999999999999999", "", "x", "1 2"]), code=rng.choice(["200 OK", "401 Unauthorized", "200", "999 X", "000 Y"]), hdrs=[["Session", "q"], ["Transport", "x"], ["WWW-Authenticate", "Digest"]][:rng.randrange(4)], id=1)
        s.add("sleep", ms=rng.choice([0, 5, 20]))
        if rng.random() < .5:
            s.add("cmd", verb=rng.choice(["PLAY", "PAUSE", "TEARDOWN", "OPTIONS", "DESCRIBE"]))
        if rng.random() < .5:
            s.answer(0)
    s.add("sleep", ms=5).add(rng.choice(["eof", "rst"]), id=1).sync()
    if rng.random() < .3:
        s.add("cmd", verb="PLAY")
    if rng.random() < .15:
        c_tunnel.tunnel(s, rng)
        if rng.random() < .5:
            s.extra["get"] = bad_text(rng, "http")
            s.extra["end"] = True
    return s


def sessions(c):
    b = c.build("vh-session")
    scripts = [hostile_session(c.rng) for _ in range(c.pick(400, 6000))]
    cases = [s.case() for s in scripts]

    def lines(cases, res):
        out = []
        for r in res:
            if "log" in r:
                ended = "open" not in r
                out.append(dict(e="session", ended=ended, dones=sum(e["e"] == "rep" and e["stage"] == DONE for e in r["log"]), hangs=sum(e["e"] == "stuck" for e in r["log"])))
            elif "skip" in r:
                out.append(dict(e="session", ended=False, dones=0, hangs=0))
            else:
                out.append(dict(e="session", ended=True, dones=-1, hangs=1))
        return out

    def corrupt(l):
        if l["ended"]:
            l["dones"] += 1
            return l
    res = c.execute_pool(b, cases, procs=4, par=40)
    beh = [[l] for l in lines(cases, res)]
    rej = c.validate("HostileTrace", "HostileTrace.cfg", beh, selftest=corrupt, label="hostile-sessions")
    hard = [k for k, _, _ in rej if "log" not in res[k]]
    soft = [k for k, _, _ in rej if "log" in res[k]]
    for k in hard:
        c.violation("session under attack: %s" % str(res[k])[:900], dict(case=cases[k], result=res[k]))
    if soft and not hard:               # late, or never?
        sub = [cases[k] for k in soft[:24]]
        r2 = c.execute_pool(b, sub, procs=2, par=2)
        for k, _, info in c.validate("HostileTrace", "HostileTrace.cfg", [[l] for l in lines(sub, r2)], label="hostile-again"):
            log = r2[k].get("log", [])
            c.violation("session under attack did not end properly: %s" % json.dumps([{a: e.get(a) for a in ("e", "k", "stage", "verb") if a in e} for e in log][-12:]), dict(case=sub[k], result=r2[k]))
    c.cov["sessions"] = len(scripts)


def check_X01(c):
    parsers(c)
    sessions(c)
    c.assume += ["memory is counted as what one call allocates in total; 16 MiB and 6000 times the input are allowed",
                 "a call that takes more than 20 s is a hang"]
