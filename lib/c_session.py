"""S01-S05, S08, S09, S12: recorded sessions explained by the specification."""
import base64, collections, hashlib, json, re
import vlib
from c_digest import parse as parse_auth, table

CH = {"d1": ("digest", [("realm", "r"), ("nonce", "n1"), ("qop", "auth")]),
      "d2": ("digest", [("realm", "r"), ("nonce", "n2"), ("qop", "auth")]),
      "d3": ("digest", [("realm", "r"), ("nonce", "n3")]),
      "d4": ("digest", [("realm", "r, s"), ("nonce", "n4=="), ("qop", "auth,auth-int"), ("opaque", "o=1,2"), ("algorithm", "MD5")]),
      "d5": ("digest", [("realm", "r"), ("nonce", "n5"), ("qop", "auth"), ("algorithm", "MD5-sess")]),
      "d1o": ("digest", [("realm", "r"), ("nonce", "n1"), ("qop", "auth"), ("opaque", "oq")]),
      "d1r": ("digest", [("realm", "r2"), ("nonce", "n1"), ("qop", "auth,auth-int")]),
      "basic": ("basic", [("realm", "r")]),
      "bad": ("bearer", [("realm", "r")]),
      "sha": ("digest", [("realm", "r"), ("nonce", "n6"), ("algorithm", "SHA-256")])}
CH.update(("m%d" % i, ("digest", [("realm", "r"), ("nonce", "nonce-%d" % i), ("qop", "auth")])) for i in range(1, 81))
NOCH = dict(scheme="none", dirs=[], qop="", qops=[])
STATUS = {200: "200 OK", 401: "401 Unauthorized", 404: "404 Not Found", 454: "454 Session Not Found", 455: "455 Method Not Valid In This State", 500: "500 Internal Server Error",
          503: "503 Service Unavailable", 201: "201 Created", 302: "302 Moved Temporarily"}
# things that are not RTSP, to the end of a line
GARBAGE = ["garbage\r\n", "HTTP/1.1 400 Bad Request\r\n\r\n", "RTSP/2.0 200 OK\r\nCSeq: 1\r\n\r\n", "RTSP/1.0 2x0 OK\r\nCSeq: 1\r\n\r\n", "RTSP/1.0 20 OK\r\n\r\n",
           "\x00\x01\x02\xff\xfe\r\n", "RTSP\r\n\r\n", "RTSP/1.0 200 OK\r\nno colon here\r\n\r\n", "<html>\r\n"]
PARTIAL = ["$\x00\x00\x10abc", "RTSP/1.0 200 OK\r\nCSeq: 2\r\nContent-Length: 100\r\n\r\nabc", "RTSP/1.0 2", "$", "$\x01\x05", "RTSP/1.0 200 OK\r\nCSe"]


def challenge(name):
    if not name:
        return NOCH
    if name == "absent":
        return dict(NOCH, scheme="absent")
    s, d = CH[name]
    q = dict(d).get("qop", "")
    return dict(scheme=s, dirs=[dict(n=k, v=v) for k, v in d], qop=q, qops=[x.strip() for x in q.split(",")] if q else [])


def chtext(name, rng):
    s, d = CH[name]
    d = ['%s="%s"' % kv if kv[0] != "algorithm" else "%s=%s" % kv for kv in d]
    for x in ("stale=true", "stale=FALSE", 'stale="true"', 'domain="/ rtsp://h/"', 'charset="UTF-8"', 'x-y="n, o=p"'):
        if rng.random() < .12 and not any(y[:5] == x[:5] for y in d):
            d.insert(rng.randint(0, len(d)), x)
    return {"digest": "Digest", "basic": "Basic", "bearer": "Bearer"}[s] + " " + ", ".join(d)


def description(feeds, rng):
    """An SDP for the feeds (control attributes), with sections that are not video."""
    l = ["v=0", "o=- 1 1 IN IP4 127.0.0.1", "s=x", "t=0 0"]
    for f in feeds:
        if rng.random() < .3:
            l += ["m=audio 0 RTP/AVP 0", "a=control:audio%d" % rng.randint(0, 9)]
        l += ["m=video 0 RTP/AVP 96", "a=rtpmap:96 H264/90000", "a=control:" + f["v"]]
        if rng.random() < .5:
            l[-2:] = l[-1:] + l[-2:-1]
    if rng.random() < .2:
        l += ["m=application 0 RTP/AVP 107", "a=control:meta"]
    return "\r\n".join(l) + "\r\n"


def controls(n, rng):
    out = []
    for i in range(n):
        k = rng.random()
        if rng.random() < .12:
            out.append(dict(abs=False, v=rng.choice(["track%d?src=file://x/y", "video%d?u=rtsp://h:1/x", "rtsp%d", "rtsp/t%d", "t%d;rtsp://x", "streamid=%d", "%d", "t%%20%d", "T%d/"]) % (i + 1)))
            continue
        out.append(dict(abs=True, v="rtsp://127.0.0.1:%%PORT%%/other/t%d" % (i + 1)) if k < .2 else
                   dict(abs=False, v=("t%d" if k < .6 else "trackID=%d" if k < .8 else "a/b?c=%d&d=e;x") % (i + 1)))
    return out


PUBLIC = ["OPTIONS, DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE", "DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE", "OPTIONS,DESCRIBE,SETUP,TEARDOWN,PLAY,PAUSE,GET_PARAMETER,SET_PARAMETER",
          "PAUSE, PLAY, TEARDOWN, SETUP, DESCRIBE, OPTIONS", "DESCRIBE,SETUP,PLAY", "", None, "ANNOUNCE, RECORD", "options, describe, setup, teardown, play, pause", "GET_PARAMETER"]


class Script:
    """One session: the steps for the driver and what they mean."""

    def __init__(self, rng, feeds=2, creds=True, url=None, user="user", pw="pw", path="/live/main", proto=0):
        self.rng, self.steps, self.meta = rng, [], {}
        self.user, self.pw, self.creds = user, pw, creds
        self.path = rng.choice(["/", "/live/", "/a/b/", "", "/live/main/", "/Streaming/Channels/101", "/a%2Fb/%C3%A9", "/live/x?", "/a//b"]) if path == "/live/main" and rng.random() < .3 else path
        self.feeds = controls(feeds, rng)
        self.body = description(self.feeds, rng)
        self.proto = proto
        self.nsync = 0
        self.public = rng.choice(PUBLIC) if rng.random() < .4 else PUBLIC[0]
        self.extra = {}
        self.transport = "%TRANSPORT%;ssrc=0badcafe"

    def add(self, a, **kw):
        self.steps.append(dict(a=a, **kw))
        return self

    def sync(self):
        self.nsync += 1
        return self.add("sync", id=self.nsync)

    def _resp(self, a, code, sess, ch, kw, per=True):
        h = []
        if self.rng.random() < .3:
            h.append(["Server", "x"])
        if sess:
            h.append(["Session", sess + self.rng.choice(["", ";timeout=60", "; timeout=30", ";timeout=60;x=1", " ;timeout=60" if False else ""])])
        if ch and ch != "absent":
            h.append(["WWW-Authenticate", chtext(ch, self.rng)])
        self.rng.shuffle(h)
        id = len(self.meta) + 1
        self.meta[id] = dict(code=code, sess=sess, ch=challenge(ch))
        st = dict(id=id, code=STATUS.get(code, "%d Whatever" % code), hdrs=h, **kw)
        if code == 200 and per:
            st["per"] = {"OPTIONS": dict(hdrs=[["Public", self.public]] if self.public is not None else []),
                         "DESCRIBE": dict(hdrs=[["Content-Type", "application/sdp"], ["Content-Base", "rtsp://127.0.0.1:%PORT%" + self.path + "/"]][:self.rng.randint(1, 1)], body=self.body),
                         "SETUP": dict(hdrs=[["Transport", self.transport]])}
        return self.add(a, **st)

    def answer(self, i, code=200, sess="", ch="", **kw):
        return self._resp("ans", code, sess, ch, dict(i=i, **kw))

    def provisional(self, i, sess="X", **kw):
        r = self.rng
        code = r.choice([100, 100, 100, 102, 180, 199])
        st = self._resp("prov", code, sess if r.random() < .5 else "", "d2" if r.random() < .2 else "", dict(i=i, **kw)).steps[-1]
        if r.random() < .5:      # with all that a final answer carries
            st["per"] = dict(OPTIONS=dict(hdrs=[]), DESCRIBE=dict(hdrs=[["Content-Type", "application/sdp"]], body=self.body), SETUP=dict(hdrs=[["Transport", self.transport]]))
        return self

    def stray(self, kind, **kw):
        if kind == "challenge":
            return self._resp("stray", 401, "", "d2", dict(cseq="99999", **kw))
        if kind == "near":
            kw["i"] = self.rng.randrange(7)
        return self._resp("stray", 200, "X", "", dict(cseq={"near": "near", "unknown": "99999", "repeat": "repeat", "none": "none", "junk": "abc", "zero": "0", "neg": "-1"}[kind], **kw))

    def frame(self, n=None, **kw):
        r = self.rng
        return self.add("frame", ch=r.choice([r.randint(0, 7), r.randint(0, 255), r.choice([10, 13, 32, 36, 82, 128, 254])]), len=r.choice([0, 1, 2, 7, 100, 1400, 2100]) if n is None else n, id=r.randint(1, 10 ** 6), **kw)

    def open(self):
        """The opening walk without incident."""
        self.add("await", i=1).sync()
        for k in range(2):
            self.answer(0).sync()
        for k in range(len(self.feeds)):
            self.answer(0).sync()
        return self

    def case(self):
        cred = "%s:%s@" % (quote(self.user), quote(self.pw)) if self.creds else ""
        return dict(op="session", url="rtsp://" + cred + "127.0.0.1:%PORT%" + self.path, proto=self.proto, steps=self.steps, **self.extra)


def quote(s):
    from urllib.parse import quote as q
    return q(s, safe="")


def from_generator(g, rng, feeds, creds, ends=True, gaps=False):
    """A behaviour of SessionGen in lockstep."""
    s = Script(rng, feeds, creds)
    s.add("await", i=1).sync()
    for a in g["script"]:
        if gaps and rng.random() < .15:
            s.add("sleep", ms=rng.choice([2300, 4200]))
        apply(s, a, rng)
        s.sync()
    return s


def apply(s, a, rng, **kw):
    k = a["a"]
    if k == "ans":
        s.answer(a["i"], a["code"], a["sess"], a["ch"], **kw)
    elif k == "cmd":
        s.add("cmd", verb=a["verb"])
    elif k == "prov":
        s.provisional(a["i"], **kw)
    elif k == "stray":
        s.stray(a["kind"], **kw)
    elif k == "frame":
        s.frame(**kw)
    elif k == "eof":
        v = rng.random()
        if v < .3:
            s.add("raw", id=0, raw=rng.choice(PARTIAL))
        s.add(rng.choice(["eof", "eof", "rst"]) if v > .3 else "eof", id=0)
    elif k == "raw":
        s.add("raw", id=0, raw=rng.choice(GARBAGE))


# ---- from the log of the driver to the trace of the specification -------
def request(raw):
    """A request as tokens."""
    raw = raw.encode("latin-1").decode("utf-8", "replace")
    head = raw.split("\r\n\r\n", 1)[0].split("\r\n")
    f = head[0].split(" ")
    e = dict(verb="?", uri="?", cseq=-1, sess="", auth=dict(scheme="none", dirs=[]), hdrs="", acc=[])
    if len(f) == 3:
        e["verb"], e["uri"] = f[0], f[1]
    rest, nauth = [], 0
    for l in head[1:]:
        n, _, v = l.partition(":")
        n, v = n.strip().lower(), v.strip()
        if n == "cseq":
            e["cseq"] = int(v) if v.isdigit() and len(v) < 10 else -1
        elif n == "session":
            e["sess"] = v
        elif n == "authorization":
            a = parse_auth(v)
            nauth += 1
            e["auth"] = a if a is not None and nauth == 1 else dict(scheme="?", dirs=[])
        else:
            rest.append("%s: %s" % (n, v))
            if n == "accept":
                e["acc"] += [x.split(";")[0].strip().lower() for x in v.split(",")]
    e["hdrs"] = " | ".join(sorted(rest))
    return e


def trace(s, r, table=table):
    """The session the specification has to explain."""
    port = r["port"]
    base = "rtsp://127.0.0.1:%s%s" % (port, s.path)
    ev, chs, first, ends, udp = [], [], {}, False, set()
    for e in r["log"]:
        k = e["e"]
        if k == "snd":
            if e["k"] == "resp":
                m = s.meta.get(e.get("id", 0)) or auto_meta(e)
                if m["code"] != int(e["code"][:3]):      # the verb decided
                    m = dict(code=int(e["code"][:3]), sess="", ch=NOCH)
                fs = [dict(abs=f["abs"], v=f["v"].replace("%PORT%", port)) for f in s.feeds] if e.get("verb") == "DESCRIBE" and m["code"] == 200 else []
                cs = int(e["cseq"]) if re.fullmatch(r"-?\d{1,9}", e["cseq"]) else -99
                ev.append(dict(e="snd", k="resp", cseq=cs, code=m["code"], sess=m["sess"], ch=m["ch"], feeds=fs))
                if m["ch"]["scheme"] == "digest" and m["ch"] not in chs:
                    chs.append(m["ch"])
            elif e["k"] == "udp":
                udp.add(e["sum"])
            elif e["k"] == "frame":
                ev.append(dict(e="snd", k="frame", ch=e["ch"], sum=e["sum"]))
            else:
                ends = True
                ev.append(dict(e="snd", k=e["k"]))
        elif k == "req":
            q = request(e["raw"])
            facts, nc = [], 0
            if q["auth"]["scheme"] == "digest":
                D = {d["n"]: d["v"] for d in q["auth"]["dirs"]}
                nonce = D.get("nonce", "")
                first.setdefault(nonce, D.get("cnonce", ""))
                try:
                    nc = int(D.get("nc", "0"), 16)
                except ValueError:
                    nc = 0
                seen = {}
                for c in chs:
                    if any(d["n"] == "nonce" and d["v"] == nonce for d in c["dirs"]):
                        fa = dict(q["auth"], dirs=[dict(n="cnonce", v=first[nonce])])
                        if table is brief:
                            seen.update(brief(c, s.user, s.pw, q["verb"], D))
                            continue
                        for t in (table(c, s.user, s.pw, [dict(verb=q["verb"], uri=D.get("uri", ""), body="")], [q["auth"]]) +
                                  table(c, s.user, s.pw, [dict(verb=q["verb"], uri=D.get("uri", ""), body="")] * 2, [fa, q["auth"]])):
                            seen[t["x"]] = t["h"]
                facts = [dict(x=a, h=b) for a, b in seen.items()]
            q.update(e="req", md5=facts, nc=nc if nc < 2 ** 31 else 0, first=first.get(next((d["v"] for d in q["auth"].get("dirs", []) if d["n"] == "nonce"), ""), ""))
            q["auth"].setdefault("dirs", [])
            ev.append(q)
        elif k == "junk":
            ev.append(dict(e="junk"))
        elif k in ("http", "mark", "stopped", "free", "quiet") or k == "dat" and e["sum"] in udp:
            pass
        else:
            ev.append({x: v for x, v in e.items() if x != "t"})
    if ends:
        ev = [e for e in ev if e["e"] != "junk"]
    alive = max(0, sum(e["e"] == "req" and e["verb"] == "OPTIONS" for e in ev) - 1) if s.proto == 1 else 0
    return dict(base=base, creds=s.creds, user=s.user, **{"pass": s.pw}, alive=alive, ev=ev)


def brief(ch, user, pw, verb, D):
    """The MD5 facts for a request that answers an MD5 challenge (not MD5-sess, not auth-int)."""
    h = lambda x: hashlib.md5(x.encode("utf-8")).hexdigest()
    C = {d["n"]: d["v"] for d in ch["dirs"]}
    a1, a2 = "%s:%s:%s" % (user, C["realm"], pw), "%s:%s" % (verb, D.get("uri", ""))
    x = ":".join([h(a1), C["nonce"]] + ([D.get("nc", ""), D.get("cnonce", ""), D.get("qop", "")] if ch["qop"] else []) + [h(a2)])
    return {k: h(k) for k in (a1, a2, x)}


def auto_meta(e):
    """What an answer of the driver's own means."""
    h = {a.lower(): b for a, b in e["hdrs"]}
    code = int(e["code"][:3])
    ch = NOCH
    if "www-authenticate" in h:
        t = h["www-authenticate"]
        ch = dict(scheme="basic", dirs=[dict(n="realm", v="r")]) if t.startswith("Basic") else parse_auth(t)
        q = next((d["v"] for d in ch["dirs"] if d["n"] == "qop"), "")
        ch = dict(scheme=ch["scheme"], dirs=ch["dirs"], qop=q, qops=[q] if q else [])
    return dict(code=code, sess=h.get("session", "").split(";")[0], ch=ch)


CFG = """SPECIFICATION TSpec
CONSTANTS
  H <- Table
  Aspects = {%s}
INVARIANT Progress
POSTCONDITION Verdict
"""


def corrupt(s):
    """A session that cannot have happened."""
    ev = s["ev"]
    for i, e in enumerate(ev):
        if e["e"] == "req" and e["cseq"] > 2:
            e["cseq"] = 1
            return s
    return None


def describe(e):
    k = e["e"]
    if k == "req":
        return "the server reads %s %s CSeq %s session %r authorization %s" % (e["verb"], e["uri"], e["cseq"], e["sess"], json.dumps(e["auth"])[:300])
    if k == "rep":
        return "stage %d is reported" % e["stage"]
    if k == "sync":
        return "all is quiet but something is missing (a request, report or packet that was due)"
    if k == "stuck":
        return "the session is stuck"
    return json.dumps(e)[:300]


def judge(c, scripts, aspects, b=None, label="sessions", procs=4, par=40, selftest=corrupt, timed=("sync", "stuck"), confirm=True):
    """Run the scripts against the real client and explain what happened."""
    b = b or c.build("vh-session")
    cfg = CFG % ", ".join('"%s"' % a for a in aspects)
    res = c.execute_pool(b, [s.case() for s in scripts], procs=procs, par=par)
    c.log("%d sessions run" % len(scripts))

    def collect(res):
        tr, ix = [], []
        for i, r in enumerate(res):
            if "log" in r and "open" not in r:
                tr.append(trace(scripts_[i], r))
                ix.append(i)
            elif "skip" in r:
                c.cov["skipped"] = c.cov.get("skipped", 0) + 1
            else:
                c.violation("session %s: %s" % (next(k for k in ("crash", "panic", "hang", "open") if k in r), str(r)[:600]), dict(case=scripts_[i].case(), result=r))
        return tr, ix
    scripts_ = scripts
    tr, ix = collect(res)
    if not tr:
        return []
    rej = c.explain("SessionTrace", cfg, tr, selftest=selftest, label=label)
    again = []
    for k, at in rej:
        e = tr[k]["ev"][at] if at < len(tr[k]["ev"]) else dict(e="end")
        if confirm and e["e"] in timed:
            again.append(k)
        else:
            report(c, scripts[ix[k]], tr[k], at)
    if again and not c.violations:
        # Something was missing: see whether it is missing without load, too.
        scripts_ = [scripts[ix[k]] for k in again[:24]]
        tr2, ix2 = collect(c.execute_pool(b, [s.case() for s in scripts_], procs=2, par=2))
        if tr2:
            for k, at in c.explain("SessionTrace", cfg, tr2, label=label + "-again"):
                report(c, scripts_[ix2[k]], tr2[k], at)
        if not c.violations:
            c.log("%d sessions were late under load only" % len(again))
            c.cov["late_under_load"] = c.cov.get("late_under_load", 0) + len(again)
    c.sample(dict(script=[{k: v for k, v in x.items() if k not in ("per", "hdrs")} for x in scripts[ix[len(tr) // 2]].steps][:40]))
    c.sample(dict(recorded=[{k: v for k, v in e.items() if k not in ("md5",)} for e in tr[len(tr) // 2]["ev"]][:20]))
    return tr


def report(c, s, t, at):
    e = t["ev"][at] if at < len(t["ev"]) else dict(e="end")
    before = [describe(x)[:160] for x in t["ev"][max(0, at - 6):at]]
    c.violation("not allowed by the specification: %s (after: %s)" % (describe(e), "; ".join(before[-3:])),
                dict(case=s.case(), events=t["ev"][:at + 1], at=at))


def generate(c, cfg, limit=None, **kw):
    """Behaviours of SessionGen; a seeded sample in the quick tier."""
    gen = c.cases("SessionGen", cfg, heap="12g", **kw)
    if limit and len(gen) > limit:
        gen = c.rng.sample(gen, limit)
    c.cov["behaviours_replayed"] = c.cov.get("behaviours_replayed", 0) + len(gen)
    return gen


def gencfg(**kw):
    d = dict(Verbs=[], Codes=[200], Ids=[""], Chs=[], Strays=[], Ends=[], Early=[], Feeds=2, Creds=True, MaxCmds=0, MaxUn=3, MaxStrays=0, MaxChs=0, MaxIds=0, MaxFails=0, Deep=True)
    d.update(kw)

    def v(x):
        if isinstance(x, bool):
            return "TRUE" if x else "FALSE"
        if isinstance(x, int):
            return str(x)
        if isinstance(x, str):
            return '"%s"' % x
        return "{" + ", ".join(v(y) for y in x) + "}"
    return "SPECIFICATION Spec\nCONSTANTS\n  H <- Sym\n" + "".join("  %s = %s\n" % (k, v(x)) for k, x in d.items()) + \
        "INVARIANTS FreshCseq OutIsUnanswered ReadyOnce SetupsOnce Confirmed LatestId CurrentId OneRetry RetryCarries DoneOnce NoStall Emit\n"


ASSUME = ["a Session header counts only on a success answer; a second TEARDOWN or PLAY after Done is not confirmed by the server",
          "the server writes whole requests' answers; CSeq values that are no number match nothing"]


def randomsession(rng, feeds=None, provs=.08, early=.1, cmds=8, chs=2, ids=0, fails=.2, strays=.1, frames=.1, verbs=("PLAY", "PAUSE", "OPTIONS", "DESCRIBE"), batch=.4, creds=True):
    """A long session with answers in any order, several in one segment."""
    s = Script(rng, rng.randint(1, 4) if feeds is None else feeds, creds)
    n = len(s.feeds)
    s.add("await", i=1).sync()
    used = [0]
    left = [chs]

    def ans(maxi, ok=None, **kw):
        if left[0] and rng.random() < .2:
            left[0] -= 1
            return s.answer(rng.randint(0, maxi), 401, "", rng.choice(["d1", "d2", "d3", "d4", "d5", "basic", "d1o", "d1r"]), **kw)
        code = 200 if ok or rng.random() > fails else rng.choice([404, 454, 455, 500, 503, 302])
        sess = rng.choice(["12345", "A", "0011aa;x"[:6], "S-%d" % rng.randint(0, 99), "S-%d" % rng.randint(0, 99), "k" * rng.choice([1, 8, 33, 70, 260])]) if code == 200 and rng.random() < ids else ""
        return s.answer(rng.randint(0, maxi), code, sess, "", **kw)
    lim = chs

    def soon(verbs):      # a command before Ready
        nonlocal lim
        while rng.random() < early:
            s.add("cmd", verb=rng.choice(verbs)).sync()
            lim += 1
    soon(["OPTIONS"])
    while left[0] and rng.random() < .3:
        left[0] -= 1
        s.answer(0, 401, "", rng.choice(["d1", "d2", "d3", "basic"])).sync()
        s.answer(0, 200).sync()      # the retry; otherwise skipped
        break
    else:
        s.answer(0).sync()
    soon(["OPTIONS", "DESCRIBE"])
    if rng.random() < provs:
        s.provisional(0)
    s.answer(0).sync()               # DESCRIBE
    soon(["OPTIONS", "DESCRIBE"])
    for k in range(n + lim):
        if rng.random() < provs:
            s.provisional(rng.randrange(n), hold=rng.random() < batch)
        ans(n - 1)
        if rng.random() < strays:
            s.stray(rng.choice(["unknown", "repeat", "none", "junk", "zero", "neg", "near", "near"]))
        if rng.random() < frames:
            s.frame()
        if rng.random() > batch:
            s.sync()
    s.sync()
    for k in range(n + lim):
        s.answer(0)
        s.sync()
    done = 0
    for k in range(cmds):
        for j in range(rng.choice([1, 1, 2, 3])):
            s.add("cmd", verb=rng.choice(verbs))
        s.sync()
        for j in range(rng.choice([1, 1, 2, 3, 4])):
            if rng.random() < provs:
                s.provisional(rng.choice([0, 0, 1]), hold=rng.random() < batch)
            ans(rng.choice([0, 1, 2]), hold=rng.random() < batch)
            if rng.random() < strays:
                s.stray(rng.choice(["unknown", "repeat", "none", "junk", "zero", "neg", "near", "near"]), hold=rng.random() < batch)
            if rng.random() < frames:
                s.frame(hold=rng.random() < batch)
        s.frame(0)
        s.sync()
    return s


def overudp(s):
    """SETUP is refused over UDP: no ports are opened, so sessions can run side by side."""
    s.proto = 1
    for st in s.steps:
        if st["a"] == "ans" and "per" in st:
            st["per"]["SETUP"] = dict(code="461 Unsupported Transport")
    return s


def elsewhere(rng, n, **kw):
    """Sessions over HTTP and UDP."""
    sc = []
    for k in range(n):
        if k % 2:
            s = randomsession(rng, **kw)
            s.proto = 3
            s.extra["get"] = "HTTP/1.0 200 OK\r\n\r\n"
            sc.append(s)
        else:      # only keep-alives are OPTIONS requests
            kw.setdefault("verbs", ("PLAY", "PAUSE", "DESCRIBE"))
            sc.append(overudp(randomsession(rng, early=0, **dict(kw, verbs=[v for v in kw["verbs"] if v != "OPTIONS"]))))
    return sc


def backlog(rng, size=None):
    """Many requests outstanding at once, answered in all kinds of orders, a few of them never."""
    s = randomsession(rng, feeds=rng.choice([1, 2]), cmds=0, chs=1, strays=0)
    for k in range(rng.randint(1, 3) if size is None else 1):
        n = rng.choice([10, 17, 33, 40, 70]) if size is None else size
        for j in range(n):
            s.add("cmd", verb=rng.choice(["PLAY", "PAUSE", "OPTIONS", "DESCRIBE"]))
        s.sync()
        how = rng.choice(["newest first", "oldest last", "any", "every other"])
        left, odd = n, 0
        while left > rng.choice([0, 0, 0, 1, 2]):
            i = dict([("newest first", left - 1), ("oldest last", min(1, left - 1)), ("any", rng.randrange(left)), ("every other", min(odd, left - 1))])[how]
            odd = odd + 1 if odd < left - 1 else 0
            s.answer(i, 200 if rng.random() < .9 else 404, hold=rng.random() < .5)
            left -= 1
            if rng.random() < .1:
                s.stray(rng.choice(["unknown", "repeat", "near"]))
        s.frame(0)
        s.sync()
    return s


def check_S01(c):
    """Responses act on their own request."""
    gen = generate(c, gencfg(Verbs=["PLAY", "OPTIONS"], Strays=["unknown", "repeat", "provisional"], Feeds=2, MaxCmds=c.pick(3, 4), MaxStrays=c.pick(1, 2)), c.pick(1200, 8000))
    sc = [from_generator(g, c.rng, 2, True) for g in gen]
    sc += [randomsession(c.rng, strays=.5, batch=.6) for _ in range(c.pick(250, 3000))]
    sc += [randomsession(c.rng, cmds=c.rng.choice([150, 200]), chs=4) for _ in range(c.pick(4, 30))]      # hundreds of requests
    sc += [backlog(c.rng) for _ in range(c.pick(25, 250))]
    sc += [backlog(c.rng, c.rng.randint(258, 330)) for _ in range(c.pick(2, 10))]
    sc += elsewhere(c.rng, c.pick(60, 600), strays=.5, batch=.6)
    judge(c, sc, [])
    c.assume += ASSUME


def check_S02(c):
    """The opening walk."""
    sc = []
    for feeds, chs, lim in c.pick([(1, 2, 300), (3, 1, 900)], [(1, 3, 1500), (2, 3, 4000), (3, 2, 4000), (4, 1, 4000)]):
        for creds in (True, False) if feeds == 1 else (True,):
            gen = generate(c, gencfg(Feeds=feeds, Codes=[200, 404], Chs=["d1", "basic"] if feeds == 1 else ["d1"], MaxChs=chs, MaxFails=feeds, MaxUn=feeds, Creds=creds), lim)
            sc += [from_generator(g, c.rng, feeds, creds) for g in gen]
        if feeds == 1:
            gen = generate(c, gencfg(Feeds=2, Codes=[200], Verbs=["OPTIONS", "DESCRIBE"], Early=["OPTIONS", "DESCRIBE"], MaxCmds=c.pick(2, 3), MaxUn=4), c.pick(300, 3000))
            sc += [from_generator(g, c.rng, 2, True) for g in gen]
            gen = generate(c, gencfg(Feeds=1, Codes=[200, 404], Strays=["provisional"], MaxStrays=2, MaxFails=1, MaxUn=1), 200)
            sc += [from_generator(g, c.rng, feeds, True) for g in gen]
    sc += [randomsession(c.rng, cmds=1, feeds=c.rng.randint(1, 6), batch=.7, fails=.4, chs=3) for _ in range(c.pick(300, 3000))]
    sc += [randomsession(c.rng, cmds=1, feeds=c.rng.choice([7, 8, 9, 10, 11, 16, 17, 32, 33, 40, 65]), batch=.7, fails=.4, chs=1) for _ in range(c.pick(20, 200))]
    sc += elsewhere(c.rng, c.pick(60, 600), cmds=1, batch=.7, fails=.4, chs=3)
    judge(c, sc, ["accept"])
    c.assume += ASSUME


def late(g, rng, feeds):
    """A behaviour after Ready with the user not reading reports for a while."""
    s = Script(rng, feeds, True)
    s.add("await", i=1).sync()
    acts = list(g["script"])
    n = 2 + feeds
    for k in range(2 + feeds):
        apply(s, acts.pop(0), rng)
        s.sync()
    held = False
    for a in acts:
        if not held and rng.random() < .5:
            s.add("hold")
            held = True
        apply(s, a, rng)
        if a["a"] == "cmd":
            n += 1
            s.add("await", i=n)
        if rng.random() < .4:
            s.frame()
        if held and rng.random() < .25:
            s.add("sleep", ms=rng.choice([1, 5, 30, 200]))
            s.add("release")
            held = False
            s.sync()
        elif not held:
            s.sync()
    if held:
        s.add("sleep", ms=rng.choice([1, 30, 300, 2500] if rng.random() < .2 else [1, 30]))
        s.add("release")
    s.frame(3)
    s.sync()
    return s


def check_S03(c):
    """Stage reports."""
    gen = generate(c, gencfg(Verbs=["PLAY", "PAUSE", "TEARDOWN"], Codes=[200, 454], MaxCmds=c.pick(3, 4), MaxUn=3, MaxFails=2, Feeds=1, Deep=False), c.pick(700, 6000))
    sc = [from_generator(g, c.rng, 1, True) for g in gen] + [late(g, c.rng, 1) for g in gen]
    sc += [randomsession(c.rng, cmds=12, verbs=("PLAY", "PAUSE"), frames=.5, batch=.7, chs=1) for _ in range(c.pick(200, 2500))]
    sc += elsewhere(c.rng, c.pick(60, 600), cmds=8, verbs=("PLAY", "PAUSE"), frames=.5, batch=.7, chs=1)
    judge(c, sc, [])
    c.assume += ASSUME


def corrupt_sess(s):
    for e in s["ev"]:
        if e["e"] == "req" and e["sess"]:
            e["sess"] += "x"
            return s
    return None


def kept(rng):
    """Keep-alives of a UDP session among identifiers that change and challenges."""
    s = Script(rng, rng.randint(1, 2), True, proto=1)
    ids = ["", "", "A", "B", "C-7"]
    s.add("await", i=1).sync()
    s.answer(0, 200, rng.choice(ids)).sync().answer(0, 200, rng.choice(ids)).sync()
    for k in range(len(s.feeds)):      # refused, so that no ports are opened
        s.answer(0, 461)
    for k in range(rng.choice([2, 3])):
        s.add("awaitverb", verb="OPTIONS")
        for j in range(rng.choice([0, 1, 1, 2])):
            v = rng.choice(["PLAY", "PAUSE", "DESCRIBE"])
            s.add("cmd", verb=v).add("awaitverb", verb=v).answer(0, rng.choice([200, 200, 200, 404]) if v != "DESCRIBE" else 404, "")
            if s.meta[len(s.meta)]["code"] == 200:
                s.steps[-1]["hdrs"].append(["Session", rng.choice("DEF") + str(k)])
                s.meta[len(s.meta)]["sess"] = s.steps[-1]["hdrs"][-1][1]
        s.add("awaitverb", verb="OPTIONS")
        if rng.random() < .6:
            s.answer(0, 401, "", rng.choice(["d1", "d2", "basic"])).sync().add("awaitverb", verb="OPTIONS")
        s.answer(0, 200, rng.choice(ids)).sync()
        for j in range(3):
            s.add("sleep", ms=750).frame()
    return s


def check_S04(c):
    """Session identifiers."""
    gen = generate(c, gencfg(Verbs=["PLAY", "DESCRIBE", "TEARDOWN"], Ids=["", "A", "B"], Chs=["d1"], MaxChs=1, MaxIds=c.pick(2, 3), MaxCmds=2, MaxUn=2, Feeds=2),
                   c.pick(1200, 9000))
    sc = [from_generator(g, c.rng, 2, True) for g in gen]
    sc += [randomsession(c.rng, ids=.5, cmds=10, verbs=("PLAY", "PAUSE", "DESCRIBE", "OPTIONS")) for _ in range(c.pick(300, 3000))]
    sc += [kept(c.rng) for _ in range(c.pick(60, 400))]
    judge(c, sc, ["sess"], selftest=corrupt_sess)
    c.assume += ASSUME


def corrupt_auth(s):
    for e in s["ev"]:
        if e["e"] == "req" and e["auth"].get("scheme") == "digest":
            for d in e["auth"]["dirs"]:
                if d["n"] == "response":
                    d["v"] = d["v"][1:] + "0"
                    return s
    return None


def check_S05(c):
    """Challenges."""
    sc = []
    for creds in (True, False):
        gen = generate(c, gencfg(Verbs=["PLAY", "OPTIONS"], Chs=["d1", "d2", "d3", "basic", "bad"] if creds else ["d1", "basic"], MaxChs=2, MaxCmds=c.pick(1, 2), MaxUn=2, Feeds=2,
                                 Strays=["challenge"], MaxStrays=1, Creds=creds), c.pick(1100, 8000) if creds else 150)
        sc += [from_generator(g, c.rng, 2, creds) for g in gen]
    gen = generate(c, gencfg(Verbs=["PLAY", "PAUSE"], Chs=["d1", "d2", "d4", "d5", "sha"], MaxChs=c.pick(2, 3), MaxCmds=2, MaxUn=2, Feeds=1, Deep=False), c.pick(400, 6000))
    sc += [from_generator(g, c.rng, 1, True) for g in gen]
    for _ in range(c.pick(300, 3000)):
        s = randomsession(c.rng, chs=5, cmds=8)
        s.user, s.pw = c.rng.choice([("user", "pw"), ("us er", "p:w"), ("a@b", "x/y?z"), ("admin", ""), ("é", "ü")])
        sc.append(s)
    sc += elsewhere(c.rng, c.pick(60, 600), chs=5, cmds=6)
    for _ in range(c.pick(16, 80)):       # many requests under one challenge
        sc.append(randomsession(c.rng, chs=c.rng.choice([1, 1, 2]), cmds=c.rng.choice([12, 20, 30]), early=0, provs=0))
    sc += [randomsession(c.rng, chs=1, cmds=150, early=0, provs=0) for _ in range(c.pick(2, 8))]
    sc += [kept(c.rng) for _ in range(c.pick(60, 300))]
    for n in (10, 20, c.pick(40, 80)):    # a server with many nonces, which come again
        s = Script(c.rng, 1, True)
        s.add("await", i=1).sync()
        for k in range(3):
            s.answer(0).sync()
        order = list(range(1, n + 1)) + [c.rng.choice([1, 2, n // 2, n - 1, c.rng.randint(1, n)]) for _ in range(10)]
        for k in order:
            s.add("cmd", verb=c.rng.choice(["OPTIONS", "PLAY", "PAUSE"])).sync()
            s.answer(0, 401, "", "m%d" % k).sync()
            s.answer(0).sync()
        sc.append(s)
    for u, p in (("a@b", "p:w/x"), ("admin", "")):
        for k in ("d1", "d3", "d4", "d5", "basic"):
            s = Script(c.rng, 1, True, user=u, pw=p)
            s.add("await", i=1).sync()
            s.answer(0, 401, "", k).sync()
            for j in range(4):
                s.answer(0).sync()
            sc.append(s)
    judge(c, sc, ["auth"], selftest=corrupt_auth)
    c.assume += ASSUME + ["the digest-uri is the request's URI or the URL of the session"]


def check_S12(c):
    """The end of the session."""
    gen = generate(c, gencfg(Verbs=["PLAY", "PAUSE", "TEARDOWN"], Codes=[200, 404], Chs=["d1", "bad"], Ends=["eof", "raw"], MaxChs=1, MaxFails=1, MaxCmds=2, MaxUn=2, Feeds=1), c.pick(1200, 10000))
    sc = [from_generator(g, c.rng, 1, True) for g in gen]
    quiet = []
    for k in range(c.pick(20, 60)):       # a server that is silent for long, at any point
        s = Script(c.rng, 1)
        ms = 1000 * (c.rng.choice([13, 15, 17]) if not c.thorough or k % 3 else c.rng.choice([31, 47, 64]))
        s.add("await", i=1).sync()
        at = k % 5
        for j in range(3):
            if at == j:
                s.add("sleep", ms=ms)
            s.answer(0).sync()
        for v in ("PLAY", "PAUSE"):
            if at >= 3:
                s.add("cmd", verb=v).sync()
                s.answer(0).sync()
                if (at == 3) == (v == "PLAY"):
                    if c.rng.random() < .5:
                        s.frame(50, cuts=[c.rng.randint(1, 53)], gap=ms)
                    else:
                        s.add("sleep", ms=ms)
        s.sync()
        apply(s, dict(a=c.rng.choice(["eof", "eof", "raw"])), c.rng)
        s.sync()
        quiet.append(s)
    sc = quiet + sc
    for _ in range(c.pick(60, 400)):      # late users, silence, things cut short
        s = Script(c.rng, 1)
        s.open()
        s.add("cmd", verb="PLAY").sync()
        s.answer(0).sync()
        if c.rng.random() < .4:
            s.add("cmd", verb="PAUSE").sync()
            s.answer(0).sync()
        if c.rng.random() < .5:
            s.add("sleep", ms=c.rng.choice([2300, 4500, 6500]))
            s.frame().sync()
        if c.rng.random() < .5:
            s.add("hold")
        for k in range(c.rng.randint(0, 3)):
            s.frame()
        if c.rng.random() < .4:
            s.add("cmd", verb="TEARDOWN").add("await", i=3 + len([x for x in s.steps if x["a"] == "cmd"]))
            s.answer(0, c.rng.choice([200, 200, 454]))
        apply(s, dict(a=c.rng.choice(["eof", "raw"])), c.rng)
        s.add("sleep", ms=c.rng.choice([0, 50, 2500]))
        s.add("release").sync()
        s.add("sleep", ms=c.rng.choice([0, 100])).sync()
        sc.append(s)
    for g in c.rng.sample(gen, min(len(gen), c.pick(60, 500))):
        sc.append(from_generator(g, c.rng, 1, True, gaps=True))
    judge(c, sc, [])
    c.assume += ASSUME


def concurrent(rng, threads, cmds, delay, rechal, feeds=1, **auto):
    s = Script(rng, feeds, proto=rng.choice([0, 0, 0, 3, 1]))
    if s.proto == 3:
        s.extra["get"] = "HTTP/1.0 200 OK\r\n\r\n"
    s.add("await", i=1).sync()
    t = rng.choice(['Digest realm="r", nonce="%N%", qop="auth"'] * 3 + ['Digest realm="r", nonce="%N%"', 'Basic realm="r"'])
    if rng.random() < .5:
        s.answer(0, 401, "", "basic" if "Basic" in t else rng.choice(["d1", "d2", "d3"])).sync()
    for k in range(2 + feeds):         # refused over UDP: no ports are opened, so sessions can run side by side
        s.answer(0, 461 if k > 1 and s.proto == 1 else 200)
        if s.proto != 1 or k < 1 + feeds:
            s.sync()
    verbs = ["PLAY", "PAUSE", "OPTIONS", "DESCRIBE"]
    if s.proto == 1:                   # only keep-alives are OPTIONS requests
        verbs.remove("OPTIONS")
    th = [[dict(verb=rng.choice(verbs), ms=rng.choice([0, 0, 0, 1, 5]) if delay else 0) for _ in range(cmds)] for _ in range(threads)]
    s.add("par", threads=th, ms=20, auto=dict(dict(seed=rng.randint(1, 10 ** 9), delay=delay, rechal=rechal, nonces=["na", "nb", "nc", "na2", "nb2"], template=t, resess=0, fail=.1, frames=.2), **auto))
    s.add("quiet", ms=120 + 2 * delay).sync()
    return s


def rushed(rng, threads, cmds, phases, **auto):
    """A session in which threads issue many commands, with a rest between phases."""
    s = Script(rng, 1, proto=rng.choice([0, 0, 3]))
    if s.proto == 3:
        s.extra["get"] = "HTTP/1.0 200 OK\r\n\r\n"
    s.add("await", i=1).sync()
    t = rng.choice(['Digest realm="r", nonce="%N%", qop="auth"'] * 4 + ['Digest realm="r", nonce="%N%"', 'Basic realm="r"'])
    if rng.random() < .7:
        s.answer(0, 401, "", "basic" if "Basic" in t else rng.choice(["d1", "d2", "d3"])).sync()
    s.answer(0).sync()
    s.answer(0).sync()
    s.answer(0, 200, rng.choice(["12345", "A-%d" % rng.randint(1, 999)])).sync()
    for k in range(phases):
        th = [[dict(verb=rng.choice(["PLAY", "PAUSE", "OPTIONS", "DESCRIBE"])) for _ in range(cmds)] for _ in range(threads)]
        s.add("par", threads=th, ms=20, auto=dict(dict(seed=rng.randint(1, 10 ** 9), delay=rng.choice([0, 0, 1, 4]), rechal=rng.choice([0, .05, .3]), nonces=["na", "nb", "nc", "na2", "nb2"],
                                                       template=t, resess=0, fail=.1, frames=rng.choice([0, .1, .5])), **auto))
        s.add("quiet", ms=250).sync()
    return s


def rush(c, b, groups, selftest):
    """Sessions side by side in one process, judged by RushTrace."""
    res = c.execute_pool(b, [dict(op="rush", limit=300, sessions=[s.case() for s in g]) for g in groups], procs=2, par=1, mem=12 << 30)
    beh, src = [], []
    for g, r in zip(groups, res):
        if "group" not in r:
            if "skip" not in r:
                c.violation("sessions side by side: %s" % str(r)[:1500], dict(sessions=[s.case() for s in g][:2], result=r))
            continue
        for s, x in zip(g, r["group"]):
            if "log" not in x or "open" in x:
                c.violation("session failed: %s" % str(x)[:300], dict(case=s.case(), result=x))
                continue
            t = trace(s, x, table=brief)
            ev = t["ev"]
            at = next((i for i, e in enumerate(ev) if e["e"] == "cmd"), len(ev))
            before, lines = ev[:at], []
            used = [[e["cseq"], e["cseq"]] for e in before if e["e"] == "req"]
            chal = [e["ch"] for e in before if e["e"] == "snd" and e["k"] == "resp" and e["code"] == 401][-1:] or [NOCH]
            counts = collections.defaultdict(set)
            for e in before:
                if e["e"] == "req" and e["auth"]["scheme"] == "digest":
                    counts[next((d["v"] for d in e["auth"]["dirs"] if d["n"] == "nonce"), "")].add(e["nc"])
            sid = [e["sess"] for e in before if e["e"] == "snd" and e["k"] == "resp" and e["sess"]][-1:] or [""]
            lines.append(dict(e="begin", base=t["base"], sess=sid[0], chal=chal[0], used=sorted(map(list, set(map(tuple, used)))), user=s.user, counts=[dict(n=n, c=[[k, k] for k in sorted(v)]) for n, v in counts.items()], **{"pass": s.pw}))
            lines += ev[at:]
            beh.append(lines)
            src.append((s, x))
    if not beh:
        return
    for bi, li, what in c.validate("RushTrace", "RushTrace.cfg", beh, selftest=selftest, label="rush", heap="4g"):
        e = beh[bi][li]
        if sum(1 for v in c.violations) < 20:
            c.violation("in a rush of commands: %s: %s" % (what, describe(e)), dict(case=src[bi][0].case(), events=[{k: v for k, v in x.items() if k != "md5"} for x in beh[bi][max(0, li - 60):li + 1]]))


def check_S08(c):
    """Concurrent commands."""
    rng, sc = c.rng, []
    b = c.build("vh-session")
    groups = [[rushed(rng, rng.choice([2, 4, 8]), rng.choice([20, 60]), 2) for _ in range(8)] for _ in range(c.pick(5, 60))]
    groups += [[rushed(rng, 6, 100, 2, delay=0, frames=0, rechal=0.02) for _ in range(4)] for _ in range(c.pick(2, 20))]
    if c.thorough:      # more than 65536 requests on one connection
        groups += [[rushed(rng, 4, 17500, 1, delay=0, frames=0, rechal=0)]]

    def bad(l):
        if l["e"] == "req" and l["cseq"] > 30:
            l["cseq"] -= 1
            return l
    rush(c, b, groups, bad)
    for _ in range(c.pick(160, 1500)):
        sc.append(concurrent(rng, rng.randint(2, 4), rng.randint(2, 5), rng.choice([0, 1, 3]), rng.choice([0, .2, .6])))
    for _ in range(c.pick(40, 400)):      # a rush of commands
        sc.append(concurrent(rng, rng.randint(4, 8), rng.randint(3, 6), rng.choice([0, 20]), rng.choice([0, .1])))
    judge(c, sc, ["auth", "sess"], b=b, procs=8, par=2)
    c.assume += ASSUME


def check_S09(c):
    """The form of every request."""
    rng = c.rng
    b = c.build("vh-session")
    users = [("uSeR7q", "pAsS9z"), ("uSeR7q", ""), ("us eR7q/:@", "pA:s@/9z?#"), ("\u00fcSeR7q", "pAsS\u00e99z"), ("uSeR7q", "pAsS9z%41"), None]
    paths = ["", "/", "/live/main", "/a?b=c&d=e,f", "?x=1", "/a%20b/c;p=1", "/%C3%A9?u=%2F", "/cam/realmonitor?channel=1&subtype=0", "/a:b@c", "/a%2Fb", "/cam?", "/a//b/../c", "/%61%7Eb"]
    cases, info = [], []
    for n in range(c.pick(260, 3000)):
        cred = rng.choice(users)
        host, port, auth = rng.choice([("127.0.0.1", None, "127.0.0.1:%PORT%")] * 5 + [("127.0.0.1", None, "localhost:%PORT%"), ("::1", None, "[::1]:%PORT%")])
        if rng.random() < .25:
            host, port = "127.1.%d.%d" % (n // 250, n % 250 + 1), "554"
            auth = host
        elif n % 40 == 39:
            host, port, auth = "::1", "554", "[::1]"
        path = rng.choice(paths)
        s = Script(rng, rng.randint(1, 2), cred is not None, path=path, proto=rng.choice([0, 0, 1]))
        s.feeds = [dict(abs=False, v=v) for v in rng.sample(["t1", "trackID=2", "a/b?c=1&d=e;x", "video"], len(s.feeds))]
        s.body = description(s.feeds, rng)
        k = rng.choice(["d1", "d3", "d4", "d5", "basic"]) if cred else ""
        s.add("await", i=1).sync()
        if k:
            s.answer(0, 401, "", k).sync()
        s.answer(0).sync()
        s.answer(0).sync()
        for f in s.feeds:      # refused over UDP, so that no port is opened
            s.answer(0, 404 if s.proto else 200, "" if s.proto else "abc123").sync()
        for v in rng.sample(["PLAY", "PAUSE", "OPTIONS", "DESCRIBE", "TEARDOWN"], 5):
            s.add("cmd", verb=v).sync()
            if k and rng.random() < .3:
                s.answer(0, 401, "", rng.choice(["d1", "d2", "basic"])).sync()
            s.answer(0, 200 if v in ("OPTIONS", "DESCRIBE") else 455).sync()
        if s.proto and rng.random() < .3:
            s.add("sleep", ms=4300).sync()
        k = s.case()
        u = "" if cred is None else quote(cred[0]) + (":" + quote(cred[1]) if cred[1] or rng.random() < .5 else "") + "@"
        k.update(url="rtsp://" + u + auth + path, host=host)
        if port:
            k["port"] = port
        cases.append(k)
        sec = [x for x in cred if x] if cred else []
        sec += [quote(x) for x in sec] + ([base64.b64encode(("%s:%s" % cred).encode()).decode()] if cred else [])
        info.append(("rtsp://" + (auth if port is None else auth + ":554"), sorted(set(sec))))
    res = c.execute_pool(b, cases)
    seen, lines, beh = set(), [], []
    n = 0
    for k, r, (authority, sec) in zip(cases, res, info):
        if "skip" in r:
            c.cov["skipped"] = c.cov.get("skipped", 0) + 1
            continue
        if "log" not in r or "open" in r:
            c.violation("session failed: %s" % str(r)[:400], dict(case=k, result=r))
            continue
        for e in r["log"]:
            if e["e"] == "junk":
                c.violation("bytes that are no request: %r" % e["raw"][:300], dict(case=k, raw=e["raw"]))
            if e["e"] == "stuck":
                c.violation("the session is stuck", dict(case=k, log=r["log"]))
            if e["e"] == "req":
                n += 1
                au = authority.replace("%PORT%", r["port"])
                key = (e["raw"], au)
                if key not in seen:
                    seen.add(key)
                    beh.append([dict(b=list(e["raw"].encode("latin-1")), authority=list(au.encode()), secrets=[list(x.encode("utf-8")) for x in sec])])
                    lines.append((k, e["raw"]))
    if not beh:
        c.problem("no request was recorded")
        return
    c.log("%d requests, %d sessions could not be served here" % (n, c.cov.get("skipped", 0)))

    def corrupt(l):
        i = rng.choice([0, 1, 2, 3])
        if i == 0:
            l["b"] = l["b"][:-2]
        elif i == 1:
            l["b"] = l["b"] + [65]
        elif i == 2:
            l["b"].remove(13)
        elif l["secrets"]:
            l["b"][-2:-2] = list(b"X-Y: a") + l["secrets"][0] + [13, 10]
        return l
    # nothing but faults may be reported for these
    for bi, li, what in c.validate("RequestTrace", "RequestTrace.cfg", beh, selftest=corrupt, label="requests"):
        c.violation("%s: %r" % (what, lines[bi][1][:500]), dict(case=lines[bi][0], raw=lines[bi][1]))
    c.cov["requests"] = n
    c.sample(dict(request=lines[-1][1]))
    c.assume += ["source URLs are valid URLs (no blanks in the query); absolute control URIs are the server's words and not judged here"]
