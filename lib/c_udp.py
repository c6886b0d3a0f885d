"""S10: keep-alives. S11: media over UDP."""
import json, threading
import vlib
import c_session
from c_session import Script, trace, corrupt_sess, CFG, ASSUME

LOOP = """SPECIFICATION Spec
CONSTANTS
  P = 4
  R = 4
  Jitter = 0
  Slack = 0
  Skew = 0
  H = %d
  MaxActs = %d
  Acts = {2, 3, 4, 9}
INVARIANTS Observed Regular Emit
"""
VERB = {2: "PLAY", 3: "PAUSE", 4: "TEARDOWN"}


# ---- S10 -----------------------------------------------------------------
def schedule(rng, g, H, proto, mode, pile=0):
    """A schedule of KeepAliveLoop (half seconds) on a session."""
    s = Script(rng, rng.randint(1, 2), True, proto=proto)
    s.mode = mode
    if proto == 3:
        s.extra["get"] = "HTTP/1.0 200 OK\r\n\r\n"
    s.add("await", i=1).sync()
    s.answer(0, 200, rng.choice(["", "s1"])).sync()
    s.answer(0, 200, rng.choice(["", "s2"])).sync()
    if mode:
        s.add("alive", code=mode)
    for k in range(len(s.feeds)):      # refused over UDP: no ports are opened, so sessions can run side by side
        s.answer(0, 461 if proto == 1 else 200, rng.choice(["", "s3"]) if proto != 1 else "")
    at = 0
    for k in range(pile):      # never answered
        s.add("cmd", verb="PLAY").add("awaitverb", verb="PLAY")
    for a in g["script"]:
        s.add("sleep", ms=(a["at"] - at) * 500)
        at = a["at"]
        if a["a"] == 4 and rng.random() < .4:        # earlier commands are confirmed when the session is over
            v = rng.choice(["PLAY", "PAUSE"])
            s.add("cmd", verb=v).add("awaitverb", verb=v).add("cmd", verb="TEARDOWN").add("awaitverb", verb="TEARDOWN")
            s.answer(0, verb="TEARDOWN").sync().answer(0, rng.choice([200, 200, 455]), verb=v)
        elif a["a"] in VERB:
            s.add("cmd", verb=VERB[a["a"]])
            s.add("awaitverb", verb=VERB[a["a"]])
            s.answer(0, 200 if rng.random() < .8 or a["a"] == 4 else 455, rng.choice(["", "", "s4", "s5"]))
        elif rng.random() < .2:
            s.stray(rng.choice(["unknown", "none", "repeat"]))
        else:
            s.frame()
    s.add("sleep", ms=(H - at) * 500)
    # Nothing may be on its way when all has to be quiet.
    return s.add("mark", id=1).add("alive", code="none").add("sleep", ms=100).sync()


def chatty(rng, H, proto, gap, mode):
    s = schedule(rng, dict(script=[]), 0, proto, mode)
    s.steps = s.steps[:-4]
    verb = rng.choice(["", "PLAY", "PAUSE"])
    if verb:
        s.add("cmd", verb=verb).add("awaitverb", verb=verb).answer(0)
    s.add("chat", ms=H * 500, gap=gap, len=rng.choice([0, 10, 1000]), id=rng.randint(1, 10 ** 6), ch=0)
    if rng.random() < .4:
        s.add("cmd", verb="TEARDOWN").add("awaitverb", verb="TEARDOWN").answer(0)
        s.add("chat", ms=4500, gap=gap, len=5, id=3, ch=0)
    # Nothing may be on its way when all has to be quiet.
    return s.add("mark", id=1).add("alive", code="none").add("sleep", ms=100).sync()


def times(s, r):
    """What the observer of KeepAlive sees."""
    ev, seen, n = [dict(e="begin", on=s.proto == 1)], set(), 0
    for e in r["log"]:
        if e["e"] == "rep":
            ev.append(dict(e="stage", s=e["stage"], t=e["t"]))
        elif e["e"] == "req" and e["raw"].startswith("OPTIONS "):
            q = c_session.request(e["raw"])
            n += 1
            if n > 1 and q["cseq"] not in seen:
                ev.append(dict(e="beat", t=e["t"]))
            seen.add(q["cseq"])
        elif e["e"] == "mark":
            ev.append(dict(e="end", t=e["t"]))
            break
    return ev


def check_S10(c):
    """Keep-alives."""
    rng = c.rng
    b = c.build("vh-session")
    H = c.pick(22, 28)
    gen = c.cases("KeepAliveLoop", LOOP % (H, 3), heap="12g")
    sc = []
    for g in rng.sample(gen, c.pick(170, 2500)):
        sc.append(schedule(rng, g, H, rng.choice([1, 1, 1, 1, 0, 3]), rng.choice(["ok", "ok", "none", "454", "401"])))
    for gap in (60, 110, 230, 470, 900, 1700):
        for mode in ("ok", "401"):
            for k in range(c.pick(2, 20)):
                sc.append(chatty(rng, c.pick(18, 40), 1, gap, mode))
    for proto in (0, 3, 1):
        for mode in ("ok", "none", "454", "401"):
            sc.append(schedule(rng, dict(script=[]), c.pick(26, 60), proto, mode))
            sc.append(schedule(rng, dict(script=[dict(at=2, a=2)]), c.pick(26, 60), proto, mode))
    for k in (3, 9, 20, 40):
        sc.append(schedule(rng, dict(script=[]), H, 1, rng.choice(["ok", "none"]), k))
    for s in sc:
        if s.proto != 1:
            s.steps = [x for x in s.steps if x["a"] != "alive" or x["code"] == "none"]      # none are expected

    def run(sc, procs, par, label, selftest=True):
        res = c.execute_pool(b, [s.case() for s in sc], procs=procs, par=par)
        c.log("%d sessions run" % len(sc))
        ok = []
        for i, r in enumerate(res):
            if "skip" in r:
                c.cov["skipped"] = c.cov.get("skipped", 0) + 1
            elif "log" not in r or "open" in r:
                c.violation("session failed: %s" % str(r)[:500], dict(case=sc[i].case(), result=r))
            elif not any(e["e"] == "mark" for e in r["log"]):
                c.violation("session is stuck: %s" % str(r["log"][-4:])[:500], dict(case=sc[i].case(), result=r))
            else:
                ok.append(i)
        beh = [times(sc[i], res[i]) for i in ok]
        if not beh:
            return [], {}
        bad = {}

        def corrupt(l):
            if l["e"] == "beat":
                l["t"] += 1200
            elif l["e"] == "begin":
                l["on"] = not l["on"]
            return l
        for k, li, what in c.validate("KeepAliveTrace", "KeepAliveTrace.cfg", beh, selftest=corrupt if selftest else None, label=label):
            bad.setdefault(k, (li, what))
        tr = [trace(sc[i], res[i]) for i in ok]
        # between the last thing seen and the end there is only the sync
        for k, at in c.explain("SessionTrace", CFG % '"sess"', tr, selftest=corrupt_sess if selftest else None, label=label + "-course"):
            bad.setdefault(k, (at, None))
        c.sample(dict(observed=beh[len(beh) // 2]))
        c.cov["beats"] = c.cov.get("beats", 0) + sum(e["e"] == "beat" for x in beh for e in x)
        return ok, {ok[k]: (li, what, beh[k], tr[k]) for k, (li, what) in bad.items()}
    ok, bad = run(sc, 8, 60, "beats")
    if bad and not c.violations:
        # Times may be off under load: look again without any.
        again = [sc[i] for i in sorted(bad)[:40]]
        c.log("looking at %d sessions again" % len(again))
        ok, bad = run(again, 4, 10, "again", False)
        for i, (li, what, beh, tr) in sorted(bad.items())[:10]:
            if what:
                c.violation("keep-alives over %s: %s not allowed in %s" % ("TCP UDP multicast HTTP".split()[again[i].proto], beh[li], json.dumps(beh)[:700]), dict(case=again[i].case(), times=beh, at=li))
            else:
                c_session.report(c, again[i], tr, li)
        if not bad:
            c.cov["late_under_load"] = c.cov.get("late_under_load", 0) + len(again)
    c.sample(dict(schedule=gen[len(gen) // 2]))
    c.assume += ASSUME + ["seen from the server, keep-alives may be up to 0.4 s closer together and 0.8 s later than the client's clock has them"]


# ---- S11 -----------------------------------------------------------------
GEN = """SPECIFICATION Spec
CONSTANTS
  N = %d
  MaxSends = %d
  Sizes = {"s"}
  MaxHolds = %d
  WithRefusals = %s
  MaxStops = %d
  Early = %s
INVARIANTS Right InOrder Complete Emit
"""
SIZES = [0, 1, 2, 12, 13, 100, 188, 1200, 1400, 1472, 1500, 2047, 2048, 2049, 4096, 8192, 9000]
ANSWERS = ["%TRANSPORT%;ssrc=0badcafe", "%TRANSPORT%;server_port=6970-6971", "%TRANSPORT%;source=127.0.0.1;server_port=6970-6971;ssrc=1", "%TRANSPORT%;mode=play"]


def media(rng, acts, n, host, challenge=False):
    """A history of UdpGen with sizes and contents."""
    s = Script(rng, n, True, proto=1)
    s.host = host
    s.extra["host"] = host
    s.transport = rng.choice(ANSWERS)
    s.add("await", i=1).sync()
    s.answer(0).sync()
    s.answer(0).sync()
    s.add("alive", code="ok")
    order, held = list(range(n)), False
    big = 0
    for a in acts:
        k = a["a"]
        if k == "setup":
            if challenge and rng.random() < .4:
                i = order.index(a["i"])
                s.answer(i, 401, "", "d1").sync()
                order.append(order.pop(i))
                challenge = False
            s.answer(order.index(a["i"]), 200 if a["ok"] else rng.choice([404, 461, 500]))
            order.remove(a["i"])
            if not order:
                s.sync()
        elif k == "send":
            z = a.get("n")
            if z is None:
                z = rng.choice(SIZES)
                if rng.random() < .15 and not held and big < 3:
                    z, big = rng.choice([20000, 65000, 65507]), big + 1
            s.add("udp", i=a["i"], which=a["w"], len=z, id=rng.randint(1, 10 ** 6), **({} if host != "127.0.0.1" or rng.random() < .7 else dict(src=rng.choice(["127.0.0.9", "127.1.2.3", "127.0.0.254"]))))
            if z > 9000:
                s.add("sleep", ms=15)
        elif k == "hold":
            s.add("holddata")
            held = True
        elif k == "release":
            s.add("release").add("quiet", ms=50)
            held = False
        elif k == "stop":
            if order:        # not Ready yet
                s.sync()
            s.add("stop").add("free")
        elif k == "cmd":
            s.add("cmd", verb=a["verb"]).add("awaitverb", verb=a["verb"]).answer(0)
    s.add("release").add("quiet", ms=50)
    s.sync()
    s.add("stop").add("free")
    return s


def rhistory(rng):
    """A long history."""
    n = rng.randint(1, 5) if rng.random() < .85 else rng.choice([6, 8, 9, 11, 17])
    acts = [dict(a="setup", i=i, ok=rng.random() < .85) for i in rng.sample(range(n), n)]
    hold = stopped = False
    for k in range(rng.randint(2, 6)):
        m = rng.random()
        if m < .25 and not stopped:
            acts.append(dict(a="cmd", verb=rng.choice(["PLAY", "PAUSE", "OPTIONS"][:2])))
        elif m < .4:
            acts.append(dict(a="hold"))
            hold = True
        elif m < .55:
            acts.append(dict(a="release"))
            hold = False
        elif m < .65:
            acts.append(dict(a="stop"))
            stopped = True
        i, w = rng.randrange(n), rng.randint(0, 1)
        for j in range(rng.choice([1, 3, 10, 24, 45])):
            if rng.random() < .5:
                i, w = rng.randrange(n), rng.randint(0, 1)
            acts.append(dict(a="send", i=i, w=w, **(dict(n=rng.choice([0, 1, 40, 300])) if hold else {})))
    return n, acts


def traffic(s, r):
    """The trace for Udp."""
    ev, feed, up, ports, advert = [dict(e="begin", n=len(s.feeds))], {}, set(), {}, []
    for e in r["log"]:
        k = e["e"]
        if k == "req" and e["raw"].startswith("SETUP "):
            q = c_session.request(e["raw"])
            if q["cseq"] not in feed:
                feed[q["cseq"]] = len(feed)
        elif k == "snd" and e["k"] == "resp" and e["cseq"].isdigit() and int(e["cseq"]) in feed and e["code"].startswith("200"):
            ev.append(dict(e="set", i=feed[int(e["cseq"])]))
        elif k == "rep" and e["stage"] == 1:
            ev.append(dict(e="ready"))
        elif k == "snd" and e["k"] == "udp":
            ev.append(dict(e="udp", i=e["feed"], w=e["which"], sum=e["sum"]))
        elif k == "dat":
            ev.append(dict(e="dat", ch=e["ch"], sum=e["sum"]))
        elif k in ("quiet", "stopped", "free"):
            ev.append({x: v for x, v in e.items() if x in ("e", "ok")})
        elif k == "stuck":
            ev.append(dict(e="stopped", ok=False))
    return ev


def check_S11(c):
    """Media over UDP."""
    import socket
    rng = c.rng
    b = c.build("vh-session")
    hosts = ["127.0.0.1"]
    try:
        k = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        k.bind(("::1", 0))
        k.close()
        hosts.append("::1")
    except OSError:
        pass
    sc = []
    for n, sends, holds, stops, early, count in c.pick([(1, 4, 1, 1, False, 40), (2, 3, 1, 1, False, 80), (3, 2, 0, 1, False, 40), (2, 2, 0, 2, True, 30)],
                                                       [(1, 5, 1, 2, True, 300), (2, 3, 1, 2, False, 500), (2, 2, 1, 3, True, 300), (3, 3, 0, 1, False, 400), (4, 2, 0, 0, False, 150)]):
        gen = c.cases("UdpGen", GEN % (n, sends, holds, "TRUE", stops, "TRUE" if early else "FALSE"), heap="14g")
        for g in rng.sample(gen, min(count, len(gen))):
            sc.append(media(rng, g["script"], n, rng.choice(hosts), challenge=rng.random() < .1))
    for _ in range(c.pick(60, 700)):
        n, acts = rhistory(rng)
        sc.append(media(rng, acts, n, rng.choice(hosts), challenge=rng.random() < .2))

    def run(sc, label, selftest=None):
        res = [None] * len(sc)

        def one(h):      # the client always asks for the same ports: one session at a time per address
            ix = [i for i, s in enumerate(sc) if s.host == h]
            for i, r in zip(ix, c.execute_pool(b, [sc[i].case() | dict(url=sc[i].case()["url"].replace("127.0.0.1", "[::1]" if h == "::1" else h)) for i in ix], 1, 1) if ix else []):
                res[i] = r
        err = []

        def guard(h):
            try:
                one(h)
            except Exception as x:
                err.append(x)
        th = [threading.Thread(target=guard, args=(h,)) for h in hosts]
        [t.start() for t in th]
        [t.join() for t in th]
        if err:
            raise err[0]
        c.log("%d sessions run" % len(sc))
        ok, bad = [], {}
        for i, r in enumerate(res):
            if "skip" in r:
                c.cov["skipped"] = c.cov.get("skipped", 0) + 1
            elif "log" not in r or "open" in r:
                c.violation("session failed: %s" % str(r)[:500], dict(case=sc[i].case(), result=r))
            else:
                ok.append(i)
        beh = [traffic(sc[i], res[i]) for i in ok]
        if not beh:
            return {}
        for k, li, what in c.validate("UdpTrace", "UdpTrace.cfg", beh, selftest=selftest, label=label):
            bad.setdefault(ok[k], "datagrams: %s not allowed after %s" % (json.dumps(beh[k][li]), json.dumps(beh[k][max(0, li - 8):li])[:600]))
        tr = []
        for i in ok:
            t = trace(sc[i], res[i])
            t["base"] = t["base"].replace("127.0.0.1", "[::1]" if sc[i].host == "::1" else sc[i].host)
            t["ev"] = [e for e in t["ev"] if e["e"] != "stuck"]
            tr.append(t)
        for k, at in c.explain("SessionTrace", CFG % '"sess"', tr, label=label + "-course"):
            e = tr[k]["ev"][at] if at < len(tr[k]["ev"]) else {}
            bad.setdefault(ok[k], "course of the session: " + c_session.describe(e) if e else "course")
        c.cov["datagrams"] = c.cov.get("datagrams", 0) + sum(e["e"] == "udp" for x in beh for e in x)
        c.sample(dict(traffic=beh[len(beh) // 2][:30]))
        return {i: (t, res[i]) for i, t in bad.items()}

    def corrupt(l):
        if l["e"] == "dat":
            l["ch"] ^= 1
        return l
    bad = run(sc, "traffic", corrupt)
    if bad and not c.violations:
        # Datagrams may be late, or lost, on a loaded machine: only what happens again counts.
        again = [sc[i] for i in sorted(bad)[:12]]
        c.log("looking at %d sessions again" % len(again))
        for k in range(3):
            for i, (text, r) in sorted(run(again, "again%d" % k).items()):
                c.violation(text, dict(case=again[i].case(), result=r))
            if c.violations:
                break
        else:
            c.cov["not_again"] = len(bad)
    c.assume += ASSUME + ["the loopback does not lose datagrams that fit the receive buffer; a rejected history is played again before it counts"]
