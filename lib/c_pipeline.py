"""V01: media from the camera to the units."""
import json, threading
import vlib, c_nal, c_rtp
from c_session import Script
from c_tunnel import tunnel

HOW = {"tcp": 0, "udp": 1, "http": 3}


def rtp(rng, st, pl, ts, m):
    """One RTP packet around a payload."""
    st["sn"] = (st["sn"] + 1) & 65535
    cc = rng.choice([0, 0, 0, 1, 3, 15])
    x, p = rng.random() < .25, rng.random() < .25
    b = [0x80 | p << 5 | x << 4 | cc, m << 7 | st["pt"]] + c_nal.be16(st["sn"]) + c_nal.be16(ts[0]) + c_nal.be16(ts[1]) + st["ssrc"]
    b += [rng.randrange(256) for _ in range(4 * cc)]
    if x:
        n = rng.choice([0, 1, 2, 7])
        b += [0xbe, 0xde] + c_nal.be16(n) + [rng.randrange(256) for _ in range(4 * n)]
    b += pl
    if p:
        n = rng.choice([1, 2, 4, 30])
        b += [rng.choice([0, 255])] * (n - 1) + [n]
    return b


def report(rng):
    c = rng.choice([0, 0, 1, 2])
    n = rng.choice([0, 0, 12])          # profile-specific extension, or a second report
    return [0x80 | c, rng.choice([200, 200, 200, 201, 203])] + c_nal.be16(6 + 6 * c) + [rng.randrange(256) for _ in range(24 + 24 * c + n)]


def traffic(rng, n, big=False):
    """Packets of n streams, as they are sent."""
    q = []
    for k in range(n):
        st = dict(sn=rng.choice([0, 65530, rng.randrange(65536)]), pt=rng.choice([96, 97, 127]), ssrc=[rng.randrange(256) for _ in range(4)])
        s = c_nal.stream(rng, rng.choice(["content", "fragment", "number"]))
        if big and k == 0:
            s += c_nal.big(rng)[3:-2]
        pk = []
        for i, (pl, ts) in enumerate(s):
            b = rtp(rng, st, pl, ts, i + 1 == len(s) or s[i + 1][1] != ts)
            if rng.random() < .04:
                while True:
                    b2 = c_rtp.mutate(rng, b)
                    if not (b2 and b2[0] & 32 and b2[-1] == 0):
                        b = b2
                        break
            pk.append((2 * k, b))
            if rng.random() < .08:
                b = report(rng)
                pk.append((2 * k + 1, b if rng.random() < .9 else b[:rng.randint(0, len(b))]))
        q.append(pk)
    out = []
    while any(q):
        k = rng.choice([i for i in range(n) if q[i]])
        for _ in range(rng.choice([1, 1, 2, 5])):
            if q[k]:
                out.append(q[k].pop(0))
    return out


def script(rng, how, pkts, n):
    """A session during which the packets are sent."""
    s = Script(rng, n, rng.random() < .5, proto=HOW[how])
    if how == "http":
        tunnel(s, rng)
        s.extra.pop("tail", None)
    s.extra["decode"] = True
    s.open()
    if how == "udp":
        s.add("alive", code="ok")
    s.add("cmd", verb="PLAY").add("awaitverb", verb="PLAY").answer(0)
    s.sync()
    busy = None
    slow = 2 if rng.random() < .08 else 0
    for i, (ch, b) in enumerate(pkts):
        kw = {}
        if how != "udp":
            kw["hold"] = rng.random() < .5
            if rng.random() < .4:
                kw["cuts"] = [rng.randint(1, 5000) for _ in range(rng.choice([1, 1, 3]))]
                kw["gap"] = rng.choice([0, 0, 1, 3])
                if slow and rng.random() < .3:
                    slow -= 1
                    kw["gap"] = 2300
                    kw["cuts"] = kw["cuts"][:1]
        elif i % 16 == 15 or len(b) > 1000:
            kw["gap"] = 2
        s.add("packet", ch=ch, raw=bytes(b).decode("latin-1"), **kw)
        if rng.random() < .03 and how != "udp":
            if busy:
                s.answer(0)
                busy = None
            else:
                busy = rng.choice(["PLAY", "OPTIONS", "PAUSE"])
                s.add("cmd", verb=busy).add("awaitverb", verb=busy)
    if busy:
        s.answer(0)
    if how == "udp":
        s.add("quiet", ms=50)
    s.sync()
    s.add("stop")
    return s


def events(r):
    """The trace for Pipeline."""
    ev = [dict(e="begin")]
    for e in r["log"]:
        if e["e"] == "snd" and "raw" in e:
            ev.append(dict(e="sent", ch=e["ch"], b=list(e["raw"].encode("latin-1"))))
        elif e["e"] == "dat" and "err" in e:
            ev.append({k: v for k, v in e.items() if k in ("ch", "err", "perr", "h", "units")} | dict(e="got", altered=e.get("altered", False)))
    return ev + [dict(e="end")]


def check_V01(c):
    b = c.build("vh-session")
    rng = c.rng
    sc = []
    for cfg, n in c.pick([("q", 90), ("l", 30)], [("q", 900), ("l", 300), ("t", 600)]):
        gen = c.cases("PipelineGen", "PipelineGen.%s.cfg" % cfg, name="PipelineGen." + cfg)
        gen = rng.sample(gen, min(n, len(gen)))
        c.cov["behaviours_replayed"] = c.cov.get("behaviours_replayed", 0) + len(gen)
        for g in gen:
            sc.append(("http" if rng.random() < .25 else "tcp", script(rng, "tcp", [(p["ch"], p["b"]) for p in g], 2)))
            if sc[-1][0] == "http":
                sc[-1][1].proto = 3
                tunnel(sc[-1][1], rng).extra.pop("tail", None)
    for how, n in c.pick([("tcp", 70), ("http", 20), ("udp", 14)], [("tcp", 900), ("http", 250), ("udp", 120)]):
        for i in range(n):
            k = rng.choice([1, 1, 2, 3])
            sc.append((how, script(rng, how, traffic(rng, k, i == 0 and how != "udp"), k)))

    def run(sc, label, selftest=None):
        res = [None] * len(sc)
        err = []

        def part(udp):
            ix = [i for i, (h, _) in enumerate(sc) if (h == "udp") == udp]
            try:
                for i, r in zip(ix, c.execute_pool(b, [sc[i][1].case() for i in ix], 1 if udp else 4, 1 if udp else 10) if ix else []):
                    res[i] = r
            except Exception as x:
                err.append(x)
        th = [threading.Thread(target=part, args=(u,)) for u in (True, False)]
        [t.start() for t in th]
        [t.join() for t in th]
        if err:
            raise err[0]
        c.log("%d sessions run" % len(sc))
        beh, ix, bad = [], [], {}
        for i, r in enumerate(res):
            if "log" in r and "open" not in r:
                beh.append(events(r))
                ix.append(i)
            elif "skip" in r:
                c.cov["skipped"] = c.cov.get("skipped", 0) + 1
            else:
                bad[i] = ("session failed: %s" % str(r)[:500], r, False)
        if not beh:
            return bad
        for k, li, what in c.validate("PipelineTrace", "PipelineTrace.cfg", beh, selftest=selftest, label=label, heap="3g"):
            e = {x: str(y)[:300] for x, y in beh[k][li].items()}
            bad.setdefault(ix[k], ("%s over %s: %s" % (what, sc[ix[k]][0], json.dumps(e)), res[ix[k]], what in ("missing", "nothing was sent") or sc[ix[k]][0] == "udp"))
        n = {}
        for x, i in zip(beh, ix):
            for e in x:
                if e["e"] == "got":
                    n[sc[i][0]] = n.get(sc[i][0], 0) + len(e.get("units") or [])
        for h, v in n.items():
            c.cov["units_" + h] = c.cov.get("units_" + h, 0) + v
        return bad

    def corrupt(l):
        if l["e"] == "got" and l.get("units") and not l["perr"] and l["ch"] % 2 == 0:
            l["units"][-1]["h"] ^= 1
            return l
    bad = run(sc, "media", corrupt)
    late = []
    for i, (text, r, timed) in sorted(bad.items()):
        if timed:
            late.append(sc[i])
        else:
            c.violation(text, dict(case=sc[i][1].case(), result=r))
    if late and not c.violations:       # packets may be late, or lost, on a loaded machine
        for k in range(3):
            for i, (text, r, _) in sorted(run(late[:10], "again%d" % k).items()):
                c.violation(text, dict(case=late[i][1].case(), result=r))
            if c.violations:
                break
        else:
            c.cov["not_again"] = len(late)
    c.sample(dict(sent=[(x["ch"], [ord(y) for y in x["raw"][:40]]) for x in sc[5][1].steps if x["a"] == "packet"][:6]))
    c.assume += ["the loopback does not lose datagrams that fit the receive buffer; a rejected history is played again before it counts",
                 "payload forms as in N01 to N03, packets with P set and a padding count of zero are not sent",
                 "a fragment lost in the middle of a series is not noticed (sequence numbers are not part of the depacketizer's interface)"]
