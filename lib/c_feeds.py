"""F01: the feeds of a description."""
import json
import c_sdp, c_transport, c_psets


def usable(rng):
    """A parameter set as a description carries it."""
    k = rng.random()
    chroma = {}
    if k < .4:
        b = [rng.choice([0x67, 0x27, 0x47])] + c_psets.esc(c_psets.sps(rng, rng.choice([0, 0, 1, 2, 31]), chroma))
    elif k < .8:
        b = [rng.choice([0x68, 0x28])] + c_psets.esc(c_psets.pps(rng, rng.choice([0, 0, 1, 255]), rng.choice([0, 1, 31]), {})[0])
    elif k < .9:
        b = rng.choice([[0x06, 5, 1, 0, 0x80], [0x65, 1, 2, 3], [0x69, 0x10], [0x67], [0x68]])
    else:
        b = [0x67] + c_psets.baseline(rng.choice([0, 3]))
        b = b[:rng.randint(1, len(b) - 1)]
    return b


def describe(rng):
    lines = c_sdp.describe(rng)
    for x in lines:
        if x["k"] == "fmtp" and rng.random() < .9:
            for p in x["ps"]:
                if p["n"] == "sprop-parameter-sets":
                    p["v"] = [usable(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
    return lines


def view(f):
    w = dict(e=c_sdp.entries([f])[0], set=f["set"], sps=f["sps"], pps=f["pps"])
    tk = c_transport.tokens(f["header"]) or ("none", [])
    w.update(lower=tk[0], params=tk[1])
    return w


def check_F01(c):
    b = c.build("vh-rtsp")
    rng = c.rng
    gen = c.cases("FeedsGen", "FeedsGen.%d.cfg" % c.pick(2, 3), heap="6g")
    n = c.pick(1600, 16000)
    gen = gen if len(gen) <= n else rng.sample(gen, n)
    c.cov["behaviours_replayed"] = len(gen)
    hist = [(g["proto"], g["lines"], [(a["i"], a["h"]) for a in g["ans"]], None) for g in gen]
    for k_ in range(c.pick(1500, 15000)):
        lines = describe(rng)
        if k_ < 8:      # many sections
            lines = [x for _ in range(rng.choice([17, 33, 40])) for x in c_sdp.section(rng)]
        proto = rng.choice(["tcp", "http", "unicast", "multicast"])
        k = sum(x["k"] == "m" and x["media"] == "video" for x in lines)
        ans = []
        for _ in range(rng.choice([1, k, k, k + 1, 2 * k]) if k else 0):
            h = c_transport.rheader(rng)
            if rng.random() < .6:           # an answer that echoes what was asked for
                i = rng.randrange(k)
                h = dict(lower="TCP", params=[dict(n="interleaved", v=[2 * i, 2 * i + 1])]) if proto in ("tcp", "http") else dict(lower="UDP", params=[dict(n="unicast"), dict(n="client_port", v=[50000 + 2 * i, 50001 + 2 * i]), dict(n="server_port", v=[6000, 6001])])
                if rng.random() < .2:
                    h["params"].append(dict(n=rng.choice(["ttl", "port"]), bad=True))
                ans.append((i, h))
                continue
            if h["lower"] == "" and proto in ("tcp", "http"):
                h["lower"] = "TCP"
            ans.append((rng.randrange(k), h))
        hist.append((proto, lines, ans, rng))
    cases = [dict(op="feeds", proto=p, text=c_sdp.text(ls, r), ans=[dict(i=i, value=c_transport.render(h, rng)) for i, h in ans]) for p, ls, ans, r in hist]
    beh, ix = [], []
    for (p, ls, ans, _), k, r in zip(hist, cases, c.execute(b, cases)):
        if "res" not in r or r["err"] or any("missing" in x for x in r["res"]):
            c.violation("feeds of %r: %s" % (k["text"][:300], str(r)[:300]), dict(case=k, result=r))
            continue
        beh.append([dict(proto=p, lines=ls, views=[view(f) for f in r["views"]],
                         ans=[dict(i=i, h=h, err=x["err"], views=[view(f) for f in x["views"]]) for (i, h), x in zip(ans, r["res"])])])
        ix.append((k, r))

    def corrupt(l):
        for a in l["ans"]:
            for v in a["views"]:
                if v["set"] and v["sps"]:
                    v["sps"][0]["f"]["width"] += 1
                    return l
    for bi, li, info in c.validate("FeedsTrace", "FeedsTrace.cfg", beh, selftest=corrupt, label="feeds", heap="3g"):
        k, r = ix[bi]
        c.violation("%s: %s gave %s" % (info, json.dumps(k)[:600], json.dumps(r)[-400:]), dict(case=k, result=r))
    c.cov["sets_stored"] = sum(len(v["sps"]) + len(v["pps"]) for x in beh for a in x[0]["ans"][-1:] for v in a["views"])
    c.sample(dict(recorded=cases[-1]))
    c.assume += ["transport, description and parameter set forms as in T01, D01, P01 and P02",
                 "what TransportHeader says after a refused answer is left open"]
