"""C01: reading a connection."""
import json


def latin(x):
    return list(x.encode("latin-1"))


def rstream(rng):
    n = rng.choice([0, 1, 5, 40, 40, 300, 2047, 2048, 2049, 5000, 9000])
    t = ""
    while len(t) < n:
        t += rng.choice(["\n", "\r\n", "$\x00\x00\x05", "RTSP/1.0 200 OK", "x" * rng.choice([1, 9, 200, 3000]), "".join(chr(rng.randrange(256)) for _ in range(9))])
    return t[:n]


def chunked(rng, t, cuts, gaps):
    ch, at = [], 0
    for z in sorted(set(cuts)) + [len(t)]:
        if z > at:
            ch.append(dict(b=t[at:z], gap=rng.choice(gaps) if ch else 0))
            at = z
    return ch


def rop(rng, slow):
    k = rng.random()
    if k < .3:
        return [dict(op="peek", n=rng.choice([1, 1, 2, 4, 4, 12, 100, 256]))]
    if k < .6:
        return [dict(op="bytes", n=rng.choice([0, 1, 2, 3, 10, 100, 1000, 2047, 2048, 2049, 4500]))]
    o = rng.choice([dict(op="discard", n=rng.choice([1, 2, 4, 12, 100])), dict(op="byte", n=0), dict(op="u16", n=0)] + ([] if slow else [dict(op="line", n=0)]))
    # what has been seen by Peek can be read without waiting
    return ([dict(op="peek", n=max(o["n"], 2))] if slow or rng.random() < .3 else []) + [o]


def check_C01(c):
    b = c.build("vh-session")
    rng = c.rng
    gen = c.cases("ConnGen", "ConnGen.%d.cfg" % c.pick(3, 4), heap="8g")
    n = c.pick(4000, 30000)
    gen = gen if len(gen) <= n else rng.sample(gen, n)
    c.cov["behaviours_replayed"] = len(gen)
    cases = []
    for g in gen:
        t = bytes(g["b"]).decode("latin-1")
        cases.append(dict(op="conn", chunks=chunked(rng, t, rng.sample(range(len(t)), rng.randint(0, min(2, len(t)))), [1, 1, 2]), timeout=3000, close=True, ops=g["ops"], b=t))
    for k in range(c.pick(2500, 20000)):
        t = rstream(rng)
        slow = k % 4 == 0
        cuts = [rng.randrange(len(t) + 1) for _ in range(rng.choice([0, 1, 2, 4]))]
        cases.append(dict(op="conn", chunks=chunked(rng, t, cuts, [0, 1, 60, 80] if slow else [0, 0, 1, 3]), timeout=25 if slow else 3000, close=True, b=t,
                          ops=[o for _ in range(rng.choice([1, 3, 10, 40])) for o in rop(rng, slow)]))
    quiet = []
    for k in range(c.pick(60, 400)):    # nothing comes: the read gives up in time
        t = rstream(rng)[:rng.choice([0, 1, 40])].replace("\n", "x")
        o = rng.choice([dict(op="byte", n=0), dict(op="u16", n=0), dict(op="line", n=0), dict(op="peek", n=3), dict(op="discard", n=3), dict(op="unpack", n=0)])
        quiet.append(dict(op="conn", chunks=chunked(rng, t, [], [0]), timeout=rng.choice([30, 100, 300]), close=False, silent=True, b=t, ops=([dict(op="bytes", n=len(t))] if t else []) + [o]))
        if o["op"] == "unpack":      # once a response has begun, the rest is awaited
            quiet[-1].update(ops=quiet[-1]["ops"][-1:] if not t else [dict(op="bytes", n=len(t)), o])
    res = c.execute_pool(b, cases + quiet, procs=8, par=32)
    beh, ix = [], []
    for k, r in zip(cases + quiet, res):
        if "res" not in r:
            c.violation("%s: %s" % (str(k)[:300], str(r)[:300]), dict(case=k, result=r))
            continue
        if k.get("silent"):
            if not r["late"] or r["took"] < k["timeout"] * .5:
                c.violation("a silent connection with a read timeout of %d ms: %s after %d ms" % (k["timeout"], json.dumps(r["res"][-1:]), r["took"]), dict(case=k, result=r))
            continue
        rs = [dict(ok=x["ok"], v=(latin(x["v"]) if isinstance(x.get("v"), str) else x.get("v", 0))) for x in r["res"]]
        beh.append([dict(b=latin(k["b"]), ops=k["ops"], res=rs)])
        ix.append((k, r))

    def corrupt(l):
        for x in l["res"]:
            if x["ok"] and isinstance(x["v"], int):
                x["v"] += 1
                return l
    for bi, li, info in c.validate("ConnTrace", "ConnTrace.cfg", beh, selftest=corrupt, label="reads", heap="3g"):
        k, r = ix[bi]
        c.violation("%s: stream %r with %s gave %s" % (info, k["b"][:200], json.dumps(k["ops"])[:200], json.dumps(r["res"][-3:])[:300]), dict(case=k, result=r))
    c.cov["silent_connections"] = len(quiet)
    c.sample(dict(case=cases[-1]["ops"][:10], result=res[len(cases) - 1]["res"][:5] if "res" in res[len(cases) - 1] else ""))
    c.assume += ["what a read other than Peek and ReadBytes leaves behind when it times out is left open; Peek of up to 256 octets"]
