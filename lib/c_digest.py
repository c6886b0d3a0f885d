"""S06: authentication values verified by the specification's server."""
import base64, hashlib, json, random

QUOTED = {"realm", "nonce", "opaque", "domain", "qop"}


def spell(n, rng):
    return rng.choice([n, n, n.upper(), n.capitalize()])


def render(ch, rng):
    s = spell({"basic": "Basic", "digest": "Digest"}.get(ch["scheme"], ch["scheme"]), rng) + " "
    parts = []
    for d in ch["dirs"]:
        q = d["n"] in QUOTED or d["n"] not in ("stale", "algorithm") or rng.random() < .3
        eq = rng.choice(["=", "=", "=", " = ", "= "])
        parts.append(spell(d["n"], rng) + eq + ('"%s"' % d["v"] if q else d["v"]))
    sep = rng.choice([", ", ", ", ",", " , ", ",, ", ",\t"])
    return rng.choice(["", "", " "]) + s + rng.choice(["", "", " "]) + sep.join(parts) + rng.choice(["", "", " "])


def parse(v):
    """An Authorization value as tokens; None if it is not one."""
    s, _, rest = v.partition(" ")
    s = s.lower()
    if s == "basic":
        try:
            return dict(scheme=s, text=base64.b64decode(rest, validate=True).decode("utf-8"))
        except Exception:
            return None
    dirs, i, n = [], 0, len(rest)
    while i < n:
        while i < n and rest[i] in " ,\t":
            i += 1
        if i >= n:
            break
        j = rest.find("=", i)
        if j < 0:
            return None
        name = rest[i:j].strip().lower()
        i = j + 1
        while i < n and rest[i] == " ":
            i += 1
        if i < n and rest[i] == '"':
            j = rest.find('"', i + 1)
            if j < 0:
                return None
            val, i = rest[i + 1:j], j + 1
            k = i
            while k < n and rest[k] in " \t":
                k += 1
            if k < n and rest[k] != ",":
                return None
        else:
            j = rest.find(",", i)
            j = n if j < 0 else j
            val, i = rest[i:j].strip(), j
            if not val or any(c in val for c in ' "'):
                return None
        if any(d["n"] == name for d in dirs):
            return None
        dirs.append(dict(n=name, v=val))
    return dict(scheme=s, dirs=dirs)


def table(ch, user, pw, calls, vals):
    """MD5 facts the verification may ask for."""
    t = {}

    def h(x):
        t[x] = hashlib.md5(x.encode("utf-8")).hexdigest()
        return t[x]
    D = {d["n"]: d["v"] for d in ch["dirs"]}
    realm, nonce = D.get("realm", ""), D.get("nonce", "")
    g = lambda a, n: next((d["v"] for d in (a.get("dirs") or []) if d["n"] == n), "")
    if not vals or vals[0].get("dirs") is None:
        return []
    for r, a in zip(calls, vals):
        cn, nc, q = g(a, "cnonce"), g(a, "nc"), g(a, "qop")
        base = "%s:%s:%s" % (user, realm, pw)
        a1 = [h(base)]
        for c in (cn, g(vals[0], "cnonce")):
            a1.append(h("%s:%s:%s" % (h(base), nonce, c)))
        a2 = [h("%s:%s" % (r["verb"], r["uri"])), h("%s:%s:%s" % (r["verb"], r["uri"], h(r["body"])))]
        for x in a1:
            for y in a2:
                h("%s:%s:%s" % (x, nonce, y))
                h("%s:%s:%s:%s:%s:%s" % (x, nonce, nc, cn, q, y))
    return [dict(x=k, h=v) for k, v in t.items()]


WORDS = ["a", "realm", "nonce=", "x,y", "=", "==", ",", " ", "qop=auth", "Camera 7", "algorithm=MD5-sess", "é", ":", "0f3c", "/", "stale", "Digest "]


def words(rng, lo=0, hi=4):
    return "".join(rng.choice(WORDS) for _ in range(rng.randint(lo, hi)))


def rchallenge(rng):
    s = rng.choice(["digest"] * 8 + ["basic", "basic", "bearer", "ntlm", "negotiate", "x-digest"])
    # texts of any length
    long = lambda: words(rng, 40, 300) if rng.random() < .04 else ""
    dirs = [dict(n="realm", v=words(rng) + long())]
    q, qops = "", []
    if s == "digest":
        dirs.append(dict(n="nonce", v=words(rng, 1) if rng.random() < .7 else "%032x" % rng.getrandbits(128) + long()))
        if rng.random() < .5:
            dirs.append(dict(n="opaque", v=words(rng) + long()))
        if rng.random() < .7:
            known = [k for k in ("auth", "auth-int") if rng.random() < .6] or ["auth"]
            qops = known + [k for k in ("token", "auth-conf") if rng.random() < .2]
            rng.shuffle(qops)
            q = rng.choice([",", ", ", " , "]).join(rng.choice([k, k, k.upper()]) for k in qops)
            dirs.append(dict(n="qop", v=q))
        k = rng.random()
        alg = None
        if k < .3:
            alg = rng.choice(["MD5", "md5"])
        elif k < .5 and q:
            alg = rng.choice(["MD5-sess", "md5-sess", "MD5-SESS"])
        elif k < .65:
            alg = rng.choice(["SHA-256", "SHA-256-sess", "SHA-512-256", "MD4", "MD5-session"])
        if alg:
            dirs.append(dict(n="algorithm", v=alg))
        if rng.random() < .3:
            dirs.append(dict(n="stale", v=rng.choice(["true", "FALSE"])))
        if rng.random() < .3:
            dirs.append(dict(n="domain", v="rtsp://a/, rtsp://b/?x=1"))
    for n in ("charset", "userhash", "x-vendor", "nonces", "qo"):
        if rng.random() < .15:
            dirs.append(dict(n=n, v=words(rng) + long()))
    rng.shuffle(dirs)
    return dict(scheme=s, dirs=dirs, qop=q, qops=[k.lower() for k in qops])


def case(ch, user, pw, calls, rng):
    return dict(op="auth", uri=calls[0]["uri"] if calls else "rtsp://h:554/s", challenge=render(ch, rng), user=user, **{"pass": pw}, calls=calls)


def line(ch, k, r):
    vals = [parse(v) for v in r["vals"]]
    if any(v is None for v in vals):
        vals = []        # not an Authorization value at all: too few values
    return dict(ch=ch, err=r["err"], user=k["user"], **{"pass": k["pass"]}, calls=k["calls"], vals=vals,
                md5=table(ch, k["user"], k["pass"], k["calls"], vals))


def check_S06(c):
    b = c.build("vh-rtsp")
    gen = c.cases("DigestGen", "DigestGen.%s.cfg" % c.pick("q", "t"), heap="6g")
    rng = c.rng
    cases, chs = [], []
    for g in gen:
        calls = g["calls"] or [dict(verb="PLAY", uri="rtsp://h:554/s", body="")]
        cases.append(case(g["ch"], "u", "p w", calls, rng))
        chs.append(g["ch"])
    for _ in range(c.pick(3000, 40000)):
        ch = rchallenge(rng)
        uri = "rtsp://h%d:554/%s" % (rng.randint(0, 9), rng.choice(["s", "a?b=c,d", ""]))
        calls = [dict(verb=rng.choice(["OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN"]), uri=uri,
                      body=rng.choice(["", "", "v=0", "a:b"])) for _ in range(rng.choice([1, 2, 3, 5, 20]))]
        user = rng.choice(["admin", "u ser", "é", "a,b=c", "x"])
        cases.append(case(ch, user, rng.choice(["", "12345", "p:w", "a\"b", "ü,="]), calls, rng))
        chs.append(ch)
    for n in c.pick([40, 300], [40, 300, 1100, 4200]):      # counts of several digits
        for q in ("auth", "auth-int", ""):
            ch = dict(scheme="digest", dirs=[dict(n="realm", v="r"), dict(n="nonce", v="n0nce")] + ([dict(n="qop", v=q)] if q else []), qop=q, qops=[q] if q else [])
            cases.append(case(ch, "admin", "12345", [dict(verb=rng.choice(["PLAY", "OPTIONS"]), uri="rtsp://h:554/s", body="") for _ in range(n)], rng))
            chs.append(ch)
    beh = []
    for ch, k, r in zip(chs, cases, c.execute(b, cases)):
        if "err" not in r:
            c.violation("%s: %s" % (k["challenge"], str(r)[:200]), dict(case=k, result=r))
            continue
        beh.append((k, r, [line(ch, k, r)]))
    c.cov["behaviours_replayed"] = len(gen)

    def corrupt(l):
        if l["vals"] and l["vals"][0].get("dirs"):
            for d in l["vals"][-1]["dirs"]:
                if d["n"] == "response":
                    d["v"] = d["v"][:-1] + ("0" if d["v"][-1:] != "0" else "1")
            return l
    for bi, li, info in c.validate("DigestTrace", "DigestTrace.cfg", [x[2] for x in beh], selftest=corrupt):
        k, r, ln = beh[bi]
        what = dict(refused="a usable challenge is refused", accepted="an unusable challenge is accepted", value="a value does not verify")[info]
        c.violation("%s: %s answered %s" % (what, k["challenge"], json.dumps(r["vals"][:3])), dict(case=k, result=r))
    c.sample(dict(generated=gen[len(gen) // 2]))
    c.sample(dict(recorded=beh[-1][2][0]))
    c.assume += ["no quotes or backslashes in quoted text; user names of Basic without colon",
                 "a Digest challenge without nonce, MD5-sess without qop and a qop list without auth or auth-int are left open",
                 "an MD5-sess session may stay bound to the client nonce of its first value or to the current one"]
