import base64, json

EOL = ["\r\n", "\n"]


def text(lines, rng=None):
    """Render structured lines; rng varies what does not matter."""
    out = []
    for x in lines:
        k = x["k"]
        if k == "m":
            port = rng.choice(["0", "49170", "5004/2"]) if rng else "0"
            pr = rng.choice(["RTP/AVP", "RTP/AVP", "RTP/SAVP", "RTP/AVPF"]) if rng else "RTP/AVP"
            out.append("m=%s %s %s %s" % (x["media"], port, pr, " ".join(map(str, x["pts"]))))
        elif k == "control":
            out.append("a=control:" + x["v"])
        elif k == "rtpmap":
            enc = x["enc"].lower() if rng and rng.random() < .2 else x["enc"]
            out.append("a=rtpmap:%d %s/%d%s" % (x["pt"], enc, x["clock"], x.get("extra", "")))
        elif k == "fmtp":
            sep = rng.choice(["; ", ";"]) if rng else "; "
            ps = []
            for p in x["ps"]:
                v = p["v"]
                if p["n"] == "sprop-parameter-sets":
                    v = ",".join(base64.b64encode(bytes(b)).decode() for b in v)
                elif p["n"] == "config":
                    v = bytes(v).hex()
                    v = v.upper() if rng and rng.random() < .5 else v
                ps.append("%s=%s" % (p["n"], v))
            end = rng.choice(["", "", "", ";"]) if rng else ""
            out.append("a=fmtp:%d %s" % (x["pt"], sep.join(ps)) + end)
        else:
            out.append(x["v"])
    if not rng:
        return "\r\n".join(out) + "\r\n"
    mix = rng.randrange(3)
    t = ""
    for i, ln in enumerate(out):
        t += ln + (EOL[mix] if mix < 2 else rng.choice(EOL))
    if rng.random() < .2:
        t = t.rstrip("\r\n")
    return t


NAMES = {96: "H264", 97: "MPEG4-GENERIC"}


def entries(feeds):
    return [dict(pt=f["pt"], control=f["control"], codec=NAMES.get(f["codec"], "" if f["codec"] == 0 else "?"), clock=f["scale"],
                 sprops=f["sprop"], config=f["config"], sizelength=f["sizelen"], indexlength=f["idxlen"]) for f in feeds]


def norm(e):
    return json.dumps(e, sort_keys=True)


LOOKALIKE = ["a=x-dimensions:control:elsewhere", "a=tool:H264/48000", "a=framesize:96 704-576", "a=cliprect:0,0,576,704", "a=range:npt=0-",
             "a=x-qt-text-nam:a/b/c;config=0102;sizelength=9", "b=AS:5000", "c=IN IP4 239.0.0.1/127", "i=H264/90000 control:x",
             "a=recvonly", "a=x-sprop:96 sprop-parameter-sets=AAAA; x=1", "a=framerate:25.0", "k=clear:rtpmap:96 H264/1", "a=mid:1/2",
             "a=xcontrol:no", "a=x-fmtp:96 a=1; indexlength=7", "a=Media_header:MEDIAINFO=494D4B48010100;", "u=http://h264/264;config=00", "a=controls:no/5"]
HEAD = ["v=0", "o=- 1 1 IN IP4 10.0.0.1", "s=Media/Session;config=11", "c=IN IP4 0.0.0.0", "t=0 0", "a=control:*", "a=control:rtsp://h/session/",
        "a=range:npt=now-", "a=rtpmap:96 H264/1234", "a=fmtp:96 sprop-parameter-sets=AAAA,BBBB; sizelength=3", "a=tool:x/3"]


def uri(rng):
    return rng.choice(["trackID=%d" % rng.randrange(4), "streamid=0", "rtsp://cam/live/track%d" % rng.randrange(9), "rtsp://cam:554/H264/90/1;a=b;config=9",
                       "track1/H264/3", "video;sizelength=4", "a:b:c", "*", "rtsp://u/x?control:y=1&z=2", "H264/16000", "trackID=1/2/3", "t,1"])


def section(rng):
    media = rng.choice(["video", "video", "video", "audio", "application", "text", "videos", "message"])
    pts = [rng.choice([96, 97, 98, 26, 33, 127, 0]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    pts = list(dict.fromkeys(pts))
    body = []
    if rng.random() < .9:
        body.append(dict(k="control", v=uri(rng) + ("" if rng.random() < .96 else "/" + "p" * rng.choice([260, 2000, 5000]))))
    for pt in pts:
        if rng.random() < .85:
            body.append(dict(k="rtpmap", pt=pt, enc=rng.choice(["H264", "H264", "H264", "MPEG4-GENERIC", "H265", "JPEG", "MP4V-ES", "X-H264"]),
                             clock=rng.choice([90000, 90000, 1000, 48000, 8000]), extra=rng.choice(["", "", "", "/2"])))
        if rng.random() < .7:
            ps = []
            cand = ["packetization-mode", "profile-level-id", "sprop-parameter-sets", "config", "sizelength", "indexlength", "x-config", "indexdeltalength", "sprop-parameter-setsx"]
            rng.shuffle(cand)
            for n in cand[:rng.randint(1, 6)]:
                if n == "sprop-parameter-sets":
                    n1, n2 = rng.choice([(9, 3)] * 8 + [(60, 2), (4, 33), (900, 2)])
                    v = [[rng.choice([103, 104, 39])] + [rng.choice([255, 251, 190, 0, rng.randrange(256)]) for _ in range(rng.randint(0, n1))] for _ in range(rng.randint(1, n2))]
                elif n == "config":
                    v = [rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 4, 5, 5, 40, 700]))]
                elif n in ("sizelength", "indexlength"):
                    v = rng.randint(1, 32)
                else:
                    v = rng.choice(["1", "640028", "0/3", "config"])
                ps.append(dict(n=n, v=v))
            body.append(dict(k="fmtp", pt=pt, ps=ps))
    for _ in range(rng.randint(0, 4)):
        body.append(dict(k="other", v=rng.choice(LOOKALIKE)))
    if rng.random() < .06:      # however long the lines are
        body.append(dict(k="other", v="a=x-note:" + rng.choice("Ax;=/ ") * rng.choice([250, 1020, 4100, 9000, 66000]) + "."))
    rng.shuffle(body)
    return [dict(k="m", media=media, pts=pts)] + body


def describe(rng):
    lines = [dict(k="other", v="v=0")]
    for h in rng.sample(HEAD, rng.randint(0, len(HEAD))):
        # before the first media section every line is of the session level
        lines.append(dict(k="other", v=h))
    for _ in range(rng.randint(0, 5) if rng.random() < .97 else rng.randint(8, 40)):
        lines += section(rng)
    return lines


def check_D01(c):
    b = c.build("vh-sdp")
    gen = c.cases("SdpGen", "SdpGen.%d.cfg" % c.pick(4, 5), heap="8g")
    cases = [dict(text=text(g["lines"])) for g in gen]
    for g, case, r in zip(gen, cases, c.execute(b, cases)):
        if "feeds" not in r:
            c.violation("description %r: %s" % (case["text"], str(r)[:200]), dict(case=case, result=r))
        elif norm(entries(r["feeds"])) != norm(g["want"]):
            c.violation("description %r: expected %s, got %s" % (case["text"], g["want"], entries(r["feeds"])), dict(case=case, want=g["want"], result=r))
    c.cov["behaviours_replayed"] = len(gen)
    c.sample(dict(generated=gen[len(gen) // 2]))
    ds = [describe(c.rng) for _ in range(c.pick(3000, 30000))]
    cases = [dict(text=text(d, c.rng)) for d in ds]
    beh = []
    for d, case, r in zip(ds, cases, c.execute(b, cases)):
        if "feeds" not in r:
            c.violation("description %r: %s" % (case["text"], str(r)[:200]), dict(case=case, result=r))
        else:
            beh.append((case, [dict(lines=d, got=entries(r["feeds"]))]))

    def corrupt(l):
        if l["got"]:
            l["got"][0]["clock"] += 1
            return l
    for bi, li, info in c.validate("SdpTrace", "SdpTrace.cfg", [x[1] for x in beh], selftest=corrupt):
        c.violation("description %r gave %s" % (beh[bi][0]["text"], json.dumps(beh[bi][1][0]["got"])), dict(case=beh[bi][0], got=beh[bi][1][0]))
    c.cov["entries_seen"] = sum(len(x[1][0]["got"]) for x in beh)
    c.sample(dict(recorded=beh[3][0]["text"]))
    c.assume += ["an attribute given twice in one section, and parameters in upper case, are left open",
                 "attributes of payload types other than the section's first do not describe its stream"]
