import random


def run(c, b, op, bufs):
    """Unpack every buffer with the real code; violations for panics."""
    res = c.execute(b, [dict(op=op, buf=x) for x in bufs])
    out = []
    for x, r in zip(bufs, res):
        if "err" not in r:
            c.violation("%s buffer of %d bytes: %s" % (op, len(x), str(r)[:200]), dict(op=op, buf=x, result=r))
        else:
            out.append((x, dict(op=op, buf=x, r=r)))
    return out


def validate(c, lines, selftest):
    n = 60
    groups = [lines[i:i + n] for i in range(0, len(lines), n)]
    for bi, li, info in c.validate("RtpTrace", "RtpTrace.cfg", [[y for _, y in g] for g in groups], selftest=selftest):
        x, y = groups[bi][li]
        c.violation("%s unpacked wrongly: buffer %s gave %s" % (info, str(x)[:120], str(y["r"])[:300]), y)
    c.cov["traces_validated_against_impl"] += len(lines) - len(groups)


def mutate(rng, x):
    x = list(x)
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.randrange(6)
        if k == 0 and x:
            x[rng.randrange(len(x))] = rng.randrange(256)
        elif k == 1 and x:
            x[rng.randrange(min(len(x), 4))] ^= 1 << rng.randrange(8)
        elif k == 2:
            x = x[:rng.randint(0, len(x))]
        elif k == 3:
            x += [rng.randrange(256) for _ in range(rng.randint(1, 30))]
        elif k == 4 and x:
            x[-1] = rng.choice([0, 1, 2, 3, 4, 255, len(x) % 256])
        elif k == 5 and x:
            x[0] = (x[0] & 0x3f) | 0x80
    return x


def field(rng, n):
    """A field of n octets: often one of its extremes."""
    k = rng.random()
    if k < .12:
        return [0] * n
    if k < .2:
        return [255] * n
    if k < .25:
        return [0] * (n - 1) + [rng.randrange(256)]
    return [rng.randrange(256) for _ in range(n)]


def rand_rtp(rng):
    cc = rng.choice([0, 0, 1, 2, 3, 7, 15, rng.randrange(16)])
    x, p = rng.random() < .4, rng.random() < .4
    b = [0x80 | (p << 5) | (x << 4) | cc] + field(rng, 1) + field(rng, 2) + field(rng, 4) + field(rng, 4)
    for _ in range(cc):
        b += field(rng, 4)
    if x:
        n = rng.choice([0, 1, 2, 5, 20])
        b += field(rng, 2) + [n >> 8, n & 255] + field(rng, 4 * n)
    b += field(rng, rng.choice([0, 1, 2, 10, 100, 400]))
    if p:
        n = rng.choice([1, 2, 4, 60])
        b += [rng.randrange(256)] * (n - 1) + [n]
    return b


def check_R01(c):
    b = c.build("vh-rtp")
    gen = c.cases("RtpGen", c.pick("RtpGen.quick.cfg", "RtpGen.thorough.cfg"))
    for (x, y), g in zip(run(c, b, "rtp", [g["buf"] for g in gen]), gen):
        if x == g["buf"] and y["r"] != g["r"]:
            c.violation("packet %s: expected %s, got %s" % (str(x)[:120], str(g["r"])[:300], str(y["r"])[:300]), dict(case=g, result=y["r"]))
    c.cov["behaviours_replayed"] = len(gen)
    c.sample(dict(generated=gen[0]))
    rng = c.rng
    bufs = [[]]
    # every truncation of a selection of generated packets, with and without version bits
    for g in rng.sample(gen, c.pick(12, 60)):
        bufs += [g["buf"][:n] for n in range(min(len(g["buf"]), g["head"] + 3))]
        bufs += [[(g["buf"][0] & 0x3f) | v] + g["buf"][1:] for v in (0, 64, 192)]
    for _ in range(c.pick(2500, 30000)):
        x = rand_rtp(rng)
        bufs.append(mutate(rng, x) if rng.random() < .5 else x)
    # extension and payload lengths beyond one byte, and beyond 65535 bytes
    for words in (255, 256, 300, 16384, 16385):
        bufs.append([0x90, 96, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xBE, 0xDE, words >> 8, words & 255] + [i % 251 for i in range(4 * words)] + [7, 8, 9])
        bufs.append(bufs[-1][:-4])
    bufs.append([0xA0] + [1] * 11 + [9] * 300 + [255])
    bufs.append([0xA0] + [1] * 11 + [9] * 254 + [255])
    bufs.append([0xA0] + [1] * 11 + [9] * 253 + [255])
    bufs.append([0x80] + [1] * 11 + [i % 256 for i in range(65507 - 12)])

    def corrupt(l):
        if not l["r"]["err"]:
            l["r"]["ts"][1] ^= 1
            return l
    lines = run(c, b, "rtp", bufs)
    validate(c, lines, corrupt)
    c.cov["accepted"] = sum(not y["r"]["err"] for _, y in lines)
    c.cov["refused"] = sum(y["r"]["err"] for _, y in lines)
    c.sample(dict(recorded=lines[5][1]))
    c.assume += ["a padding count of zero may be refused or ignored", "rtp.Packet.Pack (unfinished) is not claimed"]


def check_R02(c):
    b = c.build("vh-rtp")
    gen = c.cases("RtcpGen", c.pick("RtcpGen.quick.cfg", "RtcpGen.thorough.cfg"))
    for (x, y), g in zip(run(c, b, "rtcp", [g["buf"] for g in gen]), gen):
        if x == g["buf"] and y["r"] != g["r"]:
            c.violation("packet %s: expected %s, got %s" % (str(x)[:120], g["r"], y["r"]), dict(case=g, result=y["r"]))
    c.cov["behaviours_replayed"] = len(gen)
    c.sample(dict(generated=gen[0]))
    rng = c.rng
    bufs = [[]]
    for n in range(0, 40):
        for h in ([0x80, 200], [0x81, 200], [0x80, 201], [0x41, 200], [0xa0, 204]):
            bufs.append((h + [rng.randrange(256) for _ in range(40)])[:n])
    for _ in range(c.pick(2500, 30000)):
        cnt = rng.choice([0, 1, 2, 5, 31])
        x = [rng.choice([0x80, 0x80, 0xa0, 0x40]) | cnt, rng.choice([200, 200, 200, 201, 202, 203, 204, rng.randrange(256)])]
        y = field(rng, 2) + field(rng, 4) + field(rng, 8) + field(rng, 4) + field(rng, 4) + field(rng, 4)
        n = 26 + 24 * cnt + rng.choice([0, 0, 0, -1, 1, 4, 40, -24, -20])
        x += (y + [rng.randrange(256) for _ in range(max(0, n - len(y)))])[:n]
        bufs.append(mutate(rng, x) if rng.random() < .4 else x)

    def corrupt(l):
        if not l["r"]["err"] and l["r"]["sr"]:
            l["r"]["oc"][0] ^= 1
            return l
    lines = run(c, b, "rtcp", bufs)
    validate(c, lines, corrupt)
    c.cov["accepted"] = sum(not y["r"]["err"] for _, y in lines)
    c.cov["refused"] = sum(y["r"]["err"] for _, y in lines)
    c.sample(dict(recorded=lines[50][1]))
    c.assume += ["report blocks are not exposed by the package and not claimed"]
