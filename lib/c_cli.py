"""E01: the ouro command against a scripted camera."""
import asyncio, json, os, random, re, subprocess, time
import vlib

LOOP = """SPECIFICATION Spec
CONSTANTS
  MinWait = 2
  MaxWait = 8
  W = 5
  Delays = {0, 3}
  Media = {"none", "good", "bad"}
  Feeds = %d
  MayClose = %s
  MaxChal = %d
INVARIANTS Obeyed Emit
PROPERTY Exits
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
  MinWait = 1500
  MaxWait = 14000
"""


def frame(ch, b):
    return b"$" + bytes([ch]) + len(b).to_bytes(2, "big") + b


def rtp(rng, sn, payload, ver=2, cc=0, x=0, p=0):
    h = bytes([ver << 6 | p << 5 | x << 4 | cc, 96 | rng.randint(0, 1) << 7]) + (sn & 65535).to_bytes(2, "big") + rng.randint(0, 2 ** 32 - 1).to_bytes(4, "big") + bytes(4)
    return h + payload


def blob(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "big") if n else b""


class Media:
    """Packets of one kind, one after another."""

    def __init__(self, rng, feeds):
        self.rng, self.feeds, self.sn = rng, feeds, rng.randint(0, 65535)

    def good(self):
        r = self.rng
        self.sn += 1
        ch = 2 * r.randrange(self.feeds)
        k = r.random()
        if k < .12:
            return frame(ch + 1, bytes([0x80, 200, 0, 6]) + blob(r, 24))
        if k < .16:
            return frame(ch + 1, bytes([0x81, 203, 0, 1]) + blob(r, 4))
        if k < .6:
            return frame(ch, rtp(r, self.sn, bytes([0x60 | r.choice([1, 5, 6, 7, 8])]) + blob(r, r.choice([1, 20, 1300]))))
        if k < .75:      # STAP-A
            u = [bytes([0x60 | r.choice([7, 8, 5])]) + blob(r, r.randint(1, 60)) for _ in range(r.randint(1, 4))]
            return frame(ch, rtp(r, self.sn, b"\x78" + b"".join(len(x).to_bytes(2, "big") + x for x in u)))
        o = b""
        n = r.randint(2, 5)
        for i in range(n):      # FU-A
            o += frame(ch, rtp(r, self.sn, bytes([0x7c, (0x80 if i == 0 else 0x40 if i == n - 1 else 0) | 5]) + blob(r, r.choice([5, 1300]))))
            self.sn += 1
        return o

    def bad(self):
        r = self.rng
        self.sn += 1
        ch = 2 * r.randrange(self.feeds)
        return r.choice([
            lambda: frame(ch, b""), lambda: frame(ch, blob(r, r.randint(1, 11))),
            lambda: frame(ch, rtp(r, self.sn, blob(r, 30), ver=r.choice([0, 1, 3]))), lambda: frame(ch, rtp(r, self.sn, blob(r, 8), cc=15)),
            lambda: frame(ch, rtp(r, self.sn, b"\x00\x00\xff\xff", x=1)), lambda: frame(ch, rtp(r, self.sn, b"abc\xff", p=1)), lambda: frame(ch, rtp(r, self.sn, b"")),
            lambda: frame(ch, rtp(r, self.sn, b"\x78\x00\x40abc")), lambda: frame(ch, rtp(r, self.sn, b"\x78\x00")), lambda: frame(ch, rtp(r, self.sn, b"\x7c")), lambda: frame(ch, rtp(r, self.sn, b"\x7c\x05abc")),
            lambda: frame(ch, rtp(r, self.sn, b"\x7d\x85\x01")), lambda: frame(ch, rtp(r, self.sn, b"\x7a\x00\x01\x00\x03\x00")), lambda: frame(ch, rtp(r, self.sn, b"\x7b\x00")),
            lambda: frame(ch, rtp(r, self.sn, bytes([r.choice([0x1e, 0x1f, 0x00, 0x80])]) + blob(r, 5))), lambda: frame(ch, rtp(r, self.sn, b"\x00\x00\x01")), lambda: frame(ch, rtp(r, self.sn, b"\x00\x00\x00\x01")),
            lambda: frame(ch + 1, b""), lambda: frame(ch + 1, b"\x80\xc8"), lambda: frame(ch + 1, b"\x40\xc8\x00\x06" + blob(r, 24)), lambda: frame(ch + 1, b"\x80\xc8\x00\x06abc"), lambda: frame(ch + 1, b"\x82\xcb\x00\x00"),
            lambda: frame(r.choice([20, 21, 255]), blob(r, r.randint(0, 40))), lambda: frame(ch, blob(r, 2000)), lambda: frame(ch + 1, blob(r, 300))])()


async def camera(binary, g, seed, feeds, heavy):
    """One run of the command; what the camera saw."""
    rng = random.Random(seed)
    t0 = time.monotonic()
    log, script, med = [], list(g), Media(rng, feeds)
    now = lambda: int((time.monotonic() - t0) * 1000)
    state = dict(kind="none", on=True, w=None)

    def take(v):
        while script and script[0]["v"] == v == "SETUP" and False:
            pass
        d = dict(delay=0, media="none", chal=False, close=False)
        if v == "OPTIONS":
            if script and script[0]["v"] == "chal":
                d["chal"] = True
                script.pop(0)
            elif script and script[0]["v"] == "close":
                d["close"] = True
            return d
        if script and script[0]["v"] == v:
            e = script.pop(0)
            d.update(delay=e["delay"], media=e["media"])
            if script and script[0]["v"] == "chal":
                d["chal"] = True
                script.pop(0)
            if script and script[0]["v"] == "close":
                d["close"] = True
        return d

    async def send(w, b):
        w.write(b)
        await asyncio.wait_for(w.drain(), 10)

    async def some(w, kind, n):
        for _ in range(n):
            if kind != "none" and not w.is_closing():
                m = b"".join(med.good() if kind == "good" else rng.choice([med.bad, med.bad, med.good])() for _ in range(rng.choice([1, 1, 3])))
                await send(w, m)

    async def serve(r, w):
        state["w"] = w
        retry, setups, closing = set(), 0, None
        pump = None

        async def pumper():
            while True:
                await asyncio.sleep(.05)
                await some(w, state["kind"], heavy)
        try:
            pump = asyncio.ensure_future(pumper())
            while True:
                head = (await r.readuntil(b"\r\n\r\n")).decode("latin-1")
                v = head.split(" ", 1)[0]
                m = re.search(r"(?im)^cseq:\s*(\d+)", head)
                cs = m.group(1) if m else "?"
                again = cs in retry
                retry.discard(cs)
                if not again:
                    log.append(dict(e="req", v=v, t=now()))
                    d = take(v)
                    state["kind"] = d["media"] if v != "OPTIONS" else "none"
                    await some(w, d["media"], rng.choice([0, 2, 30]) * heavy)
                    if d["chal"]:
                        retry.add(cs)
                        await send(w, ("RTSP/1.0 401 Unauthorized\r\nCSeq: %s\r\nWWW-Authenticate: Digest realm=\"r\", nonce=\"n%s\"\r\n\r\n" % (cs, cs)).encode())
                        state["d"] = d
                        continue
                else:
                    d = state["d"]
                if d["delay"]:
                    await asyncio.sleep(2.6)
                after = rng.random() < .5 and v != "TEARDOWN"
                if d["close"] and not after:
                    break
                hdr, body = "", ""
                if v == "OPTIONS":
                    hdr = "Public: OPTIONS, DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE\r\n"
                elif v == "DESCRIBE":
                    body = "v=0\r\ns=x\r\n" + "".join("m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:t%d\r\n" % i for i in range(feeds))
                    hdr = "Content-Type: application/sdp\r\nContent-Length: %d\r\n" % len(body)
                elif v == "SETUP":
                    tr = re.search(r"(?im)^transport:\s*(.*?)\r$", head)
                    hdr = "Transport: %s\r\nSession: 77\r\n" % (tr.group(1) if tr else "")
                if v == "SETUP":
                    setups += 1
                    if setups < feeds:
                        hdr += "X-More: 1\r\n"
                    if rng.random() < .3:
                        await asyncio.sleep(rng.choice([.05, .4]))
                await send(w, ("RTSP/1.0 200 OK\r\nCSeq: %s\r\n%s\r\n%s" % (cs, hdr, body)).encode())
                log.append(dict(e="ans", v=v, ok=True, n=feeds if v == "DESCRIBE" else 0, t=now()))
                if d["close"] and (v != "SETUP" or setups == feeds):
                    await asyncio.sleep(rng.choice([0, .5, 2.5]))
                    break
            log.append(dict(e="close", t=now()))
        except asyncio.TimeoutError:
            log.append(dict(e="stalled", t=now()))
        except (asyncio.IncompleteReadError, ConnectionError, asyncio.CancelledError):
            pass
        finally:
            if pump:
                pump.cancel()
            w.close()

    srv = await asyncio.start_server(serve, "127.0.0.1", 0, limit=1 << 20)
    port = srv.sockets[0].getsockname()[1]
    p = await asyncio.create_subprocess_exec(binary, "rtsp://user:pw@127.0.0.1:%d/cam" % port, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    code = -1
    try:
        code = await asyncio.wait_for(p.wait(), 60)
    except asyncio.TimeoutError:
        p.kill()
        await p.wait()
    log.append(dict(e="exit", code=code, t=now()))
    srv.close()
    if state["w"]:
        state["w"].close()
    return [dict(e="begin")] + sorted(log, key=lambda x: x["t"])


def check_E01(c):
    """The command."""
    rng = c.rng
    binary = os.path.join(c.work, "ouro")
    p = subprocess.run(["go", "build", "-o", binary, "./cmd/ouro"], cwd=vlib.REPO, env=dict(vlib.goenv(), GOFLAGS="-mod=mod" if False else ""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise vlib.CheckError("the command does not build:\n" + p.stdout.decode()[-1500:])
    runs = []
    for feeds, close, chal, n in ((1, False, 2, c.pick(40, 300)), (2, False, 1, c.pick(40, 300)), (3, True, 1, c.pick(40, 300))):
        gen = c.cases("CliLoop", LOOP % (feeds, "TRUE" if close else "FALSE", chal), heap="12g")
        for g in rng.sample(gen, min(n, len(gen))):
            runs.append((g["script"], rng.randint(1, 10 ** 9), feeds, rng.choice([1, 1, 1, 3])))

    def play(runs, width):
        async def main():
            sem = asyncio.Semaphore(width)

            async def one(r):
                async with sem:
                    return await camera(binary, *r)
            return await asyncio.gather(*[one(r) for r in runs])
        return asyncio.run(main())

    def corrupt(l):
        if l["e"] == "req" and l["v"] in ("PAUSE", "TEARDOWN"):
            l["t"] -= 5000
        elif l["e"] == "exit":
            l["code"] = 1
        return l
    beh = play(runs, c.pick(120, 150))
    c.log("%d runs of the command" % len(runs))
    rej = c.validate("CliTrace", TRACE, beh, selftest=corrupt, label="runs")
    if rej:
        ix = sorted({b for b, _, _ in rej})[:24]
        c.log("running %d again without load" % len(ix))
        again = play([runs[i] for i in ix], 12)
        for b, li, what in c.validate("CliTrace", TRACE, again, label="again"):
            c.violation("%s not allowed: %s" % (what, json.dumps(again[b][:li + 1])[:900]), dict(run=runs[ix[b]], log=again[b], at=li))
    c.sample(dict(script=runs[0][0], seen=beh[0]))
    c.cov["packets_per_run"] = "tens to hundreds, good and damaged"
    c.assume += ["'some seconds' is between 1.5 and 14 s as the camera sees it; the command's log output is not judged"]
