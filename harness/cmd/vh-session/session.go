package main

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtsp"
	"verif/harness/xrun"
)

// One step of a script. What the fields mean depends on A.
type step struct {
	A     string    `json:"a"`
	ID    int       `json:"id"`
	Verb  string    `json:"verb"`
	I     int       `json:"i"`    // which unanswered request, oldest first
	Code  string    `json:"code"` // status line after the version
	Hdrs  [][2]Text `json:"hdrs"`
	Body  Text      `json:"body"`
	Cseq  string    `json:"cseq"` // stray: the literal CSeq, or "repeat", "none"
	Ch    int       `json:"ch"`
	Len   int       `json:"len"`
	Raw   Text      `json:"raw"`
	Ms    int       `json:"ms"`
	Hold  bool      `json:"hold"` // keep for the next write
	Cuts  []int     `json:"cuts"` // where to cut the write into segments
	Gap   int       `json:"gap"`  // pause at each cut, milliseconds
	Gaps  []int     `json:"gaps"`
	At    []place   `json:"at"` // symbolic cuts, see cut
	Which int       `json:"which"`
	Src   string    `json:"src"`
	Thr   [][]step  `json:"threads"`
	Auto  *auto     `json:"auto"`
	// What an answer carries depending on the verb answered; %TRANSPORT%
	// stands for the Transport header of the request.
	PerVerb map[string]extra `json:"per"`
}

// A place within what has been held back: the item and a part of it.
type place struct {
	I    int    `json:"i"`
	Part string `json:"part"`
	Arg  int    `json:"arg"`
	Gap  int    `json:"gap"`
}

// cut gives the offset of p in b; items are where the items start.
func (p place) cut(b []byte, items []int) int {
	if p.I >= len(items) {
		return 0
	}
	from, to := items[p.I], len(b)
	if p.I+1 < len(items) {
		to = items[p.I+1]
	}
	it := b[from:to]
	mille := func(a, z int) int { return from + a + (z-a)*p.Arg/1000 }
	line := bytes.Index(it, []byte("\r\n"))
	head := bytes.Index(it, []byte("\r\n\r\n"))
	switch p.Part {
	case "h": // bytes of a frame header
		return from + p.Arg
	case "p": // payload of a frame
		return mille(4, len(it))
	case "s": // status line
		return mille(0, line)
	case "e": // after the status line
		return from + line + p.Arg
	case "m": // header lines
		return mille(line+2, head)
	case "n": // end of the header
		return from + head + p.Arg
	case "b": // body
		return mille(head+4, len(it))
	}
	return to
}

type extra struct {
	Code string      `json:"code"` // another status, without the other headers
	Hdrs [][2]string `json:"hdrs"`
	Body Text        `json:"body"`
}

// How the server answers by itself while threads run.
type auto struct {
	Seed     int64   `json:"seed"`
	Delay    int     `json:"delay"`    // up to this many ms before an answer
	Rechal   float64 `json:"rechal"`   // probability that a request is challenged
	Nonces   []Text  `json:"nonces"`   // successive nonces
	Template Text    `json:"template"` // challenge text with %N% for the nonce
	Resess   float64 `json:"resess"`   // probability that an answer renames the session
	Fail     float64 `json:"fail"`
	Frames   float64 `json:"frames"`
}

type pending struct {
	cseq      string
	verb      string
	transport string
	hit       bool // challenged already
}

// answer gives the headers and the body for an answer to p.
func (st step) answer(p pending) ([][2]Text, []byte) {
	hs, body := append([][2]Text{}, st.Hdrs...), []byte(st.Body)
	if e, ok := st.PerVerb[p.verb]; ok {
		for _, h := range e.Hdrs {
			hs = append(hs, [2]Text{Text(h[0]), Text(strings.Replace(h[1], "%TRANSPORT%", p.transport, -1))})
		}
		if len(e.Body) > 0 {
			body = e.Body
		}
	}
	return hs, body
}

type sess struct {
	mu      sync.Mutex
	t0      time.Time
	log     []obj
	conn    net.Conn // the connection the server writes to
	ready   chan struct{}
	unans   []pending
	refused map[string]bool // answered 401 and not read again yet
	seen    []pending
	hit     map[string]bool // which requests were challenged by autoServe
	probes  int
	lates   int // syncs after the end
	synced  map[string]bool
	doneRep bool
	cond    *sync.Cond
	held    []byte
	items   []int // where the items in held start
	holdSt  bool
	holdDat bool
	kick    chan struct{}
	auto    *auto
	arng    *rand.Rand
	autoQ   chan pending
	nonce   int
	nsess   int
	nframe  int
	ports   [][2]int
	eof     bool
	s       *rtsp.Session
	udp     net.Conn
	hostip  string
	http    bool
	get     Text
	wmu     sync.Mutex
	conns   []net.Conn
	alive   string // how keep-alives are answered: ok, none, 454, 401
	getTail step
	getCuts []int
	getEnd  bool
	decode  bool
	proto   int
	kept    []keptPacket
	keptLen int
	nals    map[byte]*h264.NALSink
}

func (x *sess) event(o obj) {
	o["t"] = int(time.Since(x.t0) / time.Millisecond)
	x.log = append(x.log, o)
	x.cond.Broadcast()
}

// wait until f holds or the time is up; f is called with the lock held.
func (x *sess) wait(d time.Duration, f func() bool) bool {
	limit := time.Now().Add(d)
	stop := time.AfterFunc(d+time.Millisecond, func() { x.mu.Lock(); x.cond.Broadcast(); x.mu.Unlock() })
	defer stop.Stop()
	x.mu.Lock()
	defer x.mu.Unlock()
	for !f() {
		if time.Now().After(limit) {
			return false
		}
		x.cond.Wait()
	}
	return true
}

func field(head []byte, name string) string {
	for _, l := range strings.Split(string(head), "\r\n")[1:] {
		if i := strings.IndexByte(l, ':'); i > 0 && strings.EqualFold(strings.TrimSpace(l[:i]), name) {
			return strings.TrimSpace(l[i+1:])
		}
	}
	return ""
}

// request handles one complete request as the server read it.
func (x *sess) request(raw []byte) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if bytes.HasPrefix(raw, []byte("PROBE ")) {
		x.probes++
		x.cond.Broadcast()
		return
	}
	verb := string(raw)
	if i := strings.IndexByte(verb, ' '); i >= 0 {
		verb = verb[:i]
	}
	p := pending{cseq: field(raw, "CSeq"), verb: verb, transport: field(raw, "Transport")}
	hit, again := x.hit[p.cseq]
	p.hit = hit
	x.hit[p.cseq] = hit
	x.seen = append(x.seen, p)
	delete(x.refused, p.cseq)
	if verb == "SETUP" {
		var a, b int
		if i := strings.Index(string(raw), "client_port="); i >= 0 && !again {
			fmt.Sscanf(string(raw)[i:], "client_port=%d-%d", &a, &b)
			x.ports = append(x.ports, [2]int{a, b})
		}
	}
	x.event(obj{"e": "req", "raw": Text(raw), "k": len(x.seen) - 1})
	if x.alive != "" && verb == "OPTIONS" && len(x.seen) > 1 {
		x.keptAlive(p)
	} else if x.auto != nil {
		x.autoQ <- p
	} else {
		x.unans = append(x.unans, p)
	}
}

// reader splits what the client sends into requests.
func (x *sess) reader(r io.Reader) {
	br := bufio.NewReader(r)
	var cur []byte
	for {
		b, err := br.ReadByte()
		if err != nil {
			x.mu.Lock()
			if len(cur) > 0 {
				x.event(obj{"e": "junk", "raw": Text(cur)})
			}
			x.eof = true
			x.event(obj{"e": "closed"})
			x.mu.Unlock()
			return
		}
		cur = append(cur, b)
		if bytes.HasSuffix(cur, []byte("\r\n\r\n")) {
			if n, _ := strconv.Atoi(field(cur, "Content-Length")); n > 0 && n < 1<<20 {
				body := make([]byte, n)
				io.ReadFull(br, body)
				cur = append(cur, body...)
			}
			x.request(cur)
			cur = nil
		}
	}
}

// quanta decodes base64 four characters at a time, so that padding may occur
// anywhere between quanta.
type quanta struct {
	r   io.Reader
	x   *sess
	buf []byte
}

func (q *quanta) Read(p []byte) (int, error) {
	for len(q.buf) == 0 {
		var in [4]byte
		for n := 0; n < 4; {
			if _, err := io.ReadFull(q.r, in[n:n+1]); err != nil {
				if n > 0 {
					q.x.mu.Lock()
					q.x.event(obj{"e": "junk", "raw": Text(in[:n])})
					q.x.mu.Unlock()
				}
				return 0, io.EOF
			}
			if in[n] != '\r' && in[n] != '\n' {
				n++
			}
		}
		var out [3]byte
		n, err := base64.StdEncoding.Decode(out[:], in[:])
		if err != nil {
			q.x.mu.Lock()
			q.x.event(obj{"e": "junk", "raw": Text(in[:])})
			q.x.mu.Unlock()
			return 0, io.EOF
		}
		q.buf = append(q.buf, out[:n]...)
	}
	n := copy(p, q.buf)
	q.buf = q.buf[n:]
	return n, nil
}

// serve handles one accepted connection.
func (x *sess) serve(c net.Conn) {
	x.mu.Lock()
	x.conns = append(x.conns, c)
	x.mu.Unlock()
	if !x.http {
		x.conn = c
		close(x.ready)
		x.reader(c)
		return
	}
	br := bufio.NewReader(c)
	var head []byte
	for !bytes.HasSuffix(head, []byte("\r\n\r\n")) {
		b, err := br.ReadByte()
		if err != nil {
			return
		}
		head = append(head, b)
	}
	x.mu.Lock()
	x.event(obj{"e": "http", "raw": Text(head)})
	x.mu.Unlock()
	if bytes.HasPrefix(head, []byte("GET ")) {
		x.conn = c
		b := append([]byte{}, x.get...)
		if st := x.getTail; st.ID > 0 { // a frame right behind the answer
			f := pattern(st.Len, st.ID)
			x.mu.Lock()
			x.event(obj{"e": "snd", "k": "frame", "ch": st.Ch, "sum": sum(f), "id": st.ID})
			x.mu.Unlock()
			b = append(b, frame(st.Ch, f)...)
		}
		at := 0
		for i, k := range x.getCuts {
			if k > at && k < len(b) {
				c.Write(b[at:k])
				at = k
				time.Sleep(time.Duration(1+i%3*9) * time.Millisecond)
			}
		}
		c.Write(b[at:])
		if x.getEnd {
			c.(*net.TCPConn).CloseWrite()
		}
		close(x.ready)
		// Nothing more is expected here.
		rest := make([]byte, 1000)
		n, _ := br.Read(rest)
		if n > 0 {
			x.mu.Lock()
			x.event(obj{"e": "junk", "raw": Text(rest[:n])})
			x.mu.Unlock()
		}
		return
	}
	x.reader(&quanta{r: br, x: x})
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	r := rand.New(rand.NewSource(int64(seed)))
	r.Read(b)
	// Some payloads look like the framing itself.
	if n > 8 && seed%3 == 0 {
		copy(b[n/2:], "$\x00\x00\x02")
	}
	if n > 40 && seed%3 == 1 {
		copy(b[n/3:], "\r\n\r\nRTSP/1.0 200 OK\r\n\r\n")
	}
	return b
}

func sum(b []byte) string {
	h := md5.Sum(b)
	return strconv.Itoa(len(b)) + "-" + hex.EncodeToString(h[:6])
}

func frame(ch int, b []byte) []byte {
	return append([]byte{'$', byte(ch), byte(len(b) >> 8), byte(len(b))}, b...)
}

func respond(code, cseq string, hdrs [][2]Text, body []byte) []byte {
	b := &bytes.Buffer{}
	fmt.Fprintf(b, "RTSP/1.0 %s\r\n", code)
	if cseq != "none" {
		fmt.Fprintf(b, "CSeq: %s\r\n", cseq)
	}
	for _, h := range hdrs {
		b.Write(h[0])
		b.WriteString(": ")
		b.Write(h[1])
		b.WriteString("\r\n")
	}
	if len(body) > 0 {
		fmt.Fprintf(b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.Bytes()
}

// write sends b, with anything held back before, in the given segments.
func (x *sess) write(b []byte, st step) {
	x.wmu.Lock()
	defer x.wmu.Unlock()
	if len(b) > 0 {
		x.items = append(x.items, len(x.held))
	}
	x.held = append(x.held, b...)
	if st.Hold {
		return
	}
	b, x.held = x.held, nil
	items := x.items
	x.items = nil
	type seg struct{ at, gap int }
	var segs []seg
	for k, c := range st.Cuts {
		gap := st.Gap
		if k < len(st.Gaps) {
			gap = st.Gaps[k]
		}
		segs = append(segs, seg{c % (len(b) + 1), gap})
	}
	for _, p := range st.At {
		segs = append(segs, seg{p.cut(b, items), p.Gap})
	}
	sort.Slice(segs, func(i, j int) bool { return segs[i].at < segs[j].at })
	at := 0
	for _, g := range segs {
		if g.at <= at || g.at >= len(b) {
			continue
		}
		x.conn.Write(b[at:g.at])
		at = g.at
		time.Sleep(time.Duration(g.gap) * time.Millisecond)
	}
	x.conn.Write(b[at:])
}

// user reads reports and media until the case is over.
func (x *sess) user(stop chan struct{}) {
	s := x.s
	for {
		state, data := s.State, s.Data
		x.mu.Lock()
		if x.holdSt {
			state = nil
		}
		if x.holdDat {
			data = nil
		}
		x.mu.Unlock()
		select {
		case st := <-state:
			x.mu.Lock()
			x.event(obj{"e": "rep", "stage": st})
			if st == rtsp.StageDone {
				x.doneRep = true
			}
			x.mu.Unlock()
		case p := <-data:
			x.mu.Lock()
			if p.Channel == 255 && bytes.HasPrefix(p.Payload, []byte("SYNC")) {
				x.synced[string(p.Payload)] = true
				x.cond.Broadcast()
			} else {
				e := obj{"e": "dat", "ch": int(p.Channel), "sum": sum(p.Payload)}
				x.event(e)
				x.keep(e, p)
			}
			x.mu.Unlock()
		case <-x.kick:
		case <-stop:
			return
		}
	}
}

// sync waits until the client has dealt with everything sent so far and the
// server has read everything the client wrote because of it.
func (x *sess) sync(id int) bool {
	tag := fmt.Sprintf("SYNC%d", id)
	x.write(frame(255, []byte(tag)), step{})
	late, rest := time.Time{}, 350*time.Millisecond
	ok := x.wait(12*time.Second, func() bool {
		if x.synced[tag] {
			return true
		}
		if x.doneRep {
			if late.IsZero() {
				late = time.Now()
				if x.lates++; x.lates > 4 {
					rest = 20 * time.Millisecond
				}
				time.AfterFunc(rest+20*time.Millisecond, func() { x.mu.Lock(); x.cond.Broadcast(); x.mu.Unlock() })
			}
			return time.Since(late) > rest
		}
		return false
	})
	if !ok {
		x.mu.Lock()
		x.event(obj{"e": "stuck"})
		x.mu.Unlock()
		return false
	}
	x.mu.Lock()
	n := x.probes + 1
	x.mu.Unlock()
	x.s.Conn.Write([]byte("PROBE x\r\n\r\n"))
	x.wait(3*time.Second, func() bool { return x.probes >= n || x.eof })
	x.mu.Lock()
	x.event(obj{"e": "sync"})
	x.mu.Unlock()
	return true
}

func (x *sess) cmd(g, id int, verb string) {
	x.mu.Lock()
	x.event(obj{"e": "cmd", "g": g, "verb": verb})
	x.mu.Unlock()
	var err error
	switch verb {
	case "PLAY":
		err = x.s.Play()
	case "PAUSE":
		err = x.s.Pause()
	case "TEARDOWN":
		err = x.s.Teardown()
	case "OPTIONS":
		err = x.s.Options()
	case "DESCRIBE":
		err = x.s.Describe()
	}
	x.mu.Lock()
	x.event(obj{"e": "ret", "g": g, "err": err != nil})
	x.mu.Unlock()
}

// autoServe answers requests while threads run.
func (x *sess) autoServe() {
	var pend sync.WaitGroup
	for p := range x.autoQ {
		pend.Add(1)
		x.mu.Lock()
		d := time.Duration(0)
		if x.auto.Delay > 0 {
			d = time.Duration(x.arng.Intn(x.auto.Delay*1000)) * time.Microsecond
		}
		x.mu.Unlock()
		go func(p pending) {
			defer pend.Done()
			time.Sleep(d)
			x.mu.Lock()
			a := x.auto
			hdrs := [][2]Text{}
			code, chal, id := "200 OK", "", ""
			if a.Rechal > 0 && !p.hit && x.arng.Float64() < a.Rechal {
				x.hit[p.cseq] = true
				if x.arng.Float64() < .3 {
					x.nonce++
				}
				nonce := string(a.Nonces[x.nonce%len(a.Nonces)])
				chal = strings.Replace(string(a.Template), "%N%", nonce, -1)
				hdrs = append(hdrs, [2]Text{Text("WWW-Authenticate"), Text(chal)})
				code = "401 Unauthorized"
			} else {
				if x.arng.Float64() < a.Fail {
					code = "455 Method Not Valid In This State"
				} else if x.arng.Float64() < a.Resess {
					x.nsess++
					id = fmt.Sprintf("S%d", x.nsess)
					hdrs = append(hdrs, [2]Text{Text("Session"), Text(id + ";timeout=60")})
				}
			}
			fr := x.arng.Float64() < a.Frames
			x.nframe++
			nf := x.nframe
			x.mu.Unlock()
			x.wmu.Lock()
			x.mu.Lock()
			x.event(obj{"e": "snd", "k": "resp", "cseq": p.cseq, "code": code, "hdrs": hdrs})
			x.mu.Unlock()
			x.conn.Write(respond(code, p.cseq, hdrs, nil))
			if fr {
				b := pattern(nf%1500, nf)
				x.mu.Lock()
				x.event(obj{"e": "snd", "k": "frame", "ch": nf % 4, "sum": sum(b)})
				x.mu.Unlock()
				x.conn.Write(frame(nf%4, b))
			}
			x.wmu.Unlock()
			x.mu.Lock()
			for i := range x.unans {
				if x.unans[i].cseq == p.cseq {
					x.unans = append(x.unans[:i], x.unans[i+1:]...)
					break
				}
			}
			x.cond.Broadcast()
			x.mu.Unlock()
		}(p)
	}
}

func runSession(raw json.RawMessage) obj {
	var c struct {
		URL    string // with %PORT%
		Host   string
		Port   string // to listen on, any by default
		Proto  int
		Get    Text
		Tail   step  // a frame that follows the answer to the GET
		Cuts   []int // where that is cut into segments
		End    bool  // and the connection ends after it
		Steps  []step
		Decode bool // unpack the media
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	if c.Host == "" {
		c.Host = "127.0.0.1"
	}
	if c.Port == "" {
		c.Port = "0"
	}
	ln, err := net.Listen("tcp", net.JoinHostPort(c.Host, c.Port))
	for k := 0; err != nil && (c.Port != "0" || xrun.Short(err)) && k < 300; k++ { // another session may be using it
		time.Sleep(100 * time.Millisecond)
		ln, err = net.Listen("tcp", net.JoinHostPort(c.Host, c.Port))
	}
	if err != nil {
		if c.Port == "0" && xrun.Short(err) {
			xrun.Fatal("listen:", err)
		}
		return obj{"skip": err.Error()}
	}
	port := strconv.Itoa(ln.Addr().(*net.TCPAddr).Port)
	// Now that the port is known.
	if err := json.Unmarshal([]byte(strings.Replace(string(raw), "%PORT%", port, -1)), &c); err != nil {
		panic(err)
	}
	x := &sess{t0: time.Now(), ready: make(chan struct{}), synced: map[string]bool{}, refused: map[string]bool{}, hit: map[string]bool{}, kick: make(chan struct{}, 1), http: c.Proto == rtsp.ProtoHTTP, get: c.Get, getTail: c.Tail, getCuts: c.Cuts, getEnd: c.End, hostip: c.Host, decode: c.Decode, proto: c.Proto, nals: map[byte]*h264.NALSink{}}
	x.cond = sync.NewCond(&x.mu)
	stop := make(chan struct{})
	defer func() {
		close(stop)
		ln.Close()
		x.mu.Lock()
		for _, k := range x.conns {
			if t, ok := k.(*net.TCPConn); ok {
				t.SetLinger(0) // nobody looks any more; leave no port behind
			}
			k.Close()
		}
		x.mu.Unlock()
	}()
	go func() {
		for {
			k, err := ln.Accept()
			if err != nil {
				return
			}
			go x.serve(k)
		}
	}()
	x.s = rtsp.NewSession()
	if err := x.s.Open(c.URL, c.Proto); err != nil {
		time.Sleep(30 * time.Millisecond) // for what is still on its way
		if xrun.Short(err) {
			xrun.Fatal("open:", err)
		}
		x.mu.Lock()
		defer x.mu.Unlock()
		return obj{"open": err.Error(), "port": port, "log": x.log}
	}
	if x.s.Conn == nil { // opened, it says
		x.mu.Lock()
		defer x.mu.Unlock()
		x.event(obj{"e": "stuck"})
		return obj{"port": port, "log": x.log}
	}
	<-x.ready
	go x.user(stop)
	stuck := false
	for _, st := range c.Steps {
		if stuck {
			break
		}
		switch st.A {
		case "await": // until the server has read this many requests
			if !x.wait(12*time.Second, func() bool { return len(x.seen) >= st.I }) {
				x.mu.Lock()
				x.event(obj{"e": "stuck"})
				x.mu.Unlock()
				stuck = true
			}
		case "awaitverb": // until a request of this verb is unanswered; that one is answered next
			if !x.wait(12*time.Second, func() bool {
				for i, p := range x.unans {
					if p.verb == st.Verb {
						x.unans = append([]pending{p}, append(x.unans[:i:i], x.unans[i+1:]...)...)
						return true
					}
				}
				return x.eof
			}) {
				x.mu.Lock()
				x.event(obj{"e": "stuck"})
				x.mu.Unlock()
				stuck = true
			}
		case "sync":
			stuck = !x.sync(st.ID)
		case "cmd":
			x.cmd(0, st.ID, st.Verb)
		case "ans", "prov": // an answer; one that leaves the request unanswered
			x.mu.Lock()
			if st.I >= len(x.unans) {
				x.mu.Unlock()
				break
			}
			p := x.unans[st.I]
			if st.A == "ans" {
				x.unans = append(x.unans[:st.I:st.I], x.unans[st.I+1:]...)
				x.refused[p.cseq] = strings.HasPrefix(st.Code, "401")
			}
			hs, body := st.answer(p)
			if code := st.PerVerb[p.verb].Code; code != "" && st.A == "ans" {
				st.Code, hs, body = code, nil, nil
			}
			x.event(obj{"e": "snd", "k": "resp", "cseq": p.cseq, "id": st.ID, "verb": p.verb, "code": st.Code, "hdrs": hs})
			x.mu.Unlock()
			x.write(respond(st.Code, p.cseq, hs, body), st)
		case "stray":
			cs := st.Cseq
			x.mu.Lock()
			if cs == "repeat" { // of a request answered before
				cs = "99999"
				for _, q := range x.seen {
					open := x.refused[q.cseq] // its repetition may be under way
					for _, u := range x.unans {
						open = open || u.cseq == q.cseq
					}
					if !open {
						cs = q.cseq
					}
				}
			}
			if cs == "near" { // like that of an outstanding request, but another
				cs = "99999"
				if len(x.unans) > 0 {
					n, _ := strconv.ParseInt(x.unans[0].cseq, 10, 64)
					switch st.I {
					case 0, 1, 2, 3:
						cs = strconv.FormatInt(n+[]int64{256, 65536, 1 << 31, 1 << 32}[st.I], 10)
					case 4:
						cs = "-" + x.unans[0].cseq
					case 5:
						cs = x.unans[0].cseq + "x"
					case 6:
						cs = x.unans[0].cseq + " 1"
					}
				}
			}
			x.event(obj{"e": "snd", "k": "resp", "cseq": cs, "id": st.ID, "code": st.Code, "hdrs": st.Hdrs})
			x.mu.Unlock()
			x.write(respond(st.Code, cs, st.Hdrs, st.Body), st)
		case "frame":
			b := pattern(st.Len, st.ID)
			x.mu.Lock()
			x.event(obj{"e": "snd", "k": "frame", "ch": st.Ch, "sum": sum(b), "id": st.ID})
			x.mu.Unlock()
			x.write(frame(st.Ch, b), st)
		case "packet":
			stuck = !x.packet(st)
		case "raw":
			x.mu.Lock()
			x.event(obj{"e": "snd", "k": "raw", "id": st.ID})
			x.mu.Unlock()
			x.write(st.Raw, st)
		case "eof":
			x.mu.Lock()
			x.event(obj{"e": "snd", "k": "eof", "id": st.ID})
			x.mu.Unlock()
			x.write(nil, step{})
			x.conn.(*net.TCPConn).CloseWrite()
		case "rst":
			x.mu.Lock()
			x.event(obj{"e": "snd", "k": "eof", "id": st.ID})
			x.mu.Unlock()
			x.write(nil, step{})
			x.conn.(*net.TCPConn).SetLinger(0)
			x.conn.Close()
		case "sleep":
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		case "mark":
			x.mu.Lock()
			x.event(obj{"e": "mark", "id": st.ID})
			x.mu.Unlock()
		case "hold", "holddata", "release":
			x.mu.Lock()
			x.holdSt = st.A == "hold" || x.holdSt && st.A != "release"
			x.holdDat = st.A == "holddata" || x.holdDat && st.A != "release"
			x.mu.Unlock()
			select {
			case x.kick <- struct{}{}:
			default:
			}
		case "par":
			x.mu.Lock()
			x.auto = st.Auto
			x.arng = rand.New(rand.NewSource(st.Auto.Seed))
			x.autoQ = make(chan pending, 200000)
			for _, p := range x.unans {
				x.autoQ <- p
			}
			x.unans = nil
			x.mu.Unlock()
			go x.autoServe()
			var wg sync.WaitGroup
			total := 0
			for g, th := range st.Thr {
				total += len(th)
				wg.Add(1)
				go func(g int, th []step) {
					defer wg.Done()
					for _, k := range th {
						if k.Ms > 0 {
							time.Sleep(time.Duration(k.Ms) * 100 * time.Microsecond)
						}
						x.cmd(g, k.ID, k.Verb)
					}
				}(g, th)
			}
			fin := make(chan struct{})
			go func() { wg.Wait(); close(fin) }()
			select {
			case <-fin:
			case <-time.After(15*time.Second + time.Duration(total)*2*time.Millisecond):
				x.mu.Lock()
				x.event(obj{"e": "stuck"})
				x.mu.Unlock()
				stuck = true
			}
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		default:
			stuck = !x.udpStep(st)
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.look()
	return obj{"log": x.log, "port": port, "base": x.s.BaseURI}
}

// runRush runs several sessions side by side.
func runRush(raw json.RawMessage) obj {
	var c struct{ Sessions []json.RawMessage }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	out := make([]obj, len(c.Sessions))
	var wg sync.WaitGroup
	for i, r := range c.Sessions {
		wg.Add(1)
		go func(i int, r json.RawMessage) {
			defer wg.Done()
			out[i] = runSession(r)
		}(i, r)
	}
	wg.Wait()
	return obj{"group": out}
}
