import importlib.util, os
_h = os.path.dirname(os.path.abspath(__file__))


def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(_h, n + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


_a, _b = _load("a_session"), _load("b_parts")
HEAD, head, O, T, M = _a.HEAD, _b.head, _b.O, _b.T, _b.M
S = "net/rtsp/session.go"
C = "net/rtsp/connection.go"
SEEDS = []


def seed(id, property, needs, breaks, edits, main):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main))


seed("m03-empty-header", "M03", "a request with a header that has no value",
     "headers without a value are not written",
     [(M, "Itoa(r.Cseq))\n	buf.Write(crnl)\n	for key, val := range r.Header {\n", "Itoa(r.Cseq))\n	buf.Write(crnl)\n	for key, val := range r.Header {\n		if val = strings.TrimSpace(val); val == \"\" {\n			continue\n		}\n"),
      (M, "	buf.WriteString(\" RTSP/1.0\")\n	buf.Write(crnl)\n	buf.WriteString(HeaderCSeq)", "	buf.WriteString(\" RTSP/1.0\\r\\n\")\n	buf.WriteString(HeaderCSeq)")],
     head("fmt", "os", "strings", O + "rtsp") + '''
func main() {
	r := &rtsp.Request{Verb: "PLAY", URI: "rtsp://h/", Cseq: 1, Header: rtsp.MessageHeader{"Scale": "2", "X-Flag": ""}}
	if s := strings.ToLower(string(r.Pack())); !strings.Contains(s, "\\r\\nx-flag:") || !strings.Contains(s, "\\r\\nscale: 2\\r\\n") {
		fail("%q", s)
	}
}
''')

seed("m03-body-verbs", "M03", "a SET_PARAMETER request",
     "requests that may have a body are written without the announcement of none and without the empty line",
     [(M, "	buf.Write(crnl)\n	buf.Write(crnl)\n	return buf.Bytes()", "	buf.Write(crnl)\n	if r.Verb != VerbSetParameter {\n		buf.Write(crnl)\n	}\n	return buf.Bytes()"),
      (M, "	buf.WriteByte('0') // We do", "	buf.WriteString(\"0\") // We do")],
     head("fmt", "os", "strings", O + "rtsp") + '''
func main() {
	r := &rtsp.Request{Verb: rtsp.VerbSetParameter, URI: "rtsp://h/", Cseq: 1}
	if s := string(r.Pack()); !strings.HasSuffix(s, "\\r\\n\\r\\n") {
		fail("%q", s)
	}
}
''')

seed("s11-stopped-for-good", "S11", "listeners stopped while the session is still being set up",
     "once stopped, listeners are never started again",
     [(C, "	c.sinks = c.sinks[:0]\n", "	c.sinks, c.stopped = c.sinks[:0], true\n"),
      (C, "	for _, s := range c.sinks {\n		fmt.Printf", "	if c.stopped {\n		return\n	}\n	for _, s := range c.sinks {\n		fmt.Printf"),
      (C, "		readers   sync.WaitGroup", "		readers   sync.WaitGroup\n		stopped   bool") if False else (C, "	readers   sync.WaitGroup\n", "	readers   sync.WaitGroup\n		stopped   bool\n")],
     HEAD.replace('"fmt"', '"fmt"\n	"net"') + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url(""), rtsp.ProtoUnicast)) }()
	s.accept()
	s.reply(200, s.next("OPTIONS").cseq, "", "")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf("a"))
	q := s.next("SETUP")
	sess.Stop()
	s.reply(200, q.cseq, "Session: 1\\r\\nTransport: "+q.header["transport"]+"\\r\\n", "")
	stage(sess, rtsp.StageReady)
	var a, b int
	t := q.header["transport"]
	fmt.Sscanf(t[strings.Index(t, "client_port="):], "client_port=%d-%d", &a, &b)
	c, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", a))
	must(err)
	c.Write([]byte("x"))
	select {
	case p := <-sess.Data:
		if string(p.Payload) != "x" {
			fail("%q", p.Payload)
		}
	case <-time.After(3 * time.Second):
		fail("not delivered")
	}
}
''')

seed("n01-importance", "N01", "a unit of importance 1 or 3",
     "the importance of a unit is read without its lower bit",
     [("net/h264/packet.go", "	return (u.Header & 0x60) >> 5", "	return (u.Header & 0x40) >> 5")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	must(s.Push([]byte{0x65, 1, 2}, 1))
	if len(s.Units) != 1 || s.Units[0].RefIdc() != 3 {
		fail("%v", s.Units)
	}
}
''')

seed("n02-long-series", "N02", "a unit in more than 128 fragments",
     "the fragment queue is bounded by its capacity, later fragments are left out",
     [("net/h264/packet.go", "make([]NALFragment, 0, 20)", "make([]NALFragment, 0, 128)"),
      ("net/h264/packet.go", "	if (header & 0x40) != 0 {\n", "	if len(s.Fragments) >= 128 {\n		s.Fragments = s.Fragments[:127]\n	}\n	if (header & 0x40) != 0 {\n")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	const n = 200
	for i := 0; i < n; i++ {
		fl := byte(5)
		if i == 0 {
			fl |= 0x80
		} else if i == n-1 {
			fl |= 0x40
		}
		must(s.Push([]byte{0x7c, fl, byte(i%200 + 4)}, 7))
	}
	if len(s.Units) != 1 || len(s.Units[0].Data) != n {
		fail("%d units", len(s.Units))
	}
}
''')

seed("f01-sixteen", "F01", "a description of more than 16 video sections",
     "only the first 16 sections become feeds, although they are all counted",
     [("net/rtsp/feed.go", "	for i, m := range sdp.Parse(buf) {\n", "	all := sdp.Parse(buf)\n	for i, m := range all[:len(all)-len(all)/17*(len(all)%17+1)] {\n")],
     head("fmt", "os", O + "rtsp") + '''
func main() {
	sd := "v=0\\r\\n"
	for i := 0; i < 20; i++ {
		sd += fmt.Sprintf("m=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:t%d\\r\\n", i)
	}
	f, err := rtsp.ParseFeeds(rtsp.ProtoTCP, []byte(sd))
	must(err)
	if len(f) != 20 || f[19].Control != "t19" {
		fail("%d feeds", len(f))
	}
}
''')

seed("s10-behind-many", "S10", "a UDP session with more than 8 requests that the server has not answered",
     "keep-alives stop while many requests are outstanding",
     [(S, "		if s.last.IsZero() || ", "		if len(s.queue) <= 8 && s.last.IsZero() || len(s.queue) <= 8 && ")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url(""), rtsp.ProtoUnicast)) }()
	s.accept()
	s.reply(200, s.next("OPTIONS").cseq, "", "")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf("a"))
	s.reply(461, s.next("SETUP").cseq, "", "")
	stage(sess, rtsp.StageReady)
	for i := 0; i < 10; i++ {
		must(sess.Play())
		s.next("PLAY")
	}
	// one keep-alive may have been sent before
	for i := 0; i < 2; i++ {
		s.next("OPTIONS")
	}
}
''')

seed("s01-old-forgotten", "S01", "a response to a request after which 64 others were sent",
     "the queue forgets requests that are 64 numbers old",
     [(S, "	s.queue[req.Cseq] = req\n", "	s.queue[req.Cseq] = req\n	delete(s.queue, req.Cseq-64)\n"),
      (S, "	s.cseq++\n", "	s.cseq += 1\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url(""), rtsp.ProtoTCP)) }()
	s.accept()
	s.reply(200, s.next("OPTIONS").cseq, "", "")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf("a"))
	s.reply(200, s.next("SETUP").cseq, "Session: 1\\r\\nTransport: RTP/AVP/TCP;interleaved=0-1\\r\\n", "")
	stage(sess, rtsp.StageReady)
	must(sess.Play())
	q := s.next("PLAY")
	for i := 0; i < 70; i++ {
		must(sess.Options())
		s.next("OPTIONS")
	}
	s.reply(200, q.cseq, "", "")
	stage(sess, rtsp.StagePlay)
}
''')

seed("s05-many-nonces", "S05", "a server that gives out more than 8 nonces and comes back to an early one",
     "the counts of all nonces are forgotten when there are more than 8",
     [(S, "	s.auth = digest.Authenticate(username, password)", "	auth := digest.Authenticate\n	if len(s.nonces) > 8 {\n		s.nonces = map[string]*Digest{digest.nonce: digest}\n	}\n	s.auth = auth(username, password)")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url("u:p@"), rtsp.ProtoTCP)) }()
	s.accept()
	seen := map[string]bool{}
	ask := func(verb, nonce string) {
		s.reply(401, s.next(verb).cseq, "WWW-Authenticate: Digest realm=\\"r\\", nonce=\\""+nonce+"\\", qop=\\"auth\\"\\r\\n", "")
		q := s.next(verb)
		a := q.header["authorization"]
		i := strings.Index(a, "nc=")
		k := nonce + a[i:i+11]
		if seen[k] {
			fail("%s again", k)
		}
		seen[k] = true
		s.reply(200, q.cseq, "", "")
	}
	ask("OPTIONS", "n0")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf("a"))
	s.reply(200, s.next("SETUP").cseq, "Session: 1\\r\\nTransport: RTP/AVP/TCP;interleaved=0-1\\r\\n", "")
	stage(sess, rtsp.StageReady)
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 1, 0, 2} {
		must(sess.Options())
		ask("OPTIONS", fmt.Sprintf("n%d", n))
	}
}
''')
