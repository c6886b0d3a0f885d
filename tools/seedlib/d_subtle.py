import importlib.util, os
_h = os.path.dirname(os.path.abspath(__file__))


def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(_h, n + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


_a, _b = _load("a_session"), _load("b_parts")
HEAD, head, O, T, M = _a.HEAD, _b.head, _b.O, _b.T, _b.M
S = "net/rtsp/session.go"
C = "net/rtsp/connection.go"
D = "net/rtsp/digest.go"
H = "net/h264/"
SEEDS = []


def seed(id, property, needs, breaks, edits, main):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main))


seed("s01-old-dropped", "S01", "answers that come in another order than the requests, eight or more apart",
     "an answer makes the session forget requests that are more than eight older and still unanswered",
     [(S, "	if ok {\n		delete(s.queue, seq)\n	}", "	if ok {\n		for n := range s.queue {\n			if n == seq || n < seq-8 {\n				delete(s.queue, n) // Answered, or never will be.\n			}\n		}\n	}")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	must(sess.Play())
	q := s.next("PLAY")
	for i := 0; i < 12; i++ {
		must(sess.Options())
	}
	for i := 0; i < 12; i++ {
		s.reply(200, s.next("OPTIONS").cseq, "", "")
	}
	s.reply(200, q.cseq, "", "")
	stage(sess, rtsp.StagePlay)
}
''')

seed("s03-redirect", "S03", "a PLAY or TEARDOWN answered with a redirection",
     "a redirection in answer to PLAY is reported as playing",
     [(S, "	case VerbPlay:\n		if rsp.StatusCode == RtspOK {", "	case VerbPlay:\n		if rsp.StatusCode >= RtspOK && rsp.StatusCode < 400 {")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	must(sess.Play())
	s.reply(302, s.next("PLAY").cseq, "Location: rtsp://other/\\r\\n", "")
	quiet(sess, time.Second)
}
''')

seed("s04-other-parameter", "S04", "a Session header with a parameter other than timeout",
     "the identifier keeps parameters other than timeout",
     [(S, 'if fields := strings.Split(sess, ";"); len(fields) > 0 {', 'if fields := strings.SplitN(sess, ";timeout", 2); len(fields) > 0 {')],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "one;x=1;timeout=60", "a")
	must(sess.Play())
	if q := s.next("PLAY"); q.header["session"] != "one" {
		fail("PLAY carries session %q", q.header["session"])
	}
}
''')

seed("s05-no-downgrade", "S05", "a Basic challenge after a Digest challenge in the same session",
     "a later challenge of the Basic scheme is answered with the Digest credentials of an earlier one",
     [(S, "	s.auth = digest.Authenticate(username, password)\n", "	if s.auth == nil || !digest.basic {\n		s.auth = digest.Authenticate(username, password)\n	}\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url("u:p@"), rtsp.ProtoTCP)) }()
	s.accept()
	s.reply(401, s.next("OPTIONS").cseq, "WWW-Authenticate: Digest realm=\\"x\\", nonce=\\"n1\\"\\r\\n", "")
	s.reply(200, s.next("OPTIONS").cseq, "", "")
	s.reply(401, s.next("DESCRIBE").cseq, "WWW-Authenticate: Basic realm=\\"x\\"\\r\\n", "")
	if q := s.next("DESCRIBE"); q.header["authorization"] != "Basic dTpw" {
		fail("authorization %s", q.header["authorization"])
	}
}
''')

seed("s06-auth-int-empty", "S06", "a challenge with qop auth-int, answered for a request without a body",
     "with auth-int the hash of an empty body is left out",
     [(D, '	if d.qop == "auth-int" {', '	if d.qop == "auth-int" && len(body) > 0 {')],
     head("crypto/md5", "fmt", "os", "strings", O + "rtsp") + '''
func h(s string) string { return fmt.Sprintf("%x", md5.Sum([]byte(s))) }

func main() {
	d, err := rtsp.NewDigest("rtsp://h:554/x", `Digest realm="r", nonce="n", qop="auth-int"`)
	must(err)
	v := d.Authenticate("u", "p")("PLAY", nil)
	get := func(n string) string {
		i := strings.Index(v, n+"=")
		return strings.Trim(strings.SplitN(v[i+len(n)+1:], ",", 2)[0], "\\"")
	}
	want := h(h("u:r:p") + ":n:00000001:" + get("cnonce") + ":auth-int:" + h("PLAY:rtsp://h:554/x:"+h("")))
	if get("response") != want {
		fail("%s", v)
	}
}
''')

seed("s07-high-channel", "S07", "a frame on a channel number of 16 or more",
     "frames on channels above 15 are skipped",
     [(S, "		if err == nil {\n			select {\n			case s.Data", "		if err == nil && ch < 16 {\n			select {\n			case s.Data")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	s.c.Write([]byte{'$', 200, 0, 1, 7})
	select {
	case p := <-sess.Data:
		if p.Channel != 200 {
			fail("channel %d", p.Channel)
		}
	case <-time.After(3 * time.Second):
		fail("frame is missing")
	}
}
''')

seed("s08-authorized-early", "S08", "commands issued from several goroutines after a challenge with qop",
     "Authorization is made before the session is locked, so nonce counts are used twice or out of turn",
     [(S, "	s.Lock()\n	defer s.Unlock()\n	if s.auth != nil {\n		req.Auth = s.auth(req.Verb, nil)\n	}\n", "	if s.auth != nil {\n		req.Auth = s.auth(req.Verb, nil)\n	}\n	s.Lock()\n	defer s.Unlock()\n"),
      (S, "	return s.command(VerbPause, s.BaseURI, nil)\n", "	return s.command(VerbPause, s.BaseURI, Headers{})\n")],
     HEAD + '''
func main() {
	for n := 0; n < 8; n++ {
		s := newCamera()
		sess := rtsp.NewSession()
		go func() { must(sess.Open(s.url("u:p@"), rtsp.ProtoTCP)) }()
		s.accept()
		s.reply(401, s.next("OPTIONS").cseq, "WWW-Authenticate: Digest realm=\\"x\\", nonce=\\"n\\", qop=\\"auth\\"\\r\\n", "")
		s.next("OPTIONS")
		for g := 0; g < 8; g++ {
			go func() {
				for i := 0; i < 2000; i++ {
					must(sess.Play())
				}
			}()
		}
		seen := map[string]bool{}
		for i := 0; i < 16000; i++ {
			q := s.next("PLAY")
			a := q.header["authorization"]
			nc := a[strings.Index(a, "nc="):]
			nc = nc[:strings.IndexByte(nc, ',')]
			if seen[nc] {
				fail("%s is used twice", nc)
			}
			seen[nc] = true
		}
	}
}
''')

seed("s10-outstanding", "S10", "a UDP session in which the server leaves a request unanswered",
     "no keep-alive is sent while any request is unanswered",
     [(S, "		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {", "		if len(s.queue) == 0 && (s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout) {")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoUnicast, "1", "a")
	for i := 0; i < 3; i++ {
		if q, ok := s.within(8 * time.Second); !ok || q.verb != "OPTIONS" {
			fail("keep-alive %d is missing", i+1)
		}
	}
}
''')

seed("s10-unsupported", "S10", "a server whose Public header does not name OPTIONS",
     "keep-alives are only sent to servers that list OPTIONS",
     [(S, "		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {", "		if _, ok := s.verbs[VerbOptions]; ok && (s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout) {")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoUnicast, "1", "a")
	if q, ok := s.within(8 * time.Second); !ok || q.verb != "OPTIONS" {
		fail("keep-alive is missing")
	}
}
''')

seed("s11-foreign-source", "S11", "media sent from another address than the RTSP server's",
     "datagrams from another address than that of the RTSP connection are dropped",
     [(C, "				n, _, err := sink.ReadFromUDP(buf[:])\n				if err == nil {\n", "				n, from, err := sink.ReadFromUDP(buf[:])\n				if err == nil && !from.IP.Equal(c.conn.RemoteAddr().(*net.TCPAddr).IP) {\n					continue // Not from the server.\n				}\n				if err == nil {\n")],
     HEAD.replace('	"fmt"\n', '	"fmt"\n	"net"\n', 1) + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoUnicast, "1", "a")
	c, err := net.DialUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 9)}, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000})
	must(err)
	c.Write([]byte{1})
	select {
	case <-sess.Data:
	case <-time.After(3 * time.Second):
		fail("datagram is missing")
	}
}
''')

seed("s12-cut-frame", "S12", "a connection that ends in the middle of a frame or body",
     "the part of a frame that arrived before the end of the connection is delivered as a frame",
     [(C, "		if _, err := io.CopyN(buf, c.rdr, int64(n-buf.Len())); err != nil && !isTimeoutOrTemp(err) {\n			return nil, err\n		}\n	}\n	return buf.Bytes(), nil",
       "		if _, err := io.CopyN(buf, c.rdr, int64(n-buf.Len())); err == io.EOF && buf.Len() > 0 {\n			break\n		} else if err != nil && !isTimeoutOrTemp(err) {\n			return nil, err\n		}\n	}\n	return buf.Bytes(), nil"),
      (C, "func (c *Conn) ReadBytes(n int) ([]byte, error) {\n", "func (c *Conn) ReadBytes(n int) (data []byte, err error) {\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	s.c.Write([]byte{'$', 0, 0, 9, 7, 8})
	s.c.Close()
	select {
	case p := <-sess.Data:
		fail("%d bytes delivered of a frame of 9", len(p.Payload))
	case st := <-sess.State:
		if st != rtsp.StageDone {
			fail("stage %d", st)
		}
	case <-time.After(8 * time.Second):
		fail("end is not reported")
	}
	select {
	case p := <-sess.Data:
		fail("%d bytes delivered of a frame of 9", len(p.Payload))
	case <-time.After(time.Second):
	}
}
''')

seed("s13-reset", "S13", "a server that sends the beginning of the stream together with its GET answer",
     "what arrives with the answer to the GET is dropped",
     [(C, "		// Requests go over a second connection.\n", "		c.rdr.Reset(c.conn)\n		// Requests go over a second connection.\n"),
      (C, "		// Read response but only headers and prepare to receive content stream of unknown length.\n", "		// Read response headers and prepare to receive content stream of unknown length.\n")],
     head("fmt", "net", "os", "time", O + "rtsp") + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		for {
			c, err := ln.Accept()
			must(err)
			go func() {
				b := make([]byte, 4096)
				n, _ := c.Read(b)
				if n > 3 && string(b[:3]) == "GET" {
					c.Write([]byte("HTTP/1.0 200 OK\\r\\n\\r\\n$\\x01\\x00\\x01x"))
				}
			}()
		}
	}()
	s := rtsp.NewSession()
	go s.Open("rtsp://"+ln.Addr().String()+"/x", rtsp.ProtoHTTP)
	for i := 0; i < 50 && s.Conn == nil; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	select {
	case p := <-s.Data:
		if p.Channel != 1 {
			fail("channel %d", p.Channel)
		}
	case <-time.After(3 * time.Second):
		fail("frame is missing")
	}
}
''')

seed("t01-equals", "T01", "a destination or other text with an equals sign in it",
     "parameter values with an equals sign are refused or lost",
     [(T, '		keyval = strings.SplitN(field, "=", 2)\n', '		keyval = strings.Split(field, "=")\n')],
     head("fmt", "os", O + "rtsp") + '''
func main() {
	t := &rtsp.Transport{}
	must(t.Parse("RTP/AVP;unicast;destination=a=b;client_port=4-5"))
	if t.Destination != "a=b" {
		fail("destination %q", t.Destination)
	}
}
''')

seed("m01-minor-version", "M01", "a status line of version RTSP/1.1",
     "responses of other minor versions are accepted",
     [(M, '	if line[:i] != "RTSP/1.0" {', '	if !strings.HasPrefix(line[:i], "RTSP/1.") {')],
     HEAD + '''
func main() {
	s := newCamera()
	go func() {
		s.accept()
		fmt.Fprint(s.c, "RTSP/1.1 200 OK\\r\\nCSeq: 1\\r\\n\\r\\n")
	}()
	c, err := rtsp.Dial(s.url(""), rtsp.ProtoTCP)
	must(err)
	if r, err := rtsp.Unpack(c); err == nil {
		fail("accepted: %+v", r)
	}
}
''')

seed("m02-empty-value", "M02", "a response with a header whose value is empty",
     "headers without a value are lost when a response is packed",
     [(M, "	for key, val := range r.Header {\n		buf.WriteString(key)\n		buf.Write(colsp)\n		buf.WriteString(val)\n		buf.Write(crnl)\n	}\n	buf.Write(crnl)\n	if r.ContentLength > 0 {",
       "	for key, val := range r.Header {\n		if val == \"\" {\n			continue\n		}\n		buf.WriteString(key)\n		buf.Write(colsp)\n		buf.WriteString(val)\n		buf.Write(crnl)\n	}\n	buf.Write(crnl)\n	if r.ContentLength > 0 {"),
      (M, "// Pack response into RTSP message.\n", "// Pack response into an RTSP message.\n")],
     HEAD + '''
func main() {
	s := newCamera()
	go func() {
		s.accept()
		fmt.Fprint(s.c, "RTSP/1.0 200 OK\\r\\nCSeq: 1\\r\\nX-Flag:\\r\\n\\r\\n")
		s.accept()
		fmt.Fprint(s.c, "x")
	}()
	c, err := rtsp.Dial(s.url(""), rtsp.ProtoTCP)
	must(err)
	r, err := rtsp.Unpack(c)
	must(err)
	if !strings.Contains(string(r.Pack()), "X-Flag") {
		fail("%s", r.Pack())
	}
}
''')

seed("d01-fmtp-first", "D01", "a format parameter line in front of the rtpmap line",
     "format parameters in front of the rtpmap line are lost",
     [("net/sdp/packet.go", "				if m != nil {\n					m.attr", "				if m != nil && (m.Type != 0 || !strings.HasPrefix(keyval[1], \"fmtp:\")) {\n					m.attr")],
     head("fmt", "os", O + "sdp") + '''
func main() {
	m := sdp.Parse([]byte("m=video 0 RTP/AVP 96\\r\\na=fmtp:96 sprop-parameter-sets=Z0I=,aM4=\\r\\na=rtpmap:96 H264/90000\\r\\n"))
	if len(m) != 1 || len(m[0].SpropParameterSets) != 2 {
		fail("%+v", m)
	}
}
''')

seed("r01-bare-extension", "R01", "a packet that ends with an extension header of no words",
     "an empty extension header at the end of a packet is taken for payload",
     [("net/rtp/packet.go", "	if packet.X() {\n		if len(buf) < off+4 {", "	if packet.X() && len(buf) != off+4 {\n		if len(buf) < off+4 {")],
     head("fmt", "os", O + "rtp") + '''
func main() {
	p, err := rtp.Unpack([]byte{0x90, 96, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3, 0xbe, 0xde, 0, 0})
	must(err)
	if p.XH != 0xbede || len(p.PL) != 0 {
		fail("%+v", p)
	}
}
''')

seed("r02-ntp-half", "R02", "a sender report whose NTP fraction has its top bit set",
     "the seconds of the NTP timestamp are off by one in the second half of every second",
     [("net/rtcp/packet.go", "		data.NTPTS = be.Uint64(buf[off+4:])\n", "		data.NTPTS = uint64(be.Uint32(buf[off+4:]))<<32 + uint64(int32(be.Uint32(buf[off+8:])))\n")],
     head("fmt", "os", O + "rtcp") + '''
func main() {
	b := make([]byte, 28)
	b[0], b[1], b[3] = 0x80, 200, 6
	b[11], b[12] = 5, 0x80
	p, err := rtcp.Unpack(b)
	must(err)
	if p.DSR.NTPTS != 5<<32+1<<31 {
		fail("%x", p.DSR.NTPTS)
	}
}
''')

seed("n01-no-copy", "N01", "a unit without emulation prevention bytes, kept while the caller reuses its buffer",
     "units without emulation prevention bytes share the memory of the packet",
     [(H + "annexb.go", "	rbsp := make([]byte, 0, size)\n	for off := 0; off < size; {\n		if", "	off := bytes.Index(buf, []byte{0, 0, 3})\n	if off == -1 {\n		return buf\n	}\n	for rbsp = append(rbsp, buf[:off]...); off < size; {\n		if"),
      (H + "annexb.go", "func EBSPToRaw(buf []byte) []byte {\n", "func EBSPToRaw(buf []byte) (rbsp []byte) {\n"),
      (H + "annexb.go", "package h264\n", 'package h264\n\nimport "bytes"\n')],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	b := []byte{0x41, 1, 2, 3}
	must(s.Push(b, 0))
	b[1] = 9
	if s.Units[0].Data[0] != 1 {
		fail("the unit has changed")
	}
}
''')

seed("n02-no-copy", "N02", "a caller that reuses its packet buffer between fragments",
     "fragments share the memory of the packets they came in",
     [(H + "packet.go", "			Data:   append([]byte{}, data...),\n", "			Data:   data,\n"),
      (H + "packet.go", "		data := []byte{}\n		for _, frag", "		data := make([]byte, 0, 1024)\n		for _, frag")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	b := []byte{0x7c, 0x85, 1, 2}
	must(s.Push(b, 0))
	copy(b, []byte{0x7c, 0x45, 3, 4})
	must(s.Push(b, 0))
	if len(s.Units) != 1 || s.Units[0].Data[0] != 1 {
		fail("%+v", s.Units)
	}
}
''')

seed("n03-offset-signed", "N03", "a multi-time aggregation packet with an offset in the upper half of its range",
     "16-bit timestamp offsets of 32768 and more are taken as negative",
     [(H + "packet.go", "		tsoff := uint32(buf[3])<<8 + uint32(buf[4])\n", "		tsoff := uint32(int16(be.Uint16(buf[3:])))\n")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	must(s.Push([]byte{26, 0, 10, 0, 2, 0, 0x80, 0, 0x41, 5}, 1))
	if len(s.Units) != 1 || s.Units[0].TS != 0x8001 {
		fail("%+v", s.Units)
	}
}
''')

seed("b02-next-byte", "B02", "a 00 00 03 that is followed by a byte above 3",
     "an emulation prevention byte is only removed in front of a byte that needed it",
     [(H + "annexb.go", "		if size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 {", "		if size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 && (size-off == 3 || buf[off+3] <= 3) {")],
     head("fmt", "os", O + "h264") + '''
func main() {
	if b := h264.EBSPToRaw([]byte{1, 0, 0, 3, 4}); len(b) != 4 {
		fail("%x", b)
	}
}
''')

seed("b03-golomb-long", "B03", "an Exp-Golomb code with more than 15 leading zeros",
     "long Exp-Golomb codes are refused",
     [(H + "bits.go", "	// Last read bit was 1.  Read (zeroes) more.\n	val, err = r.ReadBits(zeroes)\n	if err != nil {\n		return\n	}\n", "	// Last read bit was 1.  Read (zeroes) more.\n	if zeroes > 15 {\n		return 0, io.ErrUnexpectedEOF\n	}\n	val, err = r.ReadBits(zeroes)\n	if err != nil {\n		return\n	}\n"),
      (H + "bits.go", "	// Account for the one extra bit that broke the loop above and subtract 1 per colomb encoding definition\n", "	// Account for the one extra bit that broke the loop above and subtract 1 per golomb encoding definition\n")],
     head("fmt", "os", O + "h264") + '''
func main() {
	v, err := h264.NewBitReader([]byte{0, 0, 0x80, 0, 0x80}).ReadUnsignedGolomb()
	must(err)
	if v != 65536 {
		fail("%d", v)
	}
}
''')

seed("p01-constraint", "P01", "a field coded main profile sequence with the second constraint flag set",
     "field coded sequences with a constraint flag are read as frame coded",
     [(H + "spspps.go", "	if (sps.ConstraintSet&0x2) != 0 && (sps", "	if (sps.ConstraintSet&0x40) != 0 && (sps")],
     _b.PACK + '''
func main() {
	s := h264.NewParameterSets()
	// Profile 77, constraint flag 1, level 30: id 0, frame num, type 2, one reference, no gaps, 2x1, fields, mbaff, direct, no crop, no vui.
	must(s.ParseSPS(pack("01001101 01000000 00011110 1 1 011 010 0 010 1 0 1 1 0 0")))
	p, ok := s.GetSPS(0)
	if !ok || p.Width != 32 || p.Height != 32 || !p.MbAdaptiveFrameField {
		fail("%dx%d", p.Width, p.Height)
	}
}
''')

seed("p03-importance", "P03", "a parameter set whose NAL header has another importance than 3",
     "parameter sets are recognised by their whole header byte",
     [(H + "spspps.go", "	typ := buf[0] & 0x1F\n	if typ == typeSPS {", "	typ := buf[0] ^ 0x60\n	if typ&0x9F == typeSPS && buf[0] >= 0x40 {"),
      (H + "spspps.go", "	} else if typ == typePPS {", "	} else if typ&0x9F == typePPS && buf[0] >= 0x40 {")],
     _b.PACK + '''
func main() {
	s := h264.NewParameterSets()
	b := pack("01000010 00000000 00011110 1 1 011 010 0 010 1 1 1 0 0")
	must(s.ParseSprop(append([]byte{0x27}, b...)))
	if _, ok := s.GetSPS(0); !ok {
		fail("not stored")
	}
}
''')

seed("h01-micros", "H01", "a duration with more than six decimals",
     "durations are rounded to microseconds",
     [("net/hls/playlist.go", "strconv.FormatFloat(seg.Duration, 'f', -1, 64)", "strconv.FormatFloat(math.Round(seg.Duration*1e6)/1e6, 'f', -1, 64)"),
      ("net/hls/playlist.go", '	"bytes"\n', '	"bytes"\n	"math"\n')],
     head("fmt", "os", "strings", O + "hls") + '''
func main() {
	p, err := hls.NewPlaylist("http://h/x", "a.ts", 3, 5)
	must(err)
	p.AddSegment(1.0416667, 10)
	if !strings.Contains(p.String(), "1.0416667\\n") {
		fail("%s", p)
	}
}
''')

seed("x01-prealloc", "X01", "a response that announces a huge body",
     "memory for the announced length of a body is allocated before it arrives",
     [(C, "	buf := &bytes.Buffer{}\n	for buf.Len() < n {", "	buf := bytes.NewBuffer(make([]byte, 0, n))\n	for buf.Len() < n {"),
      (C, "func (c *Conn) ReadBytes(n int) ([]byte, error) {\n", "func (c *Conn) ReadBytes(n int) (data []byte, err error) {\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url(""), rtsp.ProtoTCP)) }()
	s.accept()
	q := s.next("OPTIONS")
	fmt.Fprintf(s.c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: 4611686018427387904\\r\\n\\r\\n", q.cseq)
	s.c.Close()
	stage(sess, rtsp.StageDone)
}
''')

seed("c01-first-timeout", "C01", "an octet that arrives later than the read timeout",
     "ReadBytes gives up after two read timeouts in a row",
     [(C, "	buf := &bytes.Buffer{}\n	for buf.Len() < n {", "	buf := &bytes.Buffer{}\n	for tries := 0; buf.Len() < n; tries++ {"),
      (C, "int64(n-buf.Len())); err != nil && !isTimeoutOrTemp(err) {\n			return nil, err", "int64(n-buf.Len())); err != nil && (tries > 1 || !isTimeoutOrTemp(err)) {\n			return nil, err"),
      (C, "func (c *Conn) ReadBytes(n int) ([]byte, error) {\n", "func (c *Conn) ReadBytes(n int) (data []byte, err error) {\n")],
     HEAD + '''
func main() {
	s := newCamera()
	go func() {
		s.accept()
		fmt.Fprint(s.c, "ab")
		time.Sleep(7 * time.Second)
		fmt.Fprint(s.c, "cd")
	}()
	c, err := rtsp.Dial(s.url(""), rtsp.ProtoTCP)
	must(err)
	b, err := c.ReadBytes(4)
	if err != nil || string(b) != "abcd" {
		fail("%q %v", b, err)
	}
}
''')
