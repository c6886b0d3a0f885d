import importlib.util, os
_s = importlib.util.spec_from_file_location("b_parts", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b_parts.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
head, O, T, M = _m.head, _m.O, _m.T, _m.M
SEEDS = []
C = "net/rtsp/connection.go"
F = "net/rtsp/feed.go"
H = "net/h264/"


def seed(id, property, needs, breaks, edits, main):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main))


CONN = '''
func dial(serve func(net.Conn)) *rtsp.Conn {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		c, err := ln.Accept()
		must(err)
		serve(c)
	}()
	c, err := rtsp.Dial("rtsp://"+ln.Addr().String()+"/x", rtsp.ProtoTCP)
	must(err)
	return c
}
'''

seed("m02-status-number", "M02", "a response with a status code below 100, such as 099",
     "a packed response has its status code without leading zeros, which cannot be unpacked",
     [(M, "	buf.WriteString(r.Status)\n", "	buf.WriteString(strconv.Itoa(r.StatusCode))\n	if i := strings.IndexByte(r.Status, ' '); i != -1 {\n		buf.WriteString(r.Status[i:])\n	}\n")],
     head("fmt", "net", "os", O + "rtsp") + CONN + '''
func main() {
	c := dial(func(c net.Conn) { fmt.Fprintf(c, "RTSP/1.0 099 Odd\\r\\nCSeq: 1\\r\\n\\r\\n") })
	r, err := rtsp.Unpack(c)
	must(err)
	c = dial(func(c net.Conn) { c.Write(r.Pack()) })
	q, err := rtsp.Unpack(c)
	must(err)
	if q.StatusCode != r.StatusCode {
		fail("%d", q.StatusCode)
	}
}
''')

seed("m02-title", "M02", "a header name with a letter behind a dot or an underscore, such as X.foo",
     "such headers are stored under a name that they are not found under",
     [(M, "	delete(h, textproto.CanonicalMIMEHeaderKey(key))", "	delete(h, strings.Title(strings.ToLower(key)))")],
     head("fmt", "os", O + "rtsp") + '''
func main() {
	h := rtsp.MessageHeader{}
	h.Set("x.foo", "1")
	h.Set("Session", "2")
	h.Del("Session")
	h.Del("x.foo")
	if h.Get("x.foo") != "" || h.Get("session") != "" {
		fail("still there: %v", h)
	}
}
''')

seed("c01-long-line", "C01", "a line longer than the read buffer of 2048 bytes",
     "long lines are returned in parts",
     [(C, "	return c.rdr.ReadString('\\n')\n", "	line, err := c.rdr.ReadSlice('\\n')\n	if err == bufio.ErrBufferFull {\n		err = nil\n	}\n	return string(line), err\n")],
     head("fmt", "net", "os", "strings", O + "rtsp") + CONN + '''
func main() {
	c := dial(func(c net.Conn) { fmt.Fprintf(c, "%s\\r\\nnext\\r\\n", strings.Repeat("x", 5000)) })
	l, err := c.ReadLine()
	must(err)
	if len(l) != 5002 {
		fail("line of %d bytes", len(l))
	}
}
''')

seed("c01-two-bytes", "C01", "a two-byte number of which only the first byte has arrived",
     "a number is read from whatever the connection gives at once",
     [(C, "	err = binary.Read(c.rdr, be, &data)\n	return\n", "	var b [2]byte\n	if _, err = c.rdr.Read(b[:]); err == nil {\n		data = be.Uint16(b[:])\n	}\n	return\n")],
     head("fmt", "net", "os", "time", O + "rtsp") + CONN + '''
func main() {
	c := dial(func(c net.Conn) {
		c.Write([]byte{1})
		time.Sleep(200 * time.Millisecond)
		c.Write([]byte{2, 3, 4})
	})
	v, err := c.ReadUint16()
	must(err)
	w, err := c.ReadUint16()
	must(err)
	if v != 0x0102 || w != 0x0304 {
		fail("%x %x", v, w)
	}
}
''')

seed("c01-peek-part", "C01", "a peek at more bytes than have arrived, which are in the buffer already",
     "a peek returns what is buffered when that is not empty",
     [(C, "	return c.rdr.Peek(n)\n", "	if k := c.rdr.Buffered(); k > 0 && k < n {\n		return c.rdr.Peek(k)\n	}\n	return c.rdr.Peek(n)\n"),
      ("net/rtsp/session.go", "		if b, err = s.Peek(4); err != nil {\n			return err\n		}\n", "		for len(b) < 4 {\n			if b, err = s.Peek(4); err != nil {\n				return err\n			}\n			if len(b) < 4 {\n				time.Sleep(time.Millisecond)\n				s.rdr.Peek(len(b) + 1)\n			}\n		}\n")],
     head("fmt", "net", "os", "time", O + "rtsp") + CONN + '''
func main() {
	c := dial(func(c net.Conn) {
		c.Write([]byte{1, 2})
		time.Sleep(200 * time.Millisecond)
		c.Write([]byte{3, 4})
	})
	_, err := c.Peek(1)
	must(err)
	b, err := c.Peek(4)
	must(err)
	if len(b) != 4 {
		fail("%v", b)
	}
}
''')

SDP = '''
const text = "v=0\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=%s\\r\\na=control:a\\r\\n" +
	"m=video 0 RTP/AVP 97\\r\\na=rtpmap:97 H264/90000\\r\\na=fmtp:97 sprop-parameter-sets=%s\\r\\na=control:b\\r\\n"
const sps = "Z0LADtoHgUS="
const pps = "aM48gA=="

func feeds(a, b string) []*rtsp.Feed {
	fs, err := rtsp.ParseFeeds(rtsp.ProtoTCP, []byte(fmt.Sprintf(text, a, b)))
	must(err)
	if len(fs) != 2 {
		fail("%d feeds", len(fs))
	}
	return fs
}
'''

seed("f01-shared-sets", "F01", "two video streams, of which one is set up and the other asked for parameter sets",
     "all streams of a description share one collection of parameter sets",
     [(F, "	for i, m := range sdp.Parse(buf) {\n		feeds = append(feeds, &Feed{Media: m, transp: NewTransport(proto, i*2), Sets: h264.NewParameterSets()})",
       "	sets := h264.NewParameterSets()\n	for i, m := range sdp.Parse(buf) {\n		feeds = append(feeds, &Feed{Media: m, transp: NewTransport(proto, i*2), Sets: sets})")],
     head("fmt", "os", O + "rtsp") + SDP + '''
func main() {
	fs := feeds(pps, pps)
	must(fs[0].TransportSetup("RTP/AVP/TCP;interleaved=0-1"))
	if v, ok := fs[0].Sets.GetPPS(0); !ok || v == nil {
		fail("no set in the first stream")
	}
	if v, ok := fs[1].Sets.GetPPS(0); ok && v != nil {
		fail("the second stream has sets")
	}
}
''')

seed("f01-first-bad", "F01", "a damaged parameter set in front of a good one",
     "parameter sets behind a damaged one are not taken",
     [(F, "	for _, b := range f.SpropParameterSets {\n		f.Sets.ParseSprop(b)\n", "	ok := true\n	for i := 0; ok && i < len(f.SpropParameterSets); i++ {\n		ok = f.Sets.ParseSprop(f.SpropParameterSets[i]) == nil\n")],
     head("fmt", "os", O + "rtsp") + SDP + '''
func main() {
	fs := feeds("Z0I=,"+pps, pps)
	must(fs[0].TransportSetup("RTP/AVP/TCP;interleaved=0-1"))
	if v, ok := fs[0].Sets.GetPPS(0); !ok || v == nil {
		fail("no set")
	}
}
''')

seed("f01-set-early", "F01", "an answer to SETUP with a malformed transport",
     "a stream whose transport is malformed counts as set up",
     [(F, "	if err := f.transp.Parse(value); err != nil {\n", "	f.IsSet = value != \"\"\n	if err := f.transp.Parse(value); err != nil {\n"),
      (F, "	f.IsSet = true\n	return nil", "	return nil")],
     head("fmt", "os", O + "rtsp") + SDP + '''
func main() {
	fs := feeds(pps, pps)
	if fs[0].TransportSetup("RTP/AVP/TCP;interleaved=x") == nil {
		fail("accepted")
	}
	if fs[0].IsSet {
		fail("set up")
	}
}
''')

seed("v01-scratch", "V01", "a unit from fragments without emulation prevention bytes, kept while the next fragmented unit arrives",
     "units put together from fragments share one buffer",
     [(H + "annexb.go", "	zero := byte(0)\n	size := len(buf)\n	rbsp := make([]byte, 0, size)\n", "	if !bytes.Contains(buf, []byte{0, 0, 3}) {\n		return buf // Nothing to remove\n	}\n	zero := byte(0)\n	size := len(buf)\n	rbsp := make([]byte, 0, size)\n"),
      (H + "annexb.go", "package h264\n", "package h264\n\nimport \"bytes\"\n"),
      (H + "packet.go", "		data := []byte{}\n", "		data := s.scratch[:0]\n"),
      (H + "packet.go", "			data = append(data, frag.Data...)\n		}\n", "			data = append(data, frag.Data...)\n		}\n		s.scratch = data\n"),
      (H + "packet.go", "		Don       uint16 // Decoding Order Number\n	}\n)", "		Don       uint16 // Decoding Order Number\n		scratch   []byte\n	}\n)")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	push := func(b ...byte) {
		must(s.Push(b, 1))
	}
	push(0x7c, 0x85, 1, 2, 3)
	push(0x7c, 0x45, 4, 5)
	a := s.Units[0]
	push(0x7c, 0x81, 9, 9)
	push(0x7c, 0x41, 9, 9)
	if fmt.Sprint(a.Data) != "[1 2 3 4 5]" {
		fail("the first unit has become %v", a.Data)
	}
}
''')

seed("v01-ring", "V01", "packets kept while more than 32 others arrive over TCP",
     "interleaved packets are read into a ring of 32 buffers",
     [("net/rtsp/session.go", "		buf, err := s.ReadBytes(int(length))\n		if err == nil {\n			select {\n			case s.Data <- RawPacket{Channel: ch, Payload: buf}:\n			}\n		}\n		return err\n",
       "		buf, err := s.ReadBytes(int(length))\n		if err == nil {\n			// The reader is never more than the channel behind.\n			s.slot = (s.slot + 1) % len(s.slots)\n			s.slots[s.slot] = append(s.slots[s.slot][:0], buf...)\n			s.Data <- RawPacket{Channel: ch, Payload: s.slots[s.slot]}\n		}\n		return err\n"),
      ("net/rtsp/session.go", "		cseq      int\n	}\n", "		cseq      int\n		slots     [32][]byte\n		slot      int\n	}\n")],
     head("fmt", "net", "os", "time", O + "rtsp") + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		c, err := ln.Accept()
		must(err)
		for i := 0; i < 60; i++ {
			c.Write([]byte{'$', 0, 0, 4, byte(i), 1, 2, 3})
		}
	}()
	s := rtsp.NewSession()
	must(s.Open("rtsp://"+ln.Addr().String()+"/x", rtsp.ProtoTCP))
	var got []rtsp.RawPacket
	for len(got) < 60 {
		select {
		case p := <-s.Data:
			got = append(got, p)
		case <-s.State:
		case <-time.After(5 * time.Second):
			fail("%d packets", len(got))
		}
	}
	for i, p := range got {
		if p.Payload[0] != byte(i) {
			fail("packet %d has become packet %d", i, p.Payload[0])
		}
	}
}
''')

seed("v01-by-time", "V01", "fragments of units of two pictures with the same type, of which the first has lost its end",
     "a series of fragments continues in the next picture",
     [(H + "packet.go", "	} else if first := s.Fragments[0]; first.Header != indicator || first.TS != ts {\n", "	} else if first := s.Fragments[0]; first.Header&0x1f != indicator&0x1f || first.TS > ts {\n"),
      (H + "packet.go", "	// Combine fragments", "	// Combine all fragments")][:1] + [(H + "packet.go", "	if (header & 0x40) != 0 {\n", "	if header&0x40 != 0 {\n")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	must(s.Push([]byte{0x7c, 0x85, 1, 2, 3}, 1))
	must(s.Push([]byte{0x7c, 0x45, 4, 5}, 3001))
	if len(s.Units) != 0 {
		fail("a unit %v", s.Units[0].Data)
	}
}
''')
