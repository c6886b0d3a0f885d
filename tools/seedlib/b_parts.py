SEEDS = []


def seed(id, property, needs, breaks, edits, main):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main))


def head(*imports):
    return "package main\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ''')

func fail(format string, args ...interface{}) {
	fmt.Printf("\\nFAIL: "+format+"\\n", args...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}
'''


O = "github.com/aboukirev/ouro/net/"
T = "net/rtsp/transport.go"
M = "net/rtsp/message.go"

seed("s13-no-reason", "S13", "a server whose GET answer has an empty reason phrase",
     "a tunnel whose GET answer has no reason phrase is refused",
     [("net/rtsp/http.go", "	status := strings.TrimSpace(line[i+1:])\n	if i := strings.IndexByte(status, ' '); i != -1 {\n		status = status[:i]\n	}\n",
       "	status := strings.TrimSpace(line[i+1:])\n	i = strings.IndexByte(status, ' ')\n	if i == -1 {\n		return errInvalidStatus\n	}\n	status = status[:i]\n")],
     head("fmt", "net", "os", O + "rtsp") + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		for {
			c, err := ln.Accept()
			must(err)
			go func() {
				b := make([]byte, 4096)
				c.Read(b)
				c.Write([]byte("HTTP/1.0 200 \\r\\nPragma: no-cache\\r\\n\\r\\n"))
			}()
		}
	}()
	_, err = rtsp.Dial("rtsp://"+ln.Addr().String()+"/x", rtsp.ProtoHTTP)
	must(err)
}
''')

seed("s13-line-encoder", "S13", "a request longer than 1024 bytes in HTTP mode",
     "long requests are encoded in parts, and one byte is sent twice where the parts meet",
     [("net/rtsp/connection.go", "		w := base64.NewEncoder(base64.StdEncoding, c.post)\n", "		w := base64.NewEncoder(base64.StdEncoding, c.post)\n		for len(p) > 1024 {\n			// Keep lines short for proxies.\n			if _, err = w.Write(p[:1024]); err != nil {\n				return n, err\n			}\n			if err = w.Close(); err != nil {\n				return n, err\n			}\n			w = base64.NewEncoder(base64.StdEncoding, c.post)\n			n, p = n+1024, p[1023:]\n		}\n"),
      ("net/rtsp/connection.go", "			c.connected = true\n", "			c.connected = c.post != nil\n")],
     head("bufio", "encoding/base64", "fmt", "net", "os", "strings", "time", O + "rtsp") + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	got := make(chan string, 10)
	go func() {
		for {
			c, err := ln.Accept()
			must(err)
			go func() {
				r := bufio.NewReader(c)
				line, _ := r.ReadString('\\n')
				for {
					l, err := r.ReadString('\\n')
					if err != nil || l == "\\r\\n" {
						break
					}
				}
				if strings.HasPrefix(line, "GET") {
					c.Write([]byte("HTTP/1.0 200 OK\\r\\n\\r\\n"))
					return
				}
				// Groups of four characters decode one by one, padding or not.
				text, quad := "", make([]byte, 0, 4)
				for {
					b, err := r.ReadByte()
					if err != nil {
						return
					}
					if quad = append(quad, b); len(quad) == 4 {
						d, err := base64.StdEncoding.DecodeString(string(quad))
						must(err)
						text, quad = text+string(d), quad[:0]
						if strings.HasSuffix(text, "\\r\\n\\r\\n") {
							got <- text
							text = ""
						}
					}
				}
			}()
		}
	}()
	path := strings.Repeat("segment/", 200)
	sess := rtsp.NewSession()
	must(sess.Open("rtsp://"+ln.Addr().String()+"/"+path, rtsp.ProtoHTTP))
	select {
	case text := <-got:
		if want := "OPTIONS rtsp://" + ln.Addr().String() + "/" + path + " RTSP/1.0\\r\\n"; !strings.HasPrefix(text, want) {
			fail("request line is not complete")
		}
	case <-time.After(5 * time.Second):
		fail("no request")
	}
}
''')

seed("t01-lower", "T01", "a value with upper case letters, such as an SSRC or a path in the destination",
     "the values of parameters are turned to lower case",
     [(T, 'keyval[j] = strings.TrimSpace(keyval[j])', 'keyval[j] = strings.ToLower(strings.TrimSpace(keyval[j]))'),
      (T, 'switch strings.ToLower(keyval[0]) {', 'switch keyval[0] {')],
     head("fmt", "os", O + "rtsp") + '''
func main() {
	t := &rtsp.Transport{}
	must(t.Parse("RTP/AVP/TCP;interleaved=0-1;ssrc=D34DB33F"))
	if t.SSRC != "D34DB33F" {
		fail("ssrc %s", t.SSRC)
	}
}
''')

seed("t01-second-port", "T01", "a pair whose second number is malformed",
     "a malformed second number of a pair is replaced silently",
     [(T, "		if err != nil {\n			p.Two = p.One + 1\n		}", "		if err != nil {\n			p.Two, err = p.One+1, nil\n		}")],
     head("fmt", "os", O + "rtsp") + '''
func main() {
	t := &rtsp.Transport{}
	if err := t.Parse("RTP/AVP;unicast;client_port=5000-50x1;server_port=1-2"); err == nil {
		fail("accepted: %+v", *t)
	}
}
''')

seed("t01-ttl", "T01", "a unicast or interleaved value that comes after multicast parameters in the same header",
     "ttl is formatted only from 128 up, and layers only from 2 up",
     [(T, "	if t.Layers > 0 {", "	if t.Layers > 1 {")],
     head("fmt", "os", O + "rtsp") + '''
func main() {
	t := rtsp.Transport{IsMulticast: true, Layers: 1, TTL: 3}
	u := &rtsp.Transport{}
	must(u.Parse(t.String()))
	if u.Layers != 1 {
		fail("%s", t.String())
	}
}
''')
SEEDS[-1].update(id="t01-layers", needs="a multicast transport with exactly one layer", breaks="the layers parameter is left out when it is one")

seed("m01-length-16", "M01", "a response body of more than 32767 bytes",
     "the length of long bodies is not understood",
     [(M, "strconv.ParseInt(r.Header.Get(HeaderContentLength), 10, 64)", "strconv.ParseInt(r.Header.Get(HeaderContentLength), 10, 16)")],
     head("fmt", "net", "os", "strings", O + "rtsp") + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		c, err := ln.Accept()
		must(err)
		fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: 1\\r\\nContent-Length: 40000\\r\\n\\r\\n%s", strings.Repeat("x", 40000))
	}()
	c, err := rtsp.Dial("rtsp://"+ln.Addr().String()+"/x", rtsp.ProtoTCP)
	must(err)
	r, err := rtsp.Unpack(c)
	must(err)
	if len(r.Body) != 40000 {
		fail("body of %d bytes", len(r.Body))
	}
}
''')

seed("m01-get-raw", "M01", "a header whose name the server writes in another case",
     "headers are found only when their name is written in one way",
     [(M, "	v, ok := h[textproto.CanonicalMIMEHeaderKey(key)]\n	if ok {\n		return v\n	}\n	return \"\"",
       "	if v, ok := h[key]; ok {\n		return v\n	}\n	return h[textproto.CanonicalMIMEHeaderKey(key)]"),
      (M, "	h[textproto.CanonicalMIMEHeaderKey(key)] = value", "	if _, ok := h[key]; !ok {\n		key = textproto.TrimString(key)\n	}\n	h[strings.Title(key)] = value")],
     head("fmt", "net", "os", O + "rtsp") + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		c, err := ln.Accept()
		must(err)
		fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\ncseq: 7\\r\\nCONTENT-LENGTH: 3\\r\\n\\r\\nabc")
	}()
	c, err := rtsp.Dial("rtsp://"+ln.Addr().String()+"/x", rtsp.ProtoTCP)
	must(err)
	r, err := rtsp.Unpack(c)
	must(err)
	if r.Cseq != 7 || string(r.Body) != "abc" {
		fail("cseq %d, body %q", r.Cseq, r.Body)
	}
}
''')

seed("d01-other-sections", "D01", "a section that is neither audio nor video after a video section",
     "attributes of application or text sections leak into the video stream before them",
     [("net/sdp/packet.go", "					default:\n						m = nil\n", "					case \"audio\":\n						m = nil\n")],
     head("fmt", "os", O + "sdp") + '''
func main() {
	f := sdp.Parse([]byte("v=0\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:track1\\r\\nm=application 0 RTP/AVP 107\\r\\na=control:track3\\r\\n"))
	if len(f) != 1 || f[0].Control != "track1" {
		fail("%+v", f)
	}
}
''')

seed("d01-blank-fields", "D01", "a port with a count in the media line",
     "the payload type is taken from the wrong field when the port carries a count",
     [("net/sdp/packet.go", '						mfields := strings.Split(fields[1], " ")\n						if len(mfields) >= 3 {\n							m.PayloadType, _ = strconv.Atoi(mfields[2])',
       '						mfields := strings.FieldsFunc(fields[1], func(r rune) bool { return r == \' \' || r == \'/\' })\n						if len(mfields) >= 4 {\n							m.PayloadType, _ = strconv.Atoi(mfields[3])')],
     head("fmt", "os", O + "sdp") + '''
func main() {
	f := sdp.Parse([]byte("v=0\\r\\nm=video 49170/2 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\n"))
	if len(f) != 1 || f[0].PayloadType != 96 || f[0].TimeScale != 90000 {
		fail("%+v", f)
	}
}
''')

seed("r01-xl-overflow", "R01", "a header extension of 16384 words or more",
     "the length of the extension data wraps around for long extensions",
     [("net/rtp/packet.go", "packet.XD = buf[off : off+int(packet.XL)*4]", "packet.XD = buf[off : off+int(packet.XL*4)]")],
     head("fmt", "os", O + "rtp") + '''
func main() {
	b := make([]byte, 12+4+16400*4+3)
	b[0], b[14], b[15] = 0x90, byte(16400>>8), byte(16400&255)
	p, err := rtp.Unpack(b)
	must(err)
	if len(p.XD) != 16400*4 || len(p.PL) != 3 {
		fail("extension of %d, payload of %d bytes", len(p.XD), len(p.PL))
	}
}
''')

seed("r01-csrc-order", "R01", "a packet with 8 or more contributing sources",
     "the count of contributing sources loses its top bit",
     [("net/rtp/packet.go", "	return p.VPXCC & 0x0F\n", "	return p.VPXCC & 0x07\n")],
     head("fmt", "os", O + "rtp") + '''
func main() {
	b := make([]byte, 12+4*9+1)
	b[0] = 0x89
	p, err := rtp.Unpack(b)
	must(err)
	if len(p.CSRC) != 9 || len(p.PL) != 1 {
		fail("%d sources, payload of %d bytes", len(p.CSRC), len(p.PL))
	}
}
''')

seed("r02-count-overflow", "R02", "a sender report that announces ten or more report blocks and is cut short",
     "the length announced by a sender report wraps around, so short packets are accepted",
     [("net/rtcp/packet.go", "		if len(buf) < (28 + int(packet.C())*24) {", "		if len(buf) < int(28+packet.C()*24) {")],
     head("fmt", "os", O + "rtcp") + '''
func main() {
	b := make([]byte, 60)
	b[0], b[1] = 0x80|11, 200
	if _, err := rtcp.Unpack(b); err == nil {
		fail("accepted")
	}
}
''')

N = "net/h264/packet.go"
seed("n01-stap-last", "N01", "an aggregation packet that ends with a unit of one byte",
     "a one byte unit at the end of a STAP is lost",
     [(N, "	for {\n		if len(buf) < 2 {\n			return nil // Nothing more to process\n		}\n", "	for {\n		if len(buf) <= 3 {\n			return nil // Nothing more to process\n		}\n")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	must(s.Push([]byte{24, 0, 2, 0x41, 5, 0, 1, 0x0b}, 0))
	if len(s.Units) != 2 {
		fail("%d units", len(s.Units))
	}
}
''')

seed("n02-empty-end", "N02", "a fragment series whose last fragment carries no payload",
     "a unit whose last fragment is empty is never delivered",
     [(N, "	if (header & 0x40) != 0 {", "	if (header&0x40) != 0 && len(data) > 0 {")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	must(s.Push([]byte{0x7c, 0x85, 1, 2}, 0))
	must(s.Push([]byte{0x7c, 0x45}, 0))
	if len(s.Units) != 1 || len(s.Units[0].Data) != 2 {
		fail("%d units", len(s.Units))
	}
}
''')

seed("n02-fub-nri", "N02", "a series begun by FU-B for a unit of type 8 to 15, such as a parameter set",
     "the type of a unit begun by FU-B loses a bit",
     [(N, "		s.AddFragment(nri+(buf[1]&0x1F), buf[1], be.Uint16(buf[2:]), ts, buf[4:])", "		s.AddFragment(nri|(buf[1]&0x17), buf[1], be.Uint16(buf[2:]), ts, buf[4:])")],
     head("fmt", "os", O + "h264") + '''
func main() {
	for typ := byte(1); typ <= 23; typ++ {
		s := h264.NewNALSink()
		must(s.Push([]byte{0x7d, 0x80 | typ, 0, 9, 1, 2}, 0))
		must(s.Push([]byte{0x7c, 0x40 | typ, 3}, 0))
		if len(s.Units) != 1 || s.Units[0].Type() != typ || len(s.Units[0].Data) != 3 {
			fail("type %d: %+v", typ, s.Units)
		}
	}
}
''')

seed("n03-dond-signed", "N03", "a multi-time aggregation packet with a difference above 127",
     "the order number difference of MTAP units is taken as signed",
     [(N, "		dond := uint16(buf[2])\n", "		dond := uint16(int8(buf[2]))\n")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	must(s.Push([]byte{26, 0, 10, 0, 2, 200, 0, 0, 0x41, 5}, 0))
	if len(s.Units) != 1 || s.Units[0].Don != 210 {
		fail("%+v", s.Units)
	}
}
''')

seed("n03-diff-edge", "N03", "two numbers exactly half the range apart",
     "the distance of numbers 32768 apart is off the range",
     [(N, "	if diff >= 32768 {", "	if diff > 32768 {")],
     head("fmt", "os", O + "h264") + '''
func main() {
	if d := h264.DonDiff(0, 32768); d != -32768 && d != 32768 {
		fail("%d", d)
	}
	if a, b := h264.DonDiff(0, 32768), h264.DonDiff(1, 32769); a != b {
		fail("%d %d", a, b)
	}
	for x := 1; x < 32768; x++ {
		if h264.DonDiff(uint16(65536-x), 0) != x || h264.DonDiff(0, uint16(65536-x)) != -x {
			fail("%d", x)
		}
	}
	if d := h264.DonDiff(40000, 40000^0x8000); d != h264.DonDiff(0, 32768) && d != 32768 {
		fail("%d", d)
	}
}
''')
SEEDS.pop()

seed("n03-diff-fold", "N03", "two numbers far apart across the wrap around",
     "the distance of numbers is wrong when the first is more than half the range above the second",
     [(N, "	} else if diff <= -32768 {", "	} else if diff <= -49152 {")],
     head("fmt", "os", O + "h264") + '''
func main() {
	if d := h264.DonDiff(65000, 20000); d != 20536 {
		fail("%d", d)
	}
}
''')

A = "net/h264/annexb.go"
seed("b01-zero-run", "B01", "three or more zero bytes before a start code, in some alignments",
     "a start code after a run of zeros is missed",
     [(A, "		} else {\n			off++\n		}\n	}\n	return appendUnit", "		} else if buf[off+2] == 0 && buf[off+1] == 0 && buf[off] == 0 {\n			off += 2\n		} else {\n			off++\n		}\n	}\n	return appendUnit")],
     head("fmt", "os", O + "h264") + '''
func main() {
	for z := 0; z < 6; z++ {
		b := append([]byte{0, 0, 1, 0x41, 5}, make([]byte, z)...)
		b = append(b, 0, 0, 1, 0x41, 6)
		if u := h264.SplitAnnexB(b); len(u) != 2 {
			fail("%d zeros: %d units", z, len(u))
		}
	}
}
''')
SEEDS[-1]["edits"] = [(A, "		if buf[off+2] > 1 {\n", "		if buf[off+2] > 1 || off+3 < len(buf) && buf[off]|buf[off+1]|buf[off+2]|buf[off+3] == 0 {\n")]
SEEDS[-1]["needs"] = "four or more zero bytes before a start code"

seed("b02-tail", "B02", "data that ends with an emulation prevention byte",
     "an emulation prevention byte at the very end stays in",
     [(A, "		if size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 {", "		if size-off > 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 {")],
     head("fmt", "os", O + "h264") + '''
func main() {
	if b := h264.EBSPToRaw([]byte{0x41, 0, 0, 3}); len(b) != 3 {
		fail("%v", b)
	}
}
''')

seed("b02-overlap", "B02", "two emulation prevention bytes with only zeros between them",
     "after an emulation prevention byte one more byte is taken along unchecked",
     [(A, "			rbsp = append(rbsp, zero, zero)\n			off += 3\n", "			rbsp = append(rbsp, zero, zero)\n			if off += 3; off < size {\n				rbsp = append(rbsp, buf[off])\n				off++\n			}\n")],
     head("fmt", "os", O + "h264") + '''
func main() {
	if b := h264.EBSPToRaw([]byte{0, 0, 3, 0, 0, 3, 0, 0, 3, 1}); len(b) != 7 {
		fail("%v", b)
	}
}
''')

B = "net/h264/bits.go"
seed("b03-skip-32", "B03", "skipping exactly 32 bits",
     "32 bits cannot be skipped at once",
     [(B, "func (r *BitReader) SkipBits(n uint) (err error) {\n	if n > 32 || n > r.Available() {", "func (r *BitReader) SkipBits(n uint) (err error) {\n	if n >= 32 || n > r.Available() {")],
     head("fmt", "os", O + "h264") + '''
func main() {
	r := h264.NewBitReader(make([]byte, 8))
	must(r.SkipBits(31))
	must(r.SkipBits(32))
}
''')

seed("b03-trailing-aligned", "B03", "the stop bit at the last position of a byte, with another byte behind it",
     "the trailing bits check runs into the next byte when the stop bit is the last bit of its byte",
     [(B, "	for r.bitn != 0 && r.bitn != 8 {", "	for r.bitn%8 != 0 || r.bitn == 8 && r.Available() > 0 {")],
     head("fmt", "os", O + "h264") + '''
func main() {
	r := h264.NewBitReader([]byte{0x01, 0x80})
	must(r.SkipBits(7))
	must(r.SkipTrailingBits())
}
''')

P = "net/h264/spspps.go"
seed("p01-crop-422", "P01", "a cropped picture in chroma format 4:2:2",
     "the width of a cropped 4:2:2 picture is wrong",
     [(P, "		if sps.ChromaFormatIdc == 1 || sps.ChromaFormatIdc == 2 {", "		if sps.ChromaFormatIdc == 1 {")],
     head("fmt", "os", "strings", "strconv", O + "h264") + '''
func pack(bits string) []byte {
	bits = strings.ReplaceAll(bits, " ", "") + "1"
	for len(bits)%8 != 0 {
		bits += "0"
	}
	b := []byte{}
	for ; bits != ""; bits = bits[8:] {
		v, _ := strconv.ParseUint(bits[:8], 2, 8)
		b = append(b, byte(v))
	}
	return b
}

func main() {
	s := h264.NewParameterSets()
	// Profile 122, level 40, id 0, chroma 2, depth 0 0, no bypass, no matrix, frame num, type 2, one reference, no gaps, 2x2, frames, no direct, crop 1 0 0 0.
	must(s.ParseSPS(pack("01111010 00000000 00101000 1 011 1 1 0 0 1 011 010 0 010 010 1 0 1 010 1 1 1 0")))
	p, ok := s.GetSPS(0)
	if !ok || p.Width != 30 || p.Height != 32 {
		fail("%dx%d", p.Width, p.Height)
	}
}
''')

PACK = SEEDS[-1]["main"].split("func main")[0]

seed("p01-second-8x8", "P01", "a sequence parameter set that carries both 8x8 scaling lists",
     "the 8x8 scaling lists after the first 4x4 ones are read with the wrong size",
     [(P, "				if present {\n					sps.ScalingListPresent |= 1 << uint32(i)\n					if sps.UseDefaultScalingMatrix[i], err = br.ReadScalingList(sps.ScalingList[off : off+size]); err != nil {\n						return\n					}\n				}\n				off += size\n				if i >= 5 {",
       "				if present {\n					sps.ScalingListPresent |= 1 << uint32(i)\n					if sps.UseDefaultScalingMatrix[i], err = br.ReadScalingList(sps.ScalingList[off : off+size]); err != nil {\n						return\n					}\n				}\n				off += size\n				if i > 5 {")],
     PACK + '''
func main() {
	s := h264.NewParameterSets()
	lists := "0 0 0 0 0 0 1 " + strings.Repeat("1 ", 64) + "1 " + strings.Repeat("1 ", 64)
	must(s.ParseSPS(pack("01100100 00000000 00101000 1 010 1 1 0 1 " + lists + " 1 011 010 0 010 010 1 0 0 0")))
	p, ok := s.GetSPS(0)
	if !ok || p.Width != 32 || p.Height != 32 || p.ScalingList[6*16+40] != 8 || p.ScalingList[6*16+64+40] != 8 {
		fail("%+v", p)
	}
}
''')

seed("p02-group-bits", "P02", "a slice group map of type 6 with two, three or five groups",
     "slice group ids are read with too few bits",
     [(P, "math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))", "math.Log2(float64(pps.NumSliceGroupsMinus1))")],
     PACK + '''
func main() {
	s := h264.NewParameterSets()
	// Ids 0 0, no cabac, no order, 3 groups, type 6, 4 units: 0 1 2 1.
	must(s.ParsePPS(pack("1 1 0 0 011 00111 00100 00 01 10 01 1 1 0 00 1 1 1 0 0 0")))
	p, ok := s.GetPPS(0)
	if !ok || len(p.SliceGroupID) != 4 || p.SliceGroupID[2] != 2 || p.SliceGroupID[3] != 1 {
		fail("%+v", p)
	}
}
''')
SEEDS[-1]["edits"] = [(P, "			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))", "			bits := uint(math.Floor(math.Log2(float64(pps.NumSliceGroupsMinus1)))) + uint(pps.NumSliceGroupsMinus1&1)")]

seed("p02-bottom-right", "P02", "a slice group map of type 2 with foreground rectangles",
     "the rectangles of slice groups are stored one place off from the third on",
     [(P, "				if pps.BottomRight[i], err = br.ReadUnsignedGolomb(); err != nil {", "				if pps.BottomRight[i&1|i>>1], err = br.ReadUnsignedGolomb(); err != nil {")],
     PACK + '''
func main() {
	s := h264.NewParameterSets()
	// 4 groups, type 2, rectangles 0-1 1-2 2-3.
	must(s.ParsePPS(pack("1 1 0 0 00100 011 1 010 010 011 011 00100 1 1 0 00 1 1 1 0 0 0")))
	p, ok := s.GetPPS(0)
	if !ok || p.BottomRight != [8]uint32{1, 2, 3} {
		fail("%+v", p.BottomRight)
	}
}
''')

seed("p03-early-store", "P03", "a picture parameter set that is cut off in its extension",
     "a picture parameter set that is cut off in the transform 8x8 extension is stored all the same",
     [(P, "	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {\n		return\n	}\n", "	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {\n		return\n	}\n	s.ppset[pps.PpsID] = pps\n"),
      (P, "	s.ppset[pps.PpsID] = pps\n	return\n", "	return\n")],
     PACK + '''
func main() {
	s := h264.NewParameterSets()
	base := "1 1 0 0 1 1 1 0 00 1 1 1 0 0 0 "
	must(s.ParsePPS(pack(base)))
	// The extension lacks the last field: transform, matrix with six absent lists, end of the data within the number.
	b := pack(base + "1 1 " + strings.Repeat("1"+strings.Repeat("1", 16), 4) + " 00000000 000000")
	if s.ParsePPS(b[:len(b)-1]) != nil {
		if p, ok := s.GetPPS(0); !ok || p.Transform8x8Mode {
			fail("a rejected set was stored")
		}
	} else {
		fail("a cut set was accepted")
	}
}
''')

seed("p03-first-wins", "P03", "a second set of the same id whose picture size differs",
     "a later sequence parameter set with the same id is ignored when its profile is the same",
     [(P, "	s.spset[sps.SpsID] = sps\n", "	if old, ok := s.spset[sps.SpsID]; !ok || old.ProfileIdc != sps.ProfileIdc || old.LevelIdc != sps.LevelIdc {\n		s.spset[sps.SpsID] = sps\n	}\n")],
     PACK + '''
func main() {
	s := h264.NewParameterSets()
	must(s.ParseSPS(pack("01000010 00000000 00101000 1 1 011 010 0 010 010 1 0 0 0")))
	must(s.ParseSPS(pack("01000010 00000000 00101000 1 1 011 010 0 011 010 1 0 0 0")))
	p, ok := s.GetSPS(0)
	if !ok || p.Width != 48 {
		fail("width %d", p.Width)
	}
}
''')

H = "net/hls/playlist.go"
seed("h01-float32", "H01", "a duration that needs more digits than a 32-bit number keeps",
     "durations are rounded to 32-bit precision",
     [(H, "strconv.FormatFloat(seg.Duration, 'f', -1, 64)", "strconv.FormatFloat(seg.Duration, 'f', -1, 32)")],
     head("fmt", "os", "strings", O + "hls") + '''
func main() {
	pl, err := hls.NewPlaylist("http://h/x", "a.ts", 3, 10)
	must(err)
	pl.AddSegment(9.009009009, 10)
	if !strings.Contains(pl.String(), "#EXTINF:9.009009009\\n") {
		fail("%s", pl.String())
	}
}
''')

seed("h01-reset-position", "H01", "a playlist whose ring has wrapped around",
     "the position starts again from the first listed segment after the ring wrapped around to its first place",
     [(H, "	if pl.Last >= 0 {\n		pos = ", "	if pl.Last >= 0 && (pl.Last != len(pl.Segments)-1 || len(pl.Segments) > 1 && pl.First == 0) {\n		pos = ")],
     head("fmt", "os", "strings", O + "hls") + '''
func main() {
	for n := 1; n < 6; n++ {
		pl, err := hls.NewPlaylist("http://h/x", "a.ts", n, 10)
		must(err)
		for i := 0; i < 20; i++ {
			pl.AddSegment(1, 10)
			if !strings.Contains(pl.String(), fmt.Sprintf("BYTERANGE:10@%d\\n", i*10)) {
				fail("room for %d, after %d: %s", n, i+1, pl.String())
			}
		}
	}
}
''')

seed("x01-fub-short", "X01", "an FU-B payload of exactly three bytes",
     "an FU-B payload cut within its order number crashes the process",
     [(N, "		if len(buf) < 4 {\n			return errPacketTooShort\n		}\n		s.AddFragment", "		if len(buf) < 3 {\n			return errPacketTooShort\n		}\n		s.AddFragment")],
     head("fmt", "os", O + "h264") + '''
func main() {
	s := h264.NewNALSink()
	if s.Push([]byte{0x7d, 0x85, 1}, 0) == nil {
		fail("accepted")
	}
}
''')

seed("x01-mode", "X01", "a transport parameter without a value",
     "a mode parameter without a value crashes the process",
     [(T, "		case \"mode\":\n			if len(keyval) > 1 {\n				t.Mode = strings.Trim(keyval[1], \"\\\"\")\n			} else {\n				err = ErrMalformedTransport\n			}\n", "		case \"mode\":\n			t.Mode = strings.Trim(keyval[1], \"\\\"\")\n")],
     head("fmt", "os", O + "rtsp") + '''
func main() {
	t := &rtsp.Transport{}
	if t.Parse("RTP/AVP/TCP;interleaved=0-1;mode") == nil {
		fail("accepted")
	}
}
''')
# Values keep what they carry: only the missing check is the change.
SEEDS[-1]["edits"] = [(T, "		case \"mode\":\n			if len(keyval) > 1 {\n				t.Mode = strings.Trim(keyval[1], \"\\\"\")\n			} else {\n				err = ErrMalformedTransport\n			}\n", "		case \"mode\":\n			t.Mode = keyval[1]\n")]

seed("x01-negative-length", "X01", "an RTSP answer whose status line ends right after the version",
     "a status line without a code crashes the session",
     [(M, "	i := strings.IndexByte(line, ' ')\n	if i == -1 {\n		return nil, errMalformedResponse\n	}\n", "	i := strings.IndexAny(line, \" \\r\")\n	if i == -1 {\n		return nil, errMalformedResponse\n	}\n"),
      (M, "	if len(statusCode) != 3 {\n		return nil, errInvalidStatus\n	}\n", "	if statusCode[0] == '-' || len(statusCode) != 3 {\n		return nil, errInvalidStatus\n	}\n")],
     head("fmt", "net", "os", O + "rtsp") + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		c, err := ln.Accept()
		must(err)
		fmt.Fprintf(c, "RTSP/1.0 \\r\\nCSeq: 1\\r\\n\\r\\n")
	}()
	c, err := rtsp.Dial("rtsp://"+ln.Addr().String()+"/x", rtsp.ProtoTCP)
	must(err)
	if _, err := rtsp.Unpack(c); err == nil {
		fail("accepted")
	}
}
''')
SEEDS[-1]["id"] = "x01-status-line"

C = "cmd/ouro/main.go"
E01 = head("bufio", "context", "fmt", "net", "os", "os/exec", "strings", "time") + '''
type req struct{ verb, cseq, transport string }

func read(r *bufio.Reader) (q req, ok bool) {
	line, err := r.ReadString('\\n')
	if err != nil {
		return q, false
	}
	q.verb = strings.Fields(line)[0]
	for {
		line, err = r.ReadString('\\n')
		if err != nil {
			return q, false
		}
		line = strings.TrimSpace(line)
		if line == "" {
			return q, true
		}
		kv := strings.SplitN(line, ": ", 2)
		switch strings.ToLower(kv[0]) {
		case "cseq":
			q.cseq = kv[1]
		case "transport":
			q.transport = kv[1]
		}
	}
}
'''
RUN = '''
// start builds the command of the tree and runs it against the camera.
func start(url string) (wait func(d time.Duration) bool) {
	ctx, cancel := context.WithCancel(context.Background())
	out, err := exec.Command("go", "build", "-o", "ouro", "github.com/aboukirev/ouro/cmd/ouro").CombinedOutput()
	if err != nil {
		fail("%s", out)
	}
	cmd := exec.CommandContext(ctx, "./ouro", url)
	must(cmd.Start())
	done := make(chan bool, 1)
	go func() { cmd.Wait(); done <- true }()
	return func(d time.Duration) bool {
		select {
		case <-done:
			cancel()
			return true
		case <-time.After(d):
			cancel()
			<-done
			return false
		}
	}
}
'''
seed("e01-early-end", "E01", "a camera that ends the session before it plays",
     "the command does not exit when the session ends before playing",
     [(C, '				log.Println("Stage: Done")\n				tmr.Reset(time.Second * 5)\n', '				log.Println("Stage: Done")\n				if played {\n					tmr.Reset(time.Second * 5)\n				}\n'),
      (C, '				log.Println("Stage: Playing")\n', '				log.Println("Stage: Playing")\n				played = true\n'),
      (C, '	state := rtsp.StageInit\n', '	state, played := rtsp.StageInit, false\n')],
     E01 + RUN + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		c, err := ln.Accept()
		must(err)
		r := bufio.NewReader(c)
		for {
			q, ok := read(r)
			if !ok {
				return
			}
			if q.verb == "DESCRIBE" {
				c.Close()
				return
			}
			fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\n\\r\\n", q.cseq)
		}
	}()
	if !start("rtsp://" + ln.Addr().String() + "/x")(15 * time.Second) {
		fail("the command does not exit")
	}
}
''')

seed("e01-media-resets", "E01", "media that keeps flowing while the command plays",
     "the timer starts again with every key frame, so PAUSE is put off while media flows",
     [(C, '						log.Printf("NAL Zero', '						if nal.Type() == 5 && state == rtsp.StagePlay {\n							tmr.Reset(time.Second * 5)\n						}\n						log.Printf("NAL Zero'),
      (C, '						// TODO: Detect IDR (Type == 5)\n', '')],
     E01 + RUN + '''
func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	paused := make(chan bool, 1)
	go func() {
		c, err := ln.Accept()
		must(err)
		r := bufio.NewReader(c)
		for {
			q, ok := read(r)
			if !ok {
				return
			}
			switch q.verb {
			case "DESCRIBE":
				body := "v=0\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:a\\r\\n"
				fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nContent-Length: %d\\r\\n\\r\\n%s", q.cseq, len(body), body)
			case "SETUP":
				fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\nSession: 1\\r\\nTransport: %s\\r\\n\\r\\n", q.cseq, q.transport)
			default:
				fmt.Fprintf(c, "RTSP/1.0 200 OK\\r\\nCSeq: %s\\r\\n\\r\\n", q.cseq)
				if q.verb == "PLAY" {
					go func() {
						for i := 0; ; i++ {
							if _, err := c.Write([]byte{'$', 0, 0, 14, 0x80, 96, 0, byte(i), 0, 0, 0, 0, 0, 0, 0, 0, 0x65, 9}); err != nil {
								return
							}
							time.Sleep(300 * time.Millisecond)
						}
					}()
				}
				if q.verb == "PAUSE" {
					paused <- true
				}
			}
		}
	}()
	wait := start("rtsp://" + ln.Addr().String() + "/x")
	go func() {
		time.Sleep(20 * time.Second)
		select {
		case <-paused:
		default:
			fail("no PAUSE while media flows")
		}
	}()
	if !wait(40 * time.Second) {
		fail("the command does not exit")
	}
}
''')
