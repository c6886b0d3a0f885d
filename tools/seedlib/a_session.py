SEEDS = []
S = "net/rtsp/session.go"


def seed(id, property, needs, breaks, edits, main):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main))


HEAD = '''
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
)

var _ = fmt.Sprint
var _ = strings.Split
var _ = time.Now
'''

seed("s01-keep-retried", "S01", "a request that was challenged and repeated, and whose final answer then arrives twice",
     "a repeated answer to a repeated request acts a second time",
     [(S, "	if ok {\n		delete(s.queue, seq)\n	}", "	if ok && !req.retried {\n		delete(s.queue, seq)\n	}")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url("u:p@"), rtsp.ProtoTCP)) }()
	s.accept()
	s.reply(200, s.next("OPTIONS").cseq, "Public: DESCRIBE\\r\\n", "")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf("a"))
	q := s.next("SETUP")
	s.reply(200, q.cseq, "Session: 1\\r\\nTransport: "+q.header["transport"]+"\\r\\n", "")
	stage(sess, rtsp.StageReady)
	must(sess.Play())
	q = s.next("PLAY")
	s.reply(401, q.cseq, "WWW-Authenticate: Basic realm=\\"x\\"\\r\\n", "")
	q = s.next("PLAY")
	s.reply(200, q.cseq, "", "")
	stage(sess, rtsp.StagePlay)
	s.reply(200, q.cseq, "", "")
	quiet(sess, time.Second)
}
''')

seed("s01-cseq-byte", "S01", "more than 127 requests on one connection",
     "answers to requests with a CSeq above 127 are not matched with their requests any more",
     [("net/rtsp/message.go", "	r.Cseq, _ = strconv.Atoi(r.Header.Get(HeaderCSeq))\n",
       "	cseq, _ := strconv.ParseInt(r.Header.Get(HeaderCSeq), 10, 8)\n	r.Cseq = int(cseq)\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	for i := 0; i < 150; i++ {
		must(sess.Options())
		s.reply(200, s.next("OPTIONS").cseq, "", "")
	}
	must(sess.Play())
	s.reply(200, s.next("PLAY").cseq, "", "")
	stage(sess, rtsp.StagePlay)
}
''')

seed("s02-control-contains", "S02", "a relative control attribute with :// in its query",
     "a relative control URI that has :// in it is taken for an absolute one, so SETUP is not addressed to the stream",
     [(S, 'if !strings.HasPrefix(uri, "rtsp://") {', 'if !strings.Contains(uri, "://") {')],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url(""), rtsp.ProtoTCP)) }()
	s.accept()
	s.reply(200, s.next("OPTIONS").cseq, "", "")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf("track1?src=file://x/y"))
	q := s.next("SETUP")
	if want := s.url("") + "/track1?src=file://x/y"; q.uri != want {
		fail("SETUP %s instead of %s", q.uri, want)
	}
}
''')

seed("s02-refused-5xx", "S02", "a SETUP of a stream that the server refuses with a 5xx status",
     "a SETUP refused with a server error is not counted as answered, so Ready is never reported",
     [(S, "	} else if rsp.StatusCode != RtspUnauthorized {", "	} else if rsp.StatusCode/100 == 4 && rsp.StatusCode != RtspUnauthorized {")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url(""), rtsp.ProtoTCP)) }()
	s.accept()
	s.reply(200, s.next("OPTIONS").cseq, "", "")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf("a", "b"))
	q := s.next("SETUP")
	p := s.next("SETUP")
	s.reply(200, q.cseq, "Session: 1\\r\\nTransport: "+q.header["transport"]+"\\r\\n", "")
	s.reply(503, p.cseq, "", "")
	stage(sess, rtsp.StageReady)
}
''')

seed("s03-drop-late", "S03", "a user who reads the stage reports more than a second late",
     "a stage report is dropped when the user is not ready to take it within a second",
     [(S, "	select {\n	case s.State <- stage:\n	}\n", "	select {\n	case s.State <- stage: // Do not wait forever for a user who has gone.\n	case <-time.After(time.Second):\n	}\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	must(sess.Play())
	s.reply(200, s.next("PLAY").cseq, "", "")
	time.Sleep(3 * time.Second)
	stage(sess, rtsp.StagePlay)
}
''')

seed("s03-play-twice", "S03", "PLAY confirmed while already playing (a seek, for instance)",
     "the second confirmation of PLAY is not reported",
     [(S, "	case VerbPlay:\n		if rsp.StatusCode == RtspOK {", "	case VerbPlay:\n		if rsp.StatusCode == RtspOK && s.stage != StagePlay {")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	for i := 0; i < 2; i++ {
		must(sess.Play())
		s.reply(200, s.next("PLAY").cseq, "", "")
		stage(sess, rtsp.StagePlay)
	}
}
''')

seed("s04-first-id", "S04", "a server that assigns a new session identifier later on",
     "requests keep carrying the first identifier after the server assigned another one",
     [(S, '	if sess := rsp.Header.Get(HeaderSession); sess != "" {', '	if sess := rsp.Header.Get(HeaderSession); sess != "" && s.session == "" {')],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "one", "a")
	must(sess.Play())
	s.reply(200, s.next("PLAY").cseq, "Session: two;timeout=60\\r\\n", "")
	stage(sess, rtsp.StagePlay)
	must(sess.Pause())
	if q := s.next("PAUSE"); q.header["session"] != "two" {
		fail("PAUSE carries session %q", q.header["session"])
	}
}
''')

seed("s04-describe", "S04", "a server that assigns the session before DESCRIBE, or a user who describes again during the session",
     "DESCRIBE does not carry the session identifier",
     [("net/rtsp/message.go", "r.Verb != VerbOptions && r.Verb != VerbSetup {", "r.Verb != VerbOptions && r.Verb != VerbSetup && r.Verb != VerbDescribe {")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "one", "a")
	must(sess.Describe())
	if q := s.next("DESCRIBE"); q.header["session"] != "one" {
		fail("DESCRIBE carries session %q", q.header["session"])
	}
}
''')

seed("s05-escaped-password", "S05", "credentials whose characters are escaped in the URL",
     "Authorization is made from the escaped form of the credentials",
     [(S, "	username := s.URL.User.Username()\n	password, _ := s.URL.User.Password()\n",
       "	username, password, _ := strings.Cut(s.URL.User.String(), \":\")\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url("admin:p%40ss%2Fw@"), rtsp.ProtoTCP)) }()
	s.accept()
	s.reply(401, s.next("OPTIONS").cseq, "WWW-Authenticate: Basic realm=\\"x\\"\\r\\n", "")
	q := s.next("OPTIONS")
	if q.header["authorization"] != "Basic YWRtaW46cEBzcy93" {
		fail("authorization %s", q.header["authorization"])
	}
}
''')

seed("s05-only-first", "S05", "a second challenge with a new nonce later in the session",
     "the request repeated in answer to a later challenge is signed for the earlier one",
     [(S, "	s.auth = digest.Authenticate(username, password)\n",
       "	if auth := digest.Authenticate(username, password); s.auth == nil || digest.stale == \"\" {\n		s.auth = auth\n	}\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url("u:p@"), rtsp.ProtoTCP)) }()
	s.accept()
	s.reply(401, s.next("OPTIONS").cseq, "WWW-Authenticate: Digest realm=\\"x\\", nonce=\\"n1\\"\\r\\n", "")
	s.reply(200, s.next("OPTIONS").cseq, "", "")
	s.reply(401, s.next("DESCRIBE").cseq, "WWW-Authenticate: Digest realm=\\"x\\", nonce=\\"n2\\", stale=true\\r\\n", "")
	if q := s.next("DESCRIBE"); !strings.Contains(q.header["authorization"], "nonce=\\"n2\\"") {
		fail("authorization %s", q.header["authorization"])
	}
}
''')

seed("s06-nc-decimal", "S06", "ten or more requests under one challenge with qop",
     "the nonce count is written in decimal, not hexadecimal",
     [("net/rtsp/digest.go", 'd.nc = fmt.Sprintf("%08x", d.count)', 'd.nc = fmt.Sprintf("%08d", d.count)')],
     HEAD + '''
func main() {
	newCamera()
	d, err := rtsp.NewDigest("rtsp://h:554/x", `Digest realm="r", nonce="n", qop="auth"`)
	must(err)
	auth := d.Authenticate("u", "p")
	for i := 1; i <= 40; i++ {
		if v := auth("PLAY", nil); !strings.Contains(v, fmt.Sprintf("nc=%08x,", i)) {
			fail("request %d: %s", i, v)
		}
	}
}
''')

seed("s06-trim-blank", "S06", "a realm that begins or ends with a blank",
     "blanks at the ends of quoted directives are lost, so the digest does not verify",
     [("net/rtsp/digest.go", 'val = strings.Trim(val, "\\"")', 'val = strings.Trim(val, "\\" ")')],
     HEAD + '''
func main() {
	newCamera()
	d, err := rtsp.NewDigest("rtsp://h:554/x", `Digest realm="IP Camera ", nonce="n"`)
	must(err)
	if v := d.Authenticate("u", "p")("PLAY", nil); !strings.Contains(v, `realm="IP Camera "`) {
		fail("%s", v)
	}
}
''')

seed("s07-drop-full", "S07", "a user who takes packets slowly while a burst longer than the queue arrives",
     "interleaved frames are dropped when the queue to the user is full",
     [(S, "			select {\n			case s.Data <- RawPacket{Channel: ch, Payload: buf}:\n			}",
       "			select {\n			case s.Data <- RawPacket{Channel: ch, Payload: buf}:\n			case <-time.After(keepAliveTimeout / 4):\n			}"),
      (S, "		if err == nil {\n			select", "		if err == nil && len(s.State) == 0 {\n			select")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	for i := 0; i < 30; i++ {
		s.c.Write([]byte{'$', 0, 0, 1, byte(i)})
	}
	time.Sleep(3 * time.Second)
	for i := 0; i < 30; i++ {
		select {
		case p := <-sess.Data:
			if p.Payload[0] != byte(i) {
				fail("frame %d instead of %d", p.Payload[0], i)
			}
		case <-time.After(2 * time.Second):
			fail("frame %d is missing", i)
		}
	}
}
''')

seed("s07-discard-line", "S07", "a frame whose channel number is 10 or 13",
     "a frame on channel 10 or 13 is taken for a line end",
     [(S, "	if b[0] == '$' {", "	if b[0] == '$' && !s.eol() {"),
      (S, "func (s *Session) receive() error {\n", "// eol tells whether the dollar is followed by line end.\nfunc (s *Session) eol() bool {\n	b, err := s.Peek(2)\n	return err == nil && (b[1] == '\\r' || b[1] == '\\n')\n}\n\nfunc (s *Session) receive() error {\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	for ch := 0; ch < 16; ch++ {
		s.c.Write([]byte{'$', byte(ch), 0, 1, 7})
		select {
		case p := <-sess.Data:
			if int(p.Channel) != ch {
				fail("channel %d instead of %d", p.Channel, ch)
			}
		case <-time.After(2 * time.Second):
			fail("frame on channel %d is missing", ch)
		}
	}
}
''')

seed("s08-shared-buffer", "S08", "commands issued on two sessions at the same moment",
     "requests are formatted in a buffer that is handed to another session before it is written",
     [("net/rtsp/message.go", "func (r *Request) Pack() []byte {\n	buf := &bytes.Buffer{}\n", "func (r *Request) Pack() []byte {\n	buf := buffers.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer buffers.Put(buf)\n"),
      ("net/rtsp/message.go", "	colsp = []byte{':', ' '}\n", "	colsp = []byte{':', ' '}\n\n	buffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}\n"),
      ("net/rtsp/message.go", '	"strings"\n)', '	"strings"\n	"sync"\n)')],
     HEAD + '''
func one(n string, done chan bool) {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, n, "a")
	go func() {
		for i := 0; i < 4000; i++ {
			must(sess.Play())
		}
	}()
	for i := 0; i < 4000; i++ {
		if q := s.next("PLAY"); q.header["session"] != n || q.uri != s.url("") {
			fail("request of another session")
		}
	}
	done <- true
}

func main() {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go one(fmt.Sprint("session", i), done)
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}
''')

seed("s08-dequeue-unlocked", "S08", "commands issued while responses are being handled",
     "the queue of outstanding requests is read and changed without the lock that commands hold",
     [(S, "	s.Lock()\n	defer s.Unlock()\n	req, ok = s.queue[seq]\n	if ok {\n		delete(s.queue, seq)\n	}\n	return\n",
       "	if req, ok = s.queue[seq]; ok {\n		s.Lock()\n		defer s.Unlock()\n		delete(s.queue, seq)\n	}\n	return\n")],
     HEAD + '''
func one(n string, done chan bool) {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, n, "a")
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 5000; i++ {
				must(sess.Options())
			}
		}()
	}
	for i := 0; i < 20000; i++ {
		s.reply(200, s.next("OPTIONS").cseq, "", "")
	}
	done <- true
}

func main() {
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go one(fmt.Sprint("session", i), done)
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}
''')

seed("s09-ipv6-port", "S09", "an IPv6 address without a port in the URL",
     "the default port is not added to an IPv6 host",
     [("net/rtsp/connection.go", "	if _, _, err = net.SplitHostPort(url1.Host); err != nil {", "	if !strings.Contains(url1.Host, \":\") {"),
      ("net/rtsp/connection.go", '	"net/url"\n	"sync"', '	"net/url"\n	"strings"\n	"sync"')],
     HEAD + '''
func main() {
	newCamera()
	_, err := rtsp.Dial("rtsp://[::1]/x", rtsp.ProtoTCP)
	if err != nil && (strings.Contains(err.Error(), "missing port") || strings.Contains(err.Error(), "too many colons")) {
		fail("%v", err)
	}
}
''')

seed("s10-paused", "S10", "a UDP session that stays paused (or ready) for a while",
     "keep-alives are sent only while the session plays",
     [(S, "s.stage > StageInit && s.stage < StageDone {", "s.stage == StagePlay {")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoUnicast, "1", "a")
	if q, ok := s.within(8 * time.Second); !ok || q.verb != "OPTIONS" {
		fail("no keep-alive after Ready")
	}
}
''')

seed("s10-busy", "S10", "a UDP session on whose RTSP connection the server keeps sending messages",
     "keep-alives are put off as long as messages arrive",
     [(S, "			if err := s.KeepAlive(); err != nil && s.stage == StageDone {\n				return\n			}\n			if err := s.receive(); err != nil && !isTimeoutOrTemp(err) {\n				log.Println(err)\n				return\n			}",
       "			err := s.receive()\n			if err == nil {\n				continue\n			}\n			if !isTimeoutOrTemp(err) {\n				log.Println(err)\n				return\n			}\n			if err := s.KeepAlive(); err != nil && s.stage == StageDone {\n				return\n			}")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoUnicast, "1", "a")
	for i := 0; i < 8; i++ {
		if q, ok := s.within(time.Second); ok {
			if q.verb != "OPTIONS" {
				fail("%s", q.verb)
			}
			return
		}
		s.reply(200, "9999", "", "")
	}
	fail("no keep-alive in eight seconds")
}
''')

seed("s11-reused-buffer", "S11", "two datagrams on one port before the user takes the first",
     "packets from UDP share one buffer, so a queued packet is overwritten by the next",
     [("net/rtsp/connection.go", "Payload: append([]byte{}, buf[:n]...)}:", "Payload: buf[:n:n]}:")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoUnicast, "1", "a")
	port := 50000
	c, err := netDial(port)
	must(err)
	for i := 0; i < 5; i++ {
		c.Write([]byte{byte(i), 1, 2, 3})
	}
	time.Sleep(500 * time.Millisecond)
	for i := 0; i < 5; i++ {
		select {
		case p := <-sess.Data:
			if p.Payload[0] != byte(i) {
				fail("datagram %d instead of %d", p.Payload[0], i)
			}
		case <-time.After(2 * time.Second):
			fail("datagram %d is missing", i)
		}
	}
}
'''.replace("func main", '''func netDial(port int) (net.Conn, error) { return net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port)) }

func main''').replace("PLACE", ""))
SEEDS[-1]["main"] = SEEDS[-1]["main"].replace('	"fmt"\n', '	"fmt"\n	"net"\n', 1)

seed("s11-arrival-channel", "S11", "SETUP answers of a UDP session in another order than the streams",
     "channels are numbered in the order of SETUP answers, not of streams",
     [(S, "			if f.cseq == rsp.Cseq {\n				s.feedidx++\n", "			if f.cseq == rsp.Cseq {\n				i, s.feedidx = s.feedidx, s.feedidx+1\n")],
     HEAD.replace('	"fmt"\n', '	"fmt"\n	"net"\n', 1) + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	go func() { must(sess.Open(s.url(""), rtsp.ProtoUnicast)) }()
	s.accept()
	s.reply(200, s.next("OPTIONS").cseq, "", "")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf("a", "b"))
	q := s.next("SETUP")
	p := s.next("SETUP")
	s.reply(200, p.cseq, "Session: 1\\r\\nTransport: "+p.header["transport"]+"\\r\\n", "")
	s.reply(200, q.cseq, "Session: 1\\r\\nTransport: "+q.header["transport"]+"\\r\\n", "")
	stage(sess, rtsp.StageReady)
	c, err := net.Dial("udp", "127.0.0.1:50000")
	must(err)
	c.Write([]byte{1})
	select {
	case pkt := <-sess.Data:
		if pkt.Channel != 0 {
			fail("channel %d for the first stream", pkt.Channel)
		}
	case <-time.After(3 * time.Second):
		fail("datagram is missing")
	}
}
''')

seed("s12-idle-limit", "S12", "a server that stays silent for more than ten seconds",
     "the session ends by itself when the server is silent for several read timeouts in a row",
     [(S, "	for {\n		select {\n		case <-s.done:\n			return\n", "	for idle := 0; idle < 5; {\n		select {\n		case <-s.done:\n			return\n"),
      (S, "			if err := s.receive(); err != nil && !isTimeoutOrTemp(err) {\n				log.Println(err)\n				return\n			}\n", "			if err := s.receive(); err == nil {\n				idle = 0\n			} else if isTimeoutOrTemp(err) {\n				idle++\n			} else {\n				log.Println(err)\n				return\n			}\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	quiet(sess, 14*time.Second)
}
''')

seed("s12-done-only-playing", "S12", "a connection that ends after PAUSE",
     "the end of the connection is not reported while the session is paused",
     [(S, "			if err := s.receive(); err != nil && !isTimeoutOrTemp(err) {\n				log.Println(err)\n				return\n			}\n",
       "			if err := s.receive(); err != nil && !isTimeoutOrTemp(err) {\n				log.Println(err)\n				if s.stage == StagePause {\n					<-s.done\n				}\n				return\n			}\n"),
      (S, "		case <-s.done:\n			return\n		default:\n			if err := s.KeepAlive(); err != nil && s.stage == StageDone {\n", "		case <-s.done:\n			return\n		default:\n			if err := s.KeepAlive(); err != nil && s.stage >= StageDone {\n")],
     HEAD + '''
func main() {
	s := newCamera()
	sess := rtsp.NewSession()
	s.ready(sess, rtsp.ProtoTCP, "1", "a")
	must(sess.Play())
	s.reply(200, s.next("PLAY").cseq, "", "")
	stage(sess, rtsp.StagePlay)
	must(sess.Pause())
	s.reply(200, s.next("PAUSE").cseq, "", "")
	stage(sess, rtsp.StagePause)
	s.c.Close()
	stage(sess, rtsp.StageDone)
}
''')
