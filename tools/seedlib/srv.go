package main

// A small RTSP camera for the demonstration: every step is scripted by the caller.

import (
	"bufio"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
)

func init() {
	log.SetOutput(io.Discard)
	time.AfterFunc(100*time.Second, func() { fail("no progress") })
}

func fail(format string, args ...interface{}) {
	fmt.Printf("\nFAIL: "+format+"\n", args...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fmt.Println("\nsetup:", err)
		os.Exit(1)
	}
}

type request struct {
	verb, uri string
	header    map[string]string
	cseq      string
}

type camera struct {
	ln net.Listener
	c  net.Conn
	r  *bufio.Reader
}

func newCamera() *camera {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	return &camera{ln: ln}
}

func (s *camera) url(cred string) string { return "rtsp://" + cred + s.ln.Addr().String() + "/cam" }

func (s *camera) accept() {
	c, err := s.ln.Accept()
	must(err)
	s.c, s.r = c, bufio.NewReader(c)
}

// next reads a request; ok is false if none comes within the time.
func (s *camera) within(d time.Duration) (q request, ok bool) {
	s.c.SetReadDeadline(time.Now().Add(d))
	line, err := s.r.ReadString('\n')
	if err != nil {
		return q, false
	}
	f := strings.Fields(line)
	if len(f) != 3 {
		fail("bad request line %q", line)
	}
	q = request{verb: f[0], uri: f[1], header: map[string]string{}}
	for {
		line, err = s.r.ReadString('\n')
		if err != nil {
			fail("request cut off: %v", err)
		}
		line = strings.TrimRight(line, "\r\n")
		if line == "" {
			break
		}
		kv := strings.SplitN(line, ": ", 2)
		if len(kv) != 2 {
			fail("bad header line %q", line)
		}
		q.header[strings.ToLower(kv[0])] = kv[1]
	}
	q.cseq = q.header["cseq"]
	return q, true
}

func (s *camera) next(verb string) request {
	q, ok := s.within(8 * time.Second)
	if !ok {
		fail("no %s request", verb)
	}
	if q.verb != verb {
		fail("%s instead of %s", q.verb, verb)
	}
	return q
}

func (s *camera) reply(code int, cseq string, headers string, body string) {
	if body != "" {
		headers += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	fmt.Fprintf(s.c, "RTSP/1.0 %d Text\r\nCSeq: %s\r\n%s\r\n%s", code, cseq, headers, body)
}

func sdpOf(controls ...string) string {
	b := "v=0\r\ns=x\r\n"
	for _, c := range controls {
		b += "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:" + c + "\r\n"
	}
	return b
}

// ready walks a session to Ready, all streams accepted.
func (s *camera) ready(sess *rtsp.Session, proto int, session string, controls ...string) {
	go func() { must(sess.Open(s.url(""), proto)) }()
	s.accept()
	s.reply(200, s.next("OPTIONS").cseq, "Public: DESCRIBE\r\n", "")
	s.reply(200, s.next("DESCRIBE").cseq, "", sdpOf(controls...))
	for range controls {
		q := s.next("SETUP")
		s.reply(200, q.cseq, "Session: "+session+"\r\nTransport: "+q.header["transport"]+"\r\n", "")
	}
	stage(sess, rtsp.StageReady)
}

func stage(sess *rtsp.Session, want int) {
	select {
	case got := <-sess.State:
		if got != want {
			fail("stage %d reported instead of %d", got, want)
		}
	case <-time.After(8 * time.Second):
		fail("stage %d not reported", want)
	}
}

func quiet(sess *rtsp.Session, d time.Duration) {
	select {
	case got := <-sess.State:
		fail("stage %d reported", got)
	case <-time.After(d):
	}
}
