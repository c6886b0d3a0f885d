// vh-hostile feeds arbitrary bytes to every parser and reports only how each
// input ended (value, refused, nothing or a panic), how much was allocated,
// and what a fixed series of well-formed inputs gives afterwards.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"os"
	"runtime"
	"time"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"
	"github.com/aboukirev/ouro/net/sdp"
	"verif/harness/xrun"
)

type input struct {
	How string
	Buf []byte // base64
}

type kase struct {
	P     string  // parser
	In    []input // hostile inputs, one after the other
	Probe []input // then these
	Plain bool    // only the probe, in a fresh instance
}

// A parser under attack: feed gives how the input ended and, for the probe,
// what came out.
type target struct {
	feed func(how string, b []byte) (string, interface{})
}

func ended(err error, value bool) string {
	if err != nil {
		return "refused"
	}
	if !value {
		return "nothing"
	}
	return "value"
}

func targets(p string) target {
	switch p {
	case "rtp":
		return target{func(_ string, b []byte) (string, interface{}) {
			q, err := rtp.Unpack(b)
			if err == nil && q != nil {
				return "value", []interface{}{q.P(), q.X(), q.CC(), q.M(), q.PT(), q.SN, q.TS, q.SSRC, q.CSRC, q.XD, q.PL}
			}
			return ended(err, q != nil), nil
		}}
	case "rtcp":
		return target{func(_ string, b []byte) (string, interface{}) {
			q, err := rtcp.Unpack(b)
			if err == nil && q != nil {
				return "value", []interface{}{q.P(), q.C(), q.PT, q.LN, q.DSR}
			}
			return ended(err, q != nil), nil
		}}
	case "sink", "media":
		sink := h264.NewNALSink()
		return target{func(how string, b []byte) (string, interface{}) {
			ts := uint32(0)
			if p == "media" { // as the command does
				q, err := rtp.Unpack(b)
				if err != nil || q == nil {
					return ended(err, q != nil), nil
				}
				b, ts = q.PL, q.TS
			}
			err := sink.Push(b, ts)
			var us []interface{}
			if err == nil {
				for _, u := range sink.Units {
					us = append(us, []interface{}{u.Header, u.ZeroBit(), u.RefIdc(), u.Type(), u.TS, u.Data})
				}
			}
			return ended(err, true), us
		}}
	case "split":
		return target{func(_ string, b []byte) (string, interface{}) { return "value", h264.SplitAnnexB(b) }}
	case "unesc":
		return target{func(_ string, b []byte) (string, interface{}) { return "value", h264.EBSPToRaw(b) }}
	case "esc":
		return target{func(_ string, b []byte) (string, interface{}) { return "value", h264.RBSPToEncapsulated(b) }}
	case "bits":
		return target{readers}
	case "psets":
		ps := h264.NewParameterSets()
		return target{func(how string, b []byte) (string, interface{}) {
			var err error
			switch how {
			case "sps":
				err = ps.ParseSPS(b)
			case "pps":
				err = ps.ParsePPS(b)
			default:
				err = ps.ParseSprop(b)
			}
			if how == "pps" || how == "sprop" && len(b) > 0 && b[0]&31 == 8 {
				q, _ := ps.GetPPS(5)
				return ended(err, true), q
			}
			s, _ := ps.GetSPS(3)
			return ended(err, true), s
		}}
	case "sdp":
		return target{func(_ string, b []byte) (string, interface{}) { return "value", sdp.Parse(b) }}
	case "feeds": // a description as a session takes it
		return target{func(_ string, b []byte) (string, interface{}) {
			fs, err := rtsp.ParseFeeds(rtsp.ProtoTCP, b)
			o := []interface{}{}
			for _, f := range fs {
				h := f.TransportHeader()
				e := f.TransportSetup(h)
				s, _ := f.Sets.GetSPS(3)
				o = append(o, []interface{}{h, e != nil, f.IsSet, f.Control, s})
			}
			return ended(err, true), o
		}}
	case "transport":
		return target{func(_ string, b []byte) (string, interface{}) {
			t := &rtsp.Transport{Mode: "PLAY"}
			err := t.Parse(string(b))
			return ended(err, true), []interface{}{err != nil, t.String()}
		}}
	case "pair":
		return target{func(_ string, b []byte) (string, interface{}) {
			q, err := rtsp.ParsePair(string(b))
			return ended(err, true), q.String()
		}}
	case "challenge":
		return target{func(_ string, b []byte) (string, interface{}) {
			d, err := rtsp.NewDigest("rtsp://h/x", string(b))
			if err != nil || d == nil {
				return ended(err, d != nil), nil
			}
			f := d.Authenticate("u", "p")
			if f == nil {
				return "nothing", nil
			}
			return "value", len(f("DESCRIBE", nil)) > 0 && len(f("PLAY", []byte("x"))) > 0
		}}
	case "unpack", "http":
		return target{func(how string, b []byte) (string, interface{}) { return wire(p, b) }}
	}
	fmt.Fprintln(os.Stderr, "unknown parser", p)
	os.Exit(3)
	return target{}
}

// readers runs the bit reader's operations over b in an order b decides.
func readers(how string, b []byte) (string, interface{}) {
	r := h264.NewBitReader(b)
	o := []interface{}{}
	bad := 0
	for i, c := range []byte(how) {
		var v interface{}
		var err error
		switch c % 11 {
		case 0:
			v, err = r.ReadBits(uint(i*7) % 40)
		case 1:
			v, err = r.ReadByteBits(uint(i) % 10)
		case 2:
			v, err = r.ReadFlag()
		case 3:
			v, err = r.ReadUnsignedGolomb()
		case 4:
			v, err = r.ReadSignedGolomb()
		case 5:
			l := make([]int32, []int{16, 64}[i%2])
			v, err = r.ReadScalingList(l)
		case 6:
			err = r.SkipBits(uint(i*i) % 100)
		case 7:
			err = r.SkipGolomb()
		case 8:
			err = r.SkipTrailingBits()
		case 9:
			v, err = r.ReadPayloadParam()
		case 10:
			v = r.Available()
			if v.(uint) > uint(len(b))*8 {
				return "nothing", nil
			}
		}
		if err != nil {
			bad++
		}
		o = append(o, v)
	}
	if bad > 0 {
		return "refused", o
	}
	return "value", o
}

// wire serves b on a connection that ends after it.
func wire(p string, b []byte) (string, interface{}) {
	ln := xrun.Listen()
	defer ln.Close()
	go func() {
		for {
			s, err := ln.Accept()
			if err != nil {
				return
			}
			s.Write(b)
			s.(*net.TCPConn).CloseWrite()
			defer s.Close()
		}
	}()
	proto := rtsp.ProtoTCP
	if p == "http" {
		proto = rtsp.ProtoHTTP
	}
	conn, err := rtsp.Dial("rtsp://"+ln.Addr().String()+"/x", proto)
	if xrun.Short(err) {
		xrun.Fatal("dial:", err)
	}
	if err != nil || p == "http" {
		return ended(err, conn != nil), err == nil
	}
	conn.Timeout = 500 * time.Millisecond
	o := []interface{}{}
	for n := 0; ; n++ {
		r, err := rtsp.Unpack(conn)
		if err != nil {
			return "refused", o
		}
		if r == nil {
			return "nothing", nil
		}
		if n < 50 {
			o = append(o, []interface{}{r.StatusCode, r.Cseq, r.Header, r.Body, len(r.Pack()) > 0})
		}
	}
}

func main() {
	log.SetOutput(ioutil.Discard)
	xrun.Main(func(raw json.RawMessage) map[string]interface{} {
		var c kase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		t := targets(c.P)
		res := []map[string]interface{}{}
		run := func(in input) (string, interface{}) {
			b := make([]byte, len(in.Buf)) // no spare capacity
			copy(b, in.Buf)
			var a, z runtime.MemStats
			var out string
			var v interface{}
			runtime.ReadMemStats(&a)
			p := xrun.Guard(func() { out, v = t.feed(in.How, b) })
			runtime.ReadMemStats(&z)
			if p != "" {
				out = "panic"
			}
			alloc := z.TotalAlloc - a.TotalAlloc
			if alloc > 1<<31-1 {
				alloc = 1<<31 - 1
			}
			res = append(res, map[string]interface{}{"n": len(b), "out": out, "why": p, "alloc": alloc})
			s, _ := json.Marshal(v)
			for i := range b {
				b[i] = 0xA5
			}
			return out, string(s)
		}
		for _, in := range c.In {
			if out, _ := run(in); out == "panic" {
				break
			}
		}
		hostile := res
		res = nil
		probe := []interface{}{}
		for _, in := range c.Probe {
			out, v := run(in)
			probe = append(probe, []interface{}{out, v})
		}
		return map[string]interface{}{"res": hostile, "probe": probe}
	})
}
