package main

import (
	"encoding/json"
	"net"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif/harness/xrun"
)

type chunk struct {
	B   Text `json:"b"`
	Gap int  `json:"gap"` // milliseconds to wait before writing it
}

func isTimeout(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}

// serve makes a connection whose far end sends chunks; stop ends it.
func serve(chunks []chunk, timeout int, closes bool) (*rtsp.Conn, func(), error) {
	ln := xrun.Listen()
	done := make(chan struct{})
	go func() {
		s, err := ln.Accept()
		if err != nil {
			return
		}
		defer s.Close()
		for _, k := range chunks {
			if k.Gap > 0 {
				time.Sleep(time.Duration(k.Gap) * time.Millisecond)
			}
			if _, err := s.Write(k.B); err != nil {
				return
			}
		}
		if closes {
			return
		}
		<-done
	}()
	stop := func() {
		close(done)
		ln.Close()
	}
	conn, err := rtsp.Dial("rtsp://"+ln.Addr().String()+"/x", rtsp.ProtoTCP)
	if err != nil {
		if xrun.Short(err) {
			xrun.Fatal("dial:", err)
		}
		stop()
		return nil, nil, err
	}
	conn.Timeout = time.Duration(timeout) * time.Millisecond
	return conn, stop, nil
}

// unpackAll unpacks up to n responses and says what ended it before.
func unpackAll(conn *rtsp.Conn, n int) ([]*rtsp.Response, string) {
	var got []*rtsp.Response
	limit := time.Now().Add(15 * time.Second)
	for len(got) < n {
		r, err := rtsp.Unpack(conn)
		if err != nil {
			if isTimeout(err) && time.Now().Before(limit) {
				continue
			}
			if isTimeout(err) {
				return got, "timeout"
			}
			return got, err.Error()
		}
		got = append(got, r)
	}
	return got, ""
}

func viewResponses(got []*rtsp.Response) []obj {
	msgs := []obj{}
	for _, r := range got {
		hs := [][2]Text{}
		for k, v := range r.Header {
			hs = append(hs, [2]Text{Text(k), Text(v)})
		}
		msgs = append(msgs, obj{"proto": r.Proto, "status": Text(r.Status), "code": r.StatusCode, "cseq": r.Cseq, "length": r.ContentLength, "headers": hs, "body": Text(r.Body)})
	}
	return msgs
}

// runUnpack serves chunks to a connection and unpacks n messages from it.
func runUnpack(raw json.RawMessage) obj {
	var c struct {
		Chunks  []chunk
		N       int
		Timeout int // read timeout in milliseconds
		Close   bool
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	conn, stop, err := serve(c.Chunks, c.Timeout, c.Close)
	if err != nil {
		return obj{"dial": err.Error()}
	}
	defer stop()
	got, fail := unpackAll(conn, c.N)
	// Only now look at the results: they must not change with later reads.
	return obj{"msgs": viewResponses(got), "fail": fail}
}

// runRepack unpacks n messages of a stream, packs them one after another and
// unpacks the result.
func runRepack(raw json.RawMessage) obj {
	var c struct {
		B Text
		N int
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	conn, stop, err := serve([]chunk{{B: c.B}}, 5000, true)
	if err != nil {
		return obj{"dial": err.Error()}
	}
	defer stop()
	first, fail := unpackAll(conn, c.N)
	packed := Text{}
	for _, r := range first {
		packed = append(packed, r.Pack()...)
	}
	twice := Text{}
	for _, r := range first {
		twice = append(twice, r.Pack()...)
	}
	conn2, stop2, err := serve([]chunk{{B: packed}}, 5000, true)
	if err != nil {
		return obj{"dial": err.Error()}
	}
	defer stop2()
	second, fail2 := unpackAll(conn2, c.N+1)
	return obj{"got": len(first), "fail": fail, "packed": packed, "size2": len(twice), "msgs": viewResponses(second), "fail2": fail2}
}

// runHeader performs operations on a header map.
func runHeader(raw json.RawMessage) obj {
	var c struct {
		Ops []struct{ Op, N, V string }
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	h := rtsp.MessageHeader{}
	outs := []string{}
	for _, o := range c.Ops {
		switch o.Op {
		case "set":
			h.Set(o.N, o.V)
			outs = append(outs, "")
		case "del":
			h.Del(o.N)
			outs = append(outs, "")
		default:
			outs = append(outs, h.Get(o.N))
		}
	}
	return obj{"outs": outs, "size": len(h), "none": rtsp.MessageHeader(nil).Get("X")}
}
