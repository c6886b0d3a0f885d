package main

import (
	"encoding/json"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
)

// readOp performs one read; the value is text, a number, or nothing.
func readOp(conn *rtsp.Conn, op string, n int) (v interface{}, err error) {
	switch op {
	case "peek":
		var b []byte
		b, err = conn.Peek(n)
		v = append(Text{}, b...)
	case "bytes":
		var b []byte
		b, err = conn.ReadBytes(n)
		v = Text(b)
	case "discard":
		v, err = conn.Discard(n)
	case "byte":
		var b byte
		b, err = conn.ReadByte()
		v = int(b)
	case "u16":
		var w uint16
		w, err = conn.ReadUint16()
		v = int(w)
	case "line":
		var s string
		s, err = conn.ReadLine()
		v = Text(s)
	case "unpack":
		_, err = rtsp.Unpack(conn)
	}
	return
}

// runConn performs reads on a connection up to the first failure.
func runConn(raw json.RawMessage) obj {
	var c struct {
		Chunks  []chunk
		Timeout int
		Close   bool
		Silent  bool // the last operation finds nothing to read
		Ops     []struct {
			Op string
			N  int
		}
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	conn, stop, err := serve(c.Chunks, c.Timeout, c.Close)
	if err != nil {
		return obj{"dial": err.Error()}
	}
	defer stop()
	res := []obj{}
	late := false
	took := 0
	for i, o := range c.Ops {
		start := time.Now()
		last := c.Silent && i == len(c.Ops)-1
		v, err := readOp(conn, o.Op, o.N)
		for o.Op == "peek" && !last && err != nil && isTimeout(err) && time.Since(start) < 10*time.Second {
			v, err = readOp(conn, o.Op, o.N)
		}
		if last {
			took = int(time.Since(start) / time.Millisecond)
			late = err != nil && isTimeout(err)
		}
		if err != nil {
			e := obj{"ok": false, "err": err.Error(), "timeout": isTimeout(err)}
			res = append(res, e)
			break
		}
		res = append(res, obj{"ok": true, "v": v})
	}
	// Values must not change with later reads: Text holds the slice itself.
	return obj{"res": res, "late": late, "took": took}
}
