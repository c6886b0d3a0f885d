// Package xrun runs cases (one JSON object per line on stdin) against real
// code and prints one result object per line. A panic of the code under test
// is a result ("panic"), not a failure of the driver; a case that does not
// finish is reported as "hang" and ends the process.
package xrun

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

// Limit is how long one case may take. Every case is microseconds of work.
var Limit = 20 * time.Second

// Guard calls f and reports a panic as text.
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(runtime.Error); !ok && !bytes.Contains(debug.Stack(), []byte("aboukirev/ouro")) {
				Fatal("harness:", r) // not the code under test
			}
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Main reads cases from stdin and hands each to run.
func Main(run func(raw json.RawMessage) map[string]interface{}) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	for dec.More() {
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			fmt.Fprintln(os.Stderr, "bad case:", err)
			os.Exit(3)
		}
		done := make(chan map[string]interface{}, 1)
		go func() {
			var res map[string]interface{}
			var a, b runtime.MemStats
			measure := false
			var probe struct {
				Mem bool `json:"mem"`
			}
			if json.Unmarshal(raw, &probe) == nil && probe.Mem {
				measure = true
				runtime.ReadMemStats(&a)
			}
			p := Guard(func() { res = run(raw) })
			if p != "" {
				res = map[string]interface{}{"panic": p}
			}
			if measure {
				runtime.ReadMemStats(&b)
				res["alloc"] = b.TotalAlloc - a.TotalAlloc
			}
			done <- res
		}()
		select {
		case res := <-done:
			if err := enc.Encode(res); err != nil {
				fmt.Fprintln(os.Stderr, "encode:", err)
				os.Exit(3)
			}
			out.Flush() // so that a crash is blamed on the case it came from
		case <-time.After(Limit):
			enc.Encode(map[string]interface{}{"hang": true})
			out.Flush()
			os.Exit(0)
		}
	}
}

// Bytes is a byte slice that reads and writes as a JSON array of numbers.
type Bytes []byte

// MarshalJSON writes the bytes as numbers.
func (b Bytes) MarshalJSON() ([]byte, error) {
	o := make([]byte, 0, 2+4*len(b))
	o = append(o, '[')
	for i, x := range b {
		if i > 0 {
			o = append(o, ',')
		}
		o = append(o, fmt.Sprint(x)...)
	}
	return append(o, ']'), nil
}

// UnmarshalJSON reads an array of numbers.
func (b *Bytes) UnmarshalJSON(d []byte) error {
	var v []uint8
	var w []int
	if err := json.Unmarshal(d, &w); err != nil {
		return err
	}
	for _, x := range w {
		v = append(v, byte(x))
	}
	*b = v
	return nil
}

// P32 splits a 32-bit value into 16-bit halves (TLC integers are 32-bit signed).
func P32(v uint32) []int { return []int{int(v >> 16), int(v & 0xffff)} }

// P64 splits a 64-bit value into four 16-bit parts.
func P64(v uint64) []int {
	return []int{int(v >> 48), int(v >> 32 & 0xffff), int(v >> 16 & 0xffff), int(v & 0xffff)}
}

// U32 joins two halves.
func U32(p []int) uint32 { return uint32(p[0])<<16 | uint32(p[1]) }
