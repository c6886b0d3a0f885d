// vh-session drives rtsp.Session and rtsp.Unpack against a scripted server on
// the loopback and reports everything either side saw, in order. Cases are
// read from stdin (one JSON object per line) and run concurrently; each
// result line carries the number of its case.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"os"
	"strconv"
	"sync"
	"time"

	"verif/harness/xrun"
)

// Text is a byte string that travels as JSON text, one character per byte.
type Text []byte

// MarshalJSON writes each byte as the character of that number.
func (t Text) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(t))
	for i, b := range t {
		r[i] = rune(b)
	}
	return json.Marshal(string(r))
}

// UnmarshalJSON is the inverse of MarshalJSON.
func (t *Text) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	o := []byte{}
	for _, r := range s {
		o = append(o, byte(r))
	}
	*t = o
	return nil
}

type obj map[string]interface{}

func main() {
	par := 48
	if len(os.Args) > 1 {
		par, _ = strconv.Atoi(os.Args[1])
	}
	log.SetOutput(ioutil.Discard)
	res := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // The code under test prints.
	}
	data, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	var raws []json.RawMessage
	for _, l := range bytes.Split(data, []byte{'\n'}) {
		if len(bytes.TrimSpace(l)) > 0 {
			raws = append(raws, l)
		}
	}
	var mu sync.Mutex
	out := bufio.NewWriter(res)
	emit := func(i int, o obj) {
		o["n"] = i
		b, err := json.Marshal(o)
		if err != nil {
			fmt.Fprintln(os.Stderr, "encode:", err)
			os.Exit(3)
		}
		mu.Lock()
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
		mu.Unlock()
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i, raw := range raws {
		sem <- struct{}{}
		wg.Add(1)
		go func(i int, raw json.RawMessage) {
			defer func() { <-sem; wg.Done() }()
			var k struct {
				Op    string
				Limit int // seconds
			}
			if err := json.Unmarshal(raw, &k); err != nil {
				fmt.Fprintln(os.Stderr, "bad case:", err)
				os.Exit(3)
			}
			done := make(chan obj, 1)
			go func() {
				var o obj
				p := xrun.Guard(func() {
					switch k.Op {
					case "unpack":
						o = runUnpack(raw)
					case "repack":
						o = runRepack(raw)
					case "pack":
						o = runPack(raw)
					case "conn":
						o = runConn(raw)
					case "header":
						o = runHeader(raw)
					case "session":
						o = runSession(raw)
					case "rush":
						o = runRush(raw)
					default:
						fmt.Fprintln(os.Stderr, "unknown op", k.Op)
						os.Exit(3)
					}
				})
				if p != "" {
					o = obj{"panic": p}
				}
				done <- o
			}()
			select {
			case o := <-done:
				emit(i, o)
			case <-time.After(limit(k.Limit)):
				emit(i, obj{"hang": true})
			}
		}(i, raw)
	}
	wg.Wait()
	emit(-1, obj{"complete": true})
}

func limit(n int) time.Duration {
	if n == 0 {
		n = 90
	}
	return time.Duration(n) * time.Second
}

var _ = io.EOF
