package main

import (
	"encoding/json"

	"github.com/aboukirev/ouro/net/rtsp"
)

// runPack packs a request twice.
func runPack(raw json.RawMessage) obj {
	var c struct {
		Verb, URI, Session, Auth Text
		Cseq                     int
		Hdrs                     [][2]Text
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	r := &rtsp.Request{Verb: string(c.Verb), URI: string(c.URI), Session: string(c.Session), Auth: string(c.Auth), Cseq: c.Cseq}
	if c.Hdrs != nil {
		r.Header = make(rtsp.MessageHeader)
		for _, h := range c.Hdrs {
			r.Header.Set(string(h[0]), string(h[1]))
		}
	}
	b := r.Pack()
	keep := string(b)
	again := r.Pack()
	return obj{"b": Text(b), "again": Text(again), "kept": keep == string(b)}
}
