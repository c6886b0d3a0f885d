// vh-rtsp executes the pure parts of net/rtsp: transport headers and
// authentication challenges.
package main

import (
	"encoding/json"

	"github.com/aboukirev/ouro/net/rtsp"
	"verif/harness/xrun"
)

type tr struct {
	TCP         bool   `json:"tcp"`
	Multicast   bool   `json:"multicast"`
	Interleaved bool   `json:"interleaved"`
	Append      bool   `json:"append"`
	Interleave  [2]int `json:"interleave"`
	Port        [2]int `json:"port"`
	ClientPort  [2]int `json:"client_port"`
	ServerPort  [2]int `json:"server_port"`
	Layers      int    `json:"layers"`
	TTL         int    `json:"ttl"`
	Destination string `json:"destination"`
	Source      string `json:"source"`
	SSRC        string `json:"ssrc"`
	Mode        string `json:"mode"`
}

func pr(p [2]int) rtsp.Pair { return rtsp.Pair{One: p[0], Two: p[1]} }
func rp(p rtsp.Pair) [2]int { return [2]int{p.One, p.Two} }
func (t tr) make() *rtsp.Transport {
	return &rtsp.Transport{IsTCP: t.TCP, IsMulticast: t.Multicast, IsInterleaved: t.Interleaved, IsAppend: t.Append,
		Interleave: pr(t.Interleave), Port: pr(t.Port), ClientPort: pr(t.ClientPort), ServerPort: pr(t.ServerPort),
		Layers: t.Layers, TTL: t.TTL, Destination: t.Destination, Source: t.Source, SSRC: t.SSRC, Mode: t.Mode}
}
func view(t *rtsp.Transport) tr {
	return tr{t.IsTCP, t.IsMulticast, t.IsInterleaved, t.IsAppend, rp(t.Interleave), rp(t.Port), rp(t.ClientPort), rp(t.ServerPort),
		t.Layers, t.TTL, t.Destination, t.Source, t.SSRC, t.Mode}
}

var protos = map[string]int{"tcp": rtsp.ProtoTCP, "unicast": rtsp.ProtoUnicast, "multicast": rtsp.ProtoMulticast, "http": rtsp.ProtoHTTP}

func main() {
	xrun.Main(func(raw json.RawMessage) map[string]interface{} {
		var c struct {
			Op         string
			T          tr
			Proto      string
			I          int
			Value      string
			URI        string
			Challenge  string
			User, Pass string
			Calls      []struct{ Verb, Body string }
			Text       string
			Ans        []answer
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		o := map[string]interface{}{}
		switch c.Op {
		case "write", "new":
			t := c.T.make()
			if c.Op == "new" {
				t = rtsp.NewTransport(protos[c.Proto], c.I*2)
			}
			s := t.String()
			back := &rtsp.Transport{Mode: "PLAY"}
			err := back.Parse(s)
			o["text"], o["err"], o["back"] = s, err != nil, view(back)
		case "read":
			t := c.T.make()
			err := t.Parse(c.Value)
			o["err"], o["got"] = err != nil, view(t)
		case "feeds":
			return runFeeds(protos[c.Proto], c.Text, c.Ans)
		case "auth":
			d, err := rtsp.NewDigest(c.URI, c.Challenge)
			o["err"] = err != nil
			vals := []string{}
			if err == nil {
				f := d.Authenticate(c.User, c.Pass)
				for _, k := range c.Calls {
					var body []byte
					if k.Body != "" {
						body = []byte(k.Body)
					}
					vals = append(vals, f(k.Verb, body))
				}
			}
			o["vals"] = vals
		default:
			panic("unknown op " + c.Op)
		}
		return o
	})
}
