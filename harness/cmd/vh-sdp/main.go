// vh-sdp executes session description parsing.
package main

import (
	"encoding/json"

	"github.com/aboukirev/ouro/net/sdp"
	"verif/harness/xrun"
)

func main() {
	xrun.Main(func(raw json.RawMessage) map[string]interface{} {
		var c struct {
			Text string
			Buf  xrun.Bytes
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		in := []byte(c.Text)
		if c.Buf != nil {
			in = c.Buf
		}
		feeds := []map[string]interface{}{}
		for _, m := range sdp.Parse(in) {
			sp := []xrun.Bytes{}
			for _, s := range m.SpropParameterSets {
				sp = append(sp, xrun.Bytes(s))
			}
			feeds = append(feeds, map[string]interface{}{
				"pt": m.PayloadType, "control": m.Control, "codec": int(m.Type), "rtpmap": m.Rtpmap,
				"scale": m.TimeScale, "sprop": sp, "config": xrun.Bytes(m.Config),
				"sizelen": m.SizeLength, "idxlen": m.IndexLength,
			})
		}
		return map[string]interface{}{"feeds": feeds}
	})
}
