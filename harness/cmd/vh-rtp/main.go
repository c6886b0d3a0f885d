// vh-rtp executes RTP and RTCP unpacking.
package main

import (
	"encoding/json"

	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"verif/harness/xrun"
)

func main() {
	xrun.Main(func(raw json.RawMessage) map[string]interface{} {
		var c struct {
			Op  string
			Buf xrun.Bytes
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		r := map[string]interface{}{}
		buf := append([]byte{}, c.Buf...)
		buf = buf[:len(buf):len(buf)]
		switch c.Op {
		case "rtp":
			p, err := rtp.Unpack(buf)
			if err != nil || p == nil {
				return map[string]interface{}{"err": true}
			}
			r["err"] = false
			r["p"], r["x"], r["m"] = p.P(), p.X(), p.M()
			r["cc"], r["pt"], r["sn"] = p.CC(), p.PT(), p.SN
			r["ts"], r["ssrc"] = xrun.P32(p.TS), xrun.P32(p.SSRC)
			cs := [][]int{}
			for _, x := range p.CSRC {
				cs = append(cs, xrun.P32(x))
			}
			r["csrc"] = cs
			r["xh"], r["xl"] = p.XH, p.XL
			r["xd"], r["pl"] = xrun.Bytes(p.XD), xrun.Bytes(p.PL)
		case "rtcp":
			p, err := rtcp.Unpack(buf)
			if err != nil || p == nil {
				return map[string]interface{}{"err": true}
			}
			r["err"] = false
			r["p"], r["c"], r["pt"], r["ln"] = p.P(), p.C(), p.PT, p.LN
			r["sr"] = p.DSR != nil
			if d := p.DSR; d != nil {
				r["ssrc"], r["ntp"], r["rtpts"] = xrun.P32(d.SSRC), xrun.P64(d.NTPTS), xrun.P32(d.RTPTS)
				r["pc"], r["oc"] = xrun.P32(d.PC), xrun.P32(d.OC)
			}
		}
		return r
	})
}
