package main

import (
	"github.com/aboukirev/ouro/net/rtsp"
	"verif/harness/xrun"
)

type m map[string]interface{}

// answer to the SETUP of feed I.
type answer struct {
	I     int
	Value string
}

func viewFeeds(fs []*rtsp.Feed) []m {
	out := []m{}
	for _, f := range fs {
		sp := []xrun.Bytes{}
		for _, s := range f.SpropParameterSets {
			sp = append(sp, xrun.Bytes(s))
		}
		ss, ps := []m{}, []m{}
		for id := uint32(0); id < 256; id++ {
			if v, ok := f.Sets.GetSPS(id); ok && v != nil {
				ss = append(ss, m{"id": id, "f": m{"profile": v.ProfileIdc, "level": v.LevelIdc, "width": v.Width, "height": v.Height, "maxref": v.MaxNumRefFrames}})
			}
			if v, ok := f.Sets.GetPPS(id); ok && v != nil {
				ps = append(ps, m{"id": id, "f": m{"sps": v.SpsID, "l0": v.NumRefIdxL0DefaultActiveMinus1, "l1": v.NumRefIdxL1DefaultActiveMinus1, "qp": v.PicInitQpMinus26}})
			}
		}
		out = append(out, m{"pt": f.PayloadType, "control": f.Control, "codec": int(f.Type), "scale": f.TimeScale, "sprop": sp, "config": xrun.Bytes(f.Config),
			"sizelen": f.SizeLength, "idxlen": f.IndexLength, "set": f.IsSet, "header": f.TransportHeader(), "sps": ss, "pps": ps})
	}
	return out
}

// runFeeds reads a description and gives answers to the SETUPs of its feeds.
func runFeeds(proto int, text string, ans []answer) map[string]interface{} {
	buf := []byte(text)
	fs, err := rtsp.ParseFeeds(proto, buf)
	for i := range buf {
		buf[i] = 'x' // The feeds do not live in the buffer.
	}
	o := m{"err": err != nil, "views": viewFeeds(fs)}
	res := []m{}
	for _, a := range ans {
		if a.I >= len(fs) {
			res = append(res, m{"missing": true})
			break
		}
		e := fs[a.I].TransportSetup(a.Value)
		res = append(res, m{"err": e != nil, "views": viewFeeds(fs)})
	}
	o["res"] = res
	return o
}
