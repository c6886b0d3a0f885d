// vh-h264 executes cases against net/h264.
package main

import (
	"encoding/json"

	"github.com/aboukirev/ouro/net/h264"
	"verif/harness/xrun"
)

type step struct {
	Op  string
	N   uint
	Buf xrun.Bytes
	Ts  []int
	How string
}

func (s step) isSPS() bool {
	return s.How == "sps" || s.How == "sprop" && len(s.Buf) > 0 && s.Buf[0]&31 == 7
}

func (s step) parse(ps *h264.ParameterSets, buf []byte) error {
	switch s.How {
	case "sps":
		return ps.ParseSPS(buf)
	case "pps":
		return ps.ParsePPS(buf)
	}
	return ps.ParseSprop(buf)
}

// solo is what this set alone gives in a fresh store; a picture set gets the
// accepted sequence sets it may refer to.
func (s step) solo(spss []step, ids []uint32) map[string]interface{} {
	ps := h264.NewParameterSets()
	if !s.isSPS() {
		for _, o := range spss {
			o.parse(ps, dup(o.Buf))
		}
	}
	o := map[string]interface{}{"id": -1}
	err := s.parse(ps, dup(s.Buf))
	o["err"] = err != nil
	if err == nil {
		for _, id := range ids {
			if v, ok := ps.GetSPS(id); ok && v != nil && s.isSPS() {
				o["id"], o["f"] = int(id), spsMap(v)
			} else if v, ok := ps.GetPPS(id); ok && v != nil {
				o["id"], o["f"] = int(id), ppsMap(v)
			}
		}
	}
	return o
}

func lists(u [][]byte) []xrun.Bytes {
	out := []xrun.Bytes{}
	for _, x := range u {
		out = append(out, xrun.Bytes(x))
	}
	return out
}

// private copy without spare capacity
func dup(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

// clip keeps a value within TLC's integers; no expected value is negative
// where the original is unsigned, so a clipped one always differs.
func clip(v uint32) int {
	if v > 1<<31-1 {
		return -1 - int(v&0xffff)
	}
	return int(v)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func spsMap(s *h264.SPSInfo) map[string]interface{} {
	return map[string]interface{}{
		"profile": int(s.ProfileIdc), "constraint": int(s.ConstraintSet), "level": int(s.LevelIdc),
		"id": clip(s.SpsID), "chroma": clip(s.ChromaFormatIdc), "sepcolor": b2i(s.SeparateColorPlane),
		"luma": clip(s.BitDepthLuma), "cbcr": clip(s.BitDepthChroma), "bypass": b2i(s.ZeroTransformBypass),
		"matrix": b2i(s.ScalingMatrixPresent), "lists": clip(s.ScalingListPresent),
		"sl": scaling(s.ScalingListPresent, s.ScalingList[:]), "usedef": bools(s.UseDefaultScalingMatrix[:]),
		"log2fn": clip(s.Log2MaxFrameNum), "poc": clip(s.PicOrderCntType), "log2poc": clip(s.Log2MaxPicOrderCnt),
		"delta0": b2i(s.DeltaPicOrderAlways0), "offnonref": int(s.OffsetForNonRefPic), "offtopbot": int(s.OffsetForTopToBottomField),
		"ncycle": clip(s.NumRefFramesInPicOrderCntCycle), "maxref": clip(s.MaxNumRefFrames), "gaps": b2i(s.GapsInFrameNumValueAllowed),
		"wmbs": clip(s.PicWidthInMbsMinus1), "hmap": clip(s.PicHeightInMapUnitsMinus1), "mbsonly": clip(s.FrameMbsOnly),
		"mbaff": b2i(s.MbAdaptiveFrameField), "direct8": b2i(s.Direct8x8Inference), "crop": b2i(s.FrameCropping),
		"cl": clip(s.FrameCropLeftOffset), "cr": clip(s.FrameCropRightOffset), "ct": clip(s.FrameCropTopOffset), "cb": clip(s.FrameCropBottomOffset),
		"vui": b2i(s.VuiParametersPresent), "width": clip(s.Width), "height": clip(s.Height),
	}
}

func scaling(present uint32, l []int32) []int32 {
	if present == 0 {
		return []int32{}
	}
	return l
}

func bools(b []bool) []int {
	o := make([]int, len(b))
	for i := range b {
		o[i] = b2i(b[i])
	}
	return o
}

func clips(v []uint32) []int {
	o := make([]int, len(v))
	for i := range v {
		o[i] = clip(v[i])
	}
	return o
}

func ppsMap(p *h264.PPSInfo) map[string]interface{} {
	return map[string]interface{}{
		"id": clip(p.PpsID), "sps": clip(p.SpsID), "cabac": b2i(p.EntropyCodingMode), "bottom": b2i(p.BottomFieldPicOorderInFramePresent),
		"ngroups": clip(p.NumSliceGroupsMinus1), "maptype": clip(p.SliceGroupMapType),
		"runs": clips(p.RunLengthMinus1[:]), "tl": clips(p.TopLeft[:]), "br": clips(p.BottomRight[:]),
		"chgdir": b2i(p.SliceGroupChangeDirection), "chgrate": clip(p.SliceGroupChangeRateMinus1),
		"picsize": clip(p.PicSizeInMapUnitsMinus1), "groupid": xrun.Bytes(p.SliceGroupID),
		"l0": clip(p.NumRefIdxL0DefaultActiveMinus1), "l1": clip(p.NumRefIdxL1DefaultActiveMinus1),
		"wp": b2i(p.WeightedPred), "wb": int(p.WeightedBipredIdc), "qp": int(p.PicInitQpMinus26), "qs": int(p.PicInitQsMinus26),
		"cqp": int(p.ChromaQpIndexOffset), "deblock": b2i(p.DeblockingFilterControlPresent), "cintra": b2i(p.ConstrainedIntraPred),
		"redundant": b2i(p.RedundantPicCntPresent), "t8x8": b2i(p.Transform8x8Mode), "matrix": b2i(p.ScalingMatrixPresent),
		"lists": clip(p.ScalingListPresent), "sl": scaling(p.ScalingListPresent, p.ScalingList[:]), "usedef": bools(p.UseDefaultScalingMatrix[:]),
		"cqp2": int(p.SecondChromaQpIndexOffset),
	}
}

func main() {
	xrun.Main(func(raw json.RawMessage) map[string]interface{} {
		var c struct {
			Op       string
			Buf      xrun.Bytes
			Steps    []step
			A, B     int
			Sps, Pps []uint32
			Brief    bool
			Solo     bool
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		switch c.Op {
		case "split":
			return map[string]interface{}{"units": lists(h264.SplitAnnexB(dup(c.Buf)))}
		case "unesc":
			return map[string]interface{}{"out": xrun.Bytes(h264.EBSPToRaw(dup(c.Buf)))}
		case "esc":
			return map[string]interface{}{"out": xrun.Bytes(h264.RBSPToEncapsulated(dup(c.Buf)))}
		case "dondiff":
			return map[string]interface{}{"out": h264.DonDiff(uint16(c.A), uint16(c.B))}
		case "bits":
			return runBits(c.Buf, c.Steps)
		case "sink":
			sink := h264.NewNALSink()
			res := []map[string]interface{}{}
			for _, s := range c.Steps {
				buf := dup(s.Buf)
				r := map[string]interface{}{"panic": false}
				us := []map[string]interface{}{}
				var err error
				p := xrun.Guard(func() { err = sink.Push(buf, xrun.U32(s.Ts)) })
				for i := range buf { // the caller reuses its buffer
					buf[i] = 0xA5
				}
				if p != "" {
					r["panic"], r["why"] = true, p
				}
				r["err"] = err != nil || p != ""
				if p == "" {
					for _, u := range sink.Units {
						if c.Brief {
							us = append(us, map[string]interface{}{"h": u.Header, "n": len(u.Data)})
						} else {
							us = append(us, map[string]interface{}{"h": u.Header, "idc": u.RefIdc(), "type": u.Type(), "don": u.Don, "ts": xrun.P32(u.TS), "d": xrun.Bytes(u.Data)})
						}
					}
				}
				r["units"] = us
				res = append(res, r)
				if p != "" {
					break
				}
			}
			return map[string]interface{}{"res": res}
		case "psets":
			ps := h264.NewParameterSets()
			res := []map[string]interface{}{}
			var spss []step // accepted sequence sets
			for _, s := range c.Steps {
				buf := dup(s.Buf)
				r := map[string]interface{}{"panic": false}
				var err error
				p := xrun.Guard(func() { err = s.parse(ps, buf) })
				if c.Solo && p == "" {
					r["solo"] = s.solo(spss, append(c.Sps, c.Pps...))
				}
				if err == nil && s.isSPS() {
					spss = append(spss, s)
				}
				for i := range buf {
					buf[i] = 0xA5
				}
				if p != "" {
					r["panic"], r["why"] = true, p
				}
				r["err"] = err != nil || p != ""
				if err != nil {
					r["why"] = err.Error()
				}
				sm, pm := []interface{}{}, []interface{}{}
				for _, id := range c.Sps {
					if v, ok := ps.GetSPS(id); ok && v != nil {
						sm = append(sm, map[string]interface{}{"has": true, "f": spsMap(v)})
					} else {
						sm = append(sm, map[string]interface{}{"has": false})
					}
				}
				for _, id := range c.Pps {
					if v, ok := ps.GetPPS(id); ok && v != nil {
						pm = append(pm, map[string]interface{}{"has": true, "f": ppsMap(v)})
					} else {
						pm = append(pm, map[string]interface{}{"has": false})
					}
				}
				r["sps"], r["pps"] = sm, pm
				res = append(res, r)
				if p != "" {
					break
				}
			}
			return map[string]interface{}{"res": res}
		}
		panic("unknown op " + c.Op)
	})
}

func runBits(buf []byte, steps []step) map[string]interface{} {
	r := h264.NewBitReader(dup(buf))
	res := []map[string]interface{}{}
	for _, s := range steps {
		o := map[string]interface{}{"panic": false}
		var err error
		v := []int{0, 0}
		list := []int32{}
		def := false
		p := xrun.Guard(func() {
			switch s.Op {
			case "read":
				var x uint32
				x, err = r.ReadBits(s.N)
				v = xrun.P32(x)
			case "byte":
				var x byte
				x, err = r.ReadByteBits(s.N)
				v = []int{0, int(x)}
			case "flag":
				var x bool
				x, err = r.ReadFlag()
				v = []int{0, b2i(x)}
			case "skip":
				err = r.SkipBits(s.N)
			case "ue":
				var x uint32
				x, err = r.ReadUnsignedGolomb()
				v = xrun.P32(x)
			case "se":
				var x int32
				x, err = r.ReadSignedGolomb()
				v = xrun.P32(uint32(x))
			case "skipue":
				err = r.SkipGolomb()
			case "trail":
				err = r.SkipTrailingBits()
			case "sei":
				var x uint32
				x, err = r.ReadPayloadParam()
				v = xrun.P32(x)
			case "list":
				list = make([]int32, s.N)
				def, err = r.ReadScalingList(list)
			case "avail":
			}
		})
		o["err"] = err != nil || p != ""
		if p != "" {
			o["panic"], o["why"] = true, p
		}
		o["v"], o["list"], o["def"] = v, list, def
		o["av"] = 0
		if p == "" {
			av := r.Available()
			if av > 1<<30 {
				o["av"] = -1
			} else {
				o["av"] = int(av)
			}
		}
		res = append(res, o)
		if p != "" {
			break
		}
	}
	return map[string]interface{}{"res": res}
}
