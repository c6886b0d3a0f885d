// vh-hls executes playlist histories.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/net/hls"
	"verif/harness/xrun"
)

type op struct {
	Op   string
	Cap  int
	Dur  int // in Dens of a second
	Len  int // in units
	Unit int64
}

// rows parses a rendered playlist into <<dur, len, pos>> rows, in units.
func rows(s, uri string, unit int64, den float64) ([][]int, error) {
	lines := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(lines) == 0 || lines[0] != "#EXTM3U" {
		return nil, fmt.Errorf("no #EXTM3U header")
	}
	out := [][]int{}
	var cur []int
	for _, ln := range lines[1:] {
		switch {
		case strings.HasPrefix(ln, "#EXTINF:"):
			if cur != nil {
				return nil, fmt.Errorf("entry without URI")
			}
			txt := strings.TrimRight(strings.TrimPrefix(ln, "#EXTINF:"), ",")
			if strings.Trim(txt, "0123456789.") != "" { // decimal-floating-point of RFC 8216
				return nil, fmt.Errorf("duration %q is not decimal", txt)
			}
			d, err := strconv.ParseFloat(txt, 64)
			if err != nil {
				return nil, err
			}
			k := int(math.Round(d * den))
			if float64(k)/den != d {
				return nil, fmt.Errorf("duration %v altered", d)
			}
			cur = []int{k}
		case strings.HasPrefix(ln, "#EXT-X-BYTERANGE:"):
			p := strings.SplitN(strings.TrimPrefix(ln, "#EXT-X-BYTERANGE:"), "@", 2)
			if len(p) != 2 || len(cur) != 1 {
				return nil, fmt.Errorf("bad byte range line %q", ln)
			}
			for _, x := range p {
				v, err := strconv.ParseInt(x, 10, 64)
				if err != nil {
					return nil, err
				}
				if v%unit != 0 || v/unit > 1<<30 || v < 0 {
					return nil, fmt.Errorf("value %d is not a number of units", v)
				}
				cur = append(cur, int(v/unit))
			}
		case strings.HasPrefix(ln, "#"):
		default:
			if len(cur) != 3 || ln != uri {
				return nil, fmt.Errorf("unexpected URI line %q", ln)
			}
			out = append(out, cur)
			cur = nil
		}
	}
	if cur != nil {
		return nil, fmt.Errorf("truncated entry")
	}
	return out, nil
}

func main() {
	xrun.Main(func(raw json.RawMessage) map[string]interface{} {
		var c struct {
			Base, Name, URI string
			Unit            int64
			Den             float64 // durations are multiples of a Den-th of a second
			Ops             []op
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(err)
		}
		res := []map[string]interface{}{}
		var pl *hls.Playlist
		for _, o := range c.Ops {
			r := map[string]interface{}{"ok": true}
			p := xrun.Guard(func() {
				switch o.Op {
				case "new":
					var err error
					pl, err = hls.NewPlaylist(c.Base, c.Name, o.Cap, 3.5)
					if err != nil {
						r["ok"], r["why"] = false, err.Error()
					}
				case "add":
					pl.AddSegment(float64(o.Dur)/c.Den, int64(o.Len)*c.Unit)
				case "render":
					rs, err := rows(pl.String(), c.URI, c.Unit, c.Den)
					if err != nil {
						r["ok"], r["why"], rs = false, err.Error(), [][]int{}
					}
					r["rows"] = rs
				}
			})
			if p != "" {
				r = map[string]interface{}{"ok": false, "why": "panic: " + p}
			}
			if o.Op == "render" && r["rows"] == nil {
				r["rows"] = [][]int{}
			}
			res = append(res, r)
			if p != "" {
				break
			}
		}
		return map[string]interface{}{"res": res}
	})
}
