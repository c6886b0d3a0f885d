package main

import (
	"fmt"
	"net"
	"time"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"
	"verif/harness/xrun"
)

// A packet as the user keeps it: nothing is copied.
type keptPacket struct {
	e       obj // the event
	payload []byte
	sum     string
	rtp     *rtp.Packet
	rtcp    *rtcp.Packet
	units   []h264.NALUnit
}

// keep remembers what was received, to see later whether it is still that.
func (x *sess) keep(e obj, p rtsp.RawPacket) {
	if x.keptLen += len(p.Payload) + 50; x.keptLen > 32<<20 && !x.decode {
		return
	}
	k := keptPacket{e: e, payload: p.Payload}
	if x.decode {
		x.unpack(&k, p)
	}
	k.sum = sum(p.Payload)
	x.kept = append(x.kept, k)
}

// unpack does what a player does with a packet.
func (x *sess) unpack(k *keptPacket, p rtsp.RawPacket) {
	var err error
	if p.Channel%2 == 1 {
		k.rtcp, err = rtcp.Unpack(p.Payload)
		k.e["err"] = err != nil
		return
	}
	k.rtp, err = rtp.Unpack(p.Payload)
	k.e["err"] = err != nil
	if err != nil {
		k.rtp = nil
		return
	}
	sink := x.nals[p.Channel]
	if sink == nil {
		sink = h264.NewNALSink()
		x.nals[p.Channel] = sink
	}
	k.e["perr"] = sink.Push(k.rtp.PL, k.rtp.TS) != nil
	k.units = append(k.units, sink.Units...)
}

// look writes down what was kept, at the end.
func (x *sess) look() {
	for _, k := range x.kept {
		if s := sum(k.payload); s != k.sum {
			k.e["sum"], k.e["altered"] = "altered "+s, true
		}
		if p := k.rtcp; p != nil && k.e["err"] == false {
			r := obj{"err": false, "p": p.P(), "c": p.C(), "pt": p.PT, "ln": p.LN, "sr": p.DSR != nil}
			if d := p.DSR; d != nil {
				r["ssrc"], r["ntp"], r["rtpts"] = xrun.P32(d.SSRC), xrun.P64(d.NTPTS), xrun.P32(d.RTPTS)
				r["pc"], r["oc"] = xrun.P32(d.PC), xrun.P32(d.OC)
			}
			k.e["h"] = r
		}
		if p := k.rtp; p != nil {
			us := []obj{}
			for _, u := range k.units {
				us = append(us, obj{"h": u.Header, "don": u.Don, "ts": xrun.P32(u.TS), "d": xrun.Bytes(u.Data)})
			}
			k.e["h"] = obj{"m": p.M(), "pt": p.PT(), "sn": p.SN, "ts": xrun.P32(p.TS), "ssrc": xrun.P32(p.SSRC)}
			k.e["units"] = us
		}
	}
}

// packet sends one RTP or RTCP packet: interleaved, or from its own socket to
// the port of stream I.
func (x *sess) packet(st step) bool {
	if x.proto != rtsp.ProtoUnicast {
		x.mu.Lock()
		x.event(obj{"e": "snd", "k": "frame", "ch": st.Ch, "sum": sum(st.Raw), "raw": Text(st.Raw), "id": st.ID})
		x.mu.Unlock()
		x.write(frame(st.Ch, st.Raw), st)
		return true
	}
	x.mu.Lock()
	if st.Ch/2 >= len(x.ports) {
		x.event(obj{"e": "stuck"})
		x.mu.Unlock()
		return false
	}
	port := x.ports[st.Ch/2][st.Ch%2]
	x.event(obj{"e": "snd", "k": "udp", "port": port, "ch": st.Ch, "sum": sum(st.Raw), "raw": Text(st.Raw), "id": st.ID})
	x.mu.Unlock()
	c, err := net.Dial("udp", net.JoinHostPort(x.hostip, fmt.Sprint(port)))
	if err == nil {
		c.Write(st.Raw)
		c.Close()
	}
	if st.Gap > 0 {
		time.Sleep(time.Duration(st.Gap) * time.Millisecond)
	}
	return true
}
