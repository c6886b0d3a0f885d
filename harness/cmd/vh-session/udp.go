package main

import (
	"fmt"
	"net"
	"os"
	"time"
)

// keptAlive answers a keep-alive; it is called with the lock held.
func (x *sess) keptAlive(p pending) {
	code, hdrs := "200 OK", [][2]Text{}
	switch x.alive {
	case "none":
		return
	case "454":
		code = "454 Session Not Found"
	case "401":
		if !p.hit {
			for i := range x.seen {
				if x.seen[i].cseq == p.cseq {
					x.seen[i].hit = true
				}
			}
			code = "401 Unauthorized"
			x.nonce++
			hdrs = append(hdrs, [2]Text{Text("WWW-Authenticate"), Text(fmt.Sprintf(`Digest realm="r", nonce="ka%d", qop="auth"`, x.nonce/3))})
		}
	}
	go func() {
		x.wmu.Lock()
		defer x.wmu.Unlock()
		x.mu.Lock()
		x.event(obj{"e": "snd", "k": "resp", "cseq": p.cseq, "code": code, "hdrs": hdrs})
		x.mu.Unlock()
		x.conn.Write(respond(code, p.cseq, hdrs, nil))
	}()
}

// udpStep does the steps that concern media over UDP.
func (x *sess) udpStep(st step) bool {
	switch st.A {
	case "udp": // one datagram to the advertised port number Which of stream I
		x.mu.Lock()
		if st.I >= len(x.ports) {
			x.event(obj{"e": "stuck"})
			x.mu.Unlock()
			return false
		}
		port := x.ports[st.I][st.Which]
		b := pattern(st.Len, st.ID)
		x.event(obj{"e": "snd", "k": "udp", "port": port, "feed": st.I, "which": st.Which, "sum": sum(b), "id": st.ID})
		x.mu.Unlock()
		d := net.Dialer{}
		if st.Src != "" { // media does not have to come from where the requests go
			d.LocalAddr = &net.UDPAddr{IP: net.ParseIP(st.Src)}
		}
		c, err := d.Dial("udp", net.JoinHostPort(x.hostip, fmt.Sprint(port)))
		if err == nil {
			c.Write(b)
			c.Close()
		}
	case "alive":
		x.mu.Lock()
		x.alive = st.Code
		x.mu.Unlock()
	case "chat": // frames every Gap ms for Ms
		for end := time.Now().Add(time.Duration(st.Ms) * time.Millisecond); time.Now().Before(end); {
			b := pattern(st.Len, st.ID)
			x.mu.Lock()
			x.event(obj{"e": "snd", "k": "frame", "ch": st.Ch, "sum": sum(b), "id": st.ID})
			x.mu.Unlock()
			x.write(frame(st.Ch, b), step{})
			time.Sleep(time.Duration(st.Gap) * time.Millisecond)
		}
	case "quiet": // until no event has happened for Ms
		for {
			x.mu.Lock()
			n := len(x.log)
			x.mu.Unlock()
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
			x.mu.Lock()
			m := len(x.log)
			x.mu.Unlock()
			if n == m {
				break
			}
		}
		x.mu.Lock()
		x.event(obj{"e": "quiet"})
		x.mu.Unlock()
	case "stop":
		fin := make(chan struct{})
		go func() { x.s.Stop(); close(fin) }()
		ok := true
		select {
		case <-fin:
		case <-time.After(5 * time.Second):
			ok = false
		}
		x.mu.Lock()
		x.event(obj{"e": "stopped", "ok": ok})
		x.mu.Unlock()
		if !ok {
			return false
		}
	case "free": // are the ports free again?
		x.mu.Lock()
		ports := append([][2]int{}, x.ports...)
		x.mu.Unlock()
		free := true
		for _, p := range ports {
			for _, n := range p {
				c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(x.hostip), Port: n})
				if err != nil {
					free = false
				} else {
					c.Close()
				}
			}
		}
		x.mu.Lock()
		x.event(obj{"e": "free", "ok": free})
		x.mu.Unlock()
	default:
		fmt.Fprintln(os.Stderr, "unknown step", st.A)
		os.Exit(3)
	}
	return true
}
