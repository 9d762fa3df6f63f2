package net

import (
	"encoding/binary"
	"math/rand"
	"strings"

	"vharness/media"
	"vharness/ref/rtmp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C12", Quick: 700, Thorough: 5000, Setup: setupPlain, Technique: tech,
		Rule:      "publishers and players announce windows of all sizes and send pings and every other control message between and inside media messages, byte offsets recorded; acknowledgements and ping responses are judged offline against the offsets, the media of all viewers against what was published",
		LevelNote: "exploration: seeded control traffic; a received ping response proves that all bytes before the ping were received",
		Run:       runC12})
}

// ctlLog records what was sent with its end offset.
type ctlLog struct {
	ev []ctlEv
}

type ctlEv struct {
	window bool
	v      uint32 // window or ping timestamp
	end    int64
	lock   bool // nothing was sent after it before its answer
}

func (l *ctlLog) on(m *rtmp.Msg, end int64) {
	switch {
	case m.Type == 5 && len(m.Body) >= 4:
		l.ev = append(l.ev, ctlEv{window: true, v: binary.BigEndian.Uint32(m.Body), end: end})
	case m.Type == 4 && len(m.Body) >= 6 && binary.BigEndian.Uint16(m.Body) == 6:
		l.ev = append(l.ev, ctlEv{v: binary.BigEndian.Uint32(m.Body[2:]), end: end})
	}
}

func randCtl(r *rand.Rand) *rtmp.Msg {
	m := &rtmp.Msg{CSID: pick(r, uint32(2), 2, 2, 2, 11, 70), MSID: pick(r, uint32(0), 0, 0, 1)}
	if r.Intn(3) == 0 {
		m.TS = pick(r, uint32(0), 1, 0xffffff, 0x1000000, r.Uint32())
	}
	switch r.Intn(12) {
	case 0, 1, 2:
		m.Type, m.Body = 4, rtmp.UserCtl(6, r.Uint32())
		if r.Intn(8) == 0 {
			m.Body = append(m.Body, 1, 2, 3, 4)
		}
	case 3, 4, 5:
		m.Type, m.Body = 5, rtmp.U32(pick(r, 0, 1, uint32(r.Intn(50)), uint32(r.Intn(3000)), uint32(r.Intn(3000)), 4096, uint32(r.Intn(70000)), uint32(r.Intn(70000)), 1<<20, 2500000, 0x7fffffff, 0xffffffff))
	case 6:
		m.Type, m.Body = 6, append(rtmp.U32(pick(r, uint32(0), 1, 2500000, 0xffffffff)), byte(r.Intn(4)))
	case 7:
		m.Type, m.Body = 3, rtmp.U32(r.Uint32())
	case 8:
		m.Type, m.Body = 4, rtmp.UserCtl(3, 1, uint32(r.Intn(10000)))
	case 9:
		m.Type, m.Body = 4, rtmp.UserCtl(uint16(pick(r, 0, 1, 2, 4, 5, 7, 8, 26, 27, 31, 32, 1000)), r.Uint32())
	case 10:
		m.Type, m.Body = 2, rtmp.U32(pick(r, uint32(2000), 3, 0xffffffff)) // abort of a stream with nothing partial
		if m.Body[3] == 3 {
			m.Body[2] = 200
		}
	case 11:
		m.Type, m.Body = 4, rtmp.UserCtl(6, r.Uint32())
	}
	return m
}

// judge compares the received control messages with the log.
func (l *ctlLog) judge(c *vh.C, rc *rtmp.Client, who string) {
	msgs, err := rc.Msgs()
	if err != nil {
		c.Fail("session-lost", "%s: %v", who, err)
	}
	k := 0
	var win uint32
	var winAt, lastAck, lastPong int64
	var acks int64
	next := func() (ping *ctlEv) { // the next ping and the windows before it
		for k < len(l.ev) {
			e := &l.ev[k]
			k++
			if !e.window {
				return e
			}
			win, winAt = e.v, e.end
		}
		return nil
	}
	upper := func() int64 { // what the server can have received before the next barrier's answer
		for _, e := range l.ev[k:] {
			if e.lock {
				return e.end
			}
		}
		return rc.Sent
	}
	for _, m := range msgs {
		switch {
		case m.Type == 3:
			if len(m.Body) != 4 {
				c.Fail("ack-format", "%s: acknowledgement of %d bytes", who, len(m.Body))
			}
			v := int64(binary.BigEndian.Uint32(m.Body))
			acks++
			if v < lastAck {
				c.Fail("ack-decreases", "%s: acknowledgement %d after %d", who, v, lastAck)
			}
			if v < lastPong || v > upper() {
				c.Fail("ack-value", "%s: acknowledgement %d; between %d and %d bytes had been received", who, v, lastPong, upper())
			}
			lastAck = v
		case m.Type == 4 && len(m.Body) >= 2 && binary.BigEndian.Uint16(m.Body) == 7:
			e := next()
			if e == nil {
				c.Fail("ping-extra", "%s: ping response % x nobody asked for", who, m.Body)
			}
			if len(m.Body) < 6 || binary.BigEndian.Uint32(m.Body[2:]) != e.v {
				c.Fail("ping-value", "%s: ping %08x is answered % x", who, e.v, m.Body)
			}
			base := lastAck
			if winAt > base {
				base = winAt
			}
			if win > 0 && e.end-base >= int64(win) {
				c.Fail("ack-missing", "%s: window %d announced at byte %d; at byte %d the last acknowledgement is %d", who, win, winAt, e.end, lastAck)
			}
			lastPong = e.end
			c.Count("pings", 1)
		}
	}
	if e := next(); e != nil {
		c.FailTimed("ping-missing", "%s: the ping %08x at byte %d is not answered", who, e.v, e.end)
	}
	c.Count("acks", int(acks))
	c.Count("max_bytes", int(rc.Sent))
}

func (p *Pub) lockBarrier(c *vh.C, l *ctlLog) {
	p.Barrier(c)
	l.ev[len(l.ev)-1].lock = true
}

func runC12(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(appLive, e.Name(c))
	s := RandStyle(r)
	s.Control = true
	if r.Intn(3) == 0 {
		s = Style{Fmt: s.Fmt, Control: true, CSV: s.CSV, CSA: s.CSA, CSM: s.CSM}
	}
	log := &ctlLog{}
	p := try[*Pub](c, "publishing")(prepPub(e.RTMP, r, l, s))
	defer p.Close()
	p.OnCtl = log.on
	p.NextCtl = func() *rtmp.Msg {
		for {
			// an abort must not hit a message that is under way
			if m := randCtl(r); m.Type != 2 && !(m.CSID != 2 && (m.CSID == s.CSA || m.CSID == s.CSV || m.CSID == s.CSM || s.Inter || s.Abort)) {
				return m
			}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		p.ctl(p.NextCtl())
	}
	if err := p.Client.Publish(l.Name, c.D(dialT)); err != nil {
		c.FailTimed("publish", "%v", err)
	}
	n := 20 + r.Intn(60)
	fs, desc := genFrames(c, n, false, media.Opt{Start: startTS(r), Meta: true, GOP: 5 + r.Intn(8), MaxSize: pick(r, 30, 1500, 9000, 60000)})
	c.Trace("%s style %v", desc, s)
	vf := try[*View](c, "viewing over FLV")(ViewFLV(e.FLV, l))
	defer vf.Close(false)
	vr := try[*View](c, "viewing over RTMP")(ViewRTMP(e.RTMP, r, l))
	defer vr.Close(false)
	plog := &ctlLog{}
	fk := firstKey(fs)
	first := fs[fk]
	feed(c, p, fs[:fk+1], 100, vf, vr)
	fs = fs[fk+1:]
	playerPing := func() {
		m := &rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, r.Uint32())}
		from := vr.RC.Len()
		vr.RC.SendMsg(m, 0)
		plog.on(m, vr.RC.Sent)
		plog.ev[len(plog.ev)-1].lock = true
		w := string(rtmp.UserCtl(7, binary.BigEndian.Uint32(m.Body[2:])))
		if _, _, err := vr.RC.Wait(from, c.D(dialT), func(m *rtmp.Msg) bool { return m.Type == 4 && string(m.Body) == w }); err != nil {
			c.FailTimed("player-ping", "no ping response for a player: %v", err)
		}
	}
	for len(fs) > 0 {
		k := 1 + r.Intn(pick(r, 1, 3, 12))
		if k > len(fs) {
			k = len(fs)
		}
		for r.Intn(3) == 0 {
			p.ctl(p.NextCtl())
		}
		if r.Intn(3) == 0 { // small steps between barriers
			for i := r.Intn(6); i > 0; i-- {
				m := p.NextCtl()
				p.ctl(m)
				if r.Intn(2) == 0 {
					p.lockBarrier(c, log)
				}
			}
		}
		feed(c, p, fs[:k], k, vf, vr)
		fs = fs[k:]
		if r.Intn(2) == 0 {
			p.lockBarrier(c, log)
		}
		for i := r.Intn(4); i > 0; i-- { // the player's side
			if r.Intn(3) == 0 {
				vr.RC.Cmd(1, "x", vr.RC.NextTxn(), nil, strings.Repeat("y", r.Intn(2000)))
				continue
			}
			m := randCtl(r)
			if m.Type == 2 {
				continue
			}
			if m.Type == 5 && r.Intn(2) == 0 {
				m.Body = rtmp.U32(uint32(1 + r.Intn(200)))
			}
			vr.RC.SendMsg(m, 0)
			plog.on(m, vr.RC.Sent)
		}
		if r.Intn(2) == 0 {
			playerPing()
		}
	}
	p.lockBarrier(c, log)
	playerPing()
	log.judge(c, p.Client, "publisher")
	plog.judge(c, vr.RC, "player")
	start := -1
	for i, f := range l.Frames() {
		if f == first {
			start = i
		}
	}
	p.Close()
	awaitEnd(c, vf, vr)
	for _, v := range []*View{vf, vr} {
		checkRun(c, v, RunOpt{From: start, Complete: true, ToEnd: true, MustMedia: true})
	}
	c.Nontrivial("%d %v", c.Idx, s)
}
