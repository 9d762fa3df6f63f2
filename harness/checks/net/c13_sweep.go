package net

import (
	"math/rand"
	"time"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/rtmp"
	"vharness/vh"
)

var sweepCmds = []string{"connect", "releaseStream", "FCPublish", "FCUnpublish", "call", "close", "createStream", "publish", "play", "play2", "deleteStream", "closeStream", "receiveAudio", "receiveVideo", "seek", "pause", "_result", "_error", "onStatus", "onFCPublish", "FCSubscribe", "getStreamLength", "@setDataFrame", "onMetaData"}

const sweepBases = 19

// sweepBase is a valid message, most of them short.
func sweepBase(r *rand.Rand, k int, s *media.Stream) *rtmp.Msg {
	m := &rtmp.Msg{CSID: 3, Type: 20}
	var hdrs, coded, metas []*media.Frame
	for _, f := range s.Frames {
		switch {
		case f.Kind == 18:
			metas = append(metas, f)
		case f.Hdr:
			hdrs = append(hdrs, f)
		default:
			coded = append(coded, f)
		}
	}
	frame := func(l []*media.Frame) {
		if len(l) > 0 {
			f := l[r.Intn(len(l))]
			m.CSID, m.MSID, m.Type, m.TS, m.Body = 6, 1, f.Kind, f.TS, f.Body
		}
	}
	switch k {
	case 0:
		m.Body = amf0.Enc("connect", 1.0, amf0.Obj{{K: "app", V: "none"}, {K: "flashVer", V: "FMLE/3.0"}, {K: "tcUrl", V: "rtmp://x/live"}, {K: "objectEncoding", V: 0.0}, {K: "fpad", V: false}}, "extra")
	case 1:
		m.Body = amf0.Enc("publish", 5.0, nil, "sw", "live")
	case 2:
		m.Body = amf0.Enc("play", 5.0, nil, "sw", -2.0, -1.0, true)
	case 3:
		m.Body = amf0.Enc(pick(r, "createStream", "releaseStream", "FCPublish", "deleteStream", "pause", "seek", "FCUnpublish"), 5.0, nil, pick[interface{}](r, "sw", 1.0, true), 20.0)
	case 4:
		m.Type, m.Body = 17, append([]byte{0}, amf0.Enc("releaseStream", 5.0, nil, "sw")...)
	case 5, 6, 7: // control
		m.CSID = 2
		m.Type = pick(r, byte(1), 2, 3, 5, 6)
		m.Body = append(rtmp.U32(uint32(200+r.Intn(5000))), 2)
		if k == 7 {
			m.Type = 4
			m.Body = rtmp.UserCtl(pick(r, uint16(0), 1, 2, 3, 4, 6, 7, 8, 26, 31, 32), r.Uint32(), r.Uint32())
		}
	case 8:
		frame(metas)
	case 9:
		m.Type, m.MSID, m.CSID = 15, 1, 6
		m.Body = append([]byte{0}, amf0.Enc("@setDataFrame", "onMetaData", amf0.Obj{{K: "width", V: 640.0}})...)
	case 10: // two messages in one
		m.Type, m.MSID, m.CSID = 22, 1, 6
		for i := 0; i < 2; i++ {
			b := []byte{0xaf, 1, 1, 2, 3}
			m.Body = append(m.Body, 8, 0, 0, byte(len(b)), 0, 0, byte(i), 0, 0, 0, 0)
			m.Body = append(append(m.Body, b...), rtmp.U32(uint32(len(b)+11))...)
		}
	case 11: // enhanced header
		m.Type, m.MSID, m.CSID = 9, 1, 6
		m.Body = append([]byte{0x90 | byte(r.Intn(7)), pick(r, byte('h'), 'a'), 'v', 'c', '1', 0, 0, 0}, randBytes(r, 20)...)
		for _, f := range hdrs {
			if s.Opt.HEVC && f.Kind == 9 {
				m.Body = append([]byte{0x90, 'h', 'v', 'c', '1'}, f.Body[5:]...)
			}
		}
	case 12:
		m.Type, m.MSID, m.CSID = 8, 1, 6
		m.Body = append([]byte{pick(r, byte(0xaf), 0x2f, 0x7f, 0x8f, 0xdf)}, randBytes(r, 8)...)
	case 13, 14, 15:
		frame(hdrs)
	default:
		frame(coded)
	}
	return m
}

// sweep cuts one valid message at every length, or breaks each of its bytes,
// or sends one command with every number of arguments.
func sweep(c *vh.C, e *Env, rt, app string, g *guard, n int) (views []*View, rc *rtmp.Client) {
	r := c.R
	o := media.Opt{Video: true, Audio: true, HEVC: r.Intn(3) == 0, GOP: 3, MaxSize: 60, Meta: true, Frames: 12, Rate: -1, FrameMs: pick(r, 40.0, 700), Start: 0, ID: uint64(c.Idx+1)<<32 | 1<<31}
	s := media.Gen(r, o)
	k := n % (sweepBases + len(sweepCmds))
	media := k >= 8
	sessions := 0
	open := func() {
		sessions++
		var err error
		if rc, err = rtmp.Dial(rt, r, nil, dialT); err != nil {
			c.FailTimed("refused", "%v", err)
		}
		g.add(4000)
		if k == 0 || k == sweepBases {
			return
		}
		if err := rc.Connect(app, dialT); err != nil {
			c.FailTimed("connect", "%v", err)
		}
		if !media {
			return
		}
		l := NewLive(app, e.Name(c))
		if err := rc.Publish(l.Name, dialT); err != nil {
			c.FailTimed("publish", "%v", err)
		}
		for _, f := range s.Frames[:len(s.Frames)/2] {
			g.add(len(f.Body) + 12)
			rc.SendMsg(&rtmp.Msg{CSID: 6, Type: f.Kind, TS: f.TS, MSID: 1, Body: f.Body}, 0)
			l.Add(f)
		}
		if sessions < 3 {
			for i := 0; i < 2; i++ {
				if v, err := e.View(r, l, randViewer(r, "rtmp", "flv", "rtsp", "rtsp")); err == nil {
					views = append(views, v)
				}
			}
		}
	}
	// send returns when the server has dealt with the message
	send := func(m *rtmp.Msg) {
		if rc == nil {
			open()
		}
		c.Count("swept_messages", 1)
		g.add(len(m.Body) + 12)
		err := rc.SendMsg(m, 0)
		if err == nil && media && r.Intn(3) == 0 {
			f := s.Frames[r.Intn(len(s.Frames))]
			g.add(len(f.Body) + 12)
			err = rc.SendMsg(&rtmp.Msg{CSID: 6, Type: f.Kind, TS: f.TS, MSID: 1, Body: f.Body}, 0)
		}
		if err == nil {
			from := rc.Len()
			id := r.Uint32()
			want := rtmp.UserCtl(7, id)
			g.add(18)
			if err = rc.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, id)}, 0); err == nil {
				_, _, err = rc.Wait(from, 300*time.Millisecond, func(m *rtmp.Msg) bool { return m.Type == 4 && string(m.Body) == string(want) })
			}
		}
		if err != nil {
			c.Count("swept_sessions_ended", 1)
			rc.Close()
			rc = nil
		}
	}
	if k >= sweepBases {
		name := sweepCmds[k-sweepBases]
		c.Trace("sweep of the arguments of %s", name)
		var l [][]interface{}
		for n := 0; n <= 7; n++ {
			for fill := 0; fill < 5; fill++ {
				v := []interface{}{name}
				for i := 0; i < n; i++ {
					switch {
					case i == 0 && fill > 0:
						v = append(v, float64(r.Intn(6)))
					case i == 1 && r.Intn(4) > 0:
						v = append(v, nil)
					default:
						v = append(v, pick[interface{}](r, true, 1.0, "sw", nil, amf0.Obj{{K: "app", V: app}}, anyAMF(r, 0)))
					}
				}
				l = append(l, v)
			}
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for _, v := range l {
			send(&rtmp.Msg{CSID: 3, Type: 20, MSID: uint32(r.Intn(2)), Body: amf0.Enc(v...)})
		}
		return
	}
	m := sweepBase(r, k, s)
	way := r.Intn(4)
	if r.Intn(2) == 0 {
		way = 0
	}
	c.Trace("sweep %d over message type %d: %s", way, m.Type, hexHead(m.Body))
	b := m.Body
	for p := 0; p <= len(b) && p < 70; p++ {
		x := *m
		switch {
		case way == 0:
			x.Body = b[:p]
		case p == len(b):
			continue
		default:
			x.Body = append([]byte{}, b...)
			x.Body[p] = []byte{0xff, 0, x.Body[p] ^ 1<<r.Intn(8)}[way-1]
		}
		send(&x)
	}
	return
}
