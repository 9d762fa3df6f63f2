package net

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"time"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/rtmp"
	"vharness/vh"
)

var zeros16M = make([]byte, 0xffffff)

const hostileTech = "runtime monitoring: generated hostile traffic against the running server under the Go runtime's own checks (bounds, nil, map, stack, concurrent map access); monitors of heap, processor time, goroutines and an innocent stream beside the attack"

func init() {
	vh.Register(&vh.Check{ID: "C13", Quick: 600, Thorough: 6000, Setup: setup, Technique: hostileTech, MemLimit: 1500 << 20,
		Rule:      "hostile sessions at every stage of RTMP (handshake, chunk headers, control messages, AMF, commands, aggregates, media and headers that reach all viewers and segmenters), random, structured and mutated from valid traffic; an innocent stream beside them is compared frame by frame, heap, allocations, idle processor time and left-over goroutines are judged",
		LevelNote: "exploration: seeded attacks; memory is judged against bytes sent with a fixed allowance",
		Run:       runC13})
}

// hostileAMF is a value list, mostly broken.
func hostileAMF(r *rand.Rand) []byte {
	switch r.Intn(14) {
	case 7, 8: // any command with any number of arguments of any type
		v := []interface{}{pick(r, "connect", "releaseStream", "FCPublish", "FCUnpublish", "call", "close", "createStream", "publish", "play", "play2", "deleteStream", "closeStream", "receiveAudio", "receiveVideo", "seek", "pause", "_result", "_error", "onStatus", "onFCPublish", "@setDataFrame", "onMetaData", "x"), float64(r.Intn(6))}
		if r.Intn(6) == 0 {
			v[1] = anyAMF(r, 0)
		}
		if r.Intn(5) > 0 {
			v = append(v, nil)
		}
		for n := r.Intn(5); n > 0; n-- {
			v = append(v, pick[interface{}](r, anyAMF(r, 0), r.Intn(2) == 0, float64(r.Intn(5000)), "h"))
		}
		return amf0.Enc(v[:1+r.Intn(len(v))]...)
	case 0: // nesting
		b := amf0.Enc(pick(r, "connect", "onMetaData", "@setDataFrame"), 1.0)
		n := pick(r, 10, 1000, 100000)
		for i := 0; i < n; i++ {
			switch r.Intn(3) {
			case 0:
				b = append(b, 3, 0, 1, 'a')
			case 1:
				b = append(b, 8, 0, 0, 0, 1, 0, 1, 'a')
			case 2:
				b = append(b, 10, 0, 0, 0, 1)
			}
		}
		return b
	case 1: // counts without contents
		b := amf0.Enc(pick(r, "connect", "@setDataFrame", "onMetaData", "publish"), 1.0)
		b = append(b, pick(r, byte(8), 10))
		return append(b, pick(r, []byte{0xff, 0xff, 0xff, 0xff}, []byte{0x7f, 0xff, 0xff, 0xff}, []byte{0, 0xff, 0xff, 0xff})...)
	case 2: // long strings without contents
		b := amf0.Enc("connect", 1.0)
		return append(b, pick(r, []byte{12, 0xff, 0xff, 0xff, 0xff, 'a'}, []byte{12, 0x7f, 0xff, 0xff, 0xff}, []byte{2, 0xff, 0xff, 'a'}, []byte{15, 0xff, 0xff, 0xff, 0xf0})...)
	case 3:
		return append(amf0.Enc(pick(r, "connect", "publish", "play", "createStream"), 1.0), randBytes(r, r.Intn(60))...)
	case 4:
		return amf0.Enc(anyAMF(r, 0), anyAMF(r, 0), anyAMF(r, 0), anyAMF(r, 0))
	case 5: // references, markers of every kind
		b := amf0.Enc("connect", 1.0)
		for i := 0; i < 10; i++ {
			b = append(b, byte(r.Intn(20)))
			b = append(b, randBytes(r, r.Intn(9))...)
		}
		return b
	case 6:
		b := amf0.Enc("@setDataFrame", "onMetaData", anyAMF(r, 0))
		return b
	}
	var b []byte
	switch r.Intn(5) {
	case 0:
		b = amf0.Enc("connect", 1.0, amf0.Obj{{K: "app", V: appLive}, {K: "tcUrl", V: "rtmp://x/live"}, {K: "objectEncoding", V: 3.0}})
	case 1:
		b = amf0.Enc("publish", 5.0, nil, "h", "live")
	case 2:
		b = amf0.Enc("play", 5.0, nil, "h", -2.0)
	case 3:
		b = amf0.Enc("@setDataFrame", "onMetaData", amf0.ECMA{Count: 2, Props: []amf0.Prop{{K: "width", V: 640.0}, {K: "videocodecid", V: pick[interface{}](r, 7.0, "avc1", nil, math64(r))}}})
	case 4:
		b = amf0.Enc(pick(r, "FCUnpublish", "deleteStream", "closeStream", "pause", "seek", "releaseStream"), 5.0, nil, anyAMF(r, 0), anyAMF(r, 0))
	}
	return mutate(r, b)
}

func math64(r *rand.Rand) float64 { return pick(r, -1, 1e300, 4294967296, 0.5, float64(r.Intn(300))) }

// hostileMsg is a message whose chunks are right and whose content is not.
func hostileMsg(r *rand.Rand, valid []*media.Frame) *rtmp.Msg {
	m := &rtmp.Msg{CSID: pick(r, uint32(2), 3, 4, 5, 6, 7, 63, 64, 319, 320, 65599), MSID: pick(r, uint32(0), 1, 1, 5, 0xffffffff), TS: pick(r, uint32(0), 0, 0xffffff, 0xffffffff, r.Uint32())}
	switch r.Intn(10) {
	case 0, 1: // commands and data
		m.Type = pick(r, byte(20), 20, 18, 17, 15, 16, 19)
		m.Body = hostileAMF(r)
		if m.Type == 17 && r.Intn(2) == 0 {
			m.Body = append([]byte{0}, m.Body...)
		}
	case 2: // control
		m.CSID, m.MSID = 2, 0
		m.Type = pick(r, byte(1), 2, 3, 4, 5, 6)
		m.Body = randBytes(r, r.Intn(8))
		if m.Type == 1 && r.Intn(2) == 0 {
			m.Body = rtmp.U32(pick(r, uint32(0), 0x80000000, 0xffffffff, 0x7fffffff))
		}
	case 3:
		m.Type = byte(r.Intn(256))
		m.Body = randBytes(r, r.Intn(100))
	case 4: // aggregate
		m.Type = 22
		for i := r.Intn(5); i >= 0; i-- {
			n := pick(r, 0, 1, 5, 0xffffff, r.Intn(200))
			k := n
			if k > 300 {
				k = r.Intn(100)
			}
			m.Body = append(m.Body, pick(r, byte(8), 9, 18, 22, 20, 1, 255), byte(n>>16), byte(n>>8), byte(n))
			m.Body = append(m.Body, randBytes(r, 7)...)
			m.Body = append(m.Body, randBytes(r, k)...)
			m.Body = append(m.Body, rtmp.U32(uint32(n+11))...)
		}
		if r.Intn(3) == 0 && len(m.Body) > 0 {
			m.Body = m.Body[:r.Intn(len(m.Body))]
		}
		if r.Intn(6) == 0 { // aggregates within aggregates
			for i := 0; i < pick(r, 3, 50, 2000); i++ {
				h := []byte{22, byte(len(m.Body) >> 16), byte(len(m.Body) >> 8), byte(len(m.Body)), 0, 0, 0, 0, 0, 0, 0}
				m.Body = append(h, m.Body...)
			}
		}
	default: // media
		if len(valid) > 0 && r.Intn(4) > 0 {
			f := valid[r.Intn(len(valid))]
			m.Type, m.Body, m.TS = f.Kind, f.Body, f.TS
			if r.Intn(5) > 0 {
				n := len(m.Body)
				if n > 60 && r.Intn(2) == 0 { // the front matters most
					m.Body = append(mutate(r, m.Body[:60]), m.Body[60:]...)
				} else {
					m.Body = mutate(r, m.Body)
				}
			}
			if r.Intn(10) == 0 {
				m.TS = r.Uint32()
			}
			break
		}
		m.Type = pick(r, byte(8), 9)
		m.Body = randBytes(r, r.Intn(30))
		if len(m.Body) > 0 && m.Type == 9 {
			m.Body[0] = byte(r.Intn(16))<<4 | pick(r, byte(7), 12, 13, 2, byte(r.Intn(16)))
			if len(m.Body) > 1 && r.Intn(2) == 0 {
				m.Body[1] = byte(r.Intn(6))
			}
			if r.Intn(4) == 0 && len(m.Body) > 5 {
				copy(m.Body[1:], pick(r, "hvc1", "avc1", "av01", "vp09"))
			}
		}
		if len(m.Body) > 1 && m.Type == 8 {
			m.Body[0] = pick(r, byte(0xaf), 0xaf, byte(r.Intn(256)))
			m.Body[1] = byte(r.Intn(3))
		}
	}
	return m
}

// hostileChunks is bytes at the level of chunks.
func hostileChunks(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return randBytes(r, r.Intn(pick(r, 20, 300, 5000)))
	case 1: // huge messages begun on many chunk streams
		var b []byte
		w := rtmp.NewWriter()
		for i := 0; i < pick(r, 5, 100, 1000); i++ {
			p := w.Start(&rtmp.Msg{CSID: uint32(3 + i), Type: pick(r, byte(8), 9, 20), Body: zeros16M}, 0, false)
			b = append(b, p.Next()...)
		}
		return b
	case 2: // compressed headers with nothing before them
		var b []byte
		for i := 0; i < 20; i++ {
			b = append(b, byte(1+r.Intn(3))<<6|byte(r.Intn(64)))
			b = append(b, randBytes(r, r.Intn(20))...)
		}
		return b
	case 3: // chunk size extremes, then data
		w := rtmp.NewWriter()
		n := pick(r, uint32(0), 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffff)
		b := w.Encode(&rtmp.Msg{CSID: 2, Type: 1, Body: rtmp.U32(n)}, 0)
		b = append(b, []byte{6, 0, 0, 0, 0xff, 0xff, 0xff, 9, 1, 0, 0, 0}...)
		return append(b, randBytes(r, r.Intn(3000))...)
	case 4: // headers of chosen fields
		var b []byte
		for i := 0; i < 10; i++ {
			fm := r.Intn(4)
			switch cs := r.Intn(70); {
			case cs < 60:
				b = append(b, byte(fm<<6|cs))
			case cs < 65:
				b = append(b, byte(fm<<6), byte(r.Intn(256)))
			default:
				b = append(b, byte(fm<<6|1), byte(r.Intn(256)), byte(r.Intn(256)))
			}
			if fm < 3 {
				b = append(b, pick(r, []byte{0, 0, 0}, []byte{0xff, 0xff, 0xff}, randBytes(r, 3))...)
			}
			n := pick(r, 0, 1, 128, 129, 0xffffff, r.Intn(300))
			if fm < 2 {
				b = append(b, byte(n>>16), byte(n>>8), byte(n), byte(pick(r, 1, 2, 3, 4, 5, 6, 8, 9, 18, 20, 22, r.Intn(256))))
			}
			if fm < 1 {
				b = append(b, randBytes(r, 4)...)
			}
			b = append(b, randBytes(r, r.Intn(140))...)
		}
		return b
	}
	// aborts and sizes in between
	w := rtmp.NewWriter()
	var b []byte
	for i := 0; i < 30; i++ {
		p := w.Start(&rtmp.Msg{CSID: uint32(3 + r.Intn(4)), Type: 9, Body: make([]byte, 1000)}, 0, false)
		b = append(b, p.Next()...)
		b = append(b, w.Encode(&rtmp.Msg{CSID: 2, Type: 2, Body: rtmp.U32(uint32(r.Intn(6)))}, 0)...)
	}
	return b
}

// dripped writes in pieces and counts.
func dripped(r *rand.Rand, conn net.Conn, b []byte, g *guard) error {
	g.add(len(b))
	conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
	style := pick(r, 0, 0, 0, 1, 2)
	if len(b) > 20000 {
		style = 0
	}
	return cutWrite(r, conn, b, style)
}

func runC13(c *vh.C) {
	e := env(c)
	r := c.R
	seg := r.Intn(3) == 0
	app, rt := appLive, e.RTMP
	if seg {
		app, rt = pick(r, appSeg, appAlt), e.FRTMP
	}
	cn := newCanary(c, e, app)
	defer cn.close()
	g := newGuard()
	var open []net.Conn
	var views []*View
	var clients []*rtmp.Client
	defer func() {
		for _, x := range open {
			x.Close()
		}
		for _, v := range views {
			v.Close(true)
		}
		for _, v := range clients {
			v.Close()
		}
	}()
	raw := func(conn net.Conn) { // swallows what comes
		open = append(open, conn)
		go io.Copy(io.Discard, conn)
	}
	if c.Idx%2 == 0 {
		v, rc := sweep(c, e, rt, app, g, c.Idx/2)
		views = append(views, v...)
		if rc != nil {
			clients = append(clients, rc)
		}
		cn.step(c, "during the sweep")
	}
	n := 2 + r.Intn(5)
	for k := 0; k < n; k++ {
		stage := r.Intn(7)
		c.Count(fmt.Sprintf("stage:%d", stage), 1)
		switch stage {
		case 0: // the handshake
			conn, err := dial(rt)
			if err != nil {
				c.Fail("refused", "%v", err)
			}
			raw(conn)
			b := randBytes(r, r.Intn(pick(r, 5, 1600, 6000)))
			if len(b) > 0 && r.Intn(3) > 0 {
				b[0] = 3
			}
			c.Trace("handshake garbage %s", hexHead(b))
			dripped(r, conn, b, g)
			if r.Intn(2) == 0 {
				if t, ok := conn.(*net.TCPConn); ok {
					t.CloseWrite()
				}
			}
		default:
			rc, err := rtmp.Dial(rt, r, nil, dialT)
			if err != nil {
				c.FailTimed("refused", "%v", err)
			}
			clients = append(clients, rc)
			g.add(3073)
			var valid []*media.Frame
			var tl *Live
			if stage >= 2 {
				if err := rc.Connect(app, dialT); err != nil {
					c.FailTimed("connect", "%v", err)
				}
			}
			switch stage {
			case 3, 4, 5: // publish
				tl = NewLive(app, e.Name(c))
				if err := rc.Publish(tl.Name, dialT); err != nil {
					c.FailTimed("publish", "%v", err)
				}
				o := media.Opt{Video: true, Audio: r.Intn(4) > 0, HEVC: r.Intn(3) == 0, GOP: 4, MaxSize: 200, Meta: true, CTS: r.Intn(2) == 0, Frames: 24, Rate: -1, FrameMs: pick(r, 40.0, 600), Start: startTS(r), ID: uint64(c.Idx+1) << 32}
				valid = media.Gen(r, o).Frames
				if r.Intn(3) == 0 {
					valid, _ = Zoo(r, 30, 0)
				}
				lead := r.Intn(len(valid))
				for _, f := range valid[:lead] {
					rc.SendMsg(&rtmp.Msg{CSID: 6, Type: f.Kind, TS: f.TS, MSID: 1, Body: f.Body}, 0)
					tl.Add(f)
				}
				for i := 0; i < 4; i++ {
					if v, err := e.View(r, tl, randViewer(r, "rtmp", "flv", "ws", "rtsp", "rtsp", "rtsp-udp")); err == nil {
						views = append(views, v)
					}
				}
			case 6:
				rc.Play(cn.l.Name, dialT)
			}
			for i := r.Intn(40); i >= 0; i-- {
				var b []byte
				switch {
				case stage == 1 && r.Intn(2) == 0, r.Intn(12) == 0:
					b = hostileChunks(r)
					c.Trace("stage %d chunks %s", stage, hexHead(b))
				default:
					m := hostileMsg(r, valid)
					if stage < 3 && r.Intn(2) == 0 {
						m.Type, m.Body = 20, hostileAMF(r)
					}
					fm := 0
					if r.Intn(3) == 0 {
						fm = rtmp.RandFmt(r)
					}
					b = rc.W.Encode(m, fm)
					c.Trace("stage %d type %d csid %d: %s", stage, m.Type, m.CSID, hexHead(m.Body))
				}
				c.Count("messages", 1)
				if dripped(r, rc.Conn, b, g) != nil {
					c.Count("sessions_ended_by_server", 1)
					break
				}
			}
			if tl != nil { // late viewers and the segments
				for i := 0; i < 3; i++ {
					if v, err := e.View(r, tl, randViewer(r, "rtmp", "flv", "ws", "rtsp", "rtsp")); err == nil {
						views = append(views, v)
					}
				}
				if seg {
					peek(e, tl, g)
				}
			}
		}
		if r.Intn(3) == 0 {
			cn.step(c, "during the attack")
		}
	}
	cn.step(c, "during the attack")
	g.allocated(c, "RTMP attack", 100<<20)
	g.held(c, "RTMP attack", 12<<20)
	for _, x := range open {
		x.Close()
	}
	for _, v := range clients {
		if r.Intn(2) == 0 {
			v.Reset()
		} else {
			v.Close()
		}
	}
	for _, v := range views {
		v.Close(r.Intn(2) == 0)
	}
	g.gone(c, "RTMP attack")
	cn.step(c, "after the attack")
	cn.finish(c)
	c.Nontrivial("%d", c.Idx)
}

// peek looks at what the segmenters made of a stream.
func peek(e *Env, l *Live, g *guard) {
	hc := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 60 * time.Millisecond}
	for _, f := range []string{"index.m3u8", "index.mpd"} {
		if resp, err := hc.Get("http://" + e.HLS + "/" + l.App + "/" + l.Name + "/" + f); err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		g.add(200)
	}
}
