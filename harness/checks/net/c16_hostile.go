package net

import (
	"fmt"
	"math/rand"
	"runtime"
	"time"

	"github.com/sbraveyoung/GGmpeg/libsrt"

	"vharness/media"
	"vharness/ref/srt"
	"vharness/ref/ts"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C16", Quick: 700, Thorough: 12000, Setup: setupSRT, Technique: hostileTech, MemLimit: 1500 << 20,
		Rule:      "hostile datagrams from several peers at an SRT port: noise, broken headers and control packets, broken handshakes with and without a valid cookie, established sessions sending sequence numbers anywhere, wrong destinations, damaged TS (bytes, packets, tables, PES and ADTS headers, NAL units, times) and noise, viewers of what comes of it over every protocol; an innocent SRT caller on the same port and an RTMP stream beside are compared frame by frame, memory, idle processor time and left-over goroutines are judged, and afterwards a proper caller is served; the same TS bytes are fed to the demuxer directly",
		LevelNote: "exploration: seeded attacks; memory is judged against bytes sent with a fixed allowance",
		Run:       runC16})
}

// hostileTS is TS with damage.
func hostileTS(r *rand.Rand, id uint64) (out [][]byte, what string) {
	v := r.Intn(5) > 0
	fs := media.Gen(r, media.Opt{Video: v, Audio: !v || r.Intn(2) == 0, HEVC: r.Intn(8) == 0, GOP: pick(r, 1, 3, 8), Frames: 3 + r.Intn(25), MaxSize: pick(r, 30, 800, 5000), AudioMax: 200, Inband: r.Intn(2) == 0, ID: id, CTS: true, Start: uint32(r.Intn(1 << 20))}).Frames
	t := media.ToTS(r, fs, media.TSOpt{Base: uint64(r.Int63n(1 << 33)), Span: r.Intn(2) == 0, CRC: r.Intn(2) == 0, SC3: r.Intn(2) == 0, Plain: r.Intn(3) == 0})
	pk := t.Packets
	cp := func(i int) []byte { pk[i] = append([]byte(nil), pk[i]...); return pk[i] }
	pid := func() uint16 { return pick(r, t.VPID, t.APID, t.VPID, 0) }
	kind := r.Intn(12)
	what = fmt.Sprintf("ts kind %d", kind)
	switch kind {
	case 0: // nothing wrong
	case 1: // bytes anywhere
		for n := 1 + r.Intn(40); n > 0; n-- {
			p := cp(r.Intn(len(pk)))
			p[r.Intn(188)] = byte(r.Intn(256))
		}
	case 2: // packet headers and adaptation fields
		for n := 1 + r.Intn(40); n > 0; n-- {
			p := cp(r.Intn(len(pk)))
			p[pick(r, 1, 2, 3, 3, 3, 4, 4, 5)] = pick(r, byte(0), 0xff, 0x47, 183, 182, 184, byte(r.Intn(256)))
		}
	case 3: // the beginning of a PES or section
		for n := 1 + r.Intn(30); n > 0; n-- {
			i := r.Intn(len(pk))
			for k := 0; k < len(pk) && pk[i][1]&0x40 == 0; k++ {
				i = (i + 1) % len(pk)
			}
			p := cp(i)
			o := 4
			if p[3]&0x20 != 0 {
				o += int(p[4]) + 1
			}
			if o < 188 {
				if o += r.Intn(20); o > 187 {
					o = 187
				}
				p[o] = pick(r, byte(0), 0xff, 1, 0x80, byte(r.Intn(256)))
			}
		}
	case 4: // packets lost, repeated, swapped
		for n := 1 + r.Intn(20); n > 0 && len(pk) > 2; n-- {
			i, j := r.Intn(len(pk)), r.Intn(len(pk))
			switch r.Intn(3) {
			case 0:
				pk = append(append([][]byte(nil), pk[:i]...), pk[i+1:]...)
			case 1:
				pk = append(append(append([][]byte(nil), pk[:i]...), pk[j]), pk[i:]...)
			default:
				pk[i], pk[j] = pk[j], pk[i]
			}
		}
	case 5: // tables
		m := &ts.Mux{R: r, CC: map[uint16]byte{}}
		for n := 1 + r.Intn(20); n > 0; n-- {
			var progs [][2]uint16
			for k := r.Intn(pick(r, 3, 240)); k >= 0; k-- {
				progs = append(progs, [2]uint16{uint16(r.Intn(4)), pick(r, uint16(0x1000), t.VPID, uint16(r.Intn(8192)))})
			}
			s := ts.PATSection(uint16(r.Intn(3)), byte(r.Intn(32)), progs)
			m.Section(0, pick(r, s, s, mutate(r, s), append(s[:len(s):len(s)], randBytes(r, r.Intn(60))...)), r.Intn(pick(r, 1, 150)))
			var es []ts.ESInfo
			for k := r.Intn(pick(r, 4, 100)); k > 0; k-- {
				es = append(es, ts.ESInfo{Type: pick(r, byte(0x1b), 0x0f, 0x24, 0x06, byte(r.Intn(256))), PID: pick(r, t.VPID, t.APID, uint16(r.Intn(8192)))})
			}
			s = ts.PMTSection(uint16(r.Intn(4)), byte(r.Intn(32)), t.VPID, randBytes(r, r.Intn(20)), es)
			m.Section(0x1000, pick(r, s, s, mutate(r, s)), 0)
		}
		k := r.Intn(len(pk))
		var l [][]byte
		l = append(l, pk[:k]...)
		for i := 0; i+188 <= len(m.Out); i += 188 {
			l = append(l, m.Out[i:i+188])
			if k < len(pk) && r.Intn(2) == 0 {
				l = append(l, pk[k])
				k++
			}
		}
		pk = append(l, pk[k:]...)
	case 6, 7, 8: // elementary streams of every structure
		m := &ts.Mux{R: r, CC: map[uint16]byte{}, Plain: r.Intn(2) == 0}
		k := r.Intn(len(pk))
		l := append([][]byte(nil), pk[:k]...)
		at := uint64(r.Int63n(1 << 33))
		for n := 1 + r.Intn(15); n > 0; n-- {
			var d []byte
			p := pid()
			if p == t.APID {
				for q := r.Intn(8); q >= 0; q-- {
					size := pick(r, 0, 1, 6, 7, 8, 9, 8191, r.Intn(200))
					h := []byte{0xff, pick(r, byte(0xf1), 0xf0, 0xf9, 0xff), byte(r.Intn(256)), byte(size>>11) | byte(r.Intn(8))<<5, byte(size >> 3), byte(size<<5) | 0x1f, byte(0xfc | r.Intn(4))}
					d = append(d, h...)
					if size > 7 && size < 300 {
						d = append(d, randBytes(r, size-7)...)
					}
				}
			} else {
				for q := r.Intn(pick(r, 6, 60)); q >= 0; q-- {
					d = append(d, pick(r, []byte{0, 0, 1}, []byte{0, 0, 0, 1}, []byte{0, 0, 0, 0, 0, 1}, []byte{0, 0})...)
					d = append(d, pick(r, byte(0x65), 0x41, 0x67, 0x68, 9, 0, 0x27, 0xe7, byte(r.Intn(256))))
					d = append(d, randBytes(r, pick(r, 0, 1, 3, r.Intn(60)))...)
				}
				if r.Intn(10) == 0 {
					d = append(d, make([]byte, 300000)...)
				}
			}
			at += pick(r, 0, 3600, 1<<32, 1<<33-900000, uint64(r.Int63n(1<<33)))
			at &= 1<<33 - 1
			pes := ts.MakePES(pick(r, byte(0xe0), 0xc0, 0xbd, 0xff, byte(r.Intn(256))), at, (at+uint64(r.Intn(1<<30)))&(1<<33-1), r.Intn(2) == 0, r.Intn(pick(r, 1, 200)), r.Intn(2) == 0, d)
			if r.Intn(3) == 0 {
				pes[r.Intn(min(len(pes), 20))] = byte(r.Intn(256))
			}
			l = append(l, m.PESPackets(p, r.Intn(2) == 0, -1, pes)...)
		}
		pk = append(l, pk[k:]...)
	case 9: // not in step
		b := randBytes(r, r.Intn(400))
		for i := range pk {
			b = append(b, pk[i]...)
			if r.Intn(8) == 0 {
				b = append(b, pick(r, []byte{0x47}, []byte{0}, randBytes(r, r.Intn(300)), []byte{0x47, 0x47, 0x47})...)
			}
			if r.Intn(8) == 0 {
				b = b[:len(b)-1-r.Intn(187)]
			}
		}
		return [][]byte{b}, what
	case 10: // noise in step
		for n := r.Intn(60); n >= 0; n-- {
			p := append([]byte{0x47}, randBytes(r, 187)...)
			if r.Intn(2) == 0 {
				q := pid()
				p[1], p[2] = byte(q>>8)|p[1]&0x60, byte(q)
			}
			pk = append(pk, p)
		}
		r.Shuffle(len(pk), func(i, j int) { pk[i], pk[j] = pk[j], pk[i] })
	case 11: // units without end
		m := &ts.Mux{R: r, CC: map[uint16]byte{}, Plain: true}
		pes := ts.MakePES(pick(r, byte(0xe0), 0xc0), 0, 0, false, 0, false, append([]byte{0, 0, 1, 0x65}, make([]byte, 400000)...))
		pk = append(pk[:len(pk)/2:len(pk)/2], m.PESPackets(pid(), false, -1, pes)...)
	}
	return pk, what
}

// hostileHS is a broken handshake packet.
func hostileHS(r *rand.Rand, x *SRT) []byte {
	h := x.Induction()
	if r.Intn(2) == 0 {
		h = x.Conclusion()
	}
	for n := r.Intn(4); n > 0; n-- {
		w := pick(r, 0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 1500, r.Uint32())
		switch r.Intn(9) {
		case 0:
			h.Version = pick(r, 0, 3, 4, 5, 6, w)
		case 1:
			h.Enc = uint16(w)
		case 2:
			h.Ext = pick(r, uint16(w), 1, 2, 3, 4, 5, 7, 0x4a17)
		case 3:
			h.ISN = w
		case 4:
			h.MTU = w
		case 5:
			h.Window = w
		case 6:
			h.Type = pick(r, 0, 1, 0xffffffff, 0xfffffffe, 0xfffffffd, 1002, w)
		case 7:
			h.ID = w
		case 8:
			h.Cookie = pick(r, h.Cookie+1, 0, w)
		}
	}
	for n := r.Intn(4); n > 0; n-- {
		k := pick(r, 0, 1, 3, 4, 0xffff, 0x4000, r.Intn(400))
		h.Exts = append(h.Exts, 0, byte(pick(r, 1, 2, 3, 4, 5, 6, 7, 8, r.Intn(256))), byte(k>>8), byte(k))
		h.Exts = append(h.Exts, randBytes(r, r.Intn(pick(r, 4*min(k, 300)+1, 20)))...)
	}
	b := srt.Packet{Ctrl: true, Dest: pick(r, 0, x.Peer, r.Uint32()), Body: h.Bytes()}.Bytes()
	switch r.Intn(4) {
	case 0:
		b = mutate(r, b)
	case 1:
		if r.Intn(2) == 0 {
			b = b[:r.Intn(len(b))]
		}
	}
	return b
}

func runC16(c *vh.C) {
	e := env(c)
	r := c.R
	port := c.Idx % srtPorts
	addr, name := e.at(9000+port), fmt.Sprintf("srt%d", port)
	if r.Intn(5) == 0 {
		feedDirect(c)
	}
	if c.Idx%2 == 1 {
		sweepTS(c)
	}
	cn := newCanary(c, e, appLive)
	defer cn.close()
	var socks []*SRT
	var views, vs []*View
	defer func() {
		for _, v := range append(vs, views...) {
			v.Close(true)
		}
		for _, s := range socks {
			s.Close()
		}
	}()
	caller := func() *SRT {
		x, err := NewSRT(r, e.IP, addr)
		if err != nil {
			panic(err)
		}
		socks = append(socks, x)
		return x
	}
	// somebody well-behaved on the same port, publishing or not
	inn := caller()
	inn.MustOpen(c)
	var show *srtShow
	if r.Intn(2) == 0 {
		show = newShow(c, name, 0, false)
		show.send(c, inn, show.gate)
		for i := r.Intn(3); i >= 0; i-- {
			vs = append(vs, e.MustView(c, show.l, randViewer(r, "rtmp", "flv", "ws", "rtsp")))
		}
		if show.k >= 0 && show.gate < show.n {
			for _, v := range vs {
				if !c.Eventually(10*time.Second, func() bool { return v.Last() >= show.k || v.Err() != nil }) {
					c.FailTimed("others-harmed", "%v has not got frame %d, whose end was sent", v, show.k)
				}
			}
		}
	}
	g := newGuard()
	k := 0
	sync := func() {
		if !inn.Ping(c.D(15 * time.Second)) {
			c.FailTimed("others-harmed", "an innocent session on the attacked port is not answered any more")
		}
		if show != nil && r.Intn(4) == 0 {
			show.send(c, inn, show.at+1+r.Intn(40))
		}
	}
	hit := func(x *SRT, b []byte) {
		g.add(len(b) + 28)
		x.raw(b)
		c.Count("datagrams", 1)
		if k++; k%20 == 0 || len(b) > 8000 {
			sync()
		}
	}
	dest := func(x *SRT) uint32 { return pick(r, x.Peer, x.Peer, x.Peer, inn.Peer, 0, r.Uint32()) }
	odd := func(n uint32) uint32 {
		return (n + pick(r, 1, 2, 0x3fffffff, 0x40000000, 0x7ffffffe, ^uint32(0), ^uint32(99), uint32(r.Intn(10000)), r.Uint32())) & srt.Mask
	}
	var atk []*SRT
	for i := 1 + r.Intn(4); i > 0; i-- {
		atk = append(atk, caller())
	}
	if c.Idx%2 == 0 {
		reopen(c, atk[0])
		sweepSRT(c, atk[0], hit)
		sync()
	}
	for n := 2 + r.Intn(5); n > 0; n-- {
		x := atk[r.Intn(len(atk))]
		stage := r.Intn(6)
		if stage >= 3 && (x.Peer == 0 || r.Intn(4) == 0) {
			sync()
			reopen(c, x)
			c.Count("hostile_sessions", 1)
		}
		c.Count(fmt.Sprintf("stage:%d", stage), 1)
		switch stage {
		case 0: // noise
			for i := r.Intn(60); i >= 0; i-- {
				b := randBytes(r, r.Intn(pick(r, 4, 20, 100, 1500)))
				if r.Intn(40) == 0 {
					b = randBytes(r, 65507)
				}
				hit(x, b)
			}
			c.Trace("noise")
		case 1: // control packets
			for i := r.Intn(60); i >= 0; i-- {
				p := srt.Packet{Ctrl: true, Type: pick(r, 0, 1, 2, 3, 4, 6, 7, 8, 0x7fff, uint16(r.Intn(1<<15))), Sub: uint16(r.Intn(4)), Info: r.Uint32(), TS: r.Uint32(), Dest: dest(x), Body: randBytes(r, r.Intn(pick(r, 5, 50, 400)))}
				if r.Intn(10) == 0 && p.Dest != x.Peer { // nobody else may end a session
					p.Type = 5
				}
				hit(x, p.Bytes())
			}
			c.Trace("control packets")
		case 2: // handshakes
			if r.Intn(2) == 0 { // with a cookie
				i := x.N()
				x.handshake(x.Induction())
				if _, h, err := x.answer(i, 1, c.D(10*time.Second)); err == nil {
					x.Cookie = h.Cookie
				}
			}
			for i := r.Intn(40); i >= 0; i-- {
				hit(x, hostileHS(r, x))
			}
			c.Trace("handshakes")
		case 3: // data anywhere
			pk, _ := hostileTS(r, uint64(c.Idx)<<20)
			seq := x.next
			for i := r.Intn(80); i >= 0; i-- {
				if r.Intn(3) == 0 {
					seq = odd(seq)
				} else {
					seq = (seq + 1) & srt.Mask
				}
				body := pk[r.Intn(len(pk))]
				if len(body) > 1316 {
					body = body[:1316]
				}
				if r.Intn(6) == 0 {
					body = body[:r.Intn(len(body)+1)]
				}
				hit(x, srt.Packet{Seq: seq, Info: r.Uint32(), TS: r.Uint32(), Dest: dest(x), Body: body}.Bytes())
			}
			x.next = (seq + 1) & srt.Mask
			c.Trace("data anywhere, last %d", seq)
		default: // damaged TS in order
			pk, what := hostileTS(r, uint64(c.Idx)<<20|uint64(n)<<12)
			var b []byte
			for _, p := range pk {
				b = append(b, p...)
			}
			c.Trace("%s, %d bytes", what, len(b))
			watch := 0
			if show == nil {
				watch = r.Intn(3)
			}
			for i := 0; len(b) > 0; i++ {
				m := pick(r, 1316, 1316, 1316, 188, 1+r.Intn(1400))
				if m > len(b) {
					m = len(b)
				}
				g.add(m + 44)
				x.Send(b[:m:m])
				c.Count("datagrams", 1)
				if k++; k%20 == 0 {
					sync()
				}
				b = b[m:]
				if watch > 0 && i > 2 && r.Intn(4) == 0 {
					watch--
					sync()
					l := NewLive(appLive, name)
					l.Conv, l.Loose = true, true
					if v, err := e.View(r, l, randViewer(r, "rtmp", "flv", "ws", "rtsp", "rtsp-udp")); err == nil {
						views = append(views, v)
						c.Count("viewers_of_attacks", 1)
					}
				}
			}
			sync()
		}
		if r.Intn(3) == 0 {
			cn.step(c, "during the attack")
		}
	}
	sync()
	cn.step(c, "during the attack")
	g.allocated(c, "SRT attack", 100<<20)
	g.held(c, "SRT attack", 12<<20)
	// the attackers give up: every session they were ever given
	for _, x := range atk {
		for _, p := range x.In(0) {
			if p.Ctrl && p.Type == 0 {
				if h, err := srt.ParseHS(p.Body); err == nil && h.ID != 0 {
					x.Peer = h.ID
					x.Shutdown()
				}
			}
		}
	}
	for _, v := range views {
		v.Close(r.Intn(2) == 0)
	}
	if show != nil {
		show.send(c, inn, show.n)
	}
	inn.Shutdown()
	if show != nil {
		awaitEnd(c, vs...)
		for _, v := range vs {
			o := RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: true}
			if show.gate < show.n {
				o.From = max(show.k, show.k2)
			}
			checkRun(c, v, o)
			if err := show.checkTimes(v); err != nil {
				c.Fail("others-harmed", "%v: %v", v, err)
			}
			v.Close(false)
		}
		c.Count("innocent_publications", 1)
	}
	g.gone(c, "SRT attack")
	// a proper caller, on the same port and perhaps from an attacker's address
	x := caller()
	if r.Intn(3) == 0 {
		x = atk[0]
		reopen(c, x)
	} else {
		x.MustOpen(c)
	}
	s := newShow(c, name, 1, false)
	for end := time.Now().Add(c.D(15 * time.Second)); ; {
		i := x.N()
		s.send(c, x, s.gate)
		turned := false
		for _, p := range x.In(i) {
			turned = turned || p.Ctrl && p.Type == 5
		}
		if !turned {
			break
		}
		if time.Now().After(end) {
			c.FailTimed("not-served", "a proper caller is still turned away after the attackers ended their sessions")
		}
		time.Sleep(100 * time.Millisecond)
		s.at = 0
		x.renew()
		x.MustOpen(c)
	}
	v := e.MustView(c, s.l, randViewer(r, "rtmp", "flv", "ws"))
	vs = append(vs, v)
	s.send(c, x, s.n)
	x.Shutdown()
	awaitEnd(c, v)
	checkRun(c, v, RunOpt{From: -1, Complete: true, ToEnd: true})
	if err := s.checkTimes(v); err != nil {
		c.Fail("not-served", "%v: %v", v, err)
	}
	cn.finish(c)
	c.Nontrivial("%d", c.Idx)
}

// reopen opens a session on a socket that may still get answers to what it
// sent before.
func reopen(c *vh.C, x *SRT) {
	for i := 0; ; i++ {
		time.Sleep(time.Duration(i) * 20 * time.Millisecond)
		x.renew()
		err := x.Open(c.D(20 * time.Second))
		if err == nil {
			return
		}
		if _, ok := err.(Bad); !ok {
			c.FailTimed("handshake", "%v", err)
		} else if i > 10 {
			c.Fail("handshake", "%v", err)
		}
	}
}

// feedDirect feeds the parsers themselves.
func feedDirect(c *vh.C) {
	r := c.R
	var sent, out, last int
	d := libsrt.NewDemuxer()
	d.OnVideo = func(a libsrt.AccessUnit) { out += len(a.NAL) }
	d.OnAudio = func(a libsrt.AudioFrame) { out += len(a.Data) }
	h0 := heap()
	for i := 3 + r.Intn(10); i > 0; i-- {
		pk, what := hostileTS(r, uint64(i))
		c.Trace("demuxer: %s", what)
		var b []byte
		for _, p := range pk {
			b = append(b, p...)
		}
		if r.Intn(3) == 0 {
			b = mutate(r, b)
		}
		if r.Intn(20) == 0 { // very much of one thing
			b = append(b, pick(r, make([]byte, 5<<20), randBytes(r, 1<<20))...)
		}
		for len(b) > 0 {
			m := min(len(b), pick(r, 1316, 1+r.Intn(2000), len(b)))
			p := append([]byte(nil), b[:m]...)
			var m0, m1 runtime.MemStats
			if m > 8000 {
				runtime.ReadMemStats(&m0)
			}
			c.Call("demuxer", func() { d.Feed(p) })
			if m > 8000 {
				runtime.ReadMemStats(&m1)
				if n := int(m1.TotalAlloc - m0.TotalAlloc); n > 64<<20+100*m {
					c.Fail("memory:demuxer", "feeding %d bytes allocated %d kB", m, n>>10)
				}
			}
			sent += m
			b = b[m:]
		}
		if r.Intn(5) == 0 {
			d.Flush()
		}
		if out > last+2*sent+1<<20 {
			c.Fail("amplified", "%d bytes of TS gave %d bytes of units", sent, out)
		}
		c.Count("max_demuxer_bytes", sent)
	}
	if n := heap() - h0; n > 8<<20+4*sent {
		c.Fail("memory:demuxer", "after %d bytes the demuxer holds %d kB", sent, n>>10)
	}
	runtime.KeepAlive(d)
	for i := 0; i < 300; i++ {
		b := randBytes(r, r.Intn(pick(r, 20, 100, 1500)))
		c.Call("parser", func() {
			libsrt.ParseHeader(b)
			if h, err := libsrt.ParseHandshake(b); err == nil && h != nil {
				h.Marshal()
				h.IsInduction()
			}
			if l := libsrt.ParseNAK(b); 4*len(l) > len(b) {
				c.Fail("nak", "%d ranges out of %d bytes", len(l), len(b))
			}
		})
	}
}
