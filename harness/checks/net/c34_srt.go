package net

import (
	"bytes"
	"fmt"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtmp"

	"vharness/media"
	"vharness/ref/srt"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C34", Quick: 2000, Thorough: 16000, Setup: setupSRT, Technique: tech,
		Rule:      "generated H.264 and/or AAC multiplexed to TS in every layout (also across the 33-bit wrap), sent by reference SRT callers in random datagrams; viewers over RTMP, HTTP-FLV, WebSocket and RTSP from the first keyframe on and later; several publications after each other on one endpoint, second callers while one is publishing, takeovers on the same address at any unit boundary",
		LevelNote: "held on the streams and sequences tried; streams fit the server's cache, so that no viewer may skip; one access unit per PES packet",
		Run:       runC34})
}

const srtPorts = 6

// setupSRT adds SRT endpoints to the plain server.
func setupSRT(w *vh.Worker) {
	e := &Env{IP: w.IP, port: 3000}
	e.RTMP, e.FLV, e.RTSP = e.at(1935), e.at(8080), e.at(8554)
	s := librtmp.NewServer(e.RTMP, appLive, appTwo).WithHTTPFlv(e.FLV).WithRTSP(e.RTSP)
	for i := 0; i < srtPorts; i++ {
		s = s.WithSRT(e.at(9000+i), appLive, fmt.Sprintf("srt%d", i))
	}
	go s.Handler()
	waitPort(e.RTMP, e.FLV, e.RTSP)
	w.State = e
}

// srtShow is one publication over SRT.
type srtShow struct {
	l    *Live
	t    *media.TS
	n    int // packets to send
	at   int // sent
	exp  map[*media.Frame]float64
	dts  map[*media.Frame]float64
	k    int // frame that must reach viewers joining at the start
	k2   int // the newest keyframe that may be out by then, 0: k
	gate int // packets after which it is out
}

// newShow generates a publication; cut: it stops at some unit boundary.
func newShow(c *vh.C, name string, gen int, cut bool) *srtShow {
	r := c.R
	o := media.Opt{Video: r.Intn(6) != 0, Audio: true, GOP: pick(r, 0, 5, 12), Jitter: r.Intn(2) == 0, Start: uint32(r.Intn(100000)), CTS: r.Intn(2) == 0, Inband: r.Intn(2) == 0,
		AudioGaps: r.Intn(3) == 0, Change: r.Intn(3) == 0, AudioMax: 20 + r.Intn(600), MaxSize: pick(r, 30, 1500, 20000), NoAUD: r.Intn(2) == 0, ID: uint64(c.Idx+1)<<32 | uint64(gen)<<28, FirstKeyDelayed: r.Intn(4) == 0}
	if o.Video {
		o.Audio = r.Intn(4) != 0
	}
	if o.Video && o.Audio && r.Intn(10) == 0 { // is not carried over, the audio is
		o.HEVC = true
		c.Count("hevc_streams", 1)
	}
	fs, desc := genFrames(c, 20+r.Intn(60), false, o)
	to := media.TSOpt{Base: uint64(r.Int63n(1 << 33)), Span: r.Intn(2) == 0, CRC: r.Intn(2) == 0, Fine: r.Intn(2) == 0, SC3: r.Intn(2) == 0, Plain: r.Intn(5) == 0, Tables: r.Intn(2) == 0, Zeros: r.Intn(3) == 0}
	switch r.Intn(4) {
	case 0:
		to.Base = 0
	case 2: // around the first units
		to.Base = (1<<33 - uint64(o.Start)*90 - uint64(r.Intn(9000))) & (1<<33 - 1)
	case 1: // wraps within the stream
		to.Base = 1<<33 - uint64(o.Start)*90 - uint64(r.Intn(90000))
	}
	t := media.ToTS(r, fs, to)
	s := &srtShow{l: NewLive(appLive, name), t: t, n: len(t.Packets), exp: map[*media.Frame]float64{}, dts: map[*media.Frame]float64{}}
	s.l.Conv, s.l.Loose = true, true
	// unit of each packet, and boundaries where no unit is half sent
	end := make([]int, len(t.Units))
	for i, u := range t.Units {
		for _, p := range u.Pkts {
			if p > end[i] {
				end[i] = p
			}
		}
	}
	if cut {
		var l []int
		for p := range t.Packets {
			ok := p > len(t.Packets)/3
			for i, u := range t.Units {
				if len(u.Pkts) > 0 && u.Pkts[0] <= p && end[i] > p {
					ok = false
				}
			}
			if ok {
				l = append(l, p+1)
			}
		}
		if len(l) > 0 {
			s.n = l[r.Intn(len(l))]
		}
	}
	whole := func(i int) bool { return end[i] < s.n }
	// times, with the wrap taken out relative to the first frame
	un := func(ts uint64) float64 {
		d := int64((ts-to.Base)<<31) >> 31
		return float64(d) / 90
	}
	sent := map[*media.Frame]bool{}
	for i, u := range t.Units {
		if u.Video && whole(i) {
			sent[u.Frame] = true
			s.exp[u.Frame], s.dts[u.Frame] = un(u.PTS), un(u.DTS)
		}
	}
	for _, a := range t.Audio {
		ok := true
		for _, i := range a.Units {
			ok = ok && whole(i)
		}
		if ok {
			sent[a.Frame] = true
			s.exp[a.Frame] = un(a.PTS)
			s.dts[a.Frame] = s.exp[a.Frame]
		}
	}
	// what viewers should get: headers where a configuration begins
	var vc, ac *media.Conf
	var out []*media.Frame
	orig := map[*media.Frame]*media.Frame{}
	// a header is new when its bytes are
	last := map[int][]byte{}
	hdr := func(out []*media.Frame, h *media.Frame) []*media.Frame {
		if bytes.Equal(last[int(h.Kind)], h.Body) {
			return out
		}
		last[int(h.Kind)] = h.Body
		return append(out, h)
	}
	for _, f := range fs {
		if f.Hdr || !sent[f] || f.Kind == 9 && o.HEVC {
			continue
		}
		if f.Kind == 9 && f.Key && f.Conf != vc {
			vc = f.Conf
			h := *vc
			h.SPS, h.PPS = vc.SPS[len(vc.SPS)-1:], vc.PPS[len(vc.PPS)-1:]
			out = hdr(out, h.VideoHeader(f.TS))
		}
		if f.Kind == 8 && f.Conf != ac {
			ac = f.Conf
			out = hdr(out, ac.AudioHeader(f.TS))
		}
		// single parameter sets move from the unit to the header
		if f.Kind == 9 && len(f.Conf.SPS) == 1 && len(f.Conf.PPS) == 1 {
			g := *f
			g.NALs = nil
			for _, n := range f.NALs {
				if t := n[0] & 31; t != 7 && t != 8 {
					g.NALs = append(g.NALs, n)
				}
			}
			orig[&g], f = f, &g
			s.exp[f], s.dts[f] = s.exp[orig[f]], s.dts[orig[f]]
		}
		out = append(out, f)
	}
	if k := firstKey(out); k < 0 || o.Video && !o.HEVC && (out[k].Kind != 9 || !out[k].Key) {
		return newShow(c, name, gen, false)
	}
	s.l.Add(out...)
	s.k = firstKey(out)
	// the first keyframe is out when the next unit of its track has begun
	s.gate = s.n
	if s.k >= 0 {
		kf := out[s.k]
		if o := orig[kf]; o != nil {
			kf = o
		}
		video, seen := kf.Kind == 9, false
		for i, u := range t.Units {
			if u.Video != video || len(u.Pkts) == 0 {
				continue
			}
			if seen && u.Pkts[0] < s.n {
				s.gate = u.Pkts[0] + 1
				if !video && i+1 < len(t.Units) { // it may span units
					for _, a := range t.Audio {
						if a.Frame == kf {
							for _, j := range a.Units {
								if end[j] >= s.gate {
									s.gate = end[j] + 1
								}
							}
						}
					}
				}
				break
			}
			if video && u.Frame == kf {
				seen = true
			}
			if !video {
				for _, a := range t.Audio {
					if a.Frame == kf && a.Units[len(a.Units)-1] == i {
						seen = true
					}
				}
			}
		}
	}
	// viewers joining then may be given a newer keyframe that is complete as well
	for j := s.k + 1; s.k >= 0 && j < len(out); j++ {
		f := out[j]
		if o := orig[f]; o != nil {
			f = o
		}
		for i, u := range t.Units {
			if f.Key && u.Video && u.Frame == f && end[i] < s.gate {
				s.k2 = j
			}
		}
	}
	c.Trace("show %d: %s base %d plain %v span %v, %d of %d packets, %d frames", gen, desc, to.Base, to.Plain, to.Span, s.n, len(t.Packets), len(out))
	return s
}

// send sends packets up to index n.
func (s *srtShow) send(c *vh.C, x *SRT, n int) {
	r := c.R
	if n > s.n {
		n = s.n
	}
	var b []byte
	k := 0
	flush := func() {
		if len(b) == 0 {
			return
		}
		x.Send(b)
		b = nil
		if k++; k%25 == 0 {
			s.ping(c, x)
		}
	}
	odd := r.Intn(6) == 0
	for ; s.at < n; s.at++ {
		b = append(b, s.t.Packets[s.at]...)
		if odd {
			for len(b) > 300 {
				m := 1 + r.Intn(len(b))
				if m > 1316 {
					m = 1316
				}
				x.Send(b[:m:m])
				b = b[m:]
				if k++; k%25 == 0 {
					s.ping(c, x)
				}
			}
			continue
		}
		if len(b) == 7*188 || r.Intn(12) == 0 {
			flush()
		}
	}
	flush()
	s.ping(c, x)
}

func (s *srtShow) ping(c *vh.C, x *SRT) {
	if !x.Ping(c.D(10 * time.Second)) {
		c.FailTimed("caller", "the publishing caller is not answered any more")
	}
}

// checkTimes compares all times of a viewer under one offset.
func (s *srtShow) checkTimes(v *View) error {
	fr := v.Live.Frames()
	set := false
	var off float64
	for n, it := range v.Items() {
		f := fr[it.Idx]
		want, ok := s.dts[f]
		if !ok || it.RTP {
			continue
		}
		got := float64(it.TS)
		if !set {
			set, off = true, got-want
		}
		if d := got - want - off; d > 1.1 || d < -1.1 {
			return fmt.Errorf("item %d: %v has timestamp %d, %.2f ms away from its place (%.2f ms in the TS, offset of the first item %.2f)", n, f, it.TS, d, want, off)
		}
		if f.Kind == 9 {
			if d := float64(it.CTS) - (s.exp[f] - want); d > 1.1 || d < -1.1 {
				return fmt.Errorf("item %d: %v has composition offset %d, in the TS %.2f ms", n, f, it.CTS, s.exp[f]-want)
			}
		}
	}
	return nil
}

func runC34(c *vh.C) {
	e := env(c)
	r := c.R
	port := c.Idx % srtPorts
	addr, name := e.at(9000+port), fmt.Sprintf("srt%d", port)
	call := func() *SRT {
		x, err := NewSRT(r, e.IP, addr)
		if err != nil {
			panic(err)
		}
		x.MustOpen(c)
		return x
	}
	x := call()
	var socks []*SRT
	socks = append(socks, x)
	var all []*View
	defer func() {
		for _, v := range all {
			v.Close(false)
		}
		for _, s := range socks {
			s.Shutdown()
			s.Close()
		}
	}()
	gens := 1 + r.Intn(3)
	for g := 0; g < gens; g++ {
		over := g+1 < gens && r.Intn(2) == 0 // the next caller takes over
		s := newShow(c, name, g, over || r.Intn(4) == 0)
		var vs []*View
		view := func(protos ...string) *View {
			v := e.MustView(c, s.l, randViewer(r, protos...))
			vs = append(vs, v)
			all = append(all, v)
			return v
		}
		s.send(c, x, s.gate)
		early := s.gate < s.n || !kinds(s.l.Frames())[9]
		for i := 0; i < 1+r.Intn(2); i++ {
			view("rtmp", "flv", "ws")
		}
		if r.Intn(3) == 0 && s.gate < s.n { // there is something to describe
			view("rtsp")
		}
		nearly := len(vs)
		if early && s.gate < s.n {
			for _, v := range vs {
				if !c.Eventually(10*time.Second, func() bool { return v.Last() >= s.k || v.Err() != nil }) {
					c.FailTimed("start", "%v has not got frame %d, whose end was sent", v, s.k)
				}
			}
		}
		for s.at < s.n {
			s.send(c, x, s.at+1+r.Intn(400))
			switch r.Intn(6) {
			case 0:
				view("rtmp", "flv", "ws", "rtsp")
			case 1: // someone else wants the stream
				y := call()
				socks = append(socks, y)
				i := y.N()
				y.Send(s.t.Packets[0], s.t.Packets[len(s.t.Packets)/2])
				if _, err := y.Wait(i, c.D(10*time.Second), func(p *srt.Packet) bool { return p.Ctrl && p.Type == 5 }); err != nil {
					c.FailTimed("second", "a second caller sends data while another one is publishing and is not turned away")
				}
				c.Count("second_callers", 1)
			}
		}
		if over {
			x.renew()
			x.MustOpen(c)
			c.Count("takeovers", 1)
			c.Trace("taken over")
		} else {
			x.Shutdown()
			c.Trace("shut down")
		}
		awaitEnd(c, vs...)
		for i, v := range vs {
			o := RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: i < nearly}
			if i < nearly && s.gate < s.n {
				o.From = s.k
				if s.k2 > 0 {
					o.From = s.k2
				}
			}
			if i >= nearly && s.at >= s.n {
				o.From = -1
			}
			checkRun(c, v, o)
			if err := s.checkTimes(v); err != nil {
				c.Fail("times", "%v: %v", v, err)
			}
		}
		c.Count("publications", 1)
		c.Count("ts_packets", s.n)
		if !over && g+1 < gens {
			if r.Intn(2) == 0 {
				x = call()
				socks = append(socks, x)
			} else {
				x.renew()
				x.MustOpen(c)
			}
		}
	}
	c.Nontrivial("%d", c.Idx)
}
