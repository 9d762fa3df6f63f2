package net

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"

	"vharness/media"
	"vharness/ref/h26x"
	"vharness/ref/rtp"
	"vharness/ref/rtsp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C14", Quick: 600, Thorough: 8000, Setup: setup, Technique: hostileTech, MemLimit: 1500 << 20,
		Rule:      "hostile RTSP sessions: broken and misordered requests, odd URLs, headers and transports, broken SDP, interleaved and UDP garbage, RTP of every payload structure while recording and while playing; viewers of the attacked stream over every protocol; an innocent stream beside them is compared frame by frame, heap, allocations, idle processor time and left-over goroutines are judged",
		LevelNote: "exploration: seeded attacks; memory is judged against bytes sent with a fixed allowance",
		Run:       runC14})
}

// hostileSDP is a description with broken parts.
func hostileSDP(r *rand.Rand, vpt, apt int) []byte {
	var b strings.Builder
	b.WriteString(pick(r, "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\n", "", "v=0\n", "x\r\n=\r\nm\r\nm=\r\n"))
	sets := func() string {
		var l []string
		for i := r.Intn(4); i >= 0; i-- {
			var n []byte
			switch r.Intn(7) {
			case 0:
				n = randBytes(r, r.Intn(40))
			case 1:
				n = append([]byte{pick(r, byte(0x67), 0x68, 0x27, 0xe7, 0x28)}, randBytes(r, r.Intn(30))...)
			case 2:
				n = []byte{0x67}
			case 3:
				n = append([]byte{0x67, 100, 0, 40}, make([]byte, r.Intn(60))...)
			case 4:
				n = mutate(r, h26x.SPS(r, h26x.SPSOpt{}))
			case 5:
				n = append([]byte{0x68}, make([]byte, pick(r, 0, 1, 70000))...)
			case 6:
				l = append(l, pick(r, "", "!!!!", "Z0IAKeKQFAe2AtwEBAaQeJEV===", "Zw", "Z", "aA==", strings.Repeat("Z", 3000)))
				continue
			}
			l = append(l, h26x.B64(n))
		}
		return strings.Join(l, pick(r, ",", ",", ",,", " , "))
	}
	for i := r.Intn(4); i >= 0; i-- {
		if r.Intn(5) > 0 { // video
			pt := pick(r, fmt.Sprint(vpt), fmt.Sprint(vpt), fmt.Sprint(vpt), "-1", "256", "x", "", "0", "4294967392")
			fmt.Fprintf(&b, "m=video %d RTP/AVP %s\r\n", r.Intn(3), pt)
			if r.Intn(6) > 0 {
				fmt.Fprintf(&b, "a=rtpmap:%s %s\r\n", pt, pick(r, "H264/90000", "H264/90000", "H264/90000", "h264", "H265/90000", "H264/0", "H264/-1", "/", ""))
			}
			if r.Intn(6) > 0 {
				fmt.Fprintf(&b, "a=fmtp:%s packetization-mode=%d;%ssprop-parameter-sets=%s%s\r\n", pt, r.Intn(4), pick(r, "", ";;=;", "x;", "sprop-vps=QAE=;sprop-sps="+sets()+";sprop-pps=RA==;"), sets(), pick(r, "", ";", "=", ";profile-level-id=zz"))
			}
		} else {
			fmt.Fprintf(&b, "m=%s\r\n", pick(r, "video", "audio", "", "application 0 RTP/AVP 97", "video 0 RTP/AVP", "audio 0 RTP/AVP 0 8 97 "+strings.Repeat("97 ", 300)))
		}
		if r.Intn(5) > 0 {
			fmt.Fprintf(&b, "a=control:%s\r\n", pick(r, "trackID=0", "trackID=0", "*", "", "/", "rtsp://x/live/y/trackID=0", strings.Repeat("a", 5000)))
		}
		if r.Intn(4) > 0 {
			clock := pick(r, "44100", "48000", "0", "-1", "1", "99999999999999999999", "4294967295", "")
			fmt.Fprintf(&b, "m=audio 0 RTP/AVP %d\r\na=rtpmap:%d %s/%s/%s\r\n", apt, apt, pick(r, "MPEG4-GENERIC", "MPEG4-GENERIC", "mpeg4-generic", "opus", "PCMU"), clock, pick(r, "2", "1", "0", "-1", "99", "x"))
			fmt.Fprintf(&b, "a=fmtp:%d streamtype=5;sizelength=%s;indexlength=%s;indexdeltalength=%s;config=%s\r\n", apt, pick(r, "13", "0", "-1", "64", "x"), pick(r, "3", "0", "99"), pick(r, "3", "0", "99"),
				pick(r, "1210", "", "1", "12", "ffff", "ffffffffff", "f8f8f8f8", "zz", "0000", fmt.Sprintf("%x", randBytes(r, r.Intn(20))), strings.Repeat("12", 3000)))
			fmt.Fprintf(&b, "a=control:%s\r\n", pick(r, "trackID=1", "trackID=1", "trackID=0", "", "*"))
		}
	}
	s := []byte(b.String())
	if r.Intn(4) == 0 {
		s = mutate(r, s)
	}
	return s
}

// hostileRTP is one packet.
func hostileRTP(r *rand.Rand, pt int, seq *uint16, ts *uint32) []byte {
	var p []byte
	sizes := func(b []byte) []byte { // length-prefixed units, mostly broken
		for i := r.Intn(5); i >= 0; i-- {
			n := pick(r, 0, 1, 3, r.Intn(40), 0xffff)
			k := n
			if k > 100 {
				k = r.Intn(50)
			}
			b = append(b, byte(n>>8), byte(n))
			b = append(b, randBytes(r, k)...)
		}
		return b
	}
	switch r.Intn(12) {
	case 0:
		p = randBytes(r, r.Intn(pick(r, 3, 40, 1500)))
	case 1: // single units of every type
		p = append([]byte{byte(r.Intn(256))}, randBytes(r, r.Intn(40))...)
	case 2:
		p = sizes([]byte{pick(r, byte(0x78), 0x18, 0x19, 0x79, 0x1a, 0x1b)})
	case 3, 4, 5: // FU-A and FU-B in any order
		p = append([]byte{pick(r, byte(0x7c), 0x1c, 0x1d), pick(r, byte(0x80), 0, 0x40, 0xc0, 0x20) | byte(pick(r, 1, 5, 7, 8, 28, r.Intn(32)))}, randBytes(r, r.Intn(100))...)
		if r.Intn(8) == 0 {
			p = p[:1+r.Intn(2)]
		}
	case 6: // parameter sets
		p = pick(r, []byte{0x67}, []byte{0x68}, append([]byte{0x67, 100, 0, 40}, make([]byte, 50)...), append([]byte{0x67, 66, 0, 30}, randBytes(r, 10)...), append([]byte{0x68}, randBytes(r, 5)...), mutate(r, h26x.SPS(r, h26x.SPSOpt{})))
	case 7, 8: // AU headers
		n := pick(r, 0, 1, 8, 15, 16, 32, 160, 0xffff, r.Intn(300))
		p = []byte{byte(n >> 8), byte(n)}
		for i := 0; i < n/16 && i < 40; i++ {
			s := pick(r, 0, 1, 10, 0x1fff, r.Intn(100))
			p = append(p, byte(s>>5), byte(s<<3)|byte(r.Intn(8)))
		}
		p = append(p, randBytes(r, r.Intn(300))...)
	case 9:
		p = nil
	case 10: // a proper one
		p = pick(r, append([]byte{0x65}, randBytes(r, 20)...), append([]byte{0x41}, randBytes(r, 20)...), rtp.MakeAAC([][]byte{append([]byte{0x21}, randBytes(r, 30)...)}))
	case 11:
		p = make([]byte, pick(r, 60000, 65000, 65520))
		p[0], p[1] = pick(r, byte(0x7c), 0x78, 0x65, 0), pick(r, byte(5), 0x85, 0x45)
	}
	switch r.Intn(8) {
	case 0:
		*seq += uint16(pick(r, 2, 1000, 1024, 1025, 32767, 32768, 65535, r.Intn(65536)))
	case 1:
	default:
		*seq++
	}
	switch r.Intn(6) {
	case 0:
		*ts += pick(r, uint32(0x7fffffff), 0x80000000, 0xffffffff, r.Uint32())
	case 1, 2:
		*ts += 3600
	}
	pk := &rtp.Packet{PT: uint8(pt), Seq: *seq, TS: *ts, SSRC: pick(r, uint32(1), 1, 1, r.Uint32()), Marker: r.Intn(2) == 0, Payload: p}
	b := pk.Bytes()
	if r.Intn(4) == 0 {
		b = pk.With(r.Intn(16), r.Intn(6)-1, r.Intn(6), r)
	}
	if r.Intn(4) == 0 {
		n := len(b)
		if n > 30 {
			n = 30
		}
		b = append(mutate(r, b[:n]), b[n:]...)
	}
	if r.Intn(15) == 0 {
		b = b[:r.Intn(len(b)+1)]
	}
	if len(b) > 65500 {
		b = b[:65500]
	}
	return b
}

func framed(ch int, b []byte) []byte {
	return append([]byte{'$', byte(ch), byte(len(b) >> 8), byte(len(b))}, b...)
}

// hostileRTSP is the bytes of one request, or of something else.
func hostileRTSP(r *rand.Rand, rc *rtsp.Conn, host string, names []string) []byte {
	switch r.Intn(12) {
	case 0:
		return randBytes(r, r.Intn(pick(r, 10, 300, 4000)))
	case 1:
		return framed(r.Intn(256), randBytes(r, r.Intn(pick(r, 4, 100, 2000))))
	case 2: // a length without its bytes
		return []byte{'$', byte(r.Intn(4)), 0xff, 0xff, 1, 2, 3}
	case 3: // long lines, many headers
		switch r.Intn(4) {
		case 0:
			return []byte(strings.Repeat("A", pick(r, 100, 70000, 300000)))
		case 1:
			return []byte("OPTIONS * RTSP/1.0\r\nCSeq: 1\r\n" + strings.Repeat("X: y\r\n", pick(r, 10, 1000, 20000)) + "\r\n")
		case 2:
			var b strings.Builder
			b.WriteString("OPTIONS * RTSP/1.0\r\n")
			for i := 0; i < 3000; i++ {
				fmt.Fprintf(&b, "H%d: %d\r\n", i, i)
			}
			return []byte(b.String())
		case 3:
			return []byte("OPTIONS * RTSP/1.0\r\nX: " + strings.Repeat("y", 200000))
		}
	case 4: // bodies announced
		return []byte(fmt.Sprintf("%s rtsp://%s/live/x RTSP/1.0\r\nCSeq: 3\r\nContent-Length: %s\r\n\r\nabc", pick(r, "ANNOUNCE", "OPTIONS", "SETUP"), host,
			pick(r, "2147483647", "99999999999999999999", "-1", "-9223372036854775808", "65536", "1048576", "x", "", "9223372036854775807")))
	}
	m := pick(r, "OPTIONS", "DESCRIBE", "ANNOUNCE", "SETUP", "SETUP", "PLAY", "RECORD", "PAUSE", "TEARDOWN", "GET_PARAMETER", "SET_PARAMETER", "REDIRECT", "", "play", "GET")
	name := names[r.Intn(len(names))]
	url := "rtsp://" + host + "/" + name + pick(r, "", "", "/trackID=0", "/trackID=1", "/trackID=2", "/trackID=-1", "/trackID=99999999999999999999", "?a=b", "/", "//")
	if r.Intn(6) == 0 {
		url = pick(r, "*", "", "/", "rtsp://", "rtsp:///live/x", "/live/x", "rtsp://"+host, "rtsp://"+host+"/live", "rtsp://"+host+"//", "rtsp://[::1/live/x", "%zz", "http://"+host+"/live/x", "rtsp://"+host+"/"+strings.Repeat("a/", 3000), "rtsp://"+host+"/live/"+strings.Repeat("a", 40000), "rtsp://"+host+"/live/a\x00b", "rtsp://u:p@"+host+"/live/..")
	}
	var h []string
	if r.Intn(3) > 0 {
		h = append(h, "Transport: "+pick(r,
			"RTP/AVP/TCP;unicast;interleaved=0-1", "RTP/AVP/TCP;unicast;interleaved=2-3", "RTP/AVP/TCP;interleaved=0-1", "RTP/AVP;unicast;client_port=40000-40001", "RTP/AVP/UDP;unicast;client_port=1-2",
			"RTP/AVP/TCP;interleaved=", "RTP/AVP/TCP;interleaved=255-256", "RTP/AVP/TCP;interleaved=-1--2", "RTP/AVP/TCP;interleaved=1", "RTP/AVP/TCP;interleaved=a-b", "RTP/AVP/TCP;interleaved=0-99999999999999999999",
			"RTP/AVP;client_port=", "RTP/AVP;client_port=0-0", "RTP/AVP;client_port=65535-65536", "RTP/AVP;client_port=-1", "RTP/AVP;client_port=99999999999999999999-1", "RTP/AVP;multicast", "", ";", ";;;=;=", ",,,", "RTP/AVP/TCP", strings.Repeat("RTP/AVP/TCP;interleaved=300-301,", 500)))
	}
	if r.Intn(4) == 0 {
		h = append(h, pick(r, "Session: x", "Range: npt=", "Require: a", "Accept: x/y", ": ", "X:", "CSeq: -1", "cseq: 99999999999999999999", "Session:"))
	}
	if r.Intn(10) == 0 {
		h = append(h, pick(r, "noColon", "\x00\x01: x", " folded", "Content-Length: 5"))
	}
	var body []byte
	if m == "ANNOUNCE" || r.Intn(10) == 0 {
		body = hostileSDP(r, 96, 97)
	}
	b, _ := rc.Format(m, url, h, body)
	if r.Intn(6) == 0 {
		b = mutate(r, b)
	}
	return b
}

func runC14(c *vh.C) {
	e := env(c)
	r := c.R
	seg := r.Intn(4) == 0
	app, rt := appLive, e.RTSP
	if seg {
		app, rt = pick(r, appSeg, appAlt), e.FRTSP
	}
	cn := newCanary(c, e, app)
	defer cn.close()
	g := newGuard()
	var open []*rtsp.Conn
	var views []*View
	var udps []*net.UDPConn
	defer func() {
		for _, x := range open {
			x.Close()
		}
		for _, v := range views {
			v.Close(true)
		}
		for _, u := range udps {
			u.Close()
		}
	}()
	begin := func() *rtsp.Conn {
		nc, err := dial(rt)
		if err != nil {
			c.Fail("refused", "%v", err)
		}
		x := rtsp.New(nc)
		open = append(open, x)
		return x
	}
	watch := func(l *Live, n int) {
		for i := 0; i < n; i++ {
			if v, err := e.View(r, l, randViewer(r, "rtmp", "flv", "ws", "rtsp", "rtsp", "rtsp-udp")); err == nil {
				views = append(views, v)
			}
		}
		if seg && n > 0 {
			peek(e, l, g)
		}
	}
	// udp fires packets at a server port
	var uc *net.UDPConn
	shoot := func(port int, b []byte) {
		if uc == nil {
			u, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(e.IP)})
			if err != nil {
				return
			}
			uc = u
			udps = append(udps, u)
		}
		g.add(len(b))
		uc.WriteToUDP(b, &net.UDPAddr{IP: net.ParseIP(e.IP), Port: port})
	}
	host := rt
	if c.Idx%2 == 0 {
		x, v := sweepRTSP(c, e, rt, app, cn.l.Name, g, c.Idx/2)
		open, views = append(open, x...), append(views, v...)
		cn.step(c, "during the sweep")
	}
	for k := 2 + r.Intn(5); k > 0; k-- {
		stage := r.Intn(5)
		c.Count(fmt.Sprintf("stage:%d", stage), 1)
		tl := NewLive(app, e.Name(c))
		names := []string{app + "/" + cn.l.Name, app + "/" + tl.Name, app + "/" + tl.Name, "nope/" + tl.Name}
		switch stage {
		case 0, 1: // requests and garbage
			x := begin()
			if r.Intn(4) > 0 {
				go io.Copy(io.Discard, x.Conn)
			}
			for i := r.Intn(30); i >= 0; i-- {
				b := hostileRTSP(r, x, host, names)
				c.Trace("requests: %.150q", b)
				c.Count("requests", 1)
				if dripped(r, x.Conn, b, g) != nil {
					c.Count("sessions_ended_by_server", 1)
					break
				}
			}
		case 2: // a hostile description, then media
			x := begin()
			x.Start()
			url := "rtsp://" + host + "/" + app + "/" + tl.Name
			body := hostileSDP(r, 96, 97)
			c.Trace("announce %.400q", body)
			g.add(len(body) + 300)
			rep, err := x.Do(dialT, "ANNOUNCE", url, []string{"Content-Type: application/sdp"}, body)
			if err != nil || rep.Code != 200 {
				c.Count("descriptions_refused", 1)
				break
			}
			c.Count("descriptions_taken", 1)
			tl.Conv = true
			watch(tl, r.Intn(3))
			var ports [2]int
			udp := r.Intn(3) == 0
			for i := 0; i < 2; i++ {
				tr := fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record", 2*i, 2*i+1)
				if udp {
					tr = "Transport: RTP/AVP/UDP;unicast;client_port=30000-30001;mode=record"
				}
				for _, u := range []string{url + fmt.Sprintf("/trackID=%d", i), url, url + "/*", url + "/"} {
					rep, err := x.Do(dialT, "SETUP", u, []string{tr}, nil)
					if err != nil {
						break
					}
					if rep.Code == 200 {
						if k := strings.Index(rep.H["transport"], "server_port="); k >= 0 {
							fmt.Sscanf(rep.H["transport"][k:], "server_port=%d", &ports[i])
						}
						break
					}
				}
			}
			rep, err = x.Do(dialT, "RECORD", url, nil, nil)
			if err != nil || rep.Code != 200 {
				c.Count("record_refused", 1)
			}
			var seq [2]uint16
			var ts [2]uint32
			seq[0], ts[0] = pick(r, uint16(0), 65530), pick(r, uint32(0), 0xfffffff0)
			for i := r.Intn(60); i >= 0; i-- {
				t := r.Intn(2)
				b := hostileRTP(r, pick(r, 96, 96, 97, 97, 0, 127), &seq[t], &ts[t])
				c.Count("packets", 1)
				c.Trace("track %d %s", t, hexHead(b))
				if udp {
					if ports[t] > 0 {
						shoot(ports[t]+r.Intn(4)/3, b)
					}
					continue
				}
				if dripped(r, x.Conn, framed(pick(r, 2*t, 2*t, 2*t, 2*t+1, r.Intn(256)), b), g) != nil {
					c.Count("sessions_ended_by_server", 1)
					break
				}
			}
			watch(tl, r.Intn(3))
		case 3: // a proper publisher turns hostile
			udp := r.Intn(3) == 0
			vc := media.NewVideoConf(r, false, uint64(c.Idx+1)<<32)
			ac := media.NewAudioConf(r, pick(r, 3, 4, 7))
			o := media.Opt{Video: true, Audio: true, GOP: 4, MaxSize: 600, Frames: 16, ID: uint64(c.Idx+1) << 33}
			fs := media.Gen(r, o).Frames
			for _, f := range fs {
				if f.Kind == 9 {
					f.Conf = vc
				}
			}
			p, err := PublishRTSP(rt, r, tl, vc, ac, udp)
			if err != nil {
				c.FailTimed("publish", "%v", err)
			}
			open = append(open, p.Conn)
			for _, t := range p.tracks {
				if t.conn != nil {
					udps = append(udps, t.conn, t.sock2)
				}
			}
			p.Send(fs[:r.Intn(len(fs))])
			watch(tl, r.Intn(4))
			for i := r.Intn(60); i >= 0; i-- {
				t := r.Intn(2)
				tr := p.tracks[t]
				var b []byte
				if r.Intn(4) == 0 {
					b = hostileRTSP(r, p.Conn, host, names)
					c.Trace("request %.100q", b)
					if dripped(r, p.Conn.Conn, b, g) != nil {
						break
					}
					continue
				}
				b = hostileRTP(r, pick(r, tr.pt, tr.pt, tr.pt, p.tracks[1-t].pt), &tr.seq, &tr.ts)
				c.Count("packets", 1)
				c.Trace("track %d %s", t, hexHead(b))
				if udp {
					g.add(len(b))
					switch r.Intn(4) {
					case 0:
						shoot(tr.to.Port, b)
					case 1:
						tr.sock2.WriteToUDP(b, &net.UDPAddr{IP: tr.to.IP, Port: tr.to.Port + 1})
					default:
						tr.conn.WriteToUDP(b, tr.to)
					}
					continue
				}
				if dripped(r, p.Conn.Conn, framed(pick(r, tr.ch, tr.ch, tr.ch, tr.ch+1), b), g) != nil {
					break
				}
			}
			watch(tl, r.Intn(3))
		case 4: // a player turns hostile
			v, err := e.View(r, cn.l, randViewer(r, "rtsp", "rtsp", "rtsp-udp"))
			if err != nil {
				c.FailTimed("play", "%v", err)
			}
			views = append(views, v)
			for i := r.Intn(30); i >= 0; i-- {
				b := hostileRTSP(r, v.SC, host, names)
				c.Trace("player: %.100q", b)
				c.Count("requests", 1)
				if dripped(r, v.SC.Conn, b, g) != nil {
					c.Count("sessions_ended_by_server", 1)
					break
				}
			}
		}
		if r.Intn(3) == 0 {
			cn.step(c, "during the attack")
		}
	}
	cn.step(c, "during the attack")
	g.allocated(c, "RTSP attack", 100<<20)
	g.held(c, "RTSP attack", 12<<20)
	for _, x := range open {
		if r.Intn(2) == 0 {
			x.Reset()
		} else {
			x.Close()
		}
	}
	for _, v := range views {
		v.Close(r.Intn(2) == 0)
	}
	for _, u := range udps {
		u.Close()
	}
	g.gone(c, "RTSP attack")
	cn.step(c, "after the attack")
	cn.finish(c)
	c.Nontrivial("%d", c.Idx)
}
