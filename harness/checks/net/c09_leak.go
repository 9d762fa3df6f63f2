package net

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"vharness/media"
	"vharness/ref/rtmp"
	"vharness/ref/rtsp"
	"vharness/ref/ws"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C09", Quick: 150, Thorough: 1500, Setup: setup, Technique: tech,
		Rule:      "sessions of every kind are taken to a random point and ended in a random way, beside an idle publisher and after it; the process's server goroutines, descriptors and segment directories are compared before and after by identity, and sessions in error must be closed by the server",
		LevelNote: "exploration: seeded session histories; quiescence is awaited for up to 15 s",
		Run:       runC09})
}

// part is a session under way.
type part struct {
	what string
	conn net.Conn
	end  func(how string) // how: close reset half
	own  bool             // the server must close it without more
}

func closeHow(conn net.Conn, how string) {
	switch how {
	case "reset":
		abruptClose(conn, true)
	case "half":
		if t, ok := conn.(*net.TCPConn); ok {
			t.CloseWrite()
		}
	default:
		conn.Close()
	}
}

func connPart(what string, conn net.Conn) *part {
	return &part{what: what, conn: conn, end: func(how string) { closeHow(conn, how) }}
}

// drained waits until the server has closed the connection.
func drained(conn net.Conn, d time.Duration) bool {
	conn.SetReadDeadline(time.Now().Add(d))
	_, err := io.Copy(io.Discard, conn)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return false
	}
	return true
}

// opener makes sessions of the kind; l is a live stream.
type opener struct {
	name string
	f    func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part
}

func cut(c *vh.C, b []byte) []byte { return b[:c.R.Intn(len(b)+1)] }

var openers = []opener{
	{"rtmp-raw", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		conn, err := dial(rt)
		if err != nil {
			return nil
		}
		h := rtmp.NewHello(c.R, c.R.Intn(2) == 0, c.R.Intn(2))
		conn.Write(cut(c, append([]byte{3}, h.C1...)))
		return connPart("part of an RTMP handshake", conn)
	}},
	{"rtmp-bad-version", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		conn, err := dial(rt)
		if err != nil {
			return nil
		}
		h := rtmp.NewHello(c.R, false, 0)
		conn.Write(append([]byte{6}, h.C1...))
		p := connPart("RTMP with version 6", conn)
		p.own = true
		return p
	}},
	{"rtmp-session", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		app := l.App
		rc, err := rtmp.Dial(rt, r, nil, dialT)
		if err != nil {
			return nil
		}
		n := r.Intn(6)
		p := connPart(fmt.Sprintf("RTMP session at step %d", n), rc.Conn)
		if n > 0 && rc.Connect(app, dialT) != nil {
			return p
		}
		if n > 1 {
			rc.Call(0, dialT, "createStream", nil)
		}
		if n == 3 {
			rc.Cmd(1, "play", rc.NextTxn(), nil, "nosuchstream"+e.Name(c))
		}
		if n == 4 {
			rc.Status(dialT, "NetStream.Publish.BadName", "publish", rc.NextTxn(), nil, l.Name, "live")
		}
		if n == 5 {
			p.what = "RTMP session with an unknown message type"
			rc.SendMsg(&rtmp.Msg{CSID: 9, Type: 127, Body: []byte{1}}, 0)
			p.own = true
		}
		settleRTMP2(rc, n != 5)
		return p
	}},
	{"rtmp-bad-connect", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		rc, err := rtmp.Dial(rt, c.R, nil, dialT)
		if err != nil {
			return nil
		}
		rc.Cmd(0, "connect", 1.0, "no object")
		return connPart("RTMP session with a bad connect", rc.Conn)
	}},
	{"rtmp-publish", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		x := NewLive(l.App, e.Name(c))
		pb, err := Publish(rt, r, x, Plain())
		if err != nil {
			return nil
		}
		fs, _ := genFrames(c, r.Intn(40), false, media.Opt{Start: startTS(r), GOP: 5, MaxSize: 800, Meta: true})
		pb.Send(fs...)
		var v *View
		if r.Intn(2) == 0 && len(fs) > 5 {
			pb.Barrier(c)
			v, _ = e.View(r, x, randViewer(r, "rtmp", "flv", "ws", "rtsp", "rtsp-udp"))
		}
		return &part{what: "RTMP publisher", conn: pb.Conn, end: func(how string) {
			if how == "close" {
				pb.End(pick(r, pubEnds...))
			}
			closeHow(pb.seg.Conn, how)
			if v != nil {
				v.Close(r.Intn(2) == 0)
			}
		}}
	}},
	{"rtsp-publish", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		x := NewLive(l.App, e.Name(c))
		fs, vc, ac := genRTSP(c, 10, media.Opt{GOP: 5, MaxSize: 800})
		udp := r.Intn(2) == 0
		s, err := PublishRTSP(rs, r, x, vc, ac, udp)
		if err != nil {
			return nil
		}
		s.start = fs[0].TS
		s.Send(fs)
		if r.Intn(3) == 0 {
			s.Do(dialT, "RECORD", "rtsp://"+rs+"/"+x.App+"/"+x.Name, nil, nil)
		}
		return &part{what: fmt.Sprintf("RTSP publisher (udp %v)", udp), conn: s.Conn.Conn, end: func(how string) {
			if how == "close" && r.Intn(2) == 0 {
				s.Do(dialT, "TEARDOWN", "rtsp://"+rs+"/"+x.App+"/"+x.Name, nil, nil)
			}
			closeHow(s.Conn.Conn, how)
			for _, t := range s.tracks {
				if t != nil && t.conn != nil {
					t.conn.Close()
					t.sock2.Close()
				}
			}
		}}
	}},
	{"viewer", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		w := randViewer(r, "rtmp", "flv", "ws", "rtsp", "rtsp-udp")
		stall := r.Intn(2) == 0 && w.Proto != "rtsp-udp"
		if stall {
			w.Rcv = smallRcv
		}
		v, err := e.View(r, NewLive(l.App, l.Name), w) // what it gets is not checked
		if err != nil {
			return nil
		}
		if stall {
			v.Pause()
		}
		what := fmt.Sprintf("%s viewer, stalled %v", w.Proto, stall)
		return &part{what: what, conn: v.conn, end: func(how string) {
			if how == "close" && !stall {
				leave(v, r.Intn(4))
			} else if how == "half" {
				v.Close(false)
			} else {
				v.Close(how == "reset")
			}
		}}
	}},
	{"flv-odd", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		conn, err := dial(fl)
		if err != nil {
			return nil
		}
		req := pick(r, "GET /"+l.App+"/nosuch.flv HTTP/1.1\r\nHost: x\r\n\r\n", "GET /"+l.App+"/"+l.Name+".flv HTTP/1.1\r\nHost: x\r\nX-Y: z",
			"HEAD /"+l.App+"/"+l.Name+".flv HTTP/1.1\r\nHost: x\r\n\r\n", "OPTIONS /a HTTP/1.1\r\nHost: x\r\n\r\n", "POST /"+l.App+"/"+l.Name+".flv HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nabc", "x\r\n\r\n")
		conn.Write([]byte(req))
		p := connPart("HTTP-FLV request "+strings.SplitN(req, " HTTP", 2)[0], conn)
		return p
	}},
	{"ws-odd", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		conn, err := dial(fl)
		if err != nil {
			return nil
		}
		wc, err := ws.Upgrade(conn, fl, "/"+l.App+"/"+l.Name+".flv", r, r.Intn(4), dialT)
		if err != nil {
			conn.Close()
			return nil
		}
		conn.SetDeadline(time.Time{})
		p := connPart("WebSocket viewer", conn)
		switch r.Intn(5) {
		case 0:
			p.what = "WebSocket viewer sending an unmasked frame"
			conn.Write([]byte{0x82, 3, 1, 2, 3})
		case 1:
			p.what, p.own = "WebSocket viewer sending a close frame", true
			wc.Send(8, []byte{3, 232})
		case 2:
			p.what, p.own = "WebSocket viewer sending an oversized control frame", true
			wc.Send(9, make([]byte, 200))
		case 3:
			p.what = "WebSocket viewer in the middle of a frame"
			conn.Write([]byte{0x82, 0xfe, 0x10})
		case 4:
			wc.Send(9, []byte("ping"))
		}
		return p
	}},
	{"rtsp-session", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		nc, err := dial(rs)
		if err != nil {
			return nil
		}
		s := rtsp.New(nc)
		s.Start()
		base := "rtsp://" + rs + "/" + l.App + "/" + l.Name
		n := r.Intn(5)
		p := connPart("", nc)
		udps := 0
		if n > 0 {
			s.Do(dialT, "DESCRIBE", base, nil, nil)
		}
		if n > 1 {
			for i := 1 + r.Intn(4); i > 0; i-- {
				tr := fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*i, 2*i+1)
				if r.Intn(2) == 0 {
					tr = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d", 30000+2*i, 30001+2*i)
					udps++
				}
				s.Do(dialT, "SETUP", fmt.Sprintf("%s/trackID=%d", base, r.Intn(2)), []string{"Transport: " + tr}, nil)
			}
		}
		if n > 2 {
			s.Do(dialT, "PLAY", base, nil, nil)
		}
		p.what = fmt.Sprintf("RTSP player at step %d, %d UDP set-ups", n, udps)
		switch r.Intn(5) {
		case 0:
			s.WriteAll([]byte("nonsense\r\n\r\n"))
			p.own = true
			p.what += ", then nonsense"
		case 1:
			s.WriteAll([]byte("OPTIONS * RTSP/1.0\r\nCSeq: 7\r\nX"))
			p.what += ", inside a request"
		case 2:
			s.WriteAll([]byte("TEARDOWN " + base + " RTSP/1.0\r\nCSeq: 9\r\n\r\n"))
			p.what += ", torn down"
			p.own = true
		}
		return p
	}},
	{"rtsp-announce", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		nc, err := dial(rs)
		if err != nil {
			return nil
		}
		s := rtsp.New(nc)
		s.Start()
		name := e.Name(c)
		if r.Intn(4) == 0 {
			name = l.Name // refused
		}
		base := "rtsp://" + rs + "/" + l.App + "/" + name
		_, vc, ac := genRTSP(c, 5, media.Opt{Video: true, Audio: true})
		s.Do(dialT, "ANNOUNCE", base, []string{"Content-Type: application/sdp"}, sdpText(r, vc, ac, 96, 97, "streamid=0", "streamid=1"))
		n := r.Intn(5)
		for i := 0; i < n; i++ {
			tr := fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record", 2*i, 2*i+1)
			if r.Intn(3) > 0 {
				tr = fmt.Sprintf("RTP/AVP/UDP;unicast;client_port=%d-%d;mode=record", 30000+2*i, 30001+2*i)
			}
			s.Do(dialT, "SETUP", fmt.Sprintf("%s/streamid=%d", base, r.Intn(2)), []string{"Transport: " + tr}, nil)
		}
		if n > 0 && r.Intn(2) == 0 {
			s.Do(dialT, "RECORD", base, nil, nil)
		}
		p := connPart(fmt.Sprintf("RTSP publisher with %d SETUPs", n), nc)
		if r.Intn(4) == 0 {
			s.WriteAll([]byte("nonsense\r\n\r\n"))
			p.own = true
		}
		return p
	}},
	{"hls", func(c *vh.C, e *Env, l *Live, fl, rt, rs string) *part {
		r := c.R
		conn, err := dial(e.HLS)
		if err != nil {
			return nil
		}
		u := pick(r, "/"+l.App+"/"+l.Name+"/index.m3u8", "/"+l.App+"/"+l.Name+"/index.mpd", "/"+l.App+"/nosuch/index.m3u8", "/x")
		m, extra := "GET", ""
		if r.Intn(2) == 0 {
			u = "/" + l.App + "/" + l.Name + "/" + l.Name + pick(r, "-0.ts", "-1.ts", "-init.mp4", "-0.m4s", "-1.m4s", "-99.ts")
			m = pick(r, "GET", "GET", "HEAD")
			extra = pick(r, "", "", "Range: bytes=10-99\r\n", "Range: bytes=900000000-\r\n", "If-Modified-Since: Fri, 01 Jan 2100 00:00:00 GMT\r\n")
		} else if r.Intn(4) == 0 {
			m = "HEAD"
		}
		fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: x\r\n%s\r\n", m, u, extra)
		u = m + " " + u
		if r.Intn(4) > 0 {
			conn.SetReadDeadline(time.Now().Add(dialT))
			if resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: m}); err == nil {
				c.Count(fmt.Sprintf("http:%s:%d", m, resp.StatusCode), 1)
				if r.Intn(4) > 0 {
					io.Copy(io.Discard, resp.Body)
				}
			}
			conn.SetReadDeadline(time.Time{})
		}
		return connPart("HLS/DASH request "+u, conn)
	}},
}

func settleRTMP2(c *rtmp.Client, ok bool) {
	if ok {
		settleRTMP(c)
	}
}

// tree lists what is below a directory.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && strings.Contains(p, "stream-") { // the app's directory may stay
			m[p] = strings.TrimPrefix(p, dir)
		}
		return nil
	})
	return m
}

func runC09(c *vh.C) {
	if c.Idx%8 == 7 {
		runC09Heap(c)
		return
	}
	e := env(c)
	r := c.R
	settled := func(what string, g, f, d map[string]string) {
		var lg, lf, ld []string
		ok := false
		pause := 5 * time.Millisecond
		// looking costs memory, and the collector would come when it is short
		for end := time.Now().Add(c.D(15 * time.Second)); !ok && time.Now().Before(end); {
			time.Sleep(pause)
			if pause < time.Second {
				pause += pause / 4
			}
			lg, lf, ld = diff(g, serverGoroutines()), diff(f, openFiles()), diff(d, tree(e.Dir))
			ok = len(lg) == 0 && len(lf) == 0 && len(ld) == 0
		}
		if !ok {
			key := "leak:"
			if len(lg) > 0 {
				key += lg[0]
			} else if len(lf) > 0 {
				key += "descriptor"
			} else {
				key += "file"
			}
			if len(lf) > 20 {
				lf = lf[:20]
			}
			c.FailTimed(key, "%s: left over: goroutines [%s], descriptors [%s], files %v", what, summary(lg), strings.Join(lf, ", "), ld)
		}
	}
	// what only the collector's finalizers would close has not been given back
	runtime.GC()
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(1 << 30))
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	g0, f0, d0 := serverGoroutines(), openFiles(), tree(e.Dir)
	l := NewLive(pick(r, appLive, appSeg, appAlt, appLate), e.Name(c))
	rt, fl, rs := e.RTMP, e.FLV, e.RTSP
	if l.App != appLive {
		rt, fl, rs = e.FRTMP, e.FFLV, e.FRTSP
	}
	p := MustPublish(c, rt, l, Plain())
	defer p.Close()
	o := media.Opt{Video: true, Audio: true, GOP: 8, MaxSize: 1500, FrameMs: 120}
	n := 60
	if r.Intn(2) == 0 { // more than fits the buffers of a connection
		o.MaxSize, o.GOP, n = 150000, 1000, 110
	}
	fs, _ := genFrames(c, n, false, o)
	feed(c, p, fs, 20)
	if l.App == appLate {
		for _, f := range []string{"index.m3u8", "index.mpd"} {
			hc := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: time.Second} // the server waits for a first segment
			if resp, err := hc.Get("http://" + e.HLS + "/" + l.App + "/" + l.Name + "/" + f); err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
		}
	}
	time.Sleep(30 * time.Millisecond)
	g1, f1, d1 := serverGoroutines(), openFiles(), tree(e.Dir)
	var open []*part
	defer func() {
		for _, q := range open {
			q.conn.Close()
		}
	}()
	start := func(n int) {
		for i := 0; i < n; i++ {
			op := openers[r.Intn(len(openers))]
			if q := op.f(c, e, l, fl, rt, rs); q != nil {
				c.Trace("%s", q.what)
				c.Count("sessions:"+op.name, 1)
				open = append(open, q)
			}
		}
	}
	finish := func() {
		for len(open) > 0 {
			i := r.Intn(len(open))
			q := open[i]
			open = append(open[:i], open[i+1:]...)
			if q.own && r.Intn(3) > 0 {
				if !drained(q.conn, c.D(10*time.Second)) {
					q.conn.Close()
					c.FailTimed("not-closed", "%s: the server keeps the connection open", q.what)
				}
				q.conn.Close()
				c.Count("closed_by_server", 1)
				continue
			}
			how := pick(r, "close", "close", "reset", "half")
			c.Trace("end of %s: %s", q.what, how)
			q.end(how)
			if how == "half" {
				q.conn.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
				io.Copy(io.Discard, q.conn)
			}
			q.conn.Close()
		}
	}
	start(2 + r.Intn(8))
	if r.Intn(2) == 0 { // interleaved with ends
		time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
	}
	finish()
	settled("the publisher is idle, all other sessions have ended", g1, f1, d1)
	// and with the publisher ending before, or after the others
	start(r.Intn(6))
	how := pick(r, pubEnds...)
	c.Trace("publisher ends by %s", how)
	if r.Intn(2) == 0 {
		p.End(how)
		finish()
	} else {
		finish()
		p.End(how)
	}
	p.Close()
	settled("every session has ended", g0, f0, d0)
	c.Nontrivial("%d", c.Idx)
}

// runC09Heap publishes one name after the other and weighs the heap.
func runC09Heap(c *vh.C) {
	e := env(c)
	r := c.R
	big := make([]byte, 60000)
	r.Read(big)
	one := func(i int) {
		name := e.Name(c)
		l := NewLive(appLive, name)
		p := MustPublish(c, e.RTMP, l, Plain())
		for k := 0; k < 10; k++ {
			b := append([]byte{}, big...)
			b[0] = 0x22
			if k == 0 {
				b[0] = 0x12
			}
			if err := p.SendMsg(&rtmp.Msg{CSID: 6, Type: 9, TS: uint32(k), MSID: 1, Body: b}, 1); err != nil {
				c.Fail("publisher-dropped", "%v", err)
			}
		}
		p.Barrier(c)
		if i%3 == 0 {
			rc, err := DialRTMP(e.RTMP, appLive, r)
			if err == nil {
				rc.Play(name, dialT)
				rc.Close()
			}
		}
		p.End(pick(r, pubEnds...))
		p.Close()
	}
	for i := 0; i < 8; i++ {
		one(i)
	}
	time.Sleep(20 * time.Millisecond)
	base := heap()
	n := 60
	for i := 0; i < n; i++ {
		one(i)
	}
	var grown int
	if !c.Eventually(10*time.Second, func() bool { grown = heap() - base; return grown < 3*len(big)*10 }) {
		c.FailTimed("memory-kept", "%d ended publications of %d kB each: the heap has grown by %d kB", n, len(big)*10/1000, grown/1000)
	}
	c.Count("max_heap_growth_kB", grown/1000)
	c.Nontrivial("heap %d", c.Idx)
}
