package net

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime/debug"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtmp"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/rtmp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C41", Quick: 200, Thorough: 3000, Setup: setupPulls, Technique: hostileTech, MemLimit: 1500 << 20, CaseTimeout: 150 * time.Second,
		Rule:      "each worker's server pulls 24 streams from as many reference upstreams; each case answers their connections with hostile sessions that leave the script at every stage (handshake, replies to connect, createStream and play, broken chunks, control messages, AMF, aggregates, media that reaches viewers and segmenters, hang-ups, silence) and now and then with a faultless one whose stream is compared frame by frame; an innocent published stream beside them is compared too, heap, allocations, idle processor time, left-over goroutines and the retries are judged",
		LevelNote: "exploration: seeded attacks; memory is judged against bytes sent with a fixed allowance; a retry is awaited for 75 seconds",
		Run:       runC41})
}

// pulled is one upstream over the life of a worker.
type pulled struct {
	*upstream
	local string // local application
	mu    sync.Mutex
	last  time.Time // last connection
	busy  bool      // a session of ours is open
}

type arrival struct {
	net.Conn
	at time.Time
}

type pulls struct {
	*Env
	ps []*pulled
}

func setupPulls(w *vh.Worker) {
	e := &Env{IP: w.IP, port: 3000}
	e.RTMP, e.FLV, e.RTSP, e.HLS = e.at(1935), e.at(8080), e.at(8554), e.at(8082)
	e.FRTMP, e.FFLV, e.FRTSP = e.RTMP, e.FLV, e.RTSP
	e.Dir = w.Scratch + "/seg"
	s := librtmp.NewServer(e.RTMP, appLive, appSeg).WithHTTPFlv(e.FLV).WithRTSP(e.RTSP).WithHls(e.HLS).WithDASH().SetHlsDir(appSeg, e.Dir)
	st := &pulls{Env: e}
	for i := 0; i < 24; i++ {
		p := &pulled{upstream: &upstream{e: e, addr: e.Port(), app: "up", play: fmt.Sprint("x", i), name: fmt.Sprint("q", i), conns: make(chan net.Conn, 64)}, local: appLive, last: time.Now()}
		if i%3 == 2 {
			p.local = appSeg
		}
		p.url = "rtmp://" + p.addr + "/" + p.app + "/" + p.play
		ln, err := net.Listen("tcp", p.addr)
		if err != nil {
			panic(err)
		}
		go func() {
			for {
				cn, err := ln.Accept()
				if err != nil {
					return
				}
				p.mu.Lock()
				p.last = time.Now()
				p.mu.Unlock()
				p.conns <- arrival{cn, time.Now()}
			}
		}()
		s = s.WithRTMPPull(p.url, p.local, p.name)
		st.ps = append(st.ps, p)
	}
	go s.Handler()
	waitPort(e.RTMP, e.FLV, e.RTSP, e.HLS)
	w.State = st
}

// hostileReply is what an upstream may answer, at any time.
func hostileReply(r *rand.Rand) *rtmp.Msg {
	m := &rtmp.Msg{CSID: pick(r, uint32(3), 3, 5), MSID: pick(r, uint32(0), 1), Type: 20}
	v := []interface{}{pick(r, "_result", "_result", "_error", "onStatus", "onStatus", "onBWDone", "connect", "publish", "play", "deleteStream", "FCUnpublish", "closeStream", "createStream", "pause", "seek", "releaseStream"), pick(r, 0.0, 1, 2, 3, 4, -1)}
	for n := r.Intn(4); n > 0; n-- {
		v = append(v, pick[interface{}](r, nil, nil, anyAMF(r, 0), amf0.Obj{{K: "level", V: pick[interface{}](r, "status", "status", nil, 1.0)}, {K: "code", V: pick[interface{}](r, "NetStream.Play.Start", "NetStream.Play.Reset", anyAMF(r, 0))}}, 1.0, "x"))
	}
	m.Body = amf0.Enc(v...)
	if r.Intn(4) == 0 {
		m.Body = mutate(r, m.Body)
	}
	return m
}

func runC41(c *vh.C) {
	st := c.State.(*pulls)
	e, r := st.Env, c.R
	cn := newCanary(c, e, pick(r, appLive, appSeg))
	defer cn.close()
	for _, p := range st.ps {
		p.c, p.r = c, rand.New(rand.NewSource(r.Int63()))
	}
	g := newGuard()
	var open []io.Closer
	var views []*View
	defer func() {
		for _, x := range open {
			x.Close()
		}
		for _, v := range views {
			v.Close(true)
		}
		for _, p := range st.ps {
			p.busy = false
		}
	}()
	sessions, good := 0, 0
	until := time.Now().Add(time.Duration(1200+r.Intn(1500)) * time.Millisecond)
	want := 4 + r.Intn(12)
	for sessions < want && time.Now().Before(until) {
		p := st.ps[r.Intn(len(st.ps))]
		var a arrival
		select {
		case x := <-p.conns:
			a = x.(arrival)
		default:
			time.Sleep(200 * time.Microsecond)
			continue
		}
		if p.busy || time.Since(a.at) > 3*time.Second {
			a.Conn.Close()
			continue
		}
		sessions++
		if r.Intn(12) == 0 {
			b := make([]byte, 1+1536+1536+r.Intn(100))
			r.Read(b)
			for b[0] == 3 {
				b[0] = byte(r.Intn(256))
			}
			c.Trace("%s: refused handshake", p.name)
			dripped(r, a.Conn, b, g)
			old := debug.SetGCPercent(-1) // a finalizer does not count
			a.SetReadDeadline(time.Now().Add(c.D(3 * time.Second)))
			_, err := io.Copy(io.Discard, a.Conn)
			debug.SetGCPercent(old)
			a.Close()
			if t, ok := err.(net.Error); ok && t.Timeout() {
				c.FailTimed("left-open", "%s: the client has not closed the connection whose handshake failed", p.name)
			}
			c.Count("given_up_connections", 1)
			continue
		}
		if p.local == appLive && r.Intn(8) == 0 {
			if err := p.media(a.Conn, pick(r, "close", "notify", "reset")); err != nil {
				c.FailTimed("client", "%s: the pull client in a faultless session: %v", p, err)
			}
			a.Conn.Close()
			g.add(4 << 20)
			good++
			continue
		}
		p.busy = true
		open = append(open, a.Conn)
		stage := nPoints
		if r.Intn(2) == 0 {
			stage = r.Intn(nPoints)
		}
		c.Count(fmt.Sprintf("stage:%d", stage), 1)
		stop := stage
		if stage == nPoints {
			stop = -1
		}
		g.add(4000)
		cl, err := p.serve(a.Conn, stop, "")
		if cl == nil { // the handshake, or nothing better
			if err != (hungUp{}) {
				c.Count("odd_sessions", 1)
			}
			c.Trace("%s: stage %d: garbage", p.name, stage)
			b := randBytes(r, r.Intn(pick(r, 5, 1600, 6000)))
			if len(b) > 0 && r.Intn(3) > 0 {
				b[0] = 3
			}
			dripped(r, a.Conn, b, g)
			if t, ok := a.Conn.(*net.TCPConn); ok && r.Intn(3) == 0 {
				t.CloseWrite()
			}
			continue
		}
		var valid []*media.Frame
		l := NewLive(p.local, p.name)
		if stage == nPoints {
			o := media.Opt{Video: true, Audio: r.Intn(4) > 0, HEVC: r.Intn(3) == 0, GOP: 4, MaxSize: 200, Meta: true, CTS: r.Intn(2) == 0, Frames: 24, Rate: -1, FrameMs: pick(r, 40.0, 600), Start: startTS(r), ID: uint64(c.Idx+1) << 32}
			valid = media.Gen(r, o).Frames
			if r.Intn(3) == 0 {
				valid, _ = Zoo(r, 30, 0)
			}
			for _, f := range valid[:r.Intn(len(valid))] {
				b := cl.W.Encode(&rtmp.Msg{CSID: 6, Type: f.Kind, TS: f.TS, MSID: 1, Body: f.Body}, 0)
				g.add(len(b))
				cl.Write(b)
			}
			for i := r.Intn(4); i > 0; i-- {
				if v, err := e.View(r, l, randViewer(r, "rtmp", "flv", "ws", "rtsp", "rtsp", "rtsp-udp")); err == nil {
					views = append(views, v)
				}
			}
		}
		for i := r.Intn(40); i >= 0; i-- {
			var b []byte
			switch k := r.Intn(12); {
			case k == 0:
				b = hostileChunks(r)
				c.Trace("%s: stage %d chunks %s", p.name, stage, hexHead(b))
			case k < 5 || stage < nPoints && k < 9:
				m := hostileReply(r)
				b = cl.W.Encode(m, 0)
				c.Trace("%s: stage %d reply %s", p.name, stage, hexHead(m.Body))
			default:
				m := hostileMsg(r, valid)
				fm := 0
				if r.Intn(3) == 0 {
					fm = rtmp.RandFmt(r)
				}
				b = cl.W.Encode(m, fm)
				c.Trace("%s: stage %d type %d csid %d: %s", p.name, stage, m.Type, m.CSID, hexHead(m.Body))
			}
			c.Count("messages", 1)
			if dripped(r, cl.Conn, b, g) != nil {
				c.Count("sessions_ended_by_client", 1)
				break
			}
		}
		if p.local == appSeg {
			peek(e, l, g)
		}
		if r.Intn(3) == 0 {
			cn.step(c, "during the attack")
		}
		if r.Intn(3) == 0 {
			closeHow(a.Conn, pick(r, "close", "reset"))
			p.busy = false
		}
	}
	cn.step(c, "during the attack")
	g.allocated(c, "attack by upstream", 100<<20)
	g.held(c, "attack by upstream", 12<<20)
	for _, x := range open {
		x.Close()
	}
	for _, v := range views {
		v.Close(r.Intn(2) == 0)
	}
	g.gone(c, "attack by upstream")
	cn.step(c, "after the attack")
	cn.finish(c)
	for _, p := range st.ps {
		p.mu.Lock()
		d := time.Since(p.last)
		p.mu.Unlock()
		if d > c.D(75*time.Second) {
			c.FailTimed("no-retry", "%s: no connection for %v", p, d.Round(time.Millisecond))
		}
	}
	c.Count("hostile_sessions", sessions-good)
	c.Count("faultless_sessions", good)
	if sessions > 0 {
		c.Nontrivial("%d %d", c.Idx, sessions)
	}
}
