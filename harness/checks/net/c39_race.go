package net

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sbraveyoung/GGmpeg/libamf"
	"github.com/sbraveyoung/GGmpeg/libdash"
	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"
	"github.com/sbraveyoung/GGmpeg/librtmp"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/rtmp"
	"vharness/ref/rtsp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C39", Quick: 48, Thorough: 900, Race: true, Setup: setupRace, MemLimit: 6 << 30, CaseTimeout: 150 * time.Second,
		Technique: "runtime monitoring: ThreadSanitizer (Go race detector) watches one server with every protocol enabled under a concurrent mix of reference publishers, viewers, segment clients and broken-off sessions; the standard library is built without the synchronisation the race detector assumes at system calls and without the output lock, which hide races of network servers",
		Rule:      "each case runs some twenty concurrent actors on a few stream names for about two seconds: RTMP, RTSP (TCP, UDP) and SRT publishers, pulls, viewers of every protocol who join, stall, send commands and leave, HLS and DASH clients, sessions broken off anywhere, sessions of mixed roles; distinct by case",
		LevelNote: "races between accesses that happened in the runs are seen whatever their timing, unless another synchronisation happened to come between them in every run",
		Run:       runC39})
}

const (
	raceNames = 4
	raceSRT   = 3
	racePulls = 4
)

var raceApps = []string{appLive, appTwo, appSeg, appLate, appAlt}

// setupRace is one server with everything.
func setupRace(w *vh.Worker) {
	if os.Getenv("VH_OUT") == "" {
		os.Stdout = nil // its lock would order what the goroutines do around every line they print
	}
	e := &Env{IP: w.IP, port: 3000}
	e.RTMP, e.FLV, e.RTSP, e.HLS = e.at(1935), e.at(8080), e.at(8554), e.at(8082)
	e.FRTMP, e.FFLV, e.FRTSP = e.RTMP, e.FLV, e.RTSP
	e.Dir = w.Scratch + "/seg"
	os.MkdirAll(e.Dir, 0o755)
	s := librtmp.NewServer(e.RTMP, raceApps...).WithHTTPFlv(e.FLV).WithRTSP(e.RTSP).WithHls(e.HLS).WithDASH().SetHlsMode(appLive, libhls.NONE).SetHlsMode(appTwo, libhls.DELAY).SetHlsMode(appLate, libhls.DELAY)
	for _, a := range raceApps {
		s = s.SetHlsDir(a, e.Dir)
	}
	for i := 0; i < raceSRT; i++ { // one beside other publishers of the name, one on two ports
		s = s.WithSRT(e.at(9000+i), pick(rand.New(rand.NewSource(int64(i))), appSeg, appLive), fmt.Sprintf("n%d", i%2))
	}
	for i := 0; i < racePulls; i++ {
		s = s.WithRTMPPull(fmt.Sprintf("rtmp://%s/%s/n%d", e.RTMP, raceApps[i%2], i), raceApps[1+i%3], fmt.Sprintf("n%d", (i+1)%raceNames))
	}
	go s.Handler()
	waitPort(e.RTMP, e.FLV, e.RTSP, e.HLS)
	w.State = e
}

// racer is one actor.
type racer struct {
	*vh.C
	e   *Env
	r   *rand.Rand
	end time.Time
	k   uint64
}

func (a *racer) on() bool { return time.Now().Before(a.end) }

func (a *racer) nap() {
	if a.r.Intn(3) > 0 {
		time.Sleep(time.Duration(a.r.Intn(3000)) * time.Microsecond)
	}
}

func (a *racer) slot() *Live {
	if a.r.Intn(4) > 0 { // most meet on few names
		return NewLive(pick(a.r, appSeg, appSeg, appLate, appLive), fmt.Sprintf("n%d", a.r.Intn(2)))
	}
	return NewLive(raceApps[a.r.Intn(len(raceApps))], fmt.Sprintf("n%d", a.r.Intn(raceNames)))
}

func (a *racer) opt() media.Opt {
	a.k++
	return media.Opt{Meta: a.r.Intn(2) == 0, GOP: pick(a.r, 2, 5, 12), MaxSize: pick(a.r, 100, 1500, 40000), FrameMs: pick(a.r, 40.0, 250, 700), Change: a.r.Intn(3) == 0, ID: uint64(a.Idx+1)<<40 | a.k<<20}
}

// chat sends commands that publishers and players send in mid-stream.
func (a *racer) chat(c *rtmp.Client) {
	r := a.r
	switch r.Intn(9) {
	case 0:
		c.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, r.Uint32())}, 0)
	case 1:
		c.SendMsg(&rtmp.Msg{CSID: 2, Type: 3, Body: rtmp.U32(r.Uint32())}, 0)
	case 2:
		c.SendMsg(&rtmp.Msg{CSID: 2, Type: 5, Body: rtmp.U32(uint32(1 + r.Intn(50000)))}, 0)
	case 3:
		c.SetChunkSize(pick(r, 128, 500, 4096))
	case 4:
		c.SendMsg(&rtmp.Msg{CSID: 2, Type: 6, Body: append(rtmp.U32(uint32(1000+r.Intn(500000))), byte(r.Intn(3)))}, 0)
	case 5:
		c.Cmd(0, "createStream", c.NextTxn(), nil)
	case 6:
		c.Cmd(1, "publish", c.NextTxn(), nil, fmt.Sprintf("n%d", r.Intn(raceNames)), "live")
	case 7:
		c.Cmd(1, "play", c.NextTxn(), nil, fmt.Sprintf("n%d", r.Intn(raceNames)))
	case 8:
		c.Cmd(0, pick(r, "getStreamLength", "FCPublish", "releaseStream", "pause", "FCSubscribe", "_checkbw"), c.NextTxn(), nil, "n1")
	}
}

func (a *racer) rtmpPub() {
	r := a.r
	p, err := Publish(a.e.RTMP, r, a.slot(), RandStyle(r))
	if err != nil {
		a.Count("publishers_refused", 1)
		return
	}
	a.Count("publishers:rtmp", 1)
	defer p.Client.Close()
	fs, _ := genFrames(a.C, pick(r, 20, 100, 400)+r.Intn(100), r.Intn(3) == 0, a.opt())
	for len(fs) > 0 && a.on() {
		n := 1 + r.Intn(20)
		if n > len(fs) {
			n = len(fs)
		}
		if p.Send(fs[:n]...) != nil {
			return
		}
		a.Count("frames", n)
		fs = fs[n:]
		if r.Intn(6) == 0 {
			a.chat(p.Client)
		}
		a.nap()
	}
	p.End(pubEnds[r.Intn(len(pubEnds))])
	if r.Intn(2) == 0 {
		a.nap()
	}
}

func (a *racer) rtspPub() {
	r := a.r
	o := a.opt()
	udp := r.Intn(2) == 0
	if udp {
		o.MaxSize = 1500
	}
	fs, vc, ac := genRTSP(a.C, 20+r.Intn(80), o)
	p, err := PublishRTSP(a.e.RTSP, r, a.slot(), vc, ac, udp)
	if err != nil {
		a.Count("publishers_refused", 1)
		return
	}
	a.Count("publishers:rtsp", 1)
	defer p.Close()
	p.start = fs[0].TS
	for len(fs) > 0 && a.on() {
		n := 1 + r.Intn(15)
		if n > len(fs) {
			n = len(fs)
		}
		if p.Send(fs[:n]) != nil {
			return
		}
		a.Count("frames", n)
		fs = fs[n:]
		if r.Intn(6) == 0 {
			p.Do(dialT, pick(r, "OPTIONS", "GET_PARAMETER", "RECORD", "PAUSE", "DESCRIBE"), "rtsp://"+a.e.RTSP+"/"+p.Live.App+"/"+p.Live.Name, nil, nil)
		}
		a.nap()
	}
	if r.Intn(2) == 0 {
		p.Do(dialT, "TEARDOWN", "rtsp://"+a.e.RTSP+"/"+p.Live.App+"/"+p.Live.Name, nil, nil)
	}
}

func (a *racer) srtPub() {
	r := a.r
	s, err := NewSRT(r, a.e.IP, a.e.at(9000+r.Intn(raceSRT)))
	if err != nil {
		return
	}
	defer s.Close()
	if s.Open(2*time.Second) != nil {
		return
	}
	a.Count("publishers:srt", 1)
	o := a.opt()
	o.Meta, o.Video, o.Audio, o.MaxSize = false, true, true, 1500
	fs, _ := genFrames(a.C, 20+r.Intn(60), false, o)
	t := media.ToTS(r, fs, media.TSOpt{})
	for i := 0; i < len(t.Packets) && a.on(); i += 7 {
		var b []byte
		for j := i; j < i+7 && j < len(t.Packets); j++ {
			b = append(b, t.Packets[j]...)
		}
		switch r.Intn(25) {
		case 0:
			s.next = (s.next + 1) & 0x7fffffff // a loss
		case 1:
			if !s.Ping(200 * time.Millisecond) {
				return
			}
		case 2:
			s.handshake(s.Conclusion())
		case 3:
			s.raw(randBytes(r, 16+r.Intn(60)))
		}
		s.Send(b)
		if r.Intn(8) == 0 {
			a.nap()
		}
	}
	a.Count("frames", len(fs))
	if r.Intn(3) > 0 {
		s.Shutdown()
	}
}

func (a *racer) viewer() {
	r := a.r
	l := a.slot()
	w := randViewer(r, "rtmp", "flv", "ws", "rtsp", "rtsp-udp")
	if r.Intn(4) == 0 {
		w.Rcv = smallRcv
	}
	v, err := a.e.View(r, l, w)
	for i := 0; err != nil && i < 20 && a.on(); i++ {
		a.Count("viewers_refused", 1)
		time.Sleep(time.Duration(1+r.Intn(4)) * time.Millisecond)
		v, err = a.e.View(r, l, w)
	}
	if err != nil {
		return
	}
	a.Count("viewers:"+w.Proto, 1)
	url := "rtsp://" + a.e.RTSP + "/" + l.App + "/" + l.Name
	for n := r.Intn(8); n > 0 && a.on() && v.End() == ""; n-- {
		switch {
		case r.Intn(6) == 0:
			v.Pause()
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
			v.Resume()
		case v.RC != nil && r.Intn(2) == 0:
			a.chat(v.RC)
		case v.WS != nil && r.Intn(2) == 0:
			v.WS.Send(pick[byte](r, 9, 9, 10, 1, 2), randBytes(r, r.Intn(100)))
		case v.SC != nil && r.Intn(2) == 0:
			v.SC.Do(dialT, pick(r, "OPTIONS", "GET_PARAMETER", "PLAY", "PAUSE", "DESCRIBE"), url, nil, nil)
		}
		time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
	}
	leave(v, r.Intn(5))
	a.Count("items_received", int(atomic.LoadInt64(&v.Got)))
}

// mixed is an RTMP session that plays and publishes by turns.
func (a *racer) mixed() {
	r := a.r
	c, err := DialRTMP(a.e.RTMP, raceApps[r.Intn(len(raceApps))], r)
	if err != nil {
		return
	}
	a.Count("mixed_sessions", 1)
	defer c.Close()
	for i := r.Intn(12); i > 0 && a.on(); i-- {
		switch r.Intn(6) {
		case 0:
			c.Cmd(1, "play", c.NextTxn(), nil, fmt.Sprintf("n%d", r.Intn(raceNames)))
		case 1:
			c.Cmd(1, "publish", c.NextTxn(), nil, fmt.Sprintf("n%d", r.Intn(raceNames)), "live")
		case 2:
			c.Cmd(1, pick(r, "closeStream", "deleteStream", "FCUnpublish"), c.NextTxn(), nil, 1.0)
		case 3:
			fs, _ := genFrames(a.C, 6, true, a.opt())
			for _, f := range fs {
				c.SendMsg(&rtmp.Msg{CSID: 6, Type: f.Kind, TS: f.TS, MSID: 1, Body: f.Body}, 0)
			}
		case 4:
			c.Cmd(0, "connect", 1.0, amf0.Obj{{K: "app", V: raceApps[r.Intn(len(raceApps))]}, {K: "tcUrl", V: "rtmp://x/y"}})
		default:
			a.chat(c)
		}
		if r.Intn(2) == 0 {
			a.nap()
		}
	}
	if r.Intn(2) == 0 {
		abruptClose(c.Conn, true)
	}
}

// both is an RTSP session that goes through both roles.
func (a *racer) both() {
	r := a.r
	nc, err := dial(a.e.RTSP)
	if err != nil {
		return
	}
	defer nc.Close()
	s := rtsp.New(nc)
	s.Start()
	a.Count("mixed_sessions", 1)
	for i := r.Intn(10); i > 0 && a.on(); i-- {
		l := a.slot()
		base := "rtsp://" + a.e.RTSP + "/" + l.App + "/" + l.Name
		tr := fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*i, 2*i+1)
		if r.Intn(2) == 0 {
			tr = "Transport: RTP/AVP;unicast;client_port=40000-40001"
		}
		d := time.Second
		switch r.Intn(5) {
		case 0:
			_, vc, ac := genRTSP(a.C, 3, media.Opt{Video: true, Audio: true})
			s.Do(d, "ANNOUNCE", base, []string{"Content-Type: application/sdp"}, sdpText(r, vc, ac, 96, 97, "trackID=0", "trackID=1"))
		case 1, 2:
			s.Do(d, "SETUP", fmt.Sprintf("%s/trackID=%d", base, r.Intn(2)), []string{tr + pick(r, "", ";mode=record")}, nil)
		default:
			s.Do(d, pick(r, "DESCRIBE", "PLAY", "RECORD", "PAUSE", "OPTIONS", "TEARDOWN"), base, nil, nil)
		}
	}
}

// files requests playlists, manifests and what they name.
func (a *racer) files(w *web) {
	r := a.r
	l := a.slot()
	p := newPoller(w, r, a.e.HLS, l, "")
	base := "http://" + a.e.HLS + "/" + l.App + "/" + l.Name + "/"
	for i := 0; i < 8 && a.on(); i++ {
		switch r.Intn(4) {
		case 0:
			p.playlist("GET", "")
		case 1:
			p.manifest("GET")
		default:
			n := r.Intn(8)
			w.do(pick(r, "GET", "GET", "HEAD"), base+pick(r, fmt.Sprintf("%s-%d.ts", l.Name, n), fmt.Sprintf("%s-%d.m4s", l.Name, n), l.Name+"-init.mp4", "index.m3u8", "index.mpd", "x"))
		}
		a.Count("segment_requests", 1)
		if i%3 == 2 {
			p.hls()
			p.dash()
		}
		a.nap()
	}
}

func (a *racer) brokenOff() {
	op := openers[a.r.Intn(len(openers))]
	if op.name == "rtmp-session" { // waits for what only a live stream gives; mixed does the same
		return
	}
	q := op.f(a.C, a.e, a.slot(), a.e.FLV, a.e.RTMP, a.e.RTSP)
	if q == nil {
		return
	}
	a.Count("broken_off", 1)
	a.nap()
	how := pick(a.r, "close", "close", "reset", "half")
	q.end(how)
	if how == "half" {
		q.conn.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		io.Copy(io.Discard, q.conn)
	}
	q.conn.Close()
}

// herd makes sessions that are ready to act and lets them at once.
func (a *racer) herd() {
	r := a.r
	l := a.slot()
	gate := make(chan struct{})
	var ready, done sync.WaitGroup
	for i := 3 + r.Intn(5); i > 0; i-- {
		ready.Add(1)
		done.Add(1)
		s := rand.New(rand.NewSource(r.Int63()))
		play := r.Intn(2) == 0
		go func() {
			defer done.Done()
			c, err := DialRTMP(a.e.RTMP, l.App, s)
			ready.Done()
			<-gate
			if err != nil {
				return
			}
			defer c.Close()
			if play {
				c.Cmd(1, "play", c.NextTxn(), nil, l.Name)
			} else {
				c.Cmd(1, "publish", c.NextTxn(), nil, l.Name, "live")
			}
			time.Sleep(time.Duration(s.Intn(4000)) * time.Microsecond)
			if play && s.Intn(2) == 0 {
				abruptClose(c.Conn, true)
			}
		}()
	}
	ready.Wait()
	close(gate)
	done.Wait()
	a.Count("herds", 1)
}

func runC39(c *vh.C) {
	e := env(c)
	if c.Idx%4 == 3 {
		raceLib(c)
		return
	}
	end := time.Now().Add(1800 * time.Millisecond)
	n := 16 + c.R.Intn(8)
	var wg sync.WaitGroup
	subs := make([]*vh.C, n)
	for i := range subs {
		s := c.Sub(c.R.Int63())
		subs[i] = s
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := &racer{C: s, e: e, r: s.R, end: end, k: uint64(i) << 12}
			w := newWeb(i%2 == 0, 1500*time.Millisecond)
			defer w.close()
			for a.on() {
				f := []func(){a.rtmpPub, a.viewer, a.rtspPub, a.viewer, func() { a.files(w) }, a.viewer, a.rtmpPub, a.mixed, a.viewer, a.brokenOff, a.srtPub, a.both, a.herd}[i%13]
				if !vh.Try(f) {
					a.Count("given_up", 1)
				}
			}
			w.count(a.C)
		}()
	}
	wg.Wait()
	for _, s := range subs {
		c.Merge(s)
	}
	c.Nontrivial("%d", c.Idx)
}

type tagReader struct {
	tags []libflv.Tag
	i    int
	nap  time.Duration
	end  chan struct{}
}

func (t *tagReader) Read() (interface{}, bool) {
	if t.i >= len(t.tags) {
		if t.end != nil { // an idle publisher
			<-t.end
		}
		return nil, false
	}
	if t.nap > 0 && t.i%8 == 0 {
		time.Sleep(t.nap)
	}
	t.i++
	return t.tags[t.i-1], true
}

// raceLib runs segmenters on the same tags, with clients of each, and low
// latency, which the server leaves off.
func raceLib(c *vh.C) {
	r := c.R
	fs, _ := genFrames(c, 60+r.Intn(200), false, media.Opt{Video: true, Audio: r.Intn(3) > 0, Meta: true, GOP: pick(r, 2, 8, 20), MaxSize: 600, FrameMs: pick(r, 40.0, 120, 500), Change: r.Intn(2) == 0, CTS: true})
	var tags []libflv.Tag
	for _, f := range fs {
		b := append([]byte{}, f.Body...)
		tb := libflv.TagBase{TagType: f.Kind, TimeStamp: f.TS, DataSize: uint32(len(b))}
		var t libflv.Tag
		var err error
		switch f.Kind {
		case 8:
			t, err = libflv.ParseAudioTag(tb, b)
		case 9:
			t, err = libflv.ParseVideoTag(tb, b)
		default:
			t, err = libflv.ParseMetaTag(tb, libamf.AMF0, b)
		}
		if err != nil {
			c.Inconclusive("tag %v: %v", f, err)
		}
		tags = append(tags, t)
	}
	dir := fmt.Sprintf("%s/lib-%d", c.Scratch, c.Idx)
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	n := 0
	go1 := func(f func(r *rand.Rand)) {
		n++
		s := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() { defer wg.Done(); f(s) }()
	}
	var calls int64
	for i := 4 + r.Intn(5); i > 0; i-- {
		rd := &tagReader{tags: tags, nap: time.Duration(r.Intn(4)) * time.Millisecond}
		if r.Intn(2) == 0 {
			rd.end = make(chan struct{})
		}
		done := make(chan struct{})
		start := func(err error) { close(done) }
		stopAfter := time.Duration(20+r.Intn(500)) * time.Millisecond
		var stop func()
		var reads []func(r *rand.Rand)
		if r.Intn(3) > 0 {
			h := libhls.NewHls().WithStreamID("s").WithDir(fmt.Sprintf("%s/%d", dir, i)).WithLowLatency(r.Intn(3) > 0)
			go1(func(*rand.Rand) { start(h.Start(rd)) })
			stop = h.Stop
			reads = []func(r *rand.Rand){func(*rand.Rand) { h.Playlist() }, func(r *rand.Rand) {
				h.WaitForPlaylist(r.Intn(8)-1, r.Intn(8)-1, time.Duration(r.Intn(30))*time.Millisecond)
			},
				func(*rand.Rand) {
					select {
					case <-h.Ready():
						h.WaitFirstSegment()
					default:
					}
				}, func(*rand.Rand) { h.Dir(); h.LowLatency(); h.PartTargetDur() }, func(*rand.Rand) { h.Playlist() }}
		} else {
			d := libdash.NewDASH().WithStreamID("s").WithDir(fmt.Sprintf("%s/%d", dir, i))
			go1(func(*rand.Rand) { start(d.Start(rd)) })
			stop = d.Stop
			reads = []func(r *rand.Rand){func(*rand.Rand) { d.Manifest() }, func(*rand.Rand) { d.InitSegment() }, func(*rand.Rand) {
				select {
				case <-d.Ready():
					d.WaitFirstSegment()
				default:
				}
			}, func(*rand.Rand) { d.Dir() }}
		}
		for k := 0; k < 4; k++ {
			go1(func(r *rand.Rand) {
				for {
					select {
					case <-done:
						if r.Intn(3) == 0 {
							return
						}
					default:
					}
					reads[r.Intn(len(reads))](r)
					atomic.AddInt64(&calls, 1)
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
			})
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			go1(func(*rand.Rand) {
				time.Sleep(stopAfter)
				stop()
			})
		}
		if rd.end != nil {
			go1(func(r *rand.Rand) {
				time.Sleep(stopAfter + time.Duration(r.Intn(20)-10)*time.Millisecond)
				close(rd.end)
			})
		}
	}
	wg.Wait()
	c.Count("library_actors", n)
	c.Count("library_calls", int(calls))
	c.Nontrivial("lib %d", c.Idx)
}
