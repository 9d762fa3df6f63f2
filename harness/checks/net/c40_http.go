package net

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vharness/media"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C40", Quick: 350, Thorough: 6000, Setup: setup, Technique: tech + "; segments are demuxed by independent TS and MP4 parsers",
		Rule:      "up to three streams live at once in applications that segment at once and on demand, under plain and odd names (also one another's prefix, decoding or namesake), published over RTMP or RTSP a GOP at a time, possibly republished; players poll playlists and manifests over HTTP, in step and concurrently, fetch, refetch and range-request everything listed, block on sequence numbers, and ask for what must not be there with every method; first requests for a delayed stream arrive in crowds, also while the stream ends",
		LevelNote: "held on the request sequences tried; GOPs longer than the target duration, so that each completes a segment; streams have video",
		Run:       runC40})
}

// hshow is a stream that is segmented.
type hshow struct {
	l     *Live
	gops  [][]*media.Frame // the keyframe that begins a GOP ends the one before
	p     *Pub
	rp    *RTSPPub
	late  bool
	hls   *poller
	dash  *poller
	bg    []*poller
	keyed int // GOPs begun
	gone  bool
	view  *View
}

func newHShow(c *vh.C, app, name string, gops int, gen int) *hshow {
	s, err := tryHShow(c, app, name, gops, gen, c.R.Intn(5) == 0 && pathEsc(name) == name && !strings.HasSuffix(name, "."))
	if err != nil {
		c.FailTimed("publish", "publishing %s/%q: %v", app, name, err)
	}
	return s
}

func tryHShow(c *vh.C, app, name string, gops int, gen int, rtspPub bool) (*hshow, error) {
	r := c.R
	s := &hshow{l: NewLive(app, name), late: app == appLate}
	o := media.Opt{Video: true, Audio: r.Intn(3) > 0, HEVC: r.Intn(4) == 0, Meta: r.Intn(2) == 0, CTS: r.Intn(2) == 0, Inband: r.Intn(3) == 0, AudioGaps: r.Intn(4) == 0, NoAUD: r.Intn(2) == 0,
		FrameMs: 250, GOP: 9 + r.Intn(5), Rate: 3 + r.Intn(5), MaxSize: pick(r, 100, 400, 3000), Start: startTS(r), ID: uint64(c.Idx+1)<<32 | uint64(gen)<<24, PlainAVC: true}
	o.Frames = gops*o.GOP + 1 + r.Intn(3)
	var fs []*media.Frame
	var vc, ac *media.Conf
	if rtspPub {
		o.HEVC, o.Meta, o.Start = false, false, uint32(r.Intn(100000))
		s.l.Conv, s.l.Loose = true, true
		fs, vc, ac = genRTSP(c, o.Frames, o)
	} else {
		fs = media.Gen(r, o).Frames
	}
	var g []*media.Frame
	for _, f := range fs {
		g = append(g, f)
		if f.Kind == 9 && !f.Hdr && f.Key {
			s.gops = append(s.gops, g)
			g = nil
		}
	}
	e := env(c)
	if rtspPub {
		p, err := PublishRTSP(e.FRTSP, r, s.l, vc, ac, false)
		if err != nil {
			return nil, err
		}
		p.start = o.Start
		s.rp = p
		return s, nil
	}
	var err error
	s.p, err = Publish(e.FRTMP, r, s.l, RandStyle(r))
	return s, err
}

func (s *hshow) String() string { return fmt.Sprintf("%s/%q", s.l.App, s.l.Name) }

// step publishes up to and including the next keyframe.
func (s *hshow) step() error {
	fs := s.gops[s.keyed]
	s.keyed++
	if s.rp != nil {
		return s.rp.Send(fs)
	}
	return s.p.Send(fs...)
}

func (s *hshow) end(how string) {
	s.gone = true
	if s.rp != nil {
		s.rp.Close()
		return
	}
	s.p.End(how)
	s.p.Client.Close()
}

// before is the last video frame before the newest keyframe, -1 if none.
func (s *hshow) before() int {
	fr := s.l.Frames()
	n := -1
	last := -1
	for i, f := range fr {
		if f.Kind == 9 && !f.Hdr {
			if f.Key {
				last = n
			}
			n = i
		}
	}
	return last
}

// current polls until the playlist shows what was published.
func (s *hshow) current(c *vh.C, what string, p *poller, poll func() error) {
	want := s.before()
	if want < 0 {
		report(c, poll())
		return
	}
	var err error
	d := 10 * time.Second
	if s.keyed == 2 && p.lastV < 0 {
		d = time.Second // the segmenter may join at this keyframe only
	}
	ok := c.Eventually(d, func() bool {
		err = poll()
		return err != nil || p.lastV >= want
	})
	report(c, err)
	if !ok && s.keyed == 2 && p.lastV < 0 {
		c.Count("joined_at_the_second_gop", 1)
		return
	}
	if !ok {
		c.FailTimed("stale:"+what, "%s of %s: newest frame %d, the segment that ends with %d should be listed\n%s", what, s, p.lastV, want, p.pl)
	}
	if p.lastV > want {
		c.Fail("ahead:"+what, "%s of %s lists frame %d, the newest keyframe is after %d", what, s, p.lastV, want)
	}
	if n := len(p.window); n == 0 || n > 6 || p.window[0] > 0 && n < 6 {
		c.Fail("window:"+what, "%s of %s lists segments %v", what, s, p.window)
	}
}

func runC40(c *vh.C) {
	e := env(c)
	r := c.R
	w := newWeb(r.Intn(4) > 0, c.D(20*time.Second))
	defer w.close()
	defer w.count(c)
	host := "http://" + e.HLS
	// names
	tag := e.Name(c)
	name := func() string {
		if r.Intn(3) == 0 {
			return tag
		}
		o := oddNames[r.Intn(len(oddNames))]
		if len(o) < 200 && r.Intn(2) == 0 {
			o = tag + o
		}
		return o
	}
	n1 := name()
	type id struct{ app, name string }
	ids := []id{{pick(r, appSeg, appAlt, appLate), n1}}
	add := func(a, n string) {
		for _, x := range ids {
			if x.app == a && x.name == n {
				return
			}
		}
		if n != "" && n != "." && n != ".." && len(n) <= 200 {
			ids = append(ids, id{a, n})
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		a := pick(r, appSeg, appAlt, appLate)
		switch r.Intn(6) {
		case 0:
			add(a, n1) // namesake
		case 1:
			add(a, n1+"-0")
		case 2:
			if d := unescape(n1); d != n1 && !strings.ContainsAny(d, "/\\") {
				add(a, d)
			} else {
				add(a, n1+"0")
			}
		case 3:
			add(a, pathEsc(n1))
		default:
			add(a, name())
		}
	}
	gops := 3 + r.Intn(4)
	if r.Intn(3) == 0 {
		gops = 8 + r.Intn(4) // the window slides
	}
	var shows []*hshow
	gen := 0
	start := func(x id, gops int) *hshow {
		gen++
		s := newHShow(c, x.app, x.name, gops, gen)
		s.hls = newPoller(w, r, e.HLS, s.l, e.Dir)
		s.dash = newPoller(w, r, e.HLS, s.l, e.Dir)
		c.Trace("%s published, %d GOPs, RTSP %v", s, len(s.gops), s.rp != nil)
		if r.Intn(3) == 0 && len(x.name) < 200 {
			s.view = e.MustView(c, s.l, Viewer{Proto: pick(r, "flv", "ws"), Style: r.Intn(4)})
		}
		return s
	}
	defer func() {
		for _, s := range shows {
			if !s.gone {
				s.end("close")
			}
			if s.view != nil {
				s.view.Close(false)
			}
		}
	}()
	for _, x := range ids {
		shows = append(shows, start(x, gops))
	}
	// background players
	var stop int32
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bgErr error
	defer wg.Wait()
	defer atomic.StoreInt32(&stop, 1)
	background := func(s *hshow, dash bool) {
		p := newPoller(w, r, e.HLS, s.l, "")
		s.bg = append(s.bg, p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				poll := p.hls
				if dash {
					poll = p.dash
				}
				if err := poll(); err != nil {
					mu.Lock()
					if bgErr == nil {
						bgErr = err
					}
					mu.Unlock()
					return
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	for _, s := range shows {
		if !s.late && r.Intn(3) == 0 {
			background(s, r.Intn(2) == 0)
		}
	}
	bgCheck := func() {
		mu.Lock()
		defer mu.Unlock()
		report(c, bgErr)
	}
	started := map[*hshow]bool{}
	turn := func(s *hshow) bool {
		if s.gone || s.keyed >= len(s.gops) {
			return false
		}
		if s.late && !started[s] && s.keyed > 0 && r.Intn(2) == 0 {
			started[s] = true
			crowd(c, e, w, s)
		} else if err := s.step(); err != nil {
			c.Fail("publisher-dropped", "publishing %s: %v", s, err)
		}
		if !s.late || started[s] {
			s.current(c, "playlist", s.hls, s.hls.hls)
		}
		s.current(c, "manifest", s.dash, s.dash.dash)
		if r.Intn(3) == 0 {
			report(c, s.hls.ranges(ctTS))
			report(c, s.dash.ranges(ctM4S))
		}
		if s.hls.up && r.Intn(3) == 0 {
			blocking(c, s)
		}
		if r.Intn(3) == 0 {
			negative(c, e, w, shows, s)
		}
		if s.view != nil {
			s.l.Sync(c, "while publishing", s.view)
		}
		bgCheck()
		return true
	}
	for busy := true; busy; {
		busy = false
		for _, s := range shows {
			busy = turn(s) || busy
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	bgCheck()
	// the end of each, and one that follows
	r.Shuffle(len(shows), func(i, j int) { shows[i], shows[j] = shows[j], shows[i] })
	for k, s := range shows {
		waiting := s.late && !started[s] && r.Intn(2) == 0
		if waiting {
			endWhileWaiting(c, e, w, s)
		} else {
			s.end(pubEnds[r.Intn(len(pubEnds))])
		}
		old := s
		gone := func() {
			var got string
			ok := c.Eventually(10*time.Second, func() bool {
				got = ""
				for _, u := range urls(old, host) {
					a, err := w.do("GET", u)
					report(c, err)
					if a.code < 400 {
						got = fmt.Sprintf("%s: status %d", u, a.code)
						return false
					}
				}
				return true
			})
			if !ok {
				c.FailTimed("outlives", "%s ended, but %s", old, got)
			}
		}
		if r.Intn(3) > 0 {
			gone()
		} else if s.p != nil {
			gone()
		} else if !c.Eventually(10*time.Second, func() bool {
			a, err := w.do("GET", host+"/"+pathEsc(s.l.App)+"/"+pathEsc(s.l.Name)+"/index.mpd")
			report(c, err)
			return a.code >= 400
		}) {
			c.FailTimed("outlives", "%s ended, its manifest is still there", s)
		}
		if s.view != nil {
			awaitEnd(c, s.view)
			checkRun(c, s.view, RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: true})
			s.view.Close(false)
			s.view = nil
		}
		if s.late || s.dash.nv == 0 {
			c.Count("late_shows", 1)
		}
		if r.Intn(4) == 0 {
			n := start(id{s.l.App, s.l.Name}, 2+r.Intn(3))
			shows[k] = n
			for n.keyed < len(n.gops) {
				turn(n)
			}
			n.end("close")
			c.Count("republished", 1)
		}
		for _, o := range shows[k+1:] { // the others live on
			if !o.late || started[o] {
				o.current(c, "playlist", o.hls, o.hls.hls)
			}
			o.current(c, "manifest", o.dash, o.dash.dash)
		}
	}
	for _, s := range shows {
		c.Count("hls_video_frames", s.hls.nv)
		c.Count("hls_audio_frames", s.hls.na)
		c.Count("dash_frames", s.dash.nv)
		c.Count("hls_segments", len(s.hls.segs))
		c.Count("dash_segments", len(s.dash.segs))
		c.Count("playlist_polls", s.hls.polls+s.dash.polls)
		for _, b := range s.bg {
			c.Count("background_polls", b.polls)
			c.Count("background_segments", len(b.segs))
		}
		for _, g := range s.hls.segs {
			c.Nontrivial("%d %s %d %d", c.Idx, s, g.seq, len(g.body))
		}
	}
}

func urls(s *hshow, host string) (l []string) {
	b := host + "/" + pathEsc(s.l.App) + "/" + pathEsc(s.l.Name) + "/"
	n := pathEsc(s.l.Name)
	l = []string{b + "index.m3u8", b + "index.mpd", b + n + "-init.mp4", b + n + "-0.ts", b + n + "-0.m4s"}
	for _, g := range s.hls.segs {
		l = append(l, g.uri)
	}
	return
}

func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		var x int
		if s[i] == '%' && i+2 < len(s) {
			if n, _ := fmt.Sscanf(s[i+1:i+3], "%02x", &x); n == 1 {
				b.WriteByte(byte(x))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// blocking asks for a playlist that may have to be waited for.
func blocking(c *vh.C, s *hshow) {
	r := c.R
	last := s.hls.next - 1
	q := pick(r, fmt.Sprintf("_HLS_msn=%d", last), fmt.Sprintf("_HLS_msn=%d&_HLS_part=0", last), fmt.Sprintf("_HLS_msn=%d", s.hls.first), "_HLS_msn=-1", "_HLS_msn=x&_HLS_part=y", "_HLS_part=3", "_HLS_msn=")
	if r.Intn(20) == 0 {
		q = pick(r, fmt.Sprintf("_HLS_msn=%d", last+5), "_HLS_msn=9223372036854775807&_HLS_part=99")
	}
	t := time.Now()
	pl, err := s.hls.playlist("GET", q)
	report(c, err)
	if pl == nil || len(pl.Segments) == 0 || pl.Segments[len(pl.Segments)-1].Seq < last {
		c.Fail("blocking-reload", "index.m3u8?%s: an older playlist than the one before", q)
	}
	if d := time.Since(t); d > c.D(6*time.Second) {
		c.FailTimed("blocking-reload", "index.m3u8?%s took %v", q, d)
	}
	c.Count("blocking_reloads", 1)
}

// negative asks for what must not be there.
func negative(c *vh.C, e *Env, w *web, shows []*hshow, s *hshow) {
	r := c.R
	host, flv := "http://"+e.HLS, "http://"+e.FFLV
	app, n := pathEsc(s.l.App), pathEsc(s.l.Name)
	b := host + "/" + app + "/" + n + "/"
	live := func(a, n string) bool {
		for _, x := range shows {
			if !x.gone && x.l.App == a && x.l.Name == n {
				return true
			}
		}
		return false
	}
	var l []string
	for _, f := range []string{"index.m3u", "INDEX.M3U8", "index.mpd.bak", n + "-999999.ts", n + "-.ts", n + "--1.ts", n + "-%2B0.ts", n + "-0x0.ts", n + "-0.ts.m3u8", n + "-0.tsx", n + "-init.ts", n + "-init.mp4.m4s", n + "-999999.m4s", "-0.ts", "0.ts", "%2e%2e", "x/y", n + "-0.ts%00", n + "-0.ts%2F..", "..%2F" + n + "-0.ts", "x" + n + "-0.ts", n + "0-0.ts", n + "-0-0.ts"} {
		l = append(l, b+f)
	}
	l = append(l, host+"/", host+"/"+app, host+"/"+app+"/"+n, host+"/nope/"+n+"/index.m3u8", host+"/nope/"+n+"/index.mpd", host+"/"+strings.ToUpper(app)+"/"+n+"/index.m3u8",
		flv+"/"+app+"/"+n+".FLV", flv+"/nope/"+n+".flv", flv+"/"+app+"/.flv", flv+"/"+app+"/"+n+".flv/x", flv+"/"+n+".flv", host+"/"+app+"/"+n+".flv")
	for _, o := range []string{s.l.Name + "x", "x" + s.l.Name, unescape(s.l.Name), pathEsc(s.l.Name), s.l.Name + "-0", strings.TrimSuffix(s.l.Name, "0"), s.l.Name + " ", "."} {
		if o == "" || o == "." || o == ".." || strings.Contains(o, "/") {
			continue
		}
		for _, a := range []string{s.l.App, appSeg, appAlt, appLate} {
			if !live(a, o) {
				f := pick(r, "index.m3u8", "index.mpd", pathEsc(o)+"-0.ts", n+"-0.ts", pathEsc(o)+"-init.mp4", n+"-init.mp4", n+"-0.m4s")
				l = append(l, host+"/"+a+"/"+pathEsc(o)+"/"+f, flv+"/"+a+"/"+pathEsc(o)+".flv")
			}
		}
	}
	// segments of others
	for _, x := range shows {
		if x != s && x.l.Name != s.l.Name {
			o := pathEsc(x.l.Name)
			for _, g := range []string{"-0.ts", "-1.ts", "-init.mp4", "-0.m4s"} {
				if f := x.l.Name + g; !strings.HasPrefix(f, s.l.Name+"-") {
					l = append(l, b+o+g)
				}
			}
		}
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	if len(l) > 20 {
		l = l[:20]
	}
	for _, u := range l {
		report(c, w.refused("GET", u))
	}
	c.Count("refused", len(l))
	// methods
	us := []string{b + "index.m3u8", b + "index.mpd", b + n + "-0.ts", b + n + "-init.mp4", flv + "/" + app + "/" + n + ".flv"}
	for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "TRACE", "PROPFIND", "get"} {
		report(c, w.refused(m, us[r.Intn(len(us))]))
	}
	a, err := w.do("OPTIONS", us[r.Intn(len(us))])
	report(c, err)
	if a.code/100 != 2 || a.h.Get("Access-Control-Allow-Origin") != "*" || !strings.Contains(a.h.Get("Access-Control-Allow-Methods"), "GET") || len(a.body) > 0 {
		c.Fail("options", "OPTIONS: status %d, %v", a.code, a.h)
	}
	if x, err := w.do("HEAD", flv+"/"+app+"/"+n+".flv"); err != nil || x.code != 200 || x.h.Get("Content-Type") != "video/x-flv" {
		report(c, err)
		c.Fail("head-flv", "HEAD of %s.flv: status %d, %v", s, x.code, x.h)
	}
}

// crowd sends the first requests for a stream that is segmented on demand.
func crowd(c *vh.C, e *Env, w *web, s *hshow) {
	r := c.R
	n := 1 + r.Intn(12)
	c.Trace("%s: %d first requests after GOP %d", s, n, s.keyed)
	ps := make([]*poller, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	delay := make([]time.Duration, n)
	for i := range ps {
		ps[i] = newPoller(w, r, e.HLS, s.l, "")
		ps[i].up = true // no 404 for it
		if r.Intn(3) == 0 {
			delay[i] = time.Duration(r.Intn(4000)) * time.Microsecond
		}
	}
	gate := make(chan struct{})
	for i := range ps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			time.Sleep(delay[i])
			errs[i] = ps[i].hls()
		}(i)
	}
	close(gate)
	time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	wait := func(d time.Duration) bool {
		select {
		case <-done:
			return true
		case <-time.After(d):
			return false
		}
	}
	// the requests may come to the server after what is published now
	for !wait(c.D(300*time.Millisecond)) && s.keyed < len(s.gops) {
		if err := s.step(); err != nil {
			c.Fail("publisher-dropped", "publishing %s: %v", s, err)
		}
	}
	if !wait(c.D(15 * time.Second)) {
		if s.keyed >= len(s.gops) {
			// nothing left to complete a segment with
			c.Count("crowds_without_segment", 1)
			s.end("close")
			wg.Wait()
			return
		}
		c.FailTimed("delayed", "%d first requests for %s get no answer", n, s)
	}
	bodies := map[string][]byte{}
	for i := range ps {
		report(c, errs[i])
		for _, g := range ps[i].segs {
			if o := bodies[g.uri]; o != nil && !bytes.Equal(o, g.body) {
				c.Fail("two-segmenters", "%s differs between players", g.uri)
			}
			bodies[g.uri] = g.body
		}
	}
	var dirs []string
	for k, l := range files(e.Dir + "/app-" + s.l.App) {
		if k == s.l.Name+"-0.ts" {
			dirs = append(dirs, l...)
		}
	}
	if len(dirs) > 1 {
		c.Fail("two-segmenters", "%d first requests for %s: segment 0 was written %d times: %v", n, s, len(dirs), dirs)
	}
	c.Count("crowds", 1)
	c.Count("crowd_requests", n)
}

// endWhileWaiting ends a stream while first requests wait for its segments.
func endWhileWaiting(c *vh.C, e *Env, w *web, s *hshow) {
	r := c.R
	n := 1 + r.Intn(6)
	var wg sync.WaitGroup
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		p := newPoller(w, r, e.HLS, s.l, "")
		go func(i int) {
			defer wg.Done()
			_, errs[i] = p.playlist("GET", "")
		}(i)
	}
	time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
	s.end(pubEnds[r.Intn(len(pubEnds))])
	if !vh.Within(c.D(12*time.Second), wg.Wait) {
		c.FailTimed("waits-forever", "the requests that waited for %s are not answered after its end", s)
	}
	for _, err := range errs {
		report(c, err)
	}
	c.Count("ends_while_waiting", 1)
}
