package net

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"vharness/media"
	"vharness/ref/rtmp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C04", Quick: 250, Thorough: 1500, Setup: setupPlain, Technique: tech,
		Rule:      "viewers of every protocol join at random times and read fast, slowly or with pauses while far more is published than the cache holds; every log must be in order, without duplicates, with gaps of whole GOPs only, complete for those that keep up, and reach the end",
		LevelNote: "exploration: seeded join times, pauses and reading rates over loopback TCP and UDP",
		Run:       runC04})
	vh.Register(&vh.Check{ID: "C05", Quick: 1200, Thorough: 3000, Setup: setupPlain, Technique: tech,
		Rule:      "viewers of every protocol join between the messages of publications with every combination of tracks, late and changing headers; each must get what is published so far from a keyframe on without waiting for more, every frame under the headers in force",
		LevelNote: "exploration: seeded track combinations and join positions over loopback",
		Run:       runC05})
	vh.Register(&vh.Check{ID: "C06", Quick: 60, Thorough: 400, Workers: 4, Setup: setupPlain, Technique: tech,
		Rule:      "viewers that stop reading, read slowly or vanish beside fast ones while tens of MB are published; the publisher must never be held up, fast viewers get everything in lock-step, heap growth stays below a bound",
		LevelNote: "exploration: seeded mixtures of stalled and fast viewers; heap measured after garbage collection",
		Run:       runC06})
}

func runC04(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(appLive, e.Name(c))
	big := r.Intn(2) == 0
	o := media.Opt{Video: true, Audio: r.Intn(4) > 0, Start: startTS(r), Meta: r.Intn(3) > 0, CTS: r.Intn(2) == 0, HEVC: r.Intn(5) == 0,
		GOP: pick(r, 5, 20, 60), MaxSize: 1500, Inband: r.Intn(2) == 0, Change: r.Intn(3) == 0}
	n := 250 + r.Intn(200)
	if big {
		n, o.MaxSize = 1300+r.Intn(600), 3000
	}
	giant := r.Intn(40) == 7 // a group of pictures beyond all bounds
	zoo := !big && !giant && r.Intn(3) == 0
	protos := []string{"rtmp", "flv", "ws", "rtsp", "rtsp-udp"}
	if giant {
		n = 145000 + r.Intn(5000)
		o.GOP, o.MaxSize, o.Change, o.Audio, o.PlainAVC = n-10-r.Intn(10), 400, false, r.Intn(8) == 0, true
		protos = protos[:4]
		c.Count("giant_gops", 1)
	}
	if zoo {
		protos = tagProtos
	}
	var fs []*media.Frame
	var desc string
	if zoo {
		fs, desc = Zoo(r, n, o.Start)
	} else {
		fs, desc = genFrames(c, n, false, o)
	}
	c.Trace("%s frames %d", desc, len(fs))
	p := MustPublish(c, e.RTMP, l, Plain())
	defer p.Close()
	k := firstKey(fs)
	feed(c, p, fs[:k+1], len(fs))
	var fast, slow []*View
	defer func() {
		for _, v := range append(fast, slow...) {
			v.Close(false)
		}
	}()
	rest := fs[k+1:]
	nv := 2 + r.Intn(5)
	if giant {
		nv = 2 + r.Intn(2)
	}
	paused := map[*View]bool{}
	join := func() {
		w := randViewer(r, protos...)
		isSlow := r.Intn(2) == 0 && w.Proto != "rtsp-udp"
		if isSlow {
			w.Rcv = smallRcv
		}
		v := e.MustView(c, l, w)
		c.Trace("frame %d: %s viewer, slow %v", len(l.Frames()), w.Proto, isSlow)
		if isSlow {
			if !giant && r.Intn(2) == 0 {
				v.Slow(time.Duration(1+r.Intn(4)) * time.Millisecond)
			} else {
				v.Pause()
				paused[v] = true
			}
			slow = append(slow, v)
		} else {
			fast = append(fast, v)
		}
	}
	join()
	for (giant || c.Idx == 0) && len(fast)+len(slow) < nv { // later there is no keyframe to start with
		join()
	}
	if c.Idx == 0 { // nothing to send for a while is no reason to end
		time.Sleep(31 * time.Second)
		c.Count("quiet_streams", 1)
	}
	for len(rest) > 0 {
		m := 1 + r.Intn(1+len(rest)/2)
		if len(fast) < 6 && len(fast)+len(slow) < nv {
			join()
		}
		batch := 10 + r.Intn(40)
		if giant {
			batch = 400
		}
		feed(c, p, rest[:m], batch, fast...)
		rest = rest[m:]
		for v := range paused {
			if giant && len(rest) < n/5 || r.Intn(4) == 0 && !giant {
				c.Trace("frame %d: %s viewer resumes at %d", len(l.Frames()), v.Proto, v.Last())
				v.Resume()
				v.Slow(0)
				delete(paused, v)
				for last := -1; giant && last < v.Last(); { // reads what is left of its run
					last = v.Last()
					time.Sleep(100 * time.Millisecond)
				}
			}
		}
	}
	for v := range paused {
		v.Resume()
	}
	for _, v := range slow {
		v.Slow(0)
	}
	l.Sync(c, "after the last frame", append(fast, slow...)...)
	p.Close()
	awaitEnd(c, append(fast, slow...)...)
	for _, v := range fast {
		checkRun(c, v, RunOpt{From: -1, Complete: true, ToEnd: true})
		c.Count("fast_viewers:"+v.Proto, 1)
	}
	for _, v := range slow {
		checkRun(c, v, RunOpt{From: -1, ToEnd: true})
		c.Count("slow_viewers:"+v.Proto, 1)
		prev, gaps := -1, 0
		for _, it := range v.Items() {
			if coded(l.frame(it.Idx)) {
				if prev >= 0 && it.Idx > prev+20 {
					gaps++
				}
				prev = it.Idx
			}
		}
		c.Count("gaps", gaps)
	}
	c.Nontrivial("%d %s", c.Idx, desc)
}

func runC05(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(appLive, e.Name(c))
	o := media.Opt{Start: startTS(r), Meta: r.Intn(2) == 0, CTS: r.Intn(2) == 0, HEVC: r.Intn(5) == 0, GOP: pick(r, 0, 4, 15), MaxSize: pick(r, 200, 3000), Change: r.Intn(2) == 0, Inband: r.Intn(3) == 0, AudioGaps: r.Intn(4) == 0}
	zoo := r.Intn(4) == 0
	fs, desc := genFrames(c, 40+r.Intn(80), zoo, o)
	zoo = len(desc) > 3 && desc[:3] == "zoo"
	// a header that comes late
	if !zoo && r.Intn(3) == 0 {
		for i, f := range fs {
			if f.Hdr && f.Kind == 8 {
				j := i
				for k := 10 + r.Intn(20); k > 0 && j+1 < len(fs) && !(fs[j+1].Hdr && fs[j+1].Kind == 8); k-- {
					j++
				}
				var out []*media.Frame
				for k, g := range fs {
					if k != i && (k < i || k > j || g.Kind != 8) {
						out = append(out, g) // audio starts after its header
					}
					if k == j {
						h := *f
						h.TS = g.TS
						out = append(out, &h)
					}
				}
				fs = out
				break
			}
		}
	}
	c.Trace("%s", desc)
	p := MustPublish(c, e.RTMP, l, Plain())
	defer p.Close()
	var vs []*View
	var at []int
	defer func() {
		for _, v := range vs {
			v.Close(false)
		}
	}()
	njoin := 4 + r.Intn(5)
	pos := 0
	hasVideo := false
	for _, f := range fs {
		hasVideo = hasVideo || f.Kind == 9 && coded(f)
	}
	for i := 0; i <= njoin; i++ {
		next := len(fs)
		if i < njoin {
			next = pos + r.Intn(1+2*(len(fs)-pos)/(njoin-i+1))
			if i == 0 && r.Intn(2) == 0 {
				next = 0
			}
			if next > len(fs) {
				next = len(fs)
			}
		}
		feed(c, p, fs[pos:next], 8+r.Intn(20), vs...)
		pos = next
		if i == njoin {
			break
		}
		protos := []string{"rtmp", "flv", "ws", "rtsp", "rtsp-udp"}
		if zoo {
			protos = tagProtos
		}
		w := randViewer(r, protos...)
		// RTSP needs the headers of what it is to carry
		all := true
		for _, f := range fs[pos:] {
			if f.Hdr && f.Kind != 18 && firstOf(fs, f) {
				all = false
			}
		}
		if w.SCed() && (!all || pos == 0) {
			w.Proto = pick(r, tagProtos...)
		}
		if w.SCed() && r.Intn(3) == 0 {
			ks := kinds(fs)
			if ks[8] && ks[9] {
				w.RTSP.NoVideo = r.Intn(2) == 0
				w.RTSP.NoAudio = !w.RTSP.NoVideo
			}
		}
		v := e.MustView(c, l, w)
		c.Trace("frame %d: %s viewer %+v", pos, w.Proto, w.RTSP)
		vs = append(vs, v)
		at = append(at, pos)
		// what is there already must come without more being published
		if hasVideo && !v.NoVideo {
			key := -1
			for j, f := range fs[:pos] {
				if f.Kind == 9 && f.Key && coded(f) {
					key = j
				}
			}
			if key >= 0 {
				l.Sync(c, fmt.Sprintf("joined at %d, newest keyframe %d, nothing more published", pos, key), v)
				c.Count("prompt_joins:"+v.Proto, 1)
			}
		}
	}
	p.Close()
	awaitEnd(c, vs...)
	for i, v := range vs {
		// whoever joined when there was something to come must have got it
		must := false
		for _, f := range fs[at[i]:] {
			if coded(f) && (!hasVideo || f.Kind == 9 && f.Key) && !(v.NoVideo && f.Kind == 9) && !(v.NoAudio && f.Kind == 8) {
				must = true
			}
		}
		if v.NoVideo {
			must = must && l.lastWanted(v) > l.newestKey()
		}
		checkRun(c, v, RunOpt{From: -1, Complete: true, ToEnd: must, MustMedia: must})
		c.Count("joins:"+v.Proto, 1)
	}
	c.Nontrivial("%d %s", c.Idx, desc)
}

// SCed tells RTSP viewers.
func (w Viewer) SCed() bool { return w.Proto == "rtsp" || w.Proto == "rtsp-udp" }

// firstOf: f is the first header of its kind.
func firstOf(fs []*media.Frame, f *media.Frame) bool {
	for _, g := range fs {
		if g.Hdr && g.Kind == f.Kind {
			return g == f
		}
	}
	return false
}

func kinds(fs []*media.Frame) map[byte]bool {
	m := map[byte]bool{}
	for _, f := range fs {
		if coded(f) {
			m[f.Kind] = true
		}
	}
	return m
}

func heap() int {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

func runC06(c *vh.C) {
	if c.Idx%3 == 2 {
		runC06Memory(c)
		return
	}
	e := env(c)
	r := c.R
	l := NewLive(appLive, e.Name(c))
	o := media.Opt{Video: true, Audio: r.Intn(4) > 0, Start: startTS(r), Meta: true, GOP: pick(r, 5, 20, 60, 1000), MaxSize: 2500}
	fs, desc := genFrames(c, 1500+r.Intn(800), false, o)
	p := MustPublish(c, e.RTMP, l, Plain())
	defer p.Close()
	// a second stream beside it
	l2 := NewLive(pick(r, appLive, appTwo), e.Name(c))
	fs2, _ := genFrames(c, 200, false, media.Opt{Video: true, Audio: true, MaxSize: 500, GOP: 10})
	p2 := MustPublish(c, e.RTMP, l2, Plain())
	defer p2.Close()
	k := firstKey(fs)
	feed(c, p, fs[:k+1], len(fs))
	feed(c, p2, fs2[:20], 20)
	protos := []string{"rtmp", "flv", "ws", "rtsp", "rtsp-udp"}
	var fast, all []*View
	defer func() {
		for _, v := range all {
			v.Close(false)
		}
	}()
	for i := 0; i < 2+r.Intn(2); i++ {
		w := randViewer(r, protos...)
		v := e.MustView(c, l, w)
		fast = append(fast, v)
		all = append(all, v)
	}
	v2 := e.MustView(c, l2, randViewer(r, protos...))
	all = append(all, v2)
	var stalled []*View
	for i := 0; i < 2+r.Intn(4); i++ {
		w := randViewer(r, "rtmp", "flv", "ws", "rtsp")
		w.Rcv = smallRcv
		v := e.MustView(c, l, w)
		switch r.Intn(3) {
		case 0:
			v.Slow(time.Duration(2+r.Intn(10)) * time.Millisecond)
		default:
			v.Pause()
		}
		c.Trace("stalled %s viewer", w.Proto)
		stalled = append(stalled, v)
		all = append(all, v)
	}
	rest, rest2 := fs[k+1:], fs2[20:]
	t0 := time.Now()
	var worst time.Duration
	for len(rest) > 0 {
		m := 40 + r.Intn(60)
		if m > len(rest) {
			m = len(rest)
		}
		t := time.Now()
		feed(c, p, rest[:m], 50, fast...)
		rest = rest[m:]
		if d := time.Since(t); d > worst {
			worst = d
		}
		if m := 8; len(rest2) > m {
			feed(c, p2, rest2[:m], m, v2)
			rest2 = rest2[m:]
		}
		if r.Intn(12) == 0 && len(stalled) > 1 {
			i := r.Intn(len(stalled))
			stalled[i].Close(r.Intn(2) == 0)
			stalled = append(stalled[:i], stalled[i+1:]...)
		}
	}
	feed(c, p2, rest2, 50, v2)
	// a session that answers proves the publisher's reader is not blocked
	p.Barrier(c)
	if d := time.Since(t0); d > c.D(40*time.Second) {
		c.FailTimed("publisher-slow", "publishing took %v", d)
	}
	behind := 0
	for _, v := range stalled {
		if v.Last() < len(fs)/2 {
			behind++
		}
	}
	c.Count("stalled_viewers", len(stalled))
	c.Count("stalled_viewers_far_behind", behind)
	c.Count("max_batch_ms", int(worst/time.Millisecond))
	// those still there catch up
	for _, v := range stalled {
		v.Slow(0)
		select {
		case <-v.gate:
		default:
			v.Resume()
		}
	}
	l.Sync(c, "after resuming", stalled...)
	p.Close()
	p2.Close()
	awaitEnd(c, append(append([]*View{v2}, fast...), stalled...)...)
	for _, v := range append([]*View{v2}, fast...) {
		checkRun(c, v, RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: true})
	}
	for _, v := range stalled {
		checkRun(c, v, RunOpt{From: -1, ToEnd: true})
	}
	c.Nontrivial("%d %s", c.Idx, desc)
}

// runC06Memory publishes much more than may be kept beside stalled viewers and
// weighs the heap.
func runC06Memory(c *vh.C) {
	e := env(c)
	r := c.R
	base := heap()
	name := e.Name(c)
	l := NewLive(appLive, name)
	p := MustPublish(c, e.RTMP, l, Plain())
	defer p.Close()
	size := pick(r, 2000, 10000, 40000)
	gop := 2 + (2<<20)/size/(1+r.Intn(4))
	if gop > 200 {
		gop = 200
	}
	filler := make([]byte, size)
	r.Read(filler)
	var sent, seen int64
	frame := func(i int) *rtmp.Msg {
		b := append([]byte{}, filler...)
		b[0] = 0x22 // Sorenson, inter
		if i%gop == 0 {
			b[0] = 0x12
		}
		b[1], b[2], b[3], b[4] = byte(i>>24), byte(i>>16), byte(i>>8), byte(i)
		return &rtmp.Msg{CSID: 6, Type: 9, TS: uint32(i), MSID: 1, Body: b}
	}
	var bad atomic.Value
	// a fast player which only counts
	fast, err := DialRTMP(e.RTMP, appLive, r)
	if err != nil {
		c.FailTimed("view", "%v", err)
	}
	defer fast.Close()
	if err := p.SendMsg(frame(0), 0); err != nil {
		c.Fail("publisher-dropped", "%v", err)
	}
	if err := fast.Play(name, dialT); err != nil {
		c.FailTimed("view", "%v", err)
	}
	go func() {
		i, next := 0, -1
		for {
			m, k, err := fast.Wait(i, time.Hour, func(m *rtmp.Msg) bool { return true })
			if err != nil {
				return
			}
			i = k + 1
			if i > 2000 { // forget
				i -= fast.Forget(i)
			}
			if m.Type != 9 {
				continue
			}
			n := int(m.Body[1])<<24 | int(m.Body[2])<<16 | int(m.Body[3])<<8 | int(m.Body[4])
			if next >= 0 && n != next || len(m.Body) != size {
				bad.CompareAndSwap(nil, fmt.Sprintf("frame %d after %d", n, next-1))
			}
			next = n + 1
			atomic.StoreInt64(&seen, int64(n))
		}
	}()
	var stalled []*View
	for i := 0; i < 3+r.Intn(4); i++ {
		w := randViewer(r, tagProtos...)
		w.Rcv = smallRcv
		lv := NewLive(appLive, name) // its log is not read
		v := e.MustView(c, lv, w)
		v.Pause()
		stalled = append(stalled, v)
	}
	defer func() {
		for _, v := range stalled {
			v.Close(true)
		}
	}()
	total := 120 << 20 / size
	if total > 25000 {
		total = 25000
	}
	for i := 1; i < total; i++ {
		if err := p.SendMsg(frame(i), 1); err != nil {
			c.Fail("publisher-dropped", "%v", err)
		}
		sent = int64(i)
		if i%40 == 0 || i*size%(1<<20) < size {
			if !c.Eventually(15*time.Second, func() bool { return atomic.LoadInt64(&seen) >= sent }) {
				c.FailTimed("stalled:rtmp", "fast viewer stands at %d of %d beside stalled ones", atomic.LoadInt64(&seen), sent)
			}
		}
	}
	c.Eventually(15*time.Second, func() bool { return atomic.LoadInt64(&seen) >= sent })
	if b := bad.Load(); b != nil {
		c.Fail("run:rtmp", "fast viewer: %v", b)
	}
	fast.Forget(fast.Len())
	grown := heap() - base
	// the cache holds two GOPs at least, 8 MB at most beyond; every viewer may
	// hold what it is just sending
	bound := (2*gop*size + 8<<20 + len(stalled)*(2<<20) + 8<<20)
	c.Count("max_heap_growth_kB", grown>>10)
	c.Count("published_MB_beside_stalled", total*size>>20)
	if grown > bound {
		c.Fail("memory-kept", "%d stalled viewers, %d frames of %d bytes in GOPs of %d published (%d MB): the heap grew by %d MB, more than %d MB", len(stalled), total, size, gop, total*size>>20, grown>>20, bound>>20)
	}
	c.Nontrivial("mem %d %d %d", c.Idx, size, gop)
}
