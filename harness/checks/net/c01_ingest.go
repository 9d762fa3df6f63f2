package net

import (
	"math/rand"
	"time"

	"vharness/media"
	"vharness/ref/h26x"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C01", Quick: 1500, Thorough: 6000, Setup: setupPlain, Technique: tech,
		Rule:        "one publication whose messages are chunked by an independent writer with random header formats, chunk sizes, interleaving, aborts, aggregates and segmentation; an RTMP and an FLV viewer's logs must equal the completed messages",
		Assumptions: []string{"no type 3 chunk begins a message after a type 0 chunk (specification and practice disagree about its delta)", "no empty audio or video messages"},
		LevelNote:   "exploration: seeded random message sequences and chunkings over loopback TCP",
		Run:         runC01})
}

func runC01(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(appLive, e.Name(c))
	s := RandStyle(r)
	o := media.Opt{Start: startTS(r), Meta: r.Intn(4) > 0, CTS: r.Intn(2) == 0, HEVC: r.Intn(5) == 0, Change: r.Intn(2) == 0, GOP: pick(r, 0, 0, 5), MaxSize: pick(r, 30, 1500, 9000)}
	fs, desc := genFrames(c, 40+r.Intn(120), true, o)
	for i := 0; i < 3; i++ { // metadata and data messages anywhere
		k := r.Intn(len(fs))
		m := Meta(r, fs[k].TS, uint64(c.Idx*10+i))
		fs = append(fs[:k:k], append([]*media.Frame{m}, fs[k:]...)...)
	}
	jumps := 0
	if r.Intn(3) == 0 {
		for n := 1 + r.Intn(3); n > 0; n-- {
			jumps += jump(r, fs)
		}
	}
	c.Trace("%s style %v jumps %d", desc, s, jumps)
	p := MustPublish(c, e.RTMP, l, s)
	defer p.Close()
	va := try[*View](c, "viewing over RTMP")(ViewRTMP(e.RTMP, r, l))
	defer va.Close(false)
	vb := try[*View](c, "viewing over FLV")(ViewFLV(e.FLV, l))
	defer vb.Close(false)
	k := firstKey(fs)
	feed(c, p, fs[:k+1], len(fs), va, vb)
	feed(c, p, fs[k+1:], 20+r.Intn(60), va, vb)
	fk := -1
	for i, f := range l.Frames() {
		if f == fs[k] {
			fk = i
		}
	}
	p.Close()
	awaitEnd(c, va, vb)
	for _, v := range []*View{va, vb} {
		checkRun(c, v, RunOpt{From: fk, Complete: true, ToEnd: true, MustMedia: true})
		if err := inline(v, fk); err != nil {
			c.Fail("inline:"+v.Proto, "%s: %v", v, err)
		}
	}
	c.Count("chunks", p.NChunks)
	c.Count("aborts", p.NAborts)
	c.Count("aggregates", p.NAggr)
	c.Count("chunk_size_changes", p.NSizes)
	c.Count("max_partial_messages", p.MaxParts)
	c.Count("frames", len(fs))
	c.Count("time_jumps", jumps)
	c.Nontrivial("%v %d %s", s, c.Idx, desc)
	_ = time.Now
}

// jump moves everything behind a frame by a time that needs an extended delta,
// and makes the frame as long as the one of its track before it: only the delta
// is new then.
func jump(r *rand.Rand, fs []*media.Frame) int {
	for try := 0; try < 20; try++ {
		k := r.Intn(len(fs))
		j := k + 1
		for j < len(fs) && fs[j].Kind != fs[k].Kind {
			j++
		}
		if j == len(fs) || fs[k].Hdr || fs[j].Hdr || fs[k].Kind == 18 {
			continue
		}
		for _, p := range [][2]*media.Frame{{fs[k], fs[j]}, {fs[j], fs[k]}} {
			if n := len(p[1].Body) - len(p[0].Body); n > 0 {
				p[0].Body = append(p[0].Body[:len(p[0].Body):len(p[0].Body)], h26x.Fill(r, n)...)
			}
		}
		d := pick(r, 0xfffffe, 0xffffff, 0x1000000, 0xffffff+uint32(r.Intn(1<<30)), 0x7ffffff0)
		if d0 := fs[j].TS - fs[k].TS; d >= d0 && d-d0 < 1<<31 {
			d -= d0 // this is the delta exactly
		}
		for _, f := range fs[j:] {
			f.TS += d
		}
		return 1
	}
	return 0
}

// inline requires that after the first coded frame every message, metadata
// and headers included, arrived exactly once in the published order.
func inline(v *View, fk int) error {
	fr := v.Live.Frames()
	items := v.Items()
	i := 0
	for i < len(items) && !(items[i].Idx >= fk && coded(fr[items[i].Idx])) {
		i++
	}
	if i == len(items) {
		return errf("frame %d never arrived", fk)
	}
	want := items[i].Idx
	for ; i < len(items); i++ {
		if items[i].Idx != want && !sameFrame(fr[items[i].Idx], fr[want]) {
			return errf("item %d is message %d %v, next published is %d %v", i, items[i].Idx, fr[items[i].Idx], want, fr[want])
		}
		want++
	}
	if want != len(fr) {
		return errf("%d messages published, only the first %d arrived", len(fr), want)
	}
	return nil
}
