package lib

import (
	"bytes"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libdash"
	"github.com/sbraveyoung/GGmpeg/libflv"

	"vharness/media"
	"vharness/ref/h26x"
	"vharness/ref/mp4"
	"vharness/ref/mpd"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C24", Quick: 2000, Thorough: 40000, Run: runC24,
		Rule:      "each case: a generated stream (H.264 or H.265, any GOP and frame length, composition offsets, start times up to the 32-bit wrap, changed configurations, any stream name, SPS with scaling lists, cropping, interlacing, POC cycles, sub-layers and all chroma formats) fed tag by tag to the real segmenter, with manifest, init segment and directory inspected between any two tags; or hostile configuration records; distinct by manifest",
		Technique: "conservation oracle over segment files of real executions read by an independent MP4 parser, and an online monitor of the manifest against them",
		LevelNote: "held on the streams tried; timestamps increase but for jitter and restarts of the clock"})
}

type mpdSeg = mpd.Seg

type manifest = mpd.Manifest

func codecOf(in *mp4.Init) string {
	c := in.Config
	if in.ConfigBox == "avcC" {
		return fmt.Sprintf("%s.%02X%02X%02X", in.Entry, c[1], c[2], c[3])
	}
	s := in.Entry + "." + []string{"", "A", "B", "C"}[c[1]>>6] + strconv.Itoa(int(c[1]&31))
	s += fmt.Sprintf(".%X", bits.Reverse32(uint32(c[2])<<24|uint32(c[3])<<16|uint32(c[4])<<8|uint32(c[5])))
	s += fmt.Sprintf(".%c%d", "LH"[c[1]>>5&1], c[12])
	k := c[6:12]
	for len(k) > 0 && k[len(k)-1] == 0 {
		k = k[:len(k)-1]
	}
	for _, x := range k {
		s += fmt.Sprintf(".%X", x)
	}
	return s
}

var oddNames = []string{"st", "a b", "x?token=1&k=<v>", "#1", "50%", "50%25", "a:b", "mailto:x", "$Number$", "q\"'", "中文", "a;b,c", "~", "-0", "a+b", "x&amp;y", "$$"}

type dashRun struct {
	c       *vh.C
	st      *media.Stream
	dir     string
	name    string
	d       *libdash.DASH
	seg     map[int]mpdSeg
	data    map[int][]byte
	conf    map[int][]byte // configuration offered when it was listed first
	last    *manifest
	maxNum  int
	states  int
	dims    map[string][2]int     // record -> true dimensions
	restart map[*media.Frame]bool // the publisher's clock starts anew here
	jitter  map[*media.Frame]bool // its time lies before that of its predecessor
}

func (h *dashRun) observe(i int) {
	c := h.c
	h.states++
	b := h.d.Manifest()
	is := h.d.InitSegment()
	var in *mp4.Init
	initFile := filepath.Join(h.dir, h.name+"-init.mp4")
	if is != nil {
		var err error
		if in, err = mp4.ParseInit(is); err != nil {
			c.Fail("init", "init segment: %v", err)
		}
		f, err := os.ReadFile(initFile)
		if err != nil || !bytes.Equal(f, is) {
			c.Fail("init-file", "init file differs from the init segment (%v)", err)
		}
	}
	if b == nil {
		if h.last != nil {
			c.Fail("vanished", "the manifest vanished before tag %d", i)
		}
		return
	}
	m, err := mpd.Parse(b)
	if err != nil {
		c.Fail("manifest", "%v\n%s", err, b)
	}
	if in == nil {
		c.Fail("no-init", "manifest without init segment")
	}
	if m.InitFile != h.name+"-init.mp4" {
		c.Fail("init-url", "initialization leads to %q for stream %q\n%s", m.InitFile, h.name, b)
	}
	if m.Scale != uint64(in.MediaScale) || m.Codecs != codecOf(in) || m.W != int(in.W) || m.H != int(in.H) || in.TkW != uint32(in.W)<<16 || in.TkH != uint32(in.H)<<16 {
		c.Fail("manifest-init", "manifest says %d %s %dx%d, init segment %d %s %dx%d\n%s", m.Scale, m.Codecs, m.W, m.H, in.MediaScale, codecOf(in), in.W, in.H, b)
	}
	if wh, ok := h.dims[string(in.Config)]; !ok {
		c.Fail("init-config", "init segment carries a configuration that was not published: %s", hexClip(in.Config))
	} else if wh != [2]int{m.W, m.H} {
		c.Fail("dimensions", "manifest says %dx%d, the parameter sets %dx%d", m.W, m.H, wh[0], wh[1])
	}
	if len(m.Segs) == 0 || len(m.Segs) > 6 {
		c.Fail("window", "%d segments", len(m.Segs))
	}
	if s, ok := h.seg[0]; ok && s.T != m.PTO || !ok && m.Segs[0].Num == 0 && m.Segs[0].T != m.PTO {
		c.Fail("time-offset", "the presentation, available from the start of the stream on, starts at media time %d; the first segment's is %d\n%s", m.PTO, append([]mpdSeg{s}, m.Segs...)[0].T, b)
	}
	listed := map[string]bool{h.name + "-init.mp4": true}
	for k, s := range m.Segs {
		if s.File != fmt.Sprintf("%s-%d.m4s", h.name, s.Num) {
			c.Fail("media-url", "segment %d leads to %q for stream %q", s.Num, s.File, h.name)
		}
		listed[s.File] = true
		data, err := os.ReadFile(filepath.Join(h.dir, s.File))
		if err != nil {
			c.Fail("missing", "available segment %d: %v\n%s", s.Num, err, b)
		}
		if k > 0 && m.Segs[k-1].T+m.Segs[k-1].D != s.T {
			c.Fail("timeline-gap", "segment %d ends at %d, the next starts at %d", k-1, m.Segs[k-1].T+m.Segs[k-1].D, s.T)
		}
		if o, ok := h.seg[s.Num]; ok {
			if o != s || !bytes.Equal(h.data[s.Num], data) {
				c.Fail("changed", "segment %d changed from %+v to %+v", s.Num, o, s)
			}
			if !bytes.Equal(h.conf[s.Num], in.Config) {
				c.Fail("config", "segment %d stays listed with another configuration", s.Num)
			}
			continue
		}
		if s.Num != h.maxNum+1 {
			c.Fail("numbering", "segment %d appears after %d", s.Num, h.maxNum)
		}
		h.maxNum = s.Num
		f, err := mp4.ParseMedia(data)
		if err != nil {
			c.Fail("media", "segment %d: %v", s.Num, err)
		}
		if f.Base != s.T || f.Dur() != s.D {
			c.Fail("timeline", "manifest says segment %d is %d+%d, it is %d+%d", s.Num, s.T, s.D, f.Base, f.Dur())
		}
		if f.TrackID != in.TrackID {
			c.Fail("track", "segment track %d, init track %d", f.TrackID, in.TrackID)
		}
		h.seg[s.Num], h.data[s.Num], h.conf[s.Num] = s, data, in.Config
		c.Nontrivial("%d|%d|%s", c.Idx, s.Num, b)
	}
	if h.last != nil {
		a, z := h.last.Segs[0].Num, m.Segs[0].Num
		if z < a {
			c.Fail("window-back", "startNumber went from %d to %d", a, z)
		}
	}
	ents, _ := os.ReadDir(h.dir)
	extra := 0
	for _, e := range ents {
		if !listed[e.Name()] {
			extra++
		}
	}
	if extra+len(m.Segs) > 7 {
		c.Fail("reap", "%d files beside the %d listed ones", extra, len(m.Segs))
	}
	h.last = m
}

func newDashRun(c *vh.C) *dashRun {
	h := &dashRun{c: c, seg: map[int]mpdSeg{}, data: map[int][]byte{}, conf: map[int][]byte{}, maxNum: -1, dims: map[string][2]int{}}
	o := hlsOpt(c)
	o.Audio = o.Audio && c.R.Intn(2) == 0
	h.st = media.Gen(c.R, o)
	h.name = oddNames[c.R.Intn(len(oddNames))]
	if c.R.Intn(2) == 0 {
		h.name = "st"
	}
	h.dir = filepath.Join(vhScratch(c), fmt.Sprintf("dash-%d", c.Idx))
	// richer parameter sets
	re := map[*media.Conf]bool{}
	for _, f := range h.st.Frames {
		if f.Kind == 9 && f.Conf != nil && !re[f.Conf] {
			re[f.Conf] = true
			if c.R.Intn(2) == 0 {
				h.enrich(f.Conf)
				f.Conf.MarkLen()
			}
			h.dims[string(f.Conf.Record)] = [2]int{f.Conf.W, f.Conf.H}
		}
	}
	for _, f := range h.st.Frames {
		if f.Kind == 9 && f.Hdr && re[f.Conf] {
			f.Body = f.Conf.VideoHeader(f.TS).Body
		}
	}
	h.restart, h.jitter = map[*media.Frame]bool{}, map[*media.Frame]bool{}
	if v, _, _ := (&hlsRun{st: h.st}).vframes(); len(v) > 2 {
		for n := c.R.Intn(4) - 1; n > 0; n-- {
			k := 1 + c.R.Intn(len(v)-1)
			j := v[k]
			if h.restart[j] {
				continue
			}
			back := j.TS - v[k-1].TS + 1500 + uint32(c.R.Int63n(1<<uint(11+c.R.Intn(19))))
			hit := false
			for _, f := range h.st.Frames {
				if hit = hit || f == j; hit {
					f.TS -= back
				}
			}
			h.restart[j] = true
			c.Count("clock_restarts", 1)
		}
		for n := c.R.Intn(5) - 2; n > 0; n-- {
			k := 1 + c.R.Intn(len(v)-1)
			if h.restart[v[k]] || h.jitter[v[k]] || h.jitter[v[k-1]] || k+1 < len(v) && (h.restart[v[k+1]] || h.jitter[v[k+1]]) {
				continue
			}
			if ts := v[k-1].TS - uint32(c.R.Intn(200)); int32(ts-v[k-1].TS) < 0 {
				v[k].TS = ts
				h.jitter[v[k]] = true
				c.Count("frames_back", 1)
			}
		}
	}
	c.Trace("name %q options %+v", h.name, o)
	return h
}

// enrich gives a configuration a rarer SPS syntax.
func (h *dashRun) enrich(cf *media.Conf) {
	r := h.c.R
	chroma := r.Intn(4)
	cf.W, cf.H = 2*(1+r.Intn(2100)), 2*(1+r.Intn(1100))
	if cf.HEVC {
		cf.SPS = [][]byte{h26x.SPS265(r, cf.W, cf.H, 1+r.Intn(7), chroma)}
		for n := r.Intn(4) - 1; n > 0; n-- {
			cf.VPS = append(cf.VPS, cf.VPS[0])
		}
		cf.Record = h26x.HEVCConfig(r, cf.VPS, cf.SPS, cf.PPS)
		// general profile fields of the record
		cf.Record[1] = byte(r.Intn(4))<<6 | byte(r.Intn(2))<<5 | byte(1+r.Intn(8))
		for k := 2; k < 12; k++ {
			cf.Record[k] = byte(r.Intn(256)) * byte(r.Intn(2))
		}
		cf.Record[12] = byte(r.Intn(187))
		return
	}
	o := h26x.SPSOpt{Profile: []byte{66, 77, 88, 100, 110, 122, 244, 44, 83, 86, 118, 128}[r.Intn(12)], Compat: byte(r.Intn(256)), Level: byte(r.Intn(63)), W: cf.W, H: cf.H, Chroma: 1, RefFrames: r.Intn(17), POCType: r.Intn(3), Scaling: r.Intn(2) == 0, Interlaced: r.Intn(3) == 0, PocCycle: r.Intn(20), ID: r.Intn(32)}
	if o.Profile >= 100 || o.Profile == 44 || o.Profile == 83 || o.Profile == 86 {
		o.Chroma = chroma
	}
	if o.Interlaced {
		o.H = (o.H + 3) / 4 * 4
		cf.H = o.H
	}
	cf.SPS = [][]byte{h26x.SPS(r, o)}
	if r.Intn(3) == 0 {
		cf.SPS = append(cf.SPS, h26x.SPS(r, h26x.SPSOpt{Profile: o.Profile, Level: 10, W: 64, H: 64, Chroma: o.Chroma, ID: 31}))
	}
	cf.Record = h26x.AVCConfig(cf.SPS, cf.PPS)
}

func runC24(c *vh.C) {
	r := c.R
	if r.Intn(10) == 0 {
		runC24Hostile(c)
		return
	}
	h := newDashRun(c)
	defer os.RemoveAll(h.dir)
	h.d = libdash.NewDASH().WithStreamID(h.name).WithDir(h.dir)
	rd := &pacedReader{}
	for _, f := range h.st.Frames {
		rd.tags = append(rd.tags, toTag(c, f))
		if r.Intn(40) == 0 {
			b := noise[r.Intn(3)]
			rd.tags = append(rd.tags, toTag(c, &media.Frame{Kind: 9, TS: f.TS, Body: b}))
		}
	}
	stopAt := -1
	if r.Intn(4) == 0 {
		stopAt = r.Intn(len(rd.tags) + 1)
	}
	var wg sync.WaitGroup
	rd.hook = func(i int) {
		if i == stopAt {
			if r.Intn(2) == 0 {
				h.d.Stop()
			} else {
				wg.Add(1)
				go func() { defer wg.Done(); h.d.Stop() }()
			}
		}
		if stopAt < 0 || i < stopAt {
			h.observe(i)
		}
	}
	c.Call("Start", func() {
		if err := h.d.Start(rd); err != nil {
			c.Fail("start", "%v", err)
		}
	})
	wg.Wait()
	if stopAt < 0 {
		h.observe(len(rd.tags) + 1)
	}
	h.d.Stop()
	if !vh.Within(c.D(5*time.Second), h.d.WaitFirstSegment) {
		c.FailTimed("wait-first", "WaitFirstSegment blocks after the end")
	}
	if ents, _ := os.ReadDir(h.dir); len(ents) > 0 {
		c.Fail("left-behind", "%d files left after Stop, first %s", len(ents), ents[0].Name())
	}
	c.Count("tags", len(rd.tags))
	c.Count("states", h.states)
	if stopAt >= 0 {
		c.Count("stops", 1)
		return
	}
	// conservation
	hr := &hlsRun{c: c, st: h.st}
	v, _, _ := hr.vframes()
	base := int64(0)
	if len(v) > 0 {
		base = int64(v[0].TS)
	}
	baseTS := uint32(base)
	at := []uint64{0} // decode times so far
	k := 0
	var prevSeq uint32
	var end uint64
	for n := 0; n < len(h.data); n++ {
		f, err := mp4.ParseMedia(h.data[n])
		if err != nil || len(f.Samples) == 0 {
			c.Fail("media", "segment %d: %v", n, err)
		}
		if n > 0 && f.Seq <= prevSeq {
			c.Fail("sequence", "fragment sequence numbers %d, %d", prevSeq, f.Seq)
		}
		prevSeq = f.Seq
		if !f.Samples[0].Key() {
			c.Fail("seg-start", "segment %d starts with an inter frame", n)
		}
		t := f.Base
		if n > 0 && t != end {
			c.Fail("gap", "segment %d ends at %d, segment %d starts at %d", n-1, end, n, t)
		}
		for i, s := range f.Samples {
			if k >= len(v) {
				c.Fail("count", "segments hold more than the %d frames published", len(v))
			}
			w := v[k]
			if k == 0 && uint32(t) == w.TS && t>>32 <= 1 {
				base = int64(t) // the clock may have wrapped before the first keyframe
			}
			prevT := at[len(at)-1]
			at = append(at, t)
			want := uint64(base + int64(int32(w.TS-baseTS)))
			if h.restart[w] {
				if t < prevT || t > prevT+1000 {
					c.Fail("restart", "the publisher's clock starts anew at frame %d (%d ms): decode time %d after %d", k, w.TS, t, prevT)
				}
				base, baseTS = int64(t), w.TS
			} else if h.jitter[w] {
				if next := want + 2000; t < prevT || t > next {
					c.Fail("jitter", "frame %d at %d ms, before its predecessor, has decode time %d after %d", k, w.TS, t, prevT)
				}
			} else if t != want {
				c.Fail("decode-time", "frame %d (sample %d of segment %d) at %d ms has decode time %d, want %d", k, i, n, w.TS, t, want)
			}
			if s.CTS != int64(w.CTS) {
				c.Fail("cts", "frame %d has composition offset %d, want %d", k, s.CTS, w.CTS)
			}
			if !bytes.Equal(s.Data, w.Body[5:]) {
				c.Fail("data", "frame %d (sample %d of segment %d): %s, want %s", k, i, n, hexClip(s.Data), hexClip(w.Body[5:]))
			}
			if s.Key() != w.Key {
				c.Fail("key", "frame %d key %v has flags %#x", k, w.Key, s.Flags)
			}
			if !bytes.Equal(h.conf[n], w.Conf.Record) {
				c.Fail("config", "frame %d of segment %d was published with another configuration", k, n)
			}
			if i > 0 && w.Key && t-f.Base >= 2000 {
				c.Fail("cut-late", "segment %d goes on past the keyframe %d ms after its start", n, t-f.Base)
			}
			k++
			t += uint64(s.Dur)
		}
		end = t
		if k < len(v) && f.Dur() < 2000 && v[k].Conf == v[k-1].Conf {
			c.Fail("cut-early", "segment %d is cut after %d ms", n, f.Dur())
		}
	}
	if k != len(v) {
		c.Fail("count", "%d video frames in the segments, %d published from the first keyframe on", k, len(v))
	}
	c.Count("frames", k)
	c.Count("segments", len(h.data))
}

// hostile configuration records must neither crash nor hang the segmenter.
func runC24Hostile(c *vh.C) {
	r := c.R
	hevc := r.Intn(2) == 0
	cf := media.NewVideoConf(r, hevc, 7)
	h := &dashRun{c: c}
	for i := 0; i < r.Intn(3); i++ {
		h.enrich(cf)
	}
	rec := append([]byte{}, cf.Record...)
	switch r.Intn(4) {
	case 0:
		rec = rec[:r.Intn(len(rec)+1)]
	case 1:
		rec = randBytes(r, r.Intn(200))
	case 2:
		for k := r.Intn(8); k >= 0; k-- {
			rec[r.Intn(len(rec))] = byte(r.Intn(256))
		}
	case 3: // a POC cycle of billions
		w := &h26x.BitWriter{}
		w.U(8, 66)
		w.U(8, 0)
		w.U(8, 30)
		w.UE(0)
		w.UE(0)
		w.UE(1)
		w.U(1, 0)
		w.UE(0)
		w.UE(0)
		w.UE(uint64(1)<<32 - 2)
		rec = h26x.AVCConfig([][]byte{append([]byte{0x67}, append(w.Bytes(), 0, 0, 0)...)}, [][]byte{{0x68, 1, 2, 3}})
		hevc = false
	}
	dir := filepath.Join(vhScratch(c), fmt.Sprintf("dash-%d", c.Idx))
	defer os.RemoveAll(dir)
	d := libdash.NewDASH().WithStreamID("x").WithDir(dir)
	rd := &pacedReader{hook: func(int) {}}
	add := func(b []byte, ts uint32) {
		t, err := libflv.ParseVideoTag(libflv.TagBase{TagType: 9, TimeStamp: ts, DataSize: uint32(len(b))}, b)
		if err == nil {
			rd.tags = append(rd.tags, t)
		}
	}
	add(media.VideoBody(hevc, true, 0, 0, rec), 0)
	for i := 0; i < 4; i++ {
		add(media.VideoBody(hevc, true, 1, 0, []byte{0, 0, 0, 2, 0x65, 1}), uint32(i)*1500)
	}
	var pan interface{}
	ok := vh.Within(c.D(5*time.Second), func() {
		defer func() { pan = recover() }()
		_ = d.Start(rd)
		d.Manifest()
		d.InitSegment()
		d.Stop()
	})
	if pan != nil {
		c.Fail("panic", "configuration record %x (hevc %v): %v", rec, hevc, pan)
	}
	if !ok {
		c.FailTimed("hang", "configuration record %x (hevc %v) keeps the segmenter busy", rec, hevc)
	}
	c.Count("hostile_records", 1)
	c.Nontrivial("hostile %x", rec)
}
