package lib

import (
	"bytes"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libamf"
	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"

	"vharness/media"
	"vharness/ref/h26x"
	"vharness/ref/m3u8"
	"vharness/ref/ts"
	"vharness/vh"
)

func init() {
	rule := "each case: a generated stream (H.264 or H.265, with or without AAC; GOP lengths, frame rates, jitter, composition offsets, 32-bit start times up to the wrap, in-band or changed configurations, audio gaps) fed tag by tag to the real segmenter, "
	vh.Register(&vh.Check{ID: "C20", Quick: 700, Thorough: 40000, Run: runC20,
		Rule:      rule + "whose segment files are demuxed by the strict independent demuxer and compared frame by frame; distinct by stream",
		Technique: "conservation/ordering oracle over the segment files of real executions, read by an independent TS demuxer",
		LevelNote: "held on the streams tried; audio times within 3 ms because the segmenter smooths them; streams have video; continuity counters may restart per segment"})
	vh.Register(&vh.Check{ID: "C21", Quick: 700, Thorough: 40000, Run: runC21,
		Rule:      rule + "with the playlist and the directory observed between any two tags (the segmenter paused) and sampled concurrently (every fifteenth case: the publisher's clock restarts); distinct by observed playlist",
		Technique: "online monitor of the served playlist and the segment directory in every intermediate state of real executions",
		LevelNote: "held in the states observed; timestamps increase but for the restarts"})
	vh.Register(&vh.Check{ID: "C22", Quick: 500, Thorough: 30000, Run: runC22,
		Rule:      rule + "in low-latency mode, with parts, files and hints checked between any two tags and blocking reloads running concurrently (every twelfth case: clients left waiting when the stream ends, or is stopped, without another part); distinct by observed playlist",
		Technique: "online monitor of parts against file bytes and of blocking reloads against the state they wait for",
		LevelNote: "held in the states observed; the part target applies to steady frame rates below it"})
}

type pacedReader struct {
	tags []libflv.Tag
	i    int
	hook func(i int)
}

func (p *pacedReader) Read() (interface{}, bool) {
	p.hook(p.i)
	if p.i >= len(p.tags) {
		return nil, false
	}
	p.i++
	return p.tags[p.i-1], true
}

func toTag(c *vh.C, f *media.Frame) libflv.Tag {
	b := append([]byte{}, f.Body...)
	tb := libflv.TagBase{TagType: f.Kind, TimeStamp: f.TS, DataSize: uint32(len(b))}
	var t libflv.Tag
	var err error
	switch f.Kind {
	case 8:
		t, err = libflv.ParseAudioTag(tb, b)
	case 9:
		t, err = libflv.ParseVideoTag(tb, b)
	default:
		t, err = libflv.ParseMetaTag(tb, libamf.AMF0, b)
	}
	if err != nil {
		c.Fail("parse", "tag %v refused: %v", f, err)
	}
	return t
}

func hlsOpt(c *vh.C) media.Opt {
	r := c.R
	o := media.Opt{Video: true, Audio: r.Intn(4) > 0, HEVC: r.Intn(3) == 0, Meta: r.Intn(2) == 0, Frames: 20 + r.Intn(250), CTS: r.Intn(2) == 0, Jitter: r.Intn(3) == 0,
		Inband: r.Intn(3) == 0, Change: r.Intn(3) == 0, AudioGaps: r.Intn(3) == 0, ID: uint64(c.Idx) << 20, Rate: -1, MaxSize: 200, FirstKeyDelayed: r.Intn(4) == 0}
	switch r.Intn(6) {
	case 0:
		o.Start = 0xffffffff - uint32(r.Intn(4000))
	case 1:
		o.Start = 47721858 - uint32(r.Intn(4000)) // 2^32/90
	case 2:
		o.Start = 95443717 - uint32(r.Intn(4000)) // 2^33/90
	case 3:
		o.Start = r.Uint32()
	case 4:
		o.Start = uint32(r.Intn(100000))
	}
	if r.Intn(8) == 0 {
		o.FrameMs = []float64{100, 125, 200, 250, 300}[r.Intn(5)]
	}
	if r.Intn(12) == 0 {
		o.FrameMs, o.Frames = 1000, 5+r.Intn(25)
	}
	if r.Intn(10) == 0 {
		o.Frames = 1 + r.Intn(3)
	}
	return o
}

type hlsRun struct {
	c      *vh.C
	st     *media.Stream
	frames []*media.Frame // what is fed, noise included
	dir    string
	h      *libhls.HLS
	ll     bool
	name   string
	seg    map[int][]byte // file contents by sequence number
	info   map[int]m3u8.Segment
	last   *m3u8.Playlist
	every  func(i int, pl *m3u8.Playlist)
	states int
}

var noise = [][]byte{{0x17, 2, 0, 0, 0}, {0x27, 2, 0, 0, 0}, {0x22, 1, 2, 3}, {0x57, 0}, {0x27}}

func newHLSRun(c *vh.C, ll bool) *hlsRun {
	o := hlsOpt(c)
	if ll && c.R.Intn(2) == 0 {
		o.Jitter = false
	}
	h := &hlsRun{c: c, ll: ll, seg: map[int][]byte{}, info: map[int]m3u8.Segment{}}
	h.st = media.Gen(c.R, o)
	for _, f := range h.st.Frames {
		h.frames = append(h.frames, f)
		if c.R.Intn(40) == 0 {
			b := noise[c.R.Intn(3)]
			h.frames = append(h.frames, &media.Frame{Kind: 9, TS: f.TS, Hdr: true, Body: b})
		}
		if c.R.Intn(60) == 0 {
			h.frames = append(h.frames, &media.Frame{Kind: 8, TS: f.TS, Hdr: true, Body: []byte{0x2f, 1, 2, 3, 4}})
		}
	}
	h.dir = filepath.Join(vhScratch(c), fmt.Sprintf("hls-%d", c.Idx))
	h.name = "st"
	if c.R.Intn(2) == 0 {
		h.name = oddNames[c.R.Intn(len(oddNames))]
	}
	c.Trace("name %q options %+v", h.name, o)
	return h
}

func vhScratch(c *vh.C) string {
	d, _ := os.Getwd()
	return d
}

func (h *hlsRun) run(concurrent bool) {
	c := h.c
	defer os.RemoveAll(h.dir)
	h.h = libhls.NewHls().WithStreamID(h.name).WithDir(h.dir).WithLowLatency(h.ll)
	rd := &pacedReader{}
	for _, f := range h.frames {
		rd.tags = append(rd.tags, toTag(c, f))
	}
	rd.hook = func(i int) { h.observe(i) }
	stop := make(chan struct{})
	var wg sync.WaitGroup
	bad, samples := "", 0
	if concurrent {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lastSeq := 0
			for {
				select {
				case <-stop:
					return
				default:
				}
				if b := h.h.Playlist(); b != nil {
					pl, err := m3u8.Parse(b)
					if err != nil {
						bad = fmt.Sprintf("malformed playlist: %v\n%s", err, b)
						return
					}
					if pl.MediaSeq < lastSeq {
						bad = fmt.Sprintf("media sequence went back from %d to %d", lastSeq, pl.MediaSeq)
						return
					}
					lastSeq = pl.MediaSeq
					samples++
				}
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	c.Call("Start", func() {
		if err := h.h.Start(rd); err != nil {
			c.Fail("start", "Start: %v", err)
		}
	})
	h.observe(len(h.frames) + 1)
	close(stop)
	wg.Wait()
	if bad != "" {
		c.Fail("concurrent", "%s", bad)
	}
	c.Count("concurrent_samples", samples)
	c.Count("tags", len(h.frames))
	c.Count("segments", len(h.seg))
	c.Count("states", h.states)
}

// resolve turns the URIs of a playlist into file names, as a client would.
func (h *hlsRun) resolve(pl *m3u8.Playlist) {
	f := func(u *string) {
		x, err := url.Parse(*u)
		if err != nil || x.Scheme != "" || x.Host != "" || x.RawQuery != "" || x.ForceQuery || x.Fragment != "" {
			h.c.Fail("uri", "URI %q of stream %q is not a plain relative path (%v)", *u, h.name, err)
		}
		*u = x.Path
	}
	for i := range pl.Segments {
		f(&pl.Segments[i].URI)
		for j := range pl.Segments[i].Parts {
			f(&pl.Segments[i].Parts[j].URI)
		}
	}
	for i := range pl.Trailing {
		f(&pl.Trailing[i].URI)
	}
	if pl.HasHint {
		f(&pl.HintURI)
	}
}

// observe inspects the playlist and files while the segmenter is paused.
func (h *hlsRun) observe(i int) {
	c := h.c
	b := h.h.Playlist()
	h.states++
	if b == nil {
		if h.last != nil {
			c.Fail("vanished", "the playlist vanished before tag %d", i)
		}
		return
	}
	pl, err := m3u8.Parse(b)
	if err != nil {
		c.Fail("playlist", "malformed playlist before tag %d: %v\n%s", i, err, b)
	}
	h.resolve(pl)
	if !h.ll && c.R.Intn(8) == 0 { // nothing blocks outside low-latency mode
		msn, part, t0 := pl.MediaSeq+len(pl.Segments)+c.R.Intn(5)-2, c.R.Intn(4)-1, time.Now()
		w := h.h.WaitForPlaylist(msn, part, 10*time.Second)
		if d := time.Since(t0); d > c.D(3*time.Second) {
			c.FailTimed("plain-waits", "request for segment %d part %d took %v without low-latency mode", msn, part, d)
		}
		if !bytes.Equal(w, b) {
			c.Fail("plain-wait-content", "request for segment %d part %d returned\n%s\nwhile the playlist is\n%s", msn, part, w, b)
		}
		c.Count("requests_without_low_latency", 1)
	}
	if pl.EndList {
		c.Fail("playlist", "live playlist with ENDLIST")
	}
	if h.last != nil {
		if pl.MediaSeq < h.last.MediaSeq {
			c.Fail("seq-back", "media sequence went back from %d to %d", h.last.MediaSeq, pl.MediaSeq)
		}
		if n, o := pl.MediaSeq+len(pl.Segments), h.last.MediaSeq+len(h.last.Segments); n < o {
			c.Fail("window-back", "last sequence number went back from %d to %d", o-1, n-1)
		} else if n > o+1 {
			c.Fail("window-jump", "%d segments appeared at once", n-o)
		}
	}
	if len(pl.Segments) > 6 {
		c.Fail("window", "%d segments listed\n%s", len(pl.Segments), b)
	}
	if h.last != nil && len(h.last.Segments) == 6 && len(pl.Segments) < 6 || h.last != nil && len(pl.Segments) < len(h.last.Segments) {
		c.Fail("window", "window shrank from %d to %d segments", len(h.last.Segments), len(pl.Segments))
	}
	if h.last != nil && pl.MediaSeq > h.last.MediaSeq && len(pl.Segments) < 6 {
		c.Fail("window", "segments dropped from a window of %d", len(pl.Segments))
	}
	listed := map[string]bool{}
	for _, s := range pl.Segments {
		if listed[s.URI] {
			c.Fail("uri", "segment %s listed twice", s.URI)
		}
		listed[s.URI] = true
		if s.URI != filepath.Base(s.URI) {
			c.Fail("uri", "segment URI %q", s.URI)
		}
		data, err := os.ReadFile(filepath.Join(h.dir, s.URI))
		if err != nil {
			c.Fail("missing", "listed segment %s: %v\n%s", s.URI, err, b)
		}
		if old, ok := h.info[s.Seq]; ok {
			if old.URI != s.URI || old.Dur != s.Dur {
				c.Fail("changed", "segment %d changed from %s %.3f to %s %.3f", s.Seq, old.URI, old.Dur, s.URI, s.Dur)
			}
			if !bytes.Equal(h.seg[s.Seq], data) {
				c.Fail("rewritten", "listed segment %s changed from %d to %d bytes", s.URI, len(h.seg[s.Seq]), len(data))
			}
			if fmt.Sprint(old.Parts) != fmt.Sprint(s.Parts) {
				c.Fail("parts-changed", "parts of segment %d changed", s.Seq)
			}
			continue
		}
		h.info[s.Seq], h.seg[s.Seq] = s, data
		c.Nontrivial("%d|%d|%s", c.Idx, s.Seq, b)
	}
	// directory: the listed ones and the one in progress
	ents, _ := os.ReadDir(h.dir)
	extra := 0
	for _, e := range ents {
		if !listed[e.Name()] {
			extra++
			if !strings.HasSuffix(e.Name(), ".ts") {
				c.Fail("stray", "unexpected file %s", e.Name())
			}
		}
	}
	if extra > 1 {
		c.Fail("reap", "%d files beside the %d listed ones", extra, len(listed))
	}
	if h.every != nil {
		h.every(i, pl)
	}
	h.last = pl
}

type segTS struct {
	seq  int
	data []byte
	res  *ts.Result
}

func (h *hlsRun) demux() (out []segTS) {
	c := h.c
	for i := 0; i < len(h.seg); i++ {
		d, ok := h.seg[i]
		if !ok {
			c.Fail("numbering", "sequence numbers are not consecutive from 0: no %d among %d", i, len(h.seg))
		}
		res, err := ts.Demux(d, nil)
		if err != nil {
			c.Fail("illegal-ts", "segment %d: %v", i, err)
		}
		out = append(out, segTS{i, d, res})
	}
	return
}

// vframes lists the coded video frames from the first keyframe on.
func (h *hlsRun) vframes() (v []*media.Frame, rest []*media.Frame, all []*media.Frame) {
	started := false
	for _, f := range h.st.Frames {
		if f.Kind == 9 && !f.Hdr && f.Key {
			started = true
		}
		if f.Kind == 9 && !f.Hdr && started {
			v = append(v, f)
		}
		if f.Kind == 8 && !f.Hdr {
			all = append(all, f)
			if started {
				rest = append(rest, f)
			}
		}
	}
	return
}

const mask33 = 1<<33 - 1

func diff33(a, b uint64) int64 {
	d := int64((a - b) & mask33)
	if d >= 1<<32 {
		d -= 1 << 33
	}
	return d
}

func runC20(c *vh.C) {
	h := newHLSRun(c, c.R.Intn(4) == 0)
	h.run(false)
	segs := h.demux()
	v, arest, aall := h.vframes()
	var vp, ap []*ts.PES
	for _, s := range segs {
		r := s.res
		if r.FirstPAT != 0 || r.FirstPMT != 188 || r.FirstPES < 0 {
			c.Fail("psi-first", "segment %d has PAT at %d, PMT at %d, first PES at %d", s.seq, r.FirstPAT, r.FirstPMT, r.FirstPES)
		}
		var m *ts.PMT
		for _, x := range r.PMTs {
			m = x
		}
		if len(r.PMTs) != 1 || m == nil {
			c.Fail("pmt", "segment %d has %d programs", s.seq, len(r.PMTs))
		}
		typ := map[uint16]byte{}
		for _, x := range m.Streams {
			typ[x.PID] = x.Type
		}
		for i, p := range r.PES {
			t, ok := typ[p.PID]
			if !ok {
				c.Fail("pid", "segment %d carries pid %#x which the PMT does not name", s.seq, p.PID)
			}
			vt := byte(0x1b)
			if h.st.Opt.HEVC {
				vt = 0x24
			}
			if i == 0 && (t != vt || !p.RAI) {
				c.Fail("seg-start", "segment %d starts with stream type %#x, random access %v", s.seq, t, p.RAI)
			}
			switch t {
			case vt:
				if p.StreamID&0xf0 != 0xe0 {
					c.Fail("stream-id", "video with stream id %#x", p.StreamID)
				}
				vp = append(vp, p)
			case 0x0f:
				if p.StreamID&0xe0 != 0xc0 {
					c.Fail("stream-id", "audio with stream id %#x", p.StreamID)
				}
				ap = append(ap, p)
			default:
				c.Fail("stream-type", "PES of stream type %#x", t)
			}
		}
		if _, ok := typ[m.PCRPID]; !ok {
			c.Fail("pmt", "PCR pid %#x is not in the PMT", m.PCRPID)
		}
	}
	if len(vp) != len(v) {
		c.Fail("video-count", "%d video frames in the segments, %d published from the first keyframe on; first difference at %d", len(vp), len(v), vdiff(vp, v))
	}
	for i, p := range vp {
		f := v[i]
		dts := uint64(f.TS) * 90 & mask33
		pts := (dts + uint64(int64(f.CTS)*90)) & mask33
		if p.DTS != dts || p.PTS != pts {
			c.Fail("video-time", "frame %d at %d ms, offset %d: DTS %d PTS %d, want %d %d", i, f.TS, f.CTS, p.DTS, p.PTS, dts, pts)
		}
		n, err := h26x.SplitAnnexB(p.Data)
		if err != nil {
			c.Fail("annexb", "frame %d: %v", i, err)
		}
		if err := f.CheckAU(n, true); err != nil {
			c.Fail("video-data", "frame %d %v: %v", i, f, err)
		}
		if a := len(n) - len(media.StripAUD(h.st.Opt.HEVC, n)); a > 1 && a > len(f.NALs)-len(media.StripAUD(h.st.Opt.HEVC, f.NALs)) {
			c.Fail("aud", "frame %d comes with %d access unit delimiters", i, a)
		} else if a == 1 && len(media.StripAUD(h.st.Opt.HEVC, n[:1])) > 0 && len(media.StripAUD(h.st.Opt.HEVC, f.NALs[:1])) == 0 {
			c.Fail("aud", "frame %d: the access unit delimiter is not first: %s", i, media.List(n))
		}
		if p.RAI != f.Key {
			c.Fail("rai", "frame %d key %v has random access %v", i, f.Key, p.RAI)
		}
	}
	// audio
	type af struct {
		a ts.PES
		f h26x.ADTS
		t uint64
	}
	var got []af
	for _, p := range ap {
		fr, err := h26x.SplitADTS(p.Data)
		if err != nil {
			c.Fail("adts", "%v", err)
		}
		if p.PTS != p.DTS {
			c.Fail("audio-time", "audio PES with PTS %d DTS %d", p.PTS, p.DTS)
		}
		t := 0.0
		for _, f := range fr {
			got = append(got, af{*p, f, p.PTS + uint64(t)})
			if f.RateIdx < len(h26x.AACRates) {
				t += 1024 * 90000 / float64(h26x.AACRates[f.RateIdx])
			}
		}
	}
	if len(v) == 0 {
		arest = nil
	}
	if len(got) < len(arest) || len(got) > len(aall) {
		c.Fail("audio-count", "%d audio frames in the segments, %d published after the first keyframe (%d in all)", len(got), len(arest), len(aall))
	}
	want := aall[len(aall)-len(got):]
	for i, g := range got {
		f := want[i]
		if !bytes.Equal(g.f.Raw, f.Raw) {
			c.Fail("audio-data", "audio frame %d of %d: %s, want %s (%v)", i, len(got), hexClip(g.f.Raw), hexClip(f.Raw), f)
		}
		if g.f.ObjType != f.Conf.Obj || g.f.RateIdx != f.Conf.Rate || g.f.Chans != f.Conf.Ch {
			c.Fail("adts-params", "ADTS %d/%d/%d, want %d/%d/%d", g.f.ObjType, g.f.RateIdx, g.f.Chans, f.Conf.Obj, f.Conf.Rate, f.Conf.Ch)
		}
		if d := diff33(g.t, uint64(f.TS)*90); d > 270 || d < -270 {
			c.Fail("audio-time", "audio frame %d at %d ms comes out %d ticks off", i, f.TS, d)
		}
	}
	c.Count("video_frames", len(vp))
	c.Count("audio_frames", len(got))
	if h.st.Opt.HEVC {
		c.Count("hevc_streams", 1)
	}
}

func vdiff(vp []*ts.PES, v []*media.Frame) int {
	for i, p := range vp {
		if i >= len(v) || p.DTS != uint64(v[i].TS)*90&mask33 {
			return i
		}
	}
	return len(vp)
}

// checkTimeline compares durations and cuts with the published frames.
func (h *hlsRun) checkTimeline(segs []segTS) (first []int) {
	c := h.c
	v, _, _ := h.vframes()
	k := 0
	for _, s := range segs {
		first = append(first, k)
		for _, p := range s.res.PES {
			if p.StreamID&0xf0 == 0xe0 {
				k++
			}
		}
	}
	if k != len(v) {
		c.Fail("video-count", "%d video frames in the segments, %d published", k, len(v))
	}
	first = append(first, k)
	restarted := false
	for i, s := range segs {
		a, b := first[i], first[i+1]
		if a == b {
			c.Fail("empty", "segment %d has no video", i)
		}
		if !v[a].Key {
			c.Fail("cut", "segment %d starts with an inter frame", i)
		}
		dur := h.info[s.seq].Dur
		back := -1 // where the publisher's clock restarts
		for j := a + 1; j <= b && j < len(v); j++ {
			if int32(v[j].TS-v[j-1].TS) < -20000 {
				back = j
			}
		}
		if back >= 0 {
			restarted = true
			c.Count("clock_restarts", 1)
			if dur < 0 {
				c.Fail("duration", "segment %d, in which the clock restarts, lasts %.3f s", i, dur)
			}
			for j := back; j < b; j++ {
				if v[j].Key && int32(v[j].TS-v[back].TS) >= 4000 {
					c.Fail("cut-late", "segment %d goes on past the keyframe %d ms after the clock restarted", i, v[j].TS-v[back].TS)
				}
			}
			continue
		}
		if b < len(v) {
			d := float64(int32(v[b].TS-v[a].TS)) / 1000
			if d < 2 {
				c.Fail("cut-early", "segment %d cut after %.3f s", i, d)
			}
			if math.Abs(d-dur) > 0.002 {
				c.Fail("duration", "segment %d lasts %.3f s to the next one, playlist says %.3f", i, d, dur)
			}
		} else {
			d := float64(int32(v[b-1].TS-v[a].TS)) / 1000
			iv := 0.05
			if b > 1 { // how long the last frame lasts is guessed from the frames before it
				iv = 2 * float64(int32(v[b-1].TS-v[b-2].TS)) / 1000
			}
			if m := 0.1 + 1.6*math.Max(h.st.Opt.FrameMs/1000, 0.6); iv < m { // audio may go on as long as a frame lasts
				iv = m
			}
			if !restarted && (dur < d-0.002 || dur > d+iv) {
				c.Fail("duration", "last segment covers %.3f s of frames, playlist says %.3f", d, dur)
			}
		}
		for j := a + 1; j < b; j++ {
			if v[j].Key && int32(v[j].TS-v[a].TS) >= 2000 {
				c.Fail("cut-late", "segment %d goes on past the keyframe %d ms after its start", i, v[j].TS-v[a].TS)
			}
		}
	}
	return
}

func pickInt(c *vh.C, l ...int) int { return l[c.R.Intn(len(l))] }

func runC21(c *vh.C) {
	h := newHLSRun(c, c.R.Intn(3) == 0)
	if c.R.Intn(3) == 0 { // stop in mid-stream
		at := c.R.Intn(len(h.frames))
		stopped := false
		defer os.RemoveAll(h.dir)
		h.h = libhls.NewHls().WithStreamID(h.name).WithDir(h.dir).WithLowLatency(h.ll)
		rd := &pacedReader{}
		for _, f := range h.frames {
			rd.tags = append(rd.tags, toTag(c, f))
		}
		var wg sync.WaitGroup
		rd.hook = func(i int) {
			if i == at {
				wg.Add(1)
				stopped = true
				if c.R.Intn(2) == 0 {
					h.h.Stop()
					wg.Done()
				} else {
					go func() { defer wg.Done(); h.h.Stop() }()
				}
			} else if !stopped {
				h.observe(i)
			}
		}
		c.Call("Start", func() { _ = h.h.Start(rd) })
		wg.Wait()
		if ents, _ := os.ReadDir(h.dir); len(ents) > 0 {
			c.Fail("left-behind", "%d files left after Stop, first %s", len(ents), ents[0].Name())
		}
		if !vh.Within(c.D(5*time.Second), h.h.WaitFirstSegment) {
			c.FailTimed("wait-first", "WaitFirstSegment blocks after Stop")
		}
		c.Count("stops", 1)
		return
	}
	if c.Idx%15 == 0 { // the publisher restarts its clock
		k, by := c.R.Intn(len(h.frames)), uint32(30000+c.R.Intn(pickInt(c, 100000, 5000000)))
		for _, f := range h.frames[k:] {
			f.TS -= by
		}
	}
	h.run(c.R.Intn(2) == 0)
	h.checkTimeline(h.demux())
	h.h.Stop()
	if ents, _ := os.ReadDir(h.dir); len(ents) > 0 {
		c.Fail("left-behind", "%d files left after Stop, first %s", len(ents), ents[0].Name())
	}
}

// runC22End parks clients on a stream that ends or is stopped without
// another part to wake them with.
func runC22End(c *vh.C) {
	r := c.R
	h := newHLSRun(c, true)
	defer os.RemoveAll(h.dir)
	var fs []*media.Frame
	mode := r.Intn(3)
	for _, f := range h.frames { // 0: audio only, 1: without keyframe, 2: as it is
		if mode == 0 && f.Kind == 9 || mode == 1 && f.Kind == 9 && f.Key {
			continue
		}
		fs = append(fs, f)
	}
	if len(fs) > 40 && mode != 2 {
		fs = fs[:40]
	}
	h.h = libhls.NewHls().WithStreamID(h.name).WithDir(h.dir).WithLowLatency(true)
	stopped := r.Intn(2) == 0 // or the publisher ends
	pause := len(fs)
	if mode == 2 {
		pause = r.Intn(len(fs) + 1)
	}
	rd := &pacedReader{}
	for _, f := range fs[:pause] {
		rd.tags = append(rd.tags, toTag(c, f))
	}
	idle, resume := make(chan struct{}), make(chan struct{})
	rd.hook = func(i int) {
		if i == pause {
			close(idle)
			<-resume
		}
	}
	started := make(chan struct{})
	go func() { h.h.Start(rd); close(started) }()
	select {
	case <-idle:
	case <-time.After(c.D(30 * time.Second)):
		c.Fail("start", "Start did not take %d tags", pause)
	}
	// every client waits for what cannot come
	n := 1 + r.Intn(4)
	done := make(chan int, n)
	for i := 0; i < n; i++ {
		msn, part := 1000+r.Intn(10), r.Intn(4)-1
		go func(i int) { h.h.WaitForPlaylist(msn, part, 10*time.Minute); done <- i }(i)
	}
	time.Sleep(time.Duration(2+r.Intn(20)) * time.Millisecond)
	select {
	case <-done:
		c.Fail("wait-early", "a request for segment 1000 of a stream that goes on was answered at once")
	default:
	}
	what := "the publisher left"
	if stopped {
		what = "the stream was stopped"
		if !vh.Within(c.D(10*time.Second), func() { h.h.Stop() }) {
			c.Fail("stop", "Stop did not return while the stream was idle")
		}
	} else {
		close(resume)
	}
	for i := 0; i < n; i++ {
		select {
		case <-done:
		case <-time.After(c.D(4 * time.Second)):
			c.FailTimed("wait-end", "%d of %d requests are still blocked after %s (mode %d, %d tags)", n-i, n, what, mode, pause)
		}
	}
	if !vh.Within(c.D(4*time.Second), func() { h.h.WaitForPlaylist(1000, -1, 10*time.Minute) }) {
		c.FailTimed("wait-end", "a request made after %s blocks", what)
	}
	if stopped {
		close(resume)
	}
	select {
	case <-started:
	case <-time.After(c.D(10 * time.Second)):
		c.Fail("start-end", "Start does not return after the end of the stream")
	}
	c.Count("ends_with_waiters", 1)
	c.Count("waits_ended", n)
}

func runC22(c *vh.C) {
	if c.Idx%12 == 7 {
		runC22End(c)
		return
	}
	h := newHLSRun(c, true)
	r := c.R
	type key struct{ msn, part int }
	parts := map[key]m3u8.Part{}
	type waiter struct {
		k     key
		done  chan []byte
		asked time.Time
	}
	var waiters []*waiter
	has := func(pl *m3u8.Playlist, k key) bool {
		next := pl.MediaSeq + len(pl.Segments)
		if n := len(pl.Segments); k.part >= 0 && n > 0 && k.msn == next-1 && k.part >= len(pl.Segments[n-1].Parts) {
			return len(pl.Trailing) > 0 // means the first part of the next segment
		}
		if k.msn < next {
			return true
		}
		return k.msn == next && k.part >= 0 && len(pl.Trailing) > k.part
	}
	check := func(w *waiter, what string) {
		select {
		case b := <-w.done:
			pl, err := m3u8.Parse(b)
			if err != nil {
				c.Fail("wait-playlist", "blocking reload returned a malformed playlist: %v\n%s", err, b)
			}
			if !has(pl, w.k) {
				c.Fail("wait-early", "request for segment %d part %d returned %v after it was asked, without it (%s)\n%s", w.k.msn, w.k.part, time.Since(w.asked), what, b)
			}
			c.Count("waits_answered", 1)
		case <-time.After(c.D(4 * time.Second)):
			c.FailTimed("wait-stuck", "request for segment %d part %d not answered (%s)", w.k.msn, w.k.part, what)
		}
	}
	// the part target is owed at steady frame rates
	steady := !h.st.Opt.Jitter
	// the longest interval between consecutive frames
	v, _, _ := h.vframes()
	maxIv := 0.0
	for i := 1; i < len(v); i++ {
		if d := float64(int32(v[i].TS-v[i-1].TS)) / 1000; d > maxIv {
			maxIv = d
		}
	}
	partCheck := func(seq int, ps []m3u8.Part, uri string, size int64) {
		off := int64(0)
		for i, p := range ps {
			if p.URI != uri && uri != "" {
				c.Fail("part-uri", "segment %d (%s) part %d is in %s", seq, uri, i, p.URI)
			}
			if p.Off != off {
				c.Fail("part-gap", "segment %d part %d starts at %d, the previous ends at %d", seq, i, p.Off, off)
			}
			if p.Len <= 0 || p.Len%188 != 0 {
				c.Fail("part-boundary", "segment %d part %d is %d bytes long", seq, i, p.Len)
			}
			off += p.Len
			if off > size {
				c.Fail("part-missing", "segment %d part %d ends at %d of %d bytes", seq, i, off, size)
			}
			k := key{seq, i}
			if o, ok := parts[k]; ok {
				if o != p {
					c.Fail("part-changed", "segment %d part %d changed from %+v to %+v", seq, i, o, p)
				}
			} else {
				parts[k] = p
				c.Count("parts", 1)
			}
		}
	}
	ended := false
	h.every = func(i int, pl *m3u8.Playlist) {
		if pl.PartTarget <= 0 || !pl.CanBlock || pl.HoldBack < 2*pl.PartTarget {
			c.Fail("ll-tags", "playlist lacks low-latency parameters: target %v hold back %v block %v\n%s", pl.PartTarget, pl.HoldBack, pl.CanBlock, pl.Text)
		}
		next := pl.MediaSeq + len(pl.Segments)
		var hintURI string
		if pl.HasHint {
			hintURI = pl.HintURI
		}
		if len(pl.Trailing) > 0 || pl.HasHint {
			uri := hintURI
			if uri == "" {
				uri = pl.Trailing[0].URI
			}
			fi, err := os.Stat(filepath.Join(h.dir, uri))
			if err != nil {
				c.Fail("hint-file", "segment in progress: %v\n%s", err, pl.Text)
			}
			partCheck(next, pl.Trailing, uri, fi.Size())
			sum := int64(0)
			for _, p := range pl.Trailing {
				sum += p.Len
			}
			if pl.HasHint && pl.HintStart != sum {
				c.Fail("hint", "preload hint starts at %d, the parts end at %d\n%s", pl.HintStart, sum, pl.Text)
			}
			for _, s := range pl.Segments {
				if s.URI == uri {
					c.Fail("hint", "preload hint names the finished segment %s", uri)
				}
			}
			c.Count("hints", 1)
		} else if i <= len(h.frames) {
			c.Fail("no-hint", "a segment is in progress without preload hint\n%s", pl.Text)
		}
		for _, s := range pl.Segments {
			if len(s.Parts) > 0 {
				partCheck(s.Seq, s.Parts, s.URI, int64(len(h.seg[s.Seq])))
				last := s.Parts[len(s.Parts)-1]
				if last.Off+last.Len != int64(len(h.seg[s.Seq])) {
					c.Fail("part-end", "parts of segment %d end at %d of %d bytes", s.Seq, last.Off+last.Len, len(h.seg[s.Seq]))
				}
				d := 0.0
				for _, p := range s.Parts {
					d += p.Dur
				}
				if math.Abs(d-s.Dur) > 0.0012*float64(len(s.Parts)+1) {
					c.Fail("part-sum", "parts of segment %d sum to %.3f s of %.3f", s.Seq, d, s.Dur)
				}
			}
			for j := range s.Parts {
				if steady && maxIv > 0 && maxIv < pl.PartTarget-0.002 && s.Parts[j].Dur > pl.PartTarget+0.0006 {
					c.Fail("part-long", "segment %d part %d lasts %.4f s, target %.4f, frames at most %.3f s apart", s.Seq, j, s.Parts[j].Dur, pl.PartTarget, maxIv)
				}
			}
		}
		for j := range pl.Trailing {
			if steady && maxIv > 0 && maxIv < pl.PartTarget-0.002 && pl.Trailing[j].Dur > pl.PartTarget+0.0006 {
				c.Fail("part-long", "part %d in progress lasts %.4f s, target %.4f", j, pl.Trailing[j].Dur, pl.PartTarget)
			}
		}
		// newest segments must show their parts
		if n := len(pl.Segments); n > 0 && len(pl.Segments[n-1].Parts) == 0 {
			c.Fail("no-parts", "newest segment listed without its parts\n%s", pl.Text)
		}
		// blocking reloads
		var keep []*waiter
		for _, w := range waiters {
			if has(pl, w.k) {
				check(w, "available")
			} else {
				select {
				case b := <-w.done:
					c.Fail("wait-early", "request for segment %d part %d returned %v after it was asked, before it exists\n%s", w.k.msn, w.k.part, time.Since(w.asked), b)
				default:
				}
				keep = append(keep, w)
			}
		}
		waiters = keep
		if ended {
			return
		}
		if len(waiters) < 6 && r.Intn(6) == 0 {
			k := key{next, len(pl.Trailing) + r.Intn(3)}
			switch r.Intn(4) {
			case 0:
				k = key{next + r.Intn(2), -1}
			case 1:
				k = key{next + 1, r.Intn(2)}
			}
			w := &waiter{k: k, done: make(chan []byte, 1), asked: time.Now()}
			go func() { w.done <- h.h.WaitForPlaylist(k.msn, k.part, 60*time.Second) }()
			waiters = append(waiters, w)
			c.Count("waits", 1)
		}
		if r.Intn(20) == 0 && len(pl.Segments) > 0 { // existing
			k := key{pl.MediaSeq + r.Intn(len(pl.Segments)), -1}
			if r.Intn(2) == 0 && len(pl.Segments[k.msn-pl.MediaSeq].Parts) > 0 {
				k.part = r.Intn(len(pl.Segments[k.msn-pl.MediaSeq].Parts))
			}
			if len(pl.Trailing) > 0 && r.Intn(2) == 0 {
				k = key{next, r.Intn(len(pl.Trailing))}
			}
			var b []byte
			t0 := time.Now()
			b = h.h.WaitForPlaylist(k.msn, k.part, 10*time.Second)
			if d := time.Since(t0); d > c.D(3*time.Second) {
				c.FailTimed("wait-existing", "request for existing segment %d part %d took %v", k.msn, k.part, d)
			}
			if !bytes.Equal(b, []byte(pl.Text)) {
				c.Fail("wait-content", "request for existing segment %d part %d returned\n%s\nwhile the playlist is\n%s", k.msn, k.part, b, pl.Text)
			}
			c.Count("waits_existing", 1)
		}
		if r.Intn(60) == 0 { // times out
			k := key{next, len(pl.Trailing) + r.Intn(2)}
			t0 := time.Now()
			b := h.h.WaitForPlaylist(k.msn, k.part, 15*time.Millisecond)
			d := time.Since(t0)
			if d < 15*time.Millisecond {
				c.Fail("wait-early", "request for the missing segment %d part %d returned after %v\n%s", k.msn, k.part, d, b)
			}
			if d > c.D(4*time.Second) {
				c.FailTimed("wait-timeout", "request with a timeout of 15 ms took %v", d)
			}
			c.Count("waits_timed_out", 1)
		}
	}
	final := len(h.frames)
	inner := h.every
	h.every = func(i int, pl *m3u8.Playlist) {
		ended = i > final
		if !ended {
			inner(i, pl)
		}
	}
	h.run(false)
	for _, w := range waiters {
		select {
		case <-w.done:
		case <-time.After(c.D(4 * time.Second)):
			c.FailTimed("wait-end", "request for segment %d part %d is still blocked after the stream ended", w.k.msn, w.k.part)
		}
	}
	segs := h.demux()
	first := h.checkTimeline(segs)
	for i, s := range segs {
		inf := h.info[s.seq]
		at := first[i]
		for j, p := range inf.Parts {
			n, n0 := 0, at
			indep, seen := false, false
			for _, pes := range s.res.PES {
				if int64(pes.Off) >= p.Off && int64(pes.Off) < p.Off+p.Len && pes.StreamID&0xf0 == 0xe0 {
					if !seen {
						seen, indep = true, pes.RAI
					}
					n++
				}
			}
			if !seen {
				c.Fail("part-empty", "segment %d part %d has no video", i, j)
			}
			at += n
			if p.Independent != indep {
				c.Fail("independent", "segment %d part %d marked independent=%v, its first frame is key=%v", i, j, p.Independent, indep)
			}
			if at < len(v) {
				if d := float64(int32(v[at].TS-v[n0].TS)) / 1000; math.Abs(d-p.Dur) > 0.0016 {
					c.Fail("part-duration", "segment %d part %d lasts %.4f s to the next part, playlist says %.4f", i, j, d, p.Dur)
				}
			}
		}
	}
}
