package net

import (
	"fmt"
	"math/rand"
	"time"

	"vharness/media"
	"vharness/vh"
)

const tech = "runtime monitoring: the real server runs in-process under generated protocol sessions; independent strict protocol clients record every message and an oracle compares the logs with what was published"

// startTS is a timestamp, often near an edge.
func startTS(r *rand.Rand) uint32 {
	return pick(r, 0, 0, uint32(r.Intn(100000)), 0xfffffe-uint32(r.Intn(400)), 0xffffff, 0x1000000+uint32(r.Intn(1000)), 0x7fffffff-uint32(r.Intn(800)), 0xffffffff-uint32(r.Intn(800)), r.Uint32())
}

// stream generates frames: mostly H.264 and AAC, also HEVC, and any codec if
// zoo is allowed.
func genFrames(c *vh.C, n int, zoo bool, o media.Opt) ([]*media.Frame, string) {
	r := c.R
	if zoo && r.Intn(2) == 0 {
		f, d := Zoo(r, n, o.Start)
		return f, "zoo " + d
	}
	if !o.Video && !o.Audio {
		switch r.Intn(6) {
		case 0:
			o.Video = true
		case 1:
			o.Audio = true
		default:
			o.Video, o.Audio = true, true
		}
	}
	o.Frames = n
	o.Rate = -1
	if o.ID == 0 {
		o.ID = uint64(c.Idx+1)<<32 | uint64(r.Intn(1<<10))<<20
	}
	s := media.Gen(r, o)
	return s.Frames, fmt.Sprintf("video %v audio %v hevc %v start %d gop %d", o.Video, o.Audio, o.HEVC, o.Start, o.GOP)
}

const smallRcv = 8192

// firstKey is the index after which every viewer must have a start: the first
// keyframe, or the first coded frame if there is no video.
func firstKey(fs []*media.Frame) int {
	video := false
	for _, f := range fs {
		video = video || f.Kind == 9 && coded(f)
	}
	for i, f := range fs {
		if coded(f) && (!video || f.Kind == 9 && f.Key) {
			return i
		}
	}
	return len(fs) - 1
}

// feed publishes frames in batches and waits for the viewers after each.
func feed(c *vh.C, p *Pub, fs []*media.Frame, batch int, vs ...*View) {
	defer func() {
		if len(vs) == 0 {
			p.Barrier(c)
		}
	}()
	for len(fs) > 0 {
		n, size := 0, 0
		for n < len(fs) && n < batch && (n == 0 || size+len(fs[n].Body) < 1<<20) {
			size += len(fs[n].Body)
			n++
		}
		if err := p.Send(fs[:n]...); err != nil {
			c.Fail("publisher-dropped", "the publisher's connection failed: %v", err)
		}
		fs = fs[n:]
		p.Live.Sync(c, "while publishing", vs...)
	}
}

// awaitEnd waits until the viewers see the stream end.
func awaitEnd(c *vh.C, vs ...*View) {
	for _, v := range vs {
		if !c.Eventually(15*time.Second, func() bool { return v.End() != "" || v.Err() != nil }) {
			c.FailTimed("no-end:"+v.Proto, "the publisher is gone, %v has not been told", v)
		}
		v.Check(c)
	}
}

func checkRun(c *vh.C, v *View, o RunOpt) {
	v.Check(c)
	o.NoVideo, o.NoAudio = o.NoVideo || v.NoVideo, o.NoAudio || v.NoAudio
	if v.SC != nil {
		o.NoHdr = true
		o.PerTrack = v.Proto == "rtsp-udp" // a socket per track
	}
	if v.Live.Loose {
		o.PerTrack = true
	}
	if err := v.Live.CheckRun(v.Items(), o); err != nil {
		v.failer(c)("run:"+v.Proto, "%s: %v", v, err)
	}
	c.Count("items:"+v.Proto, len(v.Items()))
}

func try[T any](c *vh.C, what string) func(v T, err error) T {
	return func(v T, err error) T {
		if err != nil {
			c.FailTimed("cannot:"+what, "%s: %v", what, err)
		}
		return v
	}
}

func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

func sameFrame(a, b *media.Frame) bool {
	return a.Kind == b.Kind && a.TS == b.TS && tagKey(a.Kind, a.Body) == tagKey(b.Kind, b.Body)
}
