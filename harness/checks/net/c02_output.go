package net

import (
	"math/rand"
	"sync"
	"time"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/rtmp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C02", Quick: 1600, Thorough: 4000, Setup: setupPlain, Technique: tech,
		Rule:      "RTMP players read a publication with a strict chunk parser while they (and the publisher) send commands, pings and chunk size changes; the logs must equal what was published. The chunks the library writes for every chunk stream id and header type must parse likewise",
		LevelNote: "exploration: seeded sessions over loopback TCP; messages up to 300 kB, timestamps around 0xffffff, 2^31 and 2^32",
		Run:       runC02})
	vh.Register(&vh.Check{ID: "C03", Quick: 1500, Thorough: 4000, Setup: setupPlain, Technique: tech,
		Rule:      "HTTP-FLV and WebSocket-FLV viewers that join before and in the middle of a publication of any codec parse the body strictly from its first byte; tags must equal the published messages",
		LevelNote: "exploration: seeded sessions over loopback TCP; all FLV video and audio codec ids, enhanced headers",
		Run:       runC03})
}

// chatter sends requests on a session until stop is closed.
func chatter(c *rtmp.Client, r *rand.Rand, stop chan struct{}, n *int64) {
	for i := 0; ; i++ {
		select {
		case <-stop:
			return
		default:
		}
		var err error
		switch r.Intn(10) {
		case 0:
			err = c.Cmd(0, "createStream", float64(1000+i), nil)
		case 1:
			err = c.Cmd(1, "pause", float64(1000+i), nil, r.Intn(2) == 0, float64(r.Intn(1000)))
		case 2:
			err = c.Cmd(1, "seek", float64(1000+i), nil, float64(r.Intn(1000)))
		case 3, 4, 5:
			err = c.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, r.Uint32())}, 0)
		case 6:
			err = c.SetChunkSize(100 + r.Intn(5000))
		case 7:
			err = c.SendMsg(&rtmp.Msg{CSID: 2, Type: 5, Body: rtmp.U32(uint32(1000 + r.Intn(5000)))}, 0)
		case 8:
			err = c.Cmd(0, "releaseStream", float64(1000+i), nil, string(make([]byte, r.Intn(300))))
		case 9:
			err = c.Cmd(0, "whatIsThis", float64(1000+i), nil, amf0.Obj{{K: "a", V: "b"}}, string(make([]byte, r.Intn(5000))))
		}
		if err != nil {
			return
		}
		*n++
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
	}
}

func runC02(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(appLive, e.Name(c))
	o := media.Opt{Start: startTS(r), Meta: true, CTS: true, HEVC: r.Intn(5) == 0, Change: r.Intn(2) == 0, MaxSize: pick(r, 30, 1500, 9000, 100000), GOP: pick(r, 0, 3, 30)}
	n := 40 + r.Intn(80)
	if o.MaxSize > 9000 {
		n = 20
	}
	fs, desc := genFrames(c, n, true, o)
	for i := 0; i < 3; i++ { // large metadata, data messages
		k := r.Intn(len(fs))
		m := media.MetaFrame(r, fs[k].TS, r.Intn(2) == 0, uint64(c.Idx*10+i), amf0.Prop{K: "big", V: string(make([]byte, r.Intn(12000)))})
		fs = append(fs[:k:k], append([]*media.Frame{m}, fs[k:]...)...)
	}
	if r.Intn(3) == 0 { // sizes next to the chunk size
		for _, f := range fs {
			if k := pick(r, 4095, 4096, 4097, 8192, 8193); f.Kind == 9 && !f.Hdr && r.Intn(4) == 0 && len(f.Body) < k && len(f.NALs) > 0 {
				f.Body = append(append([]byte{}, f.Body...), make([]byte, k-len(f.Body))...)
			}
		}
	}
	c.Trace("%s", desc)
	p := MustPublish(c, e.RTMP, l, Plain())
	defer p.Close()
	nv := 1 + r.Intn(3)
	var vs []*View
	for i := 0; i < nv; i++ {
		v := e.MustView(c, l, Viewer{Proto: "rtmp"})
		defer v.Close(false)
		vs = append(vs, v)
	}
	stop := make(chan struct{})
	counts := make([]int64, nv+1)
	var wg sync.WaitGroup
	for i := 0; i <= nv; i++ {
		if i == nv && r.Intn(2) == 0 {
			break
		}
		cl := p.Client
		if i < nv {
			cl = vs[i].RC
		}
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func(i int) { defer wg.Done(); chatter(cl, rr, stop, &counts[i]) }(i)
	}
	defer func() { close(stop); wg.Wait() }()
	k := firstKey(fs)
	feed(c, p, fs[:k+1], len(fs), vs...)
	feed(c, p, fs[k+1:], 5+r.Intn(20), vs...)
	fk := -1
	for i, f := range l.Frames() {
		if f == fs[k] {
			fk = i
		}
	}
	if _, err := p.Msgs(); err != nil {
		c.Fail("publisher-read", "the publisher reads from the server: %v", err)
	}
	p.Close()
	awaitEnd(c, vs...)
	for _, v := range vs {
		checkRun(c, v, RunOpt{From: fk, Complete: true, ToEnd: true, MustMedia: true})
		if err := inline(v, fk); err != nil {
			c.Fail("inline:"+v.Proto, "%s: %v", v, err)
		}
		ms, _ := v.RC.Msgs()
		for _, m := range ms {
			c.Count("messages", 1)
			if m.TS >= 0xffffff {
				c.Count("messages_with_extended_timestamp", 1)
			}
			if len(m.Body) > 4096 {
				c.Count("messages_of_several_chunks", 1)
			}
			c.Count("max_message_bytes", len(m.Body))
			if m.Type == 20 {
				if _, err := rtmp.ParseCmd(m); err != nil {
					c.Fail("reply", "%v", err)
				}
			}
		}
	}
	chunksOut(c, 200)
	for i := range counts {
		c.Count("requests_during_media", int(counts[i]))
	}
	c.Nontrivial("%d %s", c.Idx, desc)
}

func runC03(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(pick(r, appLive, appTwo), e.Name(c))
	o := media.Opt{Start: startTS(r), Meta: r.Intn(4) > 0, CTS: r.Intn(2) == 0, HEVC: r.Intn(5) == 0, Change: r.Intn(2) == 0, GOP: pick(r, 0, 3, 30), MaxSize: pick(r, 30, 1500, 9000, 150000)}
	n := 40 + r.Intn(80)
	if o.MaxSize > 9000 {
		n = 20
	}
	fs, desc := genFrames(c, n, r.Intn(4) > 0, o)
	c.Trace("%s", desc)
	p := MustPublish(c, e.RTMP, l, Plain())
	defer p.Close()
	k := firstKey(fs)
	pre := 0
	if r.Intn(2) == 0 {
		pre = r.Intn(k + 2)
	}
	feed(c, p, fs[:pre], len(fs))
	vs := []*View{e.MustView(c, l, Viewer{Proto: "flv"}), e.MustView(c, l, Viewer{Proto: "ws", Style: r.Intn(4)})}
	early := pre <= k
	if early {
		feed(c, p, fs[pre:k+1], len(fs), vs...)
		pre = k + 1
	}
	mid := pre + r.Intn(len(fs)-pre+1)
	feed(c, p, fs[pre:mid], 10+r.Intn(30), vs...)
	for i := 0; i < 1+r.Intn(2); i++ {
		v := e.MustView(c, l, randViewer(r, "flv", "ws"))
		if k := mid + r.Intn(5); k < len(fs) {
			feed(c, p, fs[mid:k], 1, vs...)
			mid = k
		}
		vs = append(vs, v)
	}
	defer func() {
		for _, v := range vs {
			v.Close(false)
		}
	}()
	feed(c, p, fs[mid:], 10+r.Intn(30), vs...)
	p.Close()
	awaitEnd(c, vs...)
	for i, v := range vs {
		o := RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: i < 2 || mid < len(fs)}
		if i < 2 && early {
			o.From = k
		}
		checkRun(c, v, o)
		its := v.Items()
		for j, it := range its {
			if coded(l.frame(it.Idx)) {
				if err := inline(v, it.Idx); err != nil {
					c.Fail("inline:"+v.Proto, "%s: %v", v, err)
				}
				c.Count("max_header_tags", j)
				break
			}
		}
		for _, it := range its {
			if it.TS >= 1<<24 {
				c.Count("tags_with_timestamp_above_24_bits", 1)
			}
			c.Count("max_tag_bytes", len(it.Body))
		}
	}
	c.Nontrivial("%d %s", c.Idx, desc)
}
