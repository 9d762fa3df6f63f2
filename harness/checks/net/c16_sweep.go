package net

import (
	"fmt"
	"runtime"

	"github.com/sbraveyoung/GGmpeg/libsrt"

	"vharness/media"
	"vharness/ref/h26x"
	"vharness/ref/srt"
	"vharness/ref/ts"
	"vharness/vh"
)

// sweepTS feeds the demuxer a short stream in which one byte of a table, a
// PES header, a unit or a packet is broken, or one of them cut, each in turn.
func sweepTS(c *vh.C) {
	r := c.R
	hevc := r.Intn(3) == 0
	vc := media.NewVideoConf(r, hevc, uint64(c.Idx)<<20)
	ac := media.NewAudioConf(r, pick(r, 3, 4, 7))
	vt := byte(0x1b)
	key := append([]byte{0x65}, randBytes(r, 20)...)
	if hevc {
		vt = 0x24
		key = append([]byte{38, 1}, randBytes(r, 20)...)
	}
	pat := ts.PATSection(1, 0, [][2]uint16{{0, 16}, {1, 0x1000}})
	pmt := ts.PMTSection(1, 0, 0x100, randBytes(r, r.Intn(5)), []ts.ESInfo{{Type: vt, PID: 0x100, Desc: []byte{5, 2, 1, 2}}, {Type: 0x0f, PID: 0x101, Desc: []byte{10, 4, 'e', 'n', 'g', 0}}})
	var nals [][]byte
	nals = append(append(nals, vc.Sets()...), key)
	ves := h26x.AnnexB(func(int) bool { return r.Intn(2) == 0 }, nals...)
	aes := append(h26x.MakeADTS(ac.Obj, ac.Rate, ac.Ch, []byte{0x21, 1, 2, 3}, r.Intn(2) == 0), h26x.MakeADTS(ac.Obj, ac.Rate, ac.Ch, []byte{0x21, 4, 5}, false)...)
	bounded := r.Intn(2) == 0
	vpes := func(es []byte) []byte { return ts.MakePES(0xe0, 90000, 90000, r.Intn(2) == 0, 0, bounded, es) }
	apes := func(es []byte) []byte { return ts.MakePES(0xc0, 90000, 90000, false, 3, true, es) }
	// part k changed by f; -1: the packets themselves
	build := func(k int, f func([]byte) []byte) (out []byte) {
		m := &ts.Mux{R: r, CC: map[uint16]byte{}, Plain: true}
		sec := func(i int, s []byte) []byte {
			if i == k { // the checksum is right all the same
				s = f(append([]byte{}, s[:len(s)-4]...))
				s = append(s, srt.Packet{Info: ts.CRC(s)}.Bytes()[4:8]...)
			}
			return s
		}
		es := func(i int, b []byte) []byte {
			if i == k {
				b = f(append([]byte{}, b...))
			}
			return b
		}
		for n := 0; n < 2; n++ {
			m.Section(0, sec(0, pat), 0)
			m.Section(0x1000, sec(1, pmt), 0)
			m.PES(0x100, true, 90000, es(2, vpes(es(3, ves))))
			m.PES(0x101, false, -1, es(4, apes(es(5, aes))))
			m.PES(0x100, false, -1, vpes(ves))
		}
		if k == 6 {
			m.Out = f(m.Out)
		}
		return m.Out
	}
	k, way := c.Idx%7, c.Idx/7%5
	size := len(build(-1, nil))
	c.Trace("sweep %d over part %d", way, k)
	var feed func(b []byte)
	var last string
	n := 0
	bases := []int{len(pat) - 4, len(pmt) - 4, len(vpes(ves)), len(ves), len(apes(aes)), len(aes), size}
	feed = func(b []byte) {
		d := libsrt.NewDemuxer()
		out := 0
		d.OnVideo = func(a libsrt.AccessUnit) { out += len(a.NAL) }
		d.OnAudio = func(a libsrt.AudioFrame) { out += len(a.Data) }
		if n%2 == 0 {
			d.Feed(b)
		} else {
			for m := 0; m < len(b); m += 188 {
				d.Feed(append([]byte{}, b[m:min(m+188, len(b))]...))
			}
		}
		d.Flush()
		n++
		if out > 4*len(b)+1000 {
			c.Fail("amplified", "%s: %d bytes of TS gave %d bytes of units", last, len(b), out)
		}
	}
	h0 := heap()
	c.Call("demuxer", func() {
		defer func() {
			if e := recover(); e != nil {
				c.Trace("%s", last)
				panic(e)
			}
		}()
		for p := 0; p <= bases[k] && p < 400; p++ {
			last = fmt.Sprintf("part %d way %d byte %d", k, way, p)
			feed(build(k, func(b []byte) []byte {
				if p >= len(b) {
					return b
				}
				switch way {
				case 0:
					return b[:p]
				case 1:
					b[p] = 0xff
				case 2:
					b[p] = 0
				case 3:
					b[p] ^= 1 << r.Intn(8)
				case 4: // a byte less or more
					if r.Intn(2) == 0 {
						return append(b[:p], b[p+1:]...)
					}
					return append(b[:p], append([]byte{byte(r.Intn(256))}, b[p:]...)...)
				}
				return b
			}))
		}
	})
	c.Count("swept_ts", n)
	if h := heap() - h0; h > 16<<20 {
		c.Fail("memory:demuxer", "the sweep left %d kB", h>>10)
	}
	runtime.KeepAlive(feed)
}

// sweepSRT sends valid datagrams cut at every length or broken in one byte.
func sweepSRT(c *vh.C, x *SRT, hit func(*SRT, []byte)) {
	r := c.R
	k, way := c.Idx/2%8, c.Idx/16%5
	p := srt.Packet{Ctrl: true, TS: r.Uint32(), Dest: x.Peer, Info: 5}
	ext := []byte{0, 1, 0, 3, 0, 1, 5, 0, 0, 0, 0, 0xbf, 0, 120, 0, 120, 0, 5, 0, 2, 's', 'r', 't', 's', '0', 'x', 'y', 'z', 0, 3, 0, 1, 0, 0x12, 2, 0x20}
	switch k {
	case 0:
		p.Body, p.Dest = x.Induction().Bytes(), 0
	case 1, 2:
		h := x.Conclusion()
		h.Exts = ext
		if k == 2 {
			h.Ext |= 5
		}
		p.Body = h.Bytes()
	case 3:
		p.Type, p.Body = 3, srt.Loss([]srt.Range{{From: 1, To: 5}, {From: 9, To: 9}, {From: 0x7fffffff, To: 3}})
	case 4:
		p.Type, p.Body = 2, randBytes(r, 28)
	case 5:
		p.Type = pick(r, uint16(1), 6, 7, 8, 0x7fff)
		p.Body = randBytes(r, 8)
	case 6, 7:
		p = srt.Packet{Seq: x.next, Info: 0xc0000001 | uint32(r.Intn(4))<<27, TS: 1, Dest: x.Peer, Body: append([]byte{0x47, 0, 0, 0x10}, randBytes(r, 40)...)}
	}
	b := p.Bytes()
	c.Trace("sweep %d over %s", way, hexHead(b))
	for i := 0; i <= len(b); i++ {
		y := append([]byte{}, b...)
		switch {
		case way < 2:
			y = y[:i]
		case i == len(b):
			continue
		default:
			y[i] = []byte{0xff, 0, y[i] ^ 1<<r.Intn(8)}[way-2]
		}
		if len(y) > 15 && y[0]&0x80 != 0 && y[1] == 5 { // an end only of its own session
			if q, err := srt.Parse(y); err == nil && q.Dest != x.Peer {
				continue
			}
		}
		c.Count("swept_datagrams", 1)
		hit(x, y)
	}
}
