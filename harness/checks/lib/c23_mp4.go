package lib

import (
	"bytes"
	"encoding/binary"

	"github.com/sbraveyoung/GGmpeg/libmp4"

	"vharness/ref/h26x"
	"vharness/ref/mp4"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C23", Quick: 60000, Thorough: 800000, Run: runC23,
		Rule:      "random init parameters (track ids, timescales, dimensions over their whole ranges, H.264 sets from 4 bytes to 64 KB, H.265 records), media segments of 1-400 samples from 0 bytes to 200 KB, 64-bit base times, boundary durations and offsets, generic box trees; each parsed by the independent strict reader",
		Technique: "inverse-function oracle: independent strict MP4 reader over what the real builders emit",
		LevelNote: "held on the parameters tried"})
}

func u32(c *vh.C) uint32 {
	r := c.R
	switch r.Intn(5) {
	case 0:
		return uint32(r.Intn(4))
	case 1:
		return 0xffffffff - uint32(r.Intn(3))
	case 2:
		return 1 << uint(r.Intn(32))
	case 3:
		return uint32(r.Intn(100000))
	}
	return r.Uint32()
}

func runC23(c *vh.C) {
	r := c.R
	switch r.Intn(5) {
	case 0, 1:
		id := u32(c)
		if id == 0 {
			id = 1
		}
		scale := u32(c)
		w, h := uint16(u32(c)), uint16(u32(c))
		var out []byte
		var want []byte
		hevc := r.Intn(3) == 0
		if hevc {
			rec := h26x.HEVCConfig(r, [][]byte{h26x.NAL265(r, 32, 1, 20)}, [][]byte{h26x.SPS265(r, 1280, 720, 1+r.Intn(4), 1)}, [][]byte{h26x.NAL265(r, 34, 2, 10+r.Intn(100))})
			if r.Intn(6) == 0 {
				rec = randBytes(r, r.Intn(70000))
			}
			want = append([]byte{}, rec...)
			c.Call("BuildHEVCInitSegment", func() {
				out = libmp4.BuildHEVCInitSegment(libmp4.HEVCInitParams{TrackID: id, Timescale: scale, Width: w, Height: h, HVCCRecord: rec})
			})
		} else {
			n := 4 + r.Intn(60)
			m := r.Intn(60)
			if r.Intn(8) == 0 {
				n, m = 65535-r.Intn(300), r.Intn(65536)
			}
			sps, pps := randBytes(r, n), randBytes(r, m)
			want = []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1, byte(n >> 8), byte(n)}
			want = append(want, sps...)
			want = append(want, 1, byte(m>>8), byte(m))
			want = append(want, pps...)
			c.Call("BuildInitSegment", func() {
				out = libmp4.BuildInitSegment(libmp4.InitSegmentParams{TrackID: id, Timescale: scale, Width: w, Height: h, SPS: sps, PPS: pps})
			})
		}
		in, err := mp4.ParseInit(out)
		if err != nil {
			c.Fail("init", "track %d scale %d %dx%d hevc %v: %v", id, scale, w, h, hevc, err)
		}
		if in.TrackID != id || in.MediaScale != scale || in.MovieScale != scale || in.W != w || in.H != h || in.TkW != uint32(w)<<16 || in.TkH != uint32(h)<<16 {
			c.Fail("init-fields", "track %d scale %d %dx%d came out as %+v", id, scale, w, h, *in)
		}
		cfg := in.Config
		if !hevc && len(cfg) > len(want) && bytes.Equal(cfg[:len(want)], want) && (want[1] == 100 || want[1] == 110 || want[1] == 122 || want[1] == 144) {
			cfg = cfg[:len(want)] // the optional tail for high profiles
		}
		if !bytes.Equal(cfg, want) {
			c.Fail("init-config", "configuration %s, want %s", hexClip(in.Config), hexClip(want))
		}
		if hevc && (in.ConfigBox != "hvcC" || in.Entry != "hev1" && in.Entry != "hvc1") || !hevc && (in.ConfigBox != "avcC" || in.Entry != "avc1" && in.Entry != "avc3") {
			c.Fail("init-entry", "sample entry %s with %s", in.Entry, in.ConfigBox)
		}
		c.Nontrivial("init %d %d %d %d %x", id, scale, w, h, want)
		c.Count("inits", 1)
	case 2:
		// generic boxes
		var build func(d int) (libmp4.Box, int)
		count := 0
		build = func(d int) (libmp4.Box, int) {
			b := libmp4.Box{Type: libmp4.FourCC("bx" + string([]byte{'a' + byte(r.Intn(26)), ' '}))}
			count++
			if d == 0 || r.Intn(3) == 0 {
				b.Body = randBytes(r, r.Intn(300))
			} else {
				for k := r.Intn(4); k > 0; k-- {
					x, _ := build(d - 1)
					b.Body = append(b.Body, x.Bytes()...)
				}
			}
			return b, 0
		}
		b, _ := build(r.Intn(5))
		var out []byte
		c.Call("Box.Bytes", func() { out = b.Bytes() })
		if len(out) != 8+len(b.Body) || int(binary.BigEndian.Uint32(out)) != len(out) || !bytes.Equal(out[4:8], b.Type[:]) || !bytes.Equal(out[8:], b.Body) {
			c.Fail("box", "box %q of %d bytes serialised as %s", b.Type, len(b.Body), hexClip(out))
		}
		v, fl := byte(u32(c)), u32(c)&0xffffff
		if hd := libmp4.FullBoxHeader(v, fl); !bytes.Equal(hd, []byte{v, byte(fl >> 16), byte(fl >> 8), byte(fl)}) {
			c.Fail("fullbox", "version %d flags %#x: %x", v, fl, hd)
		}
		s := libmp4.BuildSegmentType()
		bs, err := mp4.Boxes(s, 0)
		if err != nil || len(bs) != 1 || bs[0].Type != "styp" || len(bs[0].Body) < 8 || len(bs[0].Body)%4 != 0 {
			c.Fail("styp", "%x: %v", s, err)
		}
		c.Count("boxes", count)
		c.Nontrivial("box %x", out)
	default:
		p := libmp4.MediaSegmentParams{TrackID: u32(c), SequenceNumber: u32(c), BaseDecodeTime: uint64(u32(c))<<uint(r.Intn(33)) | uint64(u32(c))}
		n := 1 + r.Intn(20)
		if r.Intn(8) == 0 {
			n = 1 + r.Intn(400)
		}
		for i := 0; i < n; i++ {
			sz := r.Intn(200)
			if r.Intn(30) == 0 {
				sz = r.Intn(200000)
			}
			p.Samples = append(p.Samples, libmp4.Sample{Duration: u32(c), Size: uint32(sz), IsKey: r.Intn(3) == 0, CompositionTimeOffset: int32(u32(c)), Data: randBytes(r, sz)})
		}
		var out []byte
		c.Call("BuildMediaSegment", func() { out = libmp4.BuildMediaSegment(p) })
		f, err := mp4.ParseMedia(out)
		if err != nil {
			c.Fail("media", "%d samples: %v", n, err)
		}
		if f.Seq != p.SequenceNumber || f.TrackID != p.TrackID || f.Base != p.BaseDecodeTime || len(f.Samples) != n {
			c.Fail("media-fields", "seq %d track %d base %d n %d came out as %d %d %d %d", p.SequenceNumber, p.TrackID, p.BaseDecodeTime, n, f.Seq, f.TrackID, f.Base, len(f.Samples))
		}
		for i, s := range f.Samples {
			w := p.Samples[i]
			if s.Dur != w.Duration || s.CTS != int64(w.CompositionTimeOffset) || !bytes.Equal(s.Data, w.Data) {
				c.Fail("sample", "sample %d: duration %d offset %d, %d bytes; want %d %d %d", i, s.Dur, s.CTS, len(s.Data), w.Duration, w.CompositionTimeOffset, len(w.Data))
			}
			if s.Key() != w.IsKey || s.Flags>>24&3 != map[bool]uint32{true: 2, false: 1}[w.IsKey] {
				c.Fail("sample-flags", "sample %d key %v has flags %#x", i, w.IsKey, s.Flags)
			}
		}
		c.Count("samples", n)
		c.Nontrivial("media %d %d %d %x", p.SequenceNumber, p.BaseDecodeTime, n, p.Samples[0].Data)
	}
}
