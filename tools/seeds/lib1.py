SEEDS = [
dict(id="B01-nak-wrap", prop="C32", pkg="libsrt",
 edits=[("libsrt/control.go", "if lr.From == lr.To {", "if lr.From >= lr.To {")],
 needs="a loss range that crosses the 31-bit sequence wrap (From > To)",
 breaks="the range is written as a single lost packet",
 demo='''
package libsrt_test

import (
	"testing"

	"github.com/sbraveyoung/GGmpeg/libsrt"
)

func TestSeedDemo(t *testing.T) {
	in := []libsrt.LossRange{{From: 0x7ffffffe, To: 3}}
	out := libsrt.ParseNAK(libsrt.MarshalNAK(in))
	if len(out) != 1 || out[0] != in[0] {
		t.Fatalf("%v became %v", in, out)
	}
}
'''),
dict(id="B02-pts-bit32", prop="C33", pkg="libsrt",
 edits=[("libsrt/tsdemux.go", "v := uint64(b[0]&0x0E) << 29", "v := uint64(b[0]&0x06) << 29")],
 needs="PTS/DTS of 2^32 or more (13 hours of stream time)",
 breaks="times lose their top bit, so they jump back half way to the 33-bit wrap",
 demo='''
package libsrt_test

import (
	"testing"

	"github.com/sbraveyoung/GGmpeg/libsrt"
)

func crc(b []byte) []byte {
	c := uint32(0xffffffff)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			hi := c>>31 ^ uint32(x>>uint(i)&1)
			c <<= 1
			if hi != 0 {
				c ^= 0x04c11db7
			}
		}
	}
	return append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

func pkt(pid int, pusi bool, cc int, payload []byte) []byte {
	p := []byte{0x47, byte(pid >> 8), byte(pid), 0x10 | byte(cc)}
	if pusi {
		p[1] |= 0x40
	}
	if n := 184 - len(payload); n > 0 {
		p[3] |= 0x20
		p = append(p, byte(n-1))
		if n > 1 {
			p = append(p, 0)
			for i := 2; i < n; i++ {
				p = append(p, 0xff)
			}
		}
	}
	return append(p, payload...)
}

func sec(b []byte) []byte {
	b = append([]byte{0}, crc(b)...)
	for len(b) < 184 {
		b = append(b, 0xff)
	}
	return b
}

func TestSeedDemo(t *testing.T) {
	d := libsrt.NewDemuxer()
	var got []uint64
	d.OnVideo = func(a libsrt.AccessUnit) { got = append(got, a.PTS) }
	ts := pkt(0, true, 0, sec([]byte{0, 0xb0, 13, 0, 1, 0xc1, 0, 0, 0, 1, 0xe1, 0}))
	ts = append(ts, pkt(0x100, true, 0, sec([]byte{2, 0xb0, 18, 0, 1, 0xc1, 0, 0, 0xe1, 1, 0xf0, 0, 0x1b, 0xe1, 1, 0xf0, 0}))...)
	want := []uint64{1<<32 - 3600, 1 << 32, 1<<33 - 1}
	for i, p := range append(append([]uint64(nil), want...), 0) {
		pes := []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0x80, 5, 0x21 | byte(p>>29)&0xe, byte(p >> 22), byte(p>>14) | 1, byte(p >> 7), byte(p<<1) | 1,
			0, 0, 0, 1, 0x65, 1, 2, 3, 4, byte(i)}
		ts = append(ts, pkt(0x101, true, i, pes)...)
	}
	d.Feed(ts)
	if len(got) < 3 {
		t.Fatal(got)
	}
	for i, w := range want {
		if got[i] != w {
			t.Fatalf("unit %d: PTS %d, want %d", i, got[i], w)
		}
	}
}
'''),
dict(id="B03-fua-exact", prop="C25", pkg="librtsp",
 edits=[("librtsp/h264.go", "if end == len(body) {", "if end-i < fragSize {")],
 needs="a NAL unit whose body is an exact multiple of the fragment size",
 breaks="no fragment carries the end bit, so receivers never complete the NAL unit",
 demo='''
package librtsp_test

import (
	"testing"

	"github.com/sbraveyoung/GGmpeg/librtsp"
)

func TestSeedDemo(t *testing.T) {
	for _, n := range []int{1 + 2*98, 1 + 3*98, 2 + 2*98, 500} {
		nal := make([]byte, n)
		nal[0] = 0x65
		ps := librtsp.PackNAL(nal, 100)
		last := ps[len(ps)-1]
		if last[1]&0x40 == 0 {
			t.Fatalf("%d bytes: last fragment without the end bit", n)
		}
	}
}
'''),
dict(id="B04-ts-reserved-af", prop="C19", pkg="libmpeg",
 edits=[("libmpeg/pes.go", "(uint64(b[5]&0x0e) << 29)", "(uint64(b[0]&0x0e) << 29)")],
 needs="parsing a PES header whose PTS and DTS lie on different sides of a 2^30 boundary",
 breaks="the parsed DTS takes its top bits from the PTS",
 demo='''
package libmpeg_test

import (
	"bytes"
	"testing"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libmpeg"
)

func stamp(tag byte, p uint64) []byte {
	return []byte{tag<<4 | 1 | byte(p>>29)&0xe, byte(p >> 22), byte(p>>14) | 1, byte(p >> 7), byte(p<<1) | 1}
}

func TestSeedDemo(t *testing.T) {
	pts, dts := uint64(1<<31+1000), uint64(1<<31-2600)
	b := []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0xc0, 10}
	b = append(b, stamp(3, pts)...)
	b = append(b, stamp(1, dts)...)
	b = append(b, 0, 0, 0, 1, 0x65, 1)
	p := libmpeg.NewPES()
	if err := p.Parse(easyio.NewEasyReader(bytes.NewReader(b))); err != nil {
		t.Fatal(err)
	}
	if p.PTS != pts || p.DTS != dts {
		t.Fatalf("PTS %d DTS %d", p.PTS, p.DTS)
	}
}
'''),
]
