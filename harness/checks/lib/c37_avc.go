package lib

import (
	"bytes"
	"fmt"

	"github.com/sbraveyoung/GGmpeg/libaac"
	"github.com/sbraveyoung/GGmpeg/libavc"

	"vharness/ref/h26x"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{
		ID: "C37", Quick: 60000, Thorough: 150000,
		Rule:      "each case: a random AVC decoder configuration (1-3 SPS, 1-4 PPS, optional high-profile tail), several random access units converted and split again by an independent Annex-B parser, a second configuration, truncations of both, and ADTS headers for every object type, rate and channel combination at random frame lengths; distinct by input bytes",
		Technique: "conversion oracle: real conversions re-read by independent Annex-B and ADTS parsers",
		LevelNote: "held on the inputs tried; 4-byte NAL lengths only; the reference parsers are trusted",
		Run:       runC37,
	})
}

func nalList(n [][]byte) string {
	s := ""
	for _, x := range n {
		s += fmt.Sprintf("%02x/%d ", x[0], len(x))
	}
	return s
}

func runC37(c *vh.C) {
	r := c.R
	p := &libavc.Parser{Pps: bytes.NewBuffer(make([]byte, libavc.MaxSpsPpsLen))}
	id := uint64(c.Idx) * 1000
	for cfg := 0; cfg < 2; cfg++ {
		var sps, pps [][]byte
		for i := 0; i <= r.Intn(3); i++ {
			id++
			sps = append(sps, h26x.NAL(r, 0x67, id, 4+r.Intn(60)))
		}
		for i := 0; i <= r.Intn(4); i++ {
			id++
			pps = append(pps, h26x.NAL(r, 0x68, id, 2+r.Intn(300)))
		}
		rec := h26x.AVCConfig(sps, pps)
		size := []int{4, 4, 2, 1}[r.Intn(4)]
		rec[4] = 0xfc | byte(size-1)
		full := len(rec)
		if r.Intn(2) == 0 {
			rec = append(rec, 0xfd, 0xf8, 0xf8, 0)
		}
		sets := append(append([][]byte{}, sps...), pps...)
		// truncations never succeed, and leave the parser usable
		for i := 0; i < 6; i++ {
			cut := r.Intn(full)
			q := &libavc.Parser{Pps: bytes.NewBuffer(nil)}
			var err error
			c.Call("ParseSpecificInfo", func() { err = q.ParseSpecificInfo(append([]byte{}, rec[:cut]...)) })
			if err == nil {
				c.Fail("config-truncated", "configuration of %d bytes cut at %d accepted", full, cut)
			}
			c.Count("truncations", 1)
		}
		var err error
		c.Call("ParseSpecificInfo", func() { err = p.ParseSpecificInfo(append([]byte{}, rec...)) })
		if err != nil {
			c.Fail("config-error", "configuration %s refused: %v", hexClip(rec), err)
		}
		got, err := h26x.SplitAnnexB(p.SpecificInfo)
		if err != nil || !eqNals(got, sets) {
			c.Fail("config-sets", "record %d with sets %s gives %s (%v)", cfg, nalList(sets), nalList(got), err)
		}
		c.Count("configs", 1)
		for au := 0; au < 4; au++ {
			var nals [][]byte
			idr := r.Intn(2) == 0
			inband := r.Intn(4) == 0
			if r.Intn(3) == 0 {
				nals = append(nals, []byte{9, 0xf0})
			}
			if inband {
				id += 2
				nals = append(nals, h26x.NAL(r, 0x67, id, 12+r.Intn(30)), h26x.NAL(r, 0x68, id+1, 9+r.Intn(30)))
			}
			if r.Intn(3) == 0 {
				id++
				nals = append(nals, h26x.NAL(r, 6, id, 9+r.Intn(80)))
			}
			for i := 0; i <= r.Intn(4); i++ {
				id++
				h := byte(0x41)
				if idr {
					h = 0x65
				} else if r.Intn(3) == 0 {
					h = 0x01
				}
				n := 9 + randSize(r, 5000)
				if size == 1 {
					n = 9 + r.Intn(247)
				}
				nals = append(nals, h26x.NAL(r, h, id, n))
			}
			if r.Intn(6) == 0 {
				nals = append(nals, h26x.NAL(r, 12, id, 9+r.Intn(40)))
			}
			src := h26x.Join(size, nals...)
			var out bytes.Buffer
			c.Call("GetAnnexbH264", func() { err = p.GetAnnexbH264(append([]byte{}, src...), &out) })
			if err != nil {
				c.Fail("au-error", "access unit %s refused: %v", nalList(nals), err)
			}
			got, err := h26x.SplitAnnexB(out.Bytes())
			if err != nil {
				c.Fail("au-annexb", "access unit %s gives malformed Annex-B: %v", nalList(nals), err)
			}
			got, want := stripAUD(got), stripAUD(nals)
			if idr && !inband {
				if i := indexNals(got, sets); i < 0 || i > firstType(got, 5) {
					c.Fail("au-sets", "IDR access unit %s comes out without the current parameter sets %s before it: %s", nalList(nals), nalList(sets), nalList(got))
				} else {
					got = append(append([][]byte{}, got[:i]...), got[i+len(sets):]...)
				}
			}
			if !eqNals(got, want) {
				c.Fail("au-nals", "access unit %s becomes %s", nalList(want), nalList(got))
			}
			c.Nontrivial("%x", src)
			c.Count("access_units", 1)
			// an empty NAL unit somewhere: an error without output, or as if
			// it were not there
			if r.Intn(3) == 0 {
				k := r.Intn(len(nals) + 1)
				bad := append(append(append([][]byte{}, nals[:k]...), []byte{}), nals[k:]...)
				var o2 bytes.Buffer
				c.Call("GetAnnexbH264", func() { err = p.GetAnnexbH264(h26x.Join(size, bad...), &o2) })
				if err == nil && !bytes.Equal(o2.Bytes(), out.Bytes()) || err != nil && o2.Len() > 0 {
					c.Fail("au-empty-nal", "access unit %s with an empty NAL unit as number %d gives %d bytes and %v", nalList(nals), k, o2.Len(), err)
				}
				c.Count("empty_nals", 1)
			}
			// cut inside a NAL: error
			for i := 0; i < 3; i++ {
				cut := r.Intn(len(src))
				if _, e := h26x.Split(size, src[:cut]); e == nil {
					continue
				}
				var o2 bytes.Buffer
				c.Call("GetAnnexbH264", func() { err = p.GetAnnexbH264(append([]byte{}, src[:cut]...), &o2) })
				if err == nil {
					c.Fail("au-truncated", "access unit of %d bytes cut at %d accepted", len(src), cut)
				}
				if o2.Len() > 0 {
					c.Fail("au-partial", "access unit of %d bytes cut at %d is refused, but %d bytes come out", len(src), cut, o2.Len())
				}
				c.Count("truncations", 1)
			}
		}
	}
	// AAC
	for i := 0; i < 12; i++ {
		obj, rate, ch := 1+r.Intn(4), r.Intn(13), 1+r.Intn(7)
		asc := h26x.ASC(obj, rate, ch)
		if r.Intn(3) == 0 {
			asc = append(asc, 0x56, 0xe5, 0) // backward compatible SBR extension
		}
		wantObj := obj
		if r.Intn(6) == 0 { // explicit HE-AAC
			v := uint64([]int{5, 29}[r.Intn(2)])
			w := &bitw{}
			w.u(5, v)
			w.u(4, uint64(rate))
			w.u(4, uint64(ch))
			if r.Intn(3) == 0 {
				w.u(4, 15)
				w.u(24, uint64(r.Intn(96000)))
			} else {
				w.u(4, uint64(r.Intn(13)))
			}
			w.u(5, 2)
			w.u(3, 0)
			asc = w.bytes()
			wantObj = 2
		}
		h := &libaac.AACHeader{}
		if r.Intn(2) == 0 { // replaced configuration
			h.Parse(h26x.ASC(1+r.Intn(4), r.Intn(13), 1+r.Intn(7)))
		}
		var err error
		c.Call("AACHeader.Parse", func() { err = h.Parse(append([]byte{}, asc...)) })
		if err != nil {
			c.Fail("asc-error", "AudioSpecificConfig %x refused: %v", asc, err)
		}
		n := r.Intn(8185)
		if r.Intn(3) > 0 {
			n = 1 + r.Intn(600)
		}
		raw := randBytes(r, n)
		var hdr []byte
		c.Call("Adts", func() { hdr = h.Adts(raw) })
		fr, err := h26x.SplitADTS(append(append([]byte{}, hdr...), raw...))
		if err != nil || len(fr) != 1 {
			c.Fail("adts", "ADTS header %x for a frame of %d bytes: %v, %d frames", hdr, n, err, len(fr))
		}
		f := fr[0]
		if f.ObjType != wantObj || f.RateIdx != rate || f.Chans != ch || !bytes.Equal(f.Raw, raw) {
			c.Fail("adts-fields", "config %x (object %d rate %d channels %d), frame %d bytes: ADTS says object %d rate %d channels %d, %d bytes", asc, wantObj, rate, ch, n, f.ObjType, f.RateIdx, f.Chans, len(f.Raw))
		}
		c.Count("adts", 1)
		if e := (&libaac.AACHeader{}).Parse(asc[:r.Intn(2)]); e == nil {
			c.Fail("asc-truncated", "truncated AudioSpecificConfig accepted")
		}
	}
}

type bitw struct {
	b []byte
	n int
}

func (w *bitw) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>i&1) << (7 - w.n%8)
		w.n++
	}
}
func (w *bitw) bytes() []byte { return w.b }

func eqNals(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}
func stripAUD(n [][]byte) (out [][]byte) {
	for _, x := range n {
		if x[0]&31 != 9 {
			out = append(out, x)
		}
	}
	return
}
func firstType(n [][]byte, t byte) int {
	for i, x := range n {
		if x[0]&31 == t {
			return i
		}
	}
	return -1
}
func indexNals(n, sub [][]byte) int {
	for i := 0; i+len(sub) <= len(n); i++ {
		if eqNals(n[i:i+len(sub)], sub) {
			return i
		}
	}
	return -1
}
