// Package mp4 is a strict reader of fragmented MP4 (ISO/IEC 14496-12) init and
// media segments with one video track.
package mp4

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

type Box struct {
	Type string
	Body []byte
	Off  int // of the box in its file
	Size int
}

// Boxes splits b, which must consist of whole boxes.
func Boxes(b []byte, off int) ([]Box, error) {
	var out []Box
	for p := 0; p < len(b); {
		if len(b)-p < 8 {
			return nil, fmt.Errorf("%d stray bytes at %d", len(b)-p, off+p)
		}
		n := int(binary.BigEndian.Uint32(b[p:]))
		if n < 8 || n > len(b)-p {
			return nil, fmt.Errorf("box %q at %d has size %d with %d bytes left", b[p+4:p+8], off+p, n, len(b)-p)
		}
		out = append(out, Box{string(b[p+4 : p+8]), b[p+8 : p+n], off + p, n})
		p += n
	}
	return out, nil
}

func names(bs []Box) string {
	s := ""
	for _, b := range bs {
		s += b.Type + " "
	}
	return s
}

func (b Box) kids(want ...string) (map[string]Box, error) {
	bs, err := Boxes(b.Body, b.Off+8)
	if err != nil {
		return nil, fmt.Errorf("in %s: %v", b.Type, err)
	}
	m := map[string]Box{}
	for _, k := range bs {
		if _, dup := m[k.Type]; dup {
			return nil, fmt.Errorf("%s twice in %s", k.Type, b.Type)
		}
		m[k.Type] = k
	}
	for _, w := range want {
		if _, ok := m[w]; !ok {
			return nil, fmt.Errorf("no %s in %s (%s)", w, b.Type, names(bs))
		}
	}
	return m, nil
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) n(k int) uint64 {
	if len(r.b) < k {
		r.bad, r.b = true, nil
		return 0
	}
	v := uint64(0)
	for _, x := range r.b[:k] {
		v = v<<8 | uint64(x)
	}
	r.b = r.b[k:]
	return v
}
func (r *rd) zero(k int) error {
	for ; k > 0; k-- {
		if r.n(1) != 0 {
			return fmt.Errorf("reserved byte not zero")
		}
	}
	return nil
}
func (r *rd) end(name string) error {
	if r.bad {
		return fmt.Errorf("%s too short", name)
	}
	if len(r.b) > 0 {
		return fmt.Errorf("%s has %d bytes too many", name, len(r.b))
	}
	return nil
}

type Init struct {
	TrackID                uint32
	MovieScale, MediaScale uint32
	TkW, TkH               uint32 // 16.16
	W, H                   uint16
	Entry                  string // avc1, hev1, ...
	ConfigBox              string
	Config                 []byte
}

var matrix = []uint64{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000}

func ParseInit(b []byte) (*Init, error) {
	top, err := Boxes(b, 0)
	if err != nil {
		return nil, err
	}
	if len(top) != 2 || top[0].Type != "ftyp" || top[1].Type != "moov" {
		return nil, fmt.Errorf("top level is %s", names(top))
	}
	if l := len(top[0].Body); l < 8 || l%4 != 0 {
		return nil, fmt.Errorf("ftyp of %d bytes", l)
	}
	in := &Init{}
	moov, err := top[1].kids("mvhd", "trak", "mvex")
	if err != nil {
		return nil, err
	}
	// mvhd
	r := &rd{b: moov["mvhd"].Body}
	v := r.n(4)
	w := 4
	if v == 1<<24 {
		w = 8
	} else if v != 0 {
		return nil, fmt.Errorf("mvhd version %x", v)
	}
	r.n(w)
	r.n(w)
	in.MovieScale = uint32(r.n(4))
	if d := r.n(w); d != 0 && d != 1<<(8*uint(w))-1 {
		return nil, fmt.Errorf("mvhd duration %d in a live stream", d)
	}
	if r.n(4) != 0x10000 {
		return nil, fmt.Errorf("mvhd rate")
	}
	r.n(2)
	if err := r.zero(10); err != nil {
		return nil, err
	}
	for _, m := range matrix {
		if r.n(4) != m {
			return nil, fmt.Errorf("mvhd matrix")
		}
	}
	if err := r.zero(24); err != nil {
		return nil, err
	}
	next := uint32(r.n(4))
	if err := r.end("mvhd"); err != nil {
		return nil, err
	}
	// trak
	trak, err := moov["trak"].kids("tkhd", "mdia")
	if err != nil {
		return nil, err
	}
	r = &rd{b: trak["tkhd"].Body}
	v = r.n(4)
	w = 4
	if v>>24 == 1 {
		w = 8
	}
	if v&1 == 0 {
		return nil, fmt.Errorf("track not enabled")
	}
	r.n(w)
	r.n(w)
	in.TrackID = uint32(r.n(4))
	r.zero(4)
	if d := r.n(w); d != 0 && d != 1<<(8*uint(w))-1 {
		return nil, fmt.Errorf("tkhd duration %d", d)
	}
	if err := r.zero(8 + 2 + 2); err != nil {
		return nil, fmt.Errorf("tkhd: %v", err)
	}
	r.n(2)
	r.n(2)
	for _, m := range matrix {
		if r.n(4) != m {
			return nil, fmt.Errorf("tkhd matrix")
		}
	}
	in.TkW, in.TkH = uint32(r.n(4)), uint32(r.n(4))
	if err := r.end("tkhd"); err != nil {
		return nil, err
	}
	if in.TrackID == 0 {
		return nil, fmt.Errorf("track id 0")
	}
	if next != 0xffffffff && next <= in.TrackID {
		return nil, fmt.Errorf("next_track_ID %d with track %d", next, in.TrackID)
	}
	mdia, err := trak["mdia"].kids("mdhd", "hdlr", "minf")
	if err != nil {
		return nil, err
	}
	r = &rd{b: mdia["mdhd"].Body}
	v = r.n(4)
	w = 4
	if v>>24 == 1 {
		w = 8
	}
	r.n(w)
	r.n(w)
	in.MediaScale = uint32(r.n(4))
	if d := r.n(w); d != 0 && d != 1<<(8*uint(w))-1 {
		return nil, fmt.Errorf("mdhd duration %d", d)
	}
	lang := r.n(2)
	for _, s := range []uint{10, 5, 0} {
		if c := lang >> s & 31; c == 0 || c > 26 {
			return nil, fmt.Errorf("language %#x", lang)
		}
	}
	r.zero(2)
	if err := r.end("mdhd"); err != nil {
		return nil, err
	}
	h := mdia["hdlr"].Body
	if len(h) < 25 || string(h[8:12]) != "vide" || h[len(h)-1] != 0 || bytes.IndexByte(h[24:], 0) != len(h)-25 {
		return nil, fmt.Errorf("hdlr %x", h)
	}
	minf, err := mdia["minf"].kids("vmhd", "dinf", "stbl")
	if err != nil {
		return nil, err
	}
	if !bytes.Equal(minf["vmhd"].Body, []byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}) {
		return nil, fmt.Errorf("vmhd %x", minf["vmhd"].Body)
	}
	dinf, err := minf["dinf"].kids("dref")
	if err != nil {
		return nil, err
	}
	if !bytes.Equal(dinf["dref"].Body, []byte{0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 12, 'u', 'r', 'l', ' ', 0, 0, 0, 1}) {
		return nil, fmt.Errorf("dref %x", dinf["dref"].Body)
	}
	stbl, err := minf["stbl"].kids("stsd", "stts", "stsc", "stsz", "stco")
	if err != nil {
		return nil, err
	}
	for n, l := range map[string]int{"stts": 8, "stsc": 8, "stsz": 12, "stco": 8} {
		if !bytes.Equal(stbl[n].Body, make([]byte, l)) {
			return nil, fmt.Errorf("%s %x", n, stbl[n].Body)
		}
	}
	sd := stbl["stsd"]
	if len(sd.Body) < 8 || binary.BigEndian.Uint32(sd.Body) != 0 || binary.BigEndian.Uint32(sd.Body[4:]) != 1 {
		return nil, fmt.Errorf("stsd %.20x", sd.Body)
	}
	es, err := Boxes(sd.Body[8:], sd.Off+16)
	if err != nil || len(es) != 1 {
		return nil, fmt.Errorf("stsd has %d entries, %v", len(es), err)
	}
	in.Entry = es[0].Type
	r = &rd{b: es[0].Body}
	if err := r.zero(6); err != nil {
		return nil, fmt.Errorf("sample entry: %v", err)
	}
	if r.n(2) != 1 {
		return nil, fmt.Errorf("data reference index")
	}
	if err := r.zero(16); err != nil {
		return nil, fmt.Errorf("sample entry: %v", err)
	}
	in.W, in.H = uint16(r.n(2)), uint16(r.n(2))
	if r.n(4) != 0x480000 || r.n(4) != 0x480000 || r.n(4) != 0 || r.n(2) != 1 {
		return nil, fmt.Errorf("sample entry resolution or frame count")
	}
	r.n(8)
	r.n(8)
	r.n(8)
	r.n(8)
	if r.n(2) != 0x18 || r.n(2) != 0xffff || r.bad {
		return nil, fmt.Errorf("sample entry depth")
	}
	cs, err := Boxes(r.b, es[0].Off+86)
	if err != nil || len(cs) == 0 {
		return nil, fmt.Errorf("sample entry has %d boxes, %v", len(cs), err)
	}
	for _, x := range cs {
		if x.Type == "avcC" || x.Type == "hvcC" {
			if in.ConfigBox != "" {
				return nil, fmt.Errorf("two configurations")
			}
			in.ConfigBox, in.Config = x.Type, x.Body
		}
	}
	mvex, err := moov["mvex"].kids("trex")
	if err != nil {
		return nil, err
	}
	r = &rd{b: mvex["trex"].Body}
	if r.n(4) != 0 || uint32(r.n(4)) != in.TrackID || r.n(4) != 1 {
		return nil, fmt.Errorf("trex %x", mvex["trex"].Body)
	}
	r.n(12 / 2)
	r.n(12 / 2)
	if err := r.end("trex"); err != nil {
		return nil, err
	}
	return in, nil
}

type Sample struct {
	Dur   uint32
	CTS   int64
	Flags uint32
	Data  []byte
}

// Key: a sync sample that depends on no other.
func (s Sample) Key() bool { return s.Flags&0x10000 == 0 }

type Fragment struct {
	Seq, TrackID uint32
	Base         uint64
	Samples      []Sample
}

func (f *Fragment) Dur() (d uint64) {
	for _, s := range f.Samples {
		d += uint64(s.Dur)
	}
	return
}

func ParseMedia(b []byte) (*Fragment, error) {
	top, err := Boxes(b, 0)
	if err != nil {
		return nil, err
	}
	i := 0
	if len(top) > 0 && top[0].Type == "styp" {
		i = 1
	}
	if len(top) != i+2 || top[i].Type != "moof" || top[i+1].Type != "mdat" {
		return nil, fmt.Errorf("top level is %s", names(top))
	}
	moofBox, mdat := top[i], top[i+1]
	moof, err := moofBox.kids("mfhd", "traf")
	if err != nil {
		return nil, err
	}
	f := &Fragment{}
	r := &rd{b: moof["mfhd"].Body}
	if r.n(4) != 0 {
		return nil, fmt.Errorf("mfhd version")
	}
	f.Seq = uint32(r.n(4))
	if err := r.end("mfhd"); err != nil {
		return nil, err
	}
	traf, err := moof["traf"].kids("tfhd", "tfdt", "trun")
	if err != nil {
		return nil, err
	}
	r = &rd{b: traf["tfhd"].Body}
	fl := r.n(4)
	if fl&0x20000 == 0 || fl&1 != 0 {
		return nil, fmt.Errorf("tfhd flags %#x: offsets not relative to moof", fl)
	}
	f.TrackID = uint32(r.n(4))
	var dDur, dSize, dFlags uint64
	if fl&2 != 0 {
		r.n(4)
	}
	if fl&8 != 0 {
		dDur = r.n(4)
	}
	if fl&0x10 != 0 {
		dSize = r.n(4)
	}
	if fl&0x20 != 0 {
		dFlags = r.n(4)
	}
	if err := r.end("tfhd"); err != nil {
		return nil, err
	}
	r = &rd{b: traf["tfdt"].Body}
	if v := r.n(4); v == 1<<24 {
		f.Base = r.n(8)
	} else {
		f.Base = r.n(4)
	}
	if err := r.end("tfdt"); err != nil {
		return nil, err
	}
	r = &rd{b: traf["trun"].Body}
	fl = r.n(4)
	ver := fl >> 24
	n := r.n(4)
	if fl&1 == 0 {
		return nil, fmt.Errorf("trun without data offset")
	}
	at := moofBox.Off + int(int32(r.n(4)))
	if at != mdat.Off+8 {
		return nil, fmt.Errorf("data offset leads to %d, first sample byte is at %d", at, mdat.Off+8)
	}
	first, hasFirst := uint64(0), fl&4 != 0
	if hasFirst {
		first = r.n(4)
	}
	for k := uint64(0); k < n && !r.bad; k++ {
		s := Sample{Dur: uint32(dDur), Flags: uint32(dFlags)}
		size := dSize
		if fl&0x100 != 0 {
			s.Dur = uint32(r.n(4))
		}
		if fl&0x200 != 0 {
			size = r.n(4)
		}
		if fl&0x400 != 0 {
			s.Flags = uint32(r.n(4))
		} else if k == 0 && hasFirst {
			s.Flags = uint32(first)
		}
		if fl&0x800 != 0 {
			c := uint32(r.n(4))
			s.CTS = int64(c)
			if ver == 1 {
				s.CTS = int64(int32(c))
			}
		}
		if at < 0 || uint64(at)+size > uint64(len(b)) || uint64(at)+size > uint64(mdat.Off+mdat.Size) {
			return nil, fmt.Errorf("sample %d of %d bytes at %d leaves the mdat", k, size, at)
		}
		s.Data = b[at : at+int(size)]
		at += int(size)
		f.Samples = append(f.Samples, s)
	}
	if err := r.end("trun"); err != nil {
		return nil, err
	}
	if at != mdat.Off+mdat.Size {
		return nil, fmt.Errorf("samples end at %d, mdat at %d", at, mdat.Off+mdat.Size)
	}
	return f, nil
}
