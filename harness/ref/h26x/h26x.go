// Package h26x builds and splits H.264/H.265 and AAC elementary stream data.
package h26x

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/rand"
)

// Fill returns n payload bytes without start-code emulation, ending non-zero.
func Fill(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	for i := range b {
		if b[i] < 4 {
			b[i] |= 0x40
		}
	}
	return b
}

// NAL makes an H.264 NAL unit: header, 8 byte id (no zero bytes), filler.
func NAL(r *rand.Rand, hdr byte, id uint64, size int) []byte {
	b := append([]byte{hdr}, ID(id)...)
	if size > len(b) {
		b = append(b, Fill(r, size-len(b))...)
	}
	return b
}

// NAL265 makes an H.265 NAL unit of the given type.
func NAL265(r *rand.Rand, typ byte, id uint64, size int) []byte {
	b := append([]byte{typ << 1, 1}, ID(id)...)
	if size > len(b) {
		b = append(b, Fill(r, size-len(b))...)
	}
	return b
}

// ID spells a number in 8 bytes, none below 4.
func ID(id uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[7-i] = 0x20 + byte(id%128)
		id /= 128
	}
	return b
}

// AVCC joins NAL units with 4-byte lengths.
func AVCC(nals ...[]byte) []byte { return Join(4, nals...) }

// Join joins NAL units with lengths of size bytes.
func Join(size int, nals ...[]byte) []byte {
	var b []byte
	for _, n := range nals {
		if len(n)>>(8*size) > 0 {
			panic(fmt.Sprintf("a NAL unit of %d bytes and lengths of %d", len(n), size))
		}
		for i := size - 1; i >= 0; i-- {
			b = append(b, byte(len(n)>>(8*i)))
		}
		b = append(b, n...)
	}
	return b
}

// SplitAVCC splits 4-byte length-prefixed NAL units strictly.
func SplitAVCC(b []byte) ([][]byte, error) { return Split(4, b) }

// Split splits length-prefixed NAL units strictly.
func Split(size int, b []byte) ([][]byte, error) {
	var out [][]byte
	for len(b) > 0 {
		if len(b) < size {
			return nil, fmt.Errorf("avcc: %d bytes left over", len(b))
		}
		n := 0
		for _, x := range b[:size] {
			n = n<<8 | int(x)
		}
		b = b[size:]
		if n <= 0 || n > len(b) {
			return nil, fmt.Errorf("avcc: NAL length %d, %d left", n, len(b))
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out, nil
}

// AnnexB joins NAL units with start codes.
func AnnexB(sc3 func(i int) bool, nals ...[]byte) []byte {
	var b []byte
	for i, n := range nals {
		if sc3 == nil || !sc3(i) {
			b = append(b, 0)
		}
		b = append(b, 0, 0, 1)
		b = append(b, n...)
	}
	return b
}

// SplitAnnexB splits a byte stream at start codes (3 or 4 bytes), strictly: it
// must begin with a start code. Trailing zeros of a NAL belong to the next code.
func SplitAnnexB(b []byte) ([][]byte, error) {
	var out [][]byte
	if len(b) == 0 {
		return nil, nil
	}
	if !bytes.HasPrefix(b, []byte{0, 0, 1}) && !bytes.HasPrefix(b, []byte{0, 0, 0, 1}) {
		return nil, fmt.Errorf("annexb: no start code at the start: % x", b[:min(len(b), 8)])
	}
	i := bytes.Index(b, []byte{0, 0, 1}) + 3
	for {
		j := bytes.Index(b[i:], []byte{0, 0, 1})
		end := len(b)
		if j >= 0 {
			end = i + j
		}
		n := b[i:end]
		for j >= 0 && len(n) > 0 && n[len(n)-1] == 0 {
			n = n[:len(n)-1]
		}
		if len(n) == 0 {
			return nil, fmt.Errorf("annexb: empty NAL unit at %d", i)
		}
		out = append(out, n)
		if j < 0 {
			return out, nil
		}
		i = i + j + 3
	}
}

// AVCConfig builds an AVCDecoderConfigurationRecord.
func AVCConfig(sps, pps [][]byte) []byte {
	p := []byte{0x64, 0, 0x1f}
	if len(sps) > 0 && len(sps[0]) >= 4 {
		p = sps[0][1:4]
	}
	b := []byte{1, p[0], p[1], p[2], 0xff, 0xe0 | byte(len(sps))}
	for _, s := range sps {
		b = append(b, byte(len(s)>>8), byte(len(s)))
		b = append(b, s...)
	}
	b = append(b, byte(len(pps)))
	for _, s := range pps {
		b = append(b, byte(len(s)>>8), byte(len(s)))
		b = append(b, s...)
	}
	return b
}

// ParseAVCConfig reads the parameter sets of a record strictly (trailing
// high-profile fields allowed).
func ParseAVCConfig(b []byte) (sps, pps [][]byte, err error) {
	if len(b) < 7 || b[0] != 1 {
		return nil, nil, fmt.Errorf("avcC: bad record % x", b[:min(len(b), 8)])
	}
	if b[4]&3 != 3 {
		return nil, nil, fmt.Errorf("avcC: NAL length size %d", b[4]&3+1)
	}
	n := int(b[5] & 31)
	b = b[6:]
	take := func() ([]byte, error) {
		if len(b) < 2 || len(b) < 2+int(binary.BigEndian.Uint16(b)) {
			return nil, fmt.Errorf("avcC: truncated")
		}
		k := int(binary.BigEndian.Uint16(b))
		x := b[2 : 2+k]
		b = b[2+k:]
		return x, nil
	}
	for i := 0; i < n; i++ {
		x, err := take()
		if err != nil {
			return nil, nil, err
		}
		sps = append(sps, x)
	}
	if len(b) < 1 {
		return nil, nil, fmt.Errorf("avcC: truncated")
	}
	n = int(b[0])
	b = b[1:]
	for i := 0; i < n; i++ {
		x, err := take()
		if err != nil {
			return nil, nil, err
		}
		pps = append(pps, x)
	}
	return
}

// HEVCConfig builds an HEVCDecoderConfigurationRecord with the given arrays,
// each marked complete or not.
func HEVCConfig(r *rand.Rand, vps, sps, pps [][]byte) []byte {
	b := make([]byte, 22)
	b[0] = 1
	b[1] = 1 // Main
	copy(b[2:6], []byte{0x60, 0, 0, 0})
	b[12] = 93
	b[13] = 0xf0
	b[15] = 0xfc
	b[16] = 0xfd
	b[17] = 0xf8
	b[18] = 0xf8
	b[21] = 0x0f
	b = append(b, 3)
	for _, a := range []struct {
		t byte
		n [][]byte
	}{{32, vps}, {33, sps}, {34, pps}} {
		b = append(b, byte(r.Intn(2))<<7|a.t, byte(len(a.n)>>8), byte(len(a.n)))
		for _, x := range a.n {
			b = append(b, byte(len(x)>>8), byte(len(x)))
			b = append(b, x...)
		}
	}
	return b
}

// ASC builds a 2-byte AudioSpecificConfig.
func ASC(objType, rateIdx, chans int) []byte {
	v := objType<<11 | rateIdx<<7 | chans<<3
	return []byte{byte(v >> 8), byte(v)}
}

var AACRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// ADTS is one parsed ADTS frame.
type ADTS struct {
	ObjType, RateIdx, Chans int
	Raw                     []byte
}

// SplitADTS strictly splits a run of ADTS frames.
func SplitADTS(b []byte) (out []ADTS, err error) {
	for len(b) > 0 {
		if len(b) < 7 {
			return nil, fmt.Errorf("adts: %d bytes left over", len(b))
		}
		if b[0] != 0xff || b[1]&0xf6 != 0xf0 {
			return nil, fmt.Errorf("adts: no sync word: % x", b[:7])
		}
		hl := 7
		if b[1]&1 == 0 {
			hl = 9
		}
		n := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5])>>5
		if n < hl || n > len(b) {
			return nil, fmt.Errorf("adts: frame length %d, %d left", n, len(b))
		}
		if b[6]&3 != 0 {
			return nil, fmt.Errorf("adts: %d extra raw blocks", b[6]&3)
		}
		out = append(out, ADTS{int(b[2]>>6) + 1, int(b[2] >> 2 & 15), int(b[2]&1)<<2 | int(b[3]>>6), b[hl:n]})
		b = b[n:]
	}
	return
}

// MakeADTS builds an ADTS frame, with CRC field if crc.
func MakeADTS(objType, rateIdx, chans int, raw []byte, crc bool) []byte {
	hl := 7
	prot := byte(1)
	if crc {
		hl, prot = 9, 0
	}
	n := hl + len(raw)
	h := []byte{0xff, 0xf0 | prot, byte((objType-1)<<6 | rateIdx<<2 | chans>>2), byte((chans&3)<<6 | n>>11), byte(n >> 3), byte(n<<5) | 0x1f, 0xfc}
	if crc {
		h = append(h, 0xAA, 0x55)
	}
	return append(h, raw...)
}

// BitWriter writes RBSP syntax elements.
type BitWriter struct {
	b []byte
	n uint
}

// Bytes is what was written so far, zero padded.
func (w *BitWriter) Bytes() []byte { return w.b }

func (w *BitWriter) U(n uint, v uint64) {
	for i := int(n) - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.b[w.n/8] |= 0x80 >> (w.n % 8)
		}
		w.n++
	}
}
func (w *BitWriter) UE(v uint64) {
	v++
	l := uint(0)
	for x := v; x > 1; x >>= 1 {
		l++
	}
	w.U(l, 0)
	w.U(l+1, v)
}
func (w *BitWriter) SE(v int64) {
	if v > 0 {
		w.UE(uint64(2*v - 1))
	} else {
		w.UE(uint64(-2 * v))
	}
}
func (w *BitWriter) Trail() {
	w.U(1, 1)
	for w.n%8 != 0 {
		w.U(1, 0)
	}
}

// Escape inserts emulation prevention bytes.
func Escape(rbsp []byte) []byte {
	var out []byte
	z := 0
	for _, b := range rbsp {
		if z >= 2 && b <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, b)
		if b == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// SPSOpt selects the syntax of a generated H.264 SPS.
type SPSOpt struct {
	Profile, Compat, Level byte
	ID                     int
	W, H                   int // luma pixels, even
	POCType                int
	Interlaced             bool
	Scaling                bool
	Chroma                 int
	RefFrames              int
	PocCycle               int
}

var highProfiles = map[byte]bool{100: true, 110: true, 122: true, 244: true, 44: true, 83: true, 86: true, 118: true, 128: true}

// offset is a picture order offset: mostly small, sometimes so large that its
// code has runs of zeros, which need emulation prevention.
func offset(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return (int64(1) << uint(10+r.Intn(21))) - int64(r.Intn(3))
	case 1:
		return -(int64(1) << uint(10+r.Intn(21))) + int64(r.Intn(3))
	}
	return int64(r.Intn(9) - 4)
}

// SPS builds a syntactically valid H.264 sequence parameter set.
func SPS(r *rand.Rand, o SPSOpt) []byte {
	w := &BitWriter{}
	w.U(8, uint64(o.Profile))
	w.U(8, uint64(o.Compat))
	w.U(8, uint64(o.Level))
	w.UE(uint64(o.ID))
	chroma := 1
	if highProfiles[o.Profile] {
		chroma = o.Chroma
		w.UE(uint64(chroma))
		if chroma == 3 {
			w.U(1, 0)
		}
		w.UE(0)
		w.UE(0)
		w.U(1, 0)
		if o.Scaling {
			w.U(1, 1)
			n := 8
			if chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				if r.Intn(2) == 0 {
					w.U(1, 0)
					continue
				}
				w.U(1, 1)
				size := 16
				if i >= 6 {
					size = 64
				}
				last, next := 8, 8
				for j := 0; j < size; j++ {
					if next != 0 {
						d := r.Intn(9) - 4
						if r.Intn(20) == 0 {
							d = -last // stops the list
						}
						w.SE(int64(d))
						next = (last + d + 256) % 256
					}
					if next != 0 {
						last = next
					}
				}
			}
		} else {
			w.U(1, 0)
		}
	}
	w.UE(uint64(r.Intn(13)))
	w.UE(uint64(o.POCType))
	switch o.POCType {
	case 0:
		w.UE(uint64(r.Intn(13)))
	case 1:
		w.U(1, uint64(r.Intn(2)))
		w.SE(offset(r))
		w.SE(offset(r))
		w.UE(uint64(o.PocCycle))
		for i := 0; i < o.PocCycle; i++ {
			w.SE(offset(r))
		}
	}
	w.UE(uint64(o.RefFrames))
	w.U(1, uint64(r.Intn(2)))
	mbw := (o.W + 15) / 16
	w.UE(uint64(mbw - 1))
	unit := 16
	if o.Interlaced {
		unit = 32
	}
	mapu := (o.H + unit - 1) / unit
	w.UE(uint64(mapu - 1))
	if o.Interlaced {
		w.U(1, 0)
		w.U(1, uint64(r.Intn(2)))
	} else {
		w.U(1, 1)
	}
	w.U(1, 1)
	cx, cy := 2, 2
	switch chroma {
	case 0, 3:
		cx, cy = 1, 1
	case 2:
		cx, cy = 2, 1
	}
	if o.Interlaced {
		cy *= 2
	}
	dw, dh := (mbw*16-o.W)/cx, (mapu*unit-o.H)/cy
	if dw > 0 || dh > 0 {
		w.U(1, 1)
		l, t := 0, 0
		if dw > 0 {
			l = r.Intn(dw + 1)
		}
		if dh > 0 {
			t = r.Intn(dh + 1)
		}
		w.UE(uint64(l))
		w.UE(uint64(dw - l))
		w.UE(uint64(t))
		w.UE(uint64(dh - t))
	} else {
		w.U(1, 0)
	}
	w.U(1, 0)
	w.Trail()
	return append([]byte{0x67}, Escape(w.b)...)
}

// SPS265 builds a syntactically valid H.265 SPS (general PTL, no sub-layers
// beyond the flags given).
func SPS265(r *rand.Rand, wd, ht, subLayers, chroma int) []byte {
	w := &BitWriter{}
	w.U(4, 0)
	w.U(3, uint64(subLayers-1))
	w.U(1, 1)
	w.U(2, 0)
	w.U(1, 0)
	w.U(5, 1)
	w.U(32, 0x60000000)
	w.U(4, 0x9)
	w.U(44, 0)
	w.U(8, 93)
	var pf, lf []int
	for i := 0; i < subLayers-1; i++ {
		p, l := r.Intn(2), r.Intn(2)
		pf, lf = append(pf, p), append(lf, l)
		w.U(1, uint64(p))
		w.U(1, uint64(l))
	}
	if subLayers > 1 {
		for i := subLayers - 1; i < 8; i++ {
			w.U(2, 0)
		}
	}
	for i := range pf {
		if pf[i] == 1 {
			w.U(8, 1)
			w.U(32, 0x60000000)
			w.U(48, 0)
		}
		if lf[i] == 1 {
			w.U(8, 90)
		}
	}
	w.UE(0)
	w.UE(uint64(chroma))
	if chroma == 3 {
		w.U(1, 0)
	}
	cw, ch := (wd+7)/8*8, (ht+7)/8*8
	w.UE(uint64(cw))
	w.UE(uint64(ch))
	sx, sy := 2, 2
	switch chroma {
	case 0, 3:
		sx, sy = 1, 1
	case 2:
		sx, sy = 2, 1
	}
	if cw != wd || ch != ht {
		w.U(1, 1)
		w.UE(0)
		w.UE(uint64((cw - wd) / sx))
		w.UE(0)
		w.UE(uint64((ch - ht) / sy))
	} else {
		w.U(1, 0)
	}
	w.UE(0)
	w.UE(0)
	w.UE(4)
	w.U(1, 1)
	for i := 0; i < 1; i++ {
		w.UE(4)
		w.UE(2)
		w.UE(0)
	}
	w.UE(0)
	w.UE(3)
	w.UE(0)
	w.UE(3)
	w.UE(1)
	w.UE(1)
	w.Trail()
	return append([]byte{33 << 1, 1}, Escape(w.b)...)
}

// B64 is standard base64.
func B64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
