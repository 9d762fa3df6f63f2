// Package media generates published streams: RTMP message payloads with known
// NAL units, raw audio frames, times and configurations.
package media

import (
	"bytes"
	"fmt"
	"math/rand"

	"vharness/ref/amf0"
	"vharness/ref/h26x"
)

type Frame struct {
	Kind byte // 8 audio, 9 video, 18 data
	TS   uint32
	Body []byte
	Hdr  bool
	Key  bool
	CTS  int32
	NALs [][]byte
	Raw  []byte
	Conf *Conf // configuration in force (headers: the new one)
}

func (f *Frame) String() string {
	return fmt.Sprintf("{kind %d ts %d hdr %v key %v cts %d len %d}", f.Kind, f.TS, f.Hdr, f.Key, f.CTS, len(f.Body))
}

// Conf is the decoder configuration of one track.
type Conf struct {
	HEVC          bool
	VPS, SPS, PPS [][]byte
	W, H          int
	Record        []byte // avcC or hvcC
	LenSize       int    // of the lengths of NAL units: 1, 2 or 4
	ASC           []byte
	Obj, Rate, Ch int
	Hz_           int // a sampling rate stated explicitly
}

// Hz is the sampling rate of an audio configuration.
func (c *Conf) Hz() int {
	if c.Hz_ != 0 {
		return c.Hz_
	}
	return h26x.AACRates[c.Rate]
}

// Escape spells the audio configuration c in the longer forms: an explicit
// sampling rate and an object type from 32 on.
func (c *Conf) Escape(r *rand.Rand) {
	var bits []byte
	put := func(v, n int) {
		for n--; n >= 0; n-- {
			bits = append(bits, byte(v>>uint(n)&1))
		}
	}
	long := r.Intn(2) == 0
	if long {
		put(31, 5)
		put(r.Intn(20), 6)
	} else {
		put(c.Obj, 5)
	}
	if !long || r.Intn(2) == 0 {
		c.Hz_ = []int{h26x.AACRates[c.Rate], 37800, 47999, 8193, 44056}[r.Intn(5)]
		put(15, 4)
		put(c.Hz_, 24)
	} else {
		put(c.Rate, 4)
	}
	put(c.Ch, 4)
	put(0, 3)
	for len(bits)%8 != 0 {
		bits = append(bits, 0)
	}
	c.ASC = make([]byte, len(bits)/8)
	for i, b := range bits {
		c.ASC[i/8] |= b << uint(7-i%8)
	}
}

func (c *Conf) Sets() [][]byte {
	var o [][]byte
	o = append(o, c.VPS...)
	o = append(o, c.SPS...)
	return append(o, c.PPS...)
}

type Opt struct {
	HEVC            bool
	Video, Audio    bool
	Meta            bool
	Frames          int // video frames (or audio frames if there is no video)
	FrameMs         float64
	Jitter          bool
	GOP             int // 0: random lengths
	Start           uint32
	CTS             bool // positive and negative composition offsets
	MaxSize         int
	Inband          bool // some keyframes carry parameter sets
	Change          bool // configuration changes in mid-stream
	AudioGaps       bool
	ID              uint64 // first frame id
	Rate            int    // AAC rate index, -1 random
	PlainAVC        bool   // single slice per frame
	NoAUD           bool
	FirstKeyDelayed bool // begin with inter frames
	AudioMax        int
}

type Stream struct {
	Opt    Opt
	Frames []*Frame
	NextID uint64
}

func NewVideoConf(r *rand.Rand, hevc bool, id uint64) *Conf {
	c := &Conf{HEVC: hevc, W: 16 * (4 + r.Intn(116)), H: 16 * (4 + r.Intn(64))}
	// the first set is a real one, the identity goes into its id-less tail sets
	c.LenSize = []int{4, 4, 4, 4, 4, 4, 2, 1}[r.Intn(8)]
	tail := func(n int) int {
		if c.LenSize > 1 && r.Intn(6) == 0 {
			return []int{254, 255, 256, 257, 300 + r.Intn(700)}[r.Intn(5)]
		}
		return n
	}
	if hevc {
		c.VPS = [][]byte{h26x.NAL265(r, 32, id, tail(16))}
		c.SPS = [][]byte{h26x.SPS265(r, c.W, c.H, 1, 1)}
		c.PPS = [][]byte{h26x.NAL265(r, 34, id+1, tail(12+r.Intn(8)))}
		c.Record = h26x.HEVCConfig(r, c.VPS, c.SPS, c.PPS)
		c.MarkLen()
		return c
	}
	so := h26x.SPSOpt{Profile: []byte{66, 77, 100}[r.Intn(3)], Level: 31, W: c.W, H: c.H, Chroma: 1, RefFrames: 1 + r.Intn(4), POCType: 2 * r.Intn(2)}
	if r.Intn(20) == 0 && c.LenSize > 1 { // hundreds of bytes
		so.POCType, so.PocCycle = 1, 150+r.Intn(100)
	}
	c.SPS = [][]byte{h26x.SPS(r, so)}
	c.PPS = [][]byte{h26x.NAL(r, 0x68, id, tail(10+r.Intn(20)))}
	if r.Intn(3) == 0 {
		c.PPS = append(c.PPS, h26x.NAL(r, 0x68, id+1, 10+r.Intn(20)))
	}
	if r.Intn(10) == 0 {
		c.SPS = append(c.SPS, h26x.SPS(r, h26x.SPSOpt{Profile: c.SPS[0][1], Level: 31, ID: 1, W: 64 + 16*r.Intn(20), H: 64, Chroma: 1, RefFrames: 1 + r.Intn(4), POCType: 2 * r.Intn(2)}))
	}
	c.Record = h26x.AVCConfig(c.SPS, c.PPS)
	c.MarkLen()
	return c
}

// WithPPS is the same configuration but for the picture parameter set.
func (c *Conf) WithPPS(r *rand.Rand, id uint64) *Conf {
	n := *c
	if c.HEVC {
		n.PPS = [][]byte{h26x.NAL265(r, 34, id, 12+r.Intn(8))}
		n.Record = h26x.HEVCConfig(r, n.VPS, n.SPS, n.PPS)
	} else {
		n.PPS = [][]byte{h26x.NAL(r, 0x68, id, 10+r.Intn(20))}
		n.Record = h26x.AVCConfig(n.SPS, n.PPS)
	}
	n.MarkLen()
	return &n
}

// MarkLen puts LenSize into the record.
func (c *Conf) MarkLen() {
	at := 4
	if c.HEVC {
		at = 21
	}
	c.Record[at] = c.Record[at]&^3 | byte(c.LenSize-1)
}

func NewAudioConf(r *rand.Rand, rate int) *Conf {
	if rate < 0 {
		rate = []int{3, 4, 4, 5, 6, 7, 8, 11, 0, 1, 12, 2, 9, 10}[r.Intn(8+r.Intn(2)*6)]
	}
	c := &Conf{Obj: 2, Rate: rate, Ch: 1 + r.Intn(2)}
	if r.Intn(6) == 0 {
		c.Ch = 1 + r.Intn(7)
	}
	if r.Intn(12) == 0 { // Main, LC, SSR, LTP
		c.Obj = 1 + r.Intn(4)
	}
	c.ASC = h26x.ASC(c.Obj, c.Rate, c.Ch)
	return c
}

// Chans is the number of channels that the configuration Ch stands for.
func (c *Conf) Chans() int {
	if c.Ch == 7 {
		return 8
	}
	return c.Ch
}

func VideoBody(hevc, key bool, pt byte, cts int32, data []byte) []byte {
	b0 := byte(0x20)
	if key {
		b0 = 0x10
	}
	if hevc {
		b0 |= 12
	} else {
		b0 |= 7
	}
	return append([]byte{b0, pt, byte(cts >> 16), byte(cts >> 8), byte(cts)}, data...)
}

func (c *Conf) VideoHeader(ts uint32) *Frame {
	return &Frame{Kind: 9, TS: ts, Hdr: true, Key: true, Conf: c, Body: VideoBody(c.HEVC, true, 0, 0, c.Record)}
}

func (c *Conf) AudioHeader(ts uint32) *Frame {
	return &Frame{Kind: 8, TS: ts, Hdr: true, Conf: c, Body: append([]byte{0xaf, 0}, c.ASC...)}
}

// MetaFrame builds an @setDataFrame/onMetaData style message.
func MetaFrame(r *rand.Rand, ts uint32, set bool, id uint64, props ...amf0.Prop) *Frame {
	if props == nil {
		props = []amf0.Prop{{K: "width", V: 1280.0}, {K: "height", V: 720.0}, {K: "framerate", V: 25.0}, {K: "videocodecid", V: 7.0}, {K: "audiocodecid", V: 10.0}, {K: "encoder", V: fmt.Sprintf("enc%d", id)}, {K: "stereo", V: true}}
	}
	var vals []interface{}
	if set {
		vals = append(vals, "@setDataFrame")
	}
	vals = append(vals, "onMetaData", amf0.ECMA{Count: uint32(len(props)), Props: props})
	return &Frame{Kind: 18, TS: ts, Hdr: true, Body: amf0.Enc(vals...)}
}

func (o *Opt) frameNALs(r *rand.Rand, c *Conf, key bool, id *uint64) [][]byte {
	size := func() int {
		m := o.MaxSize
		if m == 0 {
			m = 1500
		}
		n := 10 + r.Intn(m)
		if r.Intn(10) == 0 {
			n = 10 + r.Intn(8*m)
		}
		if most := 1<<(8*c.LenSize) - 2; n > most {
			n = most - r.Intn(3)
		}
		return n
	}
	next := func() uint64 { *id++; return *id }
	var n [][]byte
	if c.HEVC {
		if !o.NoAUD && r.Intn(8) == 0 {
			n = append(n, []byte{35 << 1, 1, 0x50})
		}
		if key && o.Inband && r.Intn(3) == 0 {
			n = append(n, c.Sets()...)
		}
		k := 1
		if !o.PlainAVC && r.Intn(4) == 0 {
			k += r.Intn(3)
		}
		irap := byte(19)
		if r.Intn(3) == 0 { // BLA, IDR, CRA
			irap = byte(16 + r.Intn(6))
		}
		for i := 0; i < k; i++ {
			t := byte(r.Intn(10)) // TRAIL, TSA, STSA, RADL, RASL
			if key {
				t = irap
			}
			n = append(n, h26x.NAL265(r, t, next(), 1+size()))
		}
		return n
	}
	if !o.NoAUD && r.Intn(8) == 0 {
		n = append(n, []byte{9, 0xf0})
	}
	if key && o.Inband && r.Intn(3) == 0 {
		n = append(n, c.Sets()...)
	}
	if !o.PlainAVC && r.Intn(6) == 0 {
		n = append(n, h26x.NAL(r, 6, next(), 12+r.Intn(50)))
	}
	k := 1
	if !o.PlainAVC && r.Intn(4) == 0 {
		k += r.Intn(3)
	}
	h := byte(0x41)
	if key {
		h = 0x65
	}
	if r.Intn(4) == 0 { // other nal_ref_idc
		h = h&31 | byte(r.Intn(4))<<5
		if key && h == 5 {
			h |= 0x20
		}
	}
	for i := 0; i < k; i++ {
		n = append(n, h26x.NAL(r, h, next(), size()))
	}
	return n
}

// Gen makes a stream.  Frames are in publishing order.
func Gen(r *rand.Rand, o Opt) *Stream {
	s := &Stream{Opt: o}
	id := o.ID
	if o.FrameMs == 0 {
		o.FrameMs = []float64{20, 1000.0 / 30, 40, 1000.0 / 24, 50, 16.6667}[r.Intn(6)]
	}
	if o.AudioMax == 0 {
		o.AudioMax = 600
	}
	var vc, ac *Conf
	if o.Meta {
		id++
		s.Frames = append(s.Frames, MetaFrame(r, o.Start, r.Intn(2) == 0, id))
	}
	if o.Video {
		vc = NewVideoConf(r, o.HEVC, id+1)
		id += 4
		s.Frames = append(s.Frames, vc.VideoHeader(o.Start))
	}
	if o.Audio {
		ac = NewAudioConf(r, o.Rate)
		s.Frames = append(s.Frames, ac.AudioHeader(o.Start))
		if r.Intn(2) == 0 && len(s.Frames) > 1 {
			n := len(s.Frames)
			s.Frames[n-1], s.Frames[n-2] = s.Frames[n-2], s.Frames[n-1]
		}
	}
	aclock := 0.0
	if o.Audio && o.Video && r.Intn(3) == 0 {
		aclock = float64(r.Intn(60))
	}
	audioUpTo := func(t float64) {
		for o.Audio && aclock <= t {
			id++
			n := 10 + r.Intn(o.AudioMax)
			raw := append(h26x.ID(id), h26x.Fill(r, n)...)
			s.Frames = append(s.Frames, &Frame{Kind: 8, TS: o.Start + uint32(aclock+0.5), Raw: raw, Conf: ac, Body: append([]byte{0xaf, 1}, raw...)})
			aclock += 1024 * 1000 / float64(h26x.AACRates[ac.Rate])
			if o.AudioGaps && r.Intn(40) == 0 {
				aclock += float64(20 + r.Intn(400))
			}
			if o.Change && r.Intn(120) == 0 {
				ac = NewAudioConf(r, o.Rate)
				s.Frames = append(s.Frames, ac.AudioHeader(o.Start+uint32(aclock)))
			}
		}
	}
	gopLeft := 0
	if o.FirstKeyDelayed {
		gopLeft = 1 + r.Intn(4)
	}
	t := 0.0
	for i := 0; i < o.Frames; i++ {
		if !o.Video {
			audioUpTo(aclock)
			continue
		}
		audioUpTo(t)
		ts := o.Start + uint32(t+0.5)
		key := gopLeft == 0
		if key {
			gopLeft = o.GOP
			if o.GOP == 0 {
				gopLeft = 1 + r.Intn(30)
			}
			if o.Change && i > 0 && r.Intn(4) == 0 {
				if r.Intn(3) == 0 {
					vc = vc.WithPPS(r, id+1)
				} else {
					vc = NewVideoConf(r, o.HEVC, id+1)
				}
				id += 4
				s.Frames = append(s.Frames, vc.VideoHeader(ts))
			}
		}
		gopLeft--
		f := &Frame{Kind: 9, TS: ts, Key: key, Conf: vc}
		f.NALs = o.frameNALs(r, vc, key, &id)
		if o.CTS {
			f.CTS = int32(o.FrameMs) * int32(r.Intn(5)-1)
			if r.Intn(20) == 0 {
				f.CTS = []int32{1, -1, 2, 3, -8388608, 8388607, 1000, -1000}[r.Intn(8)]
			}
		}
		f.Body = VideoBody(vc.HEVC, key, 1, f.CTS, h26x.Join(vc.LenSize, f.NALs...))
		s.Frames = append(s.Frames, f)
		d := o.FrameMs
		if o.Jitter {
			d += float64(r.Intn(21)-10) / 10 * o.FrameMs / 2
		}
		t += d
	}
	s.NextID = id
	return s
}

// StripAUD removes access unit delimiters.
func StripAUD(hevc bool, n [][]byte) (out [][]byte) {
	for _, x := range n {
		if hevc && x[0]>>1&63 == 35 || !hevc && x[0]&31 == 9 {
			continue
		}
		out = append(out, x)
	}
	return
}

func EqNALs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// isSPS reports a sequence parameter set.
func IsSPS(hevc bool, n []byte) bool {
	if hevc {
		return n[0]>>1&63 == 33
	}
	return n[0]&31 == 7
}

// CheckAU compares received NAL units with a frame: AUDs are free, a keyframe
// without parameter sets must come with the configuration's before it when
// needSets, any frame may carry them.
func (f *Frame) CheckAU(got [][]byte, needSets bool) error {
	hevc := f.Conf.HEVC
	g, w := StripAUD(hevc, got), StripAUD(hevc, f.NALs)
	if EqNALs(g, w) {
		if f.Key && needSets {
			for _, n := range w {
				if IsSPS(hevc, n) {
					return nil
				}
			}
			return fmt.Errorf("keyframe without parameter sets before it")
		}
		return nil
	}
	sets := f.Conf.Sets()
	if f.Key && len(g) == len(w)+len(sets) && EqNALs(g[:len(sets)], sets) && EqNALs(g[len(sets):], w) {
		return nil
	}
	return fmt.Errorf("NAL units %s, want %s (sets %s)", List(g), List(w), List(sets))
}

func List(n [][]byte) string {
	s := ""
	for i, x := range n {
		if i == 8 {
			return s + "..."
		}
		e := x
		if len(e) > 10 {
			e = e[:10]
		}
		s += fmt.Sprintf("%x/%d ", e, len(x))
	}
	return "[" + s + "]"
}
