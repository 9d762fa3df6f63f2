package lib

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/sbraveyoung/GGmpeg/libamf"
	"github.com/sbraveyoung/GGmpeg/libflv"

	"vharness/ref/amf0"
	"vharness/ref/flv"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{
		ID: "C18", Quick: 12000, Thorough: 200000,
		Rule:      "each case: a batch of random audio and video payloads over all format/codec/packet-type nibbles and sizes, and a metadata object with known, unknown and oddly typed properties (wrapped or not), each parsed, compared field by field, re-serialised and read back by an independent FLV and AMF0 parser; distinct by payload bytes",
		Technique: "round-trip oracle over real parse/serialise executions with independent FLV/AMF0 parsers",
		LevelNote: "held on the payloads tried; reference FLV and AMF0 parsers are trusted",
		Run:       runC18,
	})
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func randTS(r *rand.Rand) uint32 {
	switch r.Intn(6) {
	case 0:
		return []uint32{0, 1, 0xffffff, 0xfffffe, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(9)]
	case 1:
		return r.Uint32()
	}
	return uint32(r.Intn(1 << 24))
}

func randSize(r *rand.Rand, max int) int {
	switch r.Intn(8) {
	case 0:
		return r.Intn(8)
	case 1:
		return []int{127, 128, 129, 255, 256, 4095, 4096, 4097, 65535, 65536, 65537}[r.Intn(11)] % (max + 1)
	case 2:
		return r.Intn(max + 1)
	}
	return r.Intn(400)
}

// OBS- and ffmpeg-like properties with their usual AMF types, plus odd ones.
func randMeta(r *rand.Rand) []amf0.Prop {
	cand := []amf0.Prop{{K: "duration", V: 0.0}, {K: "duration", V: 12.345}, {K: "width", V: 1280.0}, {K: "height", V: 720.0}, {K: "videodatarate", V: 2500.5},
		{K: "framerate", V: 29.97}, {K: "videocodecid", V: 7.0}, {K: "videocodecid", V: "avc1"}, {K: "audiodatarate", V: 160.0}, {K: "audiosamplerate", V: 44100.0},
		{K: "audiosamplesize", V: 16.0}, {K: "audiochannels", V: 2.0}, {K: "audiochannels", V: "2"}, {K: "stereo", V: true}, {K: "stereo", V: "yes"}, {K: "audiocodecid", V: 10.0}, {K: "audiocodecid", V: "mp4a"},
		{K: "encoder", V: "obs-output module (libobs version 29.1)"}, {K: "encoder", V: 5.0}, {K: "filesize", V: 0.0}, {K: "fps", V: 30.0}, {K: "profile", V: nil}, {K: "level", V: amf0.Strict{1.0, "a"}},
		{K: "2.1", V: false}, {K: "3.1", V: false}, {K: "custom", V: amf0.Obj{{K: "a", V: 1.5}}}, {K: "author", V: "x"}, {K: "displayWidth", V: 1920.0}, {K: "Width", V: "big"},
		{K: "tagbase", V: amf0.Obj{{K: "timestamp", V: 77.0}}}, {K: "secondfield", V: "evil"}, {K: "creationdate", V: amf0.Date{Ms: 1.6e12}}}
	seen := map[string]bool{}
	var out []amf0.Prop
	for i, n := 0, r.Intn(14); i < n; i++ {
		p := cand[r.Intn(len(cand))]
		if r.Intn(8) == 0 {
			p = amf0.Prop{K: fmt.Sprintf("x%d", i), V: amfWire(r, 2)}
		}
		if !seen[p.K] {
			seen[p.K] = true
			out = append(out, p)
		}
	}
	return out
}

func checkFLVWrite(c *vh.C, tag libflv.Tag, typ byte, ts uint32, payload []byte) {
	var out []byte
	c.Call("FLVWrite", func() { out = libflv.FLVWrite(tag) })
	rd := bytes.NewReader(out)
	t, err := flv.ReadTag(rd)
	if err != nil || rd.Len() != 0 {
		c.Fail("flv-tag", "FLV tag for a type %d payload of %d bytes is malformed: %v, %d bytes over", typ, len(payload), err, rd.Len())
	}
	if t.Type != typ || t.TS != ts {
		c.Fail("flv-tag", "FLV tag has type %d timestamp %d, want %d %d", t.Type, t.TS, typ, ts)
	}
	if payload != nil && !bytes.Equal(t.Data, payload) {
		c.Fail("flv-payload", "FLV tag payload differs from the message: %s vs %s", hexClip(t.Data), hexClip(payload))
	}
}

func hexClip(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x..(%d)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func runC18(c *vh.C) {
	r := c.R
	for k := 0; k < 8; k++ {
		// audio
		b := randBytes(r, 1+randSize(r, 70000))
		if r.Intn(2) == 0 {
			b[0] = byte([]int{10, 13, 2, 7, 8, 14}[r.Intn(6)]<<4) | b[0]&15
		}
		if r.Intn(20) == 0 {
			b = b[:r.Intn(min(len(b), 3))]
		}
		ts := randTS(r)
		in := append([]byte{}, b...)
		var at *libflv.AudioTag
		var err error
		c.Call("ParseAudioTag", func() {
			at, err = libflv.ParseAudioTag(libflv.TagBase{TagType: 8, TimeStamp: ts, DataSize: uint32(len(b))}, in)
		})
		packet := len(b) > 0 && (b[0]>>4 == 10 || b[0]>>4 == 13)
		switch {
		case len(b) == 0 || packet && len(b) < 2:
			if err == nil {
				c.Fail("audio-truncated", "truncated audio payload %x accepted", b)
			}
			c.Count("truncated", 1)
		case len(b) == 1 && err != nil: // header without data: either way
		case err != nil:
			c.Fail("audio-error", "legal audio payload %s refused: %v", hexClip(b), err)
		default:
			if at.SoundFormat != b[0]>>4 || at.SoundRate != b[0]>>2&3 || at.SoundSize != b[0]>>1&1 || at.SoundType != b[0]&1 {
				c.Fail("audio-fields", "audio header %02x parsed as format %d rate %d size %d type %d", b[0], at.SoundFormat, at.SoundRate, at.SoundSize, at.SoundType)
			}
			off := 1
			if packet {
				off = 2
				if at.AACPacketType != b[1] {
					c.Fail("audio-fields", "packet type %d parsed as %d", b[1], at.AACPacketType)
				}
			}
			if !bytes.Equal(at.SoundData, b[off:]) || !bytes.Equal(at.Data(), b[off:]) {
				c.Fail("audio-data", "sound data of %s is %s", hexClip(b), hexClip(at.SoundData))
			}
			if m := at.Marshal(); !bytes.Equal(m, b) {
				c.Fail("audio-marshal", "payload %s re-serialised as %s", hexClip(b), hexClip(m))
			}
			checkFLVWrite(c, at, 8, ts, b)
			c.Nontrivial("a%x", b)
			c.Count("audio", 1)
		}
		// video
		b = randBytes(r, 1+randSize(r, 70000))
		if r.Intn(2) == 0 {
			b[0] = byte(1+r.Intn(5))<<4 | byte([]int{7, 12, 13, 2, 4}[r.Intn(5)])
		}
		if r.Intn(12) == 0 {
			b = b[:r.Intn(min(len(b), 6))]
		}
		ts = randTS(r)
		in = append([]byte{}, b...)
		var vt *libflv.VideoTag
		c.Call("ParseVideoTag", func() {
			vt, err = libflv.ParseVideoTag(libflv.TagBase{TagType: 9, TimeStamp: ts, DataSize: uint32(len(b))}, in)
		})
		packet = len(b) > 0 && (b[0]&15 == 7 || b[0]&15 == 12 || b[0]&15 == 13)
		switch {
		case len(b) == 0 || packet && len(b) < 5:
			if err == nil {
				c.Fail("video-truncated", "truncated video payload %x accepted", b)
			}
			c.Count("truncated", 1)
		case err != nil:
			c.Fail("video-error", "legal video payload %s refused: %v", hexClip(b), err)
		default:
			if vt.FrameType != b[0]>>4 || vt.CodecID != b[0]&15 {
				c.Fail("video-fields", "video header %02x parsed as frame type %d codec %d", b[0], vt.FrameType, vt.CodecID)
			}
			off := 1
			if packet {
				off = 5
				if vt.AVCPacketType != b[1] || vt.Cts&0xffffff != uint32(b[2])<<16|uint32(b[3])<<8|uint32(b[4]) {
					c.Fail("video-fields", "packet header %x parsed as type %d cts %d", b[:5], vt.AVCPacketType, vt.Cts)
				}
			}
			if !bytes.Equal(vt.VideoData, b[off:]) || !bytes.Equal(vt.Data(), b[off:]) {
				c.Fail("video-data", "video data of %s is %s", hexClip(b), hexClip(vt.VideoData))
			}
			if m := vt.Marshal(); !bytes.Equal(m, b) {
				c.Fail("video-marshal", "payload %s re-serialised as %s", hexClip(b), hexClip(m))
			}
			checkFLVWrite(c, vt, 9, ts, b)
			c.Nontrivial("v%x", b)
			c.Count("video", 1)
		}
	}
	// metadata
	props := randMeta(r)
	var pv interface{} = amf0.Obj(props)
	if r.Intn(2) == 0 {
		pv = amf0.ECMA{Count: uint32([]int{len(props), 0, 3}[r.Intn(3)]), Props: props}
	}
	name, typed := "onMetaData", true
	if r.Intn(4) == 0 { // script data under other names, of any shape
		name = []string{"onTextData", "onCuePoint", "onFI", "", "|RtmpSampleAccess", "@setDataFrames"}[r.Intn(6)]
		if r.Intn(3) == 0 {
			pv, typed = []interface{}{"text", 12.5, true, nil}[r.Intn(4)], false
		}
		c.Count("metadata_other_names", 1)
	}
	vals := []interface{}{name, pv}
	if r.Intn(8) == 0 {
		vals, typed = append(vals, []interface{}{"more", 1.0, false}[r.Intn(3)]), false
		c.Count("metadata_more_values", 1)
	}
	kept := vals
	if r.Intn(8) == 0 {
		vals = append([]interface{}{amf0.Long(name)}, vals[1:]...)
	}
	switch r.Intn(4) {
	case 0, 1:
		vals = append([]interface{}{"@setDataFrame"}, vals...)
	case 2:
		if r.Intn(2) == 0 {
			vals = append([]interface{}{amf0.Long("@setDataFrame")}, vals...)
			c.Count("metadata_long_verb", 1)
		}
	}
	b := amf0.Enc(vals...)
	ts := randTS(r)
	var mt *libflv.MetaTag
	var err error
	c.Trace("metadata %s", clip(amf0.Norm(pv), 400))
	c.Call("ParseMetaTag", func() {
		mt, err = libflv.ParseMetaTag(libflv.TagBase{TagType: 18, TimeStamp: ts, DataSize: uint32(len(b))}, libamf.AMF0, append([]byte{}, b...))
	})
	if err != nil {
		c.Fail("meta-error", "metadata refused: %v", err)
	}
	get := func(k string) (float64, bool) {
		f, ok := 0.0, false
		for _, p := range props {
			if x, is := p.V.(float64); is && p.K == k {
				f, ok = x, true
			}
		}
		return f, ok
	}
	for _, p := range props { // a differently spelled duplicate makes the typed field ambiguous
		if p.K == "Width" {
			get = func(string) (float64, bool) { return 0, false }
		}
	}
	if !typed {
		get = func(string) (float64, bool) { return 0, false }
	}
	if f, ok := get("width"); ok && mt.Width != int(f) {
		c.Fail("meta-field", "width %v parsed as %d", f, mt.Width)
	}
	if f, ok := get("videocodecid"); ok && mt.VideoCodecID != f {
		c.Fail("meta-field", "videocodecid %v parsed as %v", f, mt.VideoCodecID)
	}
	if f, ok := get("audiosamplerate"); ok && mt.AudioSampleRate != int(f) {
		c.Fail("meta-field", "audiosamplerate %v parsed as %d", f, mt.AudioSampleRate)
	}
	if mt.TimeStamp != ts {
		c.Fail("meta-ts", "timestamp %d became %d", ts, mt.TimeStamp)
	}
	var m []byte
	c.Call("MetaTag.Marshal", func() { m = mt.Marshal() })
	back, err := amf0.Dec(m)
	if err != nil || len(back) != len(kept) {
		c.Fail("meta-marshal", "metadata re-serialised as %s: %v, %d values", hexClip(m), err, len(back))
	}
	for i := range kept {
		if amf0.Norm(back[i]) != amf0.Norm(kept[i]) {
			c.Fail("meta-values", "metadata value %d: %s became %s", i, amf0.Norm(kept[i]), amf0.Norm(back[i]))
		}
	}
	checkFLVWrite(c, mt, 18, ts, m)
	c.Nontrivial("m%x", b)
	c.Count("metadata", 1)
	// any bytes at all: an error or a tag, never a panic
	for k := 0; k < 4; k++ {
		j := append([]byte{}, b...)
		for i := 0; i < 1+r.Intn(4); i++ {
			j[r.Intn(len(j))] = byte(r.Intn(256))
		}
		j = j[:r.Intn(len(j)+1)]
		c.Call("ParseMetaTag", func() {
			if mt, err := libflv.ParseMetaTag(libflv.TagBase{TagType: 18}, libamf.AMF0, j); err == nil {
				libflv.FLVWrite(mt)
			}
		})
		c.Count("mutated", 1)
	}
}
