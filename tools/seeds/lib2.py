SEEDS = [
dict(id="B05-av1-tag", prop="C18", pkg="libflv",
 edits=[("libflv/video.go", "\tcase FLV_VIDEO_AVC, FLV_VIDEO_HEVC, FLV_VIDEO_AV1:\n\t\t//Same", "\tcase FLV_VIDEO_AVC, FLV_VIDEO_HEVC:\n\t\t//Same")],
 needs="AV1 video tags",
 breaks="an AV1 tag is written without its packet type and composition time, so it parses back as something else",
 demo='''
package libflv_test

import (
	"bytes"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libflv"
)

func TestSeedDemo(t *testing.T) {
	for _, codec := range []uint8{libflv.FLV_VIDEO_AVC, libflv.FLV_VIDEO_HEVC, libflv.FLV_VIDEO_AV1} {
		in := []byte{0x10 | codec, 1, 0, 0, 40, 0xde, 0xad, 0xbe, 0xef}
		v, err := libflv.ParseVideoTag(libflv.TagBase{TagType: 9, DataSize: uint32(len(in)), TimeStamp: 10}, in)
		if err != nil {
			t.Fatal(err)
		}
		if out := v.Marshal(); !bytes.Equal(out, in) {
			t.Fatalf("% x became % x", in, out)
		}
	}
}
'''),
dict(id="B06-adts-4k", prop="C37", pkg="libaac",
 edits=[("libaac/aac.go", "frameLen := uint16(len(data)) + 7", "frameLen := (uint16(len(data)) + 7) & 0x0fff")],
 needs="AAC frames of 4089 bytes or more",
 breaks="the ADTS frame length loses its top bit, a player resynchronises inside the frame",
 demo='''
package libaac_test

import (
	"testing"

	"github.com/sbraveyoung/GGmpeg/libaac"
)

func TestSeedDemo(t *testing.T) {
	h := &libaac.AACHeader{}
	if err := h.Parse([]byte{0x12, 0x10}); err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{1, 300, 1024, 4088, 4089, 6000, 8184} {
		b := h.Adts(make([]byte, n))
		got := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5])>>5
		if got != n+7 {
			t.Fatalf("%d bytes of data: frame length %d", n, got)
		}
	}
}
'''),
dict(id="B07-profile-level", prop="C26", pkg="librtsp",
 edits=[("librtsp/sdp.go", "%02X%02X%02X", "%02X%02X%X")],
 needs="an H.264 level below 1.6, such as 9 for level 1b",
 breaks="profile-level-id has five hexadecimal digits",
 demo='''
package librtsp_test

import (
	"strings"
	"testing"

	"github.com/sbraveyoung/GGmpeg/librtsp"
)

func TestSeedDemo(t *testing.T) {
	b := librtsp.BuildSDP(librtsp.SDPParams{StreamID: "s", HasVideo: true,
		SPS: []byte{0x67, 66, 0xc0, 9, 0xda, 5, 7, 0xe4}, PPS: []byte{0x68, 0xce, 0x38, 0x80}})
	s := string(b)
	i := strings.Index(s, "profile-level-id=")
	if i < 0 {
		t.Fatal(s)
	}
	v := s[i+len("profile-level-id="):]
	if j := strings.IndexAny(v, ";\\r\\n "); j >= 0 {
		v = v[:j]
	}
	if !strings.EqualFold(v, "42c009") {
		t.Fatalf("profile-level-id %q", v)
	}
}
'''),
dict(id="B08-header-colon", prop="C29", pkg="librtsp",
 edits=[("librtsp/message.go", 'idx := strings.Index(line, ":")', 'idx := strings.LastIndex(line, ":")')],
 needs="a request header whose value contains a colon, such as a date or a URL",
 breaks="the header is stored under a name that includes part of its value",
 demo='''
package librtsp_test

import (
	"bufio"
	"strings"
	"testing"

	"github.com/sbraveyoung/GGmpeg/librtsp"
)

func TestSeedDemo(t *testing.T) {
	r, err := librtsp.ReadRequest(bufio.NewReader(strings.NewReader("OPTIONS rtsp://h/live/a RTSP/1.0\\r\\nCSeq: 7\\r\\nDate: Tue, 15 Nov 1994 08:12:31 GMT\\r\\n\\r\\n")))
	if err != nil {
		t.Fatal(err)
	}
	if r.Headers.Get("CSeq") != "7" || r.Headers.Get("Date") != "Tue, 15 Nov 1994 08:12:31 GMT" {
		t.Fatalf("%q", r.Headers)
	}
}
'''),
dict(id="B10-amf-typed-ref", prop="C17", pkg="libamf",
 edits=[("libamf/amf0.go", "case ObjectMarker, EcmaArrayMarker, TypedObjectMarker:", "case ObjectMarker, EcmaArrayMarker:")],
 needs="a reference after a typed object",
 breaks="references are counted without typed objects and resolve to the wrong value",
 demo='''
package libamf_test

import (
	"bytes"
	"reflect"
	"testing"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libamf"
)

func TestSeedDemo(t *testing.T) {
	in := []byte{
		0x10, 0, 1, 'T', 0, 1, 'x', 1, 1, 0, 0, 9, // typed object T{x: true}
		3, 0, 1, 'y', 1, 0, 0, 0, 9, // object {y: false}
		7, 0, 0, // the first
		7, 0, 1, // the second
	}
	got, err := libamf.AMF0.Decode(easyio.NewEasyReader(bytes.NewReader(in)))
	if err != nil || len(got) != 4 {
		t.Fatal(got, err)
	}
	if !reflect.DeepEqual(got[2], got[0]) || !reflect.DeepEqual(got[3], got[1]) {
		t.Fatal(got)
	}
}
'''),
dict(id="B11-amf-64k", prop="C17", pkg="libamf",
 edits=[("libamf/amf0.go", "\t\tif len(str) <= 0xffff {\n\t\t\terr1", "\t\tif len(str) < 0xffff {\n\t\t\terr1")],
 needs="a string of exactly 65535 bytes",
 breaks="it gets the long string marker with a two-byte length",
 demo='''
package libamf_test

import (
	"bytes"
	"strings"
	"testing"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libamf"
)

func TestSeedDemo(t *testing.T) {
	for _, n := range []int{0, 1, 0xfffe, 0xffff, 0x10000, 0x10001} {
		s := strings.Repeat("s", n)
		var b bytes.Buffer
		if err := libamf.AMF0.Encode(easyio.NewEasyWriter(&b), s); err != nil {
			t.Fatal(n, err)
		}
		got, err := libamf.AMF0.Decode(easyio.NewEasyReader(&b))
		if err != nil || len(got) != 1 || got[0] != s {
			t.Fatal(n, len(got), err)
		}
	}
}
'''),
dict(id="B12-trun-version", prop="C23", pkg="libmp4",
 edits=[("libmp4/media_segment.go", "body := FullBoxHeader(1, flags) //version 1 so CTS offset is signed", "body := FullBoxHeader(0, flags)")],
 needs="a sample whose composition offset is negative",
 breaks="the box says its offsets are unsigned, so -40 is read as 4294967256",
 demo='''
package libmp4_test

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libmp4"
)

func TestSeedDemo(t *testing.T) {
	b := libmp4.BuildMediaSegment(libmp4.MediaSegmentParams{TrackID: 1, SequenceNumber: 1, Samples: []libmp4.Sample{
		{Duration: 40, Size: 4, IsKey: true, CompositionTimeOffset: -40, Data: []byte("abcd")}}})
	i := bytes.Index(b, []byte("trun"))
	if i < 0 {
		t.Fatal("no trun box")
	}
	box := b[i+4:]
	version, flags := box[0], binary.BigEndian.Uint32(box)&0xffffff
	if flags&0x800 == 0 {
		t.Fatal("no composition offsets")
	}
	off := 8
	for _, f := range []uint32{1, 4, 0x100, 0x200, 0x400} {
		if flags&f != 0 {
			off += 4
		}
	}
	cts := int64(binary.BigEndian.Uint32(box[off:]))
	if version == 1 {
		cts = int64(int32(cts))
	}
	if cts != -40 {
		t.Fatalf("composition offset %d", cts)
	}
}
'''),
dict(id="B14-hevc-layer", prop="C25", pkg="librtsp",
 edits=[("librtsp/hevc.go", "fuHdr0 := (hdr0 & 0x81) | (49 << 1)", "fuHdr0 := (hdr0 & 0x80) | (49 << 1)")],
 needs="an HEVC NAL of layer 32 or more that is too large for one packet",
 breaks="the fragments carry another layer id than the NAL",
 demo='''
package librtsp_test

import (
	"testing"

	"github.com/sbraveyoung/GGmpeg/librtsp"
)

func TestSeedDemo(t *testing.T) {
	nal := make([]byte, 4000)
	nal[0], nal[1] = 0x03, 0x2a // layer 37
	for _, p := range librtsp.PackHEVCNAL(nal, 1400) {
		if p[0]&0x81 != nal[0]&0x81 || p[1] != nal[1] {
			t.Fatalf("header % x of % x", p[:2], nal[:2])
		}
	}
}
'''),
dict(id="B15-srt-agreement", prop="C32", pkg="libsrt",
 edits=[("libsrt/packet.go", "hdr.ControlType = ControlType((first >> 16) & 0x7FFF)", "hdr.ControlType = ControlType((first >> 16) & 0xFF)")],
 needs="a user-defined control packet (type 0x7fff)",
 breaks="the type loses its upper bits, packets of unknown types are taken for known ones",
 demo='''
package libsrt_test

import (
	"testing"

	"github.com/sbraveyoung/GGmpeg/libsrt"
)

func TestSeedDemo(t *testing.T) {
	for _, ct := range []libsrt.ControlType{0, 1, 5, 0x100, 0x105, 0x7fff} {
		b := make([]byte, libsrt.HeaderSize)
		libsrt.MarshalControlHeader(b, ct, 3, 4, 5, 6)
		h, _, err := libsrt.ParseHeader(b)
		if err != nil || h.ControlType != ct || h.SubType != 3 || h.TypeInfo != 4 {
			t.Fatalf("%#x: %+v %v", ct, h, err)
		}
	}
}
'''),
]
