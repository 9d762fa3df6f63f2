HEVC = '''
type reader struct{ tags []interface{} }

func (r *reader) Read() (interface{}, bool) {
	if len(r.tags) == 0 {
		return nil, false
	}
	p := r.tags[0]
	r.tags = r.tags[1:]
	return p, true
}

func hvcc(sets ...[]byte) []byte {
	b := []byte{1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f, byte(len(sets))}
	for _, n := range sets {
		b = append(b, n[0]>>1, 0, 1, byte(len(n)>>8), byte(len(n)))
		b = append(b, n...)
	}
	return b
}

func tag(ts uint32, frame, codec, packet uint8, cts uint32, data []byte) *libflv.VideoTag {
	v := &libflv.VideoTag{TagBase: libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: ts}, FrameType: frame, CodecID: codec, AVCPacketType: packet, Cts: cts, VideoData: data}
	v.DataSize = uint32(len(v.Data()))
	return v
}

func unit(nal ...byte) []byte {
	nal = append(nal, 1, 2, 3, 4, 5, 6, 7, 8)
	return append([]byte{0, 0, 0, byte(len(nal))}, nal...)
}
'''
SEEDS = [
dict(id="B16-hevc-negative-cts", prop="C20", pkg="libhls",
 edits=[("libhls/hls.go", '''			if pv.Cts != 0 {
				pes.PTS_DTSFlag = 0x03
				pes.PTS = pes.DTS + compositionTicks(pv.Cts)
			}
			return pes, pid, videoKey, false

		default:''', '''			if pv.Cts != 0 && pv.Cts < 1<<23 {
				pes.PTS_DTSFlag = 0x03
				pes.PTS = pes.DTS + compositionTicks(pv.Cts)
			}
			return pes, pid, videoKey, false

		default:''')],
 needs="an H.265 frame with a negative composition offset",
 breaks="the frame is presented at its decode time instead, out of place among its neighbours",
 demo='''
package libhls_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"
)
'''+HEVC+'''
func ts33(b []byte) uint64 {
	return uint64(b[0]&0x0e)<<29 | uint64(b[1])<<22 | uint64(b[2]&0xfe)<<14 | uint64(b[3])<<7 | uint64(b[4])>>1
}

func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	h := libhls.NewHls().WithStreamID("s").WithDir(dir)
	record := hvcc([]byte{0x40, 1, 12, 1}, []byte{0x42, 1, 1, 1, 0x60}, []byte{0x44, 1, 0xc1})
	r := &reader{}
	r.tags = append(r.tags, tag(0, libflv.KEY_FRAME, libflv.FLV_VIDEO_HEVC, libflv.AVC_SEQUENCE_HEADER, 0, record))
	back := uint32(1<<24 - 40)
	cts := []uint32{0, back, 80, 0, back}
	for i, c := range cts {
		f, n := uint8(libflv.INTER_FRAME), byte(1<<1)
		if i == 0 {
			f, n = libflv.KEY_FRAME, 19<<1
		}
		r.tags = append(r.tags, tag(1000+40*uint32(i), f, libflv.FLV_VIDEO_HEVC, libflv.AVC_NALU, c, unit(n, 1)))
	}
	if err := h.Start(r); err != nil {
		t.Fatal(err)
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.ts"))
	if len(files) != 1 {
		t.Fatal(files)
	}
	b, _ := os.ReadFile(files[0])
	i := 0
	for ; len(b) >= 188; b = b[188:] {
		p := b[:188]
		pl := p[4:]
		if p[3]&0x20 != 0 {
			pl = pl[1+int(pl[0]):]
		}
		if p[1]&0x40 == 0 || len(pl) < 19 || pl[0] != 0 || pl[1] != 0 || pl[2] != 1 || pl[3] != 0xe0 {
			continue
		}
		pts := ts33(pl[9:])
		want := uint64(90 * (1000 + 40*i + int(int32(cts[i]<<8)>>8)))
		if pts != want {
			t.Fatalf("frame %d with composition offset %d ms has PTS %d, want %d", i, int32(cts[i]<<8)>>8, pts, want)
		}
		i++
	}
	if i != len(cts) {
		t.Fatalf("%d frames of %d", i, len(cts))
	}
}
'''),
dict(id="B17-target-floor", prop="C21", pkg="libhls",
 edits=[("libhls/m3u8.go", """	target := int(math.Ceil(maxDur))
	if target < 1 {
		target = 1
	}

	mediaSeq := 0""", """	target := int(maxDur)
	if target < 1 {
		target = 1
	}

	mediaSeq := 0""")],
 needs="low latency mode and a longest segment of n.5 to n.9 seconds",
 breaks="the target duration is below a segment's rounded duration, which clients must refuse",
 demo='''
package libhls_test

import (
	"math"
	"regexp"
	"strconv"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"
)
'''+HEVC+'''
func TestSeedDemo(t *testing.T) {
	for _, gop := range []int{2040, 2480, 2640, 2800, 3520} {
		h := libhls.NewHls().WithStreamID("s").WithDir(t.TempDir()).WithLowLatency(true)
		record := hvcc([]byte{0x40, 1, 12, 1}, []byte{0x42, 1, 1, 1, 0x60}, []byte{0x44, 1, 0xc1})
		r := &reader{}
		r.tags = append(r.tags, tag(0, libflv.KEY_FRAME, libflv.FLV_VIDEO_HEVC, libflv.AVC_SEQUENCE_HEADER, 0, record))
		for ts := 0; ts <= 3*gop; ts += 40 {
			f, n := uint8(libflv.INTER_FRAME), byte(1<<1)
			if ts%gop == 0 {
				f, n = libflv.KEY_FRAME, 19<<1
			}
			r.tags = append(r.tags, tag(uint32(ts), f, libflv.FLV_VIDEO_HEVC, libflv.AVC_NALU, 0, unit(n, 1)))
		}
		if err := h.Start(r); err != nil {
			t.Fatal(err)
		}
		list := string(h.Playlist())
		m := regexp.MustCompile(`TARGETDURATION:([0-9]+)`).FindStringSubmatch(list)
		if m == nil {
			t.Fatal(list)
		}
		target, _ := strconv.Atoi(m[1])
		for _, e := range regexp.MustCompile(`EXTINF:([0-9.]+)`).FindAllStringSubmatch(list, -1) {
			if d, _ := strconv.ParseFloat(e[1], 64); int(math.Round(d)) > target {
				t.Fatalf("segment of %v s, target duration %d:\\n%s", d, target, list)
			}
		}
	}
}
'''),
dict(id="B18-hevc-444", prop="C24", pkg="libdash",
 edits=[("libdash/dash.go", '''	if chromaFormat == 3 {
		_, _ = br.readBits(1)
	}
	w32, h32''', '''	if chromaFormat > 3 {
		_, _ = br.readBits(1)
	}
	w32, h32''')],
 needs="an H.265 stream in 4:4:4",
 breaks="the picture size is read one bit off: manifest and initialisation segment state a wrong one",
 demo='''
package libdash_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libdash"
	"github.com/sbraveyoung/GGmpeg/libflv"
)
'''+HEVC+'''
type bits struct {
	b []byte
	n int
}

func (w *bits) put(v uint32, n int) {
	for n--; n >= 0; n-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[len(w.b)-1] |= byte(v>>uint(n)&1) << uint(7-w.n%8)
		w.n++
	}
}

func (w *bits) ue(v uint32) {
	n := 0
	for (v+1)>>uint(n) > 1 {
		n++
	}
	w.put(0, n)
	w.put(v+1, n+1)
}

func sps(chroma, width, height uint32) []byte {
	w := &bits{b: []byte{0x42, 1}}
	w.n = 16
	w.put(1, 8) // VPS 0, one layer, nested
	for i := 0; i < 12; i++ {
		w.put(0x11, 8)
	}
	w.ue(0)
	w.ue(chroma)
	if chroma == 3 {
		w.put(0, 1)
	}
	w.ue(width)
	w.ue(height)
	w.put(0, 1)
	w.ue(0)
	w.ue(0)
	w.put(0x5555, 15)
	return w.b
}

func TestSeedDemo(t *testing.T) {
	for chroma := uint32(0); chroma < 4; chroma++ {
		record := hvcc([]byte{0x40, 1, 12, 1}, sps(chroma, 640, 360), []byte{0x44, 1, 0xc1})
		d := libdash.NewDASH().WithStreamID("s").WithDir(t.TempDir())
		r := &reader{}
		r.tags = append(r.tags, tag(0, libflv.KEY_FRAME, libflv.FLV_VIDEO_HEVC, libflv.AVC_SEQUENCE_HEADER, 0, record))
		for i := 0; i < 150; i++ {
			f, n := uint8(libflv.INTER_FRAME), byte(1<<1)
			if i%60 == 0 {
				f, n = libflv.KEY_FRAME, 19<<1
			}
			r.tags = append(r.tags, tag(40*uint32(i), f, libflv.FLV_VIDEO_HEVC, libflv.AVC_NALU, 0, unit(n, 1)))
		}
		if err := d.Start(r); err != nil {
			t.Fatal(err)
		}
		if m := string(d.Manifest()); !strings.Contains(m, fmt.Sprintf(`width="%d" height="%d"`, 640, 360)) {
			t.Fatalf("chroma format %d, 640x360:\\n%s", chroma, m)
		}
	}
}
'''),
]
