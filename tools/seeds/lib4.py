import runpy, os
HEVC = runpy.run_path([p for p in ("/verif/tools/seeds/lib3.py", "/tmp/lib3.py") if os.path.exists(p)][0])["HEVC"]
SEEDS = [
dict(id="B19-parts-alias", prop="C22", pkg="libhls",
 edits=[("libhls/hls.go", "		parts:    append([]partInfo(nil), hls.currentParts...),\n	}", "		parts:    hls.currentParts,\n	}")],
 needs="low latency mode and two segments; only the parts of segments behind the newest are wrong",
 breaks="finished segments share their part list with the one being written, so their parts change under them",
 demo='''
package libhls_test

import (
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"
)
'''+HEVC+'''
func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	h := libhls.NewHls().WithStreamID("s").WithDir(dir).WithLowLatency(true)
	record := hvcc([]byte{0x40, 1, 12, 1}, []byte{0x42, 1, 1, 1, 0x60}, []byte{0x44, 1, 0xc1})
	r := &reader{}
	r.tags = append(r.tags, tag(0, libflv.KEY_FRAME, libflv.FLV_VIDEO_HEVC, libflv.AVC_SEQUENCE_HEADER, 0, record))
	for ts := 0; ts <= 8400; ts += 40 {
		f, n := uint8(libflv.INTER_FRAME), byte(1<<1)
		if ts%2000 == 0 {
			f, n = libflv.KEY_FRAME, 19<<1
		}
		r.tags = append(r.tags, tag(uint32(ts), f, libflv.FLV_VIDEO_HEVC, libflv.AVC_NALU, 0, unit(append([]byte{n}, make([]byte, ts*ts/1000%200)...)...)))
	}
	if err := h.Start(r); err != nil {
		t.Fatal(err)
	}
	list := string(h.Playlist())
	re := regexp.MustCompile(`BYTERANGE="([0-9]+)@([0-9]+)"`)
	at, n := 0, 0
	for _, l := range strings.Split(list, "\\n") {
		if m := re.FindStringSubmatch(l); m != nil && strings.HasPrefix(l, "#EXT-X-PART:") {
			if o, _ := strconv.Atoi(m[2]); o != at {
				t.Fatalf("a part begins at %d, the one before it ended at %d:\\n%s", o, at, list)
			}
			k, _ := strconv.Atoi(m[1])
			at += k
		} else if l != "" && l[0] != '#' {
			st, err := os.Stat(filepath.Join(dir, l))
			if err != nil || int(st.Size()) != at {
				t.Fatalf("parts of %s end at %d: %v %v\\n%s", l, at, st, err, list)
			}
			at, n = 0, n+1
		}
	}
	if n < 3 {
		t.Fatal(list)
	}
}
'''),
]
