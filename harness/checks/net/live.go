package net

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/h26x"
	"vharness/vh"
)

// Live is one publication and what was published so far. Frames are entered
// before they are sent, so that viewers can match what they get at once.
type Live struct {
	App, Name string

	mu     sync.Mutex
	cond   *sync.Cond
	frames []*media.Frame
	byBody map[string][]int // tag key -> indices
	byNAL  map[string]int   // last NAL unit of a coded video frame
	byRaw  map[string]int   // raw audio frame
	Ended  time.Time

	// Conv: the server builds the messages from another protocol; tags are
	// matched by what they carry.
	Conv  bool
	Loose bool // no order between the tracks
}

func NewLive(app, name string) *Live {
	l := &Live{App: app, Name: name, byBody: map[string][]int{}, byNAL: map[string]int{}, byRaw: map[string]int{}}
	l.cond = sync.NewCond(&l.mu)
	return l
}

// metaKey normalises a metadata message.
func metaKey(b []byte) string {
	v, err := amf0.Dec(b)
	if err != nil {
		return fmt.Sprintf("undecodable: %v", err)
	}
	if len(v) > 0 {
		if s, ok := v[0].(string); ok && s == "@setDataFrame" {
			v = v[1:]
		}
	}
	s := ""
	for _, x := range v {
		s += amf0.Norm(x) + ";"
	}
	return s
}

func tagKey(kind byte, body []byte) string {
	if kind == 18 {
		return "18" + metaKey(body)
	}
	return string(rune(kind)) + string(body)
}

// Add enters a frame that is about to be sent.
func (l *Live) Add(fs ...*media.Frame) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, f := range fs {
		i := len(l.frames)
		l.frames = append(l.frames, f)
		k := tagKey(f.Kind, f.Body)
		l.byBody[k] = append(l.byBody[k], i)
		if !f.Hdr && f.Kind == 9 && len(f.NALs) > 0 {
			l.byNAL[string(f.NALs[len(f.NALs)-1])] = i
		}
		if !f.Hdr && f.Kind == 8 {
			l.byRaw[string(f.Raw)] = i
		}
	}
}

func (l *Live) Frames() []*media.Frame {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.frames[:len(l.frames):len(l.frames)]
}

// coded reports frames that are not headers or metadata.
func coded(f *media.Frame) bool { return !f.Hdr && f.Kind != 18 }

// Item is something a viewer received.
type Item struct {
	Kind byte
	TS   uint32
	Body []byte   // tag viewers
	NALs [][]byte // RTSP video
	CTS  int32    // converted streams
	RTP  bool     // TS is an RTP timestamp
	At   time.Time
	Idx  int // frame matched
}

// matchTag finds the frame of a received tag. after is the last matched coded
// frame.
func (l *Live) matchTag(it *Item, after int) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.Conv {
		return l.matchConv(it, after)
	}
	c := l.byBody[tagKey(it.Kind, it.Body)]
	if len(c) == 0 {
		n := it.Body
		if len(n) > 40 {
			n = n[:40]
		}
		return fmt.Errorf("received a type %d message of %d bytes (timestamp %d) which was never published: % x", it.Kind, len(it.Body), it.TS, n)
	}
	best := -1
	for _, i := range c {
		if l.frames[i].TS != it.TS {
			continue
		}
		if best < 0 || i <= after+1 {
			best = i
		}
		if i > after {
			best = i
			break
		}
	}
	if best < 0 {
		return fmt.Errorf("received %v with timestamp %d", l.frames[c[0]], it.TS)
	}
	it.Idx = best
	return nil
}

// matchConv matches a tag the server built.
func (l *Live) matchConv(it *Item, after int) error {
	b := it.Body
	short := b
	if len(short) > 40 {
		short = short[:40]
	}
	hdr := func(match func(f *media.Frame) bool) error {
		best := -1
		for i, f := range l.frames {
			if f.Hdr && f.Kind == it.Kind && match(f) && (best < 0 || i <= after+1) {
				best = i
			}
		}
		if best < 0 {
			return fmt.Errorf("received a type %d header that was never announced: % x", it.Kind, short)
		}
		it.Idx = best
		return nil
	}
	var ok bool
	switch it.Kind {
	case 8:
		if len(b) < 2 || b[0]>>4 != 10 || b[1] > 1 {
			return fmt.Errorf("received audio message % x", short)
		}
		if b[1] == 0 {
			return hdr(func(f *media.Frame) bool { return bytes.Equal(f.Conf.ASC, b[2:]) })
		}
		if it.Idx, ok = l.byRaw[string(b[2:])]; !ok {
			return fmt.Errorf("received an audio frame of %d bytes that was never sent: % x", len(b), short)
		}
		return nil
	case 9:
		if len(b) < 5 || b[0]&15 != 7 || b[1] > 1 {
			return fmt.Errorf("received video message % x", short)
		}
		if b[1] == 0 {
			sps, pps, err := h26x.ParseAVCConfig(b[5:])
			if err != nil {
				return fmt.Errorf("received video header % x: %v", short, err)
			}
			return hdr(func(f *media.Frame) bool {
				return media.EqNALs(append(append([][]byte{}, sps...), pps...), f.Conf.Sets())
			})
		}
		nals, err := h26x.SplitAVCC(b[5:])
		if err != nil || len(nals) == 0 {
			return fmt.Errorf("received video message % x: %d NAL units, %v", short, len(nals), err)
		}
		if it.Idx, ok = l.byNAL[string(nals[len(nals)-1])]; !ok {
			return fmt.Errorf("received a video access unit that was never sent: %s", media.List(nals))
		}
		f := l.frames[it.Idx]
		if key := b[0]>>4 == 1; key != f.Key || b[0]>>4 > 2 {
			return fmt.Errorf("received %v with frame type %d", f, b[0]>>4)
		}
		it.CTS = int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8
		return f.CheckAU(nals, false)
	}
	return fmt.Errorf("received a type %d message: % x", it.Kind, short)
}

func (l *Live) matchRTP(it *Item) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	var ok bool
	if it.Kind == 8 {
		it.Idx, ok = l.byRaw[string(it.Body)]
		if !ok {
			return fmt.Errorf("received an audio frame of %d bytes that was never published", len(it.Body))
		}
		return nil
	}
	n := it.NALs
	it.Idx, ok = l.byNAL[string(n[len(n)-1])]
	if !ok {
		return fmt.Errorf("received a video access unit that was never published: %s", media.List(n))
	}
	return l.frames[it.Idx].CheckAU(n, true)
}

// RunOpt says what a viewer must have got.
type RunOpt struct {
	From      int  // frame that must be the first coded one at the latest (-1: any)
	Complete  bool // no gaps
	ToEnd     bool // up to the last coded frame published
	NoVideo   bool // the viewer takes no video
	NoAudio   bool
	NoHdr     bool // the viewer gets no headers (RTSP)
	PerTrack  bool // order only within a track
	MustMedia bool
	NeedMeta  bool
}

// CheckRun is the oracle over one viewer's log: order, at most once, starts
// and resumes at keyframes, headers in force.
func (l *Live) CheckRun(items []*Item, o RunOpt) error {
	fr := l.Frames()
	want := func(f *media.Frame) bool {
		return coded(f) && !(o.NoVideo && f.Kind == 9) && !(o.NoAudio && f.Kind == 8)
	}
	hasVideo := false
	for _, f := range fr {
		if f.Kind == 9 && coded(f) && !o.NoVideo {
			hasVideo = true
		}
	}
	// headers in force before each frame
	type hdrs struct{ v, a, m int }
	inForce := make([]hdrs, len(fr)+1)
	cur := hdrs{-1, -1, -1}
	for i, f := range fr {
		inForce[i] = cur
		if f.Hdr {
			switch f.Kind {
			case 8:
				cur.a = i
			case 9:
				cur.v = i
			case 18:
				cur.m = i
			}
		}
	}
	sent := hdrs{-1, -1, -1}
	same := func(a, b int) bool {
		if a == b {
			return true
		}
		if a < 0 || b < 0 {
			return false
		}
		return fr[a].Kind == fr[b].Kind && (l.Conv || fr[a].TS == fr[b].TS) && bytes.Equal(fr[a].Body, fr[b].Body)
	}
	last, lastV, lastA := -1, -1, -1
	needKey := true
	gotKey := false
	first := -1
	for n, it := range items {
		f := fr[it.Idx]
		if it.Kind == 18 && !f.Hdr {
			continue // other data messages
		}
		if f.Hdr {
			switch f.Kind {
			case 8:
				sent.a = it.Idx
			case 9:
				sent.v = it.Idx
			case 18:
				sent.m = it.Idx
			}
			continue
		}
		if first < 0 {
			first = it.Idx
		}
		if !o.PerTrack && it.Idx <= last {
			return fmt.Errorf("item %d: frame %d %v after frame %d: out of order or twice", n, it.Idx, f, last)
		}
		lt := &lastV
		if f.Kind == 8 {
			lt = &lastA
		}
		if it.Idx <= *lt {
			return fmt.Errorf("item %d: frame %d %v after frame %d of the same track: out of order or twice", n, it.Idx, f, *lt)
		}
		// missing frames
		if f.Kind == 9 || !o.PerTrack {
			from := last
			if o.PerTrack {
				from = lastV
			}
			if from >= 0 || !o.PerTrack && first != it.Idx {
				for k := from + 1; k < it.Idx; k++ {
					if !want(fr[k]) || o.PerTrack && fr[k].Kind != f.Kind {
						continue
					}
					needsNoKey := fr[k].Kind == 9 && !gotKey && !fr[k].Key
					if o.Complete && !needsNoKey {
						return fmt.Errorf("item %d: frame %d %v received after frame %d, frame %d %v is missing", n, it.Idx, f, from, k, fr[k])
					}
					needKey = true
				}
			}
		} else if o.PerTrack && o.Complete && lastA >= 0 {
			for k := lastA + 1; k < it.Idx; k++ {
				if want(fr[k]) && fr[k].Kind == 8 {
					return fmt.Errorf("item %d: audio frame %d received after %d, frame %d is missing", n, it.Idx, lastA, k)
				}
			}
		}
		if f.Kind == 9 {
			if needKey && !f.Key {
				return fmt.Errorf("item %d: video frame %d %v received after a gap (or first) is no keyframe", n, it.Idx, f)
			}
			needKey = false
			gotKey = gotKey || f.Key
		}
		if !o.NoHdr {
			h := inForce[it.Idx]
			if f.Kind == 9 && !same(h.v, sent.v) {
				return fmt.Errorf("item %d: frame %d %v received under video header #%d, in force is #%d", n, it.Idx, f, sent.v, h.v)
			}
			if f.Kind == 8 && !same(h.a, sent.a) {
				return fmt.Errorf("item %d: frame %d %v received under audio header #%d, in force is #%d", n, it.Idx, f, sent.a, h.a)
			}
			if !same(h.m, sent.m) {
				return fmt.Errorf("item %d: frame %d %v received under metadata #%d, in force is #%d", n, it.Idx, f, sent.m, h.m)
			}
		}
		*lt = it.Idx
		if it.Idx > last {
			last = it.Idx
		}
	}
	if first < 0 && o.MustMedia {
		return fmt.Errorf("no coded frame received (%d items)", len(items))
	}
	if o.From >= 0 && (first < 0 || first > o.From) {
		return fmt.Errorf("first coded frame received is %d, should be %d or earlier", first, o.From)
	}
	if o.ToEnd {
		end, endV, endA := -1, -1, -1
		for i, f := range fr {
			if want(f) {
				end = i
				if f.Kind == 9 {
					endV = i
				} else {
					endA = i
				}
			}
		}
		if !hasVideo {
			endV = -1
		}
		if o.PerTrack {
			if endV != lastV && !(lastV < 0 && endV < first) || endA != lastA && !(lastA < 0 && (endA < first || l.Loose && lastV >= 0)) {
				return fmt.Errorf("last frames received are video %d, audio %d; published were video %d, audio %d", lastV, lastA, endV, endA)
			}
		} else if last != end {
			return fmt.Errorf("last coded frame received is %d, last published %d", last, end)
		}
	}
	return nil
}

// lastWanted is the index of the last coded frame a viewer should get.
func (l *Live) lastWanted(v *View) int {
	fr := l.Frames()
	for i := len(fr) - 1; i >= 0; i-- {
		if coded(fr[i]) && !(v.NoVideo && fr[i].Kind == 9) && !(v.NoAudio && fr[i].Kind == 8) {
			return i
		}
	}
	return -1
}

func (l *Live) newestKey() int {
	fr := l.Frames()
	for i := len(fr) - 1; i >= 0; i-- {
		if coded(fr[i]) && fr[i].Kind == 9 && fr[i].Key {
			return i
		}
	}
	return -1
}

// Sync waits until every viewer has got everything published so far.
func (l *Live) Sync(c *vh.C, what string, vs ...*View) {
	for _, v := range vs {
		missing := func() (m []int) {
			got := map[int]bool{}
			for _, it := range v.Items() {
				got[it.Idx] = true
			}
			for i, f := range l.Frames() {
				if coded(f) && !got[i] && i > v.first {
					m = append(m, i)
				}
			}
			return
		}
		want := l.lastWanted(v)
		if want < 0 || v.NoVideo && v.Last() < 0 && want < l.newestKey() {
			continue // an audio viewer begins at the newest keyframe, maybe behind the last audio
		}
		if !c.Eventually(15*time.Second, func() bool { return v.caughtUp(want) || v.Err() != nil }) {
			c.FailTimed("stalled:"+v.Proto, "%s: %s viewer stands at frame %d, published is %d %v; %s; missing %v; UDP sockets with drops %v", what, v.Proto, v.Last(), want, l.Frames()[want], v, missing(), udpDrops())
		}
		v.Check(c)
	}
}

// udpDrops lists the sockets that dropped datagrams.
func udpDrops() (out []string) {
	b, _ := os.ReadFile("/proc/net/udp")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) >= 13 && (f[12] != "0" || !strings.HasSuffix(f[4], ":00000000")) && f[12] != "ref" {
			out = append(out, fmt.Sprintf("%s: %s (queue %s)", f[1], f[12], f[4]))
		}
	}
	return
}
