package lib

import (
	"bytes"
	"fmt"

	"github.com/sbraveyoung/GGmpeg/libsrt"

	"vharness/media"
	"vharness/ref/h26x"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{
		ID: "C33", Quick: 20000, Thorough: 60000,
		Rule:      "each case: a generated H.264 or H.265 and/or AAC stream multiplexed with random PIDs, descriptors, table positions, adaptation fields, PES header stuffing, bounded and unbounded lengths, several or straddling ADTS frames per PES; fed in random splits; a quarter of the streams change to other PIDs, codecs or configurations; half of the cases start inside a unit and lose (up to 15 of a PID), damage, scramble or repeat packets; distinct by stream bytes",
		Technique: "conservation oracle between generated units (unique contents, known times) and the demuxer's callbacks",
		LevelNote: "held on the streams tried; one access unit per video PES packet, one program; after damage, units none of whose packets (nor the next packet of their PID) is affected must be reported, the others may be missing but never altered",
		Run:       runC33,
	})
}

func tsOpts(c *vh.C) (media.Opt, media.TSOpt) {
	r := c.R
	o := media.Opt{HEVC: r.Intn(3) == 0, Video: r.Intn(6) != 0, Audio: true, Frames: 8 + r.Intn(25), Jitter: r.Intn(2) == 0,
		Start: uint32(r.Intn(100000)), CTS: r.Intn(2) == 0, Inband: r.Intn(2) == 0, AudioGaps: r.Intn(2) == 0, ID: uint64(c.Idx) << 20, Rate: -1, AudioMax: 20 + r.Intn(600), MaxSize: 50 + r.Intn(3000)}
	if o.Video {
		o.Audio = r.Intn(3) != 0
	}
	switch r.Intn(25) {
	case 0:
		o.AudioMax = 8160
	case 1:
		o.MaxSize, o.Frames = 70000, 8
	}
	t := media.TSOpt{Base: uint64(r.Int63n(1 << 33)), Span: r.Intn(2) == 0, CRC: r.Intn(2) == 0, Fine: r.Intn(2) == 0, SC3: r.Intn(2) == 0, Plain: r.Intn(6) == 0, Tables: r.Intn(2) == 0, Zeros: r.Intn(3) == 0, Blocks: r.Intn(4) == 0, Disc: c.Idx%2 == 0 && r.Intn(3) == 0}
	switch r.Intn(3) {
	case 0:
		t.Base = 0
	case 1: // wraps within the stream
		t.Base = 1<<33 - uint64(o.Start)*90 - uint64(r.Intn(90000))
	}
	return o, t
}

func runC33(c *vh.C) {
	r := c.R
	o, to := tsOpts(c)
	damage := c.Idx%2 == 1
	gen := func() []*media.Frame {
		st := media.Gen(r, o)
		if damage {
			// no ADTS syncwords inside frames: finding the frames again after a
			// loss is guesswork otherwise
			for _, f := range st.Frames {
				for i := 1; f.Kind == 8 && i < len(f.Raw); i++ {
					if f.Raw[i-1] == 0xff && f.Raw[i]&0xf0 == 0xf0 {
						f.Raw[i] &= 0x7f
					}
				}
				if n := len(f.Raw); f.Kind == 8 && n > 0 && f.Raw[n-1] == 0xff {
					f.Raw[n-1] = 0x7f
				}
			}
		}
		return st.Frames
	}
	t := media.ToTS(r, gen(), to)
	// the programme may change to another codec, configuration or PIDs
	split, splitUnit, splitRound := len(t.Packets), len(t.Units), len(t.Rounds)
	drop := map[int]bool{} // packets that are not sent
	if r.Intn(4) == 0 {
		video := o.Video
		o.ID += 1 << 19
		o.HEVC = r.Intn(2) == 0
		o.Video = r.Intn(6) > 0
		o.Audio = !o.Video || r.Intn(3) > 0
		to.After = t
		to.SamePIDs = r.Intn(2) == 0
		u := media.ToTS(r, gen(), to)
		if damage && !to.SamePIDs && video && u.APID != t.APID {
			// the audio stops in the middle of a frame
			var as []int
			for i, x := range t.Units {
				if !x.Video {
					as = append(as, i)
				}
			}
			if len(as) > 2 {
				k := 1 + r.Intn(len(as)-1)
				for _, i := range as[k:] {
					for _, p := range t.Units[i].Pkts {
						drop[p] = true
					}
				}
			}
		}
		t.Join(u)
		c.Count("programme_changes", 1)
	}
	bad := map[int]bool{} // packets lost or damaged
	var stream []byte
	from := 0
	if damage && r.Intn(2) == 0 { // join in the middle
		from = r.Intn(split / 2)
		for i := 0; i < from; i++ {
			bad[i] = true
		}
	}
	// a unit cut short by the end of the stream cannot be told from a
	// whole one: the last unit of each PID arrives intact
	last := map[int]bool{}
	protect := func(from, to int) {
		for _, video := range []bool{true, false} {
			for i := to - 1; i >= from; i-- {
				if u := t.Units[i]; u.Video == video && !drop[u.Pkts[0]] {
					for _, p := range u.Pkts {
						last[p] = true
					}
					break
				}
			}
		}
	}
	protect(0, splitUnit)
	if splitUnit < len(t.Units) {
		protect(splitUnit, len(t.Units))
		for _, p := range append(t.Rounds[splitRound].PAT, t.Rounds[splitRound].PMT...) {
			last[p] = true
		}
	}
	calm := 0
	run, burst := map[uint16]int{}, map[uint16]int{}
	prob := 0
	if damage {
		prob = 1 + r.Intn(60)
	}
	for i := from; i < len(t.Packets); i++ {
		p := append([]byte(nil), t.Packets[i]...)
		pid := uint16(p[1]&0x1f)<<8 | uint16(p[2])
		if drop[i] {
			bad[i] = true
			continue
		}
		if damage && !last[i] && (r.Intn(1000) < prob && run[pid] < 10 || burst[pid] > 0) {
			bad[i] = true
			run[pid]++
			switch n := r.Intn(8); {
			case burst[pid] > 0:
				burst[pid]--
				c.Count("packets_lost", 1)
			case n < 2:
				p[1] |= 0x80
				if len(p) > 20 {
					p[20] ^= 0x55
				}
				stream = append(stream, p...)
				c.Count("packets_damaged", 1)
			case n == 2:
				p[3] |= byte(1+r.Intn(3)) << 6
				o := 4
				if p[3]&0x20 != 0 {
					o += 1 + int(p[4])
				}
				for ; o < len(p); o++ {
					p[o] ^= byte(r.Intn(256))
				}
				stream = append(stream, p...)
				c.Count("packets_scrambled", 1)
			case n == 3 && t.PSI[i]: // the check sum has to tell
				p[4+r.Intn(184)] ^= 1 << r.Intn(8)
				stream = append(stream, p...)
				c.Count("tables_damaged", 1)
			case n == 4 && run[pid] == 1: // any number of packets the counter can tell
				burst[pid] = r.Intn(15)
				c.Count("packets_lost", 1)
			default:
				c.Count("packets_lost", 1)
			}
			continue
		}
		burst[pid] = 0
		if run[pid] > 0 && p[1]&0x40 == 0 && p[3]&0x20 != 0 && p[4] > 0 && r.Intn(2) == 0 {
			p[5] |= 0x80 // what was lost is announced
			c.Count("losses_announced", 1)
		}
		if calm++; damage && calm > 3 && r.Intn(200) == 0 { // bytes that are not the stream's
			calm = 0 // a packet is known by the one behind it
			g := make([]byte, 1+r.Intn(400))
			r.Read(g)
			for j := range g {
				if g[j] == 0x47 {
					g[j] = 0x48
				}
			}
			stream = append(stream, g...)
			c.Count("garbage", 1)
		}
		if p[3]&0x10 != 0 {
			run[pid] = 0
		}
		stream = append(stream, p...)
		if damage && r.Intn(40) == 0 && p[3]&0x10 != 0 { // a legal duplicate packet
			stream = append(stream, p...)
			c.Count("packets_duplicated", 1)
		}
	}
	// tables known from the first intact pair on
	intact := func(l []int) bool {
		for _, i := range l {
			if i < from || bad[i] {
				return false
			}
		}
		return true
	}
	knownIn := func(rounds []media.TSRound) int {
		pat := false
		for _, x := range rounds {
			pat = pat || intact(x.PAT)
			if pat && intact(x.PMT) {
				return x.PMT[len(x.PMT)-1]
			}
		}
		return -1
	}
	known1 := knownIn(t.Rounds[:splitRound])
	known2 := knownIn(t.Rounds[splitRound:])
	var want, wantA []int
	byData := map[string]int{}
	type track struct {
		video bool
		part  int
	}
	part := func(ui int) int {
		if ui >= splitUnit && !to.SamePIDs {
			return 1
		}
		return 0
	}
	pidPkts := map[track][]int{}
	for i, u := range t.Units {
		k := track{u.Video, part(i)}
		for _, p := range u.Pkts {
			if !drop[p] {
				pidPkts[k] = append(pidPkts[k], p)
			}
		}
	}
	next := func(ui, after int) int {
		for _, p := range pidPkts[track{t.Units[ui].Video, part(ui)}] {
			if p > after {
				return p
			}
		}
		return -1
	}
	ok := func(ui int) (whole, end bool) {
		u := t.Units[ui]
		known := known1
		if ui >= splitUnit {
			known = known2
		}
		for _, p := range u.Pkts {
			if bad[p] || p <= known || known < 0 {
				return false, false
			}
		}
		l := u.Pkts[len(u.Pkts)-1]
		n := next(ui, l)
		return true, u.Bounded || n < 0 || !bad[n]
	}
	for i, u := range t.Units {
		if !u.Video {
			continue
		}
		byData[string(u.Data)] = i
		if w, e := ok(i); w && e {
			want = append(want, i)
		}
	}
	byA := map[string]int{}
	for i, a := range t.Audio {
		byA[string(a.Data)] = i
		all := true
		first := a.Units[0]
		// the frame's PES packets, and the one before if a frame runs over from it
		for k, ui := range a.Units {
			w, e := ok(ui)
			all = all && w && e
			if k == 0 && i > 0 && t.Audio[i-1].Units[len(t.Audio[i-1].Units)-1] == first && len(t.Audio[i-1].Units) > 1 {
				for _, pu := range t.Audio[i-1].Units {
					w, e := ok(pu)
					all = all && w && e
				}
				// ... and only once the demuxer has seen such frames: otherwise
				// nothing tells the middle of a frame from the start of one
				all = all && len(wantA) > 0 && t.Audio[wantA[len(wantA)-1]].Frame.Conf == a.Frame.Conf
			}
		}
		if all {
			wantA = append(wantA, i)
		}
	}
	var got, gotA []int
	d := libsrt.NewDemuxer()
	fail := ""
	bad1 := func(key, format string, a ...interface{}) {
		if fail == "" {
			fail = key + "\x00" + fmt.Sprintf(format, a...)
		}
	}
	d.OnVideo = func(au libsrt.AccessUnit) {
		i, ok := byData[string(au.NAL)]
		if !ok {
			near, common := -1, 0
			for j, u := range t.Units {
				k := 0
				for k < len(u.Data) && k < len(au.NAL) && u.Data[k] == au.NAL[k] {
					k++
				}
				if u.Video && k > common {
					near, common = j, k
				}
			}
			bad1("video-bytes", "access unit of %d bytes (%x...) is none of those sent; %d bytes as in unit %d", len(au.NAL), au.NAL[:min(16, len(au.NAL))], common, near)
			if near >= 0 {
				u := t.Units[near]
				n := len(u.Pkts)
				c.Trace("unit %d of %d (%d units before the change): %d bytes, bounded %v, packets %d-%d, known %d %d, change at %d", near, len(t.Units), splitUnit, len(u.Data), u.Bounded, u.Pkts[0], u.Pkts[n-1], known1, known2, split)
				for _, p := range u.Pkts {
					c.Trace("  packet %d bad %v", p, bad[p])
				}
			}
			return
		}
		u := t.Units[i]
		if len(got) > 0 && got[len(got)-1] >= i {
			bad1("video-order", "access unit %d reported after %d", i, got[len(got)-1])
		}
		got = append(got, i)
		if au.HEVC != u.Frame.Conf.HEVC {
			bad1("video-codec", "access unit %d has hevc=%v", i, au.HEVC)
		}
		if au.PTS != u.PTS || au.DTS != u.DTS {
			bad1("video-time", "access unit %d has PTS/DTS %d/%d, want %d/%d", i, au.PTS, au.DTS, u.PTS, u.DTS)
		}
		if au.Key != u.Key {
			bad1("video-key", "access unit %d has key=%v, want %v", i, au.Key, u.Key)
		}
	}
	d.OnAudio = func(af libsrt.AudioFrame) {
		i, ok := byA[string(af.Data)]
		if !ok {
			bad1("audio-bytes", "audio frame of %d bytes (%x...) is none of those sent", len(af.Data), af.Data[:min(16, len(af.Data))])
			return
		}
		if len(gotA) > 0 && gotA[len(gotA)-1] >= i {
			bad1("audio-order", "audio frame %d reported after %d", i, gotA[len(gotA)-1])
		}
		gotA = append(gotA, i)
		dt := int64(af.PTS-t.Audio[i].PTS) & (1<<33 - 1)
		if dt > 1<<32 {
			dt -= 1 << 33
		}
		if dt > 3 || dt < -3 || af.PTS > 1<<33-1 {
			bad1("audio-time", "audio frame %d has PTS %d, want %d", i, af.PTS, t.Audio[i].PTS)
		}
		af.Data[6] &^= 3 // the number of blocks
		if a, err := h26x.SplitADTS(af.Data); err != nil || len(a) != 1 || a[0].RateIdx != t.Audio[i].Frame.Conf.Rate || !bytes.Equal(a[0].Raw, t.Audio[i].Frame.Raw) {
			bad1("audio-adts", "audio frame %d: %v", i, err)
		}
	}
	check := func() {
		if fail != "" {
			k := bytes.IndexByte([]byte(fail), 0)
			c.Fail(fail[:k], "%s (damage=%v %+v)", fail[k+1:], damage, to)
		}
	}
	mode := r.Intn(5)
	rest := append([]byte(nil), stream...)
	for len(rest) > 0 {
		n := len(rest)
		switch mode {
		case 0:
			n = 188 * (1 + r.Intn(7))
		case 1:
			n = 1316
		case 2:
			n = 1 + r.Intn(600)
		case 3:
			n = 1 + r.Intn(20000)
		}
		n = min(n, len(rest))
		// the caller's buffer is its own again after the call
		in := append([]byte(nil), rest[:n]...)
		c.Call("Demuxer.Feed", func() { d.Feed(in) })
		for i := range in {
			in[i] = 0xff
		}
		check()
		rest = rest[n:]
		c.Count("feeds", 1)
	}
	// units that are complete without knowing what follows are already out
	if !damage {
		pend := 0
		for i, u := range t.Units {
			if u.Video && (len(got) == 0 || i > got[len(got)-1]) {
				pend++
			}
		}
		if pend > 1 {
			c.Fail("video-late", "%d access units still unreported when the stream ended", pend)
		}
	}
	c.Call("Demuxer.Flush", d.Flush)
	check()
	miss := func(kind string, want, got []int) {
		has := map[int]bool{}
		for _, g := range got {
			has[g] = true
		}
		for _, w := range want {
			if !has[w] {
				if kind == "audio" {
					a := t.Audio[w]
					c.Trace("audio frame %d of %d: %d bytes %+v, time %d, in units %v", w, len(t.Audio), len(a.Data), *a.Frame.Conf, a.PTS, a.Units)
					for _, ui := range a.Units {
						c.Trace("  unit %d: %d bytes, bounded %v, packets %v", ui, len(t.Units[ui].Data), t.Units[ui].Bounded, t.Units[ui].Pkts)
					}
				}
				c.Fail(kind+"-missing", "%s unit %d was not reported though all of it arrived (damage=%v, %d of %d expected; %+v)", kind, w, damage, len(got), len(want), to)
			}
		}
	}
	miss("video", want, got)
	miss("audio", wantA, gotA)
	if !damage && (len(want) == 0 && len(wantA) == 0) {
		c.Fail("harness", "nothing expected")
	}
	c.Count("video_units", len(got))
	c.Count("audio_frames", len(gotA))
	c.Count("must_report", len(want)+len(wantA))
	c.Count("ts_packets", len(t.Packets))
	if len(got)+len(gotA) > 0 {
		c.Nontrivial("%v %d %d %d %d", damage, len(stream), len(got), len(gotA), mode)
	}
}
