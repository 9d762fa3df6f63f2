package media

import (
	"math/rand"

	"vharness/ref/h26x"
	"vharness/ref/ts"
)

// TSUnit is one PES packet of a generated transport stream.
type TSUnit struct {
	Video    bool
	PTS, DTS uint64
	Key      bool
	Data     []byte // elementary stream bytes of the PES packet
	Bounded  bool
	Frame    *Frame // video: the frame carried
	Pkts     []int  // indices of its TS packets
}

// TSAudio is one ADTS frame and its exact time.
type TSAudio struct {
	PTS   uint64
	Data  []byte
	Frame *Frame
	Units []int // indices in Units of the PES packets it touches
}

type TSOpt struct {
	Base       uint64 // DTS of time 0
	Plain      bool   // one ADTS frame per PES, no odd layout
	Span       bool   // ADTS frames may straddle PES packets
	CRC        bool   // some ADTS frames carry a CRC
	InbandAll  bool   // parameter sets before every keyframe
	Fine       bool   // 90 kHz times that are not whole milliseconds
	SC3        bool   // some 3-byte start codes
	MaxAUBytes int
	Tables     bool // other sections among the tables, long descriptors
	Zeros      bool // zeros after some NAL units
	Blocks     bool // several raw data blocks in some ADTS frames
	Disc       bool // discontinuity indicators at unit starts
	After      *TS  // the stream this one follows
	SamePIDs   bool // ... on the same PIDs
}

type TS struct {
	Packets      [][]byte
	Units        []*TSUnit
	Audio        []*TSAudio
	VPID, APID   uint16
	FirstPMT     int // index of the first packet after which the tables are known
	PSI          map[int]bool
	Rounds       []TSRound
	PMTPID       uint16
	CC           map[uint16]byte
	VideoPackets []int
}

// TSRound is one repetition of the tables: the packets they are in.
type TSRound struct{ PAT, PMT []int }

const mask33 = 1<<33 - 1

func (t *TS) Bytes() (b []byte) {
	for _, p := range t.Packets {
		b = append(b, p...)
	}
	return
}

// Join puts u behind t.
func (t *TS) Join(u *TS) {
	n, k := len(t.Packets), len(t.Units)
	t.Packets = append(t.Packets, u.Packets...)
	shift := func(x []int, d int) {
		for i := range x {
			x[i] += d
		}
	}
	for _, x := range u.Units {
		shift(x.Pkts, n)
		t.Units = append(t.Units, x)
	}
	for _, x := range u.Audio {
		shift(x.Units, k)
		t.Audio = append(t.Audio, x)
	}
	for i := range u.PSI {
		t.PSI[n+i] = true
	}
	for _, x := range u.Rounds {
		shift(x.PAT, n)
		shift(x.PMT, n)
		t.Rounds = append(t.Rounds, x)
	}
}

// ToTS multiplexes frames (headers are skipped; video keyframes get their
// parameter sets in band).
func ToTS(r *rand.Rand, frames []*Frame, o TSOpt) *TS {
	t := &TS{PSI: map[int]bool{}}
	m := &ts.Mux{R: r, Plain: o.Plain, Disc: o.Disc}
	pids := r.Perm(0x1ffe - 0x20)
	if p := o.After; p != nil { // none of its PIDs
		k := 0
		for _, x := range pids {
			if y := uint16(x + 0x20); y != p.PMTPID && y != p.VPID && y != p.APID {
				pids[k] = x
				k++
			}
		}
		pids = pids[:k]
	}
	pmt, v, a := uint16(pids[0]+0x20), uint16(pids[1]+0x20), uint16(pids[2]+0x20)
	if o.Plain && o.After == nil {
		pmt, v, a = 0x1000, 0x100, 0x101
	}
	m.CC = map[uint16]byte{v: byte(r.Intn(16)), a: byte(r.Intn(16)), 0: byte(r.Intn(16)), pmt: byte(r.Intn(16))}
	if o.After != nil {
		if o.SamePIDs {
			pmt, v, a = o.After.PMTPID, o.After.VPID, o.After.APID
		} else if r.Intn(2) == 0 {
			pmt = o.After.PMTPID
		}
		for k, x := range o.After.CC {
			m.CC[k] = x
		}
	}
	t.VPID, t.APID, t.PMTPID, t.CC = v, a, pmt, m.CC
	hasV, hasA, hevc := false, false, false
	for _, f := range frames {
		if f.Hdr {
			continue
		}
		if f.Kind == 9 {
			hasV, hevc = true, f.Conf.HEVC
		} else if f.Kind == 8 {
			hasA = true
		}
	}
	var es []ts.ESInfo
	bigs := 0
	desc := func() []byte {
		if o.Plain || r.Intn(2) == 0 {
			return nil
		}
		d := make([]byte, r.Intn(20))
		if o.Tables && bigs < 2 && r.Intn(6) == 0 {
			bigs++
			d = make([]byte, 250)
		}
		r.Read(d)
		if len(d) == 250 { // two of them, more than a byte can count
			return append(append([]byte{0x0a, 250}, d...), append([]byte{0x0a, byte(20)}, d[:20]...)...)
		}
		return append([]byte{0x0a, byte(len(d))}, d...)
	}
	if hasV {
		ty := byte(0x1b)
		if hevc {
			ty = 0x24
		}
		es = append(es, ts.ESInfo{Type: ty, PID: v, Desc: desc()})
	}
	if hasA {
		es = append(es, ts.ESInfo{Type: 0x0f, PID: a, Desc: desc()})
	}
	if !o.Plain {
		if r.Intn(3) == 0 {
			es = append(es, ts.ESInfo{Type: 0x06, PID: uint16(pids[3] + 0x20), Desc: desc()})
		}
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	}
	progs := [][2]uint16{{uint16(1 + r.Intn(1000)), pmt}}
	prog := progs[0][0]
	if !o.Plain && r.Intn(3) == 0 {
		progs = append([][2]uint16{{0, 0x10}}, progs...)
	}
	patSec := ts.PATSection(uint16(r.Intn(65536)), byte(r.Intn(32)), progs)
	var info []byte
	if !o.Plain && r.Intn(3) == 0 {
		info = desc()
	}
	pmtSec := ts.PMTSection(prog, byte(r.Intn(32)), v, info, es)
	add := func(unit int, pk [][]byte) {
		for _, p := range pk {
			i := len(t.Packets)
			t.Packets = append(t.Packets, p)
			if unit >= 0 {
				t.Units[unit].Pkts = append(t.Units[unit].Pkts, i)
			} else {
				t.PSI[i] = true
			}
		}
	}
	psi := func() {
		m.Out = nil
		ptr := func() int {
			if o.Plain || r.Intn(3) > 0 {
				return 0
			}
			return r.Intn(40)
		}
		put := func() (at []int) {
			var pk [][]byte
			for i := 0; i < len(m.Out); i += 188 {
				at = append(at, len(t.Packets)+i/188)
				pk = append(pk, m.Out[i:i+188])
			}
			add(-1, pk)
			m.Out = nil
			return
		}
		var rd TSRound
		if o.Tables && r.Intn(2) == 0 {
			secs := [][]byte{patSec}
			if r.Intn(2) == 0 {
				secs = append(secs, ts.Later(ts.PATSection(1, byte(r.Intn(32)), [][2]uint16{{prog, v}})))
				r.Shuffle(2, func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
			}
			m.Sections(0, secs...)
			rd.PAT = put()
			secs = [][]byte{pmtSec}
			for r.Intn(3) > 0 && len(secs) < 4 {
				b := make([]byte, r.Intn(300))
				r.Read(b)
				secs = append(secs, ts.Private(byte(0x80+r.Intn(0x7f)), r.Intn(2) == 0, b))
			}
			if r.Intn(2) == 0 {
				x := []ts.ESInfo{{Type: 0x1b, PID: uint16(pids[4] + 0x20)}, {Type: 0x0f, PID: uint16(pids[5] + 0x20)}}
				if r.Intn(2) == 0 {
					x[0].PID, x[1].PID = a, v
				}
				secs = append(secs, ts.Later(ts.PMTSection(prog, byte(r.Intn(32)), v, nil, x)))
			}
			r.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
			m.Sections(pmt, secs...)
			rd.PMT = put()
		} else {
			m.Section(0, patSec, ptr())
			rd.PAT = put()
			m.Section(pmt, pmtSec, ptr())
			rd.PMT = put()
		}
		t.Rounds = append(t.Rounds, rd)
		if t.FirstPMT == 0 {
			t.FirstPMT = len(t.Packets)
		}
	}
	null := func() {
		p := make([]byte, 188)
		r.Read(p)
		p[0], p[1], p[2], p[3] = 0x47, 0x1f, 0xff, 0x10
		add(-1, [][]byte{p})
	}
	stuffing := func() int {
		if o.Plain || r.Intn(3) > 0 {
			return 0
		}
		return r.Intn(30)
	}
	header := func(pes []byte) []byte {
		if o.Plain || r.Intn(5) > 0 {
			return pes
		}
		return ts.MoreHeader(pes, byte(r.Intn(64)), byte(r.Intn(256)), func(b []byte) { r.Read(b) })
	}
	// pending PES packets of both tracks, interleaved packet by packet
	var queue []struct {
		unit int
		pk   [][]byte
	}
	drain := func(all bool) {
		for len(queue) > 0 {
			i := r.Intn(len(queue))
			// packets of one PID stay in order
			for j := 0; j < i; j++ {
				if t.Units[queue[j].unit].Video == t.Units[queue[i].unit].Video {
					i = j
				}
			}
			n := 1 + r.Intn(6)
			if n > len(queue[i].pk) {
				n = len(queue[i].pk)
			}
			add(queue[i].unit, queue[i].pk[:n])
			queue[i].pk = queue[i].pk[n:]
			if len(queue[i].pk) == 0 {
				queue = append(queue[:i], queue[i+1:]...)
			}
			if !o.Plain {
				if r.Intn(60) == 0 {
					psi()
				}
				if r.Intn(60) == 0 {
					null()
				}
			}
			if !all && len(queue) < 3 {
				return
			}
		}
	}
	fine := func() uint64 {
		if o.Fine {
			return uint64(r.Intn(90))
		}
		return 0
	}
	// audio elementary stream waiting to be cut into PES packets
	var pend []*TSAudio
	var aes []byte
	var starts []int // offset in aes of each frame of pend not yet started
	flushAudio := func(final bool) {
		if len(aes) == 0 {
			return
		}
		cut := len(aes)
		if o.Span && !final && r.Intn(2) == 0 {
			cut = 1 + r.Intn(len(aes))
		}
		u := &TSUnit{Data: append([]byte(nil), aes[:cut]...), Bounded: r.Intn(3) > 0}
		ui := len(t.Units)
		pts, has := uint64(0), false
		for i, s := range starts {
			if s >= 0 && s < cut && !has {
				pts, has = pend[i].PTS, true
			}
		}
		u.PTS = pts
		t.Units = append(t.Units, u)
		// frames touched: every frame overlapping [0,cut)
		for i := range pend {
			e := len(aes)
			if i+1 < len(starts) {
				e = starts[i+1]
			}
			if starts[i] < cut && e > 0 {
				pend[i].Units = append(pend[i].Units, ui)
			}
		}
		var pes []byte
		if has {
			pes = header(ts.MakePES(0xc0, pts, pts, false, stuffing(), u.Bounded, u.Data))
		} else {
			n := 3 + len(u.Data)
			if !u.Bounded {
				n = 0
			}
			pes = append([]byte{0, 0, 1, 0xc0, byte(n >> 8), byte(n), 0x80, 0, 0}, u.Data...)
		}
		queue = append(queue, struct {
			unit int
			pk   [][]byte
		}{ui, m.PESPackets(a, r.Intn(2) == 0, -1, pes)})
		aes = aes[cut:]
		// drop finished frames, shift the rest
		var np []*TSAudio
		var ns []int
		for i := range pend {
			e := cut + len(aes)
			if i+1 < len(starts) {
				e = starts[i+1]
			}
			if e > cut {
				np = append(np, pend[i])
				ns = append(ns, starts[i]-cut)
			}
		}
		// a frame already begun keeps a negative start
		pend, starts = np, ns
		for i := range starts {
			if starts[i] < 0 {
				starts[i] = -1
			}
		}
	}
	psi()
	nf := 0
	var chainBase, chainN, chainBlocks uint64
	var chainConf *Conf
	chainNext := func() uint64 {
		if chainConf == nil {
			return 0
		}
		return (chainBase + chainN*1024*90000/uint64(h26x.AACRates[chainConf.Rate])) & mask33
	}
	for _, f := range frames {
		if f.Hdr {
			continue
		}
		dts := (o.Base + uint64(f.TS)*90 + fine()) & mask33
		if f.Kind == 8 {
			crc := o.CRC && r.Intn(3) == 0
			d := h26x.MakeADTS(f.Conf.Obj, f.Conf.Rate, f.Conf.Ch, f.Raw, crc)
			// times inside one PES packet follow from the rate; a jump or a
			// new configuration starts a new one
			jump := int64(dts) - int64(chainNext())
			blocks := uint64(1)
			if o.Blocks && r.Intn(4) == 0 {
				blocks = uint64(2 + r.Intn(3))
				d[6] |= byte(blocks - 1)
			}
			if prev := chainBlocks; len(aes) > 0 && (prev == 1 && (jump > 135 || jump < -135) || f.Conf != chainConf) {
				for len(aes) > 0 {
					flushAudio(true)
				}
			}
			au := &TSAudio{PTS: dts, Data: d, Frame: f}
			if len(aes) > 0 {
				au.PTS = chainNext()
				chainN += blocks
			} else {
				chainBase, chainN, chainConf = dts, blocks, f.Conf
			}
			chainBlocks = blocks
			t.Audio = append(t.Audio, au)
			pend = append(pend, au)
			starts = append(starts, len(aes))
			aes = append(aes, d...)
			if o.Plain || r.Intn(3) == 0 || len(aes) > 4000 {
				flushAudio(false)
			}
			drain(false)
			continue
		}
		if f.Kind != 9 {
			continue
		}
		nals := f.NALs
		if f.Key {
			has := false
			for _, n := range nals {
				has = has || IsSPS(f.Conf.HEVC, n)
			}
			if !has {
				i := 0
				if len(nals[0]) > 0 && len(StripAUD(f.Conf.HEVC, nals[:1])) == 0 {
					i = 1
				}
				x := append([][]byte{}, nals[:i]...)
				x = append(x, f.Conf.Sets()...)
				nals = append(x, nals[i:]...)
			}
		}
		sc3 := func(i int) bool { return o.SC3 && i > 0 && r.Intn(2) == 0 }
		if o.Zeros && r.Intn(4) == 0 { // trailing_zero_8bits
			x := append([][]byte{}, nals...)
			for i := range x {
				if r.Intn(2) == 0 {
					x[i] = append(append([]byte{}, x[i]...), make([]byte, 1+r.Intn(5))...)
				}
			}
			nals = x
		}
		data := h26x.AnnexB(sc3, nals...)
		cts := uint64(0)
		if f.CTS > 0 {
			cts = uint64(f.CTS) * 90
			if f.CTS > 5000 {
				cts = 5000 * 90
			}
		}
		u := &TSUnit{Video: true, DTS: dts, PTS: (dts + cts) & mask33, Key: f.Key, Data: data, Frame: f, Bounded: r.Intn(3) == 0 && len(data) < 65000}
		if f.Key && nf > 0 {
			psi()
		}
		ui := len(t.Units)
		t.Units = append(t.Units, u)
		pcr := int64(-1)
		if r.Intn(3) > 0 {
			pcr = int64(dts)
		}
		pes := header(ts.MakePES(0xe0, u.PTS, u.DTS, u.PTS != u.DTS || r.Intn(3) == 0, stuffing(), u.Bounded, data))
		queue = append(queue, struct {
			unit int
			pk   [][]byte
		}{ui, m.PESPackets(v, f.Key, pcr, pes)})
		nf++
		drain(false)
	}
	for len(aes) > 0 {
		flushAudio(true)
	}
	drain(true)
	return t
}
