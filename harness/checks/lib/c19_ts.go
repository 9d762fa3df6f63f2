package lib

import (
	"bytes"
	"math/rand"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libmpeg"

	"vharness/ref/ts"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{
		ID: "C19", Quick: 20000, Thorough: 300000,
		Rule:      "each case: a random program layout and a batch of PES (sizes concentrated around packet boundaries, 33-bit timestamps and beyond, key flag or not) muxed packet by packet, interleaved over PIDs, then demuxed by the strict independent demuxer and by the package itself; plus conforming TS of an independent muxer and damaged packets read by the package; distinct by PES size, timestamps and flags",
		Technique: "round-trip oracle over real mux/demux executions with a strict independent demuxer, and an independent muxer for the reverse direction",
		LevelNote: "held on the layouts and PES tried; sections fit one packet; reference TS code is trusted",
		Run:       runC19,
	})
}

func rand33(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0:
		return []uint64{0, 1, 2, 1<<33 - 1, 1 << 32, 1<<32 - 1, 1 << 30, 1<<15 - 1, 1 << 15, 1 << 29}[r.Intn(10)]
	case 1:
		return uint64(r.Uint32())
	}
	return r.Uint64() & (1<<33 - 1)
}

func pesSize(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return r.Intn(4)
	case 1, 2, 3, 4:
		return max(0, 184*(1+r.Intn(3))-30+r.Intn(60))
	case 5:
		return 65536 - 40 + r.Intn(60)
	case 6:
		return r.Intn(5000)
	case 7:
		return 140 + r.Intn(60)
	}
	return r.Intn(1200)
}

func distinctPIDs(r *rand.Rand, n int, fixed ...uint16) []uint16 {
	seen := map[uint16]bool{0: true, 0x1fff: true}
	for _, f := range fixed {
		seen[f] = true
	}
	var out []uint16
	for len(out) < n {
		p := uint16(16 + r.Intn(0x1fff-16))
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

// distinctPrograms returns program numbers of every kind but 0.
func distinctPrograms(r *rand.Rand, n int) []uint16 {
	seen := map[uint16]bool{0: true}
	var out []uint16
	for len(out) < n {
		p := uint16(len(out) + 1)
		switch r.Intn(4) {
		case 0:
			p = uint16(r.Intn(65536))
		case 1:
			p = uint16(r.Intn(256)) << 8
		case 2:
			p = []uint16{1, 255, 256, 0x7fff, 0x8000, 0xffff, 0x1fff, 0x2000}[r.Intn(8)]
		}
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

// longSections parses sections of up to the largest size directly.
func longSections(c *vh.C) {
	r := c.R
	n := []int{1, 253, 252, r.Intn(254)}[r.Intn(4)]
	var progs [][2]uint16
	ns := distinctPrograms(r, n)
	ps := distinctPIDs(r, n)
	for i := range ns {
		progs = append(progs, [2]uint16{ns[i], ps[i]})
	}
	if n < 253 && r.Intn(2) == 0 {
		progs = append(progs, [2]uint16{0, 16})
	}
	r.Shuffle(len(progs), func(i, j int) { progs[i], progs[j] = progs[j], progs[i] })
	sec := ts.PATSection(uint16(r.Intn(65536)), 1, progs)
	pat := libmpeg.NewPAT()
	var err error
	c.Call("PAT.Parse", func() { err = pat.Parse(easyio.NewEasyReader(bytes.NewReader(sec))) })
	if err != nil || len(pat.PMTs) != n {
		c.Fail("long-pat", "PAT of %d programs (%d bytes): %v, %d programs", n, len(sec), err, len(pat.PMTs))
	}
	for i := range ns {
		if m := pat.PMTs[ps[i]]; m == nil || m.ProgramNumber != ns[i] {
			c.Fail("long-pat", "program %d on pid %#x of a PAT of %d parsed as %+v", ns[i], ps[i], n, m)
		}
	}
	// a PMT filled up to a section length of at most 1021
	room := 1021 - 9 - 4
	if r.Intn(2) == 0 {
		room = r.Intn(room)
	}
	info := randBytes(r, []int{0, r.Intn(room + 1), min(room, 255+r.Intn(4))}[r.Intn(3)])
	room -= len(info)
	var es []ts.ESInfo
	pids := distinctPIDs(r, 220)
	for room >= 5 && len(es) < 200 {
		k := []int{0, min(room-5, r.Intn(20)), r.Intn(room - 4), min(room-5, 254+r.Intn(5)), room - 5}[r.Intn(5)]
		es = append(es, ts.ESInfo{Type: byte(r.Intn(256)), PID: pids[len(es)], Desc: randBytes(r, k)})
		room -= 5 + k
	}
	prog, pcr := distinctPrograms(r, 1)[0], pids[219]
	sec = ts.PMTSection(prog, byte(r.Intn(32)), pcr, info, es)
	pmt := libmpeg.NewPMT(0)
	c.Call("PMT.Parse", func() { err = pmt.Parse(easyio.NewEasyReader(bytes.NewReader(sec))) })
	if err != nil || pmt.ProgramNumber != prog || pmt.PCR_PID != pcr || pmt.VersionNumber != sec[5]>>1&31 || len(pmt.Streams) != len(es) {
		c.Fail("long-pmt", "PMT of %d bytes (%d streams, program %d, pcr %#x): %v, parsed as %+v", len(sec), len(es), prog, pcr, err, pmt)
	}
	for _, e := range es {
		if s := pmt.Streams[e.PID]; s == nil || s.StreamType != e.Type {
			c.Fail("long-pmt", "stream %#x type %#x of a PMT of %d bytes parsed as %+v", e.PID, e.Type, len(sec), s)
		}
	}
	c.Count("long_sections", 2)
}

type pesWant struct {
	pid      uint16
	sid      byte
	key      bool
	pts, dts uint64
	data     []byte
}

func runC19(c *vh.C) {
	r := c.R
	const mask = 1<<33 - 1
	// ---- layout
	nprog := 1 + r.Intn(3)
	if r.Intn(8) == 0 {
		nprog = 1 + r.Intn(40)
	}
	pmtPIDs := []uint16{libmpeg.PMT_PID}
	pmtPIDs = append(pmtPIDs, distinctPIDs(r, nprog-1, libmpeg.PMT_PID, libmpeg.AUDIO_PID, libmpeg.VIDEO_PID)...)
	pat := &libmpeg.PAT{SectionSyntaxIndicator: 1, TransportStreamID: uint16(r.Intn(65536)), VersionNumber: uint8(r.Intn(32)), CurrentNextIndicator: 1, PMTs: map[uint16]*libmpeg.PMT{}}
	numbers := distinctPrograms(r, nprog)
	for i, p := range pmtPIDs {
		pat.PMTs[p] = &libmpeg.PMT{TableID: 2, SectionSyntaxIndicator: 1, ProgramNumber: numbers[i], VersionNumber: uint8(r.Intn(32)), CurrentNextIndicator: 1, Streams: map[uint16]*libmpeg.PES{}}
	}
	main := pat.PMTs[libmpeg.PMT_PID]
	nstr := r.Intn(3)
	if r.Intn(8) == 0 {
		nstr = r.Intn(31)
	}
	pids := append([]uint16{}, distinctPIDs(r, nstr, append(append([]uint16{}, pmtPIDs...), libmpeg.AUDIO_PID, libmpeg.VIDEO_PID)...)...)
	switch r.Intn(4) {
	case 0:
		pids = append(pids, libmpeg.AUDIO_PID)
	case 1:
		pids = append(pids, libmpeg.VIDEO_PID)
	default:
		pids = append(pids, libmpeg.AUDIO_PID, libmpeg.VIDEO_PID)
	}
	main.PCR_PID = pids[r.Intn(len(pids))]
	sid := map[uint16]byte{}
	for i, p := range pids {
		sid[p] = byte(0xc0 + i%32)
		if p == libmpeg.VIDEO_PID || p != libmpeg.AUDIO_PID && r.Intn(2) == 0 {
			sid[p] = byte(0xe0 + i%16)
		} else if r.Intn(6) == 0 { // private stream 1, extended id, ECM..
			sid[p] = []byte{0xbd, 0xfd, 0xf3, 0xf9}[r.Intn(4)]
		}
		main.Streams[p] = &libmpeg.PES{StreamID: sid[p], StreamType: []uint8{0x1b, 0x24, 0x0f, 0x03, 0x06}[r.Intn(5)], PacketStartCodePrefix: 1}
	}
	cc := map[uint16]uint8{}
	for _, p := range append([]uint16{0, libmpeg.PMT_PID}, pids...) {
		cc[p] = uint8(r.Intn(16))
	}
	startCC := map[uint16]int{}
	for p, v := range cc {
		startCC[p] = int(v)
	}
	var buf bytes.Buffer
	w := easyio.NewEasyWriter(&buf)
	mux := func(pid uint16, psi libmpeg.PSI, first, key bool, dts uint64) (fin bool) {
		n0 := buf.Len()
		c.Call("Mux", func() {
			var err error
			fin, err = libmpeg.NewTs(pid, cc, first).Mux(psi, key, dts, w)
			if err != nil {
				c.Fail("mux-error", "Mux of a legal packet failed: %v", err)
			}
		})
		if buf.Len()-n0 != 188 {
			c.Fail("packet-size", "Mux wrote %d bytes", buf.Len()-n0)
		}
		return
	}
	psi := func() {
		if !mux(0, pat, true, false, 0) {
			c.Fail("psi-unfinished", "PAT of %d programs not finished in one packet", nprog)
		}
		for _, p := range pmtPIDs {
			if !mux(p, pat.PMTs[p], true, false, 0) {
				c.Fail("psi-unfinished", "PMT not finished in one packet")
			}
		}
	}
	psi()
	// ---- PES, up to one in flight per PID, packets interleaved
	type flight struct {
		w     pesWant
		p     *libmpeg.PES
		first bool
	}
	var want []pesWant
	fl := map[uint16]*flight{}
	todo := 1 + r.Intn(6)
	for todo > 0 || len(fl) > 0 {
		if r.Intn(30) == 0 {
			psi()
		}
		pid := pids[r.Intn(len(pids))]
		f := fl[pid]
		if f == nil {
			if todo == 0 || len(fl) > 0 && r.Intn(3) == 0 {
				continue
			}
			todo--
			x := pesWant{pid: pid, sid: sid[pid], key: r.Intn(2) == 0, dts: rand33(r), data: randBytes(r, pesSize(r))}
			x.pts = x.dts
			if r.Intn(2) == 0 {
				x.pts = x.dts + uint64(r.Intn(1<<20))
			} else if r.Intn(4) == 0 {
				x.pts = rand33(r)
			}
			if sid[pid]&0xf0 != 0xe0 && len(x.data) > 60000 {
				x.data = x.data[:60000] // only video may be unbounded
			}
			f = &flight{x, &libmpeg.PES{PacketStartCodePrefix: 1, StreamID: x.sid, PTS: x.pts, DTS: x.dts, Data: x.data}, true}
			fl[pid] = f
			f.w.pts &= mask
			f.w.dts &= mask
			want = append(want, f.w)
		}
		fin := mux(pid, f.p, f.first, f.w.key && f.first, f.w.dts)
		if f.first {
			c.Nontrivial("%d|%d|%d|%v", len(f.w.data), f.w.pts, f.w.dts, f.w.key)
			c.Count("pes", 1)
		}
		f.first = false
		if fin {
			delete(fl, pid)
		}
	}
	out := append([]byte{}, buf.Bytes()...)
	c.Count("packets", len(out)/188)
	// ---- strict demux
	res, err := ts.Demux(out, startCC)
	if err != nil {
		c.Fail("illegal-ts", "%v (PES sizes %v)", err, sizes(want))
	}
	if res.PAT == nil || res.PAT.TSID != pat.TransportStreamID || res.PAT.Version != pat.VersionNumber || len(res.PAT.Progs) != nprog {
		c.Fail("pat", "PAT %+v, want %d programs of stream %d version %d", res.PAT, nprog, pat.TransportStreamID, pat.VersionNumber)
	}
	for _, p := range pmtPIDs {
		m, wm := res.PMTs[p], pat.PMTs[p]
		if m == nil || m.Program != wm.ProgramNumber || m.PCRPID != wm.PCR_PID || m.Version != wm.VersionNumber || len(m.Streams) != len(wm.Streams) {
			c.Fail("pmt", "PMT %+v differs from the layout (%d streams, version %d, PCR pid %#x)", m, len(wm.Streams), wm.VersionNumber, wm.PCR_PID)
		}
		for _, s := range m.Streams {
			if ws := wm.Streams[s.PID]; ws == nil || ws.StreamType != s.Type {
				c.Fail("pmt", "PMT lists pid %#x type %#x", s.PID, s.Type)
			}
		}
	}
	if len(res.PES) != len(want) {
		c.Fail("pes-count", "%d PES out, %d in", len(res.PES), len(want))
	}
	for i, g := range res.PES {
		x := want[i]
		if g.PID != x.pid || g.StreamID != x.sid || !g.HasPTS || g.PTS != x.pts || g.DTS != x.dts {
			c.Fail("pes-header", "PES %d: pid %#x sid %#x PTS %d DTS %d, want %#x %#x %d %d", i, g.PID, g.StreamID, g.PTS, g.DTS, x.pid, x.sid, x.pts, x.dts)
		}
		if !bytes.Equal(g.Data, x.data) {
			c.Fail("pes-data", "PES %d of %d bytes (key %v) comes back as %d bytes, first difference at %d", i, len(x.data), x.key, len(g.Data), diffAt(g.Data, x.data))
		}
		if g.RAI != x.key || g.HasPCR != x.key || x.key && (g.PCR != x.dts || g.PCRExt != 0) {
			c.Fail("rai-pcr", "PES %d key %v dts %d: random access %v, PCR %v %d+%d", i, x.key, x.dts, g.RAI, g.HasPCR, g.PCR, g.PCRExt)
		}
		if x.sid&0xf0 != 0xe0 && g.Len == 0 {
			c.Fail("pes-length", "PES of stream id %#x without a length", x.sid)
		}
	}
	// ---- the package's own demuxer on its own output
	var in []*libmpeg.PES
	rp, rm := ownDemux(c, out, &in)
	checkOwnTables(c, rp, rm, pat, main)
	compareOwn(c, in, want, "own output")

	// ---- and on an independent muxer's output
	m := &ts.Mux{R: r}
	progs := [][2]uint16{}
	if r.Intn(2) == 0 {
		progs = append(progs, [2]uint16{0, 16})
	}
	for _, p := range pmtPIDs {
		progs = append(progs, [2]uint16{pat.PMTs[p].ProgramNumber, p})
	}
	var es []ts.ESInfo
	total := 0
	info := randBytes(r, r.Intn(30))
	for _, p := range pids {
		d := randBytes(r, r.Intn(8))
		if total += 5 + len(d); total > 120 {
			d = nil
		}
		es = append(es, ts.ESInfo{Type: main.Streams[p].StreamType, PID: p, Desc: d})
	}
	psec := ts.PATSection(pat.TransportStreamID, pat.VersionNumber, progs)
	msec := ts.PMTSection(main.ProgramNumber, main.VersionNumber, main.PCR_PID, info, es)
	ptr := 0
	if r.Intn(3) == 0 && len(psec) < 150 && len(msec) < 150 {
		ptr = r.Intn(30)
	}
	if len(psec)+ptr <= 183 && len(msec)+ptr <= 183 {
		m.Section(0, psec, ptr)
		m.Section(libmpeg.PMT_PID, msec, ptr)
		var w2 []pesWant
		for i, n := 0, r.Intn(5); i < n; i++ {
			x := pesWant{pid: pids[r.Intn(len(pids))], dts: rand33(r), data: randBytes(r, 1+pesSize(r)), key: r.Intn(2) == 0}
			x.pts, x.sid = x.dts, sid[x.pid]
			both := r.Intn(2) == 0
			if both {
				x.pts = rand33(r)
			}
			pcr := int64(-1)
			if x.key {
				pcr = int64(x.dts)
			}
			pes := ts.MakePES(x.sid, x.pts, x.dts, both, r.Intn(3)*r.Intn(8), r.Intn(2) == 0, x.data)
			if r.Intn(2) == 0 {
				pes = ts.MoreHeader(pes, byte(r.Intn(64)), byte(r.Intn(256)), func(b []byte) { r.Read(b) })
				c.Count("foreign_pes_with_optional_fields", 1)
			}
			m.PES(x.pid, x.key, pcr, pes)
			w2 = append(w2, x)
			c.Count("foreign_pes", 1)
		}
		in = nil
		rp, rm = ownDemux(c, m.Out, &in)
		checkOwnTables(c, rp, rm, pat, main)
		compareOwn(c, in, w2, "foreign TS")
		// a bit flipped in a section must be reported
		k := r.Intn(len(psec))
		bad := append([]byte{}, psec...)
		bad[k] ^= 1 << r.Intn(8)
		var perr error
		c.Call("PAT.Parse", func() { perr = libmpeg.NewPAT().Parse(easyio.NewEasyReader(bytes.NewReader(bad))) })
		if perr == nil {
			c.Fail("crc", "PAT with bit damage in byte %d accepted", k)
		}
		bad = append([]byte{}, msec...)
		k = r.Intn(len(msec))
		bad[k] ^= 1 << r.Intn(8)
		c.Call("PMT.Parse", func() { perr = libmpeg.NewPMT(1).Parse(easyio.NewEasyReader(bytes.NewReader(bad))) })
		if perr == nil {
			c.Fail("crc", "PMT with bit damage in byte %d accepted", k)
		}
		c.Count("damaged_sections", 2)
	}
	checkAF(c)
	longSections(c)
	// ---- damaged packets must never panic
	for k := 0; k < 8; k++ {
		p := append([]byte{}, out[188*r.Intn(len(out)/188):][:188]...)
		for j := 0; j < 1+r.Intn(4); j++ {
			p[1+r.Intn(30)] = byte(r.Intn(256))
		}
		if r.Intn(3) == 0 {
			p = p[:r.Intn(189)]
		}
		c.Trace("damaged packet %x", p)
		c.Call("DeMux of a damaged packet", func() {
			t := &libmpeg.TS{}
			table := map[uint16]libmpeg.PSI{0: libmpeg.NewPAT(), libmpeg.PMT_PID: libmpeg.NewPMT(1)}
			for _, x := range pids {
				table[x] = libmpeg.NewPES()
			}
			_ = t.DeMux(table, easyio.NewEasyReader(bytes.NewReader(p)))
		})
		c.Count("damaged_packets", 1)
	}
}

func sizes(w []pesWant) (out []int) {
	for _, x := range w {
		out = append(out, len(x.data))
	}
	return
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// ownDemux feeds whole packets to libmpeg's demuxer, a fresh PES per unit.
func ownDemux(c *vh.C, data []byte, out *[]*libmpeg.PES) (*libmpeg.PAT, *libmpeg.PMT) {
	pat, pmt := libmpeg.NewPAT(), libmpeg.NewPMT(0)
	table := map[uint16]libmpeg.PSI{0: pat, libmpeg.PMT_PID: pmt}
	c.Call("DeMux", func() {
		rd := easyio.NewEasyReader(bytes.NewReader(data))
		for off := 0; off < len(data); off += 188 {
			p := data[off:]
			pid := uint16(p[1]&0x1f)<<8 | uint16(p[2])
			if x, ok := pat.PMTs[pid]; ok && pid != libmpeg.PMT_PID {
				table[pid] = x
			}
			if _, ok := pmt.Streams[pid]; ok && p[1]&0x40 != 0 {
				pes := libmpeg.NewPES()
				table[pid] = pes
				*out = append(*out, pes)
			}
			t := &libmpeg.TS{}
			if err := t.DeMux(table, rd); err != nil {
				c.Fail("own-demux", "DeMux of conforming packet at %d failed: %v (% x..)", off, err, p[:24])
			}
			if t.PID != pid || t.ContinuityCounter != p[3]&15 || t.PayloadUnitStartIndicator != p[1]>>6&1 {
				c.Fail("own-header", "packet header parsed as %+v from % x", t, p[:4])
			}
		}
	})
	return pat, pmt
}

func checkOwnTables(c *vh.C, rp *libmpeg.PAT, rm *libmpeg.PMT, pat *libmpeg.PAT, main *libmpeg.PMT) {
	if rp.TransportStreamID != pat.TransportStreamID || rp.VersionNumber != pat.VersionNumber || len(rp.PMTs) != len(pat.PMTs) {
		c.Fail("own-pat", "PAT parsed back as stream %d version %d with %d programs, want %d %d %d", rp.TransportStreamID, rp.VersionNumber, len(rp.PMTs), pat.TransportStreamID, pat.VersionNumber, len(pat.PMTs))
	}
	for p, m := range pat.PMTs {
		if rp.PMTs[p] == nil || rp.PMTs[p].ProgramNumber != m.ProgramNumber {
			c.Fail("own-pat", "program on pid %#x parsed back as %+v", p, rp.PMTs[p])
		}
	}
	if rm.ProgramNumber != main.ProgramNumber || rm.PCR_PID != main.PCR_PID || rm.VersionNumber != main.VersionNumber || len(rm.Streams) != len(main.Streams) {
		c.Fail("own-pmt", "PMT parsed back as program %d PCR %#x version %d with %d streams, want %d %#x %d %d", rm.ProgramNumber, rm.PCR_PID, rm.VersionNumber, len(rm.Streams), main.ProgramNumber, main.PCR_PID, main.VersionNumber, len(main.Streams))
	}
	for p := range main.Streams {
		if rm.Streams[p] == nil {
			c.Fail("own-pmt", "stream on pid %#x lost", p)
		}
	}
}

func compareOwn(c *vh.C, got []*libmpeg.PES, want []pesWant, what string) {
	if len(got) != len(want) {
		c.Fail("own-count", "%s: own demuxer saw %d PES of %d", what, len(got), len(want))
	}
	for i, g := range got {
		x := want[i]
		dts := g.DTS
		if g.PTS_DTSFlag == 2 {
			dts = g.PTS
		}
		if g.StreamID != x.sid || g.PTS != x.pts || dts != x.dts {
			c.Fail("own-pes", "%s: PES %d parsed back with sid %#x PTS %d DTS %d (flags %d), want %#x %d %d", what, i, g.StreamID, g.PTS, g.DTS, g.PTS_DTSFlag, x.sid, x.pts, x.dts)
		}
		if !bytes.Equal(g.Data, x.data) {
			c.Fail("own-pes-data", "%s: PES %d of %d bytes parsed back as %d bytes, first difference at %d", what, i, len(x.data), len(g.Data), diffAt(g.Data, x.data))
		}
	}
}

func checkAF(c *vh.C) {
	r := c.R
	// every optional field of an adaptation field
	var b []byte
	flags := byte(r.Intn(256))
	base, ext := rand33(r), uint16(r.Intn(300))
	obase, oext := rand33(r), uint16(r.Intn(300))
	put := func(v uint64, e uint16) {
		b = append(b, byte(v>>25), byte(v>>17), byte(v>>9), byte(v>>1), byte(v<<7)|0x7e|byte(e>>8), byte(e))
	}
	if flags&0x10 != 0 {
		put(base, ext)
	}
	if flags&0x08 != 0 {
		put(obase, oext)
	}
	splice := byte(r.Intn(256))
	if flags&0x04 != 0 {
		b = append(b, splice)
	}
	priv := randBytes(r, r.Intn(40))
	if flags&0x02 != 0 {
		b = append(append(b, byte(len(priv))), priv...)
	}
	ef := byte(r.Intn(8)) << 5
	ltw, pw, dnau, st := uint16(r.Intn(65536)), uint32(r.Intn(1<<22)), rand33(r), byte(r.Intn(16))
	if flags&0x01 != 0 {
		e := []byte{ef | 0x1f}
		if ef&0x80 != 0 {
			e = append(e, byte(ltw>>8), byte(ltw))
		}
		if ef&0x40 != 0 {
			e = append(e, 0xc0|byte(pw>>16), byte(pw>>8), byte(pw))
		}
		if ef&0x20 != 0 {
			e = append(e, ts.PutTS33(st, dnau)...)
		}
		b = append(append(b, byte(len(e))), e...)
	}
	b = append([]byte{flags}, b...)
	for i, n := 0, r.Intn(50); i < n && len(b) < 183; i++ {
		b = append(b, 0xff)
	}
	tail := []byte{0xde, 0xad, 0xbe, 0xef}
	rd := bytes.NewReader(append(append([]byte{byte(len(b))}, b...), tail...))
	af := libmpeg.NewAdaptationField()
	var err error
	c.Call("AdaptationField.Parse", func() { err = af.Parse(easyio.NewEasyReader(rd)) })
	if err != nil {
		c.Fail("af-parse", "legal adaptation field %x refused: %v", b, err)
	}
	if rd.Len() != len(tail) {
		c.Fail("af-parse", "adaptation field of %d bytes (flags %02x): %d bytes left behind it, want %d", len(b), flags, rd.Len(), len(tail))
	}
	bit := func(n uint) uint8 { return flags >> n & 1 }
	ok := af.DiscontinuityIndicator == bit(7) && af.RandomAccessIndicator == bit(6) && af.ElementaryStreamPriority == bit(5) && af.PCRFlag == bit(4) && af.OPCRFlag == bit(3) && af.SplicingPointFlag == bit(2) && af.TransportPrivateDataFlag == bit(1) && af.AdaptationFieldExtensionFlag == bit(0)
	if bit(4) == 1 {
		ok = ok && af.ProgramClockReferenceBase == base && af.ProgramClockReferenceExtension == ext
	}
	if bit(3) == 1 {
		ok = ok && af.OriginalProgramClockReferenceBase == obase && af.OriginalProgramClockReferenceExtension == oext
	}
	if bit(2) == 1 {
		ok = ok && af.SpliceCountdown == int8(splice)
	}
	if bit(1) == 1 {
		ok = ok && bytes.Equal(af.TransportPrivateData, priv)
	}
	if bit(0) == 1 {
		if ef&0x80 != 0 {
			ok = ok && af.LTWValidFlag == uint8(ltw>>15) && af.LTWOffset == ltw&0x7fff
		}
		if ef&0x40 != 0 {
			ok = ok && af.PiecewiseRate == pw
		}
		if ef&0x20 != 0 {
			ok = ok && af.SpliceType == st && af.DTSNextAccessUnit == dnau
		}
	}
	if !ok {
		c.Fail("af-fields", "adaptation field %x parsed as %+v", b, af)
	}
	// truncation is an error
	if n := r.Intn(len(b) + 1); n < len(b)+1 {
		full := append([]byte{byte(len(b))}, b...)
		c.Call("AdaptationField.Parse", func() { err = libmpeg.NewAdaptationField().Parse(easyio.NewEasyReader(bytes.NewReader(full[:n]))) })
		if err == nil {
			c.Fail("af-truncated", "adaptation field truncated to %d of %d bytes accepted", n, len(full))
		}
	}
	c.Count("adaptation_fields", 1)
}
