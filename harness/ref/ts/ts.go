// Package ts is a strict MPEG-TS demuxer and a flexible muxer written from
// ISO/IEC 13818-1, independent of the code under test.
package ts

import (
	"encoding/binary"
	"fmt"
	"math/rand"
)

var table [256]uint32

func init() {
	for i := range table {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		table[i] = c
	}
}

func CRC(b []byte) uint32 {
	c := uint32(0xffffffff)
	for _, x := range b {
		c = c<<8 ^ table[byte(c>>24)^x]
	}
	return c
}

type PES struct {
	PID      uint16
	StreamID byte
	HasPTS   bool
	PTS, DTS uint64
	RAI      bool
	HasPCR   bool
	PCR      uint64 // base
	PCRExt   uint16
	Len      int // PES_packet_length
	Data     []byte
	Off      int // offset of its first packet
	end      int
}

type Stream struct {
	Type byte
	PID  uint16
}

type PMT struct {
	Program uint16
	PID     uint16
	PCRPID  uint16
	Version byte
	Streams []Stream
}

type PAT struct {
	TSID    uint16
	Version byte
	Progs   map[uint16]uint16 // program -> PID
}

// Result holds everything found, in order.
type Result struct {
	PAT                          *PAT
	PATs                         int
	PMTs                         map[uint16]*PMT // by PID
	PMTSeen                      int
	FirstPAT, FirstPMT, FirstPES int // offsets, -1 if none
	PES                          []*PES
	Packets                      int
	CC                           map[uint16]int // next expected
}

func parseTS33(b []byte, tag byte) (uint64, error) {
	if b[0]>>4 != tag || b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return 0, fmt.Errorf("bad timestamp bits % x (want prefix %d)", b[:5], tag)
	}
	return uint64(b[0]>>1&7)<<30 | uint64(b[1])<<22 | uint64(b[2]>>1)<<15 | uint64(b[3])<<7 | uint64(b[4]>>1), nil
}

// Demux parses whole TS packets strictly.  cc carries continuity counters over
// from an earlier call (nil to start afresh).
func Demux(data []byte, cc map[uint16]int) (*Result, error) {
	r := &Result{PMTs: map[uint16]*PMT{}, FirstPAT: -1, FirstPMT: -1, FirstPES: -1, CC: cc}
	if r.CC == nil {
		r.CC = map[uint16]int{}
	}
	if len(data)%188 != 0 {
		return r, fmt.Errorf("%d bytes are not a whole number of packets", len(data))
	}
	open := map[uint16]*PES{}
	for off := 0; off < len(data); off += 188 {
		p := data[off : off+188]
		bad := func(f string, a ...interface{}) (*Result, error) {
			return r, fmt.Errorf("packet %d at %d: %s (% x..)", off/188, off, fmt.Sprintf(f, a...), p[:16])
		}
		r.Packets++
		if p[0] != 0x47 {
			return bad("no sync byte")
		}
		if p[1]&0x80 != 0 {
			return bad("transport error indicator")
		}
		pusi := p[1]&0x40 != 0
		pid := binary.BigEndian.Uint16(p[1:]) & 0x1fff
		if p[3]>>6 != 0 {
			return bad("scrambled")
		}
		afc := p[3] >> 4 & 3
		if afc == 0 {
			return bad("reserved adaptation field control")
		}
		if pid == 0x1fff {
			continue
		}
		if afc&1 != 0 {
			if want, ok := r.CC[pid]; ok && want != int(p[3]&15) {
				return bad("pid %#x continuity counter %d, want %d", pid, p[3]&15, want)
			}
			r.CC[pid] = int(p[3]&15+1) & 15
		}
		pos := 4
		var rai, hasPCR bool
		var pcr uint64
		var ext uint16
		if afc&2 != 0 {
			n := int(p[4])
			if afc == 2 && n != 183 || afc == 3 && n > 182 {
				return bad("adaptation field length %d with control %d", n, afc)
			}
			pos = 5 + n
			if n > 0 {
				f := p[5]
				a := p[6 : 5+n]
				take := func(k int) []byte {
					if a == nil || len(a) < k {
						a = nil
						return nil
					}
					x := a[:k]
					a = a[k:]
					return x
				}
				fail := false
				rai = f&0x40 != 0
				if f&0x10 != 0 {
					x := take(6)
					if x == nil {
						return bad("PCR outside the adaptation field")
					}
					hasPCR = true
					pcr = uint64(binary.BigEndian.Uint32(x))<<1 | uint64(x[4]>>7)
					ext = uint16(x[4]&1)<<8 | uint16(x[5])
					if x[4]&0x7e != 0x7e {
						return bad("PCR reserved bits %02x", x[4])
					}
					if ext >= 300 {
						return bad("PCR extension %d", ext)
					}
				}
				if f&0x08 != 0 {
					fail = fail || take(6) == nil
				}
				if f&0x04 != 0 {
					fail = fail || take(1) == nil
				}
				if f&0x02 != 0 {
					if x := take(1); x == nil {
						fail = true
					} else {
						fail = fail || x[0] > 0 && take(int(x[0])) == nil
					}
				}
				if f&0x01 != 0 {
					if x := take(1); x == nil {
						fail = true
					} else {
						fail = fail || take(int(x[0])) == nil
					}
				}
				if fail {
					return bad("adaptation field overrun")
				}
				for _, x := range a {
					if x != 0xff {
						return bad("stuffing byte %02x", x)
					}
				}
			}
		}
		if afc&1 == 0 {
			continue
		}
		pl := p[pos:]
		if len(pl) == 0 {
			return bad("payload flagged but empty")
		}
		_, isPMT := r.PMTs[pid]
		switch {
		case pid == 0 || isPMT:
			if !pusi {
				return bad("section without a start (sections here fit one packet)")
			}
			ptr := int(pl[0])
			if ptr >= len(pl)-1 {
				return bad("pointer_field %d", ptr)
			}
			s := pl[1+ptr:]
			if len(s) < 12 {
				return bad("section too short")
			}
			n := int(binary.BigEndian.Uint16(s[1:])&0xfff) + 3
			if s[1]&0xf0 != 0xb0 {
				return bad("section syntax bits %02x", s[1])
			}
			if n < 12 || n > len(s) || n > 1024 {
				return bad("section length %d of %d", n, len(s))
			}
			if CRC(s[:n]) != 0 {
				return bad("section CRC")
			}
			for _, x := range s[n:] {
				if x != 0xff {
					return bad("byte %02x after the section", x)
				}
			}
			if s[5]&0xc1 != 0xc1 {
				return bad("version bits %02x", s[5])
			}
			if s[6] != 0 || s[7] != 0 {
				return bad("section number %d of %d", s[6], s[7])
			}
			ver := s[5] >> 1 & 31
			if pid == 0 {
				if s[0] != 0 {
					return bad("PAT table id %d", s[0])
				}
				r.PATs++
				if r.FirstPAT < 0 {
					r.FirstPAT = off
				}
				r.PAT = &PAT{TSID: binary.BigEndian.Uint16(s[3:]), Version: ver, Progs: map[uint16]uint16{}}
				body := s[8 : n-4]
				if len(body)%4 != 0 {
					return bad("PAT loop of %d bytes", len(body))
				}
				for ; len(body) > 0; body = body[4:] {
					pn, pp := binary.BigEndian.Uint16(body), binary.BigEndian.Uint16(body[2:])
					if pp>>13 != 7 {
						return bad("PAT reserved bits")
					}
					pp &= 0x1fff
					if _, dup := r.PAT.Progs[pn]; dup {
						return bad("program %d twice", pn)
					}
					r.PAT.Progs[pn] = pp
					if pn != 0 && r.PMTs[pp] == nil {
						r.PMTs[pp] = nil
					}
				}
				continue
			}
			if s[0] != 2 {
				return bad("PMT table id %d", s[0])
			}
			r.PMTSeen++
			if r.FirstPMT < 0 {
				r.FirstPMT = off
			}
			m := &PMT{Program: binary.BigEndian.Uint16(s[3:]), PID: pid, Version: ver, PCRPID: binary.BigEndian.Uint16(s[8:]) & 0x1fff}
			if s[8]>>5 != 7 || s[10]>>4 != 15 {
				return bad("PMT reserved bits")
			}
			il := int(binary.BigEndian.Uint16(s[10:]) & 0xfff)
			if 12+il > n-4 {
				return bad("program info length %d", il)
			}
			body := s[12+il : n-4]
			for len(body) > 0 {
				if len(body) < 5 {
					return bad("PMT loop remainder %d", len(body))
				}
				if body[1]>>5 != 7 || body[3]>>4 != 15 {
					return bad("PMT stream reserved bits")
				}
				st := Stream{body[0], binary.BigEndian.Uint16(body[1:]) & 0x1fff}
				el := int(binary.BigEndian.Uint16(body[3:]) & 0xfff)
				if 5+el > len(body) {
					return bad("ES info length %d", el)
				}
				body = body[5+el:]
				m.Streams = append(m.Streams, st)
			}
			if r.PAT.Progs[m.Program] != pid {
				return bad("PMT for program %d on pid %#x not in the PAT", m.Program, pid)
			}
			r.PMTs[pid] = m
		default:
			if r.FirstPES < 0 {
				r.FirstPES = off
			}
			pes := open[pid]
			if pusi {
				if pes != nil && pes.end >= 0 && len(pes.Data) != pes.end {
					return bad("PES on pid %#x announced %d bytes, has %d", pid, pes.end, len(pes.Data))
				}
				if len(pl) < 9 || pl[0] != 0 || pl[1] != 0 || pl[2] != 1 {
					return bad("no PES start code")
				}
				pes = &PES{PID: pid, StreamID: pl[3], Len: int(binary.BigEndian.Uint16(pl[4:])), RAI: rai, HasPCR: hasPCR, PCR: pcr, PCRExt: ext, Off: off, end: -1}
				if pl[6]>>6 != 2 {
					return bad("PES marker bits %02x", pl[6])
				}
				hl := int(pl[8])
				if 9+hl > len(pl) {
					return bad("PES header longer than the packet")
				}
				h := pl[9 : 9+hl]
				var err error
				switch pl[7] >> 6 {
				case 0:
				case 2:
					if hl < 5 {
						return bad("no room for PTS")
					}
					if pes.PTS, err = parseTS33(h, 2); err != nil {
						return bad("%v", err)
					}
					pes.DTS, pes.HasPTS = pes.PTS, true
					h = h[5:]
				case 3:
					if hl < 10 {
						return bad("no room for PTS and DTS")
					}
					if pes.PTS, err = parseTS33(h, 3); err != nil {
						return bad("%v", err)
					}
					if pes.DTS, err = parseTS33(h[5:], 1); err != nil {
						return bad("%v", err)
					}
					pes.HasPTS = true
					h = h[10:]
				default:
					return bad("PTS_DTS_flags 1")
				}
				if pl[7]&0x3f == 0 {
					for _, x := range h {
						if x != 0xff {
							return bad("PES header stuffing %02x", x)
						}
					}
				}
				if pes.Len != 0 {
					pes.end = pes.Len - 3 - hl
					if pes.end < 0 {
						return bad("PES_packet_length %d", pes.Len)
					}
				}
				pes.Data = append([]byte{}, pl[9+hl:]...)
				open[pid] = pes
				r.PES = append(r.PES, pes)
			} else {
				if pes == nil {
					return bad("pid %#x continues a PES that never started", pid)
				}
				if rai {
					return bad("random access indicator without a unit start")
				}
				pes.Data = append(pes.Data, pl...)
			}
			if pes.end >= 0 && len(pes.Data) > pes.end {
				return bad("pid %#x: %d bytes beyond the PES", pid, len(pes.Data)-pes.end)
			}
		}
	}
	for pid, pes := range open {
		if pes.end >= 0 && len(pes.Data) != pes.end {
			return r, fmt.Errorf("last PES on pid %#x announced %d bytes, has %d", pid, pes.end, len(pes.Data))
		}
	}
	return r, nil
}

// ---- muxer ----

func PutTS33(tag byte, t uint64) []byte {
	return []byte{tag<<4 | byte(t>>29)&0x0e | 1, byte(t >> 22), byte(t>>14) | 1, byte(t >> 7), byte(t<<1) | 1}
}

// Mux writes TS packets with randomised but conforming layout.
type Mux struct {
	R   *rand.Rand
	CC  map[uint16]byte
	Out []byte
	// Plain disables random stuffing.
	Plain bool
	// Disc lets PES packets begin with the discontinuity indicator and any
	// continuity counter.
	Disc bool
}

func (m *Mux) header(pid uint16, pusi bool, afc byte, hasPayload bool) []byte {
	if m.CC == nil {
		m.CC = map[uint16]byte{}
	}
	h := []byte{0x47, byte(pid >> 8), byte(pid), afc<<4 | m.CC[pid]&15}
	if pusi {
		h[1] |= 0x40
	}
	if hasPayload {
		m.CC[pid] = (m.CC[pid] + 1) & 15
	} else {
		h[3] = afc<<4 | (m.CC[pid]+15)&15
	}
	return h
}

// Section wraps a table in packets of pid; it may span several.
func (m *Mux) Section(pid uint16, sec []byte, pointer int) {
	data := make([]byte, 1+pointer)
	data[0] = byte(pointer)
	for i := 0; i < pointer; i++ {
		data[1+i] = 0xff
	}
	data = append(data, sec...)
	first := true
	for len(data) > 0 {
		n := min(184, len(data))
		p := m.header(pid, first, 1, true)
		first = false
		p = append(p, data[:n]...)
		data = data[n:]
		for len(p) < 188 {
			p = append(p, 0xff)
		}
		m.Out = append(m.Out, p...)
	}
}

// Sections writes sections back to back: one may begin in the packet in which
// the one before it ends.
func (m *Mux) Sections(pid uint16, secs ...[]byte) {
	var data []byte
	var starts []int
	for _, s := range secs {
		starts = append(starts, len(data))
		data = append(data, s...)
	}
	for pos := 0; pos < len(data); {
		at := -1
		for _, s := range starts {
			if s >= pos {
				at = s - pos
				break
			}
		}
		var p []byte
		n := 184
		switch {
		case at >= 0 && at < 183:
			n = 183
			p = append(m.header(pid, true, 1, true), byte(at))
		case at == 183: // one byte less, for the section not to begin here
			n = 183
			p = append(m.header(pid, false, 3, true), 0)
		default:
			p = m.header(pid, false, 1, true)
		}
		n = min(n, len(data)-pos)
		p = append(p, data[pos:pos+n]...)
		pos += n
		for len(p) < 188 {
			p = append(p, 0xff)
		}
		m.Out = append(m.Out, p...)
	}
}

// Later marks a PAT or PMT section as not yet applicable.
func Later(sec []byte) []byte {
	s := append([]byte(nil), sec[:len(sec)-4]...)
	s[5] &^= 1
	return binary.BigEndian.AppendUint32(s, CRC(s))
}

// Private is a section of a private table.
func Private(id byte, long bool, body []byte) []byte {
	if !long {
		n := len(body)
		return append([]byte{id, 0x30 | byte(n>>8), byte(n)}, body...)
	}
	return finish(append([]byte{id, 0, 0, 0, 1, 0xc1, 0, 0}, body...))
}

func finish(s []byte) []byte {
	n := len(s) + 4 - 3
	s[1] = 0xb0 | byte(n>>8)
	s[2] = byte(n)
	return binary.BigEndian.AppendUint32(s, CRC(s))
}

func PATSection(tsid uint16, ver byte, progs [][2]uint16) []byte {
	s := []byte{0, 0, 0, byte(tsid >> 8), byte(tsid), 0xc1 | ver<<1, 0, 0}
	for _, p := range progs {
		s = append(s, byte(p[0]>>8), byte(p[0]), 0xe0|byte(p[1]>>8), byte(p[1]))
	}
	return finish(s)
}

type ESInfo struct {
	Type byte
	PID  uint16
	Desc []byte
}

func PMTSection(prog uint16, ver byte, pcrpid uint16, info []byte, es []ESInfo) []byte {
	s := []byte{2, 0, 0, byte(prog >> 8), byte(prog), 0xc1 | ver<<1, 0, 0, 0xe0 | byte(pcrpid>>8), byte(pcrpid), 0xf0 | byte(len(info)>>8), byte(len(info))}
	s = append(s, info...)
	for _, e := range es {
		s = append(s, e.Type, 0xe0|byte(e.PID>>8), byte(e.PID), 0xf0|byte(len(e.Desc)>>8), byte(len(e.Desc)))
		s = append(s, e.Desc...)
	}
	return finish(s)
}

// MakePES builds a PES packet. stuff is header stuffing; bounded sets the length.
func MakePES(sid byte, pts, dts uint64, both bool, stuff int, bounded bool, data []byte) []byte {
	fl, h := byte(0x80), PutTS33(2, pts)
	if both {
		fl, h = 0xc0, append(PutTS33(3, pts), PutTS33(1, dts)...)
	}
	for i := 0; i < stuff; i++ {
		h = append(h, 0xff)
	}
	n := 3 + len(h) + len(data)
	if !bounded || n > 0xffff {
		n = 0
	}
	out := []byte{0, 0, 1, sid, byte(n >> 8), byte(n), 0x80, fl, byte(len(h))}
	out = append(out, h...)
	return append(out, data...)
}

// MoreHeader puts optional fields (ISO 13818-1 2.4.3.6) in the header of a PES
// packet of MakePES, in front of the stuffing: bits 5 to 0 of the flags byte
// say which, ext the flags of the extension (private data, pack header,
// sequence counter, P-STD buffer, extension field).
func MoreHeader(pes []byte, flags, ext byte, fill func([]byte)) []byte {
	var o []byte
	add := func(n int, and, or byte) []byte {
		b := make([]byte, n)
		fill(b)
		b[0] = b[0]&and | or
		o = append(o, b...)
		return b
	}
	if flags&0x20 != 0 { // ESCR
		add(6, 0x3b, 0xc4)
	}
	if flags&0x10 != 0 { // ES rate
		add(3, 0x7f, 0x80)
	}
	if flags&8 != 0 {
		add(1, 0xff, 0)
	}
	if flags&4 != 0 {
		add(1, 0x7f, 0x80)
	}
	if flags&2 != 0 { // CRC
		add(2, 0xff, 0)
	}
	if flags&1 != 0 {
		o = append(o, ext&0xf1|0x0e)
		if ext&0x80 != 0 {
			add(16, 0xff, 0)
		}
		if ext&0x40 != 0 { // pack header
			o = append(o, 14)
			copy(add(14, 0, 0), []byte{0, 0, 1, 0xba, 0x44})
		}
		if ext&0x20 != 0 {
			add(2, 0x7f, 0x80)
		}
		if ext&0x10 != 0 {
			add(2, 0x3f, 0x40)
		}
		if ext&1 != 0 {
			b := make([]byte, 1)
			fill(b)
			n := 1 + b[0]&7
			if b[0]&0x20 != 0 && flags&0x30 == 0 && ext&0xc0 == 0 {
				n += 63
			}
			o = append(o, 0x80|n)
			add(int(n), 0x7f, 0x80)
		}
	}
	ts := 5
	if pes[7]&0x40 != 0 {
		ts = 10
	}
	out := append(append(append([]byte{}, pes[:9+ts]...), o...), pes[9+ts:]...)
	out[7] |= flags & 0x3f
	out[8] += byte(len(o))
	if n := int(pes[4])<<8 | int(pes[5]); n > 0 {
		if n += len(o); n > 0xffff {
			n = 0
		}
		out[4], out[5] = byte(n>>8), byte(n)
	}
	return out
}

// AF builds adaptation field bytes (without the length byte) of at least its
// natural size, padded to n bytes (n<0: natural size).
func AF(rai bool, pcr int64, disc bool, private []byte, n int) []byte {
	f := byte(0)
	var b []byte
	if rai {
		f |= 0x40
	}
	if disc {
		f |= 0x80
	}
	if pcr >= 0 {
		f |= 0x10
		b = append(b, byte(pcr>>25), byte(pcr>>17), byte(pcr>>9), byte(pcr>>1), byte(pcr<<7)|0x7e, 0)
	}
	if private != nil {
		f |= 2
		b = append(append(b, byte(len(private))), private...)
	}
	b = append([]byte{f}, b...)
	for len(b) < n {
		b = append(b, 0xff)
	}
	return b
}

// PES packetises one PES packet, in one go.
func (m *Mux) PES(pid uint16, rai bool, pcr int64, pes []byte) {
	for _, p := range m.PESPackets(pid, rai, pcr, pes) {
		m.Out = append(m.Out, p...)
	}
}

// PESPackets returns the packets (continuity counters advance in order).
func (m *Mux) PESPackets(pid uint16, rai bool, pcr int64, pes []byte) (out [][]byte) {
	first := true
	disc := m.Disc && m.R.Intn(8) == 0
	if disc {
		m.CC[pid] = byte(int(m.CC[pid])+m.R.Intn(16)) & 15
	}
	for len(pes) > 0 {
		if !m.Plain && m.R.Intn(12) == 0 && !first { // adaptation-field-only packet
			p := m.header(pid, false, 2, false)
			p = append(p, 183)
			p = append(p, AF(false, -1, false, nil, 183)...)
			out = append(out, p)
		}
		var af []byte
		has := false
		if first && (rai || pcr >= 0) {
			af, has = AF(rai, pcr, false, nil, 0), true
		}
		if !m.Plain && m.R.Intn(6) == 0 {
			var priv []byte
			if m.R.Intn(3) == 0 {
				priv = make([]byte, m.R.Intn(20))
				m.R.Read(priv)
			}
			pc := int64(-1)
			if first {
				pc = pcr
			}
			af, has = AF(first && rai, pc, false, priv, m.R.Intn(60)), true
			if m.R.Intn(5) == 0 && !first {
				af = nil // zero-length adaptation field
			}
		}
		if first && disc {
			if !has || len(af) == 0 {
				af, has = AF(rai, pcr, false, nil, 0), true
			}
			af[0] |= 0x80
		}
		room := 184
		if has {
			room -= 1 + len(af)
		}
		n := min(room, len(pes))
		if n < room { // needs stuffing
			pad := room - n
			if !has {
				has = true
				pad--
				if pad > 0 {
					af = AF(false, -1, false, nil, pad)
				}
			} else {
				if len(af) == 0 && pad > 0 {
					af = []byte{0}
					pad--
				}
				for ; pad > 0; pad-- {
					af = append(af, 0xff)
				}
			}
		}
		afc := byte(1)
		if has {
			afc = 3
		}
		p := m.header(pid, first, afc, true)
		if has {
			p = append(p, byte(len(af)))
			p = append(p, af...)
		}
		p = append(p, pes[:n]...)
		pes = pes[n:]
		first = false
		if len(p) != 188 {
			panic(fmt.Sprintf("ts mux: packet of %d bytes", len(p)))
		}
		out = append(out, p)
	}
	return
}
