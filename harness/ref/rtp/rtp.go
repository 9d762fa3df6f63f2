// Package rtp is an independent, strict RTP packetiser/depacketiser
// (RFC 3550, 6184, 7798, 3640, 7587).
package rtp

import (
	"encoding/binary"
	"fmt"
	"math/rand"
)

type Packet struct {
	PT      uint8
	Marker  bool
	Seq     uint16
	TS      uint32
	SSRC    uint32
	Payload []byte
}

// Parse is strict: version 2, every length consistent.
func Parse(b []byte) (*Packet, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("RTP packet of %d bytes", len(b))
	}
	if b[0]>>6 != 2 {
		return nil, fmt.Errorf("RTP version %d", b[0]>>6)
	}
	off := 12 + 4*int(b[0]&15)
	if b[0]&0x10 != 0 {
		if len(b) < off+4 {
			return nil, fmt.Errorf("RTP extension truncated")
		}
		off += 4 + 4*int(binary.BigEndian.Uint16(b[off+2:]))
	}
	end := len(b)
	if b[0]&0x20 != 0 {
		if end < 1 || b[end-1] == 0 {
			return nil, fmt.Errorf("RTP padding length 0")
		}
		end -= int(b[end-1])
	}
	if off > end {
		return nil, fmt.Errorf("RTP header longer than packet")
	}
	return &Packet{PT: b[1] & 0x7f, Marker: b[1]&0x80 != 0, Seq: binary.BigEndian.Uint16(b[2:]),
		TS: binary.BigEndian.Uint32(b[4:]), SSRC: binary.BigEndian.Uint32(b[8:]), Payload: b[off:end]}, nil
}

// Bytes is the plain encoding; With adds CSRCs, an extension and padding.
func (p *Packet) Bytes() []byte { return p.With(0, -1, 0, nil) }

func (p *Packet) With(csrc, ext, pad int, r *rand.Rand) []byte {
	b := make([]byte, 12)
	b[0] = 2<<6 | byte(csrc)
	b[1] = p.PT & 0x7f
	if p.Marker {
		b[1] |= 0x80
	}
	binary.BigEndian.PutUint16(b[2:], p.Seq)
	binary.BigEndian.PutUint32(b[4:], p.TS)
	binary.BigEndian.PutUint32(b[8:], p.SSRC)
	for i := 0; i < 4*csrc; i++ {
		b = append(b, byte(r.Intn(256)))
	}
	if ext >= 0 {
		b[0] |= 0x10
		b = append(b, 0xbe, 0xde, byte(ext>>8), byte(ext))
		for i := 0; i < 4*ext; i++ {
			b = append(b, byte(r.Intn(256)))
		}
	}
	b = append(b, p.Payload...)
	if pad > 0 {
		b[0] |= 0x20
		for i := 0; i < pad-1; i++ {
			b = append(b, byte(r.Intn(256)))
		}
		b = append(b, byte(pad))
	}
	return b
}

// Depack recovers NAL units from the consecutive RTP payloads of one track.
// It is strict: any deviation from the payload format is an error.
type Depack struct {
	HEVC bool
	MTU  int
	fu   []byte
	in   bool
}

// Push returns the NAL units completed by this payload.
func (d *Depack) Push(p []byte) ([][]byte, error) {
	if d.MTU > 0 && len(p) > d.MTU {
		return nil, fmt.Errorf("payload of %d bytes exceeds the MTU %d", len(p), d.MTU)
	}
	if d.HEVC {
		return d.push265(p)
	}
	if len(p) == 0 {
		return nil, fmt.Errorf("empty payload")
	}
	t := p[0] & 31
	if d.in && t != 28 {
		return nil, fmt.Errorf("payload type %d inside a fragmented NAL unit", t)
	}
	switch {
	case t >= 1 && t <= 23:
		return [][]byte{p}, nil
	case t == 24:
		var out [][]byte
		q := p[1:]
		for len(q) > 0 {
			if len(q) < 2 {
				return nil, fmt.Errorf("STAP-A trailing byte")
			}
			n := int(q[0])<<8 | int(q[1])
			if n == 0 || n > len(q)-2 {
				return nil, fmt.Errorf("STAP-A unit size %d of %d", n, len(q)-2)
			}
			out = append(out, q[2:2+n])
			q = q[2+n:]
		}
		return out, nil
	case t == 28:
		if len(p) < 3 {
			return nil, fmt.Errorf("FU-A of %d bytes", len(p))
		}
		s, e := p[1]&0x80 != 0, p[1]&0x40 != 0
		if s && e {
			return nil, fmt.Errorf("FU-A with both S and E")
		}
		if p[1]&0x20 != 0 {
			return nil, fmt.Errorf("FU-A reserved bit set")
		}
		h := p[0]&0xe0 | p[1]&31
		if s == d.in {
			return nil, fmt.Errorf("FU-A start=%v while in=%v", s, d.in)
		}
		if s {
			d.fu, d.in = []byte{h}, true
		} else if d.fu[0] != h {
			return nil, fmt.Errorf("FU-A header %02x inside NAL unit %02x", h, d.fu[0])
		}
		d.fu = append(d.fu, p[2:]...)
		if e {
			d.in = false
			return [][]byte{d.fu}, nil
		}
		return nil, nil
	}
	return nil, fmt.Errorf("payload type %d", t)
}

func (d *Depack) push265(p []byte) ([][]byte, error) {
	if len(p) < 2 {
		return nil, fmt.Errorf("HEVC payload of %d bytes", len(p))
	}
	t := p[0] >> 1 & 63
	if d.in && t != 49 {
		return nil, fmt.Errorf("payload type %d inside a fragmented NAL unit", t)
	}
	switch {
	case t < 48:
		return [][]byte{p}, nil
	case t == 48:
		var out [][]byte
		q := p[2:]
		for len(q) > 0 {
			if len(q) < 2 {
				return nil, fmt.Errorf("AP trailing byte")
			}
			n := int(q[0])<<8 | int(q[1])
			if n == 0 || n > len(q)-2 {
				return nil, fmt.Errorf("AP unit size %d of %d", n, len(q)-2)
			}
			out = append(out, q[2:2+n])
			q = q[2+n:]
		}
		return out, nil
	case t == 49:
		if len(p) < 4 {
			return nil, fmt.Errorf("FU of %d bytes", len(p))
		}
		s, e := p[2]&0x80 != 0, p[2]&0x40 != 0
		if s && e {
			return nil, fmt.Errorf("FU with both S and E")
		}
		h0, h1 := p[0]&0x81|(p[2]&63)<<1, p[1]
		if s == d.in {
			return nil, fmt.Errorf("FU start=%v while in=%v", s, d.in)
		}
		if s {
			d.fu, d.in = []byte{h0, h1}, true
		} else if d.fu[0] != h0 || d.fu[1] != h1 {
			return nil, fmt.Errorf("FU header %02x%02x inside NAL unit %02x%02x", h0, h1, d.fu[0], d.fu[1])
		}
		d.fu = append(d.fu, p[3:]...)
		if e {
			d.in = false
			return [][]byte{d.fu}, nil
		}
		return nil, nil
	}
	return nil, fmt.Errorf("payload type %d", t)
}

// Open reports whether a fragmented unit is unfinished.
func (d *Depack) Open() bool { return d.in }

// AAC parses an AAC-hbr payload of whole access units.
func AAC(p []byte) ([][]byte, error) {
	if len(p) < 4 {
		return nil, fmt.Errorf("AAC payload of %d bytes", len(p))
	}
	bits := int(p[0])<<8 | int(p[1])
	if bits == 0 || bits%16 != 0 || 2+bits/8 > len(p) {
		return nil, fmt.Errorf("AU-headers-length %d of a %d byte payload", bits, len(p))
	}
	body := p[2+bits/8:]
	var out [][]byte
	for i := 0; i < bits/16; i++ {
		h := int(p[2+2*i])<<8 | int(p[3+2*i])
		if h&7 != 0 {
			return nil, fmt.Errorf("AU-Index %d", h&7)
		}
		n := h >> 3
		if n > len(body) {
			return nil, fmt.Errorf("AU size %d of %d remaining bytes", n, len(body))
		}
		out = append(out, body[:n])
		body = body[n:]
	}
	if len(body) != 0 {
		return nil, fmt.Errorf("%d bytes after the last access unit", len(body))
	}
	return out, nil
}

// MakeAAC packs whole access units in one payload.
func MakeAAC(aus [][]byte) []byte {
	p := []byte{byte(len(aus) * 16 >> 8), byte(len(aus) * 16)}
	for _, a := range aus {
		p = append(p, byte(len(a)>>5), byte(len(a)<<3))
	}
	for _, a := range aus {
		p = append(p, a...)
	}
	return p
}

// FragAAC splits one access unit over several payloads (RFC 3640 3.2.3.2).
func FragAAC(a []byte, max int) [][]byte {
	var out [][]byte
	for off := 0; off < len(a); off += max {
		e := off + max
		if e > len(a) {
			e = len(a)
		}
		out = append(out, append([]byte{0, 16, byte(len(a) >> 5), byte(len(a) << 3)}, a[off:e]...))
	}
	return out
}

// Span is one payload and the NAL units (by index) it carries.
type Span struct {
	Payload []byte
	NALs    []int
	Frag    bool
	Start   bool
	End     bool
}

// PackH264 packs the NAL units of one access unit in a random legal way
// (single, STAP-A, FU-A with random fragment sizes).
func PackH264(r *rand.Rand, nals [][]byte, max int) []Span {
	if max < 64 {
		max = 64
	}
	var out []Span
	for i := 0; i < len(nals); {
		n := nals[i]
		if len(n) > max || (len(n) > 4 && r.Intn(6) == 0) {
			body := n[1:]
			lim := max - 2
			if len(body) <= lim { // must be at least two fragments
				lim = 1 + r.Intn(len(body)-1)
			}
			for off := 0; off < len(body); {
				k := lim
				if r.Intn(3) == 0 && len(body)/lim < 40 {
					k = 1 + r.Intn(lim)
				}
				if off == 0 && k >= len(body) {
					k = len(body) - 1
				}
				e := off + k
				if e > len(body) {
					e = len(body)
				}
				fh := n[0] & 31
				if off == 0 {
					fh |= 0x80
				}
				if e == len(body) {
					fh |= 0x40
				}
				out = append(out, Span{Payload: append([]byte{n[0]&0xe0 | 28, fh}, body[off:e]...),
					NALs: []int{i}, Frag: true, Start: off == 0, End: e == len(body)})
				off = e
			}
			i++
			continue
		}
		if r.Intn(3) == 0 {
			p := []byte{24}
			var idx []int
			for i < len(nals) && len(p)+2+len(nals[i]) <= max && (len(idx) == 0 || r.Intn(4) != 0) {
				m := nals[i]
				p = append(p, byte(len(m)>>8), byte(len(m)))
				p = append(p, m...)
				if nri := m[0] & 0x60; nri > p[0]&0x60 {
					p[0] = p[0]&^0x60 | nri
				}
				idx = append(idx, i)
				i++
			}
			if len(idx) > 0 {
				out = append(out, Span{Payload: p, NALs: idx})
				continue
			}
		}
		out = append(out, Span{Payload: append([]byte(nil), n...), NALs: []int{i}})
		i++
	}
	return out
}
