// Package srt reads and writes SRT packets after draft-sharabayko-srt,
// independently of the code under test.
package srt

import (
	"crypto/aes"
	"crypto/cipher"
	"fmt"
)

const Mask = 1<<31 - 1

// Packet is one datagram.
type Packet struct {
	Ctrl     bool
	Type     uint16 // control
	Sub      uint16
	Info     uint32 // control: type-specific; data: message word
	Seq      uint32 // data
	TS, Dest uint32
	Body     []byte
}

func put32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func get32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// Bytes writes the packet.
func (p Packet) Bytes() []byte {
	var b []byte
	if p.Ctrl {
		b = append(b, byte(p.Type>>8)|0x80, byte(p.Type), byte(p.Sub>>8), byte(p.Sub))
	} else {
		b = put32(b, p.Seq&Mask)
	}
	b = put32(b, p.Info)
	b = put32(b, p.TS)
	b = put32(b, p.Dest)
	return append(b, p.Body...)
}

// Parse reads a packet.
func Parse(b []byte) (Packet, error) {
	if len(b) < 16 {
		return Packet{}, fmt.Errorf("packet of %d bytes", len(b))
	}
	p := Packet{Info: get32(b[4:]), TS: get32(b[8:]), Dest: get32(b[12:]), Body: b[16:]}
	if b[0]&0x80 != 0 {
		p.Ctrl = true
		p.Type = uint16(b[0]&0x7f)<<8 | uint16(b[1])
		p.Sub = uint16(b[2])<<8 | uint16(b[3])
	} else {
		p.Seq = get32(b)
	}
	return p, nil
}

// HS is a handshake body (without extensions).
type HS struct {
	Version          uint32
	Enc, Ext         uint16
	ISN, MTU, Window uint32
	Type             uint32
	ID, Cookie       uint32
	IP               [16]byte
	Exts             []byte
}

// Bytes writes the body.
func (h HS) Bytes() []byte {
	b := put32(nil, h.Version)
	b = append(b, byte(h.Enc>>8), byte(h.Enc), byte(h.Ext>>8), byte(h.Ext))
	for _, v := range []uint32{h.ISN, h.MTU, h.Window, h.Type, h.ID, h.Cookie} {
		b = put32(b, v)
	}
	b = append(b, h.IP[:]...)
	return append(b, h.Exts...)
}

// ParseHS reads a handshake body.
func ParseHS(b []byte) (HS, error) {
	if len(b) < 48 {
		return HS{}, fmt.Errorf("handshake body of %d bytes", len(b))
	}
	h := HS{Version: get32(b), Enc: uint16(b[4])<<8 | uint16(b[5]), Ext: uint16(b[6])<<8 | uint16(b[7]),
		ISN: get32(b[8:]), MTU: get32(b[12:]), Window: get32(b[16:]), Type: get32(b[20:]), ID: get32(b[24:]), Cookie: get32(b[28:]), Exts: b[48:]}
	copy(h.IP[:], b[32:])
	return h, nil
}

// Range is an inclusive range of lost sequence numbers.
type Range struct{ From, To uint32 }

// Loss writes a loss list.
func Loss(l []Range) []byte {
	var b []byte
	for _, x := range l {
		if x.From == x.To {
			b = put32(b, x.From)
		} else {
			b = put32(b, x.From|1<<31)
			b = put32(b, x.To)
		}
	}
	return b
}

// ParseLoss reads a loss list strictly.
func ParseLoss(b []byte) ([]Range, error) {
	var l []Range
	if len(b)%4 != 0 {
		return nil, fmt.Errorf("loss list of %d bytes", len(b))
	}
	for ; len(b) > 0; b = b[4:] {
		v := get32(b)
		if v>>31 == 0 {
			l = append(l, Range{v, v})
			continue
		}
		b = b[4:]
		if len(b) == 0 {
			return nil, fmt.Errorf("range without an end")
		}
		t := get32(b)
		if t>>31 != 0 {
			return nil, fmt.Errorf("range end with the range bit")
		}
		if v&Mask == t {
			return nil, fmt.Errorf("range of one packet %d", t)
		}
		l = append(l, Range{v & Mask, t})
	}
	return l, nil
}

// ACK reads a full acknowledgement's fields.
func ACK(b []byte) ([]uint32, error) {
	if len(b)%4 != 0 || len(b) == 0 {
		return nil, fmt.Errorf("ACK body of %d bytes", len(b))
	}
	var f []uint32
	for ; len(b) > 0; b = b[4:] {
		f = append(f, get32(b))
	}
	return f, nil
}

// Diff is a-b, circular over 31 bits.
func Diff(a, b uint32) int64 {
	d := (int64(a) - int64(b)) & Mask
	if d >= 1<<30 {
		d -= 1 << 31
	}
	return d
}

// Crypt applies AES-CTR with the packet index xored into the salt at the
// given offset (10 in the specification, 0 as the package documents).
func Crypt(key, salt []byte, seq uint32, off int, p []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	var iv [16]byte
	copy(iv[:14], salt)
	for i := 0; i < 4; i++ {
		iv[off+i] ^= byte(seq >> (24 - 8*uint(i)))
	}
	// counter mode by hand: the last 16 bits count, carrying into the rest
	out := make([]byte, len(p))
	var ks [16]byte
	for i := range p {
		if i%16 == 0 {
			if i > 0 {
				for j := 15; j >= 0; j-- {
					iv[j]++
					if iv[j] != 0 {
						break
					}
				}
			}
			var b cipher.Block = blk
			b.Encrypt(ks[:], iv[:])
		}
		out[i] = p[i] ^ ks[i%16]
	}
	return out
}
