// Package rtmp is an independent RTMP implementation: chunk writer with every
// legal choice of headers and interleaving, strict chunk reader, handshakes,
// command helpers, a client and a small server.
package rtmp

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
)

// Msg is one RTMP message.
type Msg struct {
	CSID uint32
	Type byte
	TS   uint32
	MSID uint32
	Body []byte
	Off  int64 // reader: bytes consumed from the connection when complete
}

func (m *Msg) String() string {
	return fmt.Sprintf("{cs %d type %d ts %d msid %d len %d}", m.CSID, m.Type, m.TS, m.MSID, len(m.Body))
}

type hdr struct {
	ts, delta, length, msid uint32
	typ                     byte
	ext                     bool
	extVal                  uint32
}

// Writer encodes messages into chunks.
type Writer struct {
	ChunkSize int
	last      map[uint32]*hdr
}

func NewWriter() *Writer { return &Writer{ChunkSize: 128, last: map[uint32]*hdr{}} }

func basic(b []byte, f byte, csid uint32, wide bool) []byte {
	switch {
	case csid < 64:
		return append(b, f<<6|byte(csid))
	case csid < 320 && !wide:
		return append(b, f<<6, byte(csid-64))
	default:
		return append(b, f<<6|1, byte(csid-64), byte((csid-64)>>8))
	}
}

// Part is a message being sent.
type Part struct {
	w     *Writer
	m     *Msg
	first []byte
	h     hdr
	off   int
	begun bool
	wide  bool
}

// Start fixes the header of m's first chunk: fm is the wished format, a legal
// one is used if it does not apply. wide uses the 3-byte basic header where the
// 2-byte one would do.
func (w *Writer) Start(m *Msg, fm int, wide bool) *Part {
	l := w.last[m.CSID]
	h := hdr{ts: m.TS, length: uint32(len(m.Body)), msid: m.MSID, typ: m.Type}
	delta := uint32(0)
	if l == nil || l.msid != m.MSID {
		fm = 0
	} else {
		delta = m.TS - l.ts
		if delta >= 1<<31 { // backwards
			fm = 0
		}
		if fm >= 2 && (l.length != h.length || l.typ != h.typ) {
			fm = 1
		}
		if fm == 3 && (l.delta != delta || delta >= 0xffffff) {
			fm = 2
		}
	}
	v := m.TS
	if fm > 0 {
		v = delta
		h.delta = delta
	} else {
		h.delta = 0xffffffff // a type 3 chunk that begins a message must not follow
	}
	b := basic(nil, byte(fm), m.CSID, wide)
	inl := v
	if v >= 0xffffff {
		inl = 0xffffff
		h.ext, h.extVal = true, v
	}
	if fm < 3 {
		b = append(b, byte(inl>>16), byte(inl>>8), byte(inl))
	}
	if fm < 2 {
		b = append(b, byte(h.length>>16), byte(h.length>>8), byte(h.length), h.typ)
	}
	if fm < 1 {
		b = binary.LittleEndian.AppendUint32(b, h.msid)
	}
	if fm == 3 {
		h.ext, h.extVal = l.ext, l.extVal
	}
	if h.ext {
		b = binary.BigEndian.AppendUint32(b, h.extVal)
	}
	w.last[m.CSID] = &h
	return &Part{w: w, m: m, first: b, h: h, wide: wide}
}

// Next is the next chunk, nil when the message is complete.
func (p *Part) Next() []byte {
	if p.Done() {
		return nil
	}
	var b []byte
	if !p.begun {
		b = append(b, p.first...)
		p.begun = true
	} else {
		b = basic(nil, 3, p.m.CSID, p.wide)
		if p.h.ext {
			b = binary.BigEndian.AppendUint32(b, p.h.extVal)
		}
	}
	n := len(p.m.Body) - p.off
	if n > p.w.ChunkSize {
		n = p.w.ChunkSize
	}
	b = append(b, p.m.Body[p.off:p.off+n]...)
	p.off += n
	return b
}

// Left is the number of bytes still to send.
func (p *Part) Left() int   { return len(p.m.Body) - p.off }
func (p *Part) Begun() bool { return p.begun }
func (p *Part) Done() bool  { return p.begun && p.off == len(p.m.Body) }
func (p *Part) Msg() *Msg   { return p.m }

// Encode is the whole message as consecutive chunks.
func (w *Writer) Encode(m *Msg, fm int) (b []byte) {
	p := w.Start(m, fm, false)
	for !p.Done() {
		b = append(b, p.Next()...)
	}
	return b
}

// SetChunkSize is the control message and takes effect.
func (w *Writer) SetChunkSize(n int) []byte {
	b := w.Encode(&Msg{CSID: 2, Type: 1, Body: binary.BigEndian.AppendUint32(nil, uint32(n))}, 0)
	w.ChunkSize = n
	return b
}

func U32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

// RandFmt is a random header format wish.
func RandFmt(r *rand.Rand) int { return []int{0, 1, 1, 2, 2, 3, 3}[r.Intn(7)] }

// Reader is a strict chunk stream parser.
type Reader struct {
	r         *bufio.Reader
	ChunkSize int
	N         int64 // bytes consumed
	Chunks    int
	last      map[uint32]*hdr
	part      map[uint32][]byte
}

func NewReader(r io.Reader) *Reader {
	return &Reader{r: bufio.NewReaderSize(r, 64<<10), ChunkSize: 128, last: map[uint32]*hdr{}, part: map[uint32][]byte{}}
}

// ErrProto marks an illegal chunk stream.
type ErrProto struct{ S string }

func (e ErrProto) Error() string { return "rtmp: " + e.S }

func bad(f string, a ...interface{}) error { return ErrProto{fmt.Sprintf(f, a...)} }

func (r *Reader) read(n int) ([]byte, error) {
	b := make([]byte, n)
	k, err := io.ReadFull(r.r, b)
	r.N += int64(k)
	return b, err
}

// Raw gives access to the stream before chunks begin.
func (r *Reader) Raw(n int) ([]byte, error) { return r.read(n) }

// Pending is the number of partial messages.
func (r *Reader) Pending() int { return len(r.part) }

// Next reads chunks until a message is complete. Set Chunk Size and Abort take
// effect and are returned like every message.
func (r *Reader) Next() (*Msg, error) {
	for {
		m, err := r.chunk()
		if err == io.EOF && len(r.part) > 0 {
			err = io.ErrUnexpectedEOF
		}
		if err != nil || m != nil {
			return m, err
		}
	}
}

func (r *Reader) chunk() (*Msg, error) {
	b, err := r.read(1)
	if err != nil {
		return nil, err
	}
	un := func(e error) error {
		if e == io.EOF {
			return io.ErrUnexpectedEOF
		}
		return e
	}
	f, cs := b[0]>>6, uint32(b[0]&63)
	switch cs {
	case 0:
		if b, err = r.read(1); err != nil {
			return nil, un(err)
		}
		cs = uint32(b[0]) + 64
	case 1:
		if b, err = r.read(2); err != nil {
			return nil, un(err)
		}
		cs = uint32(b[0]) + uint32(b[1])<<8 + 64
	}
	l := r.last[cs]
	part, mid := r.part[cs]
	if f != 0 && l == nil {
		return nil, bad("type %d chunk on chunk stream %d which has no header yet", f, cs)
	}
	if mid && f != 3 {
		return nil, bad("type %d chunk on chunk stream %d inside a message of %d bytes (%d received)", f, cs, l.length, len(part))
	}
	h := hdr{}
	if l != nil {
		h = *l
	}
	if f < 3 {
		n := []int{11, 7, 3}[f]
		if b, err = r.read(n); err != nil {
			return nil, un(err)
		}
		v := uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
		h.ext = v == 0xffffff
		if n >= 7 {
			h.length, h.typ = uint32(b[3])<<16|uint32(b[4])<<8|uint32(b[5]), b[6]
		}
		if n == 11 {
			h.msid = binary.LittleEndian.Uint32(b[7:])
		}
		if h.ext {
			if b, err = r.read(4); err != nil {
				return nil, un(err)
			}
			v = binary.BigEndian.Uint32(b)
			if v < 0xffffff {
				return nil, bad("extended timestamp %d where the 24-bit field would do", v)
			}
			h.extVal = v
		}
		if f == 0 {
			h.ts, h.delta = v, v
		} else {
			h.ts, h.delta = h.ts+v, v
		}
	} else {
		if h.ext {
			if b, err = r.read(4); err != nil {
				return nil, un(err)
			}
			if v := binary.BigEndian.Uint32(b); v != h.extVal {
				return nil, bad("type 3 chunk with extended timestamp %d, message header says %d", v, h.extVal)
			}
		}
		if !mid {
			h.ts += h.delta
		}
	}
	r.last[cs] = &h
	r.Chunks++
	n := int(h.length) - len(part)
	if n > r.ChunkSize {
		n = r.ChunkSize
	}
	if b, err = r.read(n); err != nil {
		return nil, un(err)
	}
	part = append(part, b...)
	if len(part) < int(h.length) {
		r.part[cs] = part
		return nil, nil
	}
	delete(r.part, cs)
	m := &Msg{CSID: cs, Type: h.typ, TS: h.ts, MSID: h.msid, Body: part, Off: r.N}
	switch m.Type {
	case 1:
		if len(part) != 4 || part[0]&0x80 != 0 || binary.BigEndian.Uint32(part) == 0 {
			return nil, bad("set chunk size % x", part)
		}
		r.ChunkSize = int(binary.BigEndian.Uint32(part))
	case 2:
		if len(part) != 4 {
			return nil, bad("abort % x", part)
		}
		delete(r.part, binary.BigEndian.Uint32(part))
	case 3, 5:
		if len(part) != 4 {
			return nil, bad("message type %d with %d bytes", m.Type, len(part))
		}
	case 6:
		if len(part) != 5 || part[4] > 2 {
			return nil, bad("set peer bandwidth % x", part)
		}
	case 4:
		if len(part) < 6 {
			return nil, bad("user control % x", part)
		}
	case 8, 9, 15, 16, 17, 18, 19, 20, 22:
	default:
		return nil, bad("message type %d", m.Type)
	}
	return m, nil
}
