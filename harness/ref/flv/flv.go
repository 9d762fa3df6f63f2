// Package flv is an independent, strict FLV stream parser.
package flv

import (
	"encoding/binary"
	"fmt"
	"io"
)

type Tag struct {
	Type byte
	TS   uint32
	Data []byte
}

// ReadHeader reads the file header and PreviousTagSize0.
func ReadHeader(r io.Reader) error {
	var h [13]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return err
	}
	if string(h[:3]) != "FLV" || h[3] != 1 {
		return fmt.Errorf("flv: bad signature/version % x", h)
	}
	if h[4]&^5 != 0 {
		return fmt.Errorf("flv: reserved header flags % x", h)
	}
	if binary.BigEndian.Uint32(h[5:]) != 9 || binary.BigEndian.Uint32(h[9:]) != 0 {
		return fmt.Errorf("flv: bad data offset or first tag size % x", h)
	}
	return nil
}

// ErrFormat marks malformed FLV (as opposed to the end of the stream).
type ErrFormat struct{ S string }

func (e ErrFormat) Error() string { return "flv: " + e.S }

// ReadTag reads one tag. io.EOF: clean end between tags.
func ReadTag(r io.Reader) (*Tag, error) {
	var h [11]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	if h[0] != 8 && h[0] != 9 && h[0] != 18 {
		return nil, ErrFormat{fmt.Sprintf("tag header % x: bad type", h)}
	}
	if h[8]|h[9]|h[10] != 0 {
		return nil, ErrFormat{fmt.Sprintf("tag header % x: stream id not zero", h)}
	}
	n := int(h[1])<<16 | int(h[2])<<8 | int(h[3])
	t := &Tag{Type: h[0], TS: uint32(h[7])<<24 | uint32(h[4])<<16 | uint32(h[5])<<8 | uint32(h[6])}
	b := make([]byte, n+4)
	if _, err := io.ReadFull(r, b); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	t.Data = b[:n]
	if p := int(binary.BigEndian.Uint32(b[n:])); p != n+11 {
		return nil, ErrFormat{fmt.Sprintf("previous tag size %d after a tag of %d bytes", p, n+11)}
	}
	return t, nil
}
