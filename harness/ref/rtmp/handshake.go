package rtmp

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"io"
	"math/rand"
)

var tail = []byte{0xF0, 0xEE, 0xC2, 0x4A, 0x80, 0x68, 0xBE, 0xE8, 0x2E, 0x00, 0xD0, 0xD1, 0x02, 0x9E, 0x7E, 0x57, 0x6E, 0xEC, 0x5D, 0x2D, 0x29, 0x80, 0x6F, 0xAB, 0x93, 0xB8, 0xE6, 0x36, 0xCF, 0xEB, 0x31, 0xAE}
var fpKey = append([]byte("Genuine Adobe Flash Player 001"), tail...)
var fmsKey = append([]byte("Genuine Adobe Flash Media Server 001"), tail...)

func mac(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// digestPos: schema 0 has the digest block after the key block, schema 1 first.
func digestPos(b []byte, schema int) int {
	o := 8
	if schema == 0 {
		o = 772
	}
	return o + 4 + (int(b[o])+int(b[o+1])+int(b[o+2])+int(b[o+3]))%728
}

// Hello is a client's side of the handshake.
type Hello struct {
	Digest  bool
	Schema  int
	C0      byte
	C1      []byte
	S1, S2  []byte
	cDigest []byte
}

// NewHello makes C1.
func NewHello(r *rand.Rand, digest bool, schema int) *Hello {
	h := &Hello{Digest: digest, Schema: schema, C0: 3, C1: make([]byte, 1536)}
	r.Read(h.C1)
	switch r.Intn(4) {
	case 0:
		copy(h.C1, []byte{0, 0, 0, 0})
	case 1:
		copy(h.C1, []byte{0xff, 0xff, 0xff, 0xff})
	}
	switch {
	case digest && r.Intn(4) > 0:
		copy(h.C1[4:], [][]byte{{9, 0, 124, 2}, {10, 0, 45, 2}, {128, 0, 7, 2}, {1, 0, 0, 0}}[r.Intn(4)])
	case !digest && r.Intn(4) > 0:
		copy(h.C1[4:], []byte{0, 0, 0, 0})
	}
	switch r.Intn(6) { // extremes of the offset sum
	case 0:
		copy(h.C1[8:], []byte{255, 255, 255, 255})
		copy(h.C1[772:], []byte{255, 255, 255, 255})
	case 1:
		copy(h.C1[8:], []byte{0, 0, 0, 0})
		copy(h.C1[772:], []byte{0, 0, 0, 0})
	case 2:
		copy(h.C1[8:], []byte{255, 255, 217, 0}) // 727
		copy(h.C1[772:], []byte{217, 255, 0, 255})
	case 3:
		copy(h.C1[8:], []byte{255, 255, 218, 0}) // 728 wraps to 0
		copy(h.C1[772:], []byte{218, 255, 0, 255})
	}
	if digest {
		p := digestPos(h.C1, schema)
		h.cDigest = mac(fpKey[:30], h.C1[:p], h.C1[p+32:])
		copy(h.C1[p:], h.cDigest)
	}
	return h
}

// Read takes S0, S1 and S2.
func (h *Hello) Read(r io.Reader) error {
	b := make([]byte, 3073)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	if b[0] != 3 {
		return bad("S0 is %d", b[0])
	}
	h.S1, h.S2 = b[1:1537], b[1537:]
	return nil
}

// Verify checks S1 and S2.
func (h *Hello) Verify() error {
	if !h.Digest {
		if !bytes.Equal(h.S2[:4], h.C1[:4]) {
			return bad("S2 time % x, C1 time % x", h.S2[:4], h.C1[:4])
		}
		if !bytes.Equal(h.S2[8:], h.C1[8:]) {
			return bad("S2 does not echo C1's random bytes")
		}
		if !bytes.Equal(h.S1[4:8], []byte{0, 0, 0, 0}) {
			return bad("S1 zero field % x", h.S1[4:8])
		}
		return nil
	}
	p := digestPos(h.S1, h.Schema)
	if d := mac(fmsKey[:36], h.S1[:p], h.S1[p+32:]); !bytes.Equal(d, h.S1[p:p+32]) {
		return bad("S1 has no valid digest at its schema %d position", h.Schema)
	}
	k := mac(fmsKey, h.cDigest)
	if !bytes.Equal(mac(k, h.S2[:1504]), h.S2[1504:]) {
		return bad("S2 response is not keyed by the client's digest")
	}
	return nil
}

// C2 is the client's answer. lax: zeroed, as many players send it.
func (h *Hello) C2(r *rand.Rand, lax bool) []byte {
	c2 := make([]byte, 1536)
	if lax {
		return c2
	}
	if !h.Digest {
		copy(c2, h.S1)
		copy(c2[4:8], []byte{0, 0, 0, byte(r.Intn(256))})
		return c2
	}
	r.Read(c2)
	p := digestPos(h.S1, h.Schema)
	copy(c2[1504:], mac(mac(fpKey, h.S1[p:p+32]), c2[:1504]))
	return c2
}

// Accept is the server's side of a handshake with a simple client.
func Accept(r *rand.Rand, rd io.Reader, wr io.Writer, cut func([]byte) error, mangle func(s []byte)) error {
	c := make([]byte, 1537)
	if _, err := io.ReadFull(rd, c); err != nil {
		return err
	}
	if c[0] != 3 {
		return bad("C0 is %d", c[0])
	}
	s := make([]byte, 3073)
	r.Read(s[1:1537])
	s[0] = 3
	copy(s[5:9], []byte{0, 0, 0, 0})
	copy(s[1537:], c[1:])
	copy(s[1541:1545], []byte{0, 0, 1, 2})
	if mangle != nil {
		mangle(s)
	}
	if cut == nil {
		cut = func(b []byte) error { _, err := wr.Write(b); return err }
	}
	if err := cut(s); err != nil {
		return err
	}
	c2 := make([]byte, 1536)
	if _, err := io.ReadFull(rd, c2); err != nil {
		return err
	}
	if !bytes.Equal(c2[:4], s[1:5]) || !bytes.Equal(c2[8:], s[9:1537]) {
		return fmt.Errorf("rtmp: C2 does not echo S1")
	}
	return nil
}
