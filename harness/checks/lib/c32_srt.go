package lib

import (
	"bytes"

	"github.com/sbraveyoung/GGmpeg/libsrt"

	"vharness/ref/srt"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{
		ID: "C32", Quick: 800000, Thorough: 5000000,
		Rule:      "each case: one codec with random and boundary field values against an independent writer/reader, every truncation, random bytes; sequence comparison around the wrap; decryption of an independently encrypted payload of up to 1500 bytes; distinct by encoded bytes",
		Technique: "differential oracle against an independent SRT codec and counter-mode cipher, round trips, crash monitor on malformed input",
		LevelNote: "held on the inputs tried; decryption is judged by the counter derivation the package documents and its tests pin, with 128-bit keys (its only size)",
		Run:       runC32,
	})
}

func c32val(c *vh.C) uint32 {
	v := []uint32{0, 1, 2, 0x7fffffff, 0x7ffffffe, 0x80000000, 0xffffffff, 0x40000000, 0x3fffffff, 0x40000001, 0xffff, 0x10000}
	if c.R.Intn(3) == 0 {
		return v[c.R.Intn(len(v))]
	}
	return c.R.Uint32() >> uint(c.R.Intn(32))
}

func runC32(c *vh.C) {
	r := c.R
	body := randBytes(r, r.Intn(80))
	switch c.Idx % 7 {
	case 0: // control header
		p := srt.Packet{Ctrl: true, Type: uint16(c32val(c)) & 0x7fff, Sub: uint16(c32val(c)), Info: c32val(c), TS: c32val(c), Dest: c32val(c), Body: body}
		b := make([]byte, 16)
		libsrt.MarshalControlHeader(b, libsrt.ControlType(p.Type), p.Sub, p.Info, p.TS, p.Dest)
		if want := p.Bytes()[:16]; !bytes.Equal(b, want) {
			c.Fail("control-header", "%+v written as %x, want %x", p, b, want)
		}
		h, rest, err := libsrt.ParseHeader(p.Bytes())
		if err != nil || h.Kind != libsrt.KindControl || uint16(h.ControlType) != p.Type || h.SubType != p.Sub || h.TypeInfo != p.Info || h.Timestamp != p.TS || h.DestSocketID != p.Dest || !bytes.Equal(rest, body) {
			c.Fail("control-parse", "%x read as %+v %v", p.Bytes(), h, err)
		}
		c32Short(c, p.Bytes())
		c.Nontrivial("%x", p.Bytes())
	case 1: // data header
		p := srt.Packet{Seq: c32val(c) & srt.Mask, Info: c32val(c), TS: c32val(c), Dest: c32val(c), Body: body}
		b := make([]byte, 16)
		libsrt.MarshalDataHeader(b, p.Seq, p.Info, p.TS, p.Dest)
		if want := p.Bytes()[:16]; !bytes.Equal(b, want) {
			c.Fail("data-header", "%+v written as %x, want %x", p, b, want)
		}
		h, rest, err := libsrt.ParseHeader(p.Bytes())
		if err != nil || h.Kind != libsrt.KindData || h.SeqNumber != p.Seq || h.MessageInfo != p.Info || h.Timestamp != p.TS || h.DestSocketID != p.Dest || !bytes.Equal(rest, body) {
			c.Fail("data-parse", "%x read as %+v %v", p.Bytes(), h, err)
		}
		c32Short(c, p.Bytes())
		c.Nontrivial("%x", p.Bytes())
	case 2: // handshake
		h := srt.HS{Version: c32val(c), Enc: uint16(c32val(c)), Ext: uint16(c32val(c)), ISN: c32val(c), MTU: c32val(c), Window: c32val(c), Type: c32val(c), ID: c32val(c), Cookie: c32val(c)}
		r.Read(h.IP[:])
		lh := libsrt.Handshake{Version: h.Version, EncryptionField: h.Enc, ExtensionField: h.Ext, InitialSequence: h.ISN, MaxPacketSize: h.MTU, MaxFlowWindow: h.Window, HandshakeType: int32(h.Type), SrtSocketID: h.ID, SyncCookie: h.Cookie, PeerIP: h.IP}
		if got := lh.Marshal(); !bytes.Equal(got, h.Bytes()) {
			c.Fail("handshake", "%+v written as %x, want %x", h, got, h.Bytes())
		}
		in := append(h.Bytes(), body...)
		got, err := libsrt.ParseHandshake(in)
		if err != nil || *got != lh {
			c.Fail("handshake-parse", "%x read as %+v %v", in, got, err)
		}
		for n := 0; n < 48; n++ {
			if _, err := libsrt.ParseHandshake(in[:n]); err == nil {
				c.Fail("handshake-short", "handshake of %d bytes accepted", n)
			}
		}
		c.Nontrivial("%x", in)
	case 3: // ACK
		v := [7]uint32{c32val(c), c32val(c), c32val(c), c32val(c), c32val(c), c32val(c), c32val(c)}
		a := libsrt.ACKBody{LastAckedSeq: v[0], RTT: v[1], RTTVariance: v[2], AvailableBuffer: v[3], ReceivingRate: v[4], LinkCapacity: v[5], ReceivingBytes: v[6]}
		got, err := srt.ACK(a.Marshal())
		if err != nil || len(got) != 7 || [7]uint32(got) != v {
			c.Fail("ack", "%v written as %x", v, a.Marshal())
		}
		c.Nontrivial("%v", v)
	case 4: // loss lists
		var l []srt.Range
		var ll []libsrt.LossRange
		for i := r.Intn(12); i >= 0; i-- {
			f := c32val(c) & srt.Mask
			t := f
			if r.Intn(2) == 0 { // ranges, also around the wrap
				t = (f + 1 + uint32(r.Intn(5000))) & srt.Mask
			}
			l = append(l, srt.Range{From: f, To: t})
			ll = append(ll, libsrt.LossRange{From: f, To: t})
		}
		b := libsrt.MarshalNAK(ll)
		if !bytes.Equal(b, srt.Loss(l)) {
			c.Fail("nak", "%v written as %x, want %x", l, b, srt.Loss(l))
		}
		if _, err := srt.ParseLoss(b); err != nil {
			c.Fail("nak", "%x: %v", b, err)
		}
		got := libsrt.ParseNAK(b)
		same := len(got) == len(ll)
		for i := 0; same && i < len(ll); i++ {
			same = got[i] == ll[i]
		}
		if !same {
			c.Fail("nak-parse", "%x read as %v", b, got)
		}
		// any damage: no crash, nothing that is not there
		m := append([]byte(nil), b...)
		if r.Intn(2) == 0 {
			m = m[:r.Intn(len(m)+1)]
		} else {
			r.Read(m[r.Intn(len(m)):])
		}
		c.Call("ParseNAK", func() { got = libsrt.ParseNAK(m) })
		if len(got)*4 > len(m) {
			c.Fail("nak-parse", "%d ranges out of %d bytes", len(got), len(m))
		}
		for _, g := range got {
			if g.From > srt.Mask {
				c.Fail("nak-parse", "%x read with sequence number %#x", m, g.From)
			}
		}
		c.Nontrivial("%x", b)
	case 5: // comparison
		for i := 0; i < 50; i++ {
			a := c32val(c) & srt.Mask
			d := int64(c32val(c))>>uint(r.Intn(20)) - int64(c32val(c))>>uint(r.Intn(20))
			d %= 1 << 30
			b := uint32(int64(a)-d) & srt.Mask
			if got := libsrt.SeqDiff(a, b); int64(got) != d || srt.Diff(a, b) != d {
				c.Fail("seqdiff", "SeqDiff(%d, %d) = %d, want %d", a, b, got, d)
			}
			c.Count("comparisons", 1)
			if i == 0 {
				c.Nontrivial("%d %d", a, b)
			}
		}
	case 6: // decryption
		var cs libsrt.CryptoState
		r.Read(cs.EvenSEK[:])
		r.Read(cs.OddSEK[:])
		r.Read(cs.Salt[:])
		cs.Active = true
		if r.Intn(8) == 0 { // carries into the salt
			for i := 4; i < 14; i++ {
				cs.Salt[i] = 0xff
			}
		}
		plain := randBytes(r, randSize(r, 1500))
		seq := c32val(c) & srt.Mask
		for kk := uint8(1); kk <= 2; kk++ {
			key := cs.EvenSEK
			if kk == 2 {
				key = cs.OddSEK
			}
			enc := srt.Crypt(key[:], cs.Salt[:14], seq, 0, plain)
			in := append([]byte(nil), enc...)
			keep := cs
			got, err := cs.DecryptDataPayload(kk, seq, in)
			if err != nil || !bytes.Equal(got, plain) {
				c.Fail("decrypt", "KK %d, sequence %d, %d bytes: wrong plaintext, %v", kk, seq, len(plain), err)
			}
			if cs != keep {
				c.Fail("decrypt", "decryption changed the keys")
			}
			// a second packet with the same state
			if got, err := cs.DecryptDataPayload(3-kk, seq, append([]byte(nil), enc...)); len(plain) > 8 && (err != nil || bytes.Equal(got, plain)) {
				c.Fail("decrypt", "the other key decrypts too")
			}
		}
		in := append([]byte(nil), plain...)
		if got, err := cs.DecryptDataPayload(0, seq, in); err != nil || !bytes.Equal(got, plain) {
			c.Fail("decrypt-clear", "an unencrypted payload was changed: %v", err)
		}
		if _, err := cs.DecryptDataPayload(3+uint8(r.Intn(253)), seq, in); err == nil {
			c.Fail("decrypt-kk", "a key indicator that does not exist was accepted")
		}
		cs.Active = false
		if got, err := cs.DecryptDataPayload(uint8(r.Intn(3)), seq, append([]byte(nil), plain...)); err != nil || !bytes.Equal(got, plain) {
			c.Fail("decrypt-inactive", "a payload was changed without a key: %v", err)
		}
		c.Count("payload_bytes", len(plain))
		c.Nontrivial("%x", plain)
		if c.Idx == 6 { // the specification puts the packet index elsewhere
			cs.Active = true
			p := randBytes(r, 32)
			if got, _ := cs.DecryptDataPayload(1, 0x01020304, srt.Crypt(cs.EvenSEK[:], cs.Salt[:14], 0x01020304, 10, p)); !bytes.Equal(got, p) {
				c.Fail("spec-counter", "a payload encrypted by the specification (packet index at bytes 10..13 of the counter block) is not recovered")
			}
		}
	}
}

func c32Short(c *vh.C, b []byte) {
	for n := 0; n < 16; n++ {
		if _, _, err := libsrt.ParseHeader(b[:n]); err == nil {
			c.Fail("header-short", "packet of %d bytes accepted", n)
		}
	}
}
