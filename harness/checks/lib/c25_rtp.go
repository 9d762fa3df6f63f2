package lib

import (
	"bytes"
	"fmt"

	"github.com/sbraveyoung/GGmpeg/librtsp"

	"vharness/ref/h26x"
	"vharness/ref/rtp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{
		ID: "C25", Quick: 150000, Thorough: 2000000,
		Rule:      "each case is one of: H.264/H.265 NAL units of sizes around every fragmentation boundary packed for a random MTU and read by a strict depacketiser; AAC/Opus payloads; RTP headers through a sequence wrap; access units packed in a random legal way (single, STAP-A, FU-A of random fragment sizes, CSRC, extension, padding) received intact; the same with random loss, duplication and reordering; AAC packets with several or fragmented frames; random bytes; distinct by packet bytes",
		Technique: "conservation oracle between identified NAL units sent and recovered, with a strict independent packetiser and depacketiser",
		LevelNote: "held on the inputs tried; video payloads respect the MTU (AAC frames and Opus packets are sent whole), MTU of at least 4, AAC frames below 8192 bytes; after loss, NAL units whose packets all arrived must be delivered, after reordering the recovered units need only be intact, in order and unique",
		Run:       runC25,
	})
}

func nalSize(c *vh.C, mtu, hdr int) int {
	r := c.R
	frag := mtu - hdr - 1
	switch r.Intn(6) {
	case 0:
		return hdr + 1 + r.Intn(8)
	case 1:
		return mtu + r.Intn(5) - 2
	case 2:
		return hdr + frag*(1+r.Intn(6)) + r.Intn(5) - 2
	case 3:
		return hdr + 1 + r.Intn(mtu*8)
	case 4:
		return hdr + 1 + r.Intn(3000)
	}
	return hdr + 1 + r.Intn(mtu)
}

func runC25(c *vh.C) {
	switch c.Idx % 6 {
	case 0, 1:
		c25Pack(c)
	case 2:
		c25Audio(c)
	case 3:
		c25Receive(c, false)
	case 4:
		c25Receive(c, true)
	case 5:
		if c.Idx%12 == 5 {
			c25Random(c)
		} else {
			c25AACReceive(c)
		}
	}
}

// c25Keys: which access units count as key frames.
func c25Keys(c *vh.C) {
	r := c.R
	var nals [][]byte
	var key4, key5 bool
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		b := randBytes(r, 2+r.Intn(4))
		b[0] &^= 0x80
		t := b[0] & 0x1f
		key4 = key4 || t == 5
		u := b[0] >> 1
		// BLA, IDR, CRA; 22 and 23 are reserved IRAP types
		if u >= 22 && u <= 23 {
			b[0] &^= 0x7e
			key4 = false
			for _, x := range append(nals, b) {
				key4 = key4 || x[0]&0x1f == 5
			}
			u = b[0] >> 1
		}
		key5 = key5 || u >= 16 && u <= 21
		nals = append(nals, b)
	}
	var g4, g5 bool
	c.Call("ContainsKeyframe", func() { g4, g5 = librtsp.ContainsKeyframe(nals), librtsp.HEVCContainsKeyframe(nals) })
	if g4 != key4 || g5 != key5 {
		c.Fail("keyframe", "units %x: key frame %v (H.264) %v (H.265), want %v %v", nals, g4, g5, key4, key5)
	}
	c.Count("access_units_judged", 1)
}

func c25Pack(c *vh.C) {
	c25Keys(c)
	r := c.R
	hevc := r.Intn(2) == 0
	mtu := []int{0, 1400, 4 + r.Intn(20), 20 + r.Intn(200), 200 + r.Intn(1300), 1400 + r.Intn(8000)}[r.Intn(6)]
	eff := mtu
	if eff == 0 {
		eff = 1400
	}
	pt := uint8(r.Intn(128))
	ssrc := r.Uint32()
	pk := librtsp.NewRTPPacker(pt, ssrc)
	if r.Intn(2) == 0 {
		pk.SetSeq(uint16(65536 - r.Intn(40)))
	}
	seq := pk.Seq()
	d := &rtp.Depack{HEVC: hevc, MTU: eff}
	for k := 0; k < 4; k++ {
		var nal []byte
		hdr := 1
		if hevc {
			hdr = 2
			n := nalSize(c, eff, 2)
			if n < 3 {
				n = 3
			}
			nal = randBytes(r, n)
			nal[0] = byte(r.Intn(48))<<1 | byte(r.Intn(2))
			nal[1] |= 1
		} else {
			n := nalSize(c, eff, 1)
			if n < 2 {
				n = 2
			}
			nal = randBytes(r, n)
			nal[0] = byte(r.Intn(4))<<5 | byte(1+r.Intn(23))
			if r.Intn(16) == 0 {
				nal[0] |= 0x80
			}
		}
		_ = hdr
		orig := append([]byte(nil), nal...)
		var out [][]byte
		if hevc {
			c.Call("PackHEVCNAL", func() { out = librtsp.PackHEVCNAL(nal, mtu) })
		} else {
			c.Call("PackNAL", func() { out = librtsp.PackNAL(nal, mtu) })
		}
		what := fmt.Sprintf("hevc=%v nal %d bytes header %02x mtu %d", hevc, len(orig), orig[0], mtu)
		if !bytes.Equal(orig, nal) {
			c.Fail("pack-mutates", "%s: the NAL unit was modified", what)
		}
		var got [][]byte
		ts := randTS(r)
		for i, p := range out {
			mk := i == len(out)-1
			before := append([]byte(nil), p...)
			var raw []byte
			c.Call("Pack", func() { raw = pk.Pack(mk, ts, p) })
			rp, err := rtp.Parse(raw)
			if err != nil {
				c.Fail("rtp-header", "%s: packet %d: %v", what, i, err)
			}
			if rp.PT != pt || rp.Marker != mk || rp.Seq != seq || rp.TS != ts || rp.SSRC != ssrc || raw[0] != 0x80 || !bytes.Equal(rp.Payload, before) {
				c.Fail("rtp-header", "%s: want pt %d marker %v seq %d ts %d ssrc %x, got %d %v %d %d %x (first byte %02x, payload equal %v)", what, pt, mk, seq, ts, ssrc, rp.PT, rp.Marker, rp.Seq, rp.TS, rp.SSRC, raw[0], bytes.Equal(rp.Payload, before))
			}
			seq++
			if pk.Seq() != seq {
				c.Fail("rtp-seq", "Seq() is %d after packet %d", pk.Seq(), seq-1)
			}
			n, err := d.Push(rp.Payload)
			if err != nil {
				c.Fail("pack-payload", "%s: payload %d of %d: %v", what, i, len(out), err)
			}
			got = append(got, n...)
			var own *librtsp.RTPPacket
			c.Call("ParseRTP", func() { own, err = librtsp.ParseRTP(raw) })
			if err != nil || own.SequenceNum != rp.Seq || !bytes.Equal(own.Payload, before) {
				c.Fail("parse-own", "%s: own packet parsed as %+v, %v", what, own, err)
			}
			ch := byte(r.Intn(256))
			fr := librtsp.InterleaveFrame(ch, raw)
			if len(fr) != len(raw)+4 || fr[0] != '$' || fr[1] != ch || int(fr[2])<<8|int(fr[3]) != len(raw) || !bytes.Equal(fr[4:], raw) {
				c.Fail("interleave", "%s: interleaved frame %s", what, hexClip(fr))
			}
			c.Count("packets", 1)
		}
		if d.Open() || len(got) != 1 || !bytes.Equal(got[0], orig) {
			c.Fail("pack-lost", "%s: the payloads give %d NAL units, unfinished %v", what, len(got), d.Open())
		}
		c.Count("nals_packed", 1)
		if len(out) > 1 {
			c.Count("nals_fragmented", 1)
			c.Count("max_fragments", len(out))
			c.Nontrivial("frag %v %d %d", hevc, len(orig), mtu)
		}
	}
}

func c25Audio(c *vh.C) {
	r := c.R
	n := 1 + randSize(r, 8190)
	f := randBytes(r, n)
	orig := append([]byte(nil), f...)
	var p []byte
	c.Call("PackAACFrame", func() { p = librtsp.PackAACFrame(f) })
	aus, err := rtp.AAC(p)
	if err != nil || len(aus) != 1 || !bytes.Equal(aus[0], orig) {
		c.Fail("aac-pack", "AAC frame of %d bytes packed as %s: %v", n, hexClip(p), err)
	}
	var back [][]byte
	c.Call("AACAUExtract", func() { back = librtsp.AACAUExtract(p) })
	if len(back) != 1 || !bytes.Equal(back[0], orig) {
		c.Fail("aac-extract", "AAC frame of %d bytes comes back as %d frames", n, len(back))
	}
	c.Call("PackOpusFrame", func() { p = librtsp.PackOpusFrame(f) })
	if !bytes.Equal(p, orig) {
		c.Fail("opus-pack", "Opus packet of %d bytes packed as %d bytes", n, len(p))
	}
	raw := randBytes(r, 1+r.Intn(1000))
	if raw[0] == 0xff {
		raw[0] = 0x21
	}
	crc := r.Intn(2) == 0
	adts := h26x.MakeADTS(2, r.Intn(13), 1+r.Intn(7), raw, crc)
	var got []byte
	c.Call("AdtsToRaw", func() { got = librtsp.AdtsToRaw(append([]byte(nil), adts...)) })
	if !bytes.Equal(got, raw) {
		c.Fail("adts-strip", "ADTS frame (crc %v) with %d bytes of data stripped to %d bytes", crc, len(raw), len(got))
	}
	c.Call("AdtsToRaw", func() { got = librtsp.AdtsToRaw(append([]byte(nil), raw...)) })
	if !bytes.Equal(got, raw) {
		c.Fail("adts-raw", "raw AAC frame of %d bytes changed to %d bytes", len(raw), len(got))
	}
	c.Count("audio_frames", 3)
	c.Nontrivial("aud %d %d", n, len(raw))
}

type c25nal struct {
	au   int
	data []byte
}

// c25Receive sends access units of NAL units with unique contents.
func c25Receive(c *vh.C, faulty bool) {
	r := c.R
	type pkt struct {
		raw  []byte
		au   int
		nals []int // global indices
		last bool
	}
	var (
		nals []c25nal
		pkts []pkt
		auTS []uint32
		id   = uint64(c.Idx) * 4096
	)
	seq := uint16(r.Intn(65536))
	if r.Intn(2) == 0 {
		seq = uint16(65536 - r.Intn(60))
	}
	ssrc := r.Uint32()
	ts := randTS(r)
	max := 64 + r.Intn(1400)
	nau := 3 + r.Intn(8)
	for a := 0; a < nau; a++ {
		ts += 1 + uint32(r.Intn(9000))
		auTS = append(auTS, ts)
		var list [][]byte
		base := len(nals)
		for k := 0; k <= r.Intn(5); k++ {
			id++
			hdr := byte(r.Intn(4))<<5 | byte(1+r.Intn(23))
			n := h26x.NAL(r, hdr, id, 12+r.Intn(3*max))
			if r.Intn(8) == 0 {
				n = append([]byte{hdr}, h26x.ID(id)...)
			}
			list = append(list, n)
			nals = append(nals, c25nal{a, n})
		}
		spans := rtp.PackH264(r, list, max)
		for i, s := range spans {
			p := &rtp.Packet{PT: 96, Marker: i == len(spans)-1, Seq: seq, TS: ts, SSRC: ssrc, Payload: s.Payload}
			seq++
			csrc, ext, pad := 0, -1, 0
			if r.Intn(4) == 0 {
				csrc = r.Intn(16)
			}
			if r.Intn(4) == 0 {
				ext = r.Intn(6)
				if r.Intn(8) == 0 {
					ext = []int{255, 256, 257, 256 + r.Intn(600)}[r.Intn(4)]
				}
			}
			if r.Intn(4) == 0 {
				pad = 1 + r.Intn(255)
			}
			var g []int
			for _, x := range s.NALs {
				g = append(g, base+x)
			}
			pkts = append(pkts, pkt{p.With(csrc, ext, pad, r), a, g, i == len(spans)-1})
		}
	}
	// faults never touch the last access unit, so everything gets flushed
	order := make([]int, len(pkts))
	for i := range order {
		order[i] = i
	}
	mode := "intact"
	need := map[int]bool{}
	for i := range nals {
		need[i] = true
	}
	if faulty {
		var o []int
		switch r.Intn(3) {
		case 0:
			mode = "loss"
			prob := 1 + r.Intn(50)
			for i := range pkts {
				if pkts[i].au < nau-1 && r.Intn(100) < prob {
					for _, n := range pkts[i].nals {
						delete(need, n)
					}
					c.Count("packets_lost", 1)
					continue
				}
				o = append(o, i)
			}
		case 1:
			mode = "duplicates"
			for i := range pkts {
				o = append(o, i)
				if i > 0 && r.Intn(4) == 0 {
					o = append(o, i-r.Intn(1+r.Intn(i+1)))
					c.Count("packets_duplicated", 1)
				}
			}
		case 2:
			mode = "reordered"
			o = order
			for k := 0; k < 1+r.Intn(6); k++ {
				i := r.Intn(len(o))
				j := i + 1 + r.Intn(4)
				if j < len(o) && pkts[o[j]].au < nau-1 {
					x := o[i]
					copy(o[i:j], o[i+1:j+1])
					o[j] = x
					c.Count("packets_reordered", 1)
				}
			}
			need = map[int]bool{}
			for i, n := range nals {
				if n.au == nau-1 {
					need[i] = true
				}
			}
		}
		order = o
	}
	byData := map[string]int{}
	for i, n := range nals {
		byData[string(n.data)] = i
	}
	ra := &librtsp.H264Reassembler{}
	last := -1
	groups := 0
	lastAU := -1
	for _, i := range order {
		var p *librtsp.RTPPacket
		var err error
		raw := append([]byte(nil), pkts[i].raw...)
		c.Call("ParseRTP", func() { p, err = librtsp.ParseRTP(raw) })
		if err != nil {
			c.Fail("parse", "legal packet %s refused: %v", hexClip(pkts[i].raw), err)
		}
		ref, _ := rtp.Parse(pkts[i].raw)
		if p.PayloadType != ref.PT || p.SequenceNum != ref.Seq || p.Timestamp != ref.TS || p.SSRC != ref.SSRC || p.Marker != ref.Marker || !bytes.Equal(p.Payload, ref.Payload) {
			c.Fail("parse-fields", "packet %s: parsed as %+v", hexClip(pkts[i].raw), *p)
		}
		var got [][]byte
		var gts uint32
		c.Call("H264Reassembler.Push", func() { got, gts = ra.Push(p) })
		for len(got) > 0 {
			groups++
			au := -1
			for _, n := range got {
				k, ok := byData[string(n)]
				if !ok {
					c.Fail("spliced", "%s: recovered a NAL unit of %d bytes (header %02x) that was never sent", mode, len(n), first(n))
				}
				if k <= last {
					c.Fail("order", "%s: NAL unit %d recovered after %d", mode, k, last)
				}
				last = k
				if au >= 0 && nals[k].au != au {
					c.Fail("au-mix", "%s: NAL units of access units %d and %d delivered as one", mode, au, nals[k].au)
				}
				au = nals[k].au
				delete(need, k)
				c.Count("nals_recovered", 1)
			}
			if au == lastAU {
				c.Fail("au-split", "%s: access unit %d delivered in two parts", mode, au)
			}
			lastAU = au
			if gts != auTS[au] {
				c.Fail("au-time", "%s: access unit %d has timestamp %d, want %d", mode, au, gts, auTS[au])
			}
			if want := hasIDR(got); librtsp.ContainsKeyframe(got) != want {
				c.Fail("keyframe", "%s: ContainsKeyframe is %v for %s", mode, !want, nalList(got))
			}
			avcc := librtsp.AVCCFromNALs(got)
			ref, err := h26x.SplitAVCC(avcc)
			if err != nil || !eqNals(ref, got) {
				c.Fail("avcc", "AVCCFromNALs: %v", err)
			}
			if back := librtsp.SplitAVCC(avcc); !eqNals(back, got) {
				c.Fail("split-avcc", "SplitAVCC gives %d of %d NAL units", len(back), len(got))
			}
			c.Call("H264Reassembler.Next", func() { got, gts = ra.Next() })
		}
	}
	for k := range need {
		n := nals[k]
		c.Fail("missing-"+mode, "%s: NAL unit %d (%d bytes, access unit %d of %d) was not recovered though all its packets arrived", mode, k, len(n.data), n.au, nau)
	}
	c.Count("access_units", groups)
	c.Count("runs_"+mode, 1)
	c.Nontrivial("%s %d %d %d", mode, len(pkts), len(nals), seq)
}

func first(b []byte) byte {
	if len(b) == 0 {
		return 0
	}
	return b[0]
}

func hasIDR(n [][]byte) bool {
	for _, x := range n {
		if len(x) > 0 && x[0]&31 == 5 {
			return true
		}
	}
	return false
}

func c25AACReceive(c *vh.C) {
	r := c.R
	type sent struct {
		data []byte
		lost bool
	}
	var frames []*sent
	ra := &librtsp.AACReassembler{}
	seq := uint16(65536 - r.Intn(20))
	ts := r.Uint32()
	lossy := r.Intn(2) == 0
	got := [][]byte{}
	for k := 0; k < 12; k++ {
		var pls [][]byte
		var fr []*sent
		if r.Intn(3) == 0 {
			f := &sent{data: randBytes(r, 200+r.Intn(3000))}
			fr = append(fr, f)
			pls = rtp.FragAAC(f.data, 50+r.Intn(len(f.data)))
		} else {
			var l [][]byte
			for i := 0; i <= r.Intn(5); i++ {
				f := &sent{data: randBytes(r, 1+randSize(r, 800))}
				fr = append(fr, f)
				l = append(l, f.data)
			}
			p := rtp.MakeAAC(l)
			if len(l) > 1 {
				var own [][]byte
				c.Call("AACAUExtract", func() { own = librtsp.AACAUExtract(p) })
				if !eqNals(own, l) {
					c.Fail("aac-multi", "a packet with %d AAC frames gives %d", len(l), len(own))
				}
			}
			pls = [][]byte{p}
		}
		frames = append(frames, fr...)
		for i, p := range pls {
			q := &rtp.Packet{PT: 97, Marker: i == len(pls)-1, Seq: seq, TS: ts, SSRC: 7, Payload: p}
			seq++
			if lossy && k < 11 && r.Intn(5) == 0 {
				for _, f := range fr {
					f.lost = true
				}
				continue
			}
			times := 1
			if lossy && r.Intn(6) == 0 {
				times = 2
			}
			for j := 0; j < times; j++ {
				var pk *librtsp.RTPPacket
				c.Call("ParseRTP", func() { pk, _ = librtsp.ParseRTP(q.Bytes()) })
				c.Call("AACReassembler.Push", func() { got = append(got, ra.Push(pk)...) })
			}
		}
		ts += 1024 * uint32(len(fr))
	}
	var want [][]byte
	for _, f := range frames {
		if !f.lost {
			want = append(want, f.data)
		}
	}
	if !eqNals(got, want) {
		c.Fail("aac-receive", "lossy=%v: %d AAC frames recovered, want %d", lossy, len(got), len(want))
	}
	c.Count("aac_frames_recovered", len(got))
	c.Nontrivial("aacrx %v %d %d", lossy, len(got), seq)
}

func c25Random(c *vh.C) {
	r := c.R
	ra := &librtsp.H264Reassembler{}
	aa := &librtsp.AACReassembler{}
	in, out := 0, 0
	for k := 0; k < 60; k++ {
		b := randBytes(r, r.Intn(80))
		if len(b) > 0 && r.Intn(4) != 0 {
			b[0] = b[0]&0x3f | 0x80
		}
		if len(b) > 13 && r.Intn(2) == 0 {
			b[0] = 0x80
			b[12] = b[12]&0xe0 | []byte{24, 28, 28, 29, 25}[r.Intn(5)]
		}
		var p *librtsp.RTPPacket
		var err error
		c.Call("ParseRTP", func() { p, err = librtsp.ParseRTP(b) })
		ref, rerr := rtp.Parse(b)
		if rerr == nil && err != nil {
			c.Fail("random-refused", "valid RTP packet %x refused: %v", b, err)
		}
		if err != nil {
			continue
		}
		if rerr == nil && !bytes.Equal(ref.Payload, p.Payload) {
			c.Fail("random-payload", "RTP packet %x parsed to payload %x", b, p.Payload)
		}
		in += len(p.Payload) + 1
		c.Call("Push", func() {
			for n, _ := ra.Push(p); len(n) > 0; n, _ = ra.Next() {
				for _, x := range n {
					if len(x) == 0 {
						c.Fail("random-empty", "an empty NAL unit was emitted")
					}
					out += len(x)
				}
			}
		})
		c.Call("AAC Push", func() {
			for _, f := range aa.Push(p) {
				if len(f) == 0 || len(f) > in {
					c.Fail("random-aac", "an AAC frame of %d bytes was emitted after %d bytes of input", len(f), in)
				}
			}
		})
		c.Call("AACAUExtract", func() { librtsp.AACAUExtract(p.Payload) })
	}
	if out > in {
		c.Fail("random-grow", "%d bytes of NAL units from %d bytes of packets", out, in)
	}
	c.Count("random_packets", 60)
	c.Nontrivial("rand %d %d", in, out)
}
