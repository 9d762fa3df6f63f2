package net

import (
	"fmt"
	"math/rand"
	"net"
	"time"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/h26x"
	"vharness/ref/rtmp"
	"vharness/vh"
)

// Style is how an RTMP publisher chunks its messages.
type Style struct {
	Fmt       bool // header compression
	Chunk     bool // changes of the chunk size
	Inter     bool // several chunk streams at once
	Abort     bool
	Aggregate bool
	Control   bool // pings, acknowledgements and the like in between
	Segment   bool // odd TCP segmentation
	CSV, CSA  uint32
	CSM       uint32
}

func (s Style) String() string {
	o := ""
	for _, x := range []struct {
		b bool
		n string
	}{{s.Fmt, "fmt"}, {s.Chunk, "chunk"}, {s.Inter, "inter"}, {s.Abort, "abort"}, {s.Aggregate, "aggr"}, {s.Control, "ctl"}, {s.Segment, "seg"}} {
		if x.b {
			o += x.n + " "
		}
	}
	return fmt.Sprintf("[%scs %d/%d/%d]", o, s.CSV, s.CSA, s.CSM)
}

func randCSID(r *rand.Rand, not ...uint32) uint32 {
	for {
		c := uint32(4 + r.Intn(60))
		switch r.Intn(4) {
		case 0:
			c = uint32(64 + r.Intn(256))
		case 1:
			c = uint32(320 + r.Intn(65600-320))
		case 2:
			c = pick(r, uint32(4), 5, 6, 7, 63, 64, 319, 320, 65599)
		}
		ok := true
		for _, n := range not {
			ok = ok && n != c
		}
		if ok {
			return c
		}
	}
}

// RandStyle is any combination.
func RandStyle(r *rand.Rand) Style {
	b := func() bool { return r.Intn(2) == 0 }
	s := Style{Fmt: b(), Chunk: b(), Inter: b(), Abort: r.Intn(3) == 0, Aggregate: r.Intn(3) == 0, Control: b(), Segment: r.Intn(3) == 0}
	s.CSV = randCSID(r)
	s.CSA = randCSID(r, s.CSV)
	s.CSM = randCSID(r, s.CSV, s.CSA)
	return s
}

// Plain is what most publishers do.
func Plain() Style { return Style{Fmt: true, CSV: 6, CSA: 4, CSM: 5} }

// Pub is an RTMP publisher.
type Pub struct {
	*rtmp.Client
	Live *Live
	S    Style
	r    *rand.Rand
	seg  *segmenter

	NextCtl func() *rtmp.Msg             // overrides the control messages of the wild styles
	OnCtl   func(m *rtmp.Msg, end int64) // told of control messages and the offset they end at

	// what the wild styles did
	NChunks, NAborts, NAggr, NSizes, MaxParts int
}

// segmenter writes in odd pieces.
type segmenter struct {
	net.Conn
	r  *rand.Rand
	on bool
}

func (s *segmenter) Write(b []byte) (int, error) {
	if !s.on || len(b) == 0 {
		return s.Conn.Write(b)
	}
	n := 0
	for n < len(b) {
		k := 1 + s.r.Intn(1+pick(s.r, 3, 20, 300, 3000))
		if k > len(b)-n {
			k = len(b) - n
		}
		m, err := s.Conn.Write(b[n : n+k])
		n += m
		if err != nil {
			return n, err
		}
		if s.r.Intn(40) == 0 {
			time.Sleep(time.Duration(s.r.Intn(300)) * time.Microsecond)
		}
	}
	return n, nil
}

// DialRTMP connects and sends connect.
func DialRTMP(addr, app string, r *rand.Rand) (*rtmp.Client, error) {
	c, err := rtmp.Dial(addr, r, nil, dialT)
	if err != nil {
		return nil, err
	}
	if err := c.Connect(app, dialT); err != nil {
		c.Close()
		return nil, err
	}
	return c, nil
}

// Publish connects and publishes.
func Publish(addr string, r *rand.Rand, l *Live, s Style) (*Pub, error) {
	p, err := prepPub(addr, r, l, s)
	if err != nil {
		return nil, err
	}
	if err := p.Client.Publish(l.Name, dialT); err != nil {
		p.Client.Close()
		return nil, err
	}
	return p, nil
}

// prepPub connects.
func prepPub(addr string, r *rand.Rand, l *Live, s Style) (*Pub, error) {
	conn, err := net.DialTimeout("tcp", addr, dialT)
	if err != nil {
		return nil, err
	}
	seg := &segmenter{Conn: conn, r: rand.New(rand.NewSource(r.Int63())), on: s.Segment}
	c := rtmp.NewClient(seg)
	conn.SetDeadline(time.Now().Add(dialT))
	if err := c.Handshake(r, nil); err != nil {
		conn.Close()
		return nil, err
	}
	conn.SetDeadline(time.Time{})
	c.Start()
	p := &Pub{Client: c, Live: l, S: s, r: r, seg: seg}
	if err := c.Connect(l.App, dialT); err != nil {
		c.Close()
		return nil, err
	}
	if !s.Chunk {
		if err := c.SetChunkSize(4096); err != nil {
			return nil, err
		}
	}
	return p, nil
}

// MustPublish publishes or fails the case.
func MustPublish(c *vh.C, addr string, l *Live, s Style) *Pub {
	p, err := Publish(addr, c.R, l, s)
	if err != nil {
		c.FailTimed("publish", "publishing %s/%s: %v", l.App, l.Name, err)
	}
	return p
}

// Barrier waits until the server has taken everything sent so far: a ping
// behind it is answered.
func (p *Pub) Barrier(c *vh.C) {
	from := p.Len()
	id := p.r.Uint32()
	want := rtmp.UserCtl(7, id)
	err := p.ctl(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, id)})
	if err == nil {
		_, _, err = p.Wait(from, c.D(15*time.Second), func(m *rtmp.Msg) bool { return m.Type == 4 && string(m.Body) == string(want) })
	}
	if err != nil {
		c.FailTimed("publisher-blocked", "no ping response for the publisher of %s: %v", p.Live.Name, err)
	}
}

// ctl sends a control message.
func (p *Pub) ctl(m *rtmp.Msg) error {
	err := p.Write(p.W.Encode(m, 0))
	if p.OnCtl != nil {
		p.OnCtl(m, p.Sent)
	}
	return err
}

func (p *Pub) msg(f *media.Frame) *rtmp.Msg {
	cs := p.S.CSM
	switch f.Kind {
	case 8:
		cs = p.S.CSA
	case 9:
		cs = p.S.CSV
	}
	return &rtmp.Msg{CSID: cs, Type: f.Kind, TS: f.TS, MSID: 1, Body: f.Body}
}

func (p *Pub) fmt() int {
	if p.S.Fmt {
		return rtmp.RandFmt(p.r)
	}
	return 0
}

// Send publishes frames one after the other.
func (p *Pub) Send(fs ...*media.Frame) error {
	if p.S.Inter || p.S.Abort || p.S.Aggregate || p.S.Chunk || p.S.Control {
		return p.wild(fs)
	}
	for _, f := range fs {
		p.Live.Add(f)
		if err := p.SendMsg(p.msg(f), p.fmt()); err != nil {
			return err
		}
	}
	return nil
}

type flight struct {
	part *rtmp.Part
	fs   []*media.Frame // added when the message completes; nil: to be aborted
	stop int            // chunks after which it is aborted
}

// wild sends the frames the way p.S says. All are complete when it returns.
func (p *Pub) wild(fs []*media.Frame) error {
	var act []*flight
	r := p.r
	busy := func(cs uint32) bool {
		for _, f := range act {
			if f.part.Msg().CSID == cs {
				return true
			}
		}
		return false
	}
	max := 1
	if p.S.Inter {
		max = 2 + r.Intn(3)
	}
	write := func(b []byte) error { return p.Write(b) }
	for len(fs) > 0 || len(act) > 0 {
		// control in between
		if p.S.Control && r.Intn(6) == 0 {
			var m *rtmp.Msg
			switch r.Intn(5) {
			case 0:
				m = &rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, r.Uint32())}
			case 1:
				m = &rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(3, 1, 3000)}
			case 2:
				m = &rtmp.Msg{CSID: 2, Type: 3, Body: rtmp.U32(r.Uint32())}
			case 3:
				m = &rtmp.Msg{CSID: 2, Type: 5, Body: rtmp.U32(uint32(2000 + r.Intn(100000)))}
			case 4:
				m = &rtmp.Msg{CSID: 2, Type: 6, Body: append(rtmp.U32(2500000), byte(r.Intn(3)))}
			}
			if p.NextCtl != nil {
				m = p.NextCtl()
			}
			if err := p.ctl(m); err != nil {
				return err
			}
		}
		if p.S.Chunk && r.Intn(10) == 0 {
			n := pick(r, 1, 2, 60+r.Intn(100), 128, 1000+r.Intn(4000), 4096, 65536, 1<<20, 0x1000000, 0x40000000, 0x7fffffff)
			if n < 50 && r.Intn(3) > 0 {
				n = 500
			}
			p.NSizes++
			if err := write(p.W.SetChunkSize(n)); err != nil {
				return err
			}
		}
		// begin another message
		if len(act) < max && len(fs) > 0 && (len(act) == 0 || r.Intn(3) > 0) {
			f := fs[0]
			m := p.msg(f)
			if p.S.Inter && r.Intn(6) == 0 && (f.Kind == 8 || f.Kind == 9) {
				m.CSID = randCSID(r, p.S.CSA, p.S.CSV, p.S.CSM)
			}
			group := []*media.Frame{f}
			if p.S.Aggregate && r.Intn(4) == 0 {
				for len(group) < 2+r.Intn(4) && len(group) < len(fs) {
					group = append(group, fs[len(group)])
				}
				base := uint32(0)
				switch r.Intn(3) {
				case 0:
					base = f.TS // sub-message times relative to the first
				case 1:
					base = f.TS - uint32(r.Intn(1000))
				}
				// sub-message times are only meaningful as differences
				var b []byte
				for _, g := range group {
					t := g.TS - base
					n := len(g.Body)
					b = append(b, g.Kind, byte(n>>16), byte(n>>8), byte(n), byte(t>>16), byte(t>>8), byte(t), byte(t>>24), 0, 0, 0)
					b = append(b, g.Body...)
					b = append(b, rtmp.U32(uint32(n+11))...)
				}
				m = &rtmp.Msg{CSID: m.CSID, Type: 22, TS: f.TS, MSID: 1, Body: b}
				p.NAggr++
			}
			if !busy(m.CSID) {
				// frames of one track stay in order: nothing that completes
				// earlier than it was begun matters, the log follows completion
				ok := true
				for _, a := range act {
					for _, x := range a.fs {
						for _, g := range group {
							if x.Kind == g.Kind || x.Hdr || g.Hdr {
								ok = false
							}
						}
					}
				}
				if ok {
					fs = fs[len(group):]
					act = append(act, &flight{part: p.W.Start(m, p.fmt(), r.Intn(4) == 0), fs: group})
				}
			}
			if len(act) > p.MaxParts {
				p.MaxParts = len(act)
			}
		}
		if p.S.Abort && r.Intn(12) == 0 && len(act) < max+1 {
			cs := randCSID(r)
			if r.Intn(2) == 0 {
				cs = pick(r, p.S.CSA, p.S.CSV)
			}
			if !busy(cs) {
				b := make([]byte, p.W.ChunkSize%100000*2+50+r.Intn(3000))
				if p.W.ChunkSize < len(b)/2 {
					r.Read(b)
					m := &rtmp.Msg{CSID: cs, Type: pick(r, byte(8), 9, 18, 20), TS: r.Uint32() >> 1, MSID: 1, Body: b}
					a := &flight{part: p.W.Start(m, p.fmt(), false), stop: 1 + r.Intn(3)}
					if err := write(a.part.Next()); err != nil {
						return err
					}
					act = append(act, a)
				}
			}
		}
		if len(act) == 0 {
			continue
		}
		// advance one
		i := r.Intn(len(act))
		a := act[i]
		k := 1
		if !p.S.Inter || p.W.ChunkSize < 50 {
			k = 1 << 20
		}
		var out []byte
		for ; k > 0; k-- {
			if a.fs == nil {
				if a.stop--; a.part.Left() <= p.W.ChunkSize {
					a.stop = 0
				}
				if a.stop == 0 {
					break
				}
			}
			out = append(out, a.part.Next()...)
			p.NChunks++
			if a.part.Done() {
				break
			}
		}
		done := a.part.Done()
		if a.fs == nil && a.stop == 0 {
			out = append(out, p.W.Encode(&rtmp.Msg{CSID: 2, Type: 2, Body: rtmp.U32(a.part.Msg().CSID)}, 0)...)
			p.NAborts++
			done = true
		}
		if done {
			act = append(act[:i], act[i+1:]...)
			if a.fs != nil {
				p.Live.Add(a.fs...)
			}
		}
		if err := write(out); err != nil {
			return err
		}
	}
	return nil
}

// End unpublishes the way how says.
func (p *Pub) End(how string) {
	if p.r.Intn(6) == 0 { // the session's idea of its app must not matter
		other := map[string]string{appLive: appTwo, appTwo: appLive, appSeg: appAlt, appAlt: appLate, appLate: appSeg}[p.Live.App]
		p.Cmd(0, "connect", p.NextTxn(), amf0.Obj{{K: "app", V: other}, {K: "tcUrl", V: "rtmp://x/" + other}})
	}
	switch how {
	case "fcunpublish":
		p.Cmd(0, "FCUnpublish", p.NextTxn(), nil, p.Live.Name)
	case "delete":
		p.Cmd(0, "deleteStream", p.NextTxn(), nil, 1.0)
	case "closestream":
		p.Cmd(1, "closeStream", p.NextTxn(), nil)
	case "reset":
		abruptClose(p.seg.Conn, true)
	case "half":
		if t, ok := p.seg.Conn.(*net.TCPConn); ok {
			t.CloseWrite()
		}
	case "garbage":
		// an aborted session: a message of an undefined type
		p.Write(p.W.Encode(&rtmp.Msg{CSID: 40, Type: 7 + 120, MSID: 1, Body: []byte{1, 2, 3}}, 0))
	case "midchunk":
		b := p.W.Encode(&rtmp.Msg{CSID: 41, Type: 9, MSID: 1, Body: make([]byte, 600)}, 0)
		p.Write(b[:len(b)/2])
		p.Client.Close()
	default:
		p.Client.Close()
	}
}

var pubEnds = []string{"fcunpublish", "delete", "closestream", "reset", "half", "garbage", "midchunk", "close"}

// Meta is a metadata frame with distinct content.
func Meta(r *rand.Rand, ts uint32, id uint64) *media.Frame {
	return media.MetaFrame(r, ts, r.Intn(2) == 0, id)
}

// Zoo makes a stream of any codec.
func Zoo(r *rand.Rand, n int, start uint32) (out []*media.Frame, desc string) {
	vc := pick(r, 2, 3, 4, 5, 6, 7, 12, 13, 107, 112, 113, 109)
	ac := pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 14, 15)
	hasV, hasA := r.Intn(5) > 0, r.Intn(5) > 0
	if !hasV && !hasA {
		hasV = true
	}
	id := uint64(r.Int31()) << 16
	ts := start
	body := func(head ...byte) []byte {
		id++
		b := append(append([]byte{}, head...), h26x.ID(id)...)
		m := pick(r, 10, 200, 3000, 20000)
		return append(b, h26x.Fill(r, r.Intn(m))...)
	}
	video := func(key, hdr bool, pt byte) *media.Frame {
		ft := byte(2)
		if key {
			ft = 1
		} else if vc < 7 && r.Intn(4) == 0 {
			ft = 3
		}
		f := &media.Frame{Kind: 9, TS: ts, Key: key, Hdr: hdr}
		switch {
		case vc > 100: // enhanced
			cc := map[int]string{107: "avc1", 112: "hvc1", 113: "av01", 109: "vp09"}[vc]
			h := append([]byte{0x80 | ft<<4 | pt}, cc...)
			if pt == 1 && (vc == 112 || vc == 107) {
				h = append(h, byte(r.Intn(2)*255), 0, byte(r.Intn(100)))
			}
			f.Body = body(h...)
		case vc == 7 || vc == 12 || vc == 13:
			f.Body = body(ft<<4|byte(vc), pt, byte(r.Intn(2)*255), byte(r.Intn(256)), byte(r.Intn(256)))
		default:
			f.Body = body(ft<<4 | byte(vc))
		}
		return f
	}
	hasHdr := vc >= 7
	newHdr := func() *media.Frame { return video(true, true, 0) }
	sound := byte(r.Intn(16))
	audio := func(hdr bool) *media.Frame {
		f := &media.Frame{Kind: 8, TS: ts, Hdr: hdr}
		switch {
		case ac == 10 || ac == 13:
			pt := byte(1)
			if hdr {
				pt = 0
			}
			f.Body = body(byte(ac)<<4|sound, pt)
		default:
			f.Body = body(byte(ac)<<4 | sound)
		}
		return f
	}
	if r.Intn(3) > 0 {
		out = append(out, Meta(r, ts, id))
	}
	if hasV && hasHdr {
		out = append(out, newHdr())
	}
	if hasA && (ac == 10 || ac == 13) {
		out = append(out, audio(true))
	}
	gop := 0
	for i := 0; i < n; i++ {
		if hasA && (!hasV || r.Intn(2) == 0) {
			out = append(out, audio(false))
		} else {
			key := gop == 0
			if key {
				gop = 3 + r.Intn(20)
				if hasHdr && r.Intn(5) == 0 {
					out = append(out, newHdr())
				}
			}
			gop--
			pt := byte(1)
			if vc > 100 && r.Intn(3) == 0 {
				pt = 3
			}
			out = append(out, video(key, false, pt))
		}
		if r.Intn(50) == 0 {
			id++
			out = append(out, Meta(r, ts, id))
		}
		if r.Intn(60) == 0 { // other data
			id++
			out = append(out, &media.Frame{Kind: 18, TS: ts, Body: amf0.Enc("onTextData", amf0.Obj{{K: "text", V: fmt.Sprint("t", id)}})})
		}
		ts += uint32(r.Intn(40))
	}
	return out, fmt.Sprintf("video %v codec %d, audio %v codec %d", hasV, vc, hasA, ac)
}
