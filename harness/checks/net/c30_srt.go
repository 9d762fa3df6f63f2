package net

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libsrt"

	"vharness/ref/srt"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C30", Quick: 1500, Thorough: 40000, Setup: bare, Technique: "runtime monitoring: reference SRT callers against the running listener over loopback UDP; order, once-only and completeness oracle over the delivered payloads, exact-range oracle over loss reports, and a trace oracle over acknowledgements",
		Rule:      "1–4 callers at once on one listener with any initial sequence number (often just below the wrap), packets lost, duplicated, reordered, retransmitted late or jumping far, sent in batches with a keepalive behind each as a barrier; refusing handlers, shutdowns, data after the end",
		LevelNote: "held on the arrival patterns tried; what arrives is what was sent, loopback keeps the order of one socket",
		Run:       runC30})
	vh.Register(&vh.Check{ID: "C31", Quick: 3000, Thorough: 80000, Setup: bare, Technique: "runtime monitoring: reference SRT callers and strangers against the running listener; handshake replies are parsed strictly, sessions are observed through the handlers",
		Rule:      "random sequences of inductions, conclusions (right, wrong, foreign and missing cookies, other versions, extensions), repeated steps in the middle of data, new socket ids on the same address, data, shutdowns and keepalives from strangers, floods of inductions from more than a thousand addresses; in one case sessions that only send keepalives for longer than silent ones are kept",
		LevelNote: "held on the sequences tried",
		Run:       runC31})
}

func bare(w *vh.Worker) { w.State = &Env{IP: w.IP, port: 3000} }

// sink records the sessions of a listener.
type sink struct {
	mu   sync.Mutex
	sess []*sess
	stop int // refuse the payload with this number of each session
}

type sess struct {
	got    [][]byte
	closed int
	late   int // deliveries after the end
}

func (k *sink) open(string) (libsrt.DataHandler, func()) {
	s := &sess{}
	k.mu.Lock()
	k.sess = append(k.sess, s)
	stop := k.stop
	k.mu.Unlock()
	return func(_ string, b []byte) error {
			k.mu.Lock()
			defer k.mu.Unlock()
			if s.closed > 0 {
				s.late++
			}
			s.got = append(s.got, append([]byte(nil), b...))
			if stop > 0 && len(s.got) == stop {
				return errors.New("no more")
			}
			return nil
		}, func() {
			k.mu.Lock()
			s.closed++
			k.mu.Unlock()
		}
}

func (k *sink) n() int { k.mu.Lock(); defer k.mu.Unlock(); return len(k.sess) }

// of finds the session that got payloads of this caller.
func (k *sink) state(i int) (n, closed, late int) {
	k.mu.Lock()
	defer k.mu.Unlock()
	s := k.sess[i]
	return len(s.got), s.closed, s.late
}

func payload(r *rand.Rand, id uint32, n uint64) []byte {
	b := make([]byte, 12, 1456)
	binary.BigEndian.PutUint32(b, id)
	binary.BigEndian.PutUint64(b[4:], n)
	b = b[:12+r.Intn(pick(r, 1, 200, 1316-12, 1456-12))]
	r.Read(b[12:])
	return b
}

// span is a range of offsets from the initial sequence number.
type span struct{ a, b int64 }

func runC30(c *vh.C) {
	e := env(c)
	r := c.R
	addr := e.Port()
	k := &sink{}
	refuse := r.Intn(6) == 0
	if refuse {
		k.stop = 1 + r.Intn(20)
	}
	l := listen(c, addr, k.open)
	defer l.Close()
	type caller struct {
		*SRT
		idx     int
		sent    map[int64][]byte // by offset
		max     int64            // highest that arrived
		gaps    []span
		arrived map[int64]bool
		must    []int64 // arrived beyond everything before
		acks    map[uint32]bool
		from    int // position in the input log
		lastAck int64
		ackNo   uint32
		acked   int
		pings   int
		ended   bool
		n       uint64
		far     bool
	}
	var cs []*caller
	for i := 0; i < 1+r.Intn(4); i++ {
		s, err := NewSRT(r, e.IP, addr)
		if err != nil {
			panic(err)
		}
		defer s.Close()
		s.MustOpen(c)
		if k.n() != i+1 {
			c.Fail("session", "%d sessions began with %d callers", k.n(), i+1)
		}
		x := &caller{SRT: s, idx: i, sent: map[int64][]byte{}, max: -1, arrived: map[int64]bool{}, acks: map[uint32]bool{s.ISN: true}, lastAck: 0, from: s.N()}
		cs = append(cs, x)
		c.Trace("caller %d ISN %d", i, s.ISN)
	}
	seq := func(x *caller, o int64) uint32 { return uint32((int64(x.ISN) + o) & srt.Mask) }
	lossy := r.Intn(5)
	// judge looks at what came back since last time.
	judge := func(x *caller) {
		in := x.In(x.from)
		x.from += len(in)
		for _, p := range in {
			if !p.Ctrl {
				c.Fail("reply", "the listener sent a data packet")
			}
			if p.Dest != x.ID {
				c.Fail("reply", "control packet type %d is addressed to %#x, the caller is %#x", p.Type, p.Dest, x.ID)
			}
			switch p.Type {
			case 0:
			case 1:
				x.pings++
			case 2:
				f, err := srt.ACK(p.Body)
				if err != nil {
					c.Fail("ack", "%v", err)
				}
				if f[0]>>31 != 0 {
					c.Fail("ack", "acknowledged number %#x has the top bit set", f[0])
				}
				if !x.acks[f[0]] {
					c.Fail("ack", "caller %d: acknowledgement of %d (offset %d), the next expected number was never that; highest arrived is offset %d", x.idx, f[0], srt.Diff(f[0], x.ISN), x.max)
				}
				o := x.lastAck + srt.Diff(f[0], seq(x, x.lastAck))
				if o < x.lastAck {
					c.Fail("ack", "caller %d: acknowledgements go back from offset %d to %d", x.idx, x.lastAck, o)
				}
				x.lastAck = o
				if x.acked > 0 && int32(p.Info-x.ackNo) <= 0 {
					c.Fail("ack", "acknowledgement numbers %d, then %d", x.ackNo, p.Info)
				}
				x.ackNo = p.Info
				x.acked++
			case 3:
				l, err := srt.ParseLoss(p.Body)
				if err != nil || len(l) == 0 {
					c.Fail("nak", "loss report % x: %v", p.Body, err)
				}
				for _, q := range l {
					n := srt.Diff(q.To, q.From)
					hit := false
					for gi, g := range x.gaps {
						if seq(x, g.a) == q.From && g.b-g.a == n {
							hit = true
							x.gaps[gi].a = -1
						}
					}
					x.gaps = compact(x.gaps)
					if !hit {
						c.Fail("nak", "caller %d: loss report names %d…%d (offsets from %d, %d packets); missing and not reported are %v", x.idx, q.From, q.To, srt.Diff(q.From, x.ISN), n+1, x.gaps)
					}
					c.Count("ranges_reported", 1)
				}
			case 5:
				x.ended = true
			default:
				c.Fail("reply", "control packet of type %d", p.Type)
			}
		}
	}
	steps := 2 + r.Intn(10)
	for st := 0; st < steps; st++ {
		for _, x := range cs {
			if x.ended {
				continue
			}
			n := 1 + r.Intn(30)
			// the batch: offsets in the order of arrival
			var l []int64
			next := x.max + 1
			for i := 0; i < n; i++ {
				o := next
				next++
				if r.Intn(40) == 0 && lossy > 0 {
					j := int64(pick(r, 1, 2, 50, 1000, 1<<20, 1<<29))
					if j == 1<<29 && x.far { // twice would be behind
						j = 3
					}
					x.far = x.far || j == 1<<29
					next += j
				}
				switch {
				case lossy > 0 && r.Intn(20) < lossy:
					continue // lost, or late
				}
				l = append(l, o)
				if lossy > 1 && r.Intn(10) == 0 {
					l = append(l, o)
				}
			}
			if lossy > 2 {
				for i := 0; i < len(l); i++ {
					if j := i + r.Intn(6); r.Intn(4) == 0 && j < len(l) {
						l[i], l[j] = l[j], l[i]
					}
				}
			}
			if lossy > 0 && r.Intn(3) == 0 { // late ones
				for i := 0; i < 5; i++ {
					if o := x.max - int64(r.Intn(pick(r, 5, 100, 100000))); o >= -3 {
						l = append(l, o)
					}
				}
			}
			for _, o := range l {
				b := x.sent[o]
				if b == nil {
					x.n++
					b = payload(r, uint32(x.idx), uint64(o))
					x.sent[o] = b
				}
				x.data(seq(x, o), b)
				c.Count("packets", 1)
				if o > x.max {
					if o > x.max+1 {
						x.gaps = append(x.gaps, span{x.max + 1, o - 1})
					}
					x.max = o
					x.must = append(x.must, o)
					x.acks[seq(x, o+1)] = true
				}
				x.arrived[o] = true
				if k.stop > 0 && len(x.must) == k.stop {
					break // the handler refuses this one
				}
			}
			if k.stop > 0 && len(x.must) >= k.stop {
				if _, err := x.Wait(x.from, c.D(10*time.Second), func(p *srt.Packet) bool { return p.Ctrl && p.Type == 5 }); err != nil {
					c.FailTimed("refusal", "caller %d: the handler refused a payload, the caller is not told", x.idx)
				}
				x.ended = true
				judge(x)
				if !c.Eventually(3*time.Second, func() bool { _, closed, _ := k.state(x.idx); return closed > 0 }) {
					c.FailTimed("refusal-close", "caller %d: the handler refused a payload, its session goes on", x.idx)
				}
				c.Count("sessions_refused", 1)
				x.data(seq(x, x.max+1), payload(r, uint32(x.idx), 1<<40)) // ignored
				continue
			}
			if !x.Ping(c.D(10 * time.Second)) {
				c.FailTimed("keepalive", "caller %d: no answer to a keepalive", x.idx)
			}
			judge(x)
			if len(x.gaps) > 0 {
				c.Fail("nak", "caller %d: offsets %v were skipped and not asked for", x.idx, x.gaps)
			}
			if r.Intn(3) == 0 && len(l) > 0 {
				x.ctrl(6, x.ackNo, x.pad()) // ACKACK
			}
		}
	}
	// a last acknowledgement names what is expected next
	for _, x := range cs {
		if x.ended || len(x.arrived) == 0 {
			continue
		}
		x := x
		if !c.Eventually(5*time.Second, func() bool { judge(x); return x.lastAck == x.max+1 }) {
			c.FailTimed("ack", "caller %d: everything up to offset %d has arrived or been given up, acknowledged is offset %d", x.idx, x.max, x.lastAck)
		}
		c.Count("acks", x.acked)
	}
	// the end
	for _, x := range cs {
		if !x.ended {
			x.Shutdown()
		}
	}
	for _, x := range cs {
		x := x
		if !c.Eventually(5*time.Second, func() bool { _, n, _ := k.state(x.idx); return n == 1 }) {
			_, n, _ := k.state(x.idx)
			c.FailTimed("shutdown", "caller %d: the session ended %d times after a shutdown", x.idx, n)
		}
		x.data(seq(x, x.max+1), payload(r, uint32(x.idx), 1<<40))
		if x.idx == 0 && x.Ping(30*time.Millisecond) {
			c.Fail("shutdown", "a keepalive is answered after the end of the session")
		}
	}
	l.Close()
	time.Sleep(5 * time.Millisecond)
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.sess) != len(cs) {
		c.Fail("session", "%d callers, %d sessions", len(cs), len(k.sess))
	}
	for i, s := range k.sess {
		x := cs[i]
		if s.closed != 1 || s.late > 0 {
			c.Fail("shutdown", "session %d ended %d times, %d payloads came after that", i, s.closed, s.late)
		}
		last := int64(-1)
		seen := map[int64]bool{}
		for _, b := range s.got {
			if len(b) < 12 || binary.BigEndian.Uint32(b) != uint32(i) {
				c.Fail("payload", "session %d was given % x", i, b)
			}
			o := int64(binary.BigEndian.Uint64(b[4:]))
			if !bytes.Equal(b, x.sent[o]) || !x.arrived[o] {
				c.Fail("payload", "session %d was given a payload of %d bytes nobody sent", i, len(b))
			}
			if o <= last {
				c.Fail("order", "session %d was given offset %d after %d", i, o, last)
			}
			last = o
			seen[o] = true
		}
		for n, o := range x.must {
			if !seen[o] && (k.stop == 0 || n < k.stop) {
				c.Fail("lost", "session %d: offset %d arrived after all before it and was not delivered", i, o)
			}
		}
		c.Count("delivered", len(s.got))
	}
	c.Nontrivial("%d", c.Idx)
}

func compact(l []span) (o []span) {
	for _, g := range l {
		if g.a >= 0 {
			o = append(o, g)
		}
	}
	return
}

// runIdle: a peer that answers for itself keeps its session, a silent one does
// not keep it for ever.
func runIdle(c *vh.C) {
	e := env(c)
	r := c.R
	addr := e.Port()
	k := &sink{}
	l := listen(c, addr, k.open)
	defer l.Close()
	var ps [3]*SRT
	for i := range ps {
		s, err := NewSRT(r, e.IP, addr)
		if err != nil {
			panic(err)
		}
		defer s.Close()
		s.MustOpen(c)
		ps[i] = s
	}
	t := time.Now()
	for n := 0; ; n++ { // 0: keepalives, 1: data, 2: silence
		if !ps[0].Ping(c.D(10 * time.Second)) {
			c.FailTimed("keepalive", "no answer to a keepalive %v after the handshake", time.Since(t).Round(time.Second))
		}
		ps[1].Send(payload(r, 1, uint64(n)))
		time.Sleep(500 * time.Millisecond)
		ps[0].Ping(time.Second)
		for i := 0; i < 2; i++ {
			if _, cl, _ := k.state(i); cl > 0 {
				c.Fail("session", "the session of a live peer ended after %v", time.Since(t).Round(time.Second))
			}
		}
		if got, _, _ := k.state(1); got != n+1 {
			c.FailTimed("data", "%d of %d payloads were delivered", got, n+1)
		}
		_, cl, _ := k.state(2)
		if cl > 0 && time.Since(t) > 11*time.Second {
			break
		}
		if time.Since(t) > c.D(30*time.Second) {
			c.FailTimed("silent", "the session of a silent peer is kept for %v", time.Since(t).Round(time.Second))
		}
	}
	c.Count("idle_checked", 1)
	c.Nontrivial("%d", c.Idx)
}

func runC31(c *vh.C) {
	if c.Idx == 3 {
		runIdle(c)
		return
	}
	e := env(c)
	r := c.R
	addr := e.Port()
	k := &sink{}
	l := listen(c, addr, k.open)
	defer l.Close()
	type peer struct {
		*SRT
		cookies []uint32
		sess    int // index of the session, -1 none
		want    [][]byte
		n       int
	}
	var ps []*peer
	for i := 0; i < 2+r.Intn(4); i++ {
		s, err := NewSRT(r, e.IP, addr)
		if err != nil {
			panic(err)
		}
		defer s.Close()
		ps = append(ps, &peer{SRT: s, sess: -1})
	}
	// a witness whose keepalives tell when everything before was handled
	wit, _ := NewSRT(r, e.IP, addr)
	defer wit.Close()
	wit.MustOpen(c)
	sync := func() {
		if !wit.Ping(c.D(10 * time.Second)) {
			c.FailTimed("others", "the witness session is not answered any more")
		}
	}
	sync()
	nsess := k.n()
	if nsess != 1 {
		c.Fail("session", "%d sessions after one handshake", nsess)
	}
	quiet := func(p *peer, i int, what string) {
		for _, q := range p.In(i) {
			if q.Ctrl && q.Type == 0 {
				c.Fail("unanswered", "%s is answered", what)
			}
		}
	}
	closedWant := map[int]bool{}
	verify := func(what string) {
		sync()
		if k.n() != nsess {
			c.Fail("session", "%s: %d sessions, should be %d", what, k.n(), nsess)
		}
		for i := 0; i < nsess; i++ {
			_, cl, late := k.state(i)
			if (cl > 0) != closedWant[i] || cl > 1 || late > 0 {
				c.Fail("session", "%s: session %d has ended %d times (%d payloads later), should have ended: %v", what, i, cl, late, closedWant[i])
			}
		}
		for pi, p := range ps {
			if p.sess < 0 {
				continue
			}
			k.mu.Lock()
			got := k.sess[p.sess].got
			k.mu.Unlock()
			if len(got) != len(p.want) {
				c.Fail("data", "%s: caller %d's session was given %d payloads, should be %d", what, pi, len(got), len(p.want))
			}
			for j := range got {
				if !bytes.Equal(got[j], p.want[j]) {
					c.Fail("data", "%s: payload %d of caller %d is % x…, should be % x…", what, j, pi, got[j][:8], p.want[j][:8])
				}
			}
		}
	}
	waitHS := func(p *peer, i int, req srt.HS, magic bool, what string) srt.HS {
		pk, h, err := p.answer(i, req.Type, c.D(5*time.Second))
		if err != nil {
			c.FailTimed("noreply", "%s is not answered", what)
		}
		if pk.Dest != req.ID {
			c.Fail("reply", "%s: the reply is addressed to %#x, the caller's socket id is %#x", what, pk.Dest, req.ID)
		}
		if err := p.badReply(pk, h, req, magic); err != nil {
			c.Fail("reply", "%s: %v", what, err)
		}
		return h
	}
	flood := c.Idx%40 == 7
	steps := 10 + r.Intn(30)
	for st := 0; st < steps; st++ {
		p := ps[r.Intn(len(ps))]
		i := p.N()
		var what string
		op := r.Intn(14)
		c.Count(fmt.Sprintf("op:%d", op), 1)
		switch op {
		case 0, 1: // induction, perhaps repeated
			req := p.Induction()
			if r.Intn(4) == 0 {
				req.Version, req.Ext, req.MTU, req.Window = pick(r, uint32(4), 5), pick(r, uint16(2), 0, 0x4a17), r.Uint32(), r.Uint32()
				req.Enc = pick(r, uint16(0), 2, 4)
			}
			what = fmt.Sprintf("induction of %#x (session %d)", req.ID, p.sess)
			p.handshake(req)
			h := waitHS(p, i, req, true, what)
			if p.Cookie != 0 && h.Cookie != p.Cookie && p.sess < 0 {
				c.Count("new_cookies", 1)
			}
			p.Cookie = h.Cookie
			p.cookies = append(p.cookies, h.Cookie)
		case 2, 3, 4: // conclusion with the cookie
			if p.Cookie == 0 {
				continue
			}
			req := p.Conclusion()
			again := p.sess >= 0
			what = fmt.Sprintf("conclusion of %#x (session %d)", req.ID, p.sess)
			p.handshake(req)
			h := waitHS(p, i, req, false, what)
			if again && h.ID != p.Peer {
				c.Fail("reply", "%s: repeated, answered with socket id %#x after %#x", what, h.ID, p.Peer)
			}
			if !again {
				for _, q := range ps {
					if q != p && q.sess >= 0 && q.Peer == h.ID {
						c.Fail("reply", "%s: two sessions have the socket id %#x", what, h.ID)
					}
				}
				p.Peer = h.ID
				p.sess = nsess
				p.want = nil
				nsess++
				c.Count("sessions", 1)
			} else {
				c.Count("repeated", 1)
			}
		case 5: // a wrong cookie
			q := ps[r.Intn(len(ps))]
			req := p.Conclusion()
			req.Cookie = pick(r, 0, p.Cookie+1, p.Cookie^0x80000000, r.Uint32(), q.Cookie)
			if q == p && req.Cookie == q.Cookie || req.Cookie == p.Cookie {
				req.Cookie = p.Cookie + 2
			}
			what = fmt.Sprintf("conclusion of %#x with a wrong cookie", req.ID)
			p.handshake(req)
			sync()
			quiet(p, i, what)
		case 6, 7, 8, 9: // data
			n := 1 + r.Intn(5)
			what = fmt.Sprintf("data of %#x (session %d)", p.ID, p.sess)
			for ; n > 0; n-- {
				p.n++
				b := payload(r, p.ID, uint64(p.n))
				if p.sess >= 0 {
					p.want = append(p.want, b)
					p.Send(b)
				} else {
					p.data(pick(r, p.ISN, 0, r.Uint32()), b)
				}
			}
			c.Count("data", 1)
		case 10: // data for the session of another
			q := ps[r.Intn(len(ps))]
			if q == p || p.sess >= 0 {
				continue
			}
			what = "data from a stranger to the session of another"
			p.raw(srt.Packet{Seq: q.next, Info: 3 << 30, Dest: q.Peer, Body: payload(r, 99, 1)}.Bytes())
			if r.Intn(2) == 0 {
				what = "a shutdown from a stranger"
				p.raw(srt.Packet{Ctrl: true, Type: 5, Dest: q.Peer}.Bytes())
			}
		case 11: // the end
			what = fmt.Sprintf("shutdown (session %d)", p.sess)
			p.Shutdown()
			if p.sess >= 0 {
				closedWant[p.sess] = true
			}
			p.sess = -1
			p.renewKeep()
		case 12: // another caller on the same address
			if p.Cookie == 0 || r.Intn(2) == 0 {
				continue
			}
			old := p.sess
			ck := p.Cookie
			p.renew()
			req := p.Induction()
			what = fmt.Sprintf("new caller %#x on the address of session %d", p.ID, old)
			p.handshake(req)
			h := waitHS(p, i, req, true, what)
			p.Cookie = h.Cookie
			_ = ck
			i = p.N()
			req = p.Conclusion()
			p.handshake(req)
			h = waitHS(p, i, req, false, what)
			if old >= 0 {
				closedWant[old] = true
			}
			p.Peer = h.ID
			p.sess = nsess
			p.want = nil
			nsess++
			c.Count("replaced", 1)
		case 13: // handshakes of other kinds, and scraps
			what = "handshake scraps"
			for n := 0; n < 4; n++ {
				h := p.Conclusion()
				h.Type = pick(r, uint32(0), 0xfffffffe, 1002, 0x7fffffff, 2)
				b := srt.Packet{Ctrl: true, Body: h.Bytes()}.Bytes()
				if r.Intn(2) == 0 {
					b = b[:r.Intn(len(b))]
					if len(b) >= 16+48 {
						b = b[:40]
					}
				}
				if len(b) >= 2 && b[0] == 0x80 && b[1] == 5 {
					continue
				}
				p.raw(b)
			}
			sync()
			quiet(p, i, what)
		}
		c.Trace("%s", what)
		verify(what)
		if flood && st == steps/2 {
			c.Trace("flood")
			var us []*SRT
			for j := 0; j < 1200; j++ {
				u, err := NewSRT(r, e.IP, addr)
				if err != nil {
					break
				}
				us = append(us, u)
				u.handshake(u.Induction())
				if j%20 == 0 {
					sync()
				}
			}
			c.Count("flooded", len(us))
			sync()
			fresh, _ := NewSRT(r, e.IP, addr)
			fresh.MustOpen(c)
			nsess++
			fresh.Shutdown()
			closedWant[nsess-1] = true
			verify("after a flood of inductions")
			fresh.Close()
			for _, u := range us {
				u.Close()
			}
		}
	}
	// everybody is served in the end
	for _, p := range ps {
		if p.sess >= 0 {
			continue
		}
		p.renew()
		p.MustOpen(c)
		p.sess, p.want = nsess, nil
		nsess++
		b := payload(r, p.ID, 1<<30)
		p.want = append(p.want, b)
		p.Send(b)
	}
	verify("at the end")
	c.Nontrivial("%d", c.Idx)
}

// renewKeep starts anew with the old cookie at hand.
func (s *SRT) renewKeep() {
	ck := s.Cookie
	s.renew()
	s.Cookie = ck
}
