package net

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libsrt"

	"vharness/ref/srt"
	"vharness/vh"
)

// SRT is a caller on one UDP socket.
type SRT struct {
	*net.UDPConn
	r      *rand.Rand
	to     *net.UDPAddr
	ID     uint32 // ours
	Peer   uint32 // the listener's
	ISN    uint32
	Cookie uint32
	next   uint32 // sequence number of the next packet of Send
	msg    uint32
	t0     time.Time
	mu     sync.Mutex
	cond   *sync.Cond
	in     []srt.Packet
	err    error
	nka    int
}

func NewSRT(r *rand.Rand, ip, to string) (*SRT, error) {
	a, err := net.ResolveUDPAddr("udp", to)
	if err != nil {
		return nil, err
	}
	u, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(ip)})
	if err != nil {
		return nil, err
	}
	u.SetReadBuffer(4 << 20)
	s := &SRT{UDPConn: u, r: r, to: a, t0: time.Now()}
	s.cond = sync.NewCond(&s.mu)
	s.renew()
	go s.read()
	return s, nil
}

// renew chooses the values of a new connection.
func (s *SRT) renew() {
	s.ID = s.r.Uint32()>>1 | 1
	s.ISN = pick(s.r, s.r.Uint32()&srt.Mask, srt.Mask-uint32(s.r.Intn(40)), 0, uint32(s.r.Intn(5)))
	s.next, s.Peer, s.Cookie = s.ISN, 0, 0
}

func (s *SRT) read() {
	buf := make([]byte, 65536)
	for {
		n, _, err := s.ReadFromUDP(buf)
		if err != nil {
			return
		}
		p, err := srt.Parse(append([]byte(nil), buf[:n]...))
		s.mu.Lock()
		if err != nil && s.err == nil {
			s.err = err
		}
		s.in = append(s.in, p)
		s.cond.Broadcast()
		s.mu.Unlock()
	}
}

// In is a copy of what has come from position i on.
func (s *SRT) In(i int) []srt.Packet {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]srt.Packet(nil), s.in[i:]...)
}

func (s *SRT) N() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.in) }

// Wait returns the first packet from position i on that f accepts.
func (s *SRT) Wait(i int, d time.Duration, f func(p *srt.Packet) bool) (*srt.Packet, error) {
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { s.mu.Lock(); s.cond.Broadcast(); s.mu.Unlock() })
	defer t.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		for ; i < len(s.in); i++ {
			if f(&s.in[i]) {
				p := s.in[i]
				return &p, nil
			}
		}
		if !time.Now().Before(end) {
			return nil, fmt.Errorf("srt: no answer")
		}
		s.cond.Wait()
	}
}

func (s *SRT) raw(b []byte) { s.WriteToUDP(b, s.to) }

func (s *SRT) ctrl(typ uint16, info uint32, body []byte) {
	s.raw(srt.Packet{Ctrl: true, Type: typ, Info: info, TS: uint32(time.Since(s.t0).Microseconds()), Dest: s.Peer, Body: body}.Bytes())
}

func (s *SRT) data(seq uint32, body []byte) {
	s.msg++
	s.raw(srt.Packet{Seq: seq, Info: 3<<30 | uint32(s.r.Intn(2))<<29 | uint32(s.r.Intn(2))<<26 | s.msg&(1<<26-1), TS: uint32(time.Since(s.t0).Microseconds()), Dest: s.Peer, Body: body}.Bytes())
}

// Send sends consecutive payloads.
func (s *SRT) Send(b ...[]byte) {
	for _, p := range b {
		s.data(s.next, p)
		s.next = (s.next + 1) & srt.Mask
	}
}

// Induction and Conclusion are the two steps as callers send them.
func (s *SRT) Induction() srt.HS {
	return srt.HS{Version: 4, Ext: 2, ISN: s.ISN, MTU: 1500, Window: pick(s.r, uint32(8192), 25600), Type: 1, ID: s.ID, IP: [16]byte{1, 0, 0, 127}}
}

func (s *SRT) Conclusion() srt.HS {
	h := srt.HS{Version: 5, ISN: s.ISN, MTU: 1500, Window: pick(s.r, uint32(8192), 25600), Type: 0xffffffff, ID: s.ID, Cookie: s.Cookie, IP: [16]byte{1, 0, 0, 127}}
	if s.r.Intn(2) == 0 { // HSREQ, and perhaps a stream id
		h.Ext = 1
		h.Exts = []byte{0, 1, 0, 3, 0, 1, 5, 3, 0, 0, 0, 0xbf, 0, 120, 0, 120}
		if s.r.Intn(2) == 0 {
			h.Ext = 5
			h.Exts = append(h.Exts, 0, 5, 0, 1, 'd', 'c', 'b', 'a')
		}
	}
	return h
}

func (s *SRT) handshake(h srt.HS) {
	s.raw(srt.Packet{Ctrl: true, TS: uint32(time.Since(s.t0).Microseconds()), Body: h.Bytes()}.Bytes())
}

// answer is the listener's reply to a handshake of that type.
func (s *SRT) answer(i int, typ uint32, d time.Duration) (*srt.Packet, srt.HS, error) {
	var hs srt.HS
	p, err := s.Wait(i, d, func(p *srt.Packet) bool {
		if !p.Ctrl || p.Type != 0 {
			return false
		}
		h, err := srt.ParseHS(p.Body)
		hs = h
		return err == nil && h.Type == typ
	})
	return p, hs, err
}

// badReply tells what is wrong with a reply.
func (s *SRT) badReply(p *srt.Packet, h, req srt.HS, magic bool) error {
	switch {
	case p.Dest != s.ID && p.Dest != req.ID:
		return fmt.Errorf("reply is addressed to %#x, not to the caller's socket id %#x", p.Dest, req.ID)
	case h.Version != 5:
		return fmt.Errorf("reply has version %d", h.Version)
	case magic && h.Ext != 0x4a17:
		return fmt.Errorf("induction reply has extension field %#x", h.Ext)
	case h.ID == 0:
		return fmt.Errorf("reply has no socket id")
	case h.ISN != req.ISN || h.MTU != req.MTU || h.Window != req.Window:
		return fmt.Errorf("reply has ISN %d MTU %d window %d, the caller %d %d %d", h.ISN, h.MTU, h.Window, req.ISN, req.MTU, req.Window)
	case h.Cookie == 0 && magic:
		return fmt.Errorf("induction reply has no cookie")
	case len(h.Exts) == 0 && h.Ext != 0 && !magic:
		return fmt.Errorf("reply announces extensions (%#x) and has none", h.Ext)
	case len(h.Exts) != 0 && h.Ext == 0:
		return fmt.Errorf("reply has %d bytes behind the body, announced none", len(h.Exts))
	}
	return nil
}

// Open goes through both steps.
func (s *SRT) Open(d time.Duration) error {
	for k := 0; ; k++ { // datagrams may get lost
		i := s.N()
		req := s.Induction()
		s.handshake(req)
		p, h, err := s.answer(i, 1, d/4)
		if err != nil {
			if k < 3 {
				continue
			}
			return fmt.Errorf("induction: %v", err)
		}
		if err := s.badReply(p, h, req, true); err != nil {
			return Bad{err}
		}
		s.Cookie = h.Cookie
		i = s.N()
		req = s.Conclusion()
		s.handshake(req)
		p, h, err = s.answer(i, 0xffffffff, d/4)
		if err != nil {
			if k < 3 {
				continue
			}
			return fmt.Errorf("conclusion: %v", err)
		}
		if err := s.badReply(p, h, req, false); err != nil {
			return Bad{err}
		}
		s.Peer = h.ID
		return nil
	}
}

// Bad marks an error as a wrong answer, not a missing one.
type Bad struct{ error }

func (s *SRT) MustOpen(c *vh.C) {
	if err := s.Open(c.D(20 * time.Second)); err != nil {
		if _, ok := err.(Bad); ok {
			c.Fail("handshake", "%v", err)
		}
		c.FailTimed("handshake", "%v", err)
	}
}

// Ping waits until the listener has taken everything sent so far; false if
// the session does not answer.
func (s *SRT) Ping(d time.Duration) bool {
	i := s.N()
	s.ctrl(1, 0, s.pad())
	_, err := s.Wait(i, d, func(p *srt.Packet) bool { return p.Ctrl && p.Type == 1 })
	return err == nil
}

func (s *SRT) Shutdown() { s.ctrl(5, 0, s.pad()) }

// pad is the body of a packet without one: libsrt sends four bytes.
func (s *SRT) pad() []byte { return make([]byte, 4*s.r.Intn(2)) }

// listen runs a listener of its own for a case.
func listen(c *vh.C, addr string, on func(string) (libsrt.DataHandler, func())) *libsrt.Listener {
	l, err := libsrt.Listen(addr, "stream", nil)
	if err != nil {
		panic(err)
	}
	l.OnSession = on
	go func() {
		defer func() {
			if x := recover(); x != nil {
				panic(x)
			}
		}()
		l.Run()
	}()
	return l
}
