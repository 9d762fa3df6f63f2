package net

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vharness/media"
	"vharness/ref/flv"
	"vharness/ref/rtmp"
	"vharness/ref/rtp"
	"vharness/ref/rtsp"
	"vharness/ref/sdp"
	"vharness/ref/ws"
	"vharness/vh"
)

// View is a viewer of a stream over any protocol.
type View struct {
	Proto            string
	Live             *Live
	NoVideo, NoAudio bool
	HEVC             bool
	JoinAt           int // frames published when it joined
	Got              int64

	mu     sync.Mutex
	items  []*Item
	last   int    // highest frame matched
	lastK  [2]int // audio, video
	first  int
	err    error
	end    string // how the stream ended, "" while it goes on
	endAt  time.Time
	gate   chan struct{} // closed: reads on
	delay  time.Duration
	closed bool
	extra  []string
	clean  bool // RTMP: told the end of the stream

	closer func(abrupt bool)

	RC   *rtmp.Client
	WS   *ws.Conn
	SC   *rtsp.Conn
	SDP  *sdp.Session
	HTTP *http.Response
	conn net.Conn

	tracks [2]*track
	udp    []*net.UDPConn
	pongs  [][]byte
	gone   chan struct{} // WebSocket: the connection has ended
}

type track struct {
	on    bool
	ch    byte
	pt    uint8
	seq   int
	ssrc  uint32
	seen  bool
	dep   *rtp.Depack
	au    [][]byte
	auTS  uint32
	lost  int
	n     int
	audio bool
	opus  bool
	port  int  // the server's UDP port
	skip  bool // the rest of a damaged access unit
	rate  int
}

func newView(proto string, l *Live) *View {
	v := &View{Proto: proto, Live: l, JoinAt: len(l.Frames()), last: -1, first: -1, lastK: [2]int{-1, -1}, gate: make(chan struct{})}
	close(v.gate)
	return v
}

func (v *View) String() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	return fmt.Sprintf("%s viewer of %s/%s: %d items, last %d, end %q, err %v, %v", v.Proto, v.Live.App, v.Live.Name, len(v.items), v.last, v.end, v.err, v.extra)
}

func (v *View) Items() []*Item {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.items[:len(v.items):len(v.items)]
}

func (v *View) Last() int { v.mu.Lock(); defer v.mu.Unlock(); return v.last }

// caughtUp reports that the viewer has got every frame it should have by now.
func (v *View) caughtUp(want int) bool {
	if !v.Live.Loose && v.Proto != "rtsp-udp" {
		return v.Last() >= want
	}
	wantK := [2]int{-1, -1}
	for i, f := range v.Live.Frames() {
		if coded(f) && !(v.NoVideo && f.Kind == 9) && !(v.NoAudio && f.Kind == 8) {
			wantK[f.Kind&1] = i
		}
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	for k, w := range wantK {
		if w < 0 || v.lastK[k] >= w {
			continue
		}
		if v.lastK[k] >= 0 || v.first < 0 || !v.Live.Loose && w > v.first {
			return false
		}
	}
	return true
}

func (v *View) Err() error { v.mu.Lock(); defer v.mu.Unlock(); return v.err }
func (v *View) End() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.end
}

// Lost counts UDP packets that did not arrive.
func (v *View) Lost() int {
	v.mu.Lock()
	defer v.mu.Unlock()
	n := 0
	for _, t := range v.tracks {
		if t != nil {
			n += t.lost
		}
	}
	return n
}

// Check fails the case if the viewer saw something wrong.
func (v *View) Check(c *vh.C) {
	if n := v.Lost(); n > 0 {
		c.FailTimed("udp-loss", "%s lost %d UDP packets", v, n)
	}
	if err := v.Err(); err != nil {
		v.failer(c)("viewer:"+v.Proto, "%s: %v", v, err)
	}
}

// failer: datagrams from the publisher may get lost; such a case must fail
// again, alone.
func (v *View) failer(c *vh.C) func(key, f string, a ...interface{}) {
	if v.Live.Loose {
		return c.FailTimed
	}
	return c.Fail
}

func (v *View) fail(f string, a ...interface{}) {
	v.mu.Lock()
	if v.err == nil {
		v.err = fmt.Errorf(f, a...)
	}
	v.mu.Unlock()
}

func (v *View) setEnd(how string) {
	v.mu.Lock()
	if v.end == "" {
		v.end, v.endAt = how, time.Now()
	}
	v.mu.Unlock()
}

// Pause stops reading; Resume goes on.
func (v *View) Pause()  { v.mu.Lock(); v.gate = make(chan struct{}); v.mu.Unlock() }
func (v *View) Resume() { v.mu.Lock(); close(v.gate); v.mu.Unlock() }
func (v *View) Slow(d time.Duration) {
	v.mu.Lock()
	v.delay = d
	v.mu.Unlock()
}

func (v *View) wait() {
	v.mu.Lock()
	g, d := v.gate, v.delay
	v.mu.Unlock()
	<-g
	if d > 0 {
		time.Sleep(d)
	}
}

// Close ends the viewer.
func (v *View) Close(abrupt bool) {
	v.mu.Lock()
	if v.closed {
		v.mu.Unlock()
		return
	}
	v.closed = true
	select {
	case <-v.gate:
	default:
		close(v.gate)
	}
	v.mu.Unlock()
	v.closer(abrupt)
}

func (v *View) isClosed() bool { v.mu.Lock(); defer v.mu.Unlock(); return v.closed }

func (v *View) tag(kind byte, ts uint32, body []byte) {
	it := &Item{Kind: kind, TS: ts, Body: body, At: time.Now()}
	v.add(it, v.Live.matchTag(it, v.Last()))
}

func (v *View) add(it *Item, err error) {
	atomic.AddInt64(&v.Got, 1)
	v.mu.Lock()
	defer v.mu.Unlock()
	if err != nil {
		if v.err == nil {
			v.err = fmt.Errorf("item %d: %v", len(v.items), err)
		}
		return
	}
	if v.closed {
		return
	}
	v.items = append(v.items, it)
	if coded(v.Live.frame(it.Idx)) {
		k := it.Kind & 1 // 9: 1, 8: 0
		if v.first < 0 {
			v.first = it.Idx
		}
		if it.Idx > v.lastK[k] {
			v.lastK[k] = it.Idx
		}
		if it.Idx > v.last {
			v.last = it.Idx
		}
	}
}

func abruptClose(c net.Conn, abrupt bool) {
	if abrupt {
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
	}
	c.Close()
}

const dialT = 10 * time.Second

// dial connects, with a small receive buffer if rcv says so.
func dial(addr string, rcv ...int) (net.Conn, error) {
	d := net.Dialer{Timeout: dialT}
	if len(rcv) > 0 && rcv[0] > 0 {
		d.Control = func(_, _ string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) {
				syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, rcv[0])
				syscall.SetsockoptInt(int(fd), syscall.IPPROTO_TCP, syscall.TCP_MAXSEG, 1400)
			})
		}
	}
	return d.Dial("tcp", addr)
}

// ViewRTMP plays the stream.
func ViewRTMP(addr string, r *rand.Rand, l *Live, rcv ...int) (*View, error) {
	conn, err := dial(addr, rcv...)
	if err != nil {
		return nil, err
	}
	c := rtmp.NewClient(conn)
	var gated atomic.Pointer[View]
	c.Gate = func(*rtmp.Msg) {
		if v := gated.Load(); v != nil {
			v.wait()
		}
	}
	conn.SetDeadline(time.Now().Add(dialT))
	if err := c.Handshake(r, nil); err != nil {
		conn.Close()
		return nil, err
	}
	conn.SetDeadline(time.Time{})
	c.Start()
	if err := c.Connect(l.App, dialT); err != nil {
		c.Close()
		return nil, err
	}
	v, err := viewRTMPOn(c, l)
	if err == nil {
		gated.Store(v)
	}
	return v, err
}

// viewRTMPOn plays on a connected session.
func viewRTMPOn(c *rtmp.Client, l *Live) (*View, error) {
	v := newView("rtmp", l)
	v.RC, v.conn = c, c.Conn
	v.closer = func(a bool) { abruptClose(c.Conn, a) }
	from := c.Len()
	if err := c.Play(l.Name, dialT); err != nil {
		c.Close()
		return nil, err
	}
	go func() {
		i := from
		for {
			m, k, err := c.Wait(i, time.Hour, func(*rtmp.Msg) bool { return true })
			if err != nil {
				if e, ok := err.(rtmp.ErrProto); ok {
					v.fail("illegal chunk stream: %v", e)
				} else if err == io.ErrUnexpectedEOF && !v.isClosed() {
					v.fail("connection ended inside a message")
				}
				v.setEnd("closed")
				return
			}
			i = k + 1
			v.rtmpMsg(m)
		}
	}()
	return v, nil
}

func (v *View) rtmpMsg(m *rtmp.Msg) {
	switch m.Type {
	case 8, 9, 18:
		if v.End() != "" {
			v.fail("media after the end of the stream")
			return
		}
		v.tag(m.Type, m.TS, m.Body)
	case 20:
		r, err := rtmp.ParseCmd(m)
		if err != nil {
			v.fail("%v", err)
			return
		}
		if r.Code() == "NetStream.Play.UnpublishNotify" {
			v.setEnd("notify")
		}
	case 4:
		v.mu.Lock()
		v.extra = append(v.extra, fmt.Sprintf("ctl %x", m.Body))
		v.mu.Unlock()
	}
}

// ViewFLV plays over HTTP. The paused state must be set before: reading begins
// at once.
func ViewFLV(addr string, l *Live, rcv ...int) (*View, error) {
	v := newView("flv", l)
	conn, err := dial(addr, rcv...)
	if err != nil {
		return nil, err
	}
	v.conn = conn
	v.closer = func(a bool) { abruptClose(conn, a) }
	fmt.Fprintf(conn, "GET /%s/%s.flv HTTP/1.1\r\nHost: %s\r\nUser-Agent: v\r\n\r\n", pathEsc(l.App), pathEsc(l.Name), addr)
	br := bufio.NewReaderSize(conn, 4<<10)
	conn.SetReadDeadline(time.Now().Add(dialT))
	resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
	if err != nil {
		conn.Close()
		return nil, fmt.Errorf("flv response: %w", err)
	}
	v.HTTP = resp
	if resp.StatusCode != 200 {
		conn.Close()
		return v, fmt.Errorf("flv: status %d", resp.StatusCode)
	}
	conn.SetReadDeadline(time.Time{})
	if ct := resp.Header.Get("Content-Type"); ct != "video/x-flv" {
		v.fail("content type %q", ct)
	}
	go v.readFLV(resp.Body, nil)
	return v, nil
}

func pathEsc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '.' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func (v *View) readFLV(r io.Reader, done func()) {
	how := "closed"
	defer func() {
		v.setEnd(how)
		if done != nil {
			done()
		}
	}()
	v.wait()
	if err := flv.ReadHeader(r); err != nil {
		if strings.HasPrefix(err.Error(), "flv:") {
			v.fail("%v", err)
		}
		return
	}
	for {
		v.wait()
		t, err := flv.ReadTag(r)
		if err != nil {
			if _, ok := err.(flv.ErrFormat); ok {
				v.fail("%v", err)
			} else if err == io.ErrUnexpectedEOF && !v.isClosed() {
				v.mu.Lock()
				v.extra = append(v.extra, "cut")
				v.mu.Unlock()
				how = "cut"
			} else if err == io.EOF {
				how = "eof"
			}
			return
		}
		v.tag(t.Type, t.TS, t.Data)
	}
}

// ViewWS plays over WebSocket.
func ViewWS(addr string, r *rand.Rand, l *Live, style int, rcv ...int) (*View, error) {
	v := newView("ws", l)
	conn, err := dial(addr, rcv...)
	if err != nil {
		return nil, err
	}
	c, err := ws.Upgrade(conn, addr, "/"+pathEsc(l.App)+"/"+pathEsc(l.Name)+".flv", r, style, dialT)
	if err != nil {
		return nil, err
	}
	v.onWS(c)
	return v, nil
}

// onWS plays on an upgraded connection.
func (v *View) onWS(c *ws.Conn) {
	v.WS, v.conn = c, c.Conn
	v.closer = func(a bool) { abruptClose(c.Conn, a) }
	v.gone = make(chan struct{})
	pr, pw := io.Pipe()
	go v.readFLV(pr, func() { pr.Close() })
	go func() {
		defer close(v.gone)
		for {
			v.wait()
			f, err := c.Read()
			if err != nil {
				if _, ok := err.(ws.ErrProto); ok {
					v.fail("%v", err)
				} else if err == io.ErrUnexpectedEOF && !v.isClosed() {
					v.mu.Lock()
					v.extra = append(v.extra, "cut frame")
					v.mu.Unlock()
				}
				pw.CloseWithError(io.EOF)
				return
			}
			switch f.Op {
			case 2:
				if _, err := pw.Write(f.Payload); err != nil {
					return
				}
			case 8:
				v.mu.Lock()
				v.extra = append(v.extra, fmt.Sprintf("close %x", f.Payload))
				v.mu.Unlock()
				pw.CloseWithError(io.EOF)
				// nothing may follow
				if f, err := c.Read(); err == nil {
					v.fail("frame %d after the close frame", f.Op)
				}
				return
			case 10:
				v.mu.Lock()
				v.pongs = append(v.pongs, f.Payload)
				v.mu.Unlock()
			case 9:
			default:
				v.fail("frame with opcode %d", f.Op)
			}
		}
	}()
}

// RTSPOpt is how a player sets up.
type RTSPOpt struct {
	UDP              bool
	NoVideo, NoAudio bool
	AudioFirst       bool
	ChV, ChA         int
	Rcv              int
	Range            bool
}

// ViewRTSP goes through DESCRIBE, SETUP and PLAY. It waits while the server
// has no header yet (503).
func ViewRTSP(addr string, r *rand.Rand, l *Live, o RTSPOpt) (*View, error) {
	proto := "rtsp"
	if o.UDP {
		proto = "rtsp-udp"
	}
	v := newView(proto, l)
	nc, err := dial(addr, o.Rcv)
	if err != nil {
		return nil, err
	}
	c := rtsp.New(nc)
	c.OnFrame = func(f *rtsp.Frame) {
		v.wait()
		v.interleaved(f)
	}
	c.Start()
	v.SC, v.conn = c, c.Conn
	v.closer = func(a bool) {
		abruptClose(c.Conn, a)
		for _, u := range v.udp {
			u.Close()
		}
	}
	ok := false
	defer func() {
		if !ok {
			v.Close(false)
		}
	}()
	base := "rtsp://" + addr + "/" + l.App + "/" + l.Name
	rep, err := c.Do(dialT, "DESCRIBE", base, []string{"Accept: application/sdp"}, nil)
	if err != nil {
		return nil, err
	}
	if rep.Code != 200 {
		return nil, Status{"DESCRIBE", rep.Code}
	}
	if rep.H["content-type"] != "application/sdp" {
		return nil, fmt.Errorf("DESCRIBE content type %q", rep.H["content-type"])
	}
	rep0 := string(rep.Body)
	s, err := sdp.Parse(rep.Body)
	if err != nil {
		return nil, fmt.Errorf("SDP: %v\n%s", err, rep.Body)
	}
	v.SDP = s
	ms := append([]*sdp.Media{}, s.Media...)
	if o.AudioFirst && len(ms) == 2 {
		ms[0], ms[1] = ms[1], ms[0]
	}
	hasV, hasA := false, false
	for _, m := range ms {
		audio := m.Kind == "audio"
		if audio && o.NoAudio || !audio && o.NoVideo {
			continue
		}
		t := &track{on: true, audio: audio}
		if len(m.PTs) != 1 {
			return nil, fmt.Errorf("payload types %v", m.PTs)
		}
		t.pt = uint8(m.PTs[0])
		rm := m.RTPMap[m.PTs[0]]
		if audio {
			fmt.Sscanf(rm[strings.IndexByte(rm, '/')+1:], "%d", &t.rate)
			t.opus = strings.HasPrefix(strings.ToLower(rm), "opus/")
			hasA = true
		} else {
			hasV = true
			v.HEVC = strings.HasPrefix(strings.ToUpper(rm), "H265/")
			t.dep = &rtp.Depack{HEVC: v.HEVC}
		}
		url := m.Control
		if !strings.Contains(url, "://") {
			url = base + "/" + url
		}
		var tr string
		if o.UDP {
			a, b, err := udpPair(c.LocalAddr().(*net.TCPAddr).IP)
			if err != nil {
				return nil, err
			}
			v.udp = append(v.udp, a, b)
			p := a.LocalAddr().(*net.UDPAddr).Port
			tr = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d", p, p+1)
			if r.Intn(2) == 0 {
				tr = fmt.Sprintf("RTP/AVP/UDP;unicast;client_port=%d-%d", p, p+1)
			}
			idx := 0
			if audio {
				idx = 1
			}
			go v.readUDP(a, idx)
		} else {
			ch := o.ChV
			if audio {
				ch = o.ChA
			}
			t.ch = byte(ch)
			tr = fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", ch, ch+1)
		}
		v.mu.Lock()
		if audio {
			v.tracks[1] = t
		} else {
			v.tracks[0] = t
		}
		v.mu.Unlock()
		rep, err := c.Do(dialT, "SETUP", url, []string{"Transport: " + tr}, nil)
		if err != nil {
			return nil, err
		}
		if rep.Code != 200 {
			return nil, Status{"SETUP", rep.Code}
		}
		if rep.H["session"] == "" {
			return nil, fmt.Errorf("SETUP reply without session: %v", rep)
		}
		got := rep.H["transport"]
		want := fmt.Sprintf("interleaved=%d-%d", t.ch, int(t.ch)+1)
		if o.UDP {
			want = tr[strings.Index(tr, "client_port"):]
		}
		if !strings.Contains(got, want) {
			return nil, fmt.Errorf("SETUP with transport %q answered with %q", tr, got)
		}
		if o.UDP {
			i := strings.Index(got, "server_port=")
			if i < 0 {
				return nil, fmt.Errorf("SETUP reply without server_port: %q", got)
			}
			v.mu.Lock()
			fmt.Sscanf(got[i:], "server_port=%d", &t.port)
			v.mu.Unlock()
		}
	}
	v.NoVideo, v.NoAudio = !hasV, !hasA
	h := []string(nil)
	if o.Range {
		h = []string{"Range: npt=0.000-"}
	}
	rep, err = c.Do(dialT, "PLAY", base, h, nil)
	if err != nil {
		return nil, err
	}
	if rep.Code != 200 {
		if !hasV && !hasA {
			return nil, fmt.Errorf("PLAY: status %d; nothing to set up (%+v) in SDP %q", rep.Code, o, rep0)
		}
		return nil, Status{"PLAY", rep.Code}
	}
	go func() {
		err := c.WaitEnd(time.Hour)
		if e, ok := err.(rtsp.ErrProto); ok {
			v.fail("%v", e)
		} else if err == io.ErrUnexpectedEOF && !v.isClosed() {
			v.fail("connection ended inside a frame")
		}
		v.setEnd("closed")
	}()
	ok = true
	return v, nil
}

// Status is an error reply.
type Status struct {
	Method string
	Code   int
}

func (s Status) Error() string { return fmt.Sprintf("%s: status %d", s.Method, s.Code) }

func udpPair(ip net.IP) (*net.UDPConn, *net.UDPConn, error) {
	for i := 0; i < 200; i++ {
		a, err := net.ListenUDP("udp4", &net.UDPAddr{IP: ip})
		if err != nil {
			return nil, nil, err
		}
		p := a.LocalAddr().(*net.UDPAddr).Port
		if p%2 == 0 {
			if b, err := net.ListenUDP("udp4", &net.UDPAddr{IP: ip, Port: p + 1}); err == nil {
				a.SetReadBuffer(4 << 20)
				return a, b, nil
			}
		}
		a.Close()
	}
	return nil, nil, fmt.Errorf("no UDP port pair")
}

func (v *View) readUDP(u *net.UDPConn, idx int) {
	b := make([]byte, 65536)
	for {
		n, from, err := u.ReadFromUDP(b)
		if err != nil {
			return
		}
		v.wait()
		v.mu.Lock()
		port := v.tracks[idx].port
		v.mu.Unlock()
		if from.Port != port {
			v.fail("track %d: RTP packet from port %d, the reply said %d", idx, from.Port, port)
			return
		}
		v.packet(idx, append([]byte{}, b[:n]...), true)
	}
}

func (v *View) interleaved(f *rtsp.Frame) {
	v.mu.Lock()
	tracks := v.tracks
	v.mu.Unlock()
	for i, t := range tracks {
		if t != nil && t.ch == f.Ch {
			v.packet(i, f.Data, false)
			return
		}
		if t != nil && t.ch+1 == f.Ch {
			return // RTCP
		}
	}
	v.fail("interleaved frame on channel %d which was not set up", f.Ch)
}

// packet takes an RTP packet of track 0 (video) or 1 (audio).
func (v *View) packet(idx int, b []byte, udp bool) {
	v.mu.Lock()
	t := v.tracks[idx]
	v.mu.Unlock()
	p, err := rtp.Parse(b)
	if err != nil {
		v.fail("track %d: %v", idx, err)
		return
	}
	if p.PT != t.pt {
		v.fail("track %d: payload type %d, SDP says %d", idx, p.PT, t.pt)
		return
	}
	if t.seen && p.SSRC != t.ssrc {
		v.fail("track %d: SSRC changed", idx)
		return
	}
	v.mu.Lock()
	lossy := false
	if t.seen && uint16(t.seq+1) != p.Seq {
		if !udp {
			v.mu.Unlock()
			v.fail("track %d: sequence number %d after %d", idx, p.Seq, t.seq)
			return
		}
		t.lost++
		lossy = true
	}
	t.seen, t.ssrc, t.seq = true, p.SSRC, int(p.Seq)
	t.n++
	v.mu.Unlock()
	if idx == 1 {
		if !p.Marker {
			v.fail("audio packet without marker")
		}
		if t.opus {
			it := &Item{Kind: 8, TS: p.TS, RTP: true, Body: p.Payload, At: time.Now()}
			v.add(it, v.Live.matchRTP(it))
			return
		}
		aus, err := rtp.AAC(p.Payload)
		if err != nil || len(aus) != 1 {
			v.fail("audio payload: %d frames, %v", len(aus), err)
			return
		}
		it := &Item{Kind: 8, TS: p.TS, RTP: true, Body: aus[0], At: time.Now()}
		v.add(it, v.Live.matchRTP(it))
		return
	}
	if lossy {
		t.dep = &rtp.Depack{HEVC: v.HEVC}
		t.au, t.skip = nil, true
	}
	if t.skip {
		if p.Marker {
			t.skip = false
		}
		return
	}
	nals, err := t.dep.Push(p.Payload)
	if err != nil {
		v.fail("video payload: %v", err)
		return
	}
	if len(t.au) > 0 && t.auTS != p.TS {
		v.fail("RTP timestamp %d after %d within an access unit (no marker on its last packet)", p.TS, t.auTS)
		return
	}
	t.auTS = p.TS
	t.au = append(t.au, nals...)
	if p.Marker {
		if t.dep.Open() || len(t.au) == 0 {
			v.fail("marker inside a fragmented NAL unit")
			return
		}
		it := &Item{Kind: 9, TS: p.TS, RTP: true, NALs: t.au, At: time.Now()}
		t.au = nil
		v.add(it, v.Live.matchRTP(it))
	}
}

func (l *Live) frame(i int) *media.Frame {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.frames[i]
}

// Viewer says how to view.
type Viewer struct {
	Proto string // rtmp flv ws rtsp rtsp-udp
	Rcv   int
	Style int
	RTSP  RTSPOpt
}

var tagProtos = []string{"rtmp", "flv", "ws"}

// randViewer is a viewer of one of the protocols.
func randViewer(r *rand.Rand, protos ...string) Viewer {
	k := pick(r, protos...)
	w := Viewer{Proto: k, Style: r.Intn(4)}
	w.RTSP = RTSPOpt{UDP: k == "rtsp-udp", AudioFirst: r.Intn(2) == 0, Range: r.Intn(2) == 0}
	w.RTSP.ChV = r.Intn(120)
	w.RTSP.ChA = w.RTSP.ChV + 2 + r.Intn(100)
	if r.Intn(2) == 0 {
		w.RTSP.ChV, w.RTSP.ChA = 0, 2
	}
	return w
}

// View opens a viewer on the plain server, or the full one.
func (e *Env) View(r *rand.Rand, l *Live, w Viewer) (*View, error) {
	rt, fl, rs := e.RTMP, e.FLV, e.RTSP
	if l.App != appLive && l.App != appTwo {
		rt, fl, rs = e.FRTMP, e.FFLV, e.FRTSP
	}
	switch w.Proto {
	case "rtmp":
		return ViewRTMP(rt, r, l, w.Rcv)
	case "flv":
		return ViewFLV(fl, l, w.Rcv)
	case "ws":
		return ViewWS(fl, r, l, w.Style, w.Rcv)
	}
	w.RTSP.Rcv = w.Rcv

	return ViewRTSP(rs, r, l, w.RTSP)
}

// MustView views or fails the case.
func (e *Env) MustView(c *vh.C, l *Live, w Viewer) *View {
	v, err := e.View(c.R, l, w)
	for t := time.Now(); err == error(Status{"DESCRIBE", 503}) && time.Since(t) < c.D(10*time.Second); {
		time.Sleep(2 * time.Millisecond) // the headers are on their way
		v, err = e.View(c.R, l, w)
	}
	if err != nil {
		c.FailTimed("view:"+w.Proto, "viewing %s/%s over %s: %v", l.App, l.Name, w.Proto, err)
	}
	return v
}
