package net

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtmp"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/rtmp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C38", Quick: 24, Thorough: 700, Workers: 12, Setup: func(w *vh.Worker) { w.State = &Env{IP: w.IP, port: 3000} }, CaseTimeout: 300 * time.Second,
		Technique: "runtime monitoring: reference upstream servers with scripted faults feed the real pull client; independent strict protocol clients of the local server record every message and an oracle compares the logs with what upstream sent",
		Rule:      "each case is a server with several pulls from reference upstream servers; every upstream follows its own script of absences, hang-ups at every step of the session, refusals, garbage and streams (all codecs, configuration changes, all chunk styles) with every kind of end, with local publishers of the same name before and during them; viewers over RTMP, HTTP-FLV, WebSocket and RTSP; distinct by script and stream",
		LevelNote: "held on the histories tried; each retry is awaited for twice the time since the last success and ten seconds",
		Run:       runC38})
}

// upstream is a reference RTMP server with one stream, and the history it
// is to have.
type upstream struct {
	c              *vh.C
	e              *Env
	r              *rand.Rand
	addr           string
	app, play, url string
	name           string // local name
	script         []string
	step           int
	mu             sync.Mutex
	ln             net.Listener
	conns          chan net.Conn
	success        time.Time // last media
	seen           time.Time // last attempt, or when the upstream came up
	upAt           time.Time // when to listen again
	taken          *Pub      // local publisher in the way
	takenV         *View
	takenF         []*media.Frame
	takenN         int
	takenAt        int
	gen            int
	data           []*media.Frame // data messages sent before the stream
	quiet          bool           // send none
	attempts       int
}

func (u *upstream) String() string {
	return fmt.Sprintf("pull of %s as %s, script %v step %d", u.url, u.name, u.script, u.step)
}

func (u *upstream) listen() {
	ln, err := net.Listen("tcp", u.addr)
	if err != nil {
		u.c.Inconclusive("listen %s: %v", u.addr, err)
		return
	}
	u.mu.Lock()
	u.ln = ln
	u.mu.Unlock()
	u.seen = time.Now()
	go func() {
		for {
			cn, err := ln.Accept()
			if err != nil {
				return
			}
			u.conns <- cn
		}
	}()
}

func (u *upstream) down() {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.ln != nil {
		u.ln.Close()
		u.ln = nil
	}
}

// hang-up points
const (
	atAccept = iota
	atHello
	atHandshake
	atConnect
	atConnected
	atStream
	atPlay
	atPlaying
	nPoints
)

type hungUp struct{}

func (hungUp) Error() string { return "hung up as planned" }

// serve answers the client up to a point and returns the session. reason
// is what the client did wrong.
func (u *upstream) serve(cn net.Conn, stop int, refuse string) (cl *rtmp.Client, err error) {
	r := u.r
	d := u.c.D(10 * time.Second)
	cn.SetDeadline(time.Now().Add(d))
	if stop == atAccept {
		return nil, hungUp{}
	}
	if stop == atHello {
		b := make([]byte, 1+r.Intn(1537))
		if _, err := io.ReadFull(cn, b); err != nil {
			return nil, err
		}
		s := make([]byte, r.Intn(3073))
		r.Read(s)
		if len(s) > 0 {
			s[0] = 3
		}
		cn.Write(s)
		return nil, hungUp{}
	}
	if err := rtmp.Accept(r, cn, cn, nil, nil); err != nil {
		return nil, err
	}
	if stop == atHandshake {
		return nil, hungUp{}
	}
	cn.SetDeadline(time.Time{})
	seg := &segmenter{Conn: cn, r: rand.New(rand.NewSource(r.Int63())), on: r.Intn(3) == 0}
	cl = rtmp.NewClient(seg)
	cl.Start()
	q, err := cl.WaitCmd(0, d, func(p *rtmp.Reply) bool { return p.Name == "connect" })
	if err != nil {
		return nil, fmt.Errorf("waiting for connect: %v", err)
	}
	if a, _ := q.Prop("app").(string); a != u.app {
		return nil, fmt.Errorf("connect to application %q", a)
	}
	if t, _ := q.Prop("tcUrl").(string); t != "rtmp://"+strings.TrimSuffix(u.addr, ":1935")+"/"+u.app {
		return nil, fmt.Errorf("connect with tcUrl %q", t)
	}
	if stop == atConnect {
		return cl, hungUp{}
	}
	data := func(vals ...interface{}) {
		if u.quiet {
			return
		}
		b := amf0.Enc(vals...)
		u.data = append(u.data, &media.Frame{Kind: 18, Body: b})
		cl.SendMsg(&rtmp.Msg{CSID: 5, Type: 18, MSID: 1, Body: b}, 0)
	}
	u.data = nil
	ctl := func() {
		l := []*rtmp.Msg{{CSID: 2, Type: 5, Body: rtmp.U32(uint32(100000 + r.Intn(5000000)))}, {CSID: 2, Type: 6, Body: append(rtmp.U32(uint32(100000+r.Intn(5000000))), byte(r.Intn(3)))}, {CSID: 2, Type: 4, Body: rtmp.UserCtl(0, 0)}, {CSID: 2, Type: 3, Body: rtmp.U32(0)}, {CSID: 2, Type: 4, Body: rtmp.UserCtl(6, r.Uint32())}}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for _, m := range l[:r.Intn(len(l)+1)] {
			cl.SendMsg(m, 0)
		}
		if r.Intn(2) == 0 {
			cl.SetChunkSize(pick(r, 128, 129, 1000, 4096, 60000, 65536))
		}
	}
	cmd := func(vals ...interface{}) error {
		return cl.SendMsg(&rtmp.Msg{CSID: 3, Type: 20, Body: amf0.Enc(vals...)}, 0)
	}
	ctl()
	if r.Intn(3) == 0 {
		cmd("onBWDone", 0.0, nil, 8192.0)
	}
	if refuse == "connect" {
		cmd("_error", q.Txn, nil, amf0.Obj{{K: "level", V: "error"}, {K: "code", V: "NetConnection.Connect.Rejected"}, {K: "description", V: "no"}})
		return cl, hungUp{}
	}
	early := func(name string) error { // commands build on the answers to those before
		if r.Intn(4) == 0 {
			if _, err := cl.WaitCmd(0, 60*time.Millisecond, func(p *rtmp.Reply) bool { return p.Name == name }); err == nil {
				return fmt.Errorf("%s before the command it depends on was answered", name)
			}
		}
		return nil
	}
	if err := early("createStream"); err != nil {
		return nil, err
	}
	cmd("_result", q.Txn, amf0.Obj{{K: "fmsVer", V: "FMS/3,0,1,123"}, {K: "capabilities", V: 31.0}}, amf0.Obj{{K: "level", V: "status"}, {K: "code", V: "NetConnection.Connect.Success"}, {K: "description", V: "ok"}, {K: "objectEncoding", V: 0.0}})
	if r.Intn(3) == 0 {
		cmd("onBWDone", 0.0, nil)
	}
	if stop == atConnected {
		return cl, hungUp{}
	}
	if q, err = cl.WaitCmd(0, d, func(p *rtmp.Reply) bool { return p.Name == "createStream" }); err != nil {
		return nil, fmt.Errorf("waiting for createStream: %v", err)
	}
	if stop == atStream {
		return cl, hungUp{}
	}
	if refuse == "createStream" {
		cmd("_error", q.Txn, nil, amf0.Obj{{K: "level", V: "error"}, {K: "code", V: "NetConnection.Call.Failed"}})
		return cl, hungUp{}
	}
	if err := early("play"); err != nil {
		return nil, err
	}
	cmd("_result", q.Txn, nil, 1.0)
	if q, err = cl.WaitCmd(0, d, func(p *rtmp.Reply) bool { return p.Name == "play" }); err != nil {
		return nil, fmt.Errorf("waiting for play: %v", err)
	}
	n := ""
	if len(q.Args) > 1 {
		n, _ = q.Args[1].(string)
	}
	if n != u.play {
		return nil, fmt.Errorf("play of %q (%v)", n, q.Args)
	}
	if stop == atPlay {
		return cl, hungUp{}
	}
	status := func(level, code string) {
		cl.SendMsg(&rtmp.Msg{CSID: 5, Type: 20, MSID: 1, Body: amf0.Enc("onStatus", 0.0, nil, amf0.Obj{{K: "level", V: level}, {K: "code", V: code}, {K: "description", V: "d"}, {K: "details", V: u.play}})}, 0)
	}
	if refuse == "play" {
		status("error", pick(r, "NetStream.Play.StreamNotFound", "NetStream.Play.Failed"))
		return cl, hungUp{}
	}
	if r.Intn(2) == 0 {
		ctl()
	}
	if r.Intn(3) > 0 {
		cl.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(0, 1)}, 0)
	}
	if r.Intn(2) == 0 {
		status("status", "NetStream.Play.Reset")
	}
	status("status", "NetStream.Play.Start")
	if r.Intn(3) == 0 {
		data("|RtmpSampleAccess", true, true)
	}
	if r.Intn(3) == 0 {
		data("onStatus", amf0.Obj{{K: "code", V: "NetStream.Data.Start"}})
	}
	if r.Intn(3) == 0 {
		status("status", "NetStream.Play.PublishNotify")
	}
	if stop == atPlaying {
		return cl, hungUp{}
	}
	return cl, nil
}

// session is a streaming upstream session in the shape of a publisher.
func (u *upstream) session(cl *rtmp.Client, l *Live) *Pub {
	seg := cl.Conn.(*segmenter)
	s := RandStyle(u.r)
	seg.on = s.Segment
	return &Pub{Client: cl, Live: l, S: s, r: u.r, seg: seg}
}

func (u *upstream) stream(n int, zoo bool) ([]*media.Frame, string) {
	r := u.r
	u.gen++
	o := media.Opt{Meta: r.Intn(2) == 0, Jitter: r.Intn(2) == 0, Start: startTS(r), GOP: pick(r, 0, 4, 8), CTS: r.Intn(2) == 0, Change: r.Intn(2) == 0, MaxSize: pick(r, 60, 1000, 9000), PlainAVC: true,
		ID: uint64(u.c.Idx+1)<<36 | uint64(len(u.name))<<20 | uint64(u.gen)<<44 | uint64(r.Intn(1<<10))<<24}
	return genFrames(u.c, n, zoo, o)
}

// media streams to local viewers and ends.
func (u *upstream) media(cn net.Conn, end string) error {
	c, r := u.c, u.r
	cl, err := u.serve(cn, -1, "")
	if err != nil {
		return err
	}
	u.success = time.Now()
	fs, desc := u.stream(30+r.Intn(120), true)
	l := NewLive(appLive, u.name)
	l.Add(u.data...)
	p := u.session(cl, l)
	c.Trace("%s: %s, %d frames, style %v, end %s", u.name, desc, len(fs), p.S, end)
	defer cl.Close()
	k := firstKey(fs)
	var vs []*View
	defer func() {
		for _, v := range vs {
			v.Close(false)
		}
	}()
	zoo := strings.HasPrefix(desc, "zoo")
	protos := []string{"rtmp", "flv", "ws"}
	if !zoo && !strings.Contains(desc, "hevc true") {
		protos = append(protos, "rtsp")
	}
	// a session that has begun but not brought media leaves the name free
	feed(c, p, fs[:k+1], 100)
	join := func(from int, protos ...string) {
		vs = append(vs, u.e.MustView(c, l, randViewer(r, protos...)))
	}
	join(k, "rtmp", "flv", "ws")
	join(k, protos...)
	l.Sync(c, "at the start of a pull", vs...)
	early := len(vs)
	var rival bool
	for i := k + 1; i < len(fs); {
		if end == "quiet" { // nothing to send for a while is no reason to end
			time.Sleep(31 * time.Second)
			end = "close"
			c.Count("quiet_streams", 1)
		}
		m := 1 + r.Intn(40)
		if i+m > len(fs) {
			m = len(fs) - i
		}
		feed(c, p, fs[i:i+m], 100, vs...)
		i += m
		if len(vs) < 4 && r.Intn(4) == 0 {
			join(-1, protos...)
		}
		if !rival && r.Intn(4) == 0 { // the name is taken
			rival = true
			if q, err := Publish(u.e.RTMP, r, NewLive(appLive, u.name), Plain()); err == nil {
				q.Client.Close()
				c.Fail("two-publishers", "%s: a local publisher was let in beside the pull", u)
			} else if _, ok := err.(rtmp.Refused); !ok {
				c.FailTimed("rival", "%s: a local publisher was not refused: %v", u, err)
			}
			c.Count("rivals_refused", 1)
		}
	}
	l.Sync(c, "at the end of a pull", vs...)
	switch end {
	case "notify":
		cl.SendMsg(&rtmp.Msg{CSID: 5, Type: 20, MSID: 1, Body: amf0.Enc("onStatus", 0.0, nil, amf0.Obj{{K: "level", V: "status"}, {K: "code", V: pick(r, "NetStream.Play.UnpublishNotify", "NetStream.Play.Stop")}, {K: "description", V: "d"}})}, 0)
	case "eof+notify":
		cl.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(1, 1)}, 0)
		cl.SendMsg(&rtmp.Msg{CSID: 5, Type: 20, MSID: 1, Body: amf0.Enc("onStatus", 0.0, nil, amf0.Obj{{K: "level", V: "status"}, {K: "code", V: "NetStream.Play.UnpublishNotify"}})}, 0)
	default:
		p.End(end)
	}
	awaitEnd(c, vs...)
	fk := -1
	for i, f := range l.Frames() {
		if f == fs[k] {
			fk = i
		}
	}
	for i, v := range vs {
		o := RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: i < early}
		if i < early && !zoo && v.SC == nil {
			o.From = fk
		}
		checkRun(c, v, o)
	}
	u.success = time.Now()
	c.Count("streams_pulled", 1)
	c.Count("frames_pulled", len(fs))
	c.Nontrivial("%s %d %s", u.url, u.step, desc)
	return nil
}

// attempt handles a connection of the pull client.
func (u *upstream) attempt(cn net.Conn) {
	c, r := u.c, u.r
	u.attempts++
	u.seen = time.Now()
	c.Count("attempts", 1)
	keep := false
	defer func() {
		if !keep {
			closeHow(cn, pick(r, "close", "close", "reset"))
		}
		u.seen = time.Now()
	}()
	if u.step >= len(u.script) {
		return
	}
	st := u.script[u.step]
	u.step++
	c.Count("step_"+strings.SplitN(st, ":", 2)[0], 1)
	bad := func(err error) {
		c.FailTimed("client", "%s: %s: the pull client: %v", u, st, err)
	}
	what, arg, _ := strings.Cut(st, ":")
	switch what {
	case "hangup":
		var p int
		fmt.Sscan(arg, &p)
		if _, err := u.serve(cn, p, ""); err != (hungUp{}) {
			bad(err)
		}
	case "silent": // a session that does not come about is given up
		var p int
		fmt.Sscan(arg, &p)
		cl, err := u.serve(cn, p, "")
		if err != (hungUp{}) {
			bad(err)
		}
		if cl != nil {
			err = cl.WaitEnd(60 * time.Second)
		} else {
			cn.SetReadDeadline(time.Now().Add(60 * time.Second))
			if _, err = io.Copy(io.Discard, cn); err != nil && strings.Contains(err.Error(), "timeout") {
				err = rtmp.ErrTimeout
			}
		}
		if err == rtmp.ErrTimeout {
			c.FailTimed("stays", "%s: %s: the upstream has gone silent, but the pull waits on", u, st)
		}
	case "refuse":
		cl, err := u.serve(cn, -1, arg)
		if err != (hungUp{}) {
			bad(err)
		}
		// it gives up by itself
		if err := cl.WaitEnd(c.D(10 * time.Second)); err == rtmp.ErrTimeout {
			c.FailTimed("stays", "%s: refused with an error, but the pull keeps the connection", u)
		}
	case "garbage":
		b := randBytes(r, 1+r.Intn(6000))
		if arg == "late" {
			cl, err := u.serve(cn, -1, "")
			if err != nil {
				bad(err)
			}
			b = cl.W.Encode(&rtmp.Msg{CSID: 40, Type: 127, MSID: 1, Body: []byte{1, 2}}, 0)
			cl.Write(b)
			if err := cl.WaitEnd(c.D(10 * time.Second)); err == rtmp.ErrTimeout {
				c.FailTimed("stays", "%s: a message of an undefined type, but the pull keeps the connection", u)
			}
			return
		}
		b[0] = 77
		cn.Write(b)
	case "media":
		if err := u.media(cn, arg); err != nil {
			bad(err)
		}
	case "nomedia":
		// an upstream with nothing to offer must not keep the name
		u.quiet = true
		cl, err := u.serve(cn, -1, "")
		u.quiet = false
		if err != nil {
			bad(err)
		}
		p := u.session(cl, NewLive(appLive, u.name))
		p.Barrier(c)
		local := u.local()
		feed(c, local, u.takenF, 60, u.takenV)
		if r.Intn(2) == 0 { // and when it does offer it, it is too late
			foreign, _ := u.stream(20, false)
			p.Send(foreign...)
		} else {
			cl.Close()
		}
		if err := cl.WaitEnd(c.D(10 * time.Second)); err == rtmp.ErrTimeout {
			c.FailTimed("stays", "%s: the name is taken, but the pull goes on", u)
		}
		more, _ := u.stream(20, false)
		feed(c, local, more, 60, u.takenV)
		u.endLocal(true)
	}
}

// local publishes under the pull's local name.
func (u *upstream) local() *Pub {
	c, r := u.c, u.r
	fs, _ := u.stream(25, false)
	l := NewLive(appLive, u.name)
	p, err := Publish(u.e.RTMP, r, l, Plain())
	if err != nil {
		c.FailTimed("local", "%s: local publisher: %v", u, err)
	}
	k := firstKey(fs)
	feed(c, p, fs[:k+1], 100)
	u.taken, u.takenF = p, fs[k+1:]
	u.takenV = u.e.MustView(c, l, randViewer(r, "rtmp", "flv", "ws"))
	l.Sync(c, "local", u.takenV)
	return p
}

func (u *upstream) endLocal(strict bool) {
	c := u.c
	u.taken.Live.Sync(c, "local", u.takenV)
	u.taken.End(pubEnds[u.r.Intn(len(pubEnds))])
	awaitEnd(c, u.takenV)
	checkRun(c, u.takenV, RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: true})
	u.takenV.Close(false)
	u.taken.Client.Close()
	u.taken, u.takenV = nil, nil
	u.seen = time.Now()
	c.Count("local_publishers", 1)
}

// tick does what is due; it reports whether the script is done.
func (u *upstream) tick() bool {
	c, r := u.c, u.r
	if u.step >= len(u.script) && u.taken == nil {
		return true
	}
	// steps that begin without a connection
	if u.step < len(u.script) && u.taken == nil && u.upAt.IsZero() {
		switch u.script[u.step] {
		case "absent":
			u.step++
			c.Count("step_absent", 1)
			u.down()
			u.upAt = time.Now().Add(time.Duration(200+r.Intn(2500)) * time.Millisecond)
		case "taken":
			u.step++
			c.Count("step_taken", 1)
			u.local()
			u.takenN = len(u.takenF)
			u.takenAt = u.attempts + 1
		}
	}
	if !u.upAt.IsZero() {
		if time.Now().Before(u.upAt) {
			return false
		}
		u.upAt = time.Time{}
		u.listen()
	}
	select {
	case cn := <-u.conns:
		if u.taken != nil { // the client must leave the local stream alone, whatever is offered
			u.attempts++
			u.seen = time.Now()
			c.Count("attempts_while_taken", 1)
			cl, err := u.serve(cn, -1, "")
			if t, ok := err.(net.Error); ok && t.Timeout() || err == rtmp.ErrTimeout {
				c.FailTimed("kept-open", "%s: the name is taken; the connection of attempt %d is kept open and not used: %v", u, u.attempts, err)
			}
			if err == nil {
				foreign, _ := u.stream(20, false)
				p := u.session(cl, NewLive(appLive, u.name))
				p.Send(foreign...)
			}
			cn.Close()
			return false
		}
		u.attempt(cn)
		return false
	default:
	}
	if u.taken != nil {
		if len(u.takenF) > 0 {
			n := 1 + r.Intn(8)
			if n > len(u.takenF) {
				n = len(u.takenF)
			}
			feed(c, u.taken, u.takenF[:n], 50, u.takenV)
			u.takenF = u.takenF[n:]
		} else if u.attempts >= u.takenAt || time.Since(u.success) > 20*time.Second || r.Intn(2000) == 0 {
			u.endLocal(false)
		}
	}
	base := u.success
	limit := min(2*time.Since(base)+10*time.Second, 75*time.Second)
	if u.attempts == 0 { // it has not had to wait for long
		limit = 20 * time.Second
	}
	if time.Since(u.seen) > c.D(limit) && u.upAt.IsZero() {
		c.FailTimed("no-retry", "%s: no attempt for %v, %v after the last success", u, time.Since(u.seen).Round(time.Millisecond), time.Since(base).Round(time.Millisecond))
	}
	return false
}

func runC38(c *vh.C) {
	r := c.R
	we := env(c)
	e := &Env{IP: we.IP}
	e.RTMP, e.FLV, e.RTSP = we.Port(), we.Port(), we.Port()
	s := librtmp.NewServer(e.RTMP, appLive, appTwo).WithHTTPFlv(e.FLV).WithRTSP(e.RTSP)
	n := 3 + r.Intn(6)
	g0, f0 := serverGoroutines(), openFiles()
	var us []*upstream
	if c.Idx < 4 {
		n = 1
	}
	for i := 0; i < n; i++ {
		u := &upstream{c: c, e: e, r: rand.New(rand.NewSource(r.Int63())), addr: we.Port(), app: pick(r, "up", "live", "a.b", "Up"), name: fmt.Sprintf("p%d_%d", c.Idx, i), conns: make(chan net.Conn, 64), success: time.Now(), seen: time.Now()}
		u.play = pick(r, "x", "cam1", "a/b", "x_"+u.name, u.name, "Cam 1", "ä%")
		if k := c.Idx / 8; i == 0 && k < 150 && r.Intn(3) == 0 || c.Idx == 3 { // the default port, on an address of this case
			u.addr = fmt.Sprintf("127.%d.%s:1935", 80+k, strings.SplitN(e.IP, ".", 3)[2])
			c.Count("default_port", 1)
		}
		u.url = "rtmp://" + strings.TrimSuffix(u.addr, ":1935") + "/" + u.app + "/" + strings.ReplaceAll(url.PathEscape(u.play), "%2F", "/")
		if u.play == u.name {
			u.url = strings.TrimSuffix(u.url, "/"+u.play)
		}
		var sc []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			switch r.Intn(10) {
			case 0:
				sc = append(sc, "absent")
			case 1, 2:
				sc = append(sc, fmt.Sprintf("hangup:%d", r.Intn(nPoints)))
			case 3:
				sc = append(sc, "refuse:"+pick(r, "connect", "createStream", "play"))
			case 4:
				sc = append(sc, "garbage:"+pick(r, "early", "late"))
			case 5:
				sc = append(sc, "taken")
			case 6:
				sc = append(sc, "nomedia")
			default:
				sc = append(sc, "media:"+pick(r, "close", "reset", "half", "garbage", "midchunk", "notify", "eof+notify"))
			}
		}
		switch c.Idx {
		case 0:
			sc = []string{"media:quiet"}
		case 1:
			sc = []string{fmt.Sprint("silent:", pick(r, atAccept, atHello))}
		case 2:
			sc = []string{fmt.Sprint("silent:", pick(r, atHandshake, atConnect, atConnected, atStream))}
		}
		u.script = append(sc, "media:"+pick(r, "close", "notify", "reset"))
		if u.script[0] != "absent" {
			u.listen()
		} else {
			u.step = 1
			u.upAt = time.Now().Add(time.Duration(200+r.Intn(2500)) * time.Millisecond)
		}
		us = append(us, u)
		s = s.WithRTMPPull(u.url, appLive, u.name)
		c.Trace("%s: %s %v", u.name, u.url, u.script)
	}
	defer func() {
		for _, u := range us {
			u.down()
			for {
				select {
				case cn := <-u.conns:
					cn.Close()
					continue
				default:
				}
				break
			}
			if u.takenV != nil {
				u.takenV.Close(false)
			}
			if u.taken != nil {
				u.taken.Client.Close()
			}
		}
	}()
	// a pull whose local application is not there cannot use a connection
	var nowhere net.Listener
	var mu sync.Mutex
	tried, open := 0, 0
	if r.Intn(3) == 0 {
		addr := we.Port()
		ln, err := net.Listen("tcp", addr)
		if err != nil {
			c.Inconclusive("listen %s: %v", addr, err)
			return
		}
		defer ln.Close()
		nowhere = ln
		s = s.WithRTMPPull("rtmp://"+addr+"/up/x", "nosuchapp", "x")
		go func() {
			for {
				cn, err := ln.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				tried++
				open++
				mu.Unlock()
				go func() {
					io.Copy(io.Discard, cn)
					cn.Close()
					mu.Lock()
					open--
					mu.Unlock()
				}()
			}
		}()
	}
	go s.Handler()
	waitPort(e.RTMP, e.FLV, e.RTSP)
	for {
		done := true
		for _, u := range us {
			d := u.tick()
			done = done && d
			if d {
				u.down()
				for len(u.conns) > 0 {
					(<-u.conns).Close()
				}
			}
		}
		if done {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if nowhere != nil {
		nowhere.Close()
		if !c.Eventually(10*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return open == 0 }) {
			c.FailTimed("kept-open", "a pull for an application that is not configured keeps its connections open")
		}
		c.Count("attempts_without_application", tried)
	}
	// nothing is left but the listeners and the pulls, which keep trying
	var left string
	ok := c.Eventually(15*time.Second, func() bool {
		m := map[string]int{}
		for _, fn := range diff(g0, serverGoroutines()) {
			m[fn]++
		}
		x := 0
		for fn, k := range m {
			if strings.Contains(fn, "Handler") || strings.Contains(fn, "handle") || fn == "http.conn" {
				continue
			}
			x += k
		}
		var socks []string
		for _, f := range diff(f0, openFiles()) {
			if strings.HasPrefix(f, "socket:") {
				socks = append(socks, f)
			}
		}
		left = fmt.Sprintf("goroutines %v, %d sockets", m, len(socks))
		return x == 0 && len(socks) <= 3+1
	})
	if !ok {
		c.FailTimed("left-behind", "after the ends of all pulled streams: %s", left)
	}
	c.Count("pulls", n)
}
