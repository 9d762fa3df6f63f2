package net

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"vharness/media"
	"vharness/ref/rtmp"
	"vharness/ref/rtp"
	"vharness/ref/rtsp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C07", Quick: 1000, Thorough: 4000, Setup: setupPlain, Technique: tech,
		Rule:      "2-6 publishers over RTMP and RTSP claim one free name at the same moment, later ones claim the live name; exactly one is accepted, the others are answered with a refusal and then send media all the same, as do players, unpublished and former sessions and strangers' datagrams, while neighbours with the same or a similar name are live; every viewer's log may hold the owner's media only",
		LevelNote: "exploration: seeded contenders released by a barrier; the interleaving is left to the scheduler",
		Run:       runC07})
	vh.Register(&vh.Check{ID: "C08", Quick: 350, Thorough: 3000, Setup: setupPlain, Technique: tech,
		Rule:      "generations of publications of one name, ended in every way over RTMP and RTSP, beside ends of viewers, refused and former publishers and strangers' delete commands; viewers must get everything and then the end, the name must be free for the next generation and nobody else be disturbed",
		LevelNote: "exploration: seeded histories of up to 4 generations",
		Run:       runC08})
}

// AnyPub publishes over either protocol.
type AnyPub struct {
	P    *Pub
	S    *RTSPPub
	Live *Live
}

func (a *AnyPub) Send(fs ...*media.Frame) error {
	if a.S != nil {
		return a.S.Send(fs)
	}
	return a.P.Send(fs...)
}

func (a *AnyPub) Close() {
	if a.S != nil {
		a.S.Close()
	} else {
		a.P.Client.Close()
	}
}

var rtspEnds = []string{"teardown", "close", "reset", "half", "garbage", "midframe"}

// End ends the publication; whether it did so at once with a reply.
func (a *AnyPub) End(c *vh.C, addr, how string) {
	if a.S == nil {
		a.P.End(how)
		return
	}
	switch how {
	case "teardown":
		rep, err := a.S.Do(c.D(10*time.Second), "TEARDOWN", "rtsp://"+addr+"/"+a.Live.App+"/"+a.Live.Name, nil, nil)
		if err != nil || rep.Code != 200 {
			c.FailTimed("teardown", "TEARDOWN of a publisher: %v %v", rep, err)
		}
	case "reset":
		a.S.Conn.Reset()
	case "half":
		if t, ok := a.S.Conn.Conn.(*net.TCPConn); ok {
			t.CloseWrite()
		}
	case "garbage":
		a.S.WriteAll([]byte("nonsense\r\n\r\n"))
	case "midframe":
		a.S.WriteAll([]byte{'$', byte(a.S.anyCh()), 2, 0, 1, 2, 3})
		a.S.Close()
	default:
		a.S.Close()
	}
}

func (p *RTSPPub) anyCh() int {
	for _, t := range p.tracks {
		if t != nil {
			return t.ch
		}
	}
	return 0
}

// refused reports an orderly refusal to publish.
func refused(err error) bool {
	var r rtmp.Refused
	var s Status
	return errors.As(err, &r) && r.Code == "NetStream.Publish.BadName" || errors.As(err, &s) && s.Method == "ANNOUNCE" && s.Code >= 400
}

type contender struct {
	live *Live
	r    *rand.Rand
	fs   []*media.Frame
	vc   *media.Conf
	ac   *media.Conf
	pub  *AnyPub
	rtsp bool
	udp  bool
	err  error
	at   int
}

func newContender(c *vh.C, app, name string, n int, udpOK bool) *contender {
	r := c.R
	k := &contender{live: NewLive(app, name), r: rand.New(rand.NewSource(r.Int63())), rtsp: r.Intn(3) == 0}
	k.udp = k.rtsp && udpOK && r.Intn(3) == 0
	o := media.Opt{Start: uint32(r.Intn(100000)), GOP: pick(r, 3, 10), MaxSize: pick(r, 60, 900), Video: true, Audio: r.Intn(3) > 0}
	if k.rtsp {
		k.fs, k.vc, k.ac = genRTSP(c, n, o)
	} else {
		o.Meta, o.Change, o.CTS = r.Intn(2) == 0, r.Intn(3) == 0, r.Intn(2) == 0
		k.fs, _ = genFrames(c, n, false, o)
	}
	return k
}

// claim tries to publish. The connection stays open if it is refused.
func (k *contender) claim(e *Env, gate func()) {
	if k.rtsp {
		s, err := PublishRTSP(e.RTSP, k.r, k.live, k.vc, k.ac, k.udp, PubOpt{Gate: gate, Keep: true})
		if s != nil {
			s.start = k.fs[0].TS
			k.pub = &AnyPub{S: s, Live: k.live}
		}
		k.err = err
		return
	}
	p, err := prepPub(e.RTMP, k.r, k.live, Plain())
	if err != nil {
		gate()
		k.err = err
		return
	}
	k.pub = &AnyPub{P: p, Live: k.live}
	if _, err := p.Call(0, dialT, "createStream", nil); err != nil {
		k.err = err
	}
	gate()
	if k.err == nil {
		_, k.err = p.Status(dialT, "NetStream.Publish.Start", "publish", p.NextTxn(), nil, k.live.Name, "live")
	}
}

// send publishes the next n frames and waits for the viewers.
func (k *contender) send(c *vh.C, n int, vs ...*View) {
	for n > 0 && k.at < len(k.fs) {
		m := n
		if k.udp && m > 3 {
			m = 3
		}
		if k.at+m > len(k.fs) {
			m = len(k.fs) - k.at
		}
		if err := k.pub.Send(k.fs[k.at : k.at+m]...); err != nil {
			c.Fail("publisher-dropped", "the publisher's connection failed: %v", err)
		}
		k.at += m
		n -= m
		k.live.Sync(c, "while publishing", vs...)
	}
	if k.pub.P != nil && len(vs) == 0 {
		k.pub.P.Barrier(c)
	}
}

// junk makes a refused contender send media all the same.
func (k *contender) junk(c *vh.C, n int) {
	if k.pub == nil {
		return
	}
	if k.at+n > len(k.fs) {
		k.at = 0
	}
	if s := k.pub.S; s != nil {
		for i := range s.tracks { // as if it had been accepted
			if s.tracks[i] == nil {
				s.tracks[i] = &pubTrack{pt: 96 + i, ch: 2 * i}
				if k.udp {
					s.udp = false
				}
			}
		}
	}
	k.pub.Send(k.fs[k.at : k.at+n]...)
	k.at += n
	c.Count("junk_frames", n)
}

// settle waits until the server has taken what the session sent, or dropped it.
func (k *contender) settle() {
	if k.pub == nil {
		return
	}
	if p := k.pub.P; p != nil {
		settleRTMP(p.Client)
		return
	}
	k.pub.S.Do(2*time.Second, "OPTIONS", "*", nil, nil)
}

func settleRTMP(c *rtmp.Client) {
	from := c.Len()
	if c.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, 77)}, 0) == nil {
		c.Wait(from, 2*time.Second, func(m *rtmp.Msg) bool { return m.Type == 4 && len(m.Body) > 1 && m.Body[1] == 7 })
	}
}

// stray is a session that publishes nothing under the name and sends media.
func stray(c *vh.C, e *Env, app, name string, owner *contender) (what string, closer func()) {
	r := c.R
	k := newContender(c, app, name, 12, false)
	k.r = r
	switch kind := r.Intn(7); kind {
	case 0, 1, 2: // connected only, or with a message stream
		what = [...]string{"unconnected session", "connected session", "session with a message stream"}[kind]
		conn, err := dial(e.RTMP)
		if err != nil {
			return what, func() {}
		}
		rc := rtmp.NewClient(conn)
		conn.SetDeadline(time.Now().Add(dialT))
		if rc.Handshake(r, nil) != nil {
			return what, rc.Close
		}
		conn.SetDeadline(time.Time{})
		rc.Start()
		if kind > 0 {
			rc.Connect(app, dialT)
		}
		if kind > 1 {
			rc.Call(0, dialT, "createStream", nil)
			if r.Intn(2) == 0 {
				rc.Call(0, dialT, "releaseStream", nil, name)
				rc.Call(0, dialT, "FCPublish", nil, name)
			}
		}
		p := &Pub{Client: rc, Live: NewLive(app, name), S: Plain(), r: r}
		for _, f := range k.fs {
			if p.Send(f) != nil {
				break
			}
		}
		settleRTMP(rc)
		return what, rc.Close
	case 3:
		what = "player"
		v, err := ViewRTMP(e.RTMP, r, NewLive(app, name)) // its log is not read
		if err != nil {
			return what, func() {}
		}
		p := &Pub{Client: v.RC, Live: NewLive(app, name), S: Plain(), r: r}
		p.Send(k.fs...)
		settleRTMP(v.RC)
		return what, func() { v.Close(false) }
	case 4, 5: // RTSP, not recording
		what = "RTSP session without a publication"
		nc, err := dial(e.RTSP)
		if err != nil {
			return what, func() {}
		}
		s := rtsp.New(nc)
		s.Start()
		rp := &RTSPPub{Conn: s, Live: NewLive(app, name), r: r, Exp: map[*media.Frame]float64{}}
		base := "rtsp://" + e.RTSP + "/" + app + "/" + name
		rp.tracks = [2]*pubTrack{{pt: 96, ch: 0}, {pt: 97, ch: 2}}
		if kind == 5 {
			what = "RTSP player"
			s.Do(dialT, "DESCRIBE", base, nil, nil)
			for i := 0; i < 2; i++ {
				s.Do(dialT, "SETUP", fmt.Sprintf("%s/trackID=%d", base, i), []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*i, 2*i+1)}, nil)
			}
			s.Do(dialT, "PLAY", base, nil, nil)
			if r.Intn(2) == 0 {
				s.Do(dialT, "RECORD", base, nil, nil)
			}
		}
		if k.vc == nil { // any frames do
			k.fs, k.vc, k.ac = genRTSP(c, 12, media.Opt{Video: true, Audio: true, MaxSize: 300})
		}
		rp.vc, rp.ac, rp.lastVC = k.vc, k.ac, k.vc
		rp.Send(k.fs)
		s.Do(2*time.Second, "OPTIONS", "*", nil, nil)
		return what, func() { s.Close() }
	default:
		what = "datagrams of a stranger"
		if !owner.udp || owner.pub == nil || owner.pub.S == nil {
			return "nothing", func() {}
		}
		u, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 99, byte(1+r.Intn(200)), byte(1+r.Intn(200)))})
		if err != nil {
			return what, func() {}
		}
		for _, t := range owner.pub.S.tracks {
			if t == nil {
				continue
			}
			for i := 0; i < 3; i++ {
				pk := rtp.Packet{PT: uint8(t.pt), Seq: t.seq + uint16(i), TS: t.ts + 900000, SSRC: t.ssrc, Marker: true, Payload: append([]byte{0x65, 0x88, 1}, fmt.Sprint("stranger", i)...)}
				u.WriteToUDP(pk.Bytes(), t.to)
			}
		}
		time.Sleep(2 * time.Millisecond)
		return what, func() { u.Close() }
	}
}

func runC07(c *vh.C) {
	if c.Idx%4 == 3 {
		runC07Race(c)
		return
	}
	e := env(c)
	r := c.R
	name := e.Name(c)
	// neighbours
	var near []*contender
	for _, n := range [][2]string{{appTwo, name}, {appLive, name + pick(r, "x", "0", "-1")}, {appLive, name[:len(name)-1] + "_"}} {
		if r.Intn(2) == 0 {
			k := newContender(c, n[0], n[1], 30, false)
			k.rtsp, k.udp = false, false
			near = append(near, k)
		}
	}
	for _, k := range near {
		k.claim(e, func() {})
		if k.err != nil {
			c.FailTimed("publish", "publishing %s/%s: %v", k.live.App, k.live.Name, k.err)
		}
		defer k.pub.Close()
	}
	// the race
	var ks []*contender
	nk := 2 + r.Intn(5)
	for i := 0; i < nk; i++ {
		ks = append(ks, newContender(c, appLive, name, 50, true))
	}
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for _, k := range ks {
		ready.Add(1)
		done.Add(1)
		k := k
		go func() {
			defer done.Done()
			var once sync.Once
			defer once.Do(ready.Done)
			k.claim(e, func() { once.Do(ready.Done); <-start })
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	defer func() {
		for _, k := range ks {
			if k.pub != nil {
				k.pub.Close()
			}
		}
	}()
	var own *contender
	for i, k := range ks {
		c.Trace("contender %d: rtsp %v udp %v: %v", i, k.rtsp, k.udp, k.err)
		if k.err == nil {
			if own != nil {
				c.Fail("two-publishers", "contenders for %s/%s are both accepted", appLive, name)
			}
			own = k
		} else if !refused(k.err) {
			c.FailTimed("no-refusal", "contender %d (rtsp %v) for a name: %v", i, k.rtsp, k.err)
		}
	}
	if own == nil {
		c.Fail("no-publisher", "all %d contenders for a free name are refused", nk)
	}
	c.Count("contenders", nk)
	c.Count(fmt.Sprintf("winner_rtsp:%v", own.rtsp), 1)
	protos := []string{"rtmp", "flv", "ws", "rtsp", "rtsp-udp"}
	var vs []*View
	views := map[*contender][]*View{}
	var closers []func()
	defer func() {
		for _, v := range vs {
			v.Close(false)
		}
		for _, f := range closers {
			f()
		}
	}()
	view := func(k *contender, p ...string) {
		w := randViewer(r, p...)
		v := e.MustView(c, k.live, w)
		c.Trace("%s viewer of %s/%s", w.Proto, k.live.App, k.live.Name)
		vs = append(vs, v)
		views[k] = append(views[k], v)
	}
	upto := func(k *contender) { // through the first keyframe
		k.send(c, firstKey(k.fs)+1)
	}
	trouble := func() {
		switch r.Intn(4) {
		case 0, 1:
			k := ks[r.Intn(len(ks))]
			if k != own {
				k.junk(c, 1+r.Intn(8))
				if k.rtsp && r.Intn(3) == 0 { // insisting
					base := "rtsp://" + e.RTSP + "/" + appLive + "/" + name
					for _, q := range [][2]string{{"SETUP", "/streamid=0"}, {"RECORD", ""}} {
						rep, err := k.pub.S.Do(dialT, q[0], base+q[1], []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1"}, nil)
						if err == nil && rep.Code == 200 && q[0] == "RECORD" {
							c.Fail("refused-records", "a refused RTSP publisher may record: %v", rep)
						}
					}
				}
				k.settle()
			}
		case 2:
			what, f := stray(c, e, appLive, name, own)
			c.Trace("%s sends media", what)
			c.Count("stray:"+what, 1)
			closers = append(closers, f)
		case 3:
			k := newContender(c, appLive, name, 40, true)
			k.claim(e, func() {})
			if k.err == nil {
				c.Fail("two-publishers", "a second publisher (rtsp %v) of the live name is accepted", k.rtsp)
			}
			if !refused(k.err) {
				c.FailTimed("no-refusal", "second publisher (rtsp %v): %v", k.rtsp, k.err)
			}
			c.Count("late_contenders", 1)
			ks = append(ks, k)
			k.junk(c, 1+r.Intn(8))
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		trouble()
	}
	upto(own)
	view(own, "rtmp", "flv")
	view(own, protos...)
	for _, k := range near {
		upto(k)
		view(k, protos...)
	}
	for own.at < len(own.fs) {
		trouble()
		own.send(c, 1+r.Intn(10), views[own]...)
		for _, k := range near {
			if r.Intn(2) == 0 {
				k.send(c, 1+r.Intn(6), views[k]...)
			}
		}
		if len(views[own]) < 5 && r.Intn(3) == 0 {
			view(own, protos...)
		}
	}
	own.live.Sync(c, "at the end", views[own]...)
	own.pub.Close()
	awaitEnd(c, views[own]...)
	for _, k := range near { // they go on
		k.send(c, 3, views[k]...)
		k.live.Sync(c, "at the end", views[k]...)
		k.pub.Close()
		awaitEnd(c, views[k]...)
	}
	for _, v := range vs {
		checkRun(c, v, RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: true})
	}
	c.Nontrivial("%d %d %d", c.Idx, nk, len(near))
}

func runC08(c *vh.C) {
	e := env(c)
	r := c.R
	name := e.Name(c)
	// a bystander
	by := newContender(c, pick(r, appLive, appTwo), name+"b", 60, false)
	by.rtsp = false
	by.claim(e, func() {})
	if by.err != nil {
		c.FailTimed("publish", "%v", by.err)
	}
	defer by.pub.Close()
	by.send(c, firstKey(by.fs)+1)
	protos := []string{"rtmp", "flv", "ws", "rtsp", "rtsp-udp"}
	bv := e.MustView(c, by.live, randViewer(r, protos...))
	defer bv.Close(false)
	var former []*contender
	var open []func()
	defer func() {
		for _, f := range open {
			f()
		}
	}()
	ngen := 2 + r.Intn(3)
	for g := 0; g < ngen; g++ {
		k := newContender(c, appLive, name, 30+r.Intn(20), true)
		// the name was freed by the end of the last generation, which its
		// viewers have seen
		ok := c.Eventually(8*time.Second, func() bool {
			k.claim(e, func() {})
			if k.err == nil {
				return true
			}
			if k.pub != nil {
				k.pub.Close()
			}
			k.live = NewLive(appLive, name)
			return false
		})
		if !ok {
			c.FailTimed("name-not-free", "generation %d: the name cannot be published again: %v", g, k.err)
		}
		open = append(open, k.pub.Close)
		var vs []*View
		join := func(w Viewer) {
			v := e.MustView(c, k.live, w)
			open = append(open, func() { v.Close(false) })
			vs = append(vs, v)
		}
		if r.Intn(4) == 0 && !k.rtsp { // before anything is sent
			join(randViewer(r, tagProtos...))
			if r.Intn(2) == 0 { // and nothing ever is
				for i := r.Intn(3); i > 0; i-- {
					join(randViewer(r, tagProtos...))
				}
				how := pick(r, pubEnds...)
				c.Trace("generation %d: silent, ends by %s", g, how)
				k.pub.End(c, e.RTSP, how)
				awaitEnd(c, vs...)
				for _, v := range vs {
					checkRun(c, v, RunOpt{From: -1, Complete: true})
					if v.Proto == "rtmp" && v.End() != "notify" {
						c.Fail("no-notify", "%v was not told that the silent stream is unpublished", v)
					}
				}
				c.Count("silent_publications", 1)
				continue
			}
		}
		k.send(c, firstKey(k.fs)+1)
		for i := 1 + r.Intn(3); i > 0; i-- {
			join(randViewer(r, protos...))
		}
		c.Trace("generation %d: rtsp %v udp %v", g, k.rtsp, k.udp)
		for _, v := range vs {
			c.Trace("%s viewer", v.Proto)
		}
		k.live.Sync(c, "after joining", vs...)
		// others come and go
		for k.at < len(k.fs)-5 {
			k.send(c, 1+r.Intn(6), vs...)
			if by.at < len(by.fs) {
				by.send(c, 1+r.Intn(2), bv)
			}
			switch r.Intn(7) {
			case 0: // a viewer leaves
				if len(vs) > 1 {
					v := vs[0]
					vs = vs[1:]
					how := r.Intn(4)
					c.Trace("%s viewer leaves (%d)", v.Proto, how)
					leave(v, how)
				}
			case 1: // a refused publisher comes and goes
				x := newContender(c, appLive, name, 10, true)
				x.claim(e, func() {})
				if x.err == nil {
					c.Fail("two-publishers", "a second publisher of the live name is accepted")
				}
				if !refused(x.err) {
					c.FailTimed("no-refusal", "second publisher: %v", x.err)
				}
				how := pick(r, pubEnds...)
				if x.rtsp {
					how = pick(r, rtspEnds...)
				}
				c.Trace("refused publisher (rtsp %v) leaves by %s", x.rtsp, how)
				if x.rtsp && how == "teardown" {
					x.pub.S.Do(dialT, "TEARDOWN", "rtsp://"+e.RTSP+"/"+appLive+"/"+name, nil, nil)
				} else {
					x.pub.End(c, e.RTSP, how)
				}
				x.settle()
				open = append(open, x.pub.Close)
				c.Count("refused_left", 1)
			case 2: // a former publisher goes on or goes away
				if len(former) > 0 {
					f := former[0]
					how := pick(r, "media", "delete", "fcunpublish", "closestream", "close", "reset")
					c.Trace("former publisher (rtsp %v): %s", f.rtsp, how)
					if f.rtsp {
						if how == "media" {
							f.junk(c, 5)
						} else {
							f.pub.Close()
						}
					} else if how == "media" {
						f.junk(c, 5)
						f.settle()
					} else {
						f.pub.P.End(how)
						f.settle()
					}
					if how == "close" || how == "reset" || f.rtsp {
						former = former[1:]
					}
					c.Count("former:"+how, 1)
				}
			case 3: // a stranger deletes
				rc, err := DialRTMP(e.RTMP, appLive, r)
				if err == nil {
					if r.Intn(2) == 0 {
						rc.Call(0, dialT, "createStream", nil)
					}
					switch r.Intn(3) {
					case 0:
						rc.Cmd(0, "deleteStream", rc.NextTxn(), nil, 1.0)
					case 1:
						rc.Cmd(0, "FCUnpublish", rc.NextTxn(), nil, name)
					case 2:
						rc.Cmd(1, "closeStream", rc.NextTxn(), nil)
					}
					settleRTMP(rc)
					open = append(open, rc.Close)
				}
			case 4: // an RTSP session of another kind is torn down
				nc, err := dial(e.RTSP)
				if err == nil {
					s := rtsp.New(nc)
					s.Start()
					base := "rtsp://" + e.RTSP + "/" + appLive + "/" + name
					if r.Intn(2) == 0 {
						s.Do(dialT, "DESCRIBE", base, nil, nil)
					}
					s.Do(dialT, "TEARDOWN", base, nil, nil)
					s.Close()
				}
			}
		}
		// the end
		how := pick(r, pubEnds...)
		if k.rtsp {
			how = pick(r, rtspEnds...)
		}
		c.Trace("ends by %s", how)
		last := k.fs[k.at:]
		switch how {
		case "reset", "close", "midchunk", "midframe": // the rest might not be read any more
			k.send(c, len(last), vs...)
		default:
			if k.udp {
				k.send(c, len(last), vs...)
			} else if err := k.pub.Send(last...); err != nil {
				c.Fail("publisher-dropped", "%v", err)
			}
		}
		for _, v := range vs { // datagrams may be overtaken by the end
			if v.Proto == "rtsp-udp" {
				k.live.Sync(c, "before the end", v)
			}
		}
		for _, v := range append([]*View{bv}, vs...) {
			if v.End() != "" {
				c.Fail("ended-early:"+v.Proto, "%v: the publisher has not ended", v)
			}
		}
		k.pub.End(c, e.RTSP, how)
		awaitEnd(c, vs...)
		for _, v := range vs {
			checkRun(c, v, RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: true})
			if v.Proto == "rtmp" && v.End() != "notify" {
				c.Fail("no-notify", "%v was not told that the stream is unpublished", v)
			}
		}
		if bv.End() != "" {
			c.Fail("ended-early:"+bv.Proto, "%v: another publisher has ended", bv)
		}
		c.Count("ends:"+how, 1)
		if !k.rtsp || how != "close" {
			former = append(former, k)
		}
	}
	by.send(c, len(by.fs)-by.at, bv)
	by.live.Sync(c, "at the end", bv)
	by.pub.Close()
	awaitEnd(c, bv)
	checkRun(c, bv, RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: true})
	c.Nontrivial("%d %d", c.Idx, ngen)
}

// leave ends a viewer's session.
func leave(v *View, how int) {
	switch {
	case how == 0 && v.RC != nil:
		v.RC.Cmd(0, "deleteStream", v.RC.NextTxn(), nil, 1.0)
		settleRTMP(v.RC)
	case how == 1 && v.RC != nil:
		v.RC.Cmd(1, "closeStream", v.RC.NextTxn(), nil)
		settleRTMP(v.RC)
	case how == 0 && v.SC != nil:
		v.SC.Do(dialT, "TEARDOWN", "rtsp://x/"+v.Live.App+"/"+v.Live.Name, nil, nil)
	case how == 0 && v.WS != nil:
		v.WS.Send(8, []byte{3, 232})
		time.Sleep(time.Millisecond)
	}
	v.Close(how == 3)
}

// runC07Race lets prepared sessions claim one free name after the other.
func runC07Race(c *vh.C) {
	e := env(c)
	r := c.R
	base := e.Name(c)
	n := 4 + r.Intn(9)
	rounds := 25
	nrtsp := r.Intn(3)
	var rcs []*rtmp.Client
	defer func() {
		for _, rc := range rcs {
			rc.Close()
		}
	}()
	for i := 0; i < n; i++ {
		rc, err := DialRTMP(e.RTMP, appLive, r)
		if err != nil {
			c.FailTimed("dial", "%v", err)
		}
		rcs = append(rcs, rc)
		if _, err := rc.Call(0, dialT, "createStream", nil); err != nil {
			c.FailTimed("createStream", "%v", err)
		}
	}
	vc, ac := media.NewVideoConf(r, false, uint64(c.Idx+1)<<40), media.NewAudioConf(r, -1)
	for round := 0; round < rounds; round++ {
		name := fmt.Sprintf("%s-%d", base, round)
		errs := make([]error, n+nrtsp)
		start := make(chan struct{})
		var done, ready sync.WaitGroup
		var rs []*RTSPPub
		for i := range rcs {
			i := i
			done.Add(1)
			rcs[i].NextTxn()
			go func() {
				defer done.Done()
				<-start
				_, errs[i] = rcs[i].Status(dialT, "NetStream.Publish.Start", "publish", 5.0, nil, name, "live")
			}()
		}
		rs = make([]*RTSPPub, nrtsp)
		for i := 0; i < nrtsp; i++ {
			i := i
			q := rand.New(rand.NewSource(r.Int63()))
			done.Add(1)
			ready.Add(1)
			go func() {
				defer done.Done()
				var once sync.Once
				defer once.Do(ready.Done)
				rs[i], errs[n+i] = PublishRTSP(e.RTSP, q, NewLive(appLive, name), vc, ac, false, PubOpt{Keep: true, Gate: func() { once.Do(ready.Done); <-start }})
			}()
		}
		ready.Wait()
		time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
		close(start)
		done.Wait()
		won := -1
		for i, err := range errs {
			if err == nil {
				if won >= 0 {
					c.Fail("two-publishers", "sessions %d and %d (of %d, the last %d RTSP) are both accepted as publisher of %s", won, i, len(errs), nrtsp, name)
				}
				won = i
			} else if !refused(err) {
				c.FailTimed("no-refusal", "session %d: %v", i, err)
			}
		}
		if won < 0 {
			c.Fail("no-publisher", "all %d contenders for a free name are refused", len(errs))
		}
		if won < n {
			if _, err := rcs[won].Status(dialT, "NetStream.Unpublish.Success", "deleteStream", 6.0, nil, 1.0); err != nil {
				c.FailTimed("unpublish", "%v", err)
			}
		}
		for _, s := range rs {
			if s != nil {
				s.Close()
			}
		}
		c.Count("races", 1)
	}
	c.Nontrivial("race %d %d", c.Idx, n)
}
