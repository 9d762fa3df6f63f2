package net

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtmp"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/rtmp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C10", Quick: 12000, Thorough: 60000, Setup: setupPlain, Technique: tech,
		Rule:      "handshakes of an independent client (simple, digest schema 0 and 1, offset extremes, time and version fields, zeroed C2, pipelining, segmentation) against the server, and of an independent server against the pulling client; every byte of S0 S1 S2, C0 C1 C2 is judged, then commands are exchanged",
		LevelNote: "exploration: seeded handshakes, every case a different C1",
		Run:       runC10})
}

// cutWrite sends b in pieces.
func cutWrite(r *rand.Rand, conn net.Conn, b []byte, style int) error {
	for len(b) > 0 {
		n := len(b)
		switch style {
		case 1:
			n = 1 + r.Intn(len(b))
		case 2:
			n = 1 + r.Intn(200)
		case 3: // around the borders of the parts
			n = pick(r, 1, 2, 1535, 1536, 1537)
		}
		if n > len(b) {
			n = len(b)
		}
		if _, err := conn.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if style == 3 || r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	return nil
}

func runC10(c *vh.C) {
	switch {
	case c.Idx%6 == 5:
		runC10Pull(c)
	case c.Idx%6 == 4 && c.R.Intn(2) == 0:
		runC10Version(c)
	default:
		runC10Serve(c)
	}
}

func runC10Serve(c *vh.C) {
	e := env(c)
	r := c.R
	digest := r.Intn(3) > 0
	h := rtmp.NewHello(r, digest, r.Intn(2))
	style := r.Intn(4)
	lax := r.Intn(4) == 0
	pipe := lax && r.Intn(2) == 0 // everything at once
	kind := "simple"
	if digest {
		kind = fmt.Sprintf("digest schema %d", h.Schema)
	}
	c.Trace("%s, segmentation %d, zeroed C2 %v, pipelined %v, C1 % x…", kind, style, lax, pipe, h.C1[:16])
	conn, err := dial(e.RTMP)
	if err != nil {
		c.Fail("refused", "%v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(c.D(dialT)))
	rc := rtmp.NewClient(conn)
	name := e.Name(c)
	txn := float64(1 + r.Intn(1000))
	cmd := rc.W.Encode(&rtmp.Msg{CSID: 3, Type: 20, Body: amf0.Enc("connect", txn, amf0.Obj{{K: "app", V: appLive}, {K: "tcUrl", V: "rtmp://" + e.RTMP + "/" + appLive}})}, 0)
	cmd = append(cmd, rc.W.Encode(&rtmp.Msg{CSID: 3, Type: 20, Body: amf0.Enc("createStream", txn+1, nil)}, 0)...)
	fail := func(key, f string, a ...interface{}) {
		c.FailTimed(key, "%s, segmentation %d, zeroed C2 %v, pipelined %v: %s", kind, style, lax, pipe, fmt.Sprintf(f, a...))
	}
	first := append([]byte{h.C0}, h.C1...)
	if pipe {
		first = append(append(first, h.C2(r, true)...), cmd...)
	}
	if err := cutWrite(r, conn, first, style); err != nil {
		fail("refused", "sending C0 C1: %v", err)
	}
	if err := h.Read(conn); err != nil {
		fail("no-answer", "reading S0 S1 S2: %v", err)
	}
	if err := h.Verify(); err != nil {
		c.Fail("echo", "%s: %v; C1 % x… S1 % x… S2 % x…", kind, err, h.C1[:12], h.S1[:12], h.S2[:12])
	}
	if !pipe {
		c2 := h.C2(r, lax)
		together := r.Intn(2) == 0
		if together {
			c2 = append(c2, cmd...)
		}
		if err := cutWrite(r, conn, c2, style); err != nil {
			fail("refused", "sending C2: %v", err)
		}
		if !together {
			if r.Intn(2) == 0 {
				time.Sleep(time.Millisecond)
			}
			cutWrite(r, conn, cmd, style)
		}
	}
	conn.SetDeadline(time.Time{})
	rc.Start()
	for i := 0; i < 2; i++ {
		want := txn + float64(i)
		rep, err := rc.WaitCmd(0, c.D(dialT), func(q *rtmp.Reply) bool { return q.Txn == want })
		if err != nil || rep.Name != "_result" {
			fail("no-commands", "after the handshake command %d gets %+v, %v", i, rep, err)
		}
	}
	c.Count("handshakes:"+strings.ReplaceAll(kind, " ", "_"), 1)
	if r.Intn(8) == 0 { // and the session carries media
		l := NewLive(appLive, name)
		if err := rc.Publish(name, c.D(dialT)); err != nil {
			fail("no-publish", "%v", err)
		}
		p := &Pub{Client: rc, Live: l, S: Plain(), r: r}
		fs, _ := genFrames(c, 6, false, media.Opt{Video: true, GOP: 3, MaxSize: 3000})
		feed(c, p, fs, 6)
		v, err := ViewRTMP(e.RTMP, r, l)
		if err != nil {
			fail("no-viewer", "%v", err)
		}
		defer v.Close(false)
		l.Sync(c, "after the handshake", v)
		v.Check(c)
		c.Count("with_media", 1)
	}
	c.Nontrivial("%s %d %v %v %x", kind, style, lax, pipe, h.C1[:32])
}

// runC10Version sends an unsupported version.
func runC10Version(c *vh.C) {
	e := env(c)
	r := c.R
	v := byte(r.Intn(256))
	if v == 3 {
		v = 6
	}
	conn, err := dial(e.RTMP)
	if err != nil {
		c.Fail("refused", "%v", err)
	}
	defer conn.Close()
	h := rtmp.NewHello(r, r.Intn(2) == 0, r.Intn(2))
	b := append([]byte{v}, h.C1...)
	n := pick(r, 1, 1, 2+r.Intn(1535), len(b))
	conn.Write(b[:n])
	conn.SetReadDeadline(time.Now().Add(c.D(5 * time.Second)))
	got, err := io.ReadAll(conn)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		c.FailTimed("version-kept", "version %d (%d bytes sent): the session is not closed, got %d bytes", v, n, len(got))
	}
	if len(got) > 1537 {
		c.Fail("version-accepted", "version %d is answered with %d bytes", v, len(got))
	}
	c.Count("versions_refused", 1)
	c.Nontrivial("version %d %d", v, n)
}

// runC10Pull is the server of the server's own client.
func runC10Pull(c *vh.C) {
	e := env(c)
	r := c.R
	ln, err := net.Listen("tcp", e.Port())
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer ln.Close()
	name := e.Name(c)
	app := pick(r, "up", "live", "a b")
	app = strings.ReplaceAll(app, " ", "_")
	go librtmp.NewServer(e.Port(), appLive).WithRTMPPull("rtmp://"+ln.Addr().String()+"/"+app+"/"+name, appLive, name).Handler()
	ln.(*net.TCPListener).SetDeadline(time.Now().Add(c.D(5 * time.Second)))
	conn, err := ln.Accept()
	if err != nil {
		c.FailTimed("no-pull", "the server does not connect to the upstream: %v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(c.D(dialT)))
	style := r.Intn(4)
	wrong := r.Intn(5) == 0
	early := r.Intn(3) == 0 // S0 S1 before C1 has come
	c.Trace("upstream: segmentation %d, wrong version %v, S0 S1 early %v", style, wrong, early)
	s := make([]byte, 3073)
	r.Read(s)
	s[0] = 3
	if wrong {
		s[0] = pick(r, byte(0), 2, 4, 6, 255)
	}
	switch r.Intn(3) {
	case 0:
		copy(s[5:9], []byte{0, 0, 0, 0})
	case 1:
		copy(s[5:9], []byte{3, 0, 1, 1})
	}
	if r.Intn(4) == 0 {
		copy(s[1:5], []byte{0, 0, 0, 0})
	}
	if early {
		if err := cutWrite(r, conn, s[:1537], style); err != nil && !wrong {
			c.Fail("hung-up", "sending S0 S1: %v", err)
		}
	}
	in := make([]byte, 1537)
	if _, err := io.ReadFull(conn, in); err != nil {
		if wrong && early { // may have gone already
			c.Count("upstream_versions_refused", 1)
			c.Nontrivial("pull wrong early")
			return
		}
		c.Fail("no-c1", "reading C0 C1: %v", err)
	}
	if in[0] != 3 {
		c.Fail("c0", "C0 is %d", in[0])
	}
	if !bytes.Equal(in[5:9], []byte{0, 0, 0, 0}) {
		c.Fail("c1", "the zero field of a simple C1 is % x", in[5:9])
	}
	if bytes.Equal(in[9:73], make([]byte, 64)) {
		c.Fail("c1-random", "C1 is not random")
	}
	copy(s[1537:], in[1:])
	switch r.Intn(4) {
	case 0:
		copy(s[1541:1545], []byte{0, 0, 1, byte(r.Intn(256))})
	}
	rest := s
	if early {
		rest = s[1537:]
	}
	if err := cutWrite(r, conn, rest, style); err != nil && !wrong {
		c.Fail("hung-up", "sending S1 S2: %v", err)
	}
	c2 := make([]byte, 1536)
	_, err = io.ReadFull(conn, c2)
	if wrong {
		if err == nil {
			c.Fail("version-accepted", "the client goes on with a server of version %d", s[0])
		}
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			c.FailTimed("version-kept", "the client does not leave a server of version %d", s[0])
		}
		c.Count("upstream_versions_refused", 1)
		c.Nontrivial("pull wrong %d", s[0])
		return
	}
	if err != nil {
		c.Fail("no-c2", "%v", err)
	}
	if !bytes.Equal(c2[:4], s[1:5]) {
		c.Fail("c2-time", "C2 time % x, S1 time % x", c2[:4], s[1:5])
	}
	if !bytes.Equal(c2[8:], s[9:1537]) {
		c.Fail("c2-echo", "C2 does not echo S1's random bytes")
	}
	rd := rtmp.NewReader(conn)
	for {
		m, err := rd.Next()
		if err != nil {
			c.Fail("no-connect", "after the handshake: %v", err)
		}
		if m.Type != 20 {
			continue
		}
		q, err := rtmp.ParseCmd(m)
		if err != nil || q.Name != "connect" {
			c.Fail("no-connect", "first command %v %v", q, err)
		}
		break
	}
	c.Count("handshakes:own_client", 1)
	c.Nontrivial("pull %d %v %x", style, early, s[1:9])
}
