package net

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"time"

	"vharness/media"
	"vharness/ref/ws"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C35", Quick: 300, Thorough: 5000, Setup: setupPlain, Technique: tech,
		Rule:      "upgrade requests in every header spelling and broken ones; streams with tags of every length around the limits of the length encodings; viewers that send pings, pongs and data frames of every length while media flow, slowly, in pieces and right behind the request; closes with every status code, protocol errors and ends of stream, each at a random moment and at once; a strict frame parser reads all that is sent until the connection ends",
		LevelNote: "held on the sessions tried",
		Run:       runC35})
}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(s)[i]
		} else {
			b[i] = strings.ToLower(s)[i]
		}
	}
	return string(b)
}

// upgradeReq is a request with odd but legal spelling; bad takes one thing
// away.
func upgradeReq(r *rand.Rand, addr, path, bad string) (req, key string) {
	key = ws.Key(r)
	sp := func() string { return pick(r, "", " ", " ", "  ", "\t", " \t ") }
	h := func(n, v string) string { return randCase(r, n) + ":" + sp() + v + sp() }
	conn := pick(r, "Upgrade", "Upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive", "foo,Upgrade,bar", "keep-alive ,\tUpgrade")
	l := []string{h("Host", addr)}
	if bad != "upgrade" {
		l = append(l, h("Upgrade", randCase(r, "websocket")))
	}
	if bad != "connection" {
		if r.Intn(5) == 0 {
			l = append(l, h("Connection", "keep-alive"), h("Connection", randCase(r, "Upgrade")))
		} else {
			l = append(l, h("Connection", randCase(r, conn)))
		}
	}
	switch bad {
	case "key":
	case "empty key":
		l = append(l, h("Sec-WebSocket-Key", ""))
	default:
		l = append(l, h("Sec-WebSocket-Key", key))
	}
	l = append(l, h("Sec-WebSocket-Version", "13"))
	for _, x := range []string{h("Origin", "http://example.com"), h("User-Agent", "x"), h("Sec-WebSocket-Protocol", "flv"), h("Sec-WebSocket-Extensions", "permessage-deflate; client_max_window_bits"), h("Cookie", strings.Repeat("a=b; ", r.Intn(300)))} {
		if r.Intn(4) == 0 {
			l = append(l, x)
		}
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return "GET " + path + pick(r, "", "", "?a=b", "?x=%20&y") + " HTTP/1.1\r\n" + strings.Join(l, "\r\n") + "\r\n\r\n", key
}

// wsClient is a viewer and what was sent on its connection.
type wsClient struct {
	v     *View
	r     *rand.Rand
	wmu   sync.Mutex // building and writing
	mu    sync.Mutex
	pings [][]byte
	stop  chan struct{}
	done  chan struct{}
}

func (x *wsClient) frame(op byte, p []byte) []byte {
	var m [4]byte
	if x.r.Intn(6) > 0 {
		x.r.Read(m[:])
	}
	return ws.Bytes(op, p, m)
}

// some is a few frames: pings, and others that need no answer.
func (x *wsClient) some() (b []byte) {
	r := x.r
	for i := r.Intn(pick(r, 1, 3, 12)); i >= 0; i-- {
		switch r.Intn(6) {
		case 0:
			b = append(b, x.frame(10, randBytes(r, r.Intn(126)))...)
		case 1:
			b = append(b, x.frame(pick(r, byte(1), 2), bytes.Repeat([]byte("x"), pick(r, 0, 1, 125, 126, 127, 1000, 65535, 65536)))...)
		default:
			p := randBytes(r, pick(r, 0, 1, 4, 124, 125, r.Intn(126)))
			x.mu.Lock()
			x.pings = append(x.pings, p)
			x.mu.Unlock()
			b = append(b, x.frame(9, p)...)
		}
	}
	return b
}

// send writes what f builds.
func (x *wsClient) send(pieces bool, f func() []byte) error {
	x.wmu.Lock()
	defer x.wmu.Unlock()
	b := f()
	for len(b) > 0 {
		n := len(b)
		if pieces && x.r.Intn(4) == 0 {
			n = 1 + x.r.Intn(n)
		}
		if err := x.v.WS.Raw(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

// chat sends frames until it is stopped.
func (x *wsClient) chat() {
	x.stop, x.done = make(chan struct{}), make(chan struct{})
	max := 20 + x.r.Intn(300)
	go func() {
		defer close(x.done)
		for i := 0; i < max; i++ {
			if x.send(true, x.some) != nil {
				return
			}
			select {
			case <-x.stop:
				return
			default:
			}
			x.wmu.Lock()
			d := time.Duration(x.r.Intn(1500)) * time.Microsecond
			if x.r.Intn(3) == 0 {
				d = 0
			}
			x.wmu.Unlock()
			time.Sleep(d)
		}
	}()
}

func (x *wsClient) hush() {
	if x.stop != nil {
		close(x.stop)
		<-x.done
		x.stop = nil
	}
}

// answers checks the pongs; all: every ping must have been answered.
func (x *wsClient) answers(c *vh.C, all bool) {
	v := x.v
	x.mu.Lock()
	want := x.pings
	x.mu.Unlock()
	got := func() [][]byte { v.mu.Lock(); defer v.mu.Unlock(); return v.pongs }
	if all && !c.Eventually(10*time.Second, func() bool { return len(got()) >= len(want) || v.Err() != nil }) {
		c.FailTimed("pong", "%v: %d of %d pings were answered", v, len(got()), len(want))
	}
	v.Check(c)
	g := got()
	if len(g) > len(want) {
		c.Fail("pong", "%v: %d pongs for %d pings", v, len(g), len(want))
	}
	for i := range g {
		if !bytes.Equal(g[i], want[i]) {
			c.Fail("pong", "%v: ping %d carried %x, the pong %x", v, i, want[i], g[i])
		}
	}
	c.Count("pings_answered", len(g))
}

// open upgrades and begins to play; frames may come right behind the request.
func openWS(c *vh.C, e *Env, l *Live) *wsClient {
	r := c.R
	conn, err := dial(e.FLV, pick(r, 0, 0, smallRcv))
	if err != nil {
		panic(err)
	}
	x := &wsClient{r: rand.New(rand.NewSource(r.Int63()))}
	req, key := upgradeReq(r, e.FLV, "/"+l.App+"/"+l.Name+".flv", "")
	b := []byte(req)
	if r.Intn(3) == 0 {
		b = append(b, x.some()...)
	}
	conn.SetDeadline(time.Now().Add(dialT))
	cutWrite(r, conn, b, pick(r, 0, 0, 1, 2))
	br := bufio.NewReader(conn)
	resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
	if err != nil {
		conn.Close()
		c.FailTimed("upgrade", "no answer to the upgrade request %q: %v", req, err)
	}
	conn.SetDeadline(time.Time{})
	if resp.StatusCode != 101 {
		conn.Close()
		c.Fail("upgrade", "upgrade request %q is answered with %d", req, resp.StatusCode)
	}
	if a := resp.Header.Values("Sec-WebSocket-Accept"); len(a) != 1 || a[0] != ws.Accept(key) {
		c.Fail("accept", "upgrade request %q: accept key %q, want %s", req, a, ws.Accept(key))
	}
	if !strings.EqualFold(resp.Header.Get("Upgrade"), "websocket") || !strings.EqualFold(resp.Header.Get("Connection"), "Upgrade") {
		c.Fail("accept", "upgrade reply headers %v", resp.Header)
	}
	if len(resp.Header.Values("Sec-WebSocket-Extensions"))+len(resp.Header.Values("Sec-WebSocket-Protocol")) > 0 && !strings.Contains(strings.ToLower(req), "sec-websocket-protocol") {
		c.Fail("accept", "upgrade reply agrees to what was not offered: %v", resp.Header)
	}
	x.v = newView("ws", l)
	x.v.onWS(ws.New(conn, br, x.r))
	c.Count("upgrades", 1)
	return x
}

// refused checks that broken upgrade requests are turned away.
func refusedWS(c *vh.C, e *Env, l *Live) {
	r := c.R
	conn, err := dial(e.FLV)
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	bad := pick(r, "key", "key", "empty key", "connection", "name", "app")
	path := "/" + l.App + "/" + l.Name + ".flv"
	switch bad {
	case "name":
		path = "/" + l.App + "/" + l.Name + "x.flv"
	case "app":
		path = "/nope/" + l.Name + ".flv"
	}
	req, _ := upgradeReq(r, e.FLV, path, bad)
	conn.SetDeadline(time.Now().Add(dialT))
	io.WriteString(conn, req)
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: "GET"})
	if err != nil {
		c.FailTimed("refusal", "no answer to the upgrade request %q: %v", req, err)
	}
	want := 400
	if bad == "name" || bad == "app" {
		want = 404
	}
	if resp.StatusCode != want {
		c.Fail("refusal", "upgrade request with bad %s is answered with %d: %q", bad, resp.StatusCode, req)
	}
	c.Count("refusals", 1)
}

func runC35(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(appLive, e.Name(c))
	fs, desc := genFrames(c, 30+r.Intn(80), false, media.Opt{Start: uint32(r.Intn(1 << 20)), GOP: pick(r, 0, 5, 15), MaxSize: pick(r, 60, 300, 3000, 70000), AudioMax: 20 + r.Intn(300)})
	// tags whose length is at a limit of the frame's length encoding
	for i, f := range fs {
		if f.Kind == 8 && coded(f) && r.Intn(2) == 0 {
			n := pick(r, 124, 125, 126, 127, 128, 125, 126, 65534, 65535, 65536, 65537)
			g := *f
			b := randBytes(r, n-15)
			copy(b, f.Body[:min(2, len(f.Body))])
			b[2] = 0x21
			g.Body, g.Raw = b, b[2:]
			fs[i] = &g
		}
	}
	c.Trace("%s", desc)
	p := MustPublish(c, e.RTMP, l, Plain())
	defer p.Close()
	k := firstKey(fs) + 1
	feed(c, p, fs[:k], 100)
	var cl []*wsClient
	var all []*View
	live := map[*wsClient]string{}
	defer func() {
		for _, x := range cl {
			if x.stop != nil {
				close(x.stop)
			}
		}
		for _, v := range all {
			v.Close(true)
		}
	}()
	join := func() {
		x := openWS(c, e, l)
		cl = append(cl, x)
		all = append(all, x.v)
		live[x] = pick(r, "stay", "stay", "close", "close", "race", "error")
		switch r.Intn(4) {
		case 0:
			x.v.Slow(time.Duration(r.Intn(400)) * time.Microsecond)
		}
		x.chat()
	}
	for i := r.Intn(3); i >= 0; i-- {
		join()
	}
	other := e.MustView(c, l, randViewer(r, "flv", "rtmp", "ws"))
	all = append(all, other)
	sync := func() {
		vs := []*View{other}
		for _, x := range cl {
			if live[x] != "" {
				vs = append(vs, x.v)
			}
		}
		l.Sync(c, "while publishing", vs...)
	}
	sync()
	// leave ends a client's session from its side
	leave := func(x *wsClient, how string) {
		live[x] = ""
		all := true
		if r.Intn(2) == 0 {
			x.hush()
		}
		if x.stop == nil && r.Intn(2) == 0 {
			x.answers(c, true)
		}
		switch how {
		case "close":
			code := pick(r, -1, 1000, 1001, 1000, 3000, 4999, 1003, 1007, 1011, 1014, 0, 1, 999, 1004, 1005, 1006, 1015, 1016, 2999, 5000, 65535, -2)
			var b []byte
			if code >= 0 {
				b = binary.BigEndian.AppendUint16(nil, uint16(code))
				b = append(b, pick(r, "", "", "bye", "läuft", "\xff\xfe", strings.Repeat("z", 123))...)
			} else if code == -2 {
				b = []byte{3}
			}
			c.Trace("close %d, %d bytes", code, len(b))
			x.send(false, func() []byte { return x.frame(8, b) })
			if r.Intn(4) == 0 { // whatever follows needs no answer
				x.send(false, x.some)
				all = false
			}
		case "error":
			x.send(false, func() []byte {
				b := pick(r, x.frame(9, make([]byte, 126)), x.frame(8, make([]byte, 200)), x.frame(2, make([]byte, 65537)), []byte{0x09, 0x80, 1, 2, 3, 4}, []byte{0x82, 0xff, 255, 255, 255, 255, 255, 255, 255, 255, 1, 2, 3, 4}, []byte{0x89, 0xff, 0x80, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4})
				c.Trace("error % x", b[:4])
				return b
			})
			all = false
		}
		if !c.Eventually(15*time.Second, func() bool {
			select {
			case <-x.v.gone:
				return true
			default:
				return x.v.Err() != nil
			}
		}) {
			c.FailTimed("no-end", "%v: the client sent %s, the connection does not end", x.v, how)
		}
		hushed := x.stop == nil
		x.hush()
		x.v.Check(c)
		x.answers(c, hushed && all && how == "close")
		checkRun(c, x.v, RunOpt{From: 1 << 30, Complete: true})
		if how == "close" {
			x.closed(c, !hushed || !all)
		}
		c.Count("left:"+how, 1)
		x.v.Close(false)
	}
	for k < len(fs) {
		n := min(1+r.Intn(20), len(fs)-k)
		size := 0
		for i := range fs[k : k+n] {
			if size += len(fs[k+i].Body); size > 1<<20 {
				n = i + 1
				break
			}
		}
		if err := p.Send(fs[k : k+n]...); err != nil {
			c.Fail("publisher-dropped", "%v", err)
		}
		k += n
		if r.Intn(4) == 0 && len(cl) > 0 {
			x := cl[r.Intn(len(cl))]
			if how := live[x]; how == "close" || how == "error" {
				leave(x, how)
			}
		}
		if r.Intn(3) == 0 {
			refusedWS(c, e, l)
		}
		sync()
		if r.Intn(5) == 0 && len(cl) < 6 {
			join()
			sync()
		}
	}
	// the end, and some leave at the same moment
	var wg sync2
	for _, x := range cl {
		x := x
		if live[x] == "" {
			continue
		}
		if r.Intn(2) == 0 {
			x.hush()
			x.answers(c, true)
		}
		if live[x] != "stay" {
			b := pick(r, nil, []byte{3, 232})
			d := time.Duration(r.Intn(1500)) * time.Microsecond
			wg.Go(func() { time.Sleep(d); x.send(false, func() []byte { return x.frame(8, b) }) })
		}
	}
	time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
	p.Close()
	wg.Wait()
	awaitEnd(c, other)
	checkRun(c, other, RunOpt{From: 1 << 30, Complete: true, ToEnd: true, MustMedia: true})
	for _, x := range cl {
		if live[x] == "" {
			continue
		}
		awaitEnd(c, x.v)
		if !c.Eventually(10*time.Second, func() bool {
			select {
			case <-x.v.gone:
				return true
			default:
				return false
			}
		}) {
			c.FailTimed("no-end", "%v: the stream is over, the connection does not end", x.v)
		}
		x.hush()
		x.answers(c, false)
		checkRun(c, x.v, RunOpt{From: 1 << 30, Complete: true, ToEnd: live[x] == "stay", MustMedia: true})
		x.closed(c, true)
		c.Count("ended:"+live[x], 1)
	}
	c.Nontrivial("%d", c.Idx)
}

// closed checks that there was a close frame; bytes of ours that the server
// has not read may make its last ones get lost.
func (x *wsClient) closed(c *vh.C, unread bool) {
	x.v.mu.Lock()
	l := strings.Join(x.v.extra, ",")
	x.v.mu.Unlock()
	if !strings.Contains(l, "close ") && !unread {
		c.Fail("no-close-frame", "%v: the connection ended without a close frame", x.v)
	}
	if strings.Count(l, "close ") > 1 {
		c.Fail("two-closes", "%v", x.v)
	}
	if strings.Contains(l, "close ") {
		c.Count("close_frames", 1)
	}
}

type sync2 struct{ sync.WaitGroup }

func (w *sync2) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}

var _ = fmt.Sprint
