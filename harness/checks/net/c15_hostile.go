package net

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"vharness/ref/ws"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C15", Quick: 600, Thorough: 8000, Setup: setupHTTP, Technique: hostileTech, MemLimit: 1500 << 20,
		Rule:      "hostile HTTP and WebSocket clients: broken and odd requests (methods, targets, versions, headers, bodies, pipelining, stalls) on the FLV and the HLS/DASH port, upgrades of every spelling, broken, huge, fragmented and endless frames; the HTTP server's log is searched for panics, an innocent stream beside is compared frame by frame, the ports must keep serving, heap, allocations, idle processor time and left-over goroutines are judged",
		LevelNote: "exploration: seeded attacks; memory is judged against bytes sent with a fixed allowance",
		Run:       runC15})
}

// logWatch keeps what net/http logs about panics of handlers.
type logWatch struct {
	mu    sync.Mutex
	panic string
}

func (l *logWatch) Write(b []byte) (int, error) {
	if i := bytes.Index(b, []byte("panic serving")); i >= 0 {
		l.mu.Lock()
		if l.panic == "" {
			l.panic = string(b)
		}
		l.mu.Unlock()
	}
	return len(b), nil
}

var httpLog logWatch

func setupHTTP(w *vh.Worker) {
	log.SetOutput(&httpLog)
	setup(w)
}

// checkLog fails if a handler panicked.
func checkLog(c *vh.C) {
	httpLog.mu.Lock()
	p := httpLog.panic
	httpLog.panic = ""
	httpLog.mu.Unlock()
	if p != "" {
		fn := goFn.FindString(p)
		if len(p) > 3000 {
			p = p[:3000]
		}
		c.Fail("panic:"+fn, "a request handler panicked: %s", p)
	}
}

// hostileHTTP is the bytes of one request, or of something else.
func hostileHTTP(r *rand.Rand, host, app, name string) []byte {
	switch r.Intn(14) {
	case 0:
		return randBytes(r, r.Intn(pick(r, 10, 500, 5000)))
	case 1:
		return []byte(strings.Repeat(pick(r, "A", "GET ", "\r\n", "\x00"), pick(r, 10, 3000, 300000)))
	case 2:
		return []byte("GET / HTTP/1.1\r\nHost: x\r\n" + strings.Repeat("X: y\r\n", pick(r, 10, 1000, 30000)))
	case 3:
		return []byte("GET / HTTP/1.1\r\nHost: x\r\nX: " + strings.Repeat("y", pick(r, 1000, 1100000)))
	case 4:
		return []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + string(randBytes(r, 30)))
	}
	m := pick(r, "GET", "GET", "GET", "GET", "HEAD", "OPTIONS", "POST", "PUT", "DELETE", "CONNECT", "TRACE", "get", "", "G\x00T", strings.Repeat("M", 500))
	n := name
	if r.Intn(6) == 0 {
		n = pick(r, "nobody", "", "..", ".", "%2e%2e", name+"%00", "%2f", "%5c", "..%2f..%2fetc", strings.Repeat("a", 300), strings.Repeat("a", 100000), "\xff\xfe", "%zz", "%", "%C3%28")
	}
	a := app
	if r.Intn(8) == 0 {
		a = pick(r, "nope", "", "..", ".", "%00", app+"/x", strings.Repeat("b", 5000))
	}
	num := pick(r, "0", "1", "2", "-1", "00", "99999999999999999999999", "1e3", "", "x", "0x1", "+1")
	tgt := "/" + a + "/" + pick(r,
		n+".flv", n+".flv", n+".flv", ".flv", n, n+".FLV", n+".flv/", n+".flv/x",
		n+"/index.m3u8", n+"/index.m3u8", n+"/index.mpd", n+"/index.mpd", n+"/"+n+"-"+num+".ts", n+"/"+n+"-"+num+".m4s", n+"/"+n+"-init.mp4", n+"/-init.mp4", n+"/.m4s", n+"/.ts", n+"/-.ts",
		n+"/../"+n+"/index.m3u8", n+"/%2e%2e/%2e%2e/etc/passwd", n+"//index.m3u8", n+"/..", "", n+"/index.m3u8/"+n+"-0.ts", n+"/"+name+"-0.ts")
	if r.Intn(3) == 0 {
		v := func() string {
			return pick(r, "", "0", "1", "-1", "5", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "x", "1.5", "%zz", "%00")
		}
		tgt += "?" + pick(r, "", "_HLS_msn="+v(), "_HLS_msn="+v()+"&_HLS_part="+v(), "_HLS_part="+v(), "_HLS_skip=YES", "&&&", "a=b;c=d", strings.Repeat("_HLS_msn=1&", 2000), "\x01")
	}
	if r.Intn(10) == 0 {
		tgt = pick(r, "*", "", "/", "//", "///", "http://"+host+tgt, "http://", "http://%zz/", "ftp://x"+tgt, host, "x", "/?", "?", "#", tgt+"#x", "/%", "/%2", "/"+strings.Repeat("../", 1000), strings.Repeat("/", 20000))
	}
	b := m + pick(r, " ", " ", " ", " ", "  ", "\t") + tgt + " " + pick(r, "HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/9999.9999", "HTTP/", "") + "\r\n"
	if r.Intn(10) > 0 {
		b += "Host: " + pick(r, host, host, host, "", "a b", "[::", strings.Repeat("h", 3000)) + "\r\n"
	}
	if r.Intn(3) == 0 { // upgrade of some kind
		b += pick(r, "Upgrade: websocket\r\n", "Upgrade: websocket\r\n", "upgrade: WebSocket, h2c\r\n", "Upgrade: h2c\r\n", "Upgrade:\r\n")
		b += pick(r, "Connection: Upgrade\r\n", "Connection: Upgrade\r\n", "Connection: keep-alive, upgrade\r\n", "", "Connection: close\r\n")
		b += pick(r, "Sec-WebSocket-Key: "+ws.Key(r)+"\r\n", "Sec-WebSocket-Key: "+ws.Key(r)+"\r\n", "Sec-WebSocket-Key: x\r\n", "Sec-WebSocket-Key:\r\n", "", "Sec-WebSocket-Key: "+strings.Repeat("k", 100000)+"\r\n")
		b += pick(r, "Sec-WebSocket-Version: 13\r\n", "", "Sec-WebSocket-Version: 8\r\n")
	}
	for i := r.Intn(4); i > 0; i-- {
		b += pick(r, "Range: bytes=0-0", "Range: bytes=0-,0-,0-,0-,0-", "Range: bytes=-9223372036854775808", "Range: bytes=99999999999999999999-", "Range: x", "Range: bytes="+strings.Repeat("0-0,", 3000)+"1-1", "If-Range: \"x\"", "If-Modified-Since: x",
			"Connection: close", "Connection: keep-alive", "Expect: 100-continue", "Expect: x", "Accept-Encoding: gzip", "Content-Length: 5", "Content-Length: -1", "Content-Length: 99999999999999999999", "Content-Length: 9223372036854775807",
			"Transfer-Encoding: chunked", "Transfer-Encoding: x", "TE: trailers", "X", ": x", " folded", "X\x00: y", "Cookie: "+strings.Repeat("c", 5000), "Trailer: X", "Origin: x") + "\r\n"
	}
	b += pick(r, "\r\n", "\r\n", "\r\n", "\r\n", "\n", "")
	b += pick(r, "", "", "", "hello", "5\r\nhello\r\n0\r\n\r\n", "ffffffffffffffff\r\n", "7fffffffffffffff\r\nx", string(randBytes(r, r.Intn(300))))
	if r.Intn(6) == 0 {
		return mutate(r, []byte(b))
	}
	return []byte(b)
}

// hostileFrame is bytes a WebSocket client may come up with.
func hostileFrame(r *rand.Rand) []byte {
	var m [4]byte
	r.Read(m[:])
	switch r.Intn(9) {
	case 0:
		return randBytes(r, 1+r.Intn(pick(r, 4, 50, 3000)))
	case 1: // lengths without bytes
		b := []byte{0x80 | pick(r, byte(0), 1, 2, 8, 9, 10, 15), 0xff}
		b = append(b, pick(r, []byte{0x7f, 255, 255, 255, 255, 255, 255, 255}, []byte{255, 255, 255, 255, 255, 255, 255, 255}, []byte{0, 0, 0, 0, 0x40, 0, 0, 0}, []byte{0, 0, 0, 0, 0, 1, 0, 0}, []byte{0, 0, 0, 0, 0, 0, 0, 1})...)
		return append(b, m[:]...)
	case 2: // control frames too long
		return ws.Bytes(pick(r, byte(8), 9, 10), randBytes(r, pick(r, 126, 127, 1000, 65536)), m)
	case 3: // fragments
		b := ws.Bytes(pick(r, byte(0), 1, 2, 9), randBytes(r, r.Intn(100)), m)
		b[0] &= 0x7f
		return b
	case 4: // reserved bits and opcodes
		b := ws.Bytes(byte(r.Intn(16)), randBytes(r, r.Intn(126)), m)
		b[0] |= byte(r.Intn(8)) << 4
		return b
	case 5: // not masked
		p := randBytes(r, r.Intn(126))
		return append([]byte{0x80 | pick(r, byte(1), 2, 8, 9, 10), byte(len(p))}, p...)
	case 6:
		return bytes.Repeat(ws.Bytes(9, randBytes(r, r.Intn(126)), m), 1+r.Intn(300))
	case 7:
		return ws.Bytes(8, pick(r, nil, []byte{3}, []byte{3, 232}, []byte{0, 0}, []byte{0xff, 0xff}, append([]byte{3, 232}, randBytes(r, 123)...)), m)
	}
	p := randBytes(r, pick(r, 10, 65535, 65536, 65537, 200000))
	return ws.Bytes(pick(r, byte(1), 2), p, m)
}

// status sends a request and returns the status of the answer.
func status(addr, method, target string, d time.Duration) (int, error) {
	nc, err := dial(addr)
	if err != nil {
		return 0, err
	}
	defer nc.Close()
	nc.SetDeadline(time.Now().Add(d))
	fmt.Fprintf(nc, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", method, target, addr)
	resp, err := http.ReadResponse(bufio.NewReader(nc), &http.Request{Method: method})
	if err != nil {
		return 0, err
	}
	resp.Body.Close()
	return resp.StatusCode, nil
}

func runC15(c *vh.C) {
	e := env(c)
	r := c.R
	app := pick(r, appLive, appSeg, appLate, appAlt)
	flv := e.FFLV
	if app == appLive {
		flv = e.FLV
	}
	g := newGuard()
	cn := newCanary(c, e, app)
	defer cn.close()
	{ // the canary's own memory does not count
		n := newGuard()
		n.g = g.g
		g = n
	}
	var open []net.Conn
	defer func() {
		for _, x := range open {
			x.Close()
		}
	}()
	begin := func(addr string) net.Conn {
		nc, err := dial(addr)
		if err != nil {
			c.Fail("refused", "%v", err)
		}
		open = append(open, nc)
		return nc
	}
	if c.Idx%2 == 0 {
		sweepHTTP(c, flv, e.HLS, app, cn.l.Name, g, c.Idx/2)
		cn.step(c, "during the sweep")
	}
	for k := 2 + r.Intn(6); k > 0; k-- {
		stage := r.Intn(4)
		c.Count(fmt.Sprintf("stage:%d", stage), 1)
		addr := flv
		if app != appLive && r.Intn(2) == 0 {
			addr = e.HLS
		}
		switch stage {
		case 0, 1, 2:
			x := begin(addr)
			if stage == 0 && r.Intn(2) == 0 {
				// never reads
			} else {
				go io.Copy(io.Discard, x)
			}
			n := 1
			if stage == 2 {
				n = 1 + r.Intn(20) // pipelined
			}
			for ; n > 0; n-- {
				b := hostileHTTP(r, addr, app, cn.l.Name)
				c.Trace("%s: %.150q", addr, b)
				c.Count("requests", 1)
				if dripped(r, x, b, g) != nil {
					break
				}
			}
			if t, ok := x.(*net.TCPConn); ok && r.Intn(6) == 0 {
				t.CloseWrite()
			}
		case 3:
			x := begin(flv)
			w, err := ws.Upgrade(x, flv, "/"+app+"/"+cn.l.Name+".flv", r, r.Intn(4), dialT)
			if err != nil {
				c.FailTimed("upgrade", "%v", err)
			}
			if r.Intn(4) > 0 {
				go io.Copy(io.Discard, w.Conn)
			}
			for n := r.Intn(20); n >= 0; n-- {
				b := hostileFrame(r)
				c.Trace("frame %s", hexHead(b))
				c.Count("frames", 1)
				if dripped(r, w.Conn, b, g) != nil {
					break
				}
			}
		}
		if r.Intn(3) == 0 {
			cn.step(c, "during the attack")
		}
	}
	// the ports still serve
	for _, p := range []string{flv, e.HLS} {
		f := "/nobody.flv"
		if p == e.HLS {
			f = "/nobody/index.m3u8"
		}
		if code, err := status(p, "GET", "/"+app+f, c.D(20*time.Second)); err != nil || code != 404 {
			c.FailTimed("port", "an unknown stream is answered with %d %v by %s", code, err, p)
		}
	}
	cn.step(c, "during the attack")
	g.allocated(c, "HTTP attack", 100<<20)
	g.held(c, "HTTP attack", 12<<20)
	for _, x := range open {
		abruptClose(x, r.Intn(2) == 0)
	}
	cn.step(c, "after the attack")
	cn.finish(c)
	g.gone(c, "HTTP attack")
	checkLog(c)
	c.Nontrivial("%d", c.Idx)
}
