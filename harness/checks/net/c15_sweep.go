package net

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"vharness/ref/ws"
	"vharness/vh"
)

// sweepHTTP goes through the tokens of valid requests and the bytes of valid
// frames.
func sweepHTTP(c *vh.C, flv, hls, app, name string, g *guard, n int) {
	r := c.R
	once := func(addr string, b []byte) {
		nc, err := dial(addr)
		if err != nil {
			c.Fail("refused", "%v", err)
		}
		defer func() { abruptClose(nc, r.Intn(2) == 0) }()
		g.add(len(b) + 100)
		c.Count("swept_requests", 1)
		if _, err := nc.Write(b); err == nil {
			nc.SetReadDeadline(time.Now().Add(8 * time.Millisecond))
			var buf [600]byte
			nc.Read(buf[:])
		}
	}
	kind, way := n%9, n/9%5
	addr, tgt, extra := hls, "/"+app+"/"+name+"/index.m3u8", ""
	switch kind {
	case 0:
		addr, tgt = flv, "/"+app+"/"+name+".flv"
	case 1:
		addr, tgt = flv, "/"+app+"/"+name+".flv"
		extra = "Upgrade: websocket\r\nConnection: keep-alive, Upgrade\r\nSec-WebSocket-Key: " + ws.Key(r) + "\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: a, b\r\nOrigin: http://x\r\n"
	case 2:
		tgt += "?_HLS_msn=1&_HLS_part=2&_HLS_skip=YES"
	case 3:
		tgt = "/" + app + "/" + name + "/" + name + "-0.ts"
		extra = "Range: bytes=0-187\r\nIf-Range: \"x\"\r\n"
	case 4:
		tgt = "/" + app + "/" + name + "/index.mpd"
	case 5:
		tgt = "/" + app + "/" + name + "/" + name + "-init.mp4"
	case 6:
		tgt = "/" + app + "/" + name + "/" + name + "-1.m4s"
		extra = "Range: bytes=10-\r\n"
	}
	if kind < 7 {
		if app == appLive {
			addr = flv
		}
		method := pick(r, "GET", "GET", "GET", "HEAD", "OPTIONS")
		req := []byte(method + " " + tgt + " HTTP/1.1\r\nHost: " + addr + "\r\n" + extra + "\r\n")
		c.Trace("token sweep %d: %.200q", way, req)
		tokenSweep(r, req, way, func(b []byte) {
			if r.Intn(2) == 0 && !bytes.HasSuffix(b, []byte("\r\n\r\n")) {
				b = append(b, "\r\n\r\n"...)
			}
			once(addr, b)
		})
		return
	}
	// frames
	var w *ws.Conn
	var nc net.Conn
	open := func() {
		if nc != nil {
			abruptClose(nc, r.Intn(2) == 0)
		}
		var err error
		if nc, err = dial(flv); err == nil {
			w, err = ws.Upgrade(nc, flv, "/"+app+"/"+name+".flv", r, r.Intn(4), dialT)
		}
		if err != nil {
			c.FailTimed("upgrade", "%v", err)
		}
		g.add(400)
	}
	var m [4]byte
	r.Read(m[:])
	b := ws.Bytes(pick(r, byte(8), 9, 10, 1, 2), pick(r, []byte{3, 232, 'b', 'y', 'e'}, []byte{3, 232}, nil, randBytes(r, 126), randBytes(r, 10)), m)
	c.Trace("byte sweep %d of frame %s", way, hexHead(b))
	for p := 0; p < len(b) && p < 24; p++ {
		open()
		x := append([]byte{}, b...)
		switch {
		case way < 2:
			x = x[:p]
		default:
			x[p] = []byte{0xff, 0, x[p] ^ 1<<r.Intn(8)}[way-2]
		}
		c.Count("swept_frames", 1)
		g.add(len(x) + 10)
		w.Conn.Write(x)
		if r.Intn(2) == 0 { // what follows is taken for the rest
			w.Conn.Write(ws.Bytes(9, []byte(fmt.Sprint(p)), m))
		}
		nc.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
		var buf [600]byte
		nc.Read(buf[:])
	}
	abruptClose(nc, r.Intn(2) == 0)
}
