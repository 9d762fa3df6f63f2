package net

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"vharness/media"
	"vharness/ref/rtp"
	"vharness/ref/rtsp"
	"vharness/vh"
)

// tokens splits at separators, which stay as tokens of their own.
func tokens(b []byte) (out [][]byte) {
	start := 0
	for i := 0; i < len(b); i++ {
		if bytes.IndexByte([]byte(" \r\n;=:,/-$?&.%"), b[i]) >= 0 {
			if i > start {
				out = append(out, b[start:i])
			}
			out = append(out, b[i:i+1])
			start = i + 1
		}
	}
	if start < len(b) {
		out = append(out, b[start:])
	}
	return
}

// tokenSweep calls f with a text in which one token is left out, doubled,
// replaced by odd numbers or the end, each in turn.
func tokenSweep(r *rand.Rand, text []byte, way int, f func([]byte)) {
	l := tokens(text)
	for i := range l {
		x := []byte(nil)
		switch way {
		case 1:
			x = append(append(x, l[i]...), l[i]...)
		case 2:
			x = []byte(pick(r, "0", "-1", "99999999999999999999", "4294967295", "65536", ""))
		case 3: // nothing after
			f(bytes.Join(l[:i], nil))
			continue
		case 4: // the token cut
			x = append(x, l[i][:len(l[i])/2]...)
		case 5: // encodings cut to a byte or a few
			if d, err := base64.StdEncoding.DecodeString(string(l[i])); err == nil && len(d) > 0 {
				x = []byte(base64.StdEncoding.EncodeToString(d[:r.Intn(min(len(d), 6))]))
			} else if d, err := hex.DecodeString(string(l[i])); err == nil && len(d) > 0 {
				x = []byte(hex.EncodeToString(d[:r.Intn(len(d))]))
			} else {
				continue
			}
		}
		b := append([]byte{}, bytes.Join(l[:i], nil)...)
		f(append(append(b, x...), bytes.Join(l[i+1:], nil)...))
	}
}

// sweepRTSP goes through the tokens of valid requests and descriptions, and
// through the bytes of valid packets.
func sweepRTSP(c *vh.C, e *Env, rt, app, played string, g *guard, n int) (conns []*rtsp.Conn, views []*View) {
	r := c.R
	begin := func() *rtsp.Conn {
		for len(conns) > 1 {
			conns[0].Close()
			conns = conns[1:]
		}
		nc, err := dial(rt)
		if err != nil {
			c.Fail("refused", "%v", err)
		}
		x := rtsp.New(nc)
		x.Start()
		conns = append(conns, x)
		return x
	}
	base := "rtsp://" + rt + "/" + app + "/"
	kind := n % 3
	n /= 3
	way := n % 6
	n /= 6
	vc := media.NewVideoConf(r, false, uint64(c.Idx+1)<<32)
	ac := media.NewAudioConf(r, 4)
	switch kind {
	case 0: // requests of a player or publisher
		var x *rtsp.Conn
		m := []string{"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "SETUP2", "TEARDOWN", "ANNOUNCE", "RECORD", "GET_PARAMETER"}[n%9]
		c.Trace("token sweep %d of %s", way, m)
		open := func() (text []byte) {
			x = begin()
			url := base + played
			tr := pick(r, "Transport: RTP/AVP/TCP;unicast;interleaved=0-1", "Transport: RTP/AVP/UDP;unicast;client_port=40000-40001", "Transport: RTP/AVP;unicast;client_port=40000-40001;mode=\"PLAY\"")
			if m == "RECORD" || m == "ANNOUNCE" {
				url = base + e.Name(c)
				body := sdpText(r, vc, ac, 96, 97, "trackID=0", "trackID=1")
				if m == "ANNOUNCE" {
					text, _ = x.Format(m, url, []string{"Content-Type: application/sdp"}, body)
					return
				}
				x.Do(dialT, "ANNOUNCE", url, []string{"Content-Type: application/sdp"}, body)
				x.Do(dialT, "SETUP", url+"/trackID=0", []string{"Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record"}, nil)
				text, _ = x.Format(m, url, []string{"Range: npt=0.000-"}, nil)
				return
			}
			if m != "OPTIONS" && m != "DESCRIBE" && r.Intn(4) > 0 {
				x.Do(dialT, "DESCRIBE", url, nil, nil)
			}
			if m == "PLAY" || m == "SETUP2" || m == "TEARDOWN" {
				x.Do(dialT, "SETUP", url+"/trackID=0", []string{tr}, nil)
			}
			switch m {
			case "SETUP", "SETUP2":
				text, _ = x.Format("SETUP", url+"/trackID=0", []string{tr}, nil)
			default:
				text, _ = x.Format(m, url, []string{"Accept: application/sdp", "Range: npt=0.000-"}, nil)
			}
			return
		}
		text := open()
		i := 0
		tokenSweep(r, text, way, func(b []byte) {
			i++
			if !bytes.HasSuffix(b, []byte("\r\n\r\n")) && m != "ANNOUNCE" {
				b = append(b, "\r\n\r\n"...)
			}
			g.add(len(b) + 800)
			c.Count("swept_requests", 1)
			from := x.NReplies()
			var err error
			if err = x.WriteAll(b); err == nil {
				_, err = x.Reply(from, 40*time.Millisecond)
			}
			if err != nil || i%8 == 0 || m == "ANNOUNCE" || m == "TEARDOWN" || m == "RECORD" {
				open()
			}
		})
	case 1: // descriptions
		body := sdpText(r, vc, ac, 96, 97, "trackID=0", "trackID=1")
		if n%2 == 1 { // the media sections only, where all that matters is
			body = body[bytes.Index(body, []byte("m=")):]
		}
		c.Trace("token sweep %d of a description", way)
		i := 0
		tokenSweep(r, body, way, func(b []byte) {
			if i++; i%2 == n/2%2 {
				return
			}
			g.add(len(b) + 800)
			c.Count("swept_descriptions", 1)
			x := begin()
			url := base + e.Name(c)
			if rep, err := x.Do(dialT, "ANNOUNCE", url, []string{"Content-Type: application/sdp"}, b); err != nil || rep.Code != 200 {
				return
			}
			if i%4 == 0 { // what becomes of it
				for t := 0; t < 2; t++ {
					x.Do(dialT, "SETUP", url+fmt.Sprintf("/trackID=%d", t), []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record", 2*t, 2*t+1)}, nil)
				}
				if rep, err := x.Do(dialT, "RECORD", url, nil, nil); err == nil && rep.Code == 200 {
					p := &rtp.Packet{PT: 96, Seq: 1, TS: 1, SSRC: 1, Marker: true, Payload: []byte{0x65, 1, 2, 3}}
					x.WriteAll(framed(0, p.Bytes()))
					p.PT, p.Payload = 97, rtp.MakeAAC([][]byte{{0x21, 1, 2, 3}})
					x.WriteAll(framed(2, p.Bytes()))
				}
				y := begin()
				y.Do(dialT, "DESCRIBE", url, nil, nil)
			}
		})
	case 2: // packets
		var p *RTSPPub
		idr := append([]byte{0x65}, randBytes(r, 12)...)
		sps, pps := vc.SPS[0], vc.PPS[0]
		sized := func(b []byte, l ...[]byte) []byte {
			for _, x := range l {
				b = append(append(b, byte(len(x)>>8), byte(len(x))), x...)
			}
			return b
		}
		t := 0
		var pay []byte
		what := n % 8
		switch what {
		case 0:
			pay = sized([]byte{0x78}, sps, pps, idr)
		case 1:
			pay = append([]byte{0x7c, 0x85}, randBytes(r, 12)...)
		case 2:
			pay = append([]byte{0x7c, pick(r, byte(0x45), 5)}, randBytes(r, 12)...)
		case 3:
			t, pay = 1, rtp.MakeAAC([][]byte{append([]byte{0x21}, randBytes(r, 8)...), append([]byte{0x21}, randBytes(r, 9)...)})
		case 4:
			t, pay = 1, rtp.MakeAAC([][]byte{append([]byte{0x21}, randBytes(r, 8)...)})
		case 5:
			pay = sps
		case 6:
			pay = pps
		case 7:
			pay = idr
		}
		open := func() {
			l := NewLive(app, e.Name(c))
			var err error
			if p, err = PublishRTSP(rt, r, l, vc, ac, false); err != nil {
				c.FailTimed("publish", "%v", err)
			}
			conns = append(conns, p.Conn)
			if len(views) < 3 {
				if v, err := e.View(r, l, randViewer(r, "rtmp", "flv", "rtsp", "rtsp")); err == nil {
					views = append(views, v)
				}
			}
			g.add(4000)
		}
		open()
		whole := r.Intn(2) == 0 // the packet's own header too
		pk := &rtp.Packet{PT: uint8(p.tracks[t].pt), Seq: p.tracks[t].seq, TS: p.tracks[t].ts, SSRC: 1, Payload: pay}
		b := pk.Bytes()
		if r.Intn(2) == 0 {
			b = pk.With(r.Intn(4), r.Intn(4)-1, r.Intn(6), r)
		}
		c.Trace("byte sweep %d of packet kind %d, whole %v", way, what, whole)
		for k := 0; k <= len(b) && k < 90; k++ {
			tr := p.tracks[t]
			tr.seq++
			if what == 2 && r.Intn(2) == 0 { // within a unit
				f := *pk
				f.Seq, f.Payload = tr.seq, append([]byte{0x7c, 0x85}, 1, 2, 3)
				tr.seq++
				p.Conn.WriteAll(framed(tr.ch, f.Bytes()))
			}
			x := append([]byte{}, b...)
			x[1] = byte(tr.pt) | byte(r.Intn(2))<<7
			x[2], x[3] = byte(tr.seq>>8), byte(tr.seq)
			if k < 12 && !whole {
				continue
			}
			switch {
			case way < 3:
				x = x[:k]
			case k == len(b):
				continue
			default:
				x[k] = []byte{0xff, 0, x[k] ^ 1<<r.Intn(8)}[way-3]
			}
			c.Count("swept_packets", 1)
			g.add(len(x) + 4)
			if p.Conn.WriteAll(framed(tr.ch, x)) != nil || p.Conn.Err() != nil {
				open()
			}
		}
		p.Conn.Do(dialT, "OPTIONS", strings.TrimSuffix(base, "/"), nil, nil)
	}
	return
}
