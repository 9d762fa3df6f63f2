import os
C = open("/verif/tools/seeds/common.go.txt").read()
P = "librtmp"
SEEDS = [
dict(id="N01-fmt2-ext", prop="C01", pkg=P,
 edits=[("librtmp/chunk.go", "\t\tcase FMT1, FMT2:\n\t\t\tcmhp.MessageTimeDelta = ext", "\t\tcase FMT1:\n\t\t\tcmhp.MessageTimeDelta = ext")],
 needs="a type 2 chunk header with an extended time delta (a gap of 4.6 hours or more, or a time that steps back)",
 breaks="the delta is taken for 0xffffff",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0, avcc(sps, pps))
	p.video(1000, frame(true, 20))
	next := flv(t, s, "a")
	for m := next(); m.typ != 9 || m.ts != 1000; m = next() {
	}
	f := frame(true, 20)
	// same chunk stream and length, delta 0x1000000 in the extended field
	p.raw(append([]byte{0x80 | 6, 0xff, 0xff, 0xff, 1, 0, 0, 0}, f...))
	for {
		m := next()
		if m.typ == 9 && len(m.body) > 1 && m.body[1] == 1 {
			if m.ts != 1000+0x1000000 {
				t.Fatalf("time %d", m.ts)
			}
			return
		}
	}
}
'''),
dict(id="N02-csid-form", prop="C01", pkg=P,
 edits=[("librtmp/chunk.go", "cbhp.CsID = uint32(b2[0]) + uint32(b2[1])*256 + 64", "cbhp.CsID = uint32(b2[0])*256 + uint32(b2[1]) + 64")],
 needs="one chunk stream id written in the two-byte and in the three-byte form",
 breaks="the forms name different chunk streams, so messages are mixed up",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0, avcc(sps, pps))
	f := frame(true, 20)
	n := byte(len(f))
	p.raw(append([]byte{0x00, 10, 0, 0, 40, 0, 0, n, 9, 1, 0, 0, 0}, f...))
	next := flv(t, s, "a")
	// chunk stream 74 again, in three bytes: same length and type, 40 ms later
	p.raw(append([]byte{0x80 | 1, 10, 0, 0, 0, 40}, frame(false, 20)...))
	for {
		m := next()
		if m.typ == 9 && m.body[0] == 0x27 {
			if m.ts != 80 {
				t.Fatalf("time %d", m.ts)
			}
			return
		}
	}
}
'''),
dict(id="N03-ext-edge", prop="C02", pkg=P,
 edits=[("librtmp/chunk.go", "useExt := tsField >= MAX_TIMESTAMP", "useExt := tsField > MAX_TIMESTAMP")],
 needs="a message at exactly 0xffffff ms",
 breaks="the header says an extended time follows and none does",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0xfffff0, avcc(sps, pps))
	p.video(0xfffff0, frame(true, 20))
	v := dial(t, s).play("a")
	p.video(0xffffff, frame(false, 30))
	p.video(0x1000010, frame(false, 40))
	for _, want := range []uint32{0xfffff0, 0xfffff0, 0xffffff, 0x1000010} {
		m := v.media()
		if m.typ != 9 || m.ts != want {
			t.Fatalf("type %d time %d", m.typ, m.ts)
		}
	}
}
'''),
dict(id="N05-fcunpublish", prop="C11", pkg=P,
 edits=[("librtmp/command_message.go", "case RELEASE_STREAM, FCPUBLISH, FCUNPUBLISH:", "case RELEASE_STREAM, FCPUBLISH:")],
 needs="FCUnpublish with the name of another stream",
 breaks="it ends the stream the connection publishes",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0, avcc(sps, pps))
	p.video(0, frame(true, 20))
	next := flv(t, s, "a")
	for m := next(); m.typ != 9; m = next() {
	}
	p.command("Unpublish.Success", "FCUnpublish", 4, nil, "other")
	p.video(40, frame(false, 30))
	for {
		if m := next(); m.ts == 40 {
			return
		}
	}
}
'''),
dict(id="N06-short-pause", prop="C13", pkg=P,
 edits=[("librtmp/command_message.go", "if len(array) >= 5 {\n\t\t\tcm.PauseFlag", "if len(array) >= 4 {\n\t\t\tcm.PauseFlag")],
 needs="a pause command without its position",
 breaks="index out of range ends the server",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	c := dial(t, s).connect()
	c.send(3, 0, 20, 0, 0, amf("pause", 0, nil, true))
	c.send(3, 0, 20, 0, 0, amf("pause", 0, nil, true, 40))
	c.command("_result", "createStream", 2, nil)
}
'''),
dict(id="N07-ws-126", prop="C03", pkg=P,
 edits=[("librtmp/websocket.go", "case n < 126:", "case n <= 126:")],
 needs="a WebSocket message of exactly 126 bytes",
 breaks="the length byte announces a two-byte length that is not there",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0, avcc(sps, pps))
	p.video(0, frame(true, 20))
	c, err := net.Dial("tcp", s.flv)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(c, "GET /live/a.flv HTTP/1.1\\r\\nHost: h\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n")
	r := bufio.NewReader(c)
	if resp, err := http.ReadResponse(r, nil); err != nil || resp.StatusCode != 101 {
		t.Fatal(resp, err)
	}
	var stream []byte
	more := func(n int) {
		for len(stream) < n {
			h := make([]byte, 2)
			if _, err := io.ReadFull(r, h); err != nil {
				t.Fatal(err)
			}
			if h[0] != 0x82 {
				t.Fatalf("frame % x", h)
			}
			l := int(h[1])
			if l >= 126 {
				b := make([]byte, []int{2, 8}[l-126])
				if _, err := io.ReadFull(r, b); err != nil {
					t.Fatal(err)
				}
				l = 0
				for _, x := range b {
					l = l<<8 | int(x)
				}
			}
			b := make([]byte, l)
			if _, err := io.ReadFull(r, b); err != nil {
				t.Fatal(err)
			}
			stream = append(stream, b...)
		}
	}
	take := func(n int) []byte { more(n); b := stream[:n]; stream = stream[n:]; return b }
	take(13)
	for n := 90; n < 140; n++ {
		p.video(uint32(n), frame(false, n))
	}
	for {
		h := take(11)
		if h[0] != 8 && h[0] != 9 && h[0] != 18 {
			t.Fatalf("tag % x", h)
		}
		take(int(h[1])<<16 | int(h[2])<<8 | int(h[3]))
		take(4)
		if h[6] == 139 {
			return
		}
	}
}
'''),
dict(id="N08-ws-client-len", prop="C35", pkg=P,
 edits=[("librtmp/websocket.go", "plen = uint64(binary.BigEndian.Uint16(ext))", "plen = uint64(ext[1])")],
 needs="a client message of 256 bytes or more before a ping",
 breaks="the server loses the frame boundary and does not answer the ping",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0, avcc(sps, pps))
	c, err := net.Dial("tcp", s.flv)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(10 * time.Second))
	fmt.Fprintf(c, "GET /live/a.flv HTTP/1.1\\r\\nHost: h\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n")
	r := bufio.NewReader(c)
	if resp, err := http.ReadResponse(r, nil); err != nil || resp.StatusCode != 101 {
		t.Fatal(resp, err)
	}
	c.Write(append([]byte{0x81, 0x80 | 126, 1, 44, 0, 0, 0, 0}, bytes.Repeat([]byte{'x'}, 300)...))
	c.Write([]byte{0x89, 0x84, 0, 0, 0, 0, 'p', 'i', 'n', 'g'})
	for {
		h := make([]byte, 2)
		if _, err := io.ReadFull(r, h); err != nil {
			t.Fatal(err)
		}
		if h[1] >= 126 {
			t.Fatalf("frame % x", h)
		}
		b := make([]byte, h[1])
		if _, err := io.ReadFull(r, b); err != nil {
			t.Fatal(err)
		}
		if h[0] == 0x8a && string(b) == "ping" {
			return
		}
	}
}
'''),
dict(id="N11-hvcc-complete", prop="C27", pkg=P,
 edits=[("librtmp/rtsp_server.go", "nalType := src[off] & 0x3F", "nalType := src[off]")],
 needs="an HEVC configuration record whose arrays are marked complete",
 breaks="its parameter sets are not found, so RTSP players are not told them",
 demo=C+'''
func hvcc(bits byte) []byte {
	b := []byte{0x1c, 0, 0, 0, 0, 1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xfd, 0xf8, 0xf8, 0, 0, 0x0f, 3}
	for _, n := range [][]byte{
		{0x40, 1, 0x0c, 1, 0xff, 0xff, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5d, 0x95, 0x98, 9},
		{0x42, 1, 1, 1, 0x60, 0, 0, 3, 0, 0x90, 0, 0, 3, 0, 0, 3, 0, 0x5d, 0xa0, 2, 0x80, 0x80, 0x2d, 0x16, 0x59, 0x59, 0xa4, 0x93, 0x2b, 0xc0, 0x5a, 0x02, 0, 0, 3, 0, 2, 0, 0, 3, 0, 0x3c, 0x10},
		{0x44, 1, 0xc1, 0x72, 0xb4, 0x62, 0x40},
	} {
		b = append(b, bits|n[0]>>1, 0, 1, byte(len(n)>>8), byte(len(n)))
		b = append(b, n...)
	}
	return b
}

func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	for i, bits := range []byte{0, 0x80} {
		name := fmt.Sprint("s", i)
		p := dial(t, s).publish(name)
		p.video(0, hvcc(bits))
		p.command("_result", "createStream", 5, nil)
		c, r := rtspDial(t, s)
		head, body := rtspDo(t, c, r, "DESCRIBE rtsp://h/live/"+name+" RTSP/1.0\\r\\nCSeq: 1\\r\\n")
		if !strings.Contains(head, " 200 ") || !strings.Contains(body, "sprop-sps=") {
			t.Fatal(head, body)
		}
	}
}
'''),
dict(id="N12-pull-path", prop="C38", pkg=P,
 edits=[("librtmp/client.go", '''func parsePlayName(p string) string {
	p = strings.TrimPrefix(p, "/")
	if i := strings.Index(p, "/"); i >= 0 {''', '''func parsePlayName(p string) string {
	p = strings.TrimPrefix(p, "/")
	if i := strings.LastIndex(p, "/"); i >= 0 {''')],
 needs="an upstream stream whose name contains a slash",
 breaks="another stream of the upstream is pulled",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	for i, name := range []string{"x/y", "y"} {
		p := dial(t, s).publish(name)
		p.video(0, avcc(sps, pps))
		p.video(0, frame(true, 20+i))
	}
	local := freeTCP(t)
	http_ := freeTCP(t)
	go func() {
		_ = librtmp.NewServer(local, "live").WithHTTPFlv(http_).WithRTMPPull("rtmp://"+s.rtmp+"/live/x/y", "live", "z").Handler()
	}()
	for i := 0; ; i++ {
		resp, err := http.Get("http://" + http_ + "/live/z.flv")
		if err == nil {
			resp.Body.Close()
			if resp.StatusCode == 200 {
				break
			}
		}
		if i == 200 {
			t.Fatal("not pulled")
		}
		time.Sleep(50 * time.Millisecond)
	}
	next := flv(t, &server{flv: http_}, "z")
	for {
		if m := next(); m.typ == 9 && m.body[1] == 1 {
			if !bytes.Equal(m.body, frame(true, 20)) {
				t.Fatalf("% x", m.body)
			}
			return
		}
	}
}
'''),
dict(id="N14-interleaved", prop="C29", pkg=P,
 edits=[("librtmp/rtsp_server.go", 'fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", rtpCh, rtcpCh))', 'fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", rtpCh&^1, rtcpCh|1))')],
 needs="a SETUP that asks for a channel pair starting at an odd number, such as 1-2",
 breaks="the reply names other channels than those in use",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0, avcc(sps, pps))
	p.command("_result", "createStream", 5, nil)
	for _, ch := range []string{"0-1", "4-5", "1-2", "7-8"} {
		c, r := rtspDial(t, s)
		head, _ := rtspDo(t, c, r, "SETUP rtsp://h/live/a/trackID=0 RTSP/1.0\\r\\nCSeq: 1\\r\\nTransport: RTP/AVP/TCP;unicast;interleaved="+ch+"\\r\\n")
		if !strings.Contains(head, " 200 ") || !strings.Contains(head, "interleaved="+ch) {
			t.Fatal(ch, head)
		}
	}
}
'''),
]
