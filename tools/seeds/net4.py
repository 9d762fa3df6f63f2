C = open("/verif/tools/seeds/common.go.txt").read()
P = "librtmp"
SRT = '''
// srtCall opens a session of an SRT caller and returns what sends its payloads.
func srtCall(t *testing.T, addr string) func([]byte) {
	conn, err := net.Dial("udp", addr)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { conn.Close() })
	hello := func(version, typ, cookie uint32) []byte {
		b := make([]byte, 64)
		binary.BigEndian.PutUint32(b, 1<<31)
		for i, v := range map[int]uint32{0: version, 8: 77, 12: 1500, 16: 8192, 20: typ, 24: 0x1234, 28: cookie} {
			binary.BigEndian.PutUint32(b[16+i:], v)
		}
		for i := 0; i < 40; i++ {
			conn.Write(b)
			in := make([]byte, 2000)
			conn.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
			if n, err := conn.Read(in); err == nil && n >= 64 && binary.BigEndian.Uint32(in[36:]) == typ {
				return in
			}
			time.Sleep(50 * time.Millisecond)
		}
		t.Fatal("no handshake")
		return nil
	}
	in := hello(4, 1, 0)
	in = hello(5, 0xffffffff, binary.BigEndian.Uint32(in[44:]))
	seq := uint32(77)
	return func(p []byte) {
		b := make([]byte, 16, 16+len(p))
		binary.BigEndian.PutUint32(b, seq)
		binary.BigEndian.PutUint32(b[4:], 3<<30|seq)
		copy(b[12:], in[40:44])
		seq++
		conn.Write(append(b, p...))
	}
}

func crcMPEG(b []byte) []byte {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if c>>31 == 1 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

// tsPacket wraps a payload of at most 182 bytes.
func tsPacket(pid int, cc byte, payload []byte) []byte {
	n := 184 - len(payload) // adaptation field
	b := []byte{0x47, 0x40 | byte(pid>>8), byte(pid), 0x30 | cc&15, byte(n - 1), 0}
	for len(b) < 188-len(payload) {
		b = append(b, 0xff)
	}
	return append(b, payload...)
}

func tables(cc byte, streamType byte) []byte {
	pat := crcMPEG([]byte{0, 0xb0, 13, 0, 1, 0xc1, 0, 0, 0, 1, 0xf0, 0})
	pmt := crcMPEG([]byte{2, 0xb0, 18, 0, 1, 0xc1, 0, 0, 0xe1, 1, 0xf0, 0, streamType, 0xe1, 1, 0xf0, 0})
	return append(tsPacket(0, cc, append([]byte{0}, pat...)), tsPacket(0x1000, cc, append([]byte{0}, pmt...))...)
}

func ptsField(first byte, v uint64) []byte {
	return []byte{first<<4 | byte(v>>29)&14 | 1, byte(v >> 22), byte(v>>14) | 1, byte(v >> 7), byte(v<<1) | 1}
}
'''
SEEDS = [
dict(id="N23-srt-7-1", prop="C34", pkg=P,
 edits=[("librtmp/srt_server.go", "channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)", "channels := (af.Data[3] >> 6) & 0x03")],
 needs="audio of four or more channels, whose ADTS channel configuration has its high bit in the previous byte",
 breaks="the AudioSpecificConfig viewers get announces other channels: 5.1 becomes stereo, 7.1 three channels",
 demo=C+SRT+'''
func TestSeedDemo(t *testing.T) {
	rtmp, web := freeTCP(t), freeTCP(t)
	srv := librtmp.NewServer(rtmp, "live").WithHTTPFlv(web)
	channels := []byte{1, 2, 6, 7}
	var addrs []string
	for _, n := range channels {
		u, err := net.ListenPacket("udp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		addrs = append(addrs, u.LocalAddr().String())
		u.Close()
		srv = srv.WithSRT(addrs[len(addrs)-1], "live", fmt.Sprint("s", n))
	}
	go func() { _ = srv.Handler() }()
	s := &server{rtmp: rtmp, flv: web}
	for i, n := range channels {
		send := srtCall(t, addrs[i])
		stop := make(chan bool)
		go func() {
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Millisecond):
				}
				size := 7 + 20
				pes := append([]byte{0, 0, 1, 0xc0, 0, byte(8 + size), 0x80, 0x80, 5}, ptsField(2, uint64(90000+k*2090))...)
				pes = append(pes, 0xff, 0xf1, 1<<6|4<<2|n>>2, n<<6|byte(size>>11), byte(size>>3), byte(size<<5)|0x1f, 0xfc)
				pes = append(pes, bytes.Repeat([]byte{0x21}, 20)...)
				send(append(tables(byte(k), 0x0f), tsPacket(0x101, byte(k), pes)...))
			}
		}()
		for k := 0; ; k++ {
			if resp, err := http.Head("http://" + s.flv + "/live/" + fmt.Sprint("s", n) + ".flv"); err == nil && resp.StatusCode == 200 {
				resp.Body.Close()
				break
			}
			if k == 200 {
				t.Fatal("not published")
			}
			time.Sleep(20 * time.Millisecond)
		}
		next := flv(t, s, fmt.Sprint("s", n))
		for {
			m := next()
			if m.typ == 8 && len(m.body) >= 4 && m.body[1] == 0 {
				if got := m.body[3] >> 3 & 15; got != n {
					t.Fatalf("channel configuration %d, sent %d", got, n)
				}
				break
			}
		}
		close(stop)
	}
}
'''),
dict(id="N24-pull-escape", prop="C38", pkg=P,
 edits=[("librtmp/client.go", "rtmp.playType = parsePlayName(u.Path)", "rtmp.playType = parsePlayName(u.EscapedPath())")],
 needs="an upstream stream whose name has to be escaped in a URL",
 breaks="the upstream is asked for a stream it does not have, and the local stream never appears",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	up := serve(t, libhls.NONE)
	p := dial(t, up).publish("cam 1")
	p.video(0, avcc(sps, pps))
	down, web := freeTCP(t), freeTCP(t)
	go func() {
		_ = librtmp.NewServer(down, "live").WithHTTPFlv(web).WithRTMPPull("rtmp://"+up.rtmp+"/live/cam%201", "live", "b").Handler()
	}()
	for i := 0; i < 100; i++ {
		p.video(uint32(i*40), frame(i%5 == 0, 50))
		resp, err := http.Head("http://" + web + "/live/b.flv")
		if err == nil && resp.StatusCode == 200 {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("the pulled stream is not there")
}
'''),
dict(id="N25-pull-taken", prop="C38", pkg=P,
 edits=[("librtmp/client.go", '''	if existing := app.Load(pc.spec.streamID); existing != nil {
		_ = conn.Close()
''', '''	if existing := app.Load(pc.spec.streamID); existing != nil {
''')],
 needs="a local publisher that has the name of the pull for some retries",
 breaks="every attempt leaves its connection to the upstream open",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	s := &server{rtmp: freeTCP(t)}
	go func() {
		_ = librtmp.NewServer(s.rtmp, "live").WithRTMPPull("rtmp://"+ln.Addr().String()+"/live/a", "live", "b").Handler()
	}()
	ln.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Second))
	c, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	dial(t, s).publish("b")
	c.Close() // now the name is taken
	if c, err = ln.Accept(); err != nil {
		t.Fatal(err)
	}
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, err := io.Copy(io.Discard, c); err != nil && strings.Contains(err.Error(), "timeout") {
		t.Fatal("the connection that cannot be used stays open")
	}
}
'''),
dict(id="N26-rtsp-new-session", prop="C29", pkg=P,
 edits=[("librtmp/rtsp_server.go", '	if s.sessionID == "" {', '	if useUDP || s.sessionID == "" {')],
 needs="a client that sets up two tracks over UDP",
 breaks="the second SETUP answers another session id; the first one the client uses is no longer the session's",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0, avcc(sps, pps))
	p.send(4, 0, 8, 1, 0, []byte{0xaf, 0, 0x12, 0x10})
	c, r := rtspDial(t, s)
	base := "rtsp://" + s.rtsp + "/live/a"
	for i := 0; i < 100; i++ {
		if h, b := rtspDo(t, c, r, "DESCRIBE "+base+" RTSP/1.0\\r\\nCSeq: 1\\r\\n"); strings.Contains(h, " 200 ") && strings.Contains(b, "m=audio") && strings.Contains(b, "m=video") {
			break
		}
		time.Sleep(30 * time.Millisecond)
	}
	ids := map[string]bool{}
	for i := 0; i < 2; i++ {
		h, _ := rtspDo(t, c, r, fmt.Sprintf("SETUP %s/trackID=%d RTSP/1.0\\r\\nCSeq: %d\\r\\nTransport: RTP/AVP;unicast;client_port=%d-%d\\r\\n", base, i, i+2, 40000+2*i, 40001+2*i))
		if !strings.Contains(h, " 200 ") {
			t.Fatal(h)
		}
		for _, l := range strings.Split(h, "\\r\\n") {
			if strings.HasPrefix(strings.ToLower(l), "session:") {
				ids[strings.TrimSpace(strings.Split(l[8:], ";")[0])] = true
			}
		}
	}
	if len(ids) != 1 {
		t.Fatal("session ids: ", ids)
	}
}
'''),
]
