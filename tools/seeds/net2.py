C = open("/verif/tools/seeds/common.go.txt").read()
P = "librtmp"
SEEDS = [
dict(id="N20-pull-defer", prop="C41", pkg=P,
 edits=[("librtmp/rtmp.go", '''func (rtmp *RTMP) HandlerClient() {
	defer rtmp.cleanup()

''', '''func (rtmp *RTMP) HandlerClient() {
'''), ("librtmp/rtmp.go", '''		fmt.Println("client handshake error:", err)
		return
	}
''', '''		fmt.Println("client handshake error:", err)
		return
	}
	defer rtmp.cleanup()
''')],
 needs="an upstream whose handshake is refused (another version, or cut short) while it keeps the connection open",
 breaks="every attempt leaves a connection open, until there are no descriptors left",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	down := freeTCP(t)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	go func() {
		_ = librtmp.NewServer(down, "live").WithRTMPPull("rtmp://"+ln.Addr().String()+"/live/a", "live", "b").Handler()
	}()
	ln.(*net.TCPListener).SetDeadline(time.Now().Add(15 * time.Second))
	var keep []net.Conn
	for i := 0; i < 2; i++ {
		c, err := ln.Accept()
		if err != nil {
			t.Fatal(err)
		}
		keep = append(keep, c)
		c.Write(make([]byte, 1+1536+1536)) // version 0
	}
	// the first session was given up
	keep[0].SetReadDeadline(time.Now().Add(2 * time.Second))
	if _, err := io.Copy(io.Discard, keep[0]); err != nil && strings.Contains(err.Error(), "timeout") {
		t.Fatal("the connection that was given up is still open")
	}
}
'''),
]
