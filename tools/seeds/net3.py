C = open("/verif/tools/seeds/common.go.txt").read()
P = "librtmp"
SEEDS = [
dict(id="N21-ws-case", prop="C35", pkg=P,
 edits=[("librtmp/server.go", '''strings.EqualFold(r.Header.Get("Upgrade"), "websocket")''', '''r.Header.Get("Upgrade") == "websocket"''')],
 needs="a client that spells the token WebSocket, as RFC 6455's grammar allows",
 breaks="the upgrade is not recognised: the client is answered 200 and a plain FLV stream",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	p := dial(t, s).publish("a")
	p.video(0, avcc(sps, pps))
	for _, word := range []string{"websocket", "WebSocket", "Websocket"} {
		c, err := net.Dial("tcp", s.flv)
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(10 * time.Second))
		fmt.Fprintf(c, "GET /live/a.flv HTTP/1.1\\r\\nHost: h\\r\\nUpgrade: %s\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n", word)
		if resp, err := http.ReadResponse(bufio.NewReader(c), nil); err != nil || resp.StatusCode != 101 {
			t.Fatal(word, resp, err)
		}
	}
}
'''),
dict(id="N22-digest-spread", prop="C10", pkg=P,
 edits=[("librtmp/handshake.go", "digestOffset := (int(c1[digestBufOffset]) + int(c1[digestBufOffset+1]) + int(c1[digestBufOffset+2]) + int(c1[digestBufOffset+3])) % handshakeDigestSpread", "digestOffset := (int(c1[digestBufOffset]) + int(c1[digestBufOffset+1]) + int(c1[digestBufOffset+2]) + int(c1[digestBufOffset+3])) % (handshakeBlockSize - handshakeDigestSize)")],
 needs="a digest handshake whose offset bytes add up to 728 or more",
 breaks="the digest is looked for in the wrong place: the client gets a plain echo and no valid response",
 demo=C.replace('"bytes"\n', '"bytes"\n\t"crypto/hmac"\n\t"crypto/sha256"\n',1)+'''
func mac(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func TestSeedDemo(t *testing.T) {
	s := serve(t, libhls.NONE)
	player := []byte("Genuine Adobe Flash Player 001")
	tail := []byte{0xf0, 0xee, 0xc2, 0x4a, 0x80, 0x68, 0xbe, 0xe8, 0x2e, 0, 0xd0, 0xd1, 0x02, 0x9e, 0x7e, 0x57, 0x6e, 0xec, 0x5d, 0x2d, 0x29, 0x80, 0x6f, 0xab, 0x93, 0xb8, 0xe6, 0x36, 0xcf, 0xeb, 0x31, 0xae}
	media := append([]byte("Genuine Adobe Flash Media Server 001"), tail...)
	for _, base := range []int{8, 772} {
		for _, sum := range []int{100, 400, 727, 728, 729, 731, 740, 1000} {
			c1 := make([]byte, 1536)
			for i := range c1 {
				c1[i] = byte(i*i*31 + i*7 + sum)
			}
			copy(c1[4:8], []byte{9, 0, 124, 2})
			for i, left := 0, sum; i < 4; i++ {
				x := left
				if x > 255 {
					x = 255
				}
				c1[base+i] = byte(x)
				left -= x
			}
			at := base + 4 + sum%728
			digest := mac(player, c1[:at], c1[at+32:])
			copy(c1[at:], digest)
			conn, err := net.Dial("tcp", s.rtmp)
			if err != nil {
				t.Fatal(err)
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(10 * time.Second))
			conn.Write(append([]byte{3}, c1...))
			in := make([]byte, 1+1536+1536)
			if _, err := io.ReadFull(conn, in); err != nil {
				t.Fatal(err)
			}
			s2 := in[1537:]
			if !bytes.Equal(s2[1504:], mac(mac(media, digest), s2[:1504])) {
				t.Fatalf("digest block at %d, offset bytes adding up to %d: S2 has no valid response", base, sum)
			}
		}
	}
}
'''),
]
