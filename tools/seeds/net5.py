C = open("/verif/tools/seeds/common.go.txt").read()
P = "librtmp"
SEEDS = [
dict(id="N27-abort-csid", prop="C01", pkg=P,
 edits=[("librtmp/control_message.go", "	am.ChunkStreamID = binary.BigEndian.Uint32(am.messagePayload[:4])", "	am.ChunkStreamID = uint32(binary.BigEndian.Uint16(am.messagePayload[2:4]))")],
 needs="an Abort message that names one of the topmost chunk streams, 65536 to 65599",
 breaks="the started message is not dropped, and the next one on its chunk stream is joined to it",
 demo=C+'''
func TestSeedDemo(t *testing.T) {
	for _, id := range []uint32{70, 400, 65535, 65536, 65599} {
		s := serve(t, libhls.NONE)
		p := dial(t, s).publish("a")
		p.send(2, 2, 1, 0, 0, []byte{0, 0, 0, 100}) // chunks of 100 bytes
		p.video(0, avcc(sps, pps))
		key := frame(true, 80)
		p.video(0, key)
		next := flv(t, s, "a")
		for m := next(); !bytes.Equal(m.body, key); m = next() {
		}
		head := func(f byte) []byte { return []byte{f<<6 | 1, byte(id - 64), byte((id - 64) >> 8)} }
		lost, want := frame(false, 141), frame(false, 141)
		want[20]++
		p.raw(append(append(head(0), 0, 0, 40, 0, 0, byte(len(key)), 9, 1, 0, 0, 0), key...))
		next()
		p.raw(append(append(head(1), 0, 0, 40, 0, 0, byte(len(lost)), 9), lost[:100]...))
		p.send(2, 2, 2, 0, 0, []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)})
		p.raw(append(head(3), want[:100]...))
		p.raw(append(head(3), want[100:]...))
		p.video(200, frame(false, 20))
		if m := next(); !bytes.Equal(m.body, want) {
			t.Fatalf("chunk stream %d: after the abort a viewer gets %x, sent %x", id, m.body, want)
		}
	}
}
'''),
]
