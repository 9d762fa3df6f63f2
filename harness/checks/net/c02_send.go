package net

import (
	"bytes"
	"io"
	"math/rand"
	"net"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtmp"

	"vharness/ref/rtmp"
	"vharness/vh"
)

// connBuf is a connection that keeps what is written.
type connBuf struct{ bytes.Buffer }

func (*connBuf) Close() error                     { return nil }
func (*connBuf) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (*connBuf) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (*connBuf) SetDeadline(time.Time) error      { return nil }
func (*connBuf) SetReadDeadline(time.Time) error  { return nil }
func (*connBuf) SetWriteDeadline(time.Time) error { return nil }

func edgeTS(r *rand.Rand) uint32 {
	switch r.Intn(3) {
	case 0:
		return pick(r, uint32(0), 1, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff)
	case 1:
		return r.Uint32()
	}
	return r.Uint32() & 0xffffff
}

// chunksOut writes messages chunk by chunk with Chunk.Send, over every kind
// of chunk stream id and header, and reads them back with the independent
// reader.
func chunksOut(c *vh.C, n int) {
	r := c.R
	out := &connBuf{}
	var sent []*rtmp.Msg
	c.Call("Chunk.Send", func() {
		rt := librtmp.NewRTMP(out, "", nil)
		last := map[uint32]uint32{}
		ids := []uint32{3, 63, 64, 65, 319, 320, 65599}
		for i := 0; i < 5; i++ {
			ids = append(ids, 3+uint32(r.Intn(65597)))
		}
		for i := 0; i < n; i++ {
			m := &rtmp.Msg{CSID: ids[r.Intn(len(ids))], Type: pick(r, byte(8), 9, 18, 20), TS: edgeTS(r), Body: make([]byte, 1+r.Intn(pick(r, 20, 128, 400, 1000)))}
			r.Read(m.Body)
			m.MSID = pick(r, uint32(0), 1, r.Uint32())
			f := 0
			var delta uint32
			if ts, ok := last[m.CSID]; ok && r.Intn(2) == 0 {
				f = 1
				delta = edgeTS(r)
				m.TS = ts + delta
				for j := len(sent) - 1; ; j-- {
					if sent[j].CSID == m.CSID {
						m.MSID = sent[j].MSID
						if r.Intn(2) == 0 {
							f = 2
							m.Type = sent[j].Type
							m.Body = make([]byte, len(sent[j].Body))
							r.Read(m.Body)
						}
						break
					}
				}
			}
			for off := 0; off < len(m.Body); off += 128 {
				end := off + 128
				if end > len(m.Body) {
					end = len(m.Body)
				}
				k := librtmp.MessageHeaderType(f)
				if off > 0 {
					k = librtmp.FMT3
				}
				ts := m.TS
				if f != 0 && off > 0 { // the value of the header it continues
					ts = delta
				}
				ck := librtmp.NewChunk(librtmp.MessageType(m.Type), uint32(len(m.Body)), ts, k, m.CSID, m.Body[off:end])
				ck.MessageStreamID = m.MSID
				ck.MessageTimeDelta = delta
				if err := ck.Send(rt); err != nil {
					c.Fail("chunk-send", "%v type %d: %v", m, f, err)
				}
			}
			last[m.CSID] = m.TS
			sent = append(sent, m)
		}
	})
	rd := rtmp.NewReader(&out.Buffer)
	for i, w := range sent {
		g, err := rd.Next()
		if err != nil || g.CSID != w.CSID || g.Type != w.Type || g.TS != w.TS || g.MSID != w.MSID || !bytes.Equal(g.Body, w.Body) {
			c.Fail("chunk-bytes", "message %d: written %v % x, read %v % x, %v", i, w, w.Body, g, g.Body, err)
		}
	}
	if g, err := rd.Next(); err != io.EOF {
		c.Fail("chunk-bytes", "behind the last message: %v, %v", g, err)
	}
	c.Count("library_messages", n)
}
