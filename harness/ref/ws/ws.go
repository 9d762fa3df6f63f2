// Package ws is an independent, strict WebSocket client (RFC 6455).
package ws

import (
	"bufio"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"
)

type Frame struct {
	Op      byte
	Payload []byte
}

type Conn struct {
	net.Conn
	BR   *bufio.Reader
	Resp *http.Response
	r    *rand.Rand
	mu   sync.Mutex
}

type ErrProto struct{ S string }

func (e ErrProto) Error() string { return "ws: " + e.S }

func bad(f string, a ...interface{}) error { return ErrProto{fmt.Sprintf(f, a...)} }

// Key is a random handshake key.
func Key(r *rand.Rand) string {
	b := make([]byte, 16)
	r.Read(b)
	return base64.StdEncoding.EncodeToString(b)
}

func Accept(key string) string {
	s := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(s[:])
}

// Dial upgrades. style varies the spelling of the request's headers.
func Dial(addr, path string, r *rand.Rand, style int, d time.Duration) (*Conn, error) {
	c, err := net.DialTimeout("tcp", addr, d)
	if err != nil {
		return nil, err
	}
	return Upgrade(c, addr, path, r, style, d)
}

// Upgrade upgrades an open connection.
func Upgrade(c net.Conn, addr, path string, r *rand.Rand, style int, d time.Duration) (*Conn, error) {
	key := Key(r)
	h := []string{"Host: " + addr, "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Key: " + key, "Sec-WebSocket-Version: 13"}
	switch style {
	case 1:
		h = []string{"host: " + addr, "upgrade: WebSocket", "connection: keep-alive, Upgrade", "sec-websocket-key: " + key, "sec-websocket-version: 13"}
	case 2:
		h = []string{"HOST: " + addr, "SEC-WEBSOCKET-VERSION: 13", "SEC-WEBSOCKET-KEY:" + key, "CONNECTION: upgrade", "UPGRADE:   websocket  ", "Origin: http://example.com", "Sec-WebSocket-Protocol: flv"}
	case 3:
		h = append(h, "Sec-WebSocket-Extensions: permessage-deflate", "Cookie: a=b")
		r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
	}
	c.SetDeadline(time.Now().Add(d))
	io.WriteString(c, "GET "+path+" HTTP/1.1\r\n"+strings.Join(h, "\r\n")+"\r\n\r\n")
	br := bufio.NewReaderSize(c, 8<<10)
	resp, err := http.ReadResponse(br, &http.Request{Method: "GET"})
	if err != nil {
		c.Close()
		return nil, err
	}
	c.SetDeadline(time.Time{})
	w := &Conn{Conn: c, BR: br, Resp: resp, r: r}
	if resp.StatusCode != 101 {
		c.Close()
		return w, fmt.Errorf("ws: status %d", resp.StatusCode)
	}
	if a := resp.Header.Get("Sec-WebSocket-Accept"); a != Accept(key) {
		c.Close()
		return w, bad("accept key %q for key %q", a, key)
	}
	if !strings.EqualFold(resp.Header.Get("Upgrade"), "websocket") || !strings.Contains(strings.ToLower(resp.Header.Get("Connection")), "upgrade") {
		c.Close()
		return w, bad("upgrade reply headers %v", resp.Header)
	}
	if e := resp.Header.Get("Sec-WebSocket-Extensions"); e != "" {
		c.Close()
		return w, bad("extension %q agreed to", e)
	}
	return w, nil
}

// New is an upgraded connection.
func New(c net.Conn, br *bufio.Reader, r *rand.Rand) *Conn {
	return &Conn{Conn: c, BR: br, r: r}
}

// Raw writes bytes as they are.
func (c *Conn) Raw(b []byte) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	_, err := c.Conn.Write(b)
	return err
}

// Read reads one frame, strictly.
func (c *Conn) Read() (*Frame, error) {
	var h [2]byte
	if _, err := io.ReadFull(c.BR, h[:]); err != nil {
		return nil, err
	}
	if h[0]&0x70 != 0 {
		return nil, bad("reserved bits in frame header % x", h)
	}
	if h[1]&0x80 != 0 {
		return nil, bad("masked frame from the server % x", h)
	}
	op, fin, n := h[0]&15, h[0]&0x80 != 0, uint64(h[1]&0x7f)
	var e [8]byte
	rd := func(b []byte) error {
		_, err := io.ReadFull(c.BR, b)
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	switch n {
	case 126:
		if err := rd(e[:2]); err != nil {
			return nil, err
		}
		if n = uint64(binary.BigEndian.Uint16(e[:])); n < 126 {
			return nil, bad("length %d in 16 bits", n)
		}
	case 127:
		if err := rd(e[:]); err != nil {
			return nil, err
		}
		if n = binary.BigEndian.Uint64(e[:]); n < 65536 {
			return nil, bad("length %d in 64 bits", n)
		}
	}
	if op >= 8 && (n > 125 || !fin) {
		return nil, bad("control frame op %d fin %v length %d", op, fin, n)
	}
	if n > 1<<28 {
		return nil, bad("frame of %d bytes", n)
	}
	switch op {
	case 0, 1, 2, 8, 9, 10:
	default:
		return nil, bad("opcode %d", op)
	}
	if op < 8 && !fin {
		return nil, bad("fragmented frame")
	}
	f := &Frame{Op: op, Payload: make([]byte, n)}
	if err := rd(f.Payload); err != nil {
		return nil, err
	}
	if op == 8 {
		if n == 1 {
			return nil, bad("close frame with 1 byte")
		}
		if n >= 2 {
			if code := binary.BigEndian.Uint16(f.Payload); code < 1000 || code == 1004 || code == 1005 || code == 1006 || code >= 1015 && code < 3000 || code >= 5000 {
				return nil, bad("close code %d", code)
			}
		}
	}
	return f, nil
}

// Bytes is a masked client frame.
func Bytes(op byte, payload []byte, mask [4]byte) []byte {
	b := []byte{0x80 | op}
	switch n := len(payload); {
	case n < 126:
		b = append(b, 0x80|byte(n))
	case n < 65536:
		b = append(b, 0x80|126, byte(n>>8), byte(n))
	default:
		b = append(b, 0x80|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	b = append(b, mask[:]...)
	for i, x := range payload {
		b = append(b, x^mask[i%4])
	}
	return b
}

// Send writes a masked frame.
func (c *Conn) Send(op byte, payload []byte) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	var m [4]byte
	c.r.Read(m[:])
	_, err := c.Conn.Write(Bytes(op, payload, m))
	return err
}
