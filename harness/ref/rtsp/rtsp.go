// Package rtsp is an independent, strict RTSP/1.0 client connection (RFC 2326).
package rtsp

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Reply is a parsed response.
type Reply struct {
	Code   int
	Reason string
	H      map[string]string // lower-case names
	Body   []byte
	Pos    int // position among everything received
}

func (r *Reply) String() string {
	return fmt.Sprintf("%d %s %v body %d", r.Code, r.Reason, r.H, len(r.Body))
}

// Frame is an interleaved frame.
type Frame struct {
	Ch   byte
	Data []byte
	Pos  int
}

type ErrProto struct{ S string }

func (e ErrProto) Error() string { return "rtsp: " + e.S }

func bad(f string, a ...interface{}) error { return ErrProto{fmt.Sprintf(f, a...)} }

// Conn reads replies and frames in a goroutine.
type Conn struct {
	net.Conn
	OnFrame func(*Frame) // called by the reading goroutine

	mu      sync.Mutex
	cond    *sync.Cond
	replies []*Reply
	frames  int
	err     error
	pos     int
	cseq    int
	Session string
	wmu     sync.Mutex
}

func New(c net.Conn) *Conn {
	r := &Conn{Conn: c}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func Dial(addr string, d time.Duration) (*Conn, error) {
	c, err := net.DialTimeout("tcp", addr, d)
	if err != nil {
		return nil, err
	}
	r := New(c)
	r.Start()
	return r, nil
}

func (c *Conn) Start() { go c.loop() }

func (c *Conn) loop() {
	br := bufio.NewReaderSize(c.Conn, 64<<10)
	for {
		rp, f, err := ReadItem(br)
		c.mu.Lock()
		if err != nil {
			c.err = err
			c.cond.Broadcast()
			c.mu.Unlock()
			return
		}
		if rp != nil {
			rp.Pos = c.pos
			c.replies = append(c.replies, rp)
		} else {
			f.Pos = c.pos
			c.frames++
		}
		c.pos++
		c.cond.Broadcast()
		c.mu.Unlock()
		if f != nil && c.OnFrame != nil {
			c.OnFrame(f)
		}
	}
}

// ReadItem reads one reply or interleaved frame.
func ReadItem(br *bufio.Reader) (*Reply, *Frame, error) {
	b, err := br.Peek(1)
	if err != nil {
		return nil, nil, err
	}
	un := func(e error) error {
		if e == io.EOF {
			return io.ErrUnexpectedEOF
		}
		return e
	}
	if b[0] == '$' {
		var h [4]byte
		if _, err := io.ReadFull(br, h[:]); err != nil {
			return nil, nil, un(err)
		}
		f := &Frame{Ch: h[1], Data: make([]byte, int(h[2])<<8|int(h[3]))}
		if _, err := io.ReadFull(br, f.Data); err != nil {
			return nil, nil, un(err)
		}
		return nil, f, nil
	}
	line := func() (string, error) {
		s, err := br.ReadString('\n')
		if err != nil {
			return "", un(err)
		}
		if !strings.HasSuffix(s, "\r\n") {
			return "", bad("line %.80q does not end in CRLF", s)
		}
		return s[:len(s)-2], nil
	}
	l, err := line()
	if err != nil {
		return nil, nil, err
	}
	p := strings.SplitN(l, " ", 3)
	if len(p) != 3 || p[0] != "RTSP/1.0" || len(p[1]) != 3 {
		return nil, nil, bad("status line %.80q", l)
	}
	code, err := strconv.Atoi(p[1])
	if err != nil || code < 100 || code > 599 {
		return nil, nil, bad("status line %.80q", l)
	}
	r := &Reply{Code: code, Reason: p[2], H: map[string]string{}}
	for {
		l, err := line()
		if err != nil {
			return nil, nil, err
		}
		if l == "" {
			break
		}
		i := strings.IndexByte(l, ':')
		if i <= 0 || strings.ContainsAny(l[:i], " \t") {
			return nil, nil, bad("header line %.80q", l)
		}
		k := strings.ToLower(l[:i])
		if _, dup := r.H[k]; dup {
			return nil, nil, bad("header %s twice", k)
		}
		r.H[k] = strings.TrimSpace(l[i+1:])
	}
	if v, ok := r.H["content-length"]; ok {
		n, err := strconv.Atoi(v)
		if err != nil || n < 0 || n > 1<<20 {
			return nil, nil, bad("content length %q", v)
		}
		r.Body = make([]byte, n)
		if _, err := io.ReadFull(br, r.Body); err != nil {
			return nil, nil, un(err)
		}
	}
	return r, nil, nil
}

// WriteAll writes bytes under the connection's write lock.
func (c *Conn) WriteAll(b []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	_, err := c.Conn.Write(b)
	return err
}

// Format builds a request; a session header is added when one is assigned.
func (c *Conn) Format(method, url string, h []string, body []byte) (req []byte, cseq int) {
	c.mu.Lock()
	c.cseq++
	cseq = c.cseq
	sess := c.Session
	c.mu.Unlock()
	s := method + " " + url + " RTSP/1.0\r\nCSeq: " + strconv.Itoa(cseq) + "\r\n"
	for _, x := range h {
		s += x + "\r\n"
	}
	if sess != "" {
		s += "Session: " + sess + "\r\n"
	}
	if body != nil {
		s += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	return append([]byte(s+"\r\n"), body...), cseq
}

// Do sends a request and waits for the reply.
func (c *Conn) Do(d time.Duration, method, url string, h []string, body []byte) (*Reply, error) {
	n := c.NReplies()
	b, cseq := c.Format(method, url, h, body)
	if err := c.WriteAll(b); err != nil {
		return nil, err
	}
	r, err := c.Reply(n, d)
	if err != nil {
		return nil, fmt.Errorf("%s: %w", method, err)
	}
	if r.H["cseq"] != strconv.Itoa(cseq) {
		return r, bad("%s with CSeq %d answered with CSeq %q", method, cseq, r.H["cseq"])
	}
	if s := r.H["session"]; s != "" {
		if i := strings.IndexByte(s, ';'); i >= 0 {
			s = s[:i]
		}
		c.mu.Lock()
		old := c.Session
		c.Session = s
		c.mu.Unlock()
		if old != "" && old != s {
			return r, bad("session id changed from %q to %q", old, s)
		}
	}
	return r, nil
}

func (c *Conn) NReplies() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.replies) }
func (c *Conn) NFrames() int  { c.mu.Lock(); defer c.mu.Unlock(); return c.frames }
func (c *Conn) Err() error    { c.mu.Lock(); defer c.mu.Unlock(); return c.err }

// Reply waits for the i-th reply.
func (c *Conn) Reply(i int, d time.Duration) (*Reply, error) {
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if len(c.replies) > i {
			return c.replies[i], nil
		}
		if c.err != nil {
			return nil, c.err
		}
		if !time.Now().Before(end) {
			return nil, ErrTimeout
		}
		c.cond.Wait()
	}
}

// WaitEnd waits for the connection's end.
func (c *Conn) WaitEnd(d time.Duration) error {
	_, err := c.Reply(1<<30, d)
	return err
}

type timeoutErr struct{}

func (timeoutErr) Error() string { return "timed out" }

var ErrTimeout error = timeoutErr{}

// Reset closes abruptly.
func (c *Conn) Reset() {
	if t, ok := c.Conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Conn.Close()
}
