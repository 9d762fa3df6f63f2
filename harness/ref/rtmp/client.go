package rtmp

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"

	"vharness/ref/amf0"
)

// Client is an RTMP client. After Start a goroutine reads everything.
type Client struct {
	Conn net.Conn
	R    *Reader
	W    *Writer
	H    *Hello
	Gate func(*Msg) // called by the reading goroutine after each message

	wmu  sync.Mutex
	mu   sync.Mutex
	cond *sync.Cond
	msgs []*Msg
	err  error
	txn  float64
	Sent int64 // bytes written
}

func NewClient(conn net.Conn) *Client {
	c := &Client{Conn: conn, R: NewReader(conn), W: NewWriter(), txn: 1}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// Dial connects, shakes hands (simple, or as h says) and starts reading.
func Dial(addr string, r *rand.Rand, h *Hello, d time.Duration) (*Client, error) {
	conn, err := net.DialTimeout("tcp", addr, d)
	if err != nil {
		return nil, err
	}
	c := NewClient(conn)
	conn.SetDeadline(time.Now().Add(d))
	if err := c.Handshake(r, h); err != nil {
		conn.Close()
		return nil, err
	}
	conn.SetDeadline(time.Time{})
	c.Start()
	return c, nil
}

// Handshake is the plain sequence: C0 C1, S0 S1 S2, C2.
func (c *Client) Handshake(r *rand.Rand, h *Hello) error {
	if h == nil {
		h = NewHello(r, false, 0)
	}
	c.H = h
	if err := c.Write(append([]byte{h.C0}, h.C1...)); err != nil {
		return err
	}
	if err := h.Read(rawReader{c.R}); err != nil {
		return err
	}
	return c.Write(h.C2(r, false))
}

type rawReader struct{ r *Reader }

func (r rawReader) Read(p []byte) (int, error) {
	b, err := r.r.read(len(p))
	return copy(p, b), err
}

// Start launches the reading goroutine.
func (c *Client) Start() {
	go func() {
		for {
			m, err := c.R.Next()
			c.mu.Lock()
			if err != nil {
				c.err = err
				c.cond.Broadcast()
				c.mu.Unlock()
				return
			}
			c.msgs = append(c.msgs, m)
			c.cond.Broadcast()
			c.mu.Unlock()
			if c.Gate != nil {
				c.Gate(m)
			}
		}
	}()
}

// Msgs is what arrived so far, and the error that ended reading.
func (c *Client) Msgs() ([]*Msg, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.msgs[:len(c.msgs):len(c.msgs)], c.err
}

// Forget drops the first n messages.
func (c *Client) Forget(n int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.msgs = append([]*Msg(nil), c.msgs[n:]...)
	return n
}

func (c *Client) Len() int { m, _ := c.Msgs(); return len(m) }

// Write sends raw bytes.
func (c *Client) Write(b []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	n, err := c.Conn.Write(b)
	c.Sent += int64(n)
	return err
}

// SendMsg sends one message in consecutive chunks.
func (c *Client) SendMsg(m *Msg, fm int) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	n, err := c.Conn.Write(c.W.Encode(m, fm))
	c.Sent += int64(n)
	return err
}

// SetChunkSize announces a chunk size.
func (c *Client) SetChunkSize(n int) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	k, err := c.Conn.Write(c.W.SetChunkSize(n))
	c.Sent += int64(k)
	return err
}

// Wait returns the first message from index on for which pred holds.
func (c *Client) Wait(from int, d time.Duration, pred func(*Msg) bool) (*Msg, int, error) {
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	i := from
	for {
		for ; i < len(c.msgs); i++ {
			if pred(c.msgs[i]) {
				return c.msgs[i], i, nil
			}
		}
		if c.err != nil {
			return nil, i, c.err
		}
		if !time.Now().Before(end) {
			return nil, i, ErrTimeout
		}
		c.cond.Wait()
	}
}

// WaitEnd waits for the connection to end.
func (c *Client) WaitEnd(d time.Duration) error {
	_, _, err := c.Wait(0, d, func(*Msg) bool { return false })
	return err
}

type timeoutErr struct{}

func (timeoutErr) Error() string { return "timed out" }

var ErrTimeout error = timeoutErr{}

// Reply is a decoded command.
type Reply struct {
	Name string
	Txn  float64
	Args []interface{}
	Idx  int
	Raw  *Msg
}

// Prop looks a property up in any object argument.
func (r *Reply) Prop(k string) interface{} {
	for _, a := range r.Args {
		var p []amf0.Prop
		switch x := a.(type) {
		case amf0.Obj:
			p = x
		case amf0.ECMA:
			p = x.Props
		}
		for _, e := range p {
			if e.K == k {
				return e.V
			}
		}
	}
	return nil
}

func (r *Reply) Code() string { s, _ := r.Prop("code").(string); return s }

// ParseCmd decodes a command message.
func ParseCmd(m *Msg) (*Reply, error) {
	b := m.Body
	if m.Type == 17 && len(b) > 0 {
		b = b[1:]
	} else if m.Type != 20 {
		return nil, bad("message type %d is no command", m.Type)
	}
	v, err := amf0.Dec(b)
	if err != nil {
		return nil, bad("command % x: %v", b, err)
	}
	if len(v) < 2 {
		return nil, bad("command with %d values", len(v))
	}
	n, ok := v[0].(string)
	t, ok2 := v[1].(float64)
	if !ok || !ok2 {
		return nil, bad("command begins with %v, %v", v[0], v[1])
	}
	return &Reply{Name: n, Txn: t, Args: v[2:], Raw: m}, nil
}

// Cmd sends a command on chunk stream 3.
func (c *Client) Cmd(msid uint32, vals ...interface{}) error {
	return c.SendMsg(&Msg{CSID: 3, Type: 20, MSID: msid, Body: amf0.Enc(vals...)}, 0)
}

// NextTxn is a fresh transaction id.
func (c *Client) NextTxn() float64 { t := c.txn; c.txn++; return t }

// WaitCmd waits for a command (from index on) accepted by pred.
func (c *Client) WaitCmd(from int, d time.Duration, pred func(*Reply) bool) (*Reply, error) {
	var out *Reply
	var perr error
	_, i, err := c.Wait(from, d, func(m *Msg) bool {
		if m.Type != 20 && m.Type != 17 {
			return false
		}
		r, e := ParseCmd(m)
		if e != nil {
			perr = e
			return true
		}
		if pred(r) {
			out = r
			return true
		}
		return false
	})
	if perr != nil {
		return nil, perr
	}
	if err != nil {
		return nil, err
	}
	out.Idx = i
	return out, nil
}

// Call sends a command and waits for its _result or _error.
func (c *Client) Call(msid uint32, d time.Duration, name string, args ...interface{}) (*Reply, error) {
	t := c.NextTxn()
	from := c.Len()
	if err := c.Cmd(msid, append([]interface{}{name, t}, args...)...); err != nil {
		return nil, err
	}
	r, err := c.WaitCmd(from, d, func(r *Reply) bool { return (r.Name == "_result" || r.Name == "_error") && r.Txn == t })
	if err != nil {
		return nil, fmt.Errorf("%s: %w", name, err)
	}
	if r.Name == "_error" {
		return r, fmt.Errorf("%s refused", name)
	}
	return r, nil
}

// Connect sends connect.
func (c *Client) Connect(app string, d time.Duration) error {
	_, err := c.Call(0, d, "connect", amf0.Obj{{K: "app", V: app}, {K: "type", V: "nonprivate"}, {K: "flashVer", V: "FMLE/3.0"}, {K: "tcUrl", V: "rtmp://x/" + app}})
	return err
}

// Status sends a command answered by onStatus and returns the first status with
// an error level or the wanted code.
func (c *Client) Status(d time.Duration, want string, vals ...interface{}) (*Reply, error) {
	from := c.Len()
	if err := c.Cmd(1, vals...); err != nil {
		return nil, err
	}
	r, err := c.WaitCmd(from, d, func(r *Reply) bool {
		return r.Name == "onStatus" && (r.Code() == want || r.Prop("level") == "error")
	})
	if err != nil {
		return nil, fmt.Errorf("%v: %w", vals[0], err)
	}
	if r.Code() != want {
		return r, Refused{r.Code()}
	}
	return r, nil
}

// Refused is an error status.
type Refused struct{ Code string }

func (e Refused) Error() string { return "refused: " + e.Code }

// Publish asks to publish (after Connect).
func (c *Client) Publish(name string, d time.Duration) error {
	if _, err := c.Call(0, d, "createStream", nil); err != nil {
		return err
	}
	_, err := c.Status(d, "NetStream.Publish.Start", "publish", c.NextTxn(), nil, name, "live")
	return err
}

// Play asks to play (after Connect).
func (c *Client) Play(name string, d time.Duration) error {
	if _, err := c.Call(0, d, "createStream", nil); err != nil {
		return err
	}
	_, err := c.Status(d, "NetStream.Play.Start", "play", c.NextTxn(), nil, name)
	return err
}

func (c *Client) Close() { c.Conn.Close() }

// Reset closes the connection abruptly.
func (c *Client) Reset() {
	if t, ok := c.Conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Conn.Close()
}

// UserCtl builds a user control message body.
func UserCtl(ev uint16, data ...uint32) []byte {
	b := binary.BigEndian.AppendUint16(nil, ev)
	for _, d := range data {
		b = binary.BigEndian.AppendUint32(b, d)
	}
	return b
}

// Ended tells the end of a connection from other errors.
func Ended(err error) bool {
	if err == nil {
		return false
	}
	if err == io.EOF || err == io.ErrUnexpectedEOF {
		return true
	}
	_, ok := err.(net.Error)
	return ok && err != ErrTimeout
}
