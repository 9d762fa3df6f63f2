package net

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"vharness/media"
	"vharness/vh"
)

// canary is an innocent stream with its viewers, next to an attack.
type canary struct {
	p  *Pub
	l  *Live
	vs []*View
	fs []*media.Frame
	k  int
}

// newCanary publishes on the given app.
func newCanary(c *vh.C, e *Env, app string) *canary {
	r := c.R
	l := NewLive(app, e.Name(c))
	rt := e.RTMP
	if app != appLive && app != appTwo {
		rt = e.FRTMP
	}
	k := &canary{l: l}
	k.fs, _ = genFrames(c, 60, false, media.Opt{Video: true, Audio: true, GOP: 10, MaxSize: 800})
	k.p = MustPublish(c, rt, l, Plain())
	k.k = firstKey(k.fs) + 1
	feed(c, k.p, k.fs[:k.k], 100)
	for i := 0; i < 2; i++ {
		w := randViewer(r, pick(r, "rtmp", "rtsp"), pick(r, "flv", "ws"))
		k.vs = append(k.vs, e.MustView(c, l, w))
	}
	l.Sync(c, "before the attack", k.vs...)
	return k
}

// step publishes some more and waits for the viewers.
func (k *canary) step(c *vh.C, what string) {
	n := 3 + c.R.Intn(4)
	if n > len(k.fs)-k.k {
		n = len(k.fs) - k.k
	}
	if n == 0 {
		k.p.Barrier(c)
		return
	}
	if err := k.p.Send(k.fs[k.k : k.k+n]...); err != nil {
		c.Fail("others-harmed", "%s: the connection of another publisher failed: %v", what, err)
	}
	k.k += n
	k.l.Sync(c, what, k.vs...)
}

func (k *canary) finish(c *vh.C) {
	for k.k < len(k.fs) {
		k.step(c, "after the attack")
	}
	k.p.Barrier(c)
	k.p.Close()
	awaitEnd(c, k.vs...)
	for _, v := range k.vs {
		checkRun(c, v, RunOpt{From: 1 << 30, Complete: true, ToEnd: true, MustMedia: true})
		v.Close(false)
	}
}

func (k *canary) close() {
	k.p.Close()
	for _, v := range k.vs {
		v.Close(true)
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// guard watches memory and processor time over an attack.
type guard struct {
	heap  int
	total uint64
	g     map[string]string
	sent  int64 // bytes the attackers sent
}

func newGuard() *guard {
	g := &guard{heap: heap(), g: serverGoroutines()}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	g.total = m.TotalAlloc
	return g
}

func (g *guard) add(n int) { atomic.AddInt64(&g.sent, int64(n)) }

// held judges what the server holds and does while the attackers are still
// connected but silent.
func (g *guard) held(c *vh.C, what string, slack int) {
	sent := int(atomic.LoadInt64(&g.sent))
	var grown int
	if !c.Eventually(5*time.Second, func() bool { grown = heap() - g.heap; return grown < slack+20*sent }) {
		c.FailTimed("memory:held", "%s: the heap holds %d kB more after %d bytes were sent", what, grown>>10, sent)
	}
	c.Count("max_heap_held_kB", grown>>10)
	if !c.Eventually(10*time.Second, func() bool {
		t := cpuTime()
		time.Sleep(10 * time.Millisecond)
		return cpuTime()-t < 5*time.Millisecond
	}) {
		c.FailTimed("spin", "%s: the process stays busy although nobody sends anything; running: %s", what, running())
	}
}

// allocated judges what was allocated in all.
func (g *guard) allocated(c *vh.C, what string, slack int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	n := int64(m.TotalAlloc - g.total)
	c.Count("max_allocated_kB", int(n>>10))
	if sent := atomic.LoadInt64(&g.sent); n > int64(slack)+400*sent {
		c.Fail("memory:allocated", "%s: %d kB were allocated for %d bytes sent", what, n>>10, sent)
	}
}

// gone waits until the attackers' sessions have left nothing running.
func (g *guard) gone(c *vh.C, what string) {
	var l []string
	if !c.Eventually(15*time.Second, func() bool { l = diff(g.g, serverGoroutines()); return len(l) == 0 }) {
		c.FailTimed("hang:"+l[0], "%s: the connections are closed, still running: %s", what, summary(l))
	}
}

func running() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "[running]") || strings.Contains(g, "[runnable]") {
			if f := goFn.FindString(g); f != "" {
				out = append(out, f)
			}
		}
	}
	return strings.Join(out, ", ")
}

// mutate damages b.
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(pick(r, 1, 4, 20)); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		switch r.Intn(10) {
		case 0:
			b[i] ^= 1 << r.Intn(8)
		case 1:
			b[i] = pick(r, byte(0), 0xff, 0x7f, 0x80, 1)
		case 2:
			b[i] = byte(r.Intn(256))
		case 3: // remove
			j := i + 1 + r.Intn(8)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i], b[j:]...)
		case 4: // insert
			ins := make([]byte, 1+r.Intn(pick(r, 3, 20)))
			r.Read(ins)
			b = append(b[:i], append(ins, b[i:]...)...)
		case 5: // repeat
			j := i + 1 + r.Intn(30)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 6: // cut
			if r.Intn(3) == 0 {
				b = b[:i]
			}
		case 7: // a number of 2 or 4 bytes
			if i+4 <= len(b) {
				binary.BigEndian.PutUint32(b[i:], pick(r, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000, 0xffffff, uint32(len(b)), r.Uint32()))
			}
		case 8:
			if i+2 <= len(b) {
				binary.BigEndian.PutUint16(b[i:], pick(r, 0, 1, 0x7fff, 0x8000, 0xffff, uint16(len(b))))
			}
		case 9:
			k := r.Intn(len(b))
			b[i], b[k] = b[k], b[i]
		}
	}
	return b
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func hexHead(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("% x… (%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("% x", b)
}
