// Package net holds the checks that drive a running server over its network
// protocols.
package net

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	"github.com/sbraveyoung/GGmpeg/librtmp"

	"vharness/vh"
)

// Env is the servers of one worker process.
type Env struct {
	IP string
	// plain server: RTMP, FLV/WS, RTSP; apps "live" and "two", no segmenters
	RTMP, FLV, RTSP string
	// full server: the same and HLS and DASH; apps "seg" (at once), "late" (on
	// demand), "alt"
	FRTMP, FFLV, FRTSP, HLS string
	Dir                     string // segment directory of the full server
	n                       int64
	port                    int64
	fence                   *fence // C36
}

const (
	appLive = "live"
	appTwo  = "two"
	appSeg  = "seg"
	appLate = "late"
	appAlt  = "alt"
)

// setup starts the servers; it is the Setup of the checks here.
func setup(w *vh.Worker) { w.State = newEnv(w, true) }

func setupPlain(w *vh.Worker) { w.State = newEnv(w, false) }

func newEnv(w *vh.Worker, full bool) *Env {
	e := &Env{IP: w.IP, port: 3000}
	e.RTMP, e.FLV, e.RTSP = e.at(1935), e.at(8080), e.at(8554)
	go librtmp.NewServer(e.RTMP, appLive, appTwo).WithHTTPFlv(e.FLV).WithRTSP(e.RTSP).Handler()
	waitPort(e.RTMP, e.FLV, e.RTSP)
	if full {
		e.FRTMP, e.FFLV, e.FRTSP, e.HLS = e.at(1936), e.at(8081), e.at(8555), e.at(8082)
		e.Dir = w.Scratch + "/seg"
		os.MkdirAll(e.Dir, 0o755)
		go librtmp.NewServer(e.FRTMP, appSeg, appLate, appAlt).WithHTTPFlv(e.FFLV).WithRTSP(e.FRTSP).WithHls(e.HLS).WithDASH().
			SetHlsMode(appLate, libhls.DELAY).SetHlsDir(appSeg, e.Dir).SetHlsDir(appLate, e.Dir).SetHlsDir(appAlt, e.Dir).Handler()
		waitPort(e.FRTMP, e.FFLV, e.FRTSP, e.HLS)
	}
	return e
}

func (e *Env) at(port int) string { return fmt.Sprintf("%s:%d", e.IP, port) }

// Port is a fresh port number of this worker's address.
func (e *Env) Port() string { return e.at(int(atomic.AddInt64(&e.port, 1))) }

// Name is a fresh stream name.
func (e *Env) Name(c *vh.C) string {
	return fmt.Sprintf("s%d_%d", c.Idx, atomic.AddInt64(&e.n, 1))
}

func env(c *vh.C) *Env { return c.State.(*Env) }

func waitPort(addrs ...string) {
	for _, a := range addrs {
		for i := 0; ; i++ {
			c, err := net.DialTimeout("tcp", a, time.Second)
			if err == nil {
				c.Close()
				break
			}
			if i > 1000 {
				panic("server did not come up: " + err.Error())
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
}

var goHead = regexp.MustCompile(`(?m)^goroutine (\d+) `)
var goFn = regexp.MustCompile(`github\.com/sbraveyoung/GGmpeg/[\w./]+?\.[^\s]+`)

// serverGoroutines lists goroutines that run server code, by their outermost
// server function, keyed by goroutine id.
func serverGoroutines() map[string]string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	out := map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		m := goHead.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		// net/http connection goroutines belong to the server too
		if f := goFn.FindAllString(g, -1); f != nil {
			fn := f[len(f)-1]
			if i := strings.LastIndex(fn, "("); i > 0 && !strings.HasSuffix(fn[:i], ".") {
				fn = fn[:i]
			}
			out[m[1]] = strings.TrimPrefix(fn, "github.com/sbraveyoung/GGmpeg/")
		} else if strings.Contains(g, "net/http.(*conn).serve") {
			out[m[1]] = "http.conn"
		}
	}
	return out
}

// sockets counts the open descriptors of this process by kind.
func openFiles() map[string]string {
	out := map[string]string{}
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return out
	}
	for _, f := range d {
		if t, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil {
			out[f.Name()+" "+t] = t
		}
	}
	return out
}

// diff lists what is in b and not in a.
func diff(a, b map[string]string) (out []string) {
	for k, v := range b {
		if _, ok := a[k]; !ok {
			out = append(out, v)
		}
	}
	sort.Strings(out)
	return
}

func summary(l []string) string {
	m := map[string]int{}
	for _, s := range l {
		m[s]++
	}
	var o []string
	for k, n := range m {
		o = append(o, fmt.Sprintf("%d× %s", n, k))
	}
	sort.Strings(o)
	return strings.Join(o, ", ")
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }
