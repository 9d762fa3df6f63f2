package net

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	"github.com/sbraveyoung/GGmpeg/librtmp"

	"vharness/ref/rtmp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C36", Quick: 600, Thorough: 5000, Setup: setupFiles, Technique: "runtime monitoring: inotify watches and tree snapshots around the segment directory of the real server, which runs as an unprivileged user inside a scratch tree, and an oracle that recognises the publication every served frame belongs to",
		Rule:      "several publications at once under hostile names (separators, dot segments, absolute paths, control and invalid bytes, extreme lengths, names that look like other streams' segment files or directories) over RTMP and RTSP in plain and odd applications sharing one segment directory, namesakes across applications, immediate republication; players poll all of them and send hostile request targets over raw HTTP; canary files lie in and around the segment directory; distinct by name, application and segment",
		LevelNote: "held on the names and targets tried; the files outside the scratch tree are out of reach for the unprivileged server and are not watched",
		Run:       runC36})
}

// oddApps are applications an operator may have configured.
var oddApps = []string{"../up", "a b", "stream-x", "..", "app-seg", "x%2fy", "é"}

// fence watches a tree.
type fence struct {
	root string
	dir  string // the segment directory
	fd   int
	wd   map[int32]string
	bait map[string]string // canary files inside the segment directory
	base map[string]string
}

const canaryMark = "CANARY-0f1e2d-"

func setupFiles(w *vh.Worker) {
	root := w.Scratch + "/o"
	deep := "L1/L2/L3"
	seg := root + "/" + deep + "/seg"
	if err := os.MkdirAll(seg, 0o755); err != nil {
		panic(err)
	}
	f := &fence{root: root, dir: seg, wd: map[int32]string{}, bait: map[string]string{}}
	plant := func(dir string, in bool) {
		os.MkdirAll(dir, 0o755)
		for _, n := range []string{"canary.ts", "x-0.ts", "x-init.mp4", "x-0.m4s", "index.m3u8", "index.mpd", "s-1.ts", "0.ts"} {
			b := canaryMark + strings.TrimPrefix(dir, root) + "/" + n
			os.WriteFile(dir+"/"+n, []byte(b), 0o644)
			if in {
				f.bait[dir+"/"+n] = b
			}
		}
	}
	for _, d := range []string{"", "/L1", "/L1/L2", "/" + deep, "/" + deep + "/seg2", "/" + deep + "/up", "/L1/L2/up", "/" + deep + "/seg-", "/" + deep + "/x"} {
		plant(root+d, false)
	}
	plant(seg, true)
	plant(seg+"/app-seg", true)
	plant(seg+"/app-seg/old", true)
	plant(seg+"/x", true)
	// the server and this harness continue as nobody, who owns only this tree
	os.Chmod(filepath.Dir(w.Scratch), 0o711)
	os.Chmod(w.Scratch, 0o711)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error { return os.Chown(p, 65534, 65534) })
	os.Chdir(root)
	for _, err := range []error{syscall.Setgroups(nil), syscall.Setgid(65534), syscall.Setuid(65534)} {
		if err != nil {
			panic("cannot drop privileges: " + err.Error())
		}
	}
	if os.WriteFile(filepath.Dir(w.Scratch)+"/probe", nil, 0o644) == nil {
		panic("still privileged")
	}
	e := &Env{IP: w.IP, port: 3000, Dir: seg}
	e.FRTMP, e.FFLV, e.FRTSP, e.HLS = e.at(1936), e.at(8081), e.at(8555), e.at(8082)
	apps := append([]string{appSeg, appAlt, appLate}, oddApps...)
	s := librtmp.NewServer(e.FRTMP, apps...).WithHTTPFlv(e.FFLV).WithRTSP(e.FRTSP).WithHls(e.HLS).WithDASH().SetHlsMode(appLate, libhls.DELAY)
	d := []string{seg, deep + "/seg", "./" + deep + "/seg/", root + "/L1/../" + deep + "/seg"}[w.Shard%4]
	for _, a := range apps {
		s = s.SetHlsDir(a, d)
	}
	go s.Handler()
	waitPort(e.FRTMP, e.FFLV, e.FRTSP, e.HLS)
	// watch every directory outside the segment directory
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic(err)
	}
	f.fd = fd
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		mask := uint32(syscall.IN_CREATE | syscall.IN_DELETE | syscall.IN_MODIFY | syscall.IN_MOVED_FROM | syscall.IN_MOVED_TO | syscall.IN_ATTRIB | syscall.IN_DELETE_SELF | syscall.IN_MOVE_SELF)
		if p == f.dir {
			return filepath.SkipDir
		}
		wd, err := syscall.InotifyAddWatch(fd, p, mask)
		if err != nil {
			panic(err)
		}
		f.wd[int32(wd)] = p
		return nil
	})
	f.base = f.snapshot()
	w.State = e
	e.fence = f
}

// snapshot lists what is outside the segment directory.
func (f *fence) snapshot() map[string]string {
	out := map[string]string{}
	filepath.Walk(f.root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			out[p] = err.Error()
			return nil
		}
		s := fmt.Sprintf("%v %d", fi.Mode(), fi.Sys().(*syscall.Stat_t).Ino)
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x", sha256.Sum256(b))
		}
		out[p] = s
		if p == f.dir {
			return filepath.SkipDir
		}
		return nil
	})
	return out
}

// events are the changes outside the segment directory since the last call.
func (f *fence) events() (out []string) {
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(f.fd, buf)
		if n <= 0 || err != nil {
			return
		}
		for b := buf[:n]; len(b) >= 16; {
			wd, mask, l := int32(binary.LittleEndian.Uint32(b)), binary.LittleEndian.Uint32(b[4:]), binary.LittleEndian.Uint32(b[12:])
			name := strings.TrimRight(string(b[16:16+l]), "\x00")
			what := []string{}
			for bit, s := range map[uint32]string{syscall.IN_CREATE: "created", syscall.IN_DELETE: "deleted", syscall.IN_MODIFY: "written", syscall.IN_MOVED_FROM: "moved away", syscall.IN_MOVED_TO: "moved there", syscall.IN_ATTRIB: "attributes changed", syscall.IN_DELETE_SELF: "directory deleted", syscall.IN_MOVE_SELF: "directory moved"} {
				if mask&bit != 0 {
					what = append(what, s)
				}
			}
			out = append(out, fmt.Sprintf("%q %s", f.wd[wd]+"/"+name, strings.Join(what, ", ")))
			b = b[16+l:]
		}
	}
}

func (f *fence) check(c *vh.C) {
	if ev := f.events(); len(ev) > 0 {
		if len(ev) > 8 {
			ev = ev[:8]
		}
		c.Fail("outside", "outside the segment directory %s: %s", f.dir, strings.Join(ev, "; "))
	}
	now := f.snapshot()
	for p, s := range f.base {
		if now[p] != s {
			c.Fail("outside", "%q was %s, now it is %q", p, s, now[p])
		}
	}
	for p, s := range now {
		if _, ok := f.base[p]; !ok {
			c.Fail("outside", "%q appeared: %s", p, s)
		}
	}
	for p, want := range f.bait {
		if b, err := os.ReadFile(p); string(b) != want {
			c.Fail("foreign-file", "%q, which no stream wrote, is changed (%v)", p, err)
		}
	}
	f.events() // reading does not count, but be sure
	c.Count("tree_entries_compared", len(f.base)+len(f.bait))
}

// hostileName is a name no file should be named after without care.
func hostileName(r *rand.Rand, root, tag string, others []string) string {
	other := "x"
	if len(others) > 0 {
		other = others[r.Intn(len(others))]
	}
	up := strings.Repeat("../", 1+r.Intn(6))
	f := pick(r, tag, "x", "canary", "s", "x-0.ts", "canary.ts", other)
	ctl := string(rune(r.Intn(32)))
	return pick(r,
		up+f, "..", ".", strings.TrimSuffix(up, "/"), up, "/"+f, "//"+f, root+"/"+f, root+"/L1/"+tag, root+"/L1/L2/L3/seg/"+f, root+"/L1/L2/L3/seg/app-seg/"+f,
		"a/"+f, tag+"/../"+f, tag+"/"+up+f, f+"/", f+"/.", "./"+f, ".//"+f, "....//"+f, strings.ReplaceAll(up, "/", "\\")+f, "a\\"+f,
		strings.ReplaceAll(up, "/", "%2f")+f, strings.ReplaceAll(up, "/", "%2F")+f, strings.ReplaceAll(up, "../", "%2e%2e%2f")+f, strings.ReplaceAll(up, "../", "%252e%252e%252f")+f,
		tag+ctl+f, ctl, tag+"\x00", "\x00", tag+"\x7f", tag+"\n"+f, "\xff\xfe"+tag, tag+"\xc0\xae\xc0\xae/", tag+"\u2028", tag+"\u202e", "．．／"+f,
		strings.Repeat("n", 199), strings.Repeat("n", 201), strings.Repeat("n", 245), strings.Repeat("n", 255), strings.Repeat("n", 4096), strings.Repeat("n", 65000), strings.Repeat("é", 120), strings.Repeat("../", 500)+f, strings.Repeat("a/", 100)+f,
		"", " ", "  "+tag, tag+" ", "-rf", "-", "*", "?", "~", "~root", "$HOME", "`x`", "$(x)", "|x", ";x", "&", "<x>", "\"", "'", "nul", "con",
		other+"-0", other+"-1", other+"-init", other+"-0.ts", other+"-init.mp4", other+".flv", other+"/index", "index", "index.m3u8", "index.mpd", "app-seg", "app-alt", "stream-", "old", "stream-1", "seg2", other+"-", other+"0", strings.ToUpper(other), other+".",
		"?"+up+f, "#"+f, tag+"?x=/../"+f, tag+"#/../"+f, "%", "%zz", "%00", "%2e", "%2e%2e", "%5c..%5c"+f, ":"+f, "c:\\"+f, "http://x/"+f, "file:///"+root+"/"+f)
}

// rawGet sends a request target as it is.
func rawGet(addr, method, target string, d time.Duration) (*answer, error) {
	cn, err := net.DialTimeout("tcp", addr, d)
	if err != nil {
		return nil, err
	}
	defer cn.Close()
	cn.SetDeadline(time.Now().Add(d))
	fmt.Fprintf(cn, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", method, target)
	br := bufio.NewReader(cn)
	p, err := http.ReadResponse(br, &http.Request{Method: method})
	if err != nil {
		return nil, err
	}
	defer p.Body.Close()
	// a live FLV body does not end
	b, err := io.ReadAll(io.LimitReader(p.Body, 4<<20))
	if err != nil && p.StatusCode == 200 {
		return nil, err
	}
	return &answer{p.StatusCode, p.Header, b, p.ContentLength}, nil
}

func hostileTarget(r *rand.Rand, root string, s *hshow, files []string) string {
	app, n := pathEsc(s.l.App), pathEsc(s.l.Name)
	b := "/" + app + "/" + n + "/"
	up := strings.Repeat(pick(r, "../", "..%2f", "%2e%2e/", "%2e%2e%2f", "..%5c", "..\\", "%252e%252e%252f", ".%2e/", "..;/", "..//", "%c0%ae%c0%ae/"), 1+r.Intn(6))
	f := pick(r, "canary.ts", "x-0.ts", "x-init.mp4", "x-0.m4s", "index.m3u8", "s-1.ts", "seg2/x-0.ts", "app-seg/x-0.ts", "app-seg/old/x-0.ts", "app-seg", "", "x/x-0.ts")
	if len(files) > 0 && r.Intn(3) == 0 {
		f = pathEsc(files[r.Intn(len(files))])
	}
	abs := strings.ReplaceAll(root+"/"+f, "/", pick(r, "/", "%2f", "//"))
	return pick(r, b+up+f, b+n+"-"+up+f, b+n+"-0.ts/"+up+f, b+n+"-0.ts%2f"+up+f, b+n+"-"+up+"0.ts", "/"+app+"/"+up+f, "/"+app+"/"+up+n+"/"+f, "/"+up+f, "/"+up+app+"/"+n+"/"+n+"-0.ts", b+abs, b+n+"-"+abs, abs, "/"+abs,
		b+f, b+n+"-0.ts%00.m3u8", b+n+"-0.ts%00", b+"%00"+f, b+n+"-init.mp4/"+up+f, b+up+n+"-init.mp4", b+n+"-"+f, b+f+"-init.mp4", b+up+f+".m4s", b+n+"-%2e%2e.ts", b+n+"-..ts", "http://x"+b+up+f, "/"+app+"//"+n+"/"+up+f, "/./"+app+"/./"+n+"/./"+f,
		b+"?f="+up+f, b+n+"-0.ts?"+up+f, b+n+"-0.ts#"+up+f, b+strings.Repeat("../", 300)+f, b+n+"-"+strings.Repeat("0", 300)+".ts", b+n+"-99999999999999999999.ts", b+".", b+"..", b+"*", b+"~", "*", b+n+"-0.ts/", b+n+"-0.ts/.", b+n+"-0.ts/..", b+n+"-0.ts/../"+f)
}

func runC36(c *vh.C) {
	e := env(c)
	r := c.R
	f := e.fence
	w := newWeb(true, c.D(20*time.Second))
	defer w.close()
	defer w.count(c)
	tag := e.Name(c)
	var shows []*hshow
	gen := 0
	defer func() {
		for _, s := range shows {
			if !s.gone {
				s.end("close")
			}
		}
	}()
	var names []string
	taken := func(app, n string) bool {
		for _, s := range shows {
			if !s.gone && s.l.App == app && s.l.Name == n {
				return true
			}
		}
		return false
	}
	publish := func(app, n string, gops int, overRTSP bool) *hshow {
		gen++
		s, err := tryHShow(c, app, n, gops, gen, overRTSP)
		if err != nil {
			c.Count("refused_publishers", 1)
			c.Trace("%s/%q (RTSP %v) refused: %v", app, clipName(n), overRTSP, err)
			return nil
		}
		c.Trace("%s/%q published, RTSP %v", app, clipName(n), overRTSP)
		s.hls = newPoller(w, r, e.HLS, s.l, e.Dir)
		s.dash = newPoller(w, r, e.HLS, s.l, e.Dir)
		shows = append(shows, s)
		names = append(names, n)
		return s
	}
	// plain ones, which must stay untouched
	plain := map[*hshow]bool{}
	gops := 3 + r.Intn(2)
	n1 := pick(r, tag, tag, "x", "s", tag+"-1")
	apps := []string{appSeg, appAlt}
	for i := 0; i < 1+r.Intn(2); i++ {
		n := n1
		if i > 0 && r.Intn(3) == 0 {
			n = pick(r, n1+"-0", n1+"-1", n1+"0", n1+"-init")
		}
		a := apps[r.Intn(2)]
		if i > 0 && n == n1 {
			for _, x := range apps {
				if !taken(x, n) {
					a = x
				}
			}
		}
		if taken(a, n) {
			continue
		}
		s := publish(a, n, gops+6, false)
		if s == nil {
			c.FailTimed("publish", "publishing %s/%s failed", a, n)
		}
		plain[s] = true
	}
	step := func(s *hshow) {
		if s.gone || s.keyed >= len(s.gops) {
			return
		}
		if err := s.step(); err != nil {
			if plain[s] {
				c.Fail("publisher-dropped", "publishing %s: %v", s, err)
			}
			s.end("close")
		}
	}
	// poll whatever the server makes of a hostile name: refusals are fine
	soft := func(s *hshow) {
		if s.gone {
			return
		}
		for _, p := range []*poller{s.hls, s.dash} {
			u := p.at("index.m3u8")
			if p == s.dash {
				u = p.at("index.mpd")
			}
			if len(u) > 20000 {
				continue
			}
			var a *answer
			var err error
			if s.late && p == s.hls && !p.up { // waits for the first segment
				done := make(chan struct{})
				go func() { a, err = w.do("GET", u); close(done) }()
				for waiting := true; waiting; {
					select {
					case <-done:
						waiting = false
					case <-time.After(c.D(100 * time.Millisecond)):
						if step(s); s.keyed >= len(s.gops) && !s.gone {
							s.end("close")
						}
					}
				}
			} else {
				a, err = w.do("GET", u)
			}
			report(c, err)
			if a.code != 200 {
				continue
			}
			poll := p.hls
			if p == s.dash {
				poll = p.dash
			}
			report(c, poll())
		}
	}
	intact := func(why string) {
		for s := range plain {
			if s.gone {
				continue
			}
			s.current(c, "playlist", s.hls, s.hls.hls)
			s.current(c, "manifest", s.dash, s.dash.dash)
			for _, p := range []*poller{s.hls, s.dash} {
				for _, k := range p.window {
					g := p.segs[k]
					if g == nil {
						continue
					}
					a, err := w.do("GET", g.uri)
					report(c, err)
					if a.code != 200 || !bytes.Equal(a.body, g.body) {
						c.Fail("not-intact", "%s: %s of %s: status %d, %d bytes; before it was %d bytes", why, g.file, s, a.code, len(a.body), len(g.body))
					}
				}
			}
		}
	}
	for i := 0; i < 1; i++ {
		for s := range plain {
			step(s)
			step(s)
		}
		intact("at the start")
	}
	hostiles := 2 + r.Intn(4)
	for i := 0; i < hostiles; i++ {
		n := hostileName(r, f.root, tag, names)
		app := pick(r, appSeg, appSeg, appAlt, appLate, oddApps[r.Intn(len(oddApps))])
		if taken(app, n) {
			continue
		}
		s := publish(app, n, 3, r.Intn(4) == 0 && len(n) < 3000 && !strings.ContainsAny(n, "\r\n"))
		if s == nil {
			continue
		}
		c.Nontrivial("%s %q", app, clipName(n))
		c.Count("hostile_publications", 1)
		for k := 0; k < 3; k++ {
			step(s)
			if s.p != nil && !s.gone {
				ping(s)
			}
			soft(s)
		}
		for x := range plain {
			step(x)
			break
		}
		switch r.Intn(3) {
		case 0:
			s.end(pubEnds[r.Intn(len(pubEnds))])
			intact(fmt.Sprintf("after the end of %s/%q", app, clipName(n)))
		case 1:
			intact(fmt.Sprintf("while %s/%q is live", app, clipName(n)))
		}
	}
	// hostile requests
	for i := 0; i < 25; i++ {
		s := shows[r.Intn(len(shows))]
		if s.gone {
			continue
		}
		var fl []string
		for _, o := range shows {
			for _, g := range o.hls.segs {
				fl = append(fl, g.file)
			}
			for _, g := range o.dash.segs {
				fl = append(fl, g.file)
			}
		}
		sort.Strings(fl)
		t := hostileTarget(r, f.root, s, fl)
		if len(t) > 20000 || strings.ContainsAny(t, " \r\n\x00") || s.late && strings.Contains(t, "index.m3u8") {
			continue
		}
		m := "GET"
		if r.Intn(8) == 0 {
			m = pick(r, "CONNECT", "HEAD", "DELETE", "PUT", "OPTIONS")
		}
		a, err := rawGet(e.HLS, m, t, c.D(15*time.Second))
		if err != nil {
			c.FailTimed("http", "%s %q: %v", m, t, err)
		}
		c.Count("hostile_requests", 1)
		c.Count(fmt.Sprintf("hostile_status_%d", a.code), 1)
		if bytes.Contains(a.body, []byte(canaryMark)) || bytes.Contains(a.body, []byte("root:x:")) {
			c.Fail("served-foreign", "%s %q: status %d, served %q", m, t, a.code, clipName(string(a.body)))
		}
		if a.code/100 == 2 && len(a.body) > 0 {
			c.Count("hostile_content", 1)
			ct := a.h.Get("Content-Type")
			ok := ct == ctM3U8 || ct == ctMPD
			why := ""
			for _, o := range shows {
				if !strings.Contains(t, pathEsc(o.l.Name)) || !strings.Contains(t, pathEsc(o.l.App)) {
					continue
				}
				p := newPoller(w, r, e.HLS, o.l, "")
				g := &segFile{uri: t, file: t, body: a.body, v0: -1}
				switch ct {
				case ctTS:
					rerr := p.readTS(g)
					ok = ok || rerr == nil || inProgress(rerr)
					why = fmt.Sprint(why, o, ": ", rerr, "; ")
				case ctM4S:
					rerr := p.readMP4(g)
					ok = ok || rerr == nil || inProgress(rerr)
					why = fmt.Sprint(why, o, ": ", rerr, "; ")
				case ctMP4:
					ok = ok || bytes.Equal(a.body, o.dash.init) || o.dash.init == nil
				}
			}
			if !ok {
				c.Fail("served-foreign", "%s %q: status %d, content type %q, %d bytes that are not content of a stream it names (%s)", m, t, a.code, ct, len(a.body), why)
			}
		}
	}
	// a publication that follows at once
	for s := range plain {
		if r.Intn(2) == 0 {
			continue
		}
		s.end("close")
		var n *hshow
		if !c.Eventually(10*time.Second, func() bool {
			n = publish(s.l.App, s.l.Name, 5, false)
			return n != nil
		}) {
			c.FailTimed("republish", "%s cannot be published again", s)
		}
		plain[n] = true
		for k := 0; k < 4; k++ {
			step(n)
			intact("after republication")
		}
		c.Count("republished", 1)
		break
	}
	r.Shuffle(len(shows), func(i, j int) { shows[i], shows[j] = shows[j], shows[i] })
	for _, s := range shows {
		if s.gone {
			continue
		}
		s.end(pubEnds[r.Intn(len(pubEnds))])
		for x := range plain {
			step(x)
		}
		intact(fmt.Sprintf("after the end of %s/%q", s.l.App, clipName(s.l.Name)))
	}
	f.check(c)
	if l, _ := filepath.Glob("/tmp/*" + tag + "*"); len(l) > 0 {
		c.Fail("outside", "%q appeared", l)
	}
	for _, s := range shows {
		c.Count("segments_fetched", len(s.hls.segs)+len(s.dash.segs))
		for _, g := range s.hls.segs {
			c.Nontrivial("%s %s %d", s, g.file, len(g.body))
		}
	}
}

// inProgress tells a segment that is still being written, which nobody
// listed, from one of another stream.
func inProgress(err error) bool {
	b, ok := err.(*bad)
	return ok && b.key == "segment"
}

// ping waits until the server has taken what was sent, if it still listens.
func ping(s *hshow) {
	from := s.p.Len()
	id := s.p.r.Uint32()
	want := rtmp.UserCtl(7, id)
	if s.p.ctl(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, id)}) == nil {
		s.p.Wait(from, 5*time.Second, func(m *rtmp.Msg) bool { return m.Type == 4 && string(m.Body) == string(want) })
	}
}

func clipName(s string) string {
	if len(s) > 120 {
		return s[:60] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}
