package net

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"vharness/media"
	"vharness/ref/h26x"
	"vharness/ref/m3u8"
	"vharness/ref/mp4"
	"vharness/ref/mpd"
	"vharness/ref/ts"
	"vharness/vh"
)

// bad is a finding of a poller: what is wrong, and a key for its kind.
type bad struct {
	key, msg string
	timed    bool
}

func (b *bad) Error() string { return b.key + ": " + b.msg }

func badf(key, f string, a ...interface{}) error { return &bad{key: key, msg: fmt.Sprintf(f, a...)} }

// report fails the case with a poller's finding.
func report(c *vh.C, err error) {
	if err == nil {
		return
	}
	if b, ok := err.(*bad); ok {
		if b.timed {
			c.FailTimed(b.key, "%s", b.msg)
		}
		c.Fail(b.key, "%s", b.msg)
	}
	c.FailTimed("http", "%v", err)
}

// web is an HTTP client that follows nothing and keeps what it got.
type web struct {
	cl   *http.Client
	mu   sync.Mutex
	n    int
	code map[int]int
}

func newWeb(keep bool, d time.Duration) *web {
	return &web{cl: &http.Client{Timeout: d, Transport: &http.Transport{DisableCompression: true, DisableKeepAlives: !keep, MaxIdleConnsPerHost: 4, IdleConnTimeout: time.Minute},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}, code: map[int]int{}}
}

func (w *web) close() { w.cl.CloseIdleConnections() }

type answer struct {
	code int
	h    http.Header
	body []byte
	len  int64
}

// do requests u. Failing transports are timed findings.
func (w *web) do(method, u string, h ...string) (*answer, error) {
	q, err := http.NewRequest(method, u, nil)
	if err != nil {
		return nil, err
	}
	for i := 0; i+1 < len(h); i += 2 {
		q.Header.Set(h[i], h[i+1])
	}
	p, err := w.cl.Do(q)
	if err != nil {
		return nil, &bad{"http-transport", fmt.Sprintf("%s %s: %v", method, u, err), true}
	}
	defer p.Body.Close()
	b, err := io.ReadAll(p.Body)
	if err != nil {
		return nil, &bad{"http-body", fmt.Sprintf("%s %s: status %d, %d bytes of %d, then %v", method, u, p.StatusCode, len(b), p.ContentLength, err), true}
	}
	w.mu.Lock()
	w.n++
	w.code[p.StatusCode]++
	w.mu.Unlock()
	return &answer{p.StatusCode, p.Header, b, p.ContentLength}, nil
}

func (w *web) count(c *vh.C) {
	w.mu.Lock()
	defer w.mu.Unlock()
	c.Count("requests", w.n)
	for k, n := range w.code {
		c.Count(fmt.Sprintf("status_%d", k), n)
	}
}

// wantHead checks what every content answer carries.
func wantHead(u string, a *answer, ct string) error {
	if got := a.h.Get("Content-Type"); got != ct {
		return badf("content-type", "%s has content type %q", u, got)
	}
	if got := a.h.Get("Access-Control-Allow-Origin"); got != "*" {
		return badf("cross-origin", "%s has Access-Control-Allow-Origin %q", u, got)
	}
	return nil
}

const (
	ctM3U8 = "application/vnd.apple.mpegurl"
	ctTS   = "video/mp2t"
	ctMPD  = "application/dash+xml"
	ctMP4  = "video/mp4"
	ctM4S  = "video/iso.segment"
)

type segFile struct {
	uri, file string
	seq       int
	body      []byte
	v0, v1    int // first and last video frame
}

// poller reads one stream's playlist or manifest as a player would, and checks
// everything it gets.
type poller struct {
	w      *web
	l      *Live
	r      *rand.Rand
	root   string // http://host
	base   *url.URL
	disk   string // where segments are, "" if they cannot be compared
	up     bool   // was there
	segs   map[int]*segFile
	window []int
	first  int // lowest number listed in the last answer
	next   int // number the next segment must have, -1: any
	lastV  int // last video frame fetched
	lastA  int
	nv, na int
	init   []byte
	polls  int
	pl     string
}

func newPoller(w *web, r *rand.Rand, addr string, l *Live, disk string) *poller {
	p := &poller{w: w, l: l, r: rand.New(rand.NewSource(r.Int63())), root: "http://" + addr, disk: disk, segs: map[int]*segFile{}, next: -1, lastV: -1, lastA: -1, first: -1}
	p.base, _ = url.Parse(p.root + "/" + pathEsc(l.App) + "/" + pathEsc(l.Name) + "/index")
	return p
}

func (p *poller) at(file string) string {
	u := p.root + "/" + pathEsc(p.l.App) + "/" + pathEsc(p.l.Name) + "/" + file
	if p.r.Intn(6) == 0 {
		u += "?token=%2F..%2f" + fmt.Sprint(p.r.Intn(100))
	}
	return u
}

func (p *poller) resolve(uri string) (u, file string, err error) {
	x, err := p.base.Parse(uri)
	if err != nil {
		return "", "", badf("uri", "URI %q: %v", uri, err)
	}
	if x.Host != p.base.Host || x.RawQuery != "" || x.Fragment != "" {
		return "", "", badf("uri", "URI %q of stream %q leads to %s", uri, p.l.Name, x)
	}
	return x.String(), filepath.Base(x.Path), nil
}

// onDisk compares a segment with the file of its name.
func (p *poller) onDisk(file string, body []byte) error {
	if p.disk == "" {
		return nil
	}
	found, same := 0, false
	filepath.Walk(p.disk, func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && fi.Name() == file {
			if b, err := os.ReadFile(path); err == nil {
				found++
				same = same || bytes.Equal(b, body)
			}
		}
		return nil
	})
	if found > 0 && !same {
		return badf("not-the-file", "%s was served with %d bytes, which is none of the %d files of that name", file, len(body), found)
	}
	return nil
}

// playlist gets and reads the playlist; nil if there is none (yet).
func (p *poller) playlist(method, query string) (*m3u8.Playlist, error) {
	u := p.at("index.m3u8")
	if query != "" {
		u = p.root + "/" + pathEsc(p.l.App) + "/" + pathEsc(p.l.Name) + "/index.m3u8?" + query
	}
	a, err := p.w.do(method, u)
	if err != nil {
		return nil, err
	}
	if a.code == 404 && !p.up {
		return nil, nil
	}
	if a.code != 200 {
		return nil, badf("status", "%s: status %d", u, a.code)
	}
	if err := wantHead(u, a, ctM3U8); err != nil {
		return nil, err
	}
	p.up = true
	if method == "HEAD" {
		if len(a.body) > 0 {
			return nil, badf("head", "HEAD %s has a body", u)
		}
		return nil, nil
	}
	pl, err := m3u8.Parse(a.body)
	if err != nil {
		return nil, badf("playlist", "%s: %v\n%s", u, err, a.body)
	}
	if pl.EndList {
		return nil, badf("playlist", "live playlist with ENDLIST")
	}
	if pl.MediaSeq < p.first {
		return nil, badf("seq-back", "media sequence of %s went back from %d to %d", p.l.Name, p.first, pl.MediaSeq)
	}
	p.first = pl.MediaSeq
	p.pl = string(a.body)
	return pl, nil
}

// hls polls the playlist once and fetches what is new.
func (p *poller) hls() error {
	p.polls++
	if p.r.Intn(8) == 0 {
		if _, err := p.playlist("HEAD", ""); err != nil {
			return err
		}
	}
	pl, err := p.playlist("GET", "")
	if err != nil || pl == nil {
		return err
	}
	var l []listed
	for _, s := range pl.Segments {
		l = append(l, listed{s.Seq, s.URI})
	}
	return p.fetch(l, ctTS, func() ([]listed, error) {
		pl, err := p.playlist("GET", "")
		if err != nil || pl == nil {
			return nil, err
		}
		var l []listed
		for _, s := range pl.Segments {
			l = append(l, listed{s.Seq, s.URI})
		}
		return l, nil
	}, p.readTS)
}

type listed struct {
	seq int
	uri string
}

func (p *poller) fetch(l []listed, ct string, again func() ([]listed, error), read func(*segFile) error) error {
	p.window = p.window[:0]
	for i, s := range l {
		if i > 0 && s.seq != l[i-1].seq+1 {
			return badf("numbering", "segment %d is listed after %d", s.seq, l[i-1].seq)
		}
		u, file, err := p.resolve(s.uri)
		if err != nil {
			return err
		}
		p.window = append(p.window, s.seq)
		if old := p.segs[s.seq]; old != nil {
			if old.uri != u {
				return badf("changed", "segment %d was %s, now it is %s", s.seq, old.uri, u)
			}
			if p.r.Intn(8) > 0 {
				continue
			}
		}
		a, err := p.w.do("GET", u)
		if err != nil {
			return err
		}
		if a.code == 404 {
			// the window may have moved on meanwhile
			n, err := again()
			if err != nil {
				return err
			}
			still := false
			for _, x := range n {
				still = still || x.seq == s.seq
			}
			if !still {
				continue
			}
			if a, err = p.w.do("GET", u); err != nil {
				return err
			}
			if a.code == 404 {
				if n, err = again(); err != nil {
					return err
				}
				for _, x := range n {
					if x.seq == s.seq {
						return badf("missing", "%s is listed but not there", u)
					}
				}
				continue
			}
		}
		if a.code != 200 {
			return badf("status", "%s: status %d", u, a.code)
		}
		if err := wantHead(u, a, ct); err != nil {
			return err
		}
		if old := p.segs[s.seq]; old != nil {
			if !bytes.Equal(old.body, a.body) {
				return badf("rewritten", "%s had %d bytes, then %d others", u, len(old.body), len(a.body))
			}
			continue
		}
		if err := p.onDisk(file, a.body); err != nil {
			return err
		}
		g := &segFile{uri: u, file: file, seq: s.seq, body: a.body, v0: -1, v1: -1}
		if s.seq != p.next {
			if s.seq < p.next {
				return badf("numbering", "segment %d appeared after %d", s.seq, p.next-1)
			}
			p.lastV, p.lastA = -1, -1 // some were missed
		}
		if err := read(g); err != nil {
			return err
		}
		p.segs[s.seq] = g
		p.next = s.seq + 1
	}
	return nil
}

// video takes a frame found in a segment.
func (p *poller) video(g *segFile, idx int, f *media.Frame, n int) error {
	if g.v0 < 0 {
		g.v0 = idx
		if !f.Key {
			return badf("segment-start", "segment %s starts with %v", g.file, f)
		}
	}
	if p.lastV >= 0 {
		fr := p.l.Frames()
		if idx <= p.lastV {
			return badf("order", "segment %s, frame %d: %v comes after %v", g.file, n, f, fr[p.lastV])
		}
		for _, x := range fr[p.lastV+1 : idx] {
			if x.Kind == 9 && !x.Hdr {
				return badf("lost", "segment %s, frame %d: %v comes after %v, %v is missing", g.file, n, f, fr[p.lastV], x)
			}
		}
	}
	p.lastV, g.v1 = idx, idx
	p.nv++
	return nil
}

func (p *poller) match(last []byte, kind int) (int, *media.Frame) {
	p.l.mu.Lock()
	defer p.l.mu.Unlock()
	m := p.l.byNAL
	if kind == 8 {
		m = p.l.byRaw
	}
	i, ok := m[string(last)]
	if !ok {
		return -1, nil
	}
	return i, p.l.frames[i]
}

func (p *poller) readTS(g *segFile) error {
	res, err := ts.Demux(g.body, nil)
	if err != nil {
		return badf("segment", "%s: %v", g.uri, err)
	}
	for n, x := range res.PES {
		if x.StreamID&0xf0 == 0xe0 {
			nals, err := h26x.SplitAnnexB(x.Data)
			if err != nil || len(nals) == 0 {
				return badf("segment", "%s: unit %d: %d NAL units, %v", g.uri, n, len(nals), err)
			}
			i, f := p.match(nals[len(nals)-1], 9)
			if f == nil {
				return badf("foreign", "%s holds a video frame that was never published as %s/%s: %s", g.uri, p.l.App, p.l.Name, media.List(nals))
			}
			if err := f.CheckAU(nals, true); err != nil {
				return badf("content", "%s: %v: %v", g.uri, f, err)
			}
			if err := p.video(g, i, f, n); err != nil {
				return err
			}
			continue
		}
		fr, err := h26x.SplitADTS(x.Data)
		if err != nil {
			return badf("segment", "%s: unit %d: %v", g.uri, n, err)
		}
		for _, a := range fr {
			i, f := p.match(a.Raw, 8)
			if f == nil {
				return badf("foreign", "%s holds an audio frame of %d bytes that was never published as %s/%s", g.uri, len(a.Raw), p.l.App, p.l.Name)
			}
			if p.lastA >= 0 {
				all := p.l.Frames()
				if i <= p.lastA {
					return badf("order", "%s: %v comes after %v", g.uri, f, all[p.lastA])
				}
				for _, x := range all[p.lastA+1 : i] {
					if x.Kind == 8 && !x.Hdr {
						return badf("lost", "%s: %v comes after %v, %v is missing", g.uri, f, all[p.lastA], x)
					}
				}
			}
			p.lastA = i
			p.na++
		}
	}
	if g.v0 < 0 {
		return badf("segment", "%s has no video", g.uri)
	}
	return nil
}

// manifest gets and reads the manifest; nil if there is none yet.
func (p *poller) manifest(method string) (*mpd.Manifest, error) {
	u := p.at("index.mpd")
	a, err := p.w.do(method, u)
	if err != nil {
		return nil, err
	}
	if a.code == 404 && !p.up {
		return nil, nil
	}
	if a.code != 200 {
		return nil, badf("status", "%s: status %d", u, a.code)
	}
	if err := wantHead(u, a, ctMPD); err != nil {
		return nil, err
	}
	p.up = true
	if method == "HEAD" {
		if len(a.body) > 0 {
			return nil, badf("head", "HEAD %s has a body", u)
		}
		return nil, nil
	}
	m, err := mpd.Parse(a.body)
	if err != nil {
		return nil, badf("manifest", "%s: %v\n%s", u, err, a.body)
	}
	if m.Segs[0].Num < p.first {
		return nil, badf("seq-back", "start number of %s went back from %d to %d", p.l.Name, p.first, m.Segs[0].Num)
	}
	p.first = m.Segs[0].Num
	p.pl = string(a.body)
	return m, nil
}

// dash polls the manifest once and fetches what is new.
func (p *poller) dash() error {
	p.polls++
	if p.r.Intn(8) == 0 {
		if _, err := p.manifest("HEAD"); err != nil {
			return err
		}
	}
	m, err := p.manifest("GET")
	if err != nil || m == nil {
		return err
	}
	list := func(m *mpd.Manifest) (l []listed) {
		for _, s := range m.Segs {
			l = append(l, listed{s.Num, pathEsc(s.File)})
		}
		return
	}
	if p.init == nil || p.r.Intn(8) == 0 {
		u, file, err := p.resolve(pathEsc(m.InitFile))
		if err != nil {
			return err
		}
		a, err := p.w.do("GET", u)
		if err != nil {
			return err
		}
		if a.code != 200 {
			return badf("init", "%s: status %d", u, a.code)
		}
		if err := wantHead(u, a, ctMP4); err != nil {
			return err
		}
		if err := p.onDisk(file, a.body); err != nil {
			return err
		}
		if p.init != nil && !bytes.Equal(p.init, a.body) {
			return badf("rewritten", "%s changed", u)
		}
		in, err := mp4.ParseInit(a.body)
		if err != nil {
			return badf("init", "%s: %v", u, err)
		}
		ok := false
		for _, f := range p.l.Frames() {
			if f.Kind != 9 || f.Conf == nil {
				continue
			}
			ok = ok || bytes.Equal(f.Conf.Record, in.Config)
			if p.l.Conv {
				sps, pps, err := h26x.ParseAVCConfig(in.Config)
				ok = ok || err == nil && media.EqNALs(append(append([][]byte{}, sps...), pps...), f.Conf.Sets())
			}
		}
		if !ok {
			return badf("foreign", "%s has a configuration that was never published as %s/%s", u, p.l.App, p.l.Name)
		}
		p.init = a.body
	}
	return p.fetch(list(m), ctM4S, func() ([]listed, error) {
		m, err := p.manifest("GET")
		if err != nil || m == nil {
			return nil, err
		}
		return list(m), nil
	}, p.readMP4)
}

func (p *poller) readMP4(g *segFile) error {
	f, err := mp4.ParseMedia(g.body)
	if err != nil {
		return badf("segment", "%s: %v", g.uri, err)
	}
	for n, s := range f.Samples {
		nals, err := h26x.SplitAVCC(s.Data)
		for _, k := range []int{2, 1} {
			if err != nil && !p.l.Conv {
				nals, err = h26x.Split(k, s.Data)
			}
		}
		if err != nil || len(nals) == 0 {
			return badf("segment", "%s: sample %d: %d NAL units, %v", g.uri, n, len(nals), err)
		}
		i, w := p.match(nals[len(nals)-1], 9)
		if w == nil {
			return badf("foreign", "%s holds a video frame that was never published as %s/%s: %s", g.uri, p.l.App, p.l.Name, media.List(nals))
		}
		if p.l.Conv {
			err = w.CheckAU(nals, false)
		} else if !bytes.Equal(s.Data, w.Body[5:]) {
			err = fmt.Errorf("%d bytes instead of %d", len(s.Data), len(w.Body)-5)
		}
		if err != nil {
			return badf("content", "%s: %v: %v", g.uri, w, err)
		}
		if err := p.video(g, i, w, n); err != nil {
			return err
		}
	}
	if g.v0 < 0 {
		return badf("segment", "%s has no video", g.uri)
	}
	return nil
}

// ranges asks for parts of a listed segment.
func (p *poller) ranges(ct string) error {
	if len(p.window) == 0 {
		return nil
	}
	s := p.segs[p.window[p.r.Intn(len(p.window))]]
	if s == nil || len(s.body) == 0 {
		return nil
	}
	n := len(s.body)
	a := p.r.Intn(n)
	b := a + p.r.Intn(n-a)
	h := fmt.Sprintf("bytes=%d-%d", a, b)
	switch p.r.Intn(4) {
	case 0:
		h, b = fmt.Sprintf("bytes=%d-", a), n-1
	case 1:
		k := 1 + p.r.Intn(n)
		h, a, b = fmt.Sprintf("bytes=-%d", k), n-k, n-1
	case 2:
		h, b = fmt.Sprintf("bytes=%d-%d", a, n+p.r.Intn(1000)), n-1
	}
	x, err := p.w.do("GET", s.uri, "Range", h)
	if err != nil {
		return err
	}
	if x.code == 404 {
		return nil // no longer listed; fetch judges that
	}
	if x.code != 206 {
		return badf("range", "%s of %s: status %d", h, s.uri, x.code)
	}
	if err := wantHead(s.uri, x, ct); err != nil {
		return err
	}
	if want := fmt.Sprintf("bytes %d-%d/%d", a, b, n); x.h.Get("Content-Range") != want {
		return badf("range", "%s of %s: Content-Range %q, want %q", h, s.uri, x.h.Get("Content-Range"), want)
	}
	if !bytes.Equal(x.body, s.body[a:b+1]) {
		return badf("range", "%s of %s: other bytes than the whole segment has there", h, s.uri)
	}
	if x, err = p.w.do("GET", s.uri, "Range", fmt.Sprintf("bytes=%d-", n+p.r.Intn(9))); err != nil {
		return err
	}
	if x.code != 416 && x.code != 404 {
		return badf("range", "range behind the end of %s: status %d", s.uri, x.code)
	}
	if x, err = p.w.do("HEAD", s.uri); err != nil || x.code == 404 {
		return err
	}
	if x.code != 200 || len(x.body) > 0 || x.len != int64(n) {
		return badf("head", "HEAD %s: status %d, length %d of %d", s.uri, x.code, x.len, n)
	}
	return wantHead(s.uri, x, ct)
}

// refused asks for something that must not be there.
func (w *web) refused(method, u string) error {
	a, err := w.do(method, u)
	if err != nil {
		return err
	}
	if a.code < 300 {
		b := a.body
		if len(b) > 60 {
			b = b[:60]
		}
		return badf("not-refused", "%s %s: status %d, %d bytes: %q", method, u, a.code, len(a.body), b)
	}
	return nil
}

// files lists the regular files below a directory by base name.
func files(dir string) map[string][]string {
	out := map[string][]string{}
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			out[fi.Name()] = append(out[fi.Name()], path)
		}
		return nil
	})
	return out
}

var oddNames = []string{"a b", "x?token=1&k=<v>", "#1", "50%", "50%25", "a%41", "a%2Fb", "%2e%2e", "x%3Fy", "a:b", "mailto:x", "$Number$", "q\"'", "中文", "a;b,c", "~", "-0", "-", "a+b", "x&amp;y", "$$", "index.m3u8", "a.flv", "a-1", "s-0.ts", "...", "@x", "*", "[::1]", "a=b", "\xff\xfe", "x\xc3", "%", strings.Repeat("n", 200)}
