package net

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"time"

	"vharness/media"
	"vharness/ref/h26x"
	"vharness/ref/rtp"
	"vharness/ref/rtsp"
	"vharness/ref/sdp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C27", Quick: 1800, Thorough: 3000, Setup: setupPlain, Technique: tech,
		Rule:      "RTSP players over interleaved TCP and UDP, any selection and order of tracks and channels, beside keep-alive requests and RTCP; an independent depacketiser recovers the frames, whose NAL units, order, completeness, marker bits, sequence numbers and RTP times are compared with what was published, and the SDP with its configuration",
		LevelNote: "exploration: seeded streams over loopback; UDP runs with a lost datagram are repeated alone",
		Run:       runC27})
	vh.Register(&vh.Check{ID: "C28", Quick: 1200, Thorough: 3000, Setup: setupPlain, Technique: tech,
		Rule:      "an independent RTSP publisher (any SDP spelling, payload types, channels or UDP, any legal packing, duplicates, lost fragments, units without marker bits, packets of other sources and payload types, padding, extension headers, B-frame timestamps, wrapping sequence numbers and timestamps); viewers of every protocol must get each access unit once, with headers, key flags and times",
		LevelNote: "exploration: seeded streams over loopback; segmenters are covered by C40",
		Run:       runC28})
	vh.Register(&vh.Check{ID: "C29", Quick: 4000, Thorough: 12000, Setup: setupPlain, Technique: tech,
		Rule:      "random walks over all methods, targets, transports and states, pipelined and cut arbitrarily, with random header spelling; one reply per request in order, its status judged by a model of the session",
		LevelNote: "exploration: seeded request sequences of up to 40 requests",
		Run:       runC29})
}

// checkTimes compares RTP timestamps of a player with the published times.
func (v *View) checkTimes() error {
	fr := v.Live.Frames()
	firstA := -1
	var baseTS int64 // first audio frame received, in ms, unwrapped from the start of the stream
	for n, it := range v.Items() {
		f := fr[it.Idx]
		if it.Kind == 9 {
			if want := (f.TS + uint32(f.CTS)) * 90; it.TS != want {
				return fmt.Errorf("item %d: %v has RTP timestamp %d, should be %d", n, f, it.TS, want)
			}
			continue
		}
		v.mu.Lock()
		rate := v.tracks[1].rate
		v.mu.Unlock()
		if firstA < 0 {
			firstA, baseTS = it.Idx, int64(f.TS)
		}
		// unwrap: the frames of a stream are less than 2^31 ms apart
		ms := baseTS + int64(int32(f.TS-fr[firstA].TS))
		ok := false
		for d := int64(-1); d <= 1; d++ {
			ok = ok || uint32(ms*int64(rate)/1000+d) == it.TS
		}
		if !ok {
			return fmt.Errorf("item %d: %v has RTP timestamp %d, should be %d (rate %d)", n, f, it.TS, uint32(ms*int64(rate)/1000), rate)
		}
	}
	return nil
}

// checkSDP compares the description with the configurations in force.
func (v *View) checkSDP(vc, ac *media.Conf, opus bool) error {
	want := 0
	if vc != nil {
		want++
	}
	if ac != nil {
		want++
	}
	if len(v.SDP.Media) != want {
		return fmt.Errorf("SDP has %d media sections, the stream %d tracks", len(v.SDP.Media), want)
	}
	for _, m := range v.SDP.Media {
		pt := m.PTs[0]
		f := m.FMTP[pt]
		switch {
		case m.Kind == "video" && vc != nil:
			var sets [][]byte
			if vc.HEVC {
				for _, k := range []string{"sprop-vps", "sprop-sps", "sprop-pps"} {
					s, err := sdp.Sets(f[k])
					if err != nil {
						return fmt.Errorf("SDP %s: %v", k, err)
					}
					sets = append(sets, s...)
				}
				if len(vc.VPS) != 1 || len(vc.SPS) != 1 || len(vc.PPS) != 1 {
					continue // the description has room for one each
				}
			} else {
				s, err := sdp.Sets(f["sprop-parameter-sets"])
				if err != nil {
					return fmt.Errorf("SDP: %v", err)
				}
				sets = s
				if len(vc.SPS) != 1 || len(vc.PPS) != 1 {
					continue
				}
			}
			if !media.EqNALs(sets, vc.Sets()) {
				return fmt.Errorf("SDP has parameter sets %s, the stream %s", media.List(sets), media.List(vc.Sets()))
			}
		case m.Kind == "audio" && ac != nil && opus:
			if !strings.EqualFold(m.RTPMap[pt], "opus/48000/2") {
				return fmt.Errorf("SDP has audio %q", m.RTPMap[pt])
			}
		case m.Kind == "audio" && ac != nil:
			if c := sdp.Hex(f["config"]); !bytes.Equal(c, ac.ASC) {
				return fmt.Errorf("SDP has config %x, the stream %x", c, ac.ASC)
			}
			if w := fmt.Sprintf("mpeg4-generic/%d/%d", ac.Hz(), ac.Chans()); !strings.EqualFold(m.RTPMap[pt], w) {
				return fmt.Errorf("SDP has audio %q, the stream is %s", m.RTPMap[pt], w)
			}
		default:
			return fmt.Errorf("SDP has a %s section, the stream no such track", m.Kind)
		}
	}
	return nil
}

func runC27(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(pick(r, appLive, appTwo), e.Name(c))
	udp := c.Idx%3 == 0
	o := media.Opt{Start: startTS(r), Meta: r.Intn(2) == 0, CTS: r.Intn(3) > 0, HEVC: r.Intn(3) == 0, GOP: pick(r, 0, 4, 15), MaxSize: pick(r, 30, 1500, 9000, 40000),
		Change: r.Intn(3) == 0, Inband: r.Intn(2) == 0, AudioGaps: r.Intn(4) == 0, NoAUD: r.Intn(2) == 0, AudioMax: pick(r, 30, 600, 6000)}
	if udp && o.MaxSize > 1500 {
		o.MaxSize = 1500
	}
	n := 40 + r.Intn(80)
	if o.MaxSize > 9000 {
		n = 25
	}
	if !udp && r.Intn(40) == 0 { // frames of megabytes
		o.MaxSize, n, o.AudioMax = 400000, 5, 30
	}
	fs, desc := genFrames(c, n, false, o)
	if r.Intn(6) == 0 { // audio configurations in the longer spellings
		for _, f := range fs {
			if f.Kind == 8 && f.Hdr {
				f.Conf.Escape(r)
				f.Body = append(f.Body[:2:2], f.Conf.ASC...)
			}
		}
	}
	if r.Intn(8) == 0 { // the publisher's clock restarts
		at, by := len(fs)/4+r.Intn(len(fs)/2+1), uint32(1+r.Intn(pick(r, 100, 5000, 100000)))
		for _, f := range fs[at:] {
			f.TS -= by
		}
		desc += " restart"
	}
	opus := false
	if r.Intn(5) == 0 { // the same frames as Opus
		for _, f := range fs {
			if f.Kind == 8 {
				opus = true
				f.Body[0] = 0xd3
			}
		}
	}
	c.Trace("%s max %d opus %v", desc, o.MaxSize, opus)
	p := MustPublish(c, e.RTMP, l, Plain())
	defer p.Close()
	k := firstKey(fs)
	// viewers join behind the first headers of every track or later
	at := 0
	var vc, ac *media.Conf
	ks := kinds(fs)
	for i, f := range fs {
		if f.Hdr && f.Kind == 9 {
			vc = f.Conf
		}
		if f.Hdr && f.Kind == 8 {
			ac = f.Conf
		}
		if (vc != nil || !ks[9]) && (ac != nil || !ks[8]) {
			at = i + 1
			break
		}
	}
	if r.Intn(2) == 0 {
		at += r.Intn(len(fs)/2 + 1)
		for _, f := range fs[:at] {
			if f.Hdr && f.Kind == 9 {
				vc = f.Conf
			}
			if f.Hdr && f.Kind == 8 {
				ac = f.Conf
			}
		}
	}
	feed(c, p, fs[:at], len(fs))
	var vs []*View
	defer func() {
		for _, v := range vs {
			v.Close(false)
		}
	}()
	for i := 0; i < 1+r.Intn(3); i++ {
		w := randViewer(r, "rtsp", "rtsp", "rtsp-udp")
		if !udp {
			w = randViewer(r, "rtsp")
		}
		if len(ks) == 2 && r.Intn(3) == 0 {
			w.RTSP.NoVideo = r.Intn(2) == 0
			w.RTSP.NoAudio = !w.RTSP.NoVideo
		}
		v := e.MustView(c, l, w)
		vs = append(vs, v)
		c.Trace("%s viewer %+v at %d", w.Proto, w.RTSP, at)
		if err := v.checkSDP(vc, ac, opus); err != nil {
			c.Fail("sdp", "%s: %v", v, err)
		}
		c.Count("players:"+w.Proto, 1)
	}
	reqs := 0
	url := "rtsp://" + e.RTSP + "/" + l.App + "/" + l.Name
	for i := at; i < len(fs); {
		m := 1 + r.Intn(30)
		if i == at && at <= k {
			m = k + 1 - at // all begin before there is more
		}
		if i+m > len(fs) {
			m = len(fs) - i
		}
		// requests on their way while the media is
		v := vs[r.Intn(len(vs))]
		var cseqs []int
		base := v.SC.NReplies()
		if r.Intn(3) == 0 {
			var b []byte
			for k := 1 + r.Intn(20); k > 0; k-- {
				q, cseq := v.SC.Format(pick(r, "OPTIONS", "GET_PARAMETER", "DESCRIBE", "NOSUCH"), url, nil, nil)
				cseqs = append(cseqs, cseq)
				b = append(b, q...)
			}
			if err := v.SC.WriteAll(b); err != nil {
				c.Fail("dropped", "%s: writing requests: %v", v, err)
			}
		}
		feed(c, p, fs[i:i+m], pick(r, 3, 30), vs...)
		i += m
		for k, cseq := range cseqs {
			rep, err := v.SC.Reply(base+k, c.D(10*time.Second))
			if err != nil {
				c.FailTimed("keepalive", "%s: request %d of %d sent while media is: %v", v, k, len(cseqs), err)
			}
			if rep.H["cseq"] != strconv.Itoa(cseq) {
				c.Fail("cseq", "%s: request %d answered with CSeq %q", v, cseq, rep.H["cseq"])
			}
			reqs++
		}
		v = vs[r.Intn(len(vs))]
		switch r.Intn(4) {
		case 0:
			rep, err := v.SC.Do(c.D(10*time.Second), pick(r, "OPTIONS", "GET_PARAMETER", "PLAY"), url, nil, nil)
			if err != nil || rep.Code != 200 {
				c.FailTimed("keepalive", "%s: %v %v", v, rep, err)
			}
			reqs++
		case 1: // a receiver report
			if !strings.HasSuffix(v.Proto, "udp") {
				v.SC.WriteAll([]byte{'$', 1, 0, 8, 0x80, 201, 0, 1, 1, 2, 3, 4})
			}
		case 2:
			rep, err := v.SC.Do(c.D(10*time.Second), "DESCRIBE", url, nil, nil)
			if err != nil || rep.Code != 200 {
				c.FailTimed("keepalive", "%s: %v %v", v, rep, err)
			}
			reqs++
		}
	}
	p.Close()
	awaitEnd(c, vs...)
	npk := 0
	for _, v := range vs {
		from := -1
		if at <= k && !v.NoVideo {
			from = k
		}
		must := !v.NoVideo || l.lastWanted(v) > l.newestKey()
		checkRun(c, v, RunOpt{From: from, Complete: true, ToEnd: must, MustMedia: must})
		if err := v.checkTimes(); err != nil {
			c.Fail("times", "%s: %v", v, err)
		}
		for _, t := range v.tracks {
			if t != nil {
				npk += t.n
			}
		}
	}
	c.Count("rtp_packets", npk)
	c.Count("requests_while_playing", reqs)
	c.Nontrivial("%d %s", c.Idx, desc)
}

// RTSPPub is an RTSP publisher.
type RTSPPub struct {
	*rtsp.Conn
	Live   *Live
	r      *rand.Rand
	udp    bool
	vc     *media.Conf
	ac     *media.Conf
	tracks [2]*pubTrack
	start  uint32 // ms of the first frame
	naudio int64
	Exp    map[*media.Frame]float64 // ms since the start of the track
	lastVC *media.Conf
	dups   int
	npk    int
	// Wild: lost packets, packets of other payload types and addresses,
	// access units without a marker bit
	Wild     bool
	stranger *net.UDPConn
	held     []*media.Frame // sent, but without the marker bit
	NoLoss   bool
	lost     int
	noise    int
	unmarked int
	jumps    int
}

type pubTrack struct {
	pt, ch   int
	seq      uint16
	ssrc, ts uint32
	conn     *net.UDPConn
	to       *net.UDPAddr
	sock2    *net.UDPConn
	prev     []byte
}

// sdpText writes a description in some legal spelling.
func sdpText(r *rand.Rand, vc, ac *media.Conf, vpt, apt int, vctl, actl string) []byte {
	var secs []string
	if vc != nil {
		s := fmt.Sprintf("m=video 0 RTP/AVP %d\r\n", vpt)
		a := []string{fmt.Sprintf("a=rtpmap:%d H264/90000\r\n", vpt),
			fmt.Sprintf("a=fmtp:%d packetization-mode=1;sprop-parameter-sets=%s,%s;profile-level-id=%X\r\n", vpt, h26x.B64(vc.SPS[0]), h26x.B64(vc.PPS[0]), vc.SPS[0][1:4]),
			"a=control:" + vctl + "\r\n"}
		r.Shuffle(3, func(i, j int) { a[i], a[j] = a[j], a[i] })
		secs = append(secs, s+strings.Join(a, ""))
	}
	if ac != nil {
		s := fmt.Sprintf("m=audio 0 RTP/AVP %d\r\n", apt)
		a := []string{fmt.Sprintf("a=rtpmap:%d %s/%d/%d\r\n", apt, pick(r, "MPEG4-GENERIC", "mpeg4-generic"), h26x.AACRates[ac.Rate], ac.Chans()),
			fmt.Sprintf("a=fmtp:%d streamtype=5; profile-level-id=1; mode=AAC-hbr; sizelength=13; indexlength=3; indexdeltalength=3; config=%x\r\n", apt, ac.ASC),
			"a=control:" + actl + "\r\n"}
		r.Shuffle(3, func(i, j int) { a[i], a[j] = a[j], a[i] })
		secs = append(secs, s+strings.Join(a, ""))
	}
	r.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
	return []byte("v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=No Name\r\nc=IN IP4 127.0.0.1\r\nt=0 0\r\na=tool:v\r\n" + strings.Join(secs, ""))
}

// PublishRTSP announces, sets up and records. vc or ac nil: no such track.
func PublishRTSP(addr string, r *rand.Rand, l *Live, vc, ac *media.Conf, udp bool, opt ...PubOpt) (*RTSPPub, error) {
	var o PubOpt
	if len(opt) > 0 {
		o = opt[0]
	}
	nc, err := dial(addr)
	if err != nil {
		return nil, err
	}
	c := rtsp.New(nc)
	c.Start()
	p := &RTSPPub{Conn: c, Live: l, r: r, udp: udp, vc: vc, ac: ac, lastVC: vc, Exp: map[*media.Frame]float64{}}
	ok := false
	defer func() {
		if !ok && !o.Keep {
			p.Close()
		}
	}()
	l.Conv, l.Loose = true, udp
	base := "rtsp://" + addr + "/" + l.App + "/" + l.Name
	vpt, apt := 96+r.Intn(16), 112+r.Intn(16)
	style := r.Intn(6)
	ctl := func(i int) string {
		return [...]string{fmt.Sprintf("streamid=%d", i), fmt.Sprintf("trackID=%d", i), fmt.Sprintf("%s/trackID=%d", base, i),
			fmt.Sprintf("track%d", i), strings.Repeat("1", i+1), strings.Repeat("x", i) + "track"}[style]
	}
	vctl, actl := ctl(0), ctl(1)
	if r.Intn(2) == 0 {
		vctl, actl = ctl(1), ctl(0)
	}
	var hs []*media.Frame
	if vc != nil {
		hs = append(hs, vc.VideoHeader(0))
	}
	if ac != nil {
		hs = append(hs, ac.AudioHeader(0))
	}
	do := func(m, url string, h []string, body []byte) (*rtsp.Reply, error) {
		rep, err := c.Do(dialT, m, url, h, body)
		if err == nil && rep.Code != 200 {
			err = Status{m, rep.Code}
		}
		return rep, err
	}
	if r.Intn(2) == 0 {
		if _, err := do("OPTIONS", base, nil, nil); err != nil {
			return p, err
		}
	}
	l.Add(hs...)
	text := sdpText(r, vc, ac, vpt, apt, vctl, actl)
	strange := ""
	if o.Wild {
		text, strange = o.decorate(r, text, vc, ac)
	}
	if o.Gate != nil {
		o.Gate()
	}
	if _, err := do("ANNOUNCE", base, []string{"Content-Type: application/sdp"}, text); err != nil {
		return p, err
	}
	order := []int{0, 1}
	if r.Intn(2) == 0 {
		order = []int{1, 0}
	}
	chs := []int{0, 2}
	if r.Intn(2) == 0 {
		chs = []int{r.Intn(118), 120 + r.Intn(120)}
	}
	if strange != "" { // a track that cannot be taken
		_, err := do("SETUP", base+"/"+strange, []string{"Transport: RTP/AVP/TCP;unicast;interleaved=100-101"}, nil)
		if err == nil {
			return p, fmt.Errorf("SETUP of a track of another codec succeeds")
		}
		if _, ok := err.(Status); !ok {
			return p, err
		}
	}
	for n, i := range order {
		if i == 0 && vc == nil || i == 1 && ac == nil {
			continue
		}
		t := &pubTrack{pt: vpt, ch: chs[n], seq: uint16(pick(r, 65530, r.Intn(65536), 0)), ssrc: r.Uint32(), ts: pick(r, 0, 0xffffffff-uint32(r.Intn(90000)), r.Uint32())}
		control := vctl
		if i == 1 {
			t.pt, control = apt, actl
		}
		url := control
		if !strings.Contains(url, "://") {
			url = base + "/" + control
		}
		tr := fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record", t.ch, t.ch+1)
		if udp {
			a, b, err := udpPair(c.LocalAddr().(*net.TCPAddr).IP)
			if err != nil {
				return p, err
			}
			t.conn, t.sock2 = a, b
			port := a.LocalAddr().(*net.UDPAddr).Port
			tr = fmt.Sprintf("RTP/AVP/UDP;unicast;client_port=%d-%d;mode=record", port, port+1)
		}
		p.tracks[i] = t
		rep, err := do("SETUP", url, []string{"Transport: " + tr}, nil)
		if err != nil {
			return p, err
		}
		if udp {
			k := strings.Index(rep.H["transport"], "server_port=")
			port := 0
			if k >= 0 {
				fmt.Sscanf(rep.H["transport"][k:], "server_port=%d", &port)
			}
			if port == 0 {
				return p, fmt.Errorf("SETUP reply without server_port: %v", rep)
			}
			host, _, _ := net.SplitHostPort(addr)
			t.to = &net.UDPAddr{IP: net.ParseIP(host), Port: port}
		}
	}
	if _, err := do("RECORD", base, []string{"Range: npt=0.000-"}, nil); err != nil {
		return p, err
	}
	ok = true
	return p, nil
}

// PubOpt: Gate is called before ANNOUNCE; Keep leaves a refused session open.
type PubOpt struct {
	Gate func()
	Keep bool
	Wild bool // more in the description than the tracks
}

// decorate adds to a description what a server has no use for.
func (PubOpt) decorate(r *rand.Rand, text []byte, vc, ac *media.Conf) ([]byte, string) {
	s := string(text)
	strange := ""
	at := strings.Index(s, "m=")
	if r.Intn(3) == 0 {
		s = s[:at] + pick(r, "a=control:*\r\n", "a=range:npt=0-\r\n", "b=AS:2000\r\n", "a=rtpmap:96 VP8/90000\r\n", "a=recvonly\r\ni=x=y\r\n") + s[at:]
		at = strings.Index(s, "m=")
	}
	extra := ""
	switch r.Intn(8) {
	case 0:
		extra = "m=application 0 RTP/AVP 107\r\na=rtpmap:107 vnd.onvif.metadata/90000\r\na=control:meta\r\n"
	case 1:
		strange = pick(r, "pcm", "other")
		extra = "m=audio 0 RTP/AVP 0\r\na=rtpmap:0 PCMU/8000\r\na=control:" + strange + "\r\n"
	case 2:
		strange = "vp8"
		extra = "m=video 0 RTP/AVP 90\r\na=rtpmap:90 VP8/90000\r\na=control:vp8\r\n"
	case 3:
		if ac == nil {
			strange = "opus"
			extra = "m=audio 0 RTP/AVP 91\r\na=rtpmap:91 opus/48000/2\r\na=control:opus\r\n"
		}
	case 4:
		if vc == nil {
			strange = "hevc"
			extra = "m=video 0 RTP/AVP 92\r\na=rtpmap:92 H265/90000\r\na=control:hevc\r\n"
		}
	}
	if r.Intn(2) == 0 {
		s += extra
	} else {
		s = s[:at] + extra + s[at:]
	}
	switch r.Intn(6) {
	case 0:
		s = strings.ReplaceAll(s, "\r\n", "\n")
	case 1:
		s = strings.ReplaceAll(s, "m=video 0 RTP/AVP ", "a=x-note:m=audio\r\nm=video 0 RTP/AVP 93 94 ")
	case 2: // per section
		s = strings.ReplaceAll(s, "m=audio 0", "m=audio 5004") + "a=sendonly\r\nc=IN IP4 0.0.0.0\r\n"
	}
	return []byte(s), strange
}

func (p *RTSPPub) Close() {
	p.Conn.Close()
	for _, t := range p.tracks {
		if t != nil && t.conn != nil {
			t.conn.Close()
			t.sock2.Close()
		}
	}
	if p.stranger != nil {
		p.stranger.Close()
	}
}

// release puts what was sent without a marker bit into the stream.
func (p *RTSPPub) release() {
	p.Live.Add(p.held...)
	p.held = nil
}

// packet sends one RTP packet of track i.
func (p *RTSPPub) packet(i int, ts uint32, marker bool, payload []byte) error {
	t := p.tracks[i]
	r := p.r
	pk := rtp.Packet{PT: uint8(t.pt), Seq: t.seq, TS: ts, SSRC: t.ssrc, Marker: marker, Payload: payload}
	t.seq++
	b := pk.Bytes()
	if r.Intn(5) == 0 {
		b = pk.With(r.Intn(pick(r, 3, 16)), r.Intn(4)-1, r.Intn(pick(r, 5, 40, 256)), r)
	}
	if p.Wild && r.Intn(25) == 0 {
		if err := p.makeNoise(i, ts, payload); err != nil {
			return err
		}
	}
	p.npk++
	if err := p.raw(i, b); err != nil {
		return err
	}
	if r.Intn(20) == 0 { // duplicated
		p.dups++
		if err := p.raw(i, b); err != nil {
			return err
		}
	} else if r.Intn(20) == 0 && t.prev != nil { // and late duplicates
		p.dups++
		if err := p.raw(i, t.prev); err != nil {
			return err
		}
	}
	t.prev = b
	switch r.Intn(30) {
	case 0: // RTCP
		sr := append([]byte{0x80, 200, 0, 6}, make([]byte, 24)...)
		if p.udp {
			t.sock2.WriteToUDP(sr, &net.UDPAddr{IP: t.to.IP, Port: t.to.Port + 1})
			return nil
		}
		return p.WriteAll(append([]byte{'$', byte(t.ch + 1), 0, byte(len(sr))}, sr...))
	}
	return nil
}

// makeNoise sends packets that are not the track's: of another payload type
// (of a source of its own), of another version, on a channel nobody has set up, or
// from another address.
func (p *RTSPPub) makeNoise(i int, ts uint32, payload []byte) error {
	t := p.tracks[i]
	r := p.r
	pk := rtp.Packet{PT: uint8(r.Intn(90)), Seq: uint16(r.Intn(65536)), TS: ts, SSRC: t.ssrc + 1, Marker: r.Intn(2) == 0, Payload: payload}
	p.noise++
	switch r.Intn(3) {
	case 0:
		return p.raw(i, pk.Bytes())
	case 1:
		pk.PT, pk.Seq = uint8(t.pt), t.seq
		b := pk.Bytes()
		b[0] = b[0]&0x3f | byte(pick(r, 0, 1, 3))<<6
		return p.raw(i, b)
	}
	pk.PT, pk.Seq, pk.SSRC = uint8(t.pt), t.seq-1+uint16(r.Intn(3)), t.ssrc
	if p.udp {
		if p.stranger == nil {
			u, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 200, 7, byte(1+r.Intn(200)))})
			if err != nil {
				return err
			}
			p.stranger = u
		}
		_, err := p.stranger.WriteToUDP(pk.Bytes(), t.to)
		return err
	}
	b := pk.Bytes()
	return p.WriteAll(append([]byte{'$', byte(pick(r, 119, 243)), byte(len(b) >> 8), byte(len(b))}, b...))
}

func (p *RTSPPub) raw(i int, b []byte) error {
	t := p.tracks[i]
	if p.udp {
		_, err := t.conn.WriteToUDP(b, t.to)
		return err
	}
	return p.WriteAll(append([]byte{'$', byte(t.ch), byte(len(b) >> 8), byte(len(b))}, b...))
}

// jump lets the sequence numbers of a track begin anew, as they do when the
// publisher's encoder restarts.
func (p *RTSPPub) jump(t *pubTrack) {
	if !p.Wild || p.r.Intn(40) > 0 {
		return
	}
	if p.r.Intn(2) == 0 {
		t.seq += uint16(1 + p.r.Intn(30000))
	} else {
		t.seq -= uint16(1030 + p.r.Intn(30000))
	}
	t.prev = nil
	p.jumps++
}

// SendVideo sends one access unit; between calls inside its packets.
// next is the video frame behind it if that is known.
func (p *RTSPPub) SendVideo(f *media.Frame, between func() error, next *media.Frame) error {
	t := p.tracks[0]
	r := p.r
	cts := func(f *media.Frame) uint32 {
		if p.Wild {
			return uint32(f.CTS)
		}
		return 0
	}
	pts := func(f *media.Frame) uint32 { return t.ts + (f.TS+cts(f)-p.start)*90 }
	ts := pts(f)
	nals := append([][]byte{}, f.NALs...)
	hasSets := false
	for _, n := range nals {
		hasSets = hasSets || media.IsSPS(false, n)
	}
	var hdr *media.Frame
	if f.Conf != p.lastVC {
		hdr = f.Conf.VideoHeader(f.TS)
		p.lastVC = f.Conf
	}
	if f.Key && !hasSets && (hdr != nil || r.Intn(3) == 0) {
		nals = append(append([][]byte{}, f.Conf.Sets()...), nals...)
	}
	size := pick(r, 1400, 300, 1400)
	if p.udp && len(f.Body) > 1500 {
		size = 1400 // few datagrams at a time
	}
	sp := rtp.PackH264(r, nals, size)
	for p.udp && len(sp) > 60 {
		sp = rtp.PackH264(r, nals, size)
	}
	for p.Wild && len(nals) == 1 && len(nals[0]) > 20 && len(sp) == 1 && r.Intn(8) == 0 {
		sp = rtp.PackH264(r, nals, 64+len(nals[0])/2)
	}
	if p.Wild && hdr == nil && len(nals) == 1 && len(sp) > 1 && !p.NoLoss && r.Intn(12) == 0 {
		// some of its fragments are lost: so must be the whole
		drop := map[int]bool{r.Intn(len(sp)): true}
		for k := range sp {
			if r.Intn(3) == 0 {
				drop[k] = true
			}
		}
		if r.Intn(3) == 0 {
			drop = map[int]bool{pick(r, 0, len(sp)-1): true}
		}
		p.lost += len(drop)
		for k, s := range sp {
			if drop[k] {
				t.seq++
				continue
			}
			p.release() // another time has begun
			if err := p.packet(0, ts, k == len(sp)-1, s.Payload); err != nil {
				return err
			}
		}
		if between != nil {
			return between()
		}
		return nil
	}
	p.jump(t)
	unmark := p.Wild && next != nil && pts(next) != ts && r.Intn(10) == 0
	for k, s := range sp {
		last := k == len(sp)-1
		if k == 0 {
			p.release()
		}
		if last {
			var fs []*media.Frame
			if hdr != nil {
				fs = append(fs, hdr)
			}
			fs = append(fs, f)
			p.Exp[f] = float64(int32(f.TS + cts(f) - p.start))
			if unmark {
				p.held = fs
				p.unmarked++
			} else {
				p.Live.Add(fs...)
			}
		}
		if err := p.packet(0, ts, last && !unmark, s.Payload); err != nil {
			return err
		}
		if between != nil && k < len(sp)-1 && r.Intn(3) == 0 {
			if err := between(); err != nil {
				return err
			}
			between = nil
		}
	}
	if between != nil {
		return between()
	}
	return nil
}

// SendAudio sends consecutive frames in one packet, or a large one in several.
func (p *RTSPPub) SendAudio(fs ...*media.Frame) error {
	t := p.tracks[1]
	p.jump(t)
	ts := t.ts + uint32(p.naudio*1024)
	rate := h26x.AACRates[p.ac.Rate]
	var aus [][]byte
	for _, f := range fs {
		aus = append(aus, f.Raw)
		p.Exp[f] = float64(p.naudio) * 1024 * 1000 / float64(rate)
		p.naudio++
	}
	if len(fs) == 1 && len(aus[0]) > 200 && p.r.Intn(3) == 0 {
		parts := rtp.FragAAC(aus[0], 100+p.r.Intn(len(aus[0])))
		if p.Wild && !p.NoLoss && len(parts) > 1 && p.r.Intn(5) == 0 { // lost in part: lost
			drop := p.r.Intn(len(parts))
			p.lost++
			for i, b := range parts {
				if i == drop {
					t.seq++
					continue
				}
				if err := p.packet(1, ts, i == len(parts)-1, b); err != nil {
					return err
				}
			}
			return nil
		}
		for i, b := range parts {
			if i == len(parts)-1 {
				p.Live.Add(fs...)
			}
			if err := p.packet(1, ts, i == len(parts)-1, b); err != nil {
				return err
			}
		}
		return nil
	}
	p.Live.Add(fs...)
	return p.packet(1, ts, true, rtp.MakeAAC(aus))
}

// Send sends frames (headers are left out: they go with the SDP or in-band).
func (p *RTSPPub) Send(fs []*media.Frame) error {
	take := func(i int) ([]*media.Frame, int) {
		var g []*media.Frame
		n := 1
		if p.r.Intn(3) == 0 {
			n = 1 + p.r.Intn(5)
		}
		size := 0
		for i < len(fs) && len(g) < n && (fs[i].Kind == 8 || fs[i].Hdr) {
			if !fs[i].Hdr {
				if size += len(fs[i].Raw); size > 8000 && len(g) > 0 {
					break
				}
				g = append(g, fs[i])
			}
			i++
		}
		return g, i
	}
	for i := 0; i < len(fs); {
		f := fs[i]
		switch {
		case f.Hdr:
			i++
		case f.Kind == 8:
			g, j := take(i)
			if len(g) > 0 {
				if err := p.SendAudio(g...); err != nil {
					return err
				}
			}
			i = j
		default:
			i++
			var between func() error
			if i < len(fs) && len(p.held) == 0 && fs[i].Kind == 8 && !fs[i].Hdr && p.r.Intn(2) == 0 {
				g, j := take(i)
				i = j
				between = func() error { return p.SendAudio(g...) }
			}
			var next *media.Frame
			for _, g := range fs[i:] {
				if g.Kind == 9 && !g.Hdr {
					next = g
					break
				}
			}
			if err := p.SendVideo(f, between, next); err != nil {
				return err
			}
		}
	}
	return nil
}

// checkConvTimes: the times of a converted track advance as exp says.
func (v *View) checkConvTimes(exp map[*media.Frame]float64, tol float64) error {
	fr := v.Live.Frames()
	var first [2]*Item
	for n, it := range v.Items() {
		f := fr[it.Idx]
		want, ok := exp[f]
		if !coded(f) || !ok {
			continue
		}
		k := 0
		if it.Kind == 8 {
			k = 1
		}
		if first[k] == nil {
			first[k] = it
			continue
		}
		base := exp[fr[first[k].Idx]]
		var got float64
		if it.RTP {
			rate := 90000
			if k == 1 {
				rate = v.tracks[1].rate
			}
			got = float64(int32(it.TS-first[k].TS)) * 1000 / float64(rate)
		} else {
			got = float64(int32(it.TS + uint32(it.CTS) - first[k].TS - uint32(first[k].CTS)))
		}
		if d := got - (want - base); d > tol || d < -tol {
			return fmt.Errorf("item %d: %v comes %.2f ms after the first frame of its track, sent were %.2f ms", n, f, got, want-base)
		}
	}
	return nil
}

// genRTSP makes frames of one configuration with one SPS and one PPS: a
// description has room for no more.
func genRTSP(c *vh.C, n int, o media.Opt) (fs []*media.Frame, vc, ac *media.Conf) {
	for again := true; again; {
		o.ID += uint64(c.Idx+1)<<32 + uint64(c.R.Intn(1<<10))<<20
		fs, _ = genFrames(c, n, false, o)
		again = false
		for _, f := range fs {
			if f.Conf != nil && f.Kind == 9 && (len(f.Conf.SPS) != 1 || len(f.Conf.PPS) != 1) {
				again = true
			}
		}
	}
	for _, f := range fs {
		if f.Hdr && f.Kind == 9 {
			vc = f.Conf
		}
		if f.Hdr && f.Kind == 8 {
			ac = f.Conf
		}
	}
	return
}

func runC28(c *vh.C) {
	e := env(c)
	r := c.R
	l := NewLive(appLive, e.Name(c))
	udp := c.Idx%3 == 0
	o := media.Opt{Meta: false, GOP: pick(r, 0, 4, 15), MaxSize: pick(r, 30, 1500, 9000, 30000), Inband: r.Intn(2) == 0, NoAUD: r.Intn(2) == 0, Jitter: r.Intn(2) == 0, AudioMax: pick(r, 30, 600, 3000, 8100), CTS: r.Intn(3) == 0}
	if udp && o.MaxSize > 1500 {
		o.MaxSize = 1500
	}
	n := 40 + r.Intn(80)
	if o.MaxSize > 9000 {
		n = 25
	}
	switch r.Intn(5) {
	case 0:
		o.Video = true
	case 1:
		o.Audio = true
	default:
		o.Video, o.Audio = true, true
	}
	change := r.Intn(2) == 0
	o.Start = uint32(r.Intn(100000))
	fs, vc, ac := genRTSP(c, n, o)
	if change && vc != nil { // in-band change of the parameter sets at some keyframe
		var nc *media.Conf
		if id := uint64(c.Idx+1)<<32 | 1<<31 | uint64(r.Intn(1<<20)); r.Intn(3) == 0 {
			nc = vc.WithPPS(r, id)
		} else {
			for nc == nil || len(nc.SPS) != 1 || len(nc.PPS) != 1 {
				nc = media.NewVideoConf(r, false, id)
			}
		}
		from := len(fs)/3 + r.Intn(len(fs)/2)
		on := false
		for i, f := range fs {
			if f.Kind == 9 && !f.Hdr {
				on = on || i >= from && f.Key
				if on {
					for k, nal := range f.NALs { // sets sent in-band are the new ones
						if media.IsSPS(false, nal) {
							f.NALs[k] = nc.SPS[0]
						} else if nal[0]&31 == 8 {
							f.NALs[k] = nc.PPS[0]
						}
					}
					f.Conf = nc
				}
			}
		}
	}
	// presentation times: each once, none before the first
	used := map[uint32]bool{}
	var first0 *media.Frame
	for _, f := range fs {
		if f.Kind != 9 || f.Hdr {
			continue
		}
		if first0 == nil {
			first0, f.CTS = f, 0
		}
		if f.CTS < -200 || f.CTS > 300 {
			f.CTS = 0
		}
		for int32(f.TS+uint32(f.CTS)-first0.TS) < 0 || used[f.TS+uint32(f.CTS)] {
			f.CTS++
		}
		used[f.TS+uint32(f.CTS)] = true
	}
	c.Trace("video %v audio %v udp %v frames %d max %d change %v", o.Video, o.Audio, udp, len(fs), o.MaxSize, change)
	p, err := PublishRTSP(e.RTSP, r, l, vc, ac, udp, PubOpt{Wild: true})
	if err != nil {
		c.FailTimed("publish-rtsp", "publishing over RTSP: %v", err)
	}
	defer p.Close()
	p.start = o.Start
	p.Wild, p.NoLoss = true, true
	protos := []string{"rtmp", "flv", "ws", "rtsp", "rtsp-udp"}
	var vs []*View
	defer func() {
		for _, v := range vs {
			v.Close(false)
		}
	}()
	join := func() {
		w := randViewer(r, protos...)
		v := e.MustView(c, l, w)
		c.Trace("frame %d: %s viewer", len(l.Frames()), w.Proto)
		vs = append(vs, v)
	}
	vs = append(vs, e.MustView(c, l, Viewer{Proto: pick(r, "rtmp", "flv")}))
	join()
	k := firstKey(fs)
	first := fs[k]
	quiet := false
	for i := 0; i < len(fs); {
		m := 1 + r.Intn(25)
		if i == 0 {
			m = k + 1
		}
		if udp {
			m = 1 + r.Intn(3)
		}
		if i+m > len(fs) {
			m = len(fs) - i
		}
		for x := 0; i+m < len(fs) && fs[i+m].Kind == 8 && (!udp || x < 6); x++ { // rather not inside a run of audio
			m++
		}
		if err := p.Send(fs[i : i+m]); err != nil {
			c.Fail("publisher-dropped", "the publisher's connection failed: %v", err)
		}
		i += m
		p.NoLoss = i <= k
		if i > k {
			l.Sync(c, "while publishing", vs...)
		}
		if i > k && c.Idx < 2 && !quiet { // nothing to send for a while is no reason to end
			quiet = true
			time.Sleep(31 * time.Second)
			c.Count("quiet_streams", 1)
		}
		if i > k && len(vs) < 5 && r.Intn(4) == 0 {
			join()
		}
	}
	l.Sync(c, "at the end", vs...) // datagrams may be overtaken by the end
	if r.Intn(2) == 0 {
		if rep, err := p.Do(c.D(10*time.Second), "TEARDOWN", "rtsp://"+e.RTSP+"/"+l.App+"/"+l.Name, nil, nil); err != nil || rep.Code != 200 {
			c.FailTimed("teardown", "TEARDOWN: %v %v", rep, err)
		}
	} else {
		p.Close()
	}
	awaitEnd(c, vs...)
	fk := -1
	for i, f := range l.Frames() {
		if f == first {
			fk = i
		}
	}
	for i, v := range vs {
		from := -1
		if i < 2 && !udp && v.Proto != "rtsp-udp" {
			from = fk
		}
		checkRun(c, v, RunOpt{From: from, Complete: true, ToEnd: true, MustMedia: true})
		if err := v.checkConvTimes(p.Exp, 1.5); err != nil {
			v.failer(c)("times", "%s: %v", v, err)
		}
	}
	c.Count("rtp_packets", p.npk)
	c.Count("duplicated_packets", p.dups)
	c.Count("lost_packets", p.lost)
	c.Count("foreign_packets", p.noise)
	c.Count("units_without_marker", p.unmarked)
	c.Count("sequence_restarts", p.jumps)
	c.Nontrivial("%d %v %v %d", c.Idx, o.Video, o.Audio, len(fs))
}

func runC29(c *vh.C) {
	e := env(c)
	r := c.R
	// a live stream with both tracks, one with video only, and free names
	live := NewLive(appLive, e.Name(c))
	fs, _ := genFrames(c, 8, false, media.Opt{Video: true, Audio: true, GOP: 4, MaxSize: 300})
	p := MustPublish(c, e.RTMP, live, Plain())
	defer p.Close()
	feed(c, p, fs, 100)
	vonly := NewLive(appTwo, e.Name(c))
	fs2, _ := genFrames(c, 4, false, media.Opt{Video: true, GOP: 4, MaxSize: 300})
	p2 := MustPublish(c, e.RTMP, vonly, Plain())
	defer p2.Close()
	feed(c, p2, fs2, 100)
	free := "f" + e.Name(c)

	nc, err := dial(e.RTSP)
	if err != nil {
		c.FailTimed("dial", "%v", err)
	}
	s := rtsp.New(nc)
	s.Start()
	defer s.Close()
	base := "rtsp://" + e.RTSP + "/"

	var vc *media.Conf
	for vc == nil || len(vc.SPS) != 1 || len(vc.PPS) != 1 {
		vc = media.NewVideoConf(r, false, uint64(c.Idx+1)<<40)
	}
	ac := media.NewAudioConf(r, -1)

	// the model
	type state struct {
		announced, video, audio bool // ANNOUNCE accepted, with these tracks
		setup                   bool
		target                  string // stream set up for playing
		playing, recording      bool
		over                    bool
	}
	var st state
	type req struct {
		b      []byte
		cseq   string
		method string
		url    string
		desc   string
		want   int // 200, 0 any, 400 any error
		sets   bool
		tr     string
		sess   bool
	}
	odd := func(k string) string {
		switch r.Intn(4) {
		case 0:
			return strings.ToLower(k)
		case 1:
			return strings.ToUpper(k)
		}
		return k
	}
	cseq := r.Intn(1000)
	session := ""
	mk := func() req {
		q := req{method: pick(r, "OPTIONS", "DESCRIBE", "DESCRIBE", "SETUP", "SETUP", "SETUP", "PLAY", "PLAY", "ANNOUNCE", "ANNOUNCE", "RECORD", "RECORD", "GET_PARAMETER", "PAUSE", "SET_PARAMETER", "FOO", "REDIRECT", "TEARDOWN")}
		if q.method == "TEARDOWN" && r.Intn(4) > 0 {
			q.method = "OPTIONS"
		}
		type tgt struct {
			path         string
			known        bool
			video, audio bool
		}
		ts := []tgt{{live.App + "/" + live.Name, true, true, true}, {live.App + "/" + live.Name, true, true, true}, {vonly.App + "/" + vonly.Name, true, true, false}, {appLive + "/" + free, false, false, false}, {"nosuchapp/" + free, false, false, false}}
		t := ts[r.Intn(len(ts))]
		if q.method == "ANNOUNCE" && r.Intn(2) == 0 {
			t = ts[3]
		}
		url := base + t.path
		var h []string
		var body []byte
		q.want = 200
		switch q.method {
		case "OPTIONS":
			if r.Intn(4) == 0 {
				url = "*"
			}
		case "GET_PARAMETER":
			if r.Intn(2) == 0 {
				body = []byte("packets_received\r\njitter\r\n")
				h = append(h, odd("Content-Type")+": text/parameters")
			}
		case "DESCRIBE":
			h = append(h, odd("Accept")+": application/sdp")
			// the stream announced on this very session may be described too
			if !t.known && !(st.announced && t.path == appLive+"/"+free) {
				q.want = 400
			} else if !t.known {
				q.want = 0
			}
		case "SETUP":
			tr := r.Intn(6)
			track := r.Intn(2)
			good := true
			ch := r.Intn(255)
			if r.Intn(8) == 0 {
				ch = pick(r, 0, 253, 254)
			}
			switch tr {
			case 0:
				q.tr = "RTP/AVP/TCP;unicast;interleaved=" + fmt.Sprintf("%d-%d", ch, pick(r, ch+1, ch+1, r.Intn(256)))
				if r.Intn(8) == 0 {
					q.tr = pick(r, "RTP/AVP/TCP;unicast;interleaved=255-0", "RTP/AVP/TCP;interleaved=254", "RTP/AVP/TCP;unicast;interleaved=0")
				}
			case 1:
				q.tr = "RTP/AVP/TCP;interleaved=" + fmt.Sprintf("%d-%d", ch, ch+1) + ";unicast;mode=\"PLAY\""
			case 2:
				p := 20000 + 2*r.Intn(10000)
				q.tr = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d", p, p+1)
			case 3:
				p := 20000 + 2*r.Intn(10000)
				q.tr = fmt.Sprintf("RTP/AVP/UDP;unicast;client_port=%d-%d", p, p+1)
			case 4:
				q.tr = pick(r, "RAW/RAW/UDP;unicast", "", "RTP/SAVP;unicast;foo", "x")
				if q.tr != "" && strings.Contains(q.tr, "RTP/AVP") {
					q.tr = "x"
				}
				good = false
			case 5:
				q.tr = pick(r, "RTP/AVP/TCP;unicast;interleaved=a-b", "RTP/AVP;unicast;client_port=x-y", "RTP/AVP/TCP;interleaved=999-1000", "RTP/AVP/TCP;unicast;interleaved=255", "RTP/AVP/TCP;interleaved=255-256", "RTP/AVP/TCP;interleaved=-1-0", "RTP/AVP;client_port=70000-70001")
				good = false
			}
			if good && r.Intn(4) == 0 { // parameters the server need not know
				q.tr += pick(r, ";source=\"::1\"", ";destination=[::1]:5000;ttl=3", ";ssrc=1A2B3C4D", ";x-note=a:b:c")
			}
			if q.tr != "" {
				h = append(h, odd("Transport")+": "+q.tr)
			}
			if st.announced {
				url = base + appLive + "/" + free + fmt.Sprintf("/streamid=%d", track)
				if r.Intn(6) == 0 {
					url = base + appLive + "/" + free + "/streamid=7"
					track = 7
				}
				good = good && track < 2 && (track == 0 && st.video || track == 1 && st.audio)
			} else {
				url += fmt.Sprintf("/trackID=%d", track)
				good = good && t.known && (track == 0 && t.video || track == 1 && t.audio) && (!st.setup || st.target == t.path)
			}
			if st.playing || st.recording {
				good = false
			}
			if good {
				if !st.announced {
					st.target = t.path
				}
				st.setup = true
				q.sets = true
			} else {
				q.want = 400
			}
		case "PLAY":
			if st.announced || !st.setup {
				q.want = 400
			} else {
				st.playing = true
			}
			if r.Intn(2) == 0 {
				h = append(h, odd("Range")+pick(r, ": npt=0.000-", ": npt=0:00:00.0-", ":npt=now-"))
			}
		case "ANNOUNCE":
			v, a := vc, ac
			switch r.Intn(3) {
			case 0:
				v = nil
			case 1:
				a = nil
			}
			text := string(sdpText(r, v, a, 96, 97, "streamid=0", "streamid=1"))
			good := !st.announced && !st.setup && !st.playing && t.path == appLive+"/"+free
			switch r.Intn(5) {
			case 0:
				text, good = pick(r, "garbage", "v=0\r\ns=x\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 VP8/90000\r\na=control:streamid=0\r\n", ""), false
			}
			body = []byte(text)
			h = append(h, odd("Content-Type")+": application/sdp")
			if good {
				st.announced, st.video, st.audio = true, v != nil, a != nil
			} else {
				q.want = 400
			}
		case "RECORD":
			if !st.announced || !st.setup {
				q.want = 400
			} else {
				st.recording = true
			}
		case "TEARDOWN":
			st.over = true
		default:
			q.want = 400
		}
		cseq += 1 + r.Intn(3)
		q.cseq = strconv.Itoa(cseq)
		if r.Intn(8) == 0 {
			q.cseq = "00" + q.cseq
		}
		if url != "*" && r.Intn(4) == 0 { // as some clients write it
			url += pick(r, "/", "?token=a/b", "/?x=1")
			if k := strings.IndexByte(url, '?'); q.method == "SETUP" && k >= 0 {
				url = strings.TrimSuffix(url[:k], "/")
				if j := strings.LastIndexByte(url, '/'); !st.announced && r.Intn(2) == 0 { // what follows from such a description
					url = url[:j] + "?token=ab" + url[j:]
				}
			}
		}
		h = append(h, odd("CSeq")+":"+pick(r, " ", "", "  ")+q.cseq)
		if r.Intn(2) == 0 {
			h = append(h, odd("User-Agent")+": some thing/1.0 (x: y)")
		}
		if session != "" && r.Intn(4) > 0 {
			h = append(h, odd("Session")+": "+session)
		}
		if body != nil {
			h = append(h, odd("Content-Length")+": "+strconv.Itoa(len(body)))
		}
		if r.Intn(12) == 0 { // a long header, longer than usual buffers
			h = append(h, odd("X-Note")+": "+strings.Repeat("n", pick(r, 1000+r.Intn(8000), 4080+r.Intn(30), 8180+r.Intn(20))))
		}
		r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
		nl := "\r\n"
		if r.Intn(8) == 0 { // a line feed alone ends a line as well
			nl = "\n"
		}
		q.b = append([]byte(q.method+" "+url+" RTSP/1.0"+nl+strings.Join(h, nl)+nl+nl), body...)
		q.url = url
		q.desc = fmt.Sprintf("%s %s %s (CSeq %s) want %d", q.method, url, q.tr, q.cseq, q.want)
		return q
	}
	n := 5 + r.Intn(36)
	done := 0
	for done < n && !st.over {
		// a batch written at once, in pieces
		var qs []req
		var b []byte
		for k := 1 + r.Intn(pick(r, 1, 5)); k > 0 && !st.over; k-- {
			q := mk()
			qs = append(qs, q)
			b = append(b, q.b...)
			if st.over {
				// nothing behind it: the server has closed
			} else if st.recording && r.Intn(4) == 0 {
				b = append(b, '$', byte(r.Intn(8)), 0, 12, 0x80, 96, 0, 1, 0, 0, 0, 1, 0, 0, 0, 2)
			} else if r.Intn(6) == 0 {
				b = append(b, '$', 1, 0, 8, 0x80, 201, 0, 1, 1, 2, 3, 4)
			}
			c.Trace("%s", q.desc)
		}
		from := s.NReplies()
		for len(b) > 0 {
			k := len(b)
			if r.Intn(3) == 0 {
				k = 1 + r.Intn(k)
			}
			if err := s.WriteAll(b[:k]); err != nil {
				c.Fail("connection-ended", "writing %q: %v (%v)", b[:k], err, s.Err())
			}
			b = b[k:]
			if r.Intn(4) == 0 {
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			}
		}
		for i, q := range qs {
			rep, err := s.Reply(from+i, c.D(10*time.Second))
			if err != nil {
				if err == rtsp.ErrTimeout {
					c.FailTimed("no-reply:"+q.method, "no reply to %s", q.desc)
				}
				c.Fail("connection-ended", "after %s: %v", q.desc, err)
			}
			if rep.H["cseq"] != q.cseq {
				c.Fail("cseq", "%s answered with CSeq %q (%v)", q.desc, rep.H["cseq"], rep)
			}
			if q.want == 200 && rep.Code != 200 || q.want == 400 && rep.Code < 400 {
				c.Fail("status:"+q.method, "%s answered with %v", q.desc, rep)
			}
			c.Count(fmt.Sprintf("replies:%s:%d", q.method, rep.Code), 1)
			if sid := rep.H["session"]; sid != "" {
				if k := strings.IndexByte(sid, ';'); k >= 0 {
					sid = sid[:k]
				}
				if session != "" && sid != session {
					c.Fail("session", "%s answered with session %q, before it was %q", q.desc, sid, session)
				}
				session = sid
			}
			if q.sets {
				if session == "" {
					c.Fail("session", "%s answered without a session: %v", q.desc, rep)
				}
				got := strings.Split(rep.H["transport"], ";")
				for _, f := range strings.Split(q.tr, ";")[1:] {
					if strings.HasPrefix(f, "interleaved=") || strings.HasPrefix(f, "client_port=") {
						ok := false
						for _, g := range got {
							ok = ok || g == f || !strings.Contains(f, "-") && strings.HasPrefix(g, f+"-")
						}
						if !ok {
							c.Fail("transport", "%s answered with transport %q", q.desc, rep.H["transport"])
						}
					}
				}
			}
			if q.method == "OPTIONS" && rep.H["public"] == "" {
				c.Fail("public", "OPTIONS answered without Public: %v", rep)
			}
			if q.method == "DESCRIBE" && rep.Code == 200 {
				if _, err := sdp.Parse(rep.Body); err != nil {
					c.Fail("describe-body", "%v", err)
				}
				if b := rep.H["content-base"]; b != "" && b != strings.TrimSuffix(q.url, "/")+"/" {
					c.Fail("content-base", "%s answered with Content-Base %q", q.desc, b)
				}
			}
		}
		done += len(qs)
		if !st.over {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			if k := s.NReplies(); k != from+len(qs) {
				c.Fail("extra-reply", "%d replies to %d requests", k-from, len(qs))
			}
			if err := s.Err(); err != nil {
				c.Fail("connection-ended", "after %d requests: %v", done, err)
			}
		}
	}
	if st.over {
		if err := s.WaitEnd(c.D(10 * time.Second)); err == rtsp.ErrTimeout {
			c.FailTimed("no-end", "the connection is open after TEARDOWN")
		}
	}
	c.Count("requests", done)
	c.Nontrivial("%d %d", c.Idx, done)
}
