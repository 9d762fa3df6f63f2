package lib

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"

	"github.com/sbraveyoung/GGmpeg/librtsp"

	"vharness/ref/h26x"
	"vharness/ref/sdp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{
		ID: "C26", Quick: 150000, Thorough: 1000000,
		Rule:      "each case: random track combination and parameter sets; the generated SDP is read by a strict parser and by the package's own; the same information in a random legal layout (attribute order, unknown attributes and media sections, several payload types, letter case, spacing, LF or CRLF) is parsed by the package; every prefix-damaged or randomly mutated text is parsed without a crash; distinct by SDP text",
		Technique: "round-trip oracle against an independent SDP reader and an independent SDP writer",
		LevelNote: "held on the inputs tried; one SPS and one PPS per stream (the struct has room for one), at most one H.264/H.265 and one AAC/Opus track",
		Run:       runC26,
	})
}

func runC26(c *vh.C) {
	if c.Idx%2 == 0 {
		c26Build(c)
	} else {
		c26Parse(c)
	}
}

func c26Params(r *rand.Rand) librtsp.SDPParams {
	p := librtsp.SDPParams{StreamID: oddNames[r.Intn(len(oddNames))], HasVideo: r.Intn(4) != 0}
	switch r.Intn(8) {
	case 0:
		p.StreamID = fmt.Sprintf("s%d", r.Intn(1000))
	case 1:
		p.StreamID = ""
	case 2:
		p.StreamID = "x" + string(rune(r.Intn(0x20))) + "a=control:y"
	case 3:
		p.StreamID = "x\r\nm=audio 0 RTP/AVP 97\r\n"
	}
	p.HasAudio = !p.HasVideo || r.Intn(3) != 0
	if p.HasVideo {
		p.IsHEVC = r.Intn(3) == 0
		if p.IsHEVC {
			p.VPS = h26x.NAL265(r, 32, r.Uint64(), 10+r.Intn(30))
			p.SPS = h26x.NAL265(r, 33, r.Uint64(), 10+r.Intn(90))
			p.PPS = h26x.NAL265(r, 34, r.Uint64(), 10+r.Intn(30))
		} else {
			p.SPS = randBytes(r, 4+r.Intn(60))
			p.SPS[0] = 0x67&^0x60 | byte(1+r.Intn(3))<<5
			p.PPS = randBytes(r, 2+r.Intn(30))
			p.PPS[0] = 0x68
		}
	}
	if p.HasAudio {
		p.IsOpus = r.Intn(4) == 0
		p.AudioChans = 1 + r.Intn(2)
		if p.IsOpus {
			p.AudioRate = 48000
		} else {
			ri := r.Intn(13)
			p.AudioRate = h26x.AACRates[ri]
			p.AudioConfig = h26x.ASC(2, ri, p.AudioChans)
			if r.Intn(4) == 0 {
				p.AudioConfig = append(p.AudioConfig, 0x56, 0xe5, 0)
			}
			if r.Intn(8) == 0 {
				p.AudioChans = 6
			}
		}
	}
	return p
}

func c26Build(c *vh.C) {
	r := c.R
	p := c26Params(r)
	var b []byte
	c.Call("BuildSDP", func() { b = librtsp.BuildSDP(p) })
	c.Trace("params %+v\n%s", p, b)
	s, err := sdp.Parse(b)
	if err != nil {
		c.Fail("build-syntax", "%v", err)
	}
	want := 0
	if p.HasVideo {
		want++
	}
	if p.HasAudio {
		want++
	}
	if len(s.Media) != want {
		c.Fail("build-tracks", "%d media sections, want %d", len(s.Media), want)
	}
	for i, m := range s.Media {
		if m.Proto != "RTP/AVP" || len(m.PTs) != 1 {
			c.Fail("build-mline", "media section %d is %s with payload types %v", i, m.Proto, m.PTs)
		}
		pt := m.PTs[0]
		video := p.HasVideo && i == 0
		kind, wpt, ctl := "audio", 97, "trackID=1"
		if video {
			kind, wpt, ctl = "video", 96, "trackID=0"
		}
		if m.Kind != kind || pt != wpt || m.Control != ctl {
			c.Fail("build-mline", "media section %d is %s/%d control %q, want %s/%d %q", i, m.Kind, pt, m.Control, kind, wpt, ctl)
		}
		f := m.FMTP[pt]
		var rm string
		switch {
		case video && p.IsHEVC:
			rm = "H265/90000"
			for k, v := range map[string][]byte{"sprop-vps": p.VPS, "sprop-sps": p.SPS, "sprop-pps": p.PPS} {
				got, err := sdp.Sets(f[k])
				if err != nil || !eqNals(got, [][]byte{v}) {
					c.Fail("build-sets", "%s is %q (%v), want %x", k, f[k], err, v)
				}
			}
		case video:
			rm = "H264/90000"
			got, err := sdp.Sets(f["sprop-parameter-sets"])
			if err != nil || !eqNals(got, [][]byte{p.SPS, p.PPS}) {
				c.Fail("build-sets", "sprop-parameter-sets %q: %v", f["sprop-parameter-sets"], err)
			}
			if !strings.EqualFold(f["profile-level-id"], hex.EncodeToString(p.SPS[1:4])) {
				c.Fail("build-profile", "profile-level-id %q for SPS %x", f["profile-level-id"], p.SPS[:4])
			}
			if f["packetization-mode"] != "1" {
				c.Fail("build-mode", "packetization-mode %q, but FU-A is used", f["packetization-mode"])
			}
		case p.IsOpus:
			rm = "opus/48000/2"
			if st := f["sprop-stereo"] == "1"; st != (p.AudioChans == 2) {
				c.Fail("build-opus", "sprop-stereo %q for %d channels", f["sprop-stereo"], p.AudioChans)
			}
		default:
			rm = fmt.Sprintf("mpeg4-generic/%d/%d", p.AudioRate, p.AudioChans)
			if !bytes.Equal(sdp.Hex(f["config"]), p.AudioConfig) || !strings.EqualFold(f["mode"], "AAC-hbr") ||
				f["sizelength"] != "13" || f["indexlength"] != "3" || f["indexdeltalength"] != "3" || f["streamtype"] != "5" {
				c.Fail("build-aac", "fmtp %v for config %x", f, p.AudioConfig)
			}
		}
		if !strings.EqualFold(m.RTPMap[pt], rm) {
			c.Fail("build-rtpmap", "rtpmap %q, want %q", m.RTPMap[pt], rm)
		}
	}
	checkParsed(c, b, p, 96, 97, "trackID=0", "trackID=1")
	c.Count("sdps_built", 1)
	c.Nontrivial("%s", b)
}

func checkParsed(c *vh.C, b []byte, p librtsp.SDPParams, vpt, apt int, vctl, actl string) {
	var q *librtsp.ParsedSDP
	var err error
	c.Call("ParseSDP", func() { q, err = librtsp.ParseSDP(append([]byte(nil), b...)) })
	if err != nil {
		c.Fail("parse-error", "SDP refused: %v", err)
	}
	if q.HasVideo != p.HasVideo || q.HasAudio != p.HasAudio {
		c.Fail("parse-tracks", "parsed video %v audio %v, want %v %v", q.HasVideo, q.HasAudio, p.HasVideo, p.HasAudio)
	}
	if p.HasVideo {
		if int(q.VideoPayloadType) != vpt || q.VideoControl != vctl || q.IsHEVC != p.IsHEVC {
			c.Fail("parse-video", "parsed payload type %d control %q hevc %v, want %d %q %v", q.VideoPayloadType, q.VideoControl, q.IsHEVC, vpt, vctl, p.IsHEVC)
		}
		if !bytes.Equal(q.SPS, p.SPS) || !bytes.Equal(q.PPS, p.PPS) || !bytes.Equal(q.VPS, p.VPS) {
			c.Fail("parse-sets", "parsed VPS %x SPS %x PPS %x, want %x %x %x", q.VPS, q.SPS, q.PPS, p.VPS, p.SPS, p.PPS)
		}
	}
	if p.HasAudio {
		if int(q.AudioPayloadType) != apt || q.AudioControl != actl || q.IsOpus != p.IsOpus {
			c.Fail("parse-audio", "parsed payload type %d control %q opus %v, want %d %q %v", q.AudioPayloadType, q.AudioControl, q.IsOpus, apt, actl, p.IsOpus)
		}
		if !bytes.Equal(q.AudioConfig, p.AudioConfig) || q.AudioRate != p.AudioRate || q.AudioChans != p.AudioChans {
			c.Fail("parse-aac", "parsed config %x rate %d channels %d, want %x %d %d", q.AudioConfig, q.AudioRate, q.AudioChans, p.AudioConfig, p.AudioRate, p.AudioChans)
		}
	}
	c.Count("sdps_parsed", 1)
}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

func c26Parse(c *vh.C) {
	r := c.R
	p := c26Params(r)
	vpt, apt := 96+r.Intn(16), 112+r.Intn(16)
	ctl := func(i int) string {
		switch r.Intn(4) {
		case 0:
			return fmt.Sprintf("rtsp://10.0.0.%d:8554/live/x/track%d", r.Intn(9), i)
		case 1:
			return fmt.Sprintf("streamid=%d", i)
		case 2:
			return fmt.Sprintf("t%d", i)
		}
		return fmt.Sprintf("trackID=%d", i)
	}
	vctl, actl := ctl(1), ctl(2)
	var sections [][]string
	fmtp := func(pt int, kv []string) string {
		r.Shuffle(len(kv), func(i, j int) { kv[i], kv[j] = kv[j], kv[i] })
		sep := []string{";", "; ", " ; "}[r.Intn(3)]
		for i := range kv {
			e := strings.IndexByte(kv[i], '=')
			kv[i] = randCase(r, kv[i][:e]) + kv[i][e:]
		}
		s := fmt.Sprintf("a=fmtp:%d %s", pt, strings.Join(kv, sep))
		if r.Intn(3) == 0 {
			s += ";"
		}
		return s
	}
	junk := []string{"a=recvonly", "a=framerate:25", "a=x-dimensions:640,480", "a=range:npt=now-", "a=sdplang:en", "a=fmtp", "a=rtcp-fb:96 nack"}
	section := func(kind string, pt int, control, rtpmap string, params []string) {
		pts := fmt.Sprint(pt)
		var attrs []string
		if r.Intn(4) == 0 { // a second, unsupported payload type, before or after
			o := 64 + r.Intn(32)
			if o == pt {
				o = 64
			}
			if r.Intn(2) == 0 {
				pts = fmt.Sprintf("%d %d", o, pt)
			} else {
				pts = fmt.Sprintf("%d %d", pt, o)
			}
			attrs = append(attrs, fmt.Sprintf("a=rtpmap:%d X-ODD/8000/1", o),
				fmt.Sprintf("a=fmtp:%d config=FFFF;sprop-parameter-sets=Z0LAHw==,aM4G4g==", o))
		}
		attrs = append(attrs, fmt.Sprintf("a=rtpmap:%d %s", pt, rtpmap), "a=control:"+control)
		if len(params) > 0 {
			attrs = append(attrs, fmtp(pt, params))
		}
		for i := r.Intn(3); i > 0; i-- {
			attrs = append(attrs, junk[r.Intn(len(junk))])
		}
		r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
		l := []string{fmt.Sprintf("m=%s %d RTP/AVP %s", kind, r.Intn(2)*5000, pts)}
		if r.Intn(4) == 0 {
			l = append(l, "i=title", "c=IN IP4 1.2.3.4")
		}
		if r.Intn(4) == 0 {
			l = append(l, "b=AS:500")
		}
		sections = append(sections, append(l, attrs...))
	}
	b64 := base64.StdEncoding.EncodeToString
	if p.HasVideo {
		if p.IsHEVC {
			section("video", vpt, vctl, randCase(r, "H265")+"/90000", []string{"sprop-vps=" + b64(p.VPS), "sprop-sps=" + b64(p.SPS), "sprop-pps=" + b64(p.PPS)})
		} else {
			sets := b64(p.SPS) + "," + b64(p.PPS)
			if r.Intn(4) == 0 {
				sets = b64(p.PPS) + "," + b64(p.SPS)
			}
			section("video", vpt, vctl, randCase(r, "H264")+"/90000", []string{"packetization-mode=1", "profile-level-id=42e01f", "sprop-parameter-sets=" + sets})
		}
	}
	if p.HasAudio {
		if p.IsOpus {
			var kv []string
			if p.AudioChans == 2 {
				kv = []string{"sprop-stereo=1", "stereo=1"}
			}
			section("audio", apt, actl, randCase(r, "opus")+"/48000/2", kv)
		} else {
			rm := fmt.Sprintf("%s/%d/%d", randCase(r, "MPEG4-GENERIC"), p.AudioRate, p.AudioChans)
			if p.AudioChans == 1 && r.Intn(2) == 0 {
				rm = fmt.Sprintf("%s/%d", randCase(r, "MPEG4-GENERIC"), p.AudioRate)
			}
			section("audio", apt, actl, rm, []string{"streamtype=5", "profile-level-id=1", "mode=AAC-hbr", "sizelength=13", "indexlength=3", "indexdeltalength=3", "config=" + randCase(r, hex.EncodeToString(p.AudioConfig))})
		}
	}
	if r.Intn(3) == 0 {
		sections = append(sections, []string{"m=application 0 RTP/AVP 107", "a=rtpmap:107 vnd.onvif.metadata/90000", "a=control:trackID=9"})
	}
	if r.Intn(4) == 0 {
		sections = append(sections, []string{"m=audio 0 RTP/AVP 0", "a=control:trackID=7"})
	}
	r.Shuffle(len(sections), func(i, j int) { sections[i], sections[j] = sections[j], sections[i] })
	eol := "\r\n"
	if r.Intn(3) == 0 {
		eol = "\n"
	}
	lines := []string{"v=0", "o=- 1 1 IN IP4 127.0.0.1", "s=x", "c=IN IP4 0.0.0.0", "t=0 0"}
	if r.Intn(2) == 0 {
		lines = append(lines, "a=tool:x", "a=control:*")
	}
	for _, s := range sections {
		lines = append(lines, s...)
	}
	text := strings.Join(lines, eol)
	if r.Intn(3) != 0 {
		text += eol
	}
	c.Trace("%s", text)
	checkParsed(c, []byte(text), p, vpt, apt, vctl, actl)
	c.Nontrivial("%s", text)
	// damaged texts never crash the parser
	for i := 0; i < 8; i++ {
		b := []byte(text)
		for k := 0; k <= r.Intn(6); k++ {
			switch j := r.Intn(len(b)); r.Intn(4) {
			case 0:
				b[j] = byte(r.Intn(256))
			case 1:
				b = append(b[:j], b[min(len(b), j+1+r.Intn(8)):]...)
			case 2:
				b = append(b[:j], append(bytes.Repeat([]byte(":=;, /"), r.Intn(3)), b[j:]...)...)
			case 3:
				b = b[:j+1]
			}
			if len(b) == 0 {
				b = []byte("v")
			}
		}
		c.Call("ParseSDP on damaged text", func() { librtsp.ParseSDP(b) })
		c.Count("damaged_sdps", 1)
	}
}
