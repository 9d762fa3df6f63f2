// Package m3u8 is a strict media playlist parser (RFC 8216 and the low-latency
// tags of its second edition), as far as a live server may use them.
package m3u8

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

type Part struct {
	URI         string
	Dur         float64
	Off, Len    int64
	Independent bool
}

type Segment struct {
	Seq   int
	URI   string
	Dur   float64
	Parts []Part
}

type Playlist struct {
	Version    int
	Target     int
	MediaSeq   int
	Segments   []Segment
	Trailing   []Part // parts of the segment in progress
	PartTarget float64
	HoldBack   float64
	CanBlock   bool
	HintURI    string
	HintStart  int64
	HasHint    bool
	EndList    bool
	Text       string
}

var attrRe = regexp.MustCompile(`^([A-Z0-9-]+)=("[^"\r\n]*"|[^",\s]+)(,|$)`)

func attrs(s string) (map[string]string, error) {
	out := map[string]string{}
	for s != "" {
		m := attrRe.FindStringSubmatch(s)
		if m == nil {
			return nil, fmt.Errorf("bad attribute list %q", s)
		}
		if _, dup := out[m[1]]; dup {
			return nil, fmt.Errorf("attribute %s twice", m[1])
		}
		out[m[1]] = m[2]
		s = s[len(m[0]):]
		if m[3] == "," && s == "" {
			return nil, fmt.Errorf("trailing comma")
		}
	}
	return out, nil
}

func unq(s string) (string, error) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", fmt.Errorf("%s is not a quoted string", s)
	}
	return s[1 : len(s)-1], nil
}

var decRe = regexp.MustCompile(`^[0-9]+(\.[0-9]+)?$`)
var intRe = regexp.MustCompile(`^[0-9]+$`)

func dec(s string) (float64, error) {
	if !decRe.MatchString(s) {
		return 0, fmt.Errorf("%q is not a decimal", s)
	}
	return strconv.ParseFloat(s, 64)
}

func num(s string) (int, error) {
	if !intRe.MatchString(s) {
		return 0, fmt.Errorf("%q is not an integer", s)
	}
	return strconv.Atoi(s)
}

func Parse(b []byte) (*Playlist, error) {
	p := &Playlist{Target: -1, MediaSeq: 0, Version: 1, Text: string(b)}
	s := string(b)
	if !strings.HasSuffix(s, "\n") {
		return p, fmt.Errorf("last line not terminated")
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if len(lines) == 0 || lines[0] != "#EXTM3U" {
		return p, fmt.Errorf("no #EXTM3U")
	}
	seen := map[string]bool{}
	dur := -1.0
	var parts []Part
	for _, l := range lines[1:] {
		l = strings.TrimSuffix(l, "\r")
		var err error
		if l == "" {
			continue
		}
		if !strings.HasPrefix(l, "#") {
			if dur < 0 {
				return p, fmt.Errorf("URI %q without EXTINF", l)
			}
			if strings.ContainsAny(l, " \t") {
				return p, fmt.Errorf("URI %q", l)
			}
			p.Segments = append(p.Segments, Segment{Seq: p.MediaSeq + len(p.Segments), URI: l, Dur: dur, Parts: parts})
			dur, parts = -1, nil
			continue
		}
		tag, val := l, ""
		if i := strings.IndexByte(l, ':'); i >= 0 {
			tag, val = l[:i], l[i+1:]
		}
		once := func() error {
			if seen[tag] {
				return fmt.Errorf("%s twice", tag)
			}
			seen[tag] = true
			if len(p.Segments) > 0 || dur >= 0 {
				return fmt.Errorf("%s after the first segment", tag)
			}
			return nil
		}
		switch tag {
		case "#EXT-X-VERSION":
			if err = once(); err == nil {
				p.Version, err = num(val)
			}
		case "#EXT-X-TARGETDURATION":
			if err = once(); err == nil {
				p.Target, err = num(val)
			}
		case "#EXT-X-MEDIA-SEQUENCE":
			if err = once(); err == nil {
				p.MediaSeq, err = num(val)
			}
		case "#EXT-X-ALLOW-CACHE", "#EXT-X-INDEPENDENT-SEGMENTS", "#EXT-X-DISCONTINUITY-SEQUENCE", "#EXT-X-START":
			err = once()
		case "#EXT-X-DISCONTINUITY", "#EXT-X-PROGRAM-DATE-TIME":
		case "#EXT-X-ENDLIST":
			p.EndList = true
		case "#EXTINF":
			f := strings.SplitN(val, ",", 2)
			if len(f) != 2 {
				return p, fmt.Errorf("EXTINF without comma: %q", l)
			}
			if dur >= 0 {
				return p, fmt.Errorf("EXTINF twice")
			}
			dur, err = dec(f[0])
		case "#EXT-X-PART-INF":
			var a map[string]string
			if err = once(); err == nil {
				if a, err = attrs(val); err == nil {
					p.PartTarget, err = dec(a["PART-TARGET"])
				}
			}
		case "#EXT-X-SERVER-CONTROL":
			var a map[string]string
			if err = once(); err == nil {
				if a, err = attrs(val); err == nil {
					p.CanBlock = a["CAN-BLOCK-RELOAD"] == "YES"
					if h, ok := a["PART-HOLD-BACK"]; ok {
						p.HoldBack, err = dec(h)
					}
				}
			}
		case "#EXT-X-PART":
			var a map[string]string
			if a, err = attrs(val); err != nil {
				break
			}
			var pt Part
			if pt.Dur, err = dec(a["DURATION"]); err != nil {
				break
			}
			if pt.URI, err = unq(a["URI"]); err != nil {
				break
			}
			var br string
			if br, err = unq(a["BYTERANGE"]); err != nil {
				break
			}
			f := strings.Split(br, "@")
			if len(f) != 2 {
				return p, fmt.Errorf("BYTERANGE %q", br)
			}
			var n, o int
			if n, err = num(f[0]); err != nil {
				break
			}
			if o, err = num(f[1]); err != nil {
				break
			}
			pt.Len, pt.Off = int64(n), int64(o)
			if v, ok := a["INDEPENDENT"]; ok {
				if v != "YES" {
					return p, fmt.Errorf("INDEPENDENT=%s", v)
				}
				pt.Independent = true
			}
			parts = append(parts, pt)
		case "#EXT-X-PRELOAD-HINT":
			var a map[string]string
			if a, err = attrs(val); err != nil {
				break
			}
			if a["TYPE"] != "PART" {
				return p, fmt.Errorf("hint %q", l)
			}
			if p.HintURI, err = unq(a["URI"]); err != nil {
				break
			}
			var n int
			if x, ok := a["BYTERANGE-START"]; ok {
				n, err = num(x)
			}
			p.HintStart, p.HasHint = int64(n), true
		default:
			if strings.HasPrefix(l, "#EXT") {
				return p, fmt.Errorf("unknown tag %q", l)
			}
		}
		if err != nil {
			return p, fmt.Errorf("%q: %v", l, err)
		}
	}
	if dur >= 0 {
		return p, fmt.Errorf("EXTINF without URI")
	}
	p.Trailing = parts
	if p.Target < 0 {
		return p, fmt.Errorf("no target duration")
	}
	for _, s := range p.Segments {
		if math.Floor(s.Dur+0.5) > float64(p.Target) {
			return p, fmt.Errorf("segment %s of %.3fs with target duration %d", s.URI, s.Dur, p.Target)
		}
	}
	hasParts := len(p.Trailing) > 0
	for _, s := range p.Segments {
		hasParts = hasParts || len(s.Parts) > 0
	}
	if hasParts {
		if p.PartTarget <= 0 {
			return p, fmt.Errorf("parts without PART-INF")
		}
		if p.HoldBack < 2*p.PartTarget-0.001 {
			return p, fmt.Errorf("PART-HOLD-BACK %.3f with PART-TARGET %.3f", p.HoldBack, p.PartTarget)
		}
	}
	return p, nil
}
