// Package sdp is a strict SDP reader (RFC 4566 line order and syntax, RTP
// attributes).
package sdp

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

type Media struct {
	Kind    string
	Port    int
	Proto   string
	PTs     []int
	RTPMap  map[int]string
	FMTP    map[int]map[string]string
	Control string
	Attrs   []string
}

type Session struct {
	Name    string
	Control string
	Media   []*Media
}

// Parse requires CRLF line ends and the RFC 4566 line order.
func Parse(b []byte) (*Session, error) {
	t := string(b)
	if !strings.HasSuffix(t, "\r\n") {
		return nil, fmt.Errorf("no final CRLF")
	}
	s := &Session{}
	const order = "vosiuepcbtrzka"
	const morder = "micbka"
	pos := -1
	mpos := 0
	seen := map[byte]int{}
	var m *Media
	for i, l := range strings.Split(strings.TrimSuffix(t, "\r\n"), "\r\n") {
		if strings.ContainsAny(l, "\r\n\x00") {
			return nil, fmt.Errorf("line %d contains a bare CR, LF or NUL: %q", i, l)
		}
		if len(l) < 3 || l[1] != '=' {
			return nil, fmt.Errorf("line %d: %q", i, l)
		}
		k, v := l[0], l[2:]
		if k == 'm' {
			f := strings.Split(v, " ")
			if len(f) < 4 {
				return nil, fmt.Errorf("m-line %q", l)
			}
			port, err := strconv.Atoi(f[1])
			if err != nil {
				return nil, fmt.Errorf("m-line %q", l)
			}
			m = &Media{Kind: f[0], Port: port, Proto: f[2], RTPMap: map[int]string{}, FMTP: map[int]map[string]string{}}
			for _, x := range f[3:] {
				pt, err := strconv.Atoi(x)
				if err != nil || pt < 0 || pt > 127 {
					return nil, fmt.Errorf("m-line %q", l)
				}
				m.PTs = append(m.PTs, pt)
			}
			s.Media = append(s.Media, m)
			mpos = 0
			continue
		}
		if m == nil {
			p := strings.IndexByte(order, k)
			if p < 0 || p < pos {
				return nil, fmt.Errorf("line %d %q out of order", i, l)
			}
			if p == pos && strings.IndexByte("vosiuct", k) >= 0 {
				return nil, fmt.Errorf("line %d %q repeated", i, l)
			}
			pos = p
			seen[k]++
			switch k {
			case 'v':
				if v != "0" {
					return nil, fmt.Errorf("version %q", v)
				}
			case 's':
				s.Name = v
			case 'o':
				if len(strings.Split(v, " ")) != 6 {
					return nil, fmt.Errorf("origin %q", v)
				}
			case 'c':
				if len(strings.Split(v, " ")) != 3 {
					return nil, fmt.Errorf("connection %q", v)
				}
			case 't':
				if len(strings.Split(v, " ")) != 2 {
					return nil, fmt.Errorf("timing %q", v)
				}
			case 'a':
				if strings.HasPrefix(v, "control:") {
					s.Control = v[8:]
				}
			}
			continue
		}
		p := strings.IndexByte(morder, k)
		if p < mpos {
			return nil, fmt.Errorf("media line %d %q out of order", i, l)
		}
		mpos = p
		if k != 'a' {
			continue
		}
		m.Attrs = append(m.Attrs, v)
		switch {
		case strings.HasPrefix(v, "control:"):
			if m.Control != "" {
				return nil, fmt.Errorf("two controls in one media section")
			}
			m.Control = v[8:]
		case strings.HasPrefix(v, "rtpmap:"), strings.HasPrefix(v, "fmtp:"):
			rest := v[strings.IndexByte(v, ':')+1:]
			sp := strings.IndexByte(rest, ' ')
			if sp < 0 || strings.TrimSpace(rest[sp:]) == "" {
				return nil, fmt.Errorf("attribute %q", v)
			}
			pt, err := strconv.Atoi(rest[:sp])
			if err != nil {
				return nil, fmt.Errorf("attribute %q", v)
			}
			in := false
			for _, x := range m.PTs {
				in = in || x == pt
			}
			if !in {
				return nil, fmt.Errorf("attribute %q for a payload type not in the m-line", v)
			}
			if v[0] == 'r' {
				if m.RTPMap[pt] != "" {
					return nil, fmt.Errorf("two rtpmaps for %d", pt)
				}
				m.RTPMap[pt] = rest[sp+1:]
				continue
			}
			if m.FMTP[pt] != nil {
				return nil, fmt.Errorf("two fmtps for %d", pt)
			}
			mp := map[string]string{}
			for _, kv := range strings.Split(rest[sp+1:], ";") {
				kv = strings.TrimSpace(kv)
				e := strings.IndexByte(kv, '=')
				if e < 1 {
					return nil, fmt.Errorf("fmtp parameter %q", kv)
				}
				key := strings.ToLower(kv[:e])
				if _, dup := mp[key]; dup {
					return nil, fmt.Errorf("fmtp parameter %q twice", key)
				}
				mp[key] = kv[e+1:]
			}
			m.FMTP[pt] = mp
		}
	}
	for _, k := range []byte("vost") {
		if seen[k] == 0 {
			return nil, fmt.Errorf("no %c= line", k)
		}
	}
	return s, nil
}

func Sets(v string) (out [][]byte, err error) {
	if v == "" {
		return nil, nil
	}
	for _, x := range strings.Split(v, ",") {
		b, err := base64.StdEncoding.DecodeString(x)
		if err != nil || len(b) == 0 {
			return nil, fmt.Errorf("parameter set %q: %v", x, err)
		}
		out = append(out, b)
	}
	return out, nil
}

func Hex(v string) []byte { b, _ := hex.DecodeString(v); return b }
