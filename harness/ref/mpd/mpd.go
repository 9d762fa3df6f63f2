// Package mpd reads the DASH manifests of a live server strictly.
package mpd

import (
	"encoding/xml"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"time"
)

type mpdT struct {
	XMLName xml.Name `xml:"urn:mpeg:dash:schema:mpd:2011 MPD"`
	Type    string   `xml:"type,attr"`
	Prof    string   `xml:"profiles,attr"`
	Avail   string   `xml:"availabilityStartTime,attr"`
	Pub     string   `xml:"publishTime,attr"`
	MinBuf  string   `xml:"minBufferTime,attr"`
	Upd     string   `xml:"minimumUpdatePeriod,attr"`
	Period  []struct {
		Set []struct {
			CT   string `xml:"contentType,attr"`
			Mime string `xml:"mimeType,attr"`
			Rep  []struct {
				ID     string `xml:"id,attr"`
				Codecs string `xml:"codecs,attr"`
				W      int    `xml:"width,attr"`
				H      int    `xml:"height,attr"`
				BW     int    `xml:"bandwidth,attr"`
				Tpl    []struct {
					Scale string `xml:"timescale,attr"`
					Dur   string `xml:"duration,attr"`
					Start string `xml:"startNumber,attr"`
					PTO   string `xml:"presentationTimeOffset,attr"`
					Init  string `xml:"initialization,attr"`
					Media string `xml:"media,attr"`
					TL    []struct {
						S []struct {
							T string `xml:"t,attr"`
							D string `xml:"d,attr"`
							R string `xml:"r,attr"`
						} `xml:"S"`
					} `xml:"SegmentTimeline"`
				} `xml:"SegmentTemplate"`
			} `xml:"Representation"`
		} `xml:"AdaptationSet"`
	} `xml:"Period"`
}

type Seg struct {
	Num  int
	File string
	T, D uint64
}

type Manifest struct {
	Codecs, InitFile string
	W, H             int
	Scale            uint64
	PTO              uint64 // presentation time offset
	Segs             []Seg
}

// Expand resolves a template and the URL to a file name.
func Expand(t string, num int) (string, error) {
	var sb strings.Builder
	for t != "" {
		i := strings.IndexByte(t, '$')
		if i < 0 {
			sb.WriteString(t)
			break
		}
		sb.WriteString(t[:i])
		t = t[i+1:]
		j := strings.IndexByte(t, '$')
		if j < 0 {
			return "", fmt.Errorf("unpaired $")
		}
		switch t[:j] {
		case "":
			sb.WriteByte('$')
		case "Number":
			if num < 0 {
				return "", fmt.Errorf("$Number$ in initialization")
			}
			sb.WriteString(strconv.Itoa(num))
		default:
			return "", fmt.Errorf("template identifier %q", t[:j])
		}
		t = t[j+1:]
	}
	u, err := url.Parse(sb.String())
	if err != nil {
		return "", err
	}
	if u.Scheme != "" || u.Host != "" || u.RawQuery != "" || u.Fragment != "" || u.ForceQuery {
		return "", fmt.Errorf("%q is not a plain relative path", sb.String())
	}
	return u.Path, nil
}

// Parse reads a manifest strictly.
func Parse(b []byte) (*Manifest, error) {
	var m mpdT
	if err := xml.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	if m.Type != "dynamic" || !strings.Contains(m.Prof, "urn:mpeg:dash:profile:") {
		return nil, fmt.Errorf("type %q profiles %q", m.Type, m.Prof)
	}
	for _, t := range []string{m.Avail, m.Pub} {
		if _, err := time.Parse(time.RFC3339, t); err != nil {
			return nil, err
		}
	}
	if !strings.HasPrefix(m.MinBuf, "PT") || !strings.HasPrefix(m.Upd, "PT") {
		return nil, fmt.Errorf("durations %q %q", m.MinBuf, m.Upd)
	}
	if len(m.Period) != 1 || len(m.Period[0].Set) != 1 || len(m.Period[0].Set[0].Rep) != 1 || len(m.Period[0].Set[0].Rep[0].Tpl) != 1 {
		return nil, fmt.Errorf("not one period, set, representation and template")
	}
	s := m.Period[0].Set[0]
	if s.Mime != "video/mp4" {
		return nil, fmt.Errorf("mime type %q", s.Mime)
	}
	r := s.Rep[0]
	if r.ID == "" || r.BW <= 0 {
		return nil, fmt.Errorf("representation id %q bandwidth %d", r.ID, r.BW)
	}
	t := r.Tpl[0]
	out := &Manifest{Codecs: r.Codecs, W: r.W, H: r.H}
	var err error
	if out.Scale, err = strconv.ParseUint(t.Scale, 10, 32); err != nil || out.Scale == 0 {
		return nil, fmt.Errorf("timescale %q", t.Scale)
	}
	if t.PTO != "" {
		if out.PTO, err = strconv.ParseUint(t.PTO, 10, 64); err != nil {
			return nil, fmt.Errorf("presentationTimeOffset %q", t.PTO)
		}
	}
	if out.InitFile, err = Expand(t.Init, -1); err != nil {
		return nil, err
	}
	start, err := strconv.Atoi(t.Start)
	if err != nil || start < 0 {
		return nil, fmt.Errorf("startNumber %q", t.Start)
	}
	if len(t.TL) != 1 || t.Dur != "" {
		return nil, fmt.Errorf("the segments available are not listed (duration %q, %d timelines): a fixed duration makes clients ask for numbers that do not exist", t.Dur, len(t.TL))
	}
	next := uint64(0)
	for i, x := range t.TL[0].S {
		d, err := strconv.ParseUint(x.D, 10, 64)
		if err != nil {
			return nil, fmt.Errorf("S@d %q", x.D)
		}
		at := next
		if x.T != "" {
			if at, err = strconv.ParseUint(x.T, 10, 64); err != nil {
				return nil, fmt.Errorf("S@t %q", x.T)
			}
			if i > 0 && at < next {
				return nil, fmt.Errorf("segments overlap: %d before %d", at, next)
			}
		}
		rep := 0
		if x.R != "" {
			if rep, err = strconv.Atoi(x.R); err != nil || rep < 0 {
				return nil, fmt.Errorf("S@r %q", x.R)
			}
		}
		for ; rep >= 0; rep-- {
			n := start + len(out.Segs)
			f, err := Expand(t.Media, n)
			if err != nil {
				return nil, err
			}
			out.Segs = append(out.Segs, Seg{n, f, at, d})
			at += d
		}
		next = at
	}
	return out, nil
}
