package net

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"vharness/media"
	"vharness/ref/amf0"
	"vharness/ref/rtmp"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{ID: "C11", Quick: 8000, Thorough: 20000, Setup: setupPlain, Technique: tech,
		Rule:      "seeded command histories (connect, createStream, publish, play, FCPublish, releaseStream, deleteStream, closeStream, FCUnpublish, pause, seek, unknown ones, then often a malformed one) with odd transaction ids and arguments, pipelined or not; the recorded replies are compared, in order, with a state model of the session",
		LevelNote: "exploration: seeded histories; the model tracks which names are taken and what the session publishes",
		Run:       runC11})
}

// anyAMF is some value.
func anyAMF(r *rand.Rand, depth int) interface{} {
	n := 12
	if depth > 2 {
		n = 8
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return r.NormFloat64() * 1000
	case 2:
		return pick(r, math.Inf(1), math.MaxFloat64, 0.0, -1.0)
	case 3:
		return r.Intn(2) == 0
	case 4:
		return word(r)
	case 5:
		return amf0.Undefined{}
	case 6:
		return float64(r.Intn(10))
	case 7:
		return strings.Repeat("x", r.Intn(300))
	case 8, 9:
		o := amf0.Obj{}
		for i := r.Intn(4); i > 0; i-- {
			o = append(o, amf0.Prop{K: fmt.Sprint("k", i), V: anyAMF(r, depth+1)})
		}
		return o
	case 10:
		s := amf0.Strict{}
		for i := r.Intn(4); i > 0; i-- {
			s = append(s, anyAMF(r, depth+1))
		}
		return s
	}
	e := amf0.ECMA{}
	for i := r.Intn(4); i > 0; i-- {
		e.Props = append(e.Props, amf0.Prop{K: fmt.Sprint("e", i), V: anyAMF(r, depth+1)})
	}
	e.Count = uint32(len(e.Props))
	return e
}

func word(r *rand.Rand) string {
	return pick(r, "", "a", "live", "record", "append", "NetStream", "日本語", "a b", "x/y", "_result", "publish")
}

type want struct {
	txn    float64
	name   string // _result or onStatus
	code   string
	level  string
	number bool // a stream id comes with it
	setup  bool // preceded by the three settings
	what   string
}

type cmdModel struct {
	publishing string
	busy       map[string]bool // published by others
}

func sameTxn(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) || a == b }

func runC11(c *vh.C) {
	e := env(c)
	r := c.R
	if r.Intn(25) == 0 {
		runC11Switch(c)
		return
	}
	other := NewLive(appLive, e.Name(c))
	p := MustPublish(c, e.RTMP, other, Plain())
	defer p.Close()
	fs, _ := genFrames(c, 6, false, media.Opt{Video: true, Audio: true, GOP: 3, MaxSize: 300})
	feed(c, p, fs, 6)

	rc, err := rtmp.Dial(e.RTMP, r, nil, c.D(dialT))
	if err != nil {
		c.FailTimed("refused", "%v", err)
	}
	defer rc.Close()
	own := []string{e.Name(c), e.Name(c), "x y " + e.Name(c), "日本" + e.Name(c), e.Name(c) + "?token=1&b=%20", strings.Repeat("n", 250) + e.Name(c)}
	m := &cmdModel{busy: map[string]bool{other.Name: true}}
	var wants []want
	optional := map[float64]string{}
	csid := pick(r, uint32(3), 3, 5, 8, 64, 319, 320, 4000)
	style := r.Intn(3) // 0 waits for each, 1 all at once, 2 mixed
	odd := r.Intn(2) == 0
	txn := func() float64 {
		if odd {
			return pick(r, 0, 1, 2, 3, 4, 5, -1, 0.5, 1e300, math.Inf(1), math.NaN(), 4294967296, float64(r.Intn(1000)), math.Copysign(0, -1))
		}
		return rc.NextTxn()
	}
	nonNil := func() interface{} {
		if r.Intn(3) > 0 {
			return nil
		}
		return anyAMF(r, 0)
	}
	tail := func(v []interface{}) []interface{} {
		for i := r.Intn(3); odd && i > 0; i-- {
			v = append(v, anyAMF(r, 0))
		}
		return v
	}
	send := func(vals ...interface{}) {
		c.Trace("%v", vals)
		fm := 0
		if r.Intn(2) == 0 {
			fm = rtmp.RandFmt(r)
		}
		if err := rc.SendMsg(&rtmp.Msg{CSID: csid, Type: 20, TS: uint32(r.Intn(3)), MSID: uint32(r.Intn(3)), Body: amf0.Enc(vals...)}, fm); err != nil {
			c.Fail("session-lost", "sending %v: %v", vals[0], err)
		}
	}
	lookup := func() string {
		switch r.Intn(4) {
		case 0:
			return other.Name
		case 1:
			return own[r.Intn(len(own))]
		case 2:
			if m.publishing != "" {
				return m.publishing
			}
		}
		return own[r.Intn(len(own))]
	}
	// judge compares what came with what was wanted.
	judge := func(all bool) {
		msgs, rerr := rc.Msgs()
		var got []*rtmp.Reply
		settings := 0
		seenOpt := map[float64]int{}
		i := 0
		for _, msg := range msgs {
			switch msg.Type {
			case 1:
				settings |= 1
			case 5:
				settings |= 2
			case 6:
				settings |= 4
			case 17, 20:
				q, err := rtmp.ParseCmd(msg)
				if err != nil {
					c.Fail("reply-format", "%v", err)
				}
				switch q.Name {
				case "_result", "_error":
					if _, ok := optional[q.Txn]; ok {
						if seenOpt[q.Txn]++; seenOpt[q.Txn] > 1 {
							c.Fail("reply-twice", "%s is answered twice", optional[q.Txn])
						}
						continue
					}
				case "onStatus":
					switch q.Code() {
					case "NetStream.Play.Reset", "NetStream.Data.Start", "NetStream.Play.PublishNotify", "NetStream.Play.UnpublishNotify", "NetStream.Play.Stop":
						continue
					}
				default:
					continue
				}
				got = append(got, q)
				if i >= len(wants) {
					c.Fail("reply-extra", "a reply nobody asked for: %s txn %v %q %v", q.Name, q.Txn, q.Code(), q.Args)
				}
				w := wants[i]
				i++
				if q.Name != w.name || q.Name == "_result" && !sameTxn(q.Txn, w.txn) {
					c.Fail("reply:"+w.what, "reply %d, to %s (txn %v), is %s txn %v %q; wanted is %s %s", i, w.what, w.txn, q.Name, q.Txn, q.Code(), w.name, w.code)
				}
				if w.code != "" && q.Code() != w.code || w.level != "" && q.Prop("level") != w.level {
					c.Fail("status:"+w.what, "reply %d, to %s, has code %q level %v; wanted %q %q", i, w.what, q.Code(), q.Prop("level"), w.code, w.level)
				}
				if w.number {
					if len(q.Args) < 2 {
						c.Fail("stream-id", "the reply to createStream has no stream id: %v", q.Args)
					}
					if _, ok := q.Args[1].(float64); !ok {
						c.Fail("stream-id", "the reply to createStream has stream id %v", q.Args[1])
					}
				}
				if w.setup {
					if settings != 7 {
						c.Fail("connect-settings", "before the result of connect came (1 chunk size, 2 window, 4 bandwidth): %d", settings)
					}
					settings = 0
				}
			}
		}
		if all && i < len(wants) {
			c.FailTimed("reply-missing:"+wants[i].what, "%d of %d replies came, %s (txn %v) is not answered; session %v; got last %+v", i, len(wants), wants[i].what, wants[i].txn, rerr, last(got))
		}
	}
	answered := func() int { // replies so far, cheaply
		n := 0
		msgs, _ := rc.Msgs()
		for _, msg := range msgs {
			if msg.Type == 20 {
				if q, err := rtmp.ParseCmd(msg); err == nil && (q.Name == "_result" || q.Name == "_error" || q.Name == "onStatus") {
					if _, ok := optional[q.Txn]; ok && q.Name != "onStatus" {
						continue
					}
					switch q.Code() {
					case "NetStream.Play.Reset", "NetStream.Data.Start", "NetStream.Play.PublishNotify", "NetStream.Play.UnpublishNotify", "NetStream.Play.Stop":
						continue
					}
					n++
				}
			}
		}
		return n
	}
	pong := func() error {
		id := r.Uint32()
		from := rc.Len()
		if err := rc.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, id)}, 0); err != nil {
			return err
		}
		w := string(rtmp.UserCtl(7, id))
		_, _, err := rc.Wait(from, c.D(dialT), func(m *rtmp.Msg) bool { return m.Type == 4 && string(m.Body) == w })
		return err
	}
	settle := func() {
		c.Eventually(15*time.Second, func() bool {
			_, err := rc.Msgs()
			return answered() >= len(wants) || err != nil
		})
		judge(true)
		if err := pong(); err != nil {
			c.FailTimed("session-lost", "after %d commands: %v", len(wants), err)
		}
		judge(true)
	}
	connect := func() {
		t := txn()
		o := amf0.Obj{{K: "app", V: appLive}, {K: "tcUrl", V: "rtmp://" + e.RTMP + "/" + appLive}}
		for i := r.Intn(6); odd && i > 0; i-- {
			k := pick(r, "flashVer", "swfUrl", "fpad", "audioCodecs", "videoCodecs", "capabilities", "pageUrl", "type", fmt.Sprint("p", i))
			o = append(o, amf0.Prop{K: k, V: anyAMF(r, 0)})
		}
		r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
		send(tail([]interface{}{"connect", t, o})...)
		wants = append(wants, want{txn: t, name: "_result", code: "NetConnection.Connect.Success", level: "status", setup: true, what: "connect"})
	}
	pre := r.Intn(8) == 0
	if !pre {
		connect()
		if style == 0 {
			settle()
		}
		n := 1 + r.Intn(14)
		for k := 0; k < n; k++ {
			t := txn()
			res := func(what string) { wants = append(wants, want{txn: t, name: "_result", what: what}) }
			status := func(what, code, level string) {
				wants = append(wants, want{txn: t, name: "onStatus", code: code, level: level, what: what})
			}
			switch r.Intn(13) {
			case 0:
				send(tail([]interface{}{"createStream", t, nonNil()})...)
				wants = append(wants, want{txn: t, name: "_result", number: true, what: "createStream"})
			case 1, 2:
				name := lookup()
				send(tail([]interface{}{"publish", t, nil, name, pick(r, "live", "live", "record", "append", "LIVE", "")})...)
				if m.publishing != "" || m.busy[name] {
					status("publish", "NetStream.Publish.BadName", "error")
				} else {
					status("publish", "NetStream.Publish.Start", "status")
					m.publishing = name
				}
			case 3, 4:
				name := lookup()
				v := []interface{}{"play", t, nil, name}
				if r.Intn(2) == 0 {
					v = append(v, pick(r, -2.0, -1.0, 0.0, 100.0))
					if r.Intn(2) == 0 {
						v = append(v, -1.0, r.Intn(2) == 0)
					}
				}
				send(v...)
				if m.busy[name] || name == m.publishing {
					status("play", "NetStream.Play.Start", "status")
				} else {
					status("play", "NetStream.Play.StreamNotFound", "error")
				}
			case 5:
				send(tail([]interface{}{"releaseStream", t, nonNil(), lookup()})...)
				res("releaseStream")
			case 6:
				send(tail([]interface{}{"FCPublish", t, nonNil(), lookup()})...)
				res("FCPublish")
			case 7:
				name := lookup()
				if m.publishing != "" && r.Intn(2) == 0 {
					name = m.publishing
				}
				send(tail([]interface{}{"FCUnpublish", t, nil, name})...)
				status("FCUnpublish", "NetStream.Unpublish.Success", "status")
				if name == m.publishing {
					m.publishing = ""
				}
			case 8:
				if r.Intn(2) == 0 {
					send("deleteStream", t, nil, float64(r.Intn(3)))
					status("deleteStream", "NetStream.Unpublish.Success", "status")
				} else {
					send("closeStream", t, nil)
					status("closeStream", "NetStream.Unpublish.Success", "status")
				}
				m.publishing = ""
			case 9:
				on := r.Intn(2) == 0
				send(tail([]interface{}{"pause", t, nil, on, float64(r.Intn(5000))})...)
				if on {
					status("pause", "NetStream.Pause.Notify", "status")
				} else {
					status("pause", "NetStream.Unpause.Notify", "status")
				}
			case 10:
				send(tail([]interface{}{"seek", t, nil, float64(r.Intn(100000))})...)
				status("seek", "NetStream.Seek.Notify", "status")
			case 11:
				if m.publishing == "" && r.Intn(3) == 0 {
					connect()
					break
				}
				t = 770000 + float64(k)
				name := pick(r, "receiveAudio", "receiveVideo")
				optional[t] = name
				send(name, t, nil, r.Intn(2) == 0)
			case 12:
				t = 770000 + float64(k)
				name := pick(r, "call", "FCSubscribe", "getStreamLength", "_checkbw", "checkBandwidth", "onFoo", "", "Connect", "PUBLISH", "publish2", "_result", "_error", "onStatus", strings.Repeat("z", 1000))
				optional[t] = name
				send(tail([]interface{}{name, t, nonNil()})...)
			}
			if style == 0 || style == 2 && r.Intn(3) == 0 {
				settle()
			}
		}
		settle()
	}
	c.Count("commands", len(wants)+len(optional))
	c.Count(fmt.Sprintf("style:%d", style), 1)
	for _, w := range wants {
		c.Count("replies:"+w.what, 1)
	}
	c.Nontrivial("%d %v", c.Idx, len(wants))
	if !pre && r.Intn(3) == 0 {
		return
	}
	runC11Bad(c, rc, pre, m, other, csid)
}

func last[T any](l []T) (v T) {
	if len(l) > 0 {
		v = l[len(l)-1]
	}
	return
}

// runC11Bad ends the session with something that must be refused.
func runC11Bad(c *vh.C, rc *rtmp.Client, pre bool, m *cmdModel, other *Live, csid uint32) {
	r := c.R
	const t = 990099.0
	app := pick[interface{}](r, "nope", "", appLive+"x", "LIVE", " live", 5.0, nil, true, amf0.Obj{})
	free := "free_" + other.Name
	bads := [][]interface{}{
		{"connect", t, amf0.Obj{{K: "app", V: app}}},
		{"connect", t, amf0.Obj{}},
		{"connect", t, nil},
		{"connect", t, "live"},
		{"connect", t, 7.0},
		{"connect", t},
		{"connect"},
		{"connect", "1", amf0.Obj{{K: "app", V: appLive}}},
		{5.0, t, amf0.Obj{{K: "app", V: appLive}}},
		{nil, t, nil},
		{},
	}
	if pre {
		bads = append(bads, [][]interface{}{
			{"publish", t, nil, free, "live"},
			{"play", t, nil, other.Name},
		}...)
	} else {
		bads = append(bads, [][]interface{}{
			{"publish", t, nil},
			{"publish", t},
			{"play", t},
			{"publish", t, nil, 5.0, "live"},
			{"publish", t, nil, nil, "live"},
			{"publish", t, nil, amf0.Obj{}, "live"},
			{"play", t, nil},
			{"play", t, nil, 5.0},
			{"play", t, nil, nil},
			{"createStream", "x", nil},
			{"createStream", t},
			{"createStream"},
		}...)
	}
	v := bads[r.Intn(len(bads))]
	body := amf0.Enc(v...)
	if r.Intn(8) == 0 { // a body cut short
		v = []interface{}{"connect", t, amf0.Obj{{K: "app", V: appLive}, {K: "x", V: "yyyy"}}}
		if !pre {
			v = []interface{}{"publish", t, nil, free, "live"}
		}
		body = amf0.Enc(v...)
		body = body[:len(body)-1-r.Intn(len(body)-1)]
		v = append([]interface{}{"cut short:"}, v...)
	}
	c.Trace("malformed: %v", v)
	from := rc.Len()
	if err := rc.SendMsg(&rtmp.Msg{CSID: csid, Type: 20, MSID: 1, Body: body}, 0); err != nil {
		c.Fail("session-lost", "%v", err)
	}
	id := r.Uint32()
	rc.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, id)}, 0)
	w := string(rtmp.UserCtl(7, id))
	_, _, err := rc.Wait(from, c.D(dialT), func(m *rtmp.Msg) bool { return m.Type == 4 && string(m.Body) == w })
	if err == rtmp.ErrTimeout {
		c.FailTimed("hang", "after %v neither the end of the session nor a ping response", v)
	}
	if err != nil {
		c.Count("refused_by_end", 1)
	} else {
		c.Count("session_goes_on", 1)
	}
	msgs, _ := rc.Msgs()
	for _, msg := range msgs[from:] {
		if msg.Type != 20 {
			continue
		}
		q, err := rtmp.ParseCmd(msg)
		if err != nil {
			continue
		}
		if q.Name == "_result" || q.Name == "onStatus" && q.Prop("level") == "status" && q.Code() != "NetStream.Play.UnpublishNotify" {
			c.Fail("bad-accepted", "%v is answered by %s txn %v %q", v, q.Name, q.Txn, q.Code())
		}
	}
}
