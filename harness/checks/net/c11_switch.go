package net

import (
	"fmt"
	"time"

	"vharness/media"
	"vharness/ref/rtmp"
	"vharness/vh"
)

// runC11Switch drives one session that plays one stream after the other, and
// publishes beside it: what it gets is always the stream it asked for last,
// and what it gave up is given up.
func runC11Switch(c *vh.C) {
	e := env(c)
	r := c.R
	var pubs []*Pub
	var todo [][]*media.Frame
	mk := func(l *Live, n int) []*media.Frame {
		fs, _ := genFrames(c, n, false, media.Opt{Video: true, Audio: r.Intn(2) == 0, GOP: 2 + r.Intn(4), MaxSize: 300, ID: uint64(c.Idx+1)<<32 | uint64(len(pubs)+10*r.Intn(1<<18))<<12})
		return fs
	}
	for i := 0; i < 2+r.Intn(2); i++ {
		l := NewLive(appLive, e.Name(c))
		p := MustPublish(c, e.RTMP, l, Plain())
		defer p.Close()
		fs := mk(l, 120)
		k := firstKey(fs) + 1
		feed(c, p, fs[:k], k)
		pubs, todo = append(pubs, p), append(todo, fs[k:])
	}
	rc, err := DialRTMP(e.RTMP, appLive, r)
	if err != nil {
		c.FailTimed("dial", "%v", err)
	}
	defer rc.Close()
	if _, err := rc.Call(0, dialT, "createStream", nil); err != nil {
		c.FailTimed("createStream", "%v", err)
	}
	rc.SetChunkSize(4096)

	var own *Pub // what the session publishes
	var ownView *View
	var ownTodo []*media.Frame
	defer func() {
		if ownView != nil {
			ownView.Close(false)
		}
	}()
	// the streams in the order of the successful play requests, nil: none
	var asked []*Live
	var cur *Live
	scanned, nth := 0, 0
	media2 := 0 // media messages since the last change
	scan := func() {
		msgs, rerr := rc.Msgs()
		for ; scanned < len(msgs); scanned++ {
			m := msgs[scanned]
			switch m.Type {
			case 20:
				q, err := rtmp.ParseCmd(m)
				if err != nil {
					c.Fail("reply-format", "%v", err)
				}
				if q.Name == "onStatus" && (q.Code() == "NetStream.Play.Start" || q.Code() == "NetStream.Unpublish.Success") {
					if nth >= len(asked) {
						c.Fail("reply-extra", "a reply nobody asked for: %q", q.Code())
					}
					if (asked[nth] == nil) != (q.Code() == "NetStream.Unpublish.Success") {
						c.Fail("reply:switch", "reply %d is %q", nth, q.Code())
					}
					cur = asked[nth]
					nth, media2 = nth+1, 0
				}
			case 8, 9:
				if cur == nil {
					c.Fail("media-after-close", "a type %d message of %d bytes, though nothing is played", m.Type, len(m.Body))
				}
				cur.mu.Lock()
				_, ok := cur.byBody[tagKey(m.Type, m.Body)]
				cur.mu.Unlock()
				if !ok {
					c.Fail("other-stream", "a type %d message of %d bytes that is none of %s, which is played", m.Type, len(m.Body), cur.Name)
				}
				media2++
			}
		}
		if rerr != nil {
			c.Fail("session-lost", "%v", rerr)
		}
	}
	pong := func() {
		id := r.Uint32()
		from := rc.Len()
		if rc.SendMsg(&rtmp.Msg{CSID: 2, Type: 4, Body: rtmp.UserCtl(6, id)}, 0) == nil {
			w := string(rtmp.UserCtl(7, id))
			if _, _, err := rc.Wait(from, c.D(dialT), func(m *rtmp.Msg) bool { return m.Type == 4 && string(m.Body) == w }); err != nil {
				c.FailTimed("session-lost", "%v", err)
			}
		}
		scan()
		if nth != len(asked) {
			c.FailTimed("reply-missing:switch", "%d of %d requests are answered", nth, len(asked))
		}
	}
	gone := func() { // the session's own stream is over
		if ownView != nil {
			awaitEnd(c, ownView)
			checkRun(c, ownView, RunOpt{From: -1, Complete: true, ToEnd: true, MustMedia: true})
			ownView.Close(false)
			ownView = nil
		}
		name := own.Live.Name
		own = nil
		var p *Pub
		var err error
		if !c.Eventually(8*time.Second, func() bool {
			p, err = Publish(e.RTMP, r, NewLive(appLive, name), Plain())
			return err == nil
		}) {
			c.FailTimed("name-not-free", "%s was given up, but: %v", name, err)
		}
		p.Close()
		c.Count("own_streams", 1)
	}
	feedAll := func() {
		for i, p := range pubs {
			n := min(1+r.Intn(4), len(todo[i]))
			feed(c, p, todo[i][:n], n)
			todo[i] = todo[i][n:]
		}
		if own != nil && len(ownTodo) > 0 {
			n := min(1+r.Intn(4), len(ownTodo))
			if err := own.Send(ownTodo[:n]...); err != nil {
				c.Fail("session-lost", "publishing: %v", err)
			}
			ownTodo = ownTodo[n:]
			if ownView != nil {
				own.Live.Sync(c, "while publishing", ownView)
			}
		}
	}
	plays := 0
	for step := 4 + r.Intn(10); step > 0; step-- {
		switch k := r.Intn(8); {
		case k < 4: // play
			l := pubs[r.Intn(len(pubs))].Live
			if own != nil && r.Intn(4) == 0 {
				l = own.Live
			}
			c.Trace("play %s", l.Name)
			asked = append(asked, l)
			rc.Cmd(1, "play", rc.NextTxn(), nil, l.Name)
			plays++
			c.Count("plays", 1)
		case k == 4:
			c.Trace("play of nothing")
			rc.Cmd(1, "play", rc.NextTxn(), nil, "no"+pubs[0].Live.Name)
		case k == 5 && own == nil:
			l := NewLive(appLive, e.Name(c))
			c.Trace("publish %s", l.Name)
			pong()
			if _, err := rc.Status(dialT, "NetStream.Publish.Start", "publish", rc.NextTxn(), nil, l.Name, "live"); err != nil {
				c.FailTimed("publish", "%v", err)
			}
			own = &Pub{Client: rc, Live: l, S: Plain(), r: r}
			ownTodo = mk(l, 60)
			n := firstKey(ownTodo) + 1
			if err := own.Send(ownTodo[:n]...); err != nil {
				c.Fail("session-lost", "publishing: %v", err)
			}
			ownTodo = ownTodo[n:]
			ownView = e.MustView(c, l, randViewer(r, "rtmp", "flv", "ws", "rtsp"))
			l.Sync(c, "after joining", ownView)
		case k == 6:
			how := pick(r, "deleteStream", "closeStream")
			c.Trace("%s", how)
			asked = append(asked, nil)
			if how == "deleteStream" {
				rc.Cmd(0, how, rc.NextTxn(), nil, 1.0)
			} else {
				rc.Cmd(1, how, rc.NextTxn(), nil)
			}
			pong()
			if own != nil {
				gone()
			}
		}
		if r.Intn(3) > 0 {
			pong()
			feedAll()
			if cur != nil && media2 == 0 {
				if !c.Eventually(15*time.Second, func() bool { scan(); return media2 > 0 }) {
					c.FailTimed("no-media", "%s is played, and published, and nothing comes", cur.Name)
				}
			}
			if cur == nil {
				time.Sleep(time.Millisecond)
			}
			pong()
		}
	}
	pong()
	if own != nil {
		how := pick(r, "close", "reset", "FCUnpublish")
		c.Trace("at the end: %s", how)
		switch how {
		case "close":
			rc.Close()
		case "reset":
			rc.Reset()
		default:
			rc.Cmd(0, "FCUnpublish", rc.NextTxn(), nil, own.Live.Name)
		}
		gone()
	}
	c.Count("switch_sessions", 1)
	c.Nontrivial("switch %d %s", c.Idx, fmt.Sprint(plays))
}
