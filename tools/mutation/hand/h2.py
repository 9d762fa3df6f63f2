S="librtmp/server.go"; W="librtmp/websocket.go"; H="librtmp/handshake.go"; L="librtmp/client.go"
M=[
("b01-ws-126","C35 C04",W,"case n < 126:","case n <= 126:"),
("b02-ws-64k","C35 C04",W,"case n <= 0xFFFF:","case n <= 0x10000:"),
("b03-ws-mask4","C35",W,"payload[i] ^= maskKey[i%4]","payload[i] ^= maskKey[i&1]"),
("b04-ws-ctrl","C35",W,"(op >= wsOpClose && plen > 125)","(op > wsOpClose && plen > 125)"),
("b05-ws-max","C35",W,"plen > wsMaxPayload ||","plen >= wsMaxPayload ||"),
("b06-ws-closecode","C35",W,"code >= 1000 && code <= 1014","code >= 1000 && code <= 1015"),
("b07-ws-close4999","C35",W,"code >= 3000 && code <= 4999","code >= 3000 && code < 4999"),
("b08-ws-onebyte","C35",W,"if len(payload) > 0 && !validCloseCode(payload)","if len(payload) > 1 && !validCloseCode(payload)"),
("b09-ws-unmasked","C35",W,"	if masked {\n		for i","	if masked && plen > 0 && op != wsOpPong {\n		for i"),
("b10-ws-conn-list","C35 C40",W,'strings.Join(r.Header["Connection"], ",")','r.Header.Get("Connection")'),
("b11-ws-closelock","C35",W,"	ws.closed = op == wsOpClose\n","	ws.closed = op == wsOpClose && len(payload) > 0\n"),
("b12-ws-pong-empty","C35",W,"		case wsOpPing:\n			_ =","		case wsOpPing:\n			if len(payload) == 0 {\n				continue\n			}\n			_ ="),
("b13-ws-text","C35",W,"	if !fin {","	if !fin || op == wsOpText {"),
("b14-ws-lock","C35 C39",W,"	ws.writeMu.Lock()\n	defer ws.writeMu.Unlock()\n	if ws.closed {","	ws.writeMu.Lock()\n	cl := ws.closed\n	ws.writeMu.Unlock()\n	if cl {"),
("b15-ws-leave","C35 C09",S,"			case <-stop:\n				gopReader.Close()","			case <-stop:"),
("b16-flv-leave","C09",S,"			case <-r.Context().Done():\n				gopReader.Close()","			case <-r.Context().Done():"),
("b17-head","C40",S,"		if r.Method == http.MethodHead {\n			return\n		}\n\n		flusher","		flusher"),
("b18-parse-unclean","C40 C36",S,'''	p := path.Clean(u.Path)
	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
	if len(parts) != 3''','''	p := path.Clean(u.EscapedPath())
	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
	if len(parts) != 3'''),
("b19-flv-suffix","C40",S,'roomID = strings.TrimSuffix(parts[1], ".flv")','roomID = strings.Split(parts[1], ".flv")[0]'),
("b20-dash-lazy","C40",S,"if dash == nil && app.dashEnabled {","if dash == nil && app.dashEnabled && app.hlsMode != libhls.DELAY {"),
("b21-delay-any","C40",S,'if app.hlsMode == libhls.DELAY && file == "index.m3u8" {','if app.hlsMode == libhls.DELAY {'),
("b22-wait-ctx","C09 C40",S,"	case <-ready:\n	case <-r.Context().Done():","	case <-ready:"),
("b23-seg-digits","C36 C40",S,'strings.Trim(seq, "0123456789") == ""','strings.TrimLeft(seq, "0123456789") != seq'),
("b24-seg-room","C36 C40",S,'if !strings.HasPrefix(file, roomID+"-") || !strings','if !strings.HasPrefix(file, roomID) || !strings'),
("b25-segment-close","C09 C40",S,"		defer f.Close()\n","		if r.Method == http.MethodGet {\n			defer f.Close()\n		}\n"),
("b26-404-cache","C40",S,'	w.Header().Del("Cache-Control")\n',''),
("b27-cors-mpd","C40",S,'''		w.Header().Set("Content-Type", "application/dash+xml")
		w.Header().Set("Access-Control-Allow-Origin", "*")
''','''		w.Header().Set("Content-Type", "application/dash+xml")
'''),
("b28-init-type","C40",S,'w.Header().Set("Content-Type", "video/mp4")','w.Header().Set("Content-Type", "video/iso.segment")'),
("b29-options","C40",S,"	case http.MethodGet, http.MethodHead:\n		return true","	case http.MethodGet, http.MethodHead, http.MethodPost:\n		return true"),
("b30-backoff-noreset","C38",S,"				if pc.published {\n					backoff = time.Second\n				}\n",""),
("b31-backoff-cap","C38",S,"if backoff < 30*time.Second {","if backoff < 120*time.Second {"),
("b32-hs-spread","C10",H,"handshakeDigestSpread\n\n	p.clientDigest","(handshakeDigestSpread - 1)\n\n	p.clientDigest"),
("b33-hs-spread2","C10",H,"handshakeDigestSpread\n\n		joined","(handshakeDigestSpread - 1)\n\n		joined"),
("b34-hs-ver-late","C10",H,'''		copy(s1[4:8], []byte{0x04, 0x05, 0x00, 0x01})

''','', '''		p.serverDigest = append([]byte{}, digest...)
''','''		p.serverDigest = append([]byte{}, digest...)
		copy(s1[4:8], []byte{0x04, 0x05, 0x00, 0x01})
'''),
("b35-hs-simple-zero","C10",H,"		binary.Write(b, binary.BigEndian, p.clientZero)","		binary.Write(b, binary.BigEndian, uint32(0))"),
("b36-hs-s2key","C10",H,"		mac := hmac.New(sha256.New, FMSKey)\n		mac.Write(p.clientDigest)","		mac := hmac.New(sha256.New, FMSKey[:36])\n		mac.Write(p.clientDigest)"),
("b37-hs-c1block","C10",H,"digestBufOffset := 8 + handshakeBlockSize\n	p.handshakeMode","digestBufOffset := 8 + handshakeBlockSize + 0*len(c1)\n	if c1[4] == 0 {\n		digestBufOffset = 8\n	}\n	p.handshakeMode"),
("b38-hs-c2strict","C10",H,'fmt.Println("parseC2 warning:", err)','if p.handshakeMode != SIMPLE {\n			return err\n		}'),
("b39-hsc-c2","C38",H,"	copy(c2[8:], p.serverRandom)\n","	copy(c2[8:], s2[8:])\n"),
("b40-pull-port","C38",L,'if !strings.Contains(host, ":") {','if u.Port() == "1935" {'),
("b41-pull-close","C38 C09",L,"	if existing := app.Load(pc.spec.streamID); existing != nil {\n		_ = conn.Close()\n","	if existing := app.Load(pc.spec.streamID); existing != nil {\n"),
("b42-pull-slash","C38",L,"return p[i+1:]","return p[strings.LastIndex(p, \"/\")+1:]"),
("b43-pull-app","C38",L,"		return p[:i]\n	}\n	return p\n","		return strings.ToLower(p[:i])\n	}\n	return p\n"),
("b44-pull-query","C38",L,"rtmp.playType = parsePlayName(u.Path)","rtmp.playType = parsePlayName(u.EscapedPath())"),
("b45-pull-published","C38",L,"	pc.published = true\n",""),
("b46-pull-deadline","C38 C41","librtmp/rtmp.go","	_ = rtmp.conn.SetReadDeadline(time.Time{})\n",""),
("b47-pull-nodeadline","C38 C41","librtmp/rtmp.go","	_ = rtmp.conn.SetReadDeadline(time.Now().Add(30 * time.Second))\n",""),
("b48-pull-result","C38 C41",L,"atomic.LoadUint32(&rtmp.resultCount) > start","atomic.LoadUint32(&rtmp.resultCount) >= start"),
("b49-segdir-shared","C40 C36 C08","librtmp/app.go",'return os.MkdirTemp(dir, "stream-")','dir = filepath.Join(dir, "stream-"+url.PathEscape(roomID))\n	return dir, os.MkdirAll(dir, 0o755)'),
("b50-audio-hdr-empty","C05 C27","librtmp/audio.go","am.rtmp.room.setAudioSequenceHeader(am.audioTag)","if len(am.messagePayload) > 4 {\n			am.rtmp.room.setAudioSequenceHeader(am.audioTag)\n		}"),
]
