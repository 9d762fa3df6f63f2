R="librtmp/rtsp_server.go"; I="librtmp/rtsp_ingest.go"; U="librtsp/rtp_unpack.go"
M=[
("c01-tcp-spec","C29",R,'''	useUDP := strings.Contains(transport, "RTP/AVP") &&
		!strings.Contains(transport, "RTP/AVP/TCP")''','''	useUDP := strings.Contains(transport, "RTP/AVP") &&
		!strings.Contains(transport, "interleaved")'''),
("c02-setup-playing","C29 C09",R,"	if s.reader != nil || atomic.LoadInt32(&s.recording) == 1 {\n		return notValid","	if s.reader != nil && s.videoUDP == nil || atomic.LoadInt32(&s.recording) == 1 {\n		return notValid"),
("c03-resetup-leak","C09 C29",R,"		closeUDP(s.audioUDP, s.audioUDPRTCP)\n		s.audioUDP","		s.audioUDP"),
("c04-cleanup-rtcp","C09",R,"closeUDP(s.videoUDP, s.videoUDPRTCP, s.audioUDP, s.audioUDPRTCP)","closeUDP(s.videoUDP, s.videoUDPRTCP, s.audioUDP)"),
("c05-odd-close","C09",R,"			//us an even one next time.\n			_ = c1.Close()\n","			//us an even one next time.\n"),
("c06-459","C29",R,"			if s.setUp() {\n				resp.StatusCode = 459","			if s.videoChan >= 0 {\n				resp.StatusCode = 459"),
("c07-rate0","C29 C27",R,"s.app, s.streamID, s.audioRate = app, streamID, 0","s.app, s.streamID = app, streamID"),
("c08-desc-switch","C29",R,"	if !s.setUp() {\n		s.app, s.streamID = app, streamID\n		s.audioRate","	{\n		s.app, s.streamID = app, streamID\n		s.audioRate"),
("c09-play-twice","C29 C09",R,"	if atomic.CompareAndSwapInt32(&s.playing, 0, 1) {\n		s.reader","	atomic.StoreInt32(&s.playing, 1)\n	{\n		s.reader"),
("c10-streamend","C08 C29",R,"	defer close(s.streamDone)\n	defer s.conn.Close()\n","	defer close(s.streamDone)\n"),
("c11-params-key","C27",R,"if isKeyFrame(tag) && !containsSPS(tag.CodecID, nals) {","if isKeyFrame(tag) && len(nals) == 1 {"),
("c12-params-alias","C27",R,"nals = append(append([][]byte(nil), s.videoParams...), nals...)","nals = append(s.videoParams, nals...)"),
("c13-cts-sign","C27",R,"cts := int32(tag.Cts<<8) >> 8","cts := int32(tag.Cts)"),
("c14-marker-nal","C27",R,'''	var pieces [][]byte
	for _, nal := range nals {
		pieces = append(pieces, pack(nal, librtsp.DefaultMTU)...)
	}
''','''	var pieces [][]byte
	for _, nal := range nals {
		pieces = append(pieces, pack(nal, librtsp.DefaultMTU)...)
		if len(pieces) > 512 {
			break
		}
	}
'''),
("c15-audio-wrap","C27",R,"s.audioTime += int64(int32(now - uint32(s.audioTime)))","s.audioTime += int64(now - uint32(s.audioTime))"),
("c16-audio-nowrap","C27",R,"ts := uint32(s.audioTime * int64(rate) / 1000)","ts := uint32(s.audioTime/1000*int64(rate) + s.audioTime%1000*int64(rate)/1000&^1)"),
("c17-audio-adts","C27",R,"librtsp.PackAACFrame(librtsp.AdtsToRaw(tag.Data()))","librtsp.PackAACFrame(tag.Data())"),
("c18-wmu","C29 C39 C27",R,'''	frame := librtsp.InterleaveFrame(uint8(ch), rtp)
	s.wmu.Lock()
	defer s.wmu.Unlock()
	_, err := s.conn.Write(frame)
''','''	frame := librtsp.InterleaveFrame(uint8(ch), rtp)
	s.wmu.Lock()
	_, err := s.conn.Write(frame[:4])
	s.wmu.Unlock()
	if err == nil {
		_, err = s.conn.Write(frame[4:])
	}
'''),
("c19-query","C29",R,'''	s = strings.TrimSuffix(s, "/")
	//Strip query string if any.
	if q := strings.Index(s, "?"); q >= 0 {
		s = s[:q]
	}
''','''	//Strip query string if any.
	s = strings.TrimSuffix(s, "/")
	if q := strings.LastIndex(s, "?"); q >= 0 {
		s = s[:q]
	}
'''),
("c20-inter-255","C29",R,"return a, b, a >= 0 && a <= 255 && b >= 0 && b <= 255","return a, b, a >= 0 && a < 255 && b >= 0 && b <= 255"),
("c21-inter-eq","C29 C15",R,"return rtp, rtp + 1, rtp >= 0 && rtp < 255","return rtp, rtp + 1, rtp >= 0 && rtp <= 255"),
("c22-asc-esc","C27",R,"	if bits(5) == 31 {\n		bits(6) //object types from 32 on\n	}","	bits(5)"),
("c23-asc-15","C27",R,"		rate = bits(24)\n","		rate = bits(20) << 4\n"),
("c24-asc-7","C27",R,"	if chans == 7 {\n		chans = 8\n	}\n",""),
("c25-ps-avc","C27",R,"n := int(b[5] & 0x1F)","n := int(b[5] & 0x0F)"),
("c26-sps-last","C27",R,"				if sps == nil {\n					sps = data\n				}","				sps = data"),
("c27-setup-audiotrack","C29",R,"isAudio && !p.HasAudio {","isAudio && !p.HasAudio && !p.HasVideo {"),
("c28-content-base","C29",R,'resp.Headers.Set("Content-Base", strings.TrimSuffix(req.URL, "/")+"/")','resp.Headers.Set("Content-Base", req.URL+"/")'),
("c29-aac-short","C27 C29",R,"len(audioHdr.Data()) < 2 {","len(audioHdr.Data()) < 1 {"),
("c30-unknown-cseq","C29",R,'		resp.Headers.Set("CSeq", cseq)\n	}\n','		resp.Headers.Set("CSeq", strings.TrimLeft(cseq, "0"))\n	}\n'),
("c31-rtcp-record","C28 C29",R,"			if atomic.LoadInt32(&s.recording) == 1 {\n				s.handleInter","			if s.ingest != nil {\n				s.handleInter"),
("c32-clock-first","C28",I,"c.ticks += int64(int32(ts - c.last))","c.ticks += int64(ts - c.last)"),
("c33-clock-round","C28",I,"ms := c.base + c.ticks*1000/int64(rate)","ms := c.base + c.ticks/int64(rate)*1000"),
("c34-clock-neg","C28",I,"	if ms < 0 {\n		ms = 0\n	}\n",""),
("c35-announce-twice","C29 C07",I,"if s.ingest != nil || s.reader != nil || s.setUp() {","if s.ingest != nil || s.reader != nil {"),
("c36-mono","C28",I,'''		if parsed.AudioChans == 1 {
			soundType = libflv.SND_MONO
		}
		at :=''','''		at :='''),
("c37-params-eq","C28",I,"bytes.Equal(sps, s.ingest.sps) && bytes.Equal(pps, s.ingest.pps)","bytes.Equal(sps, s.ingest.sps)"),
("c38-params-or","C28",I,"	s.ingest.sps, s.ingest.pps = sps, pps\n	vt","	s.ingest.sps = sps\n	vt"),
("c39-peer","C29 C28",I,"		if !addr.IP.Equal(peer) {","		if len(addr.IP) != len(peer) && !addr.IP.Equal(peer) {"),
("c40-udp-copy","C28",I,"librtsp.ParseRTP(append([]byte(nil), buf[:n]...))","librtsp.ParseRTP(buf[:n])"),
("c41-pt","C28 C29",I,"	if pkt.PayloadType != s.ingest.parsed.VideoPayloadType {\n		return\n	}\n",""),
("c42-next","C28",I,"len(nals) > 0; nals, ts = s.ingest.videoRA.Next() {","len(nals) > 0; nals, ts = nil, 0 {"),
("c43-key-reset","C28 C05",I,"	if frameType == libflv.KEY_FRAME {\n		s.publishRTMP","	if frameType == libflv.KEY_FRAME && len(nals) == 1 {\n		s.publishRTMP"),
("c44-au-ts","C28",I,"pkt.Timestamp+uint32(i*aacFrameSamples)","pkt.Timestamp"),
("c45-spslen","C28",I,"byte(len(sps) >> 8), byte(len(sps)),","0, byte(len(sps)),"),
("c46-abs-control","C28 C29",I,'''	if strings.Contains(control, "://") {
		return strings.EqualFold(url, control)
	}
''',''),
("c47-control-slash","C28 C29",I,'control = "/" + strings.TrimPrefix(control, "/")','control = strings.TrimPrefix(control, "/")'),
("c48-opus-track","C28 C29",I,"if p.HasAudio && !p.IsOpus && trackPathMatches","if p.HasAudio && trackPathMatches"),
("c49-lock","C39 C28",I,'''	s.ingest.mu.Lock()
	defer s.ingest.mu.Unlock()
	now := s.ingest.sinceStart()
	rate''','''	now := s.ingest.sinceStart()
	rate'''),
("c50-ra-late","C28 C31",U,"		case d <= 0 && d > -maxReorder:\n			return r.Next()","		case d < 0 && d > -maxReorder:\n			return r.Next()"),
("c51-ra-gap","C28",U,"			r.fuBuf = nil //fragments are missing\n",""),
("c52-ra-tsfu","C28",U,"	if pkt.Timestamp != r.pendingTS {\n		r.fuBuf = nil\n	}\n",""),
("c53-ra-flush","C28",U,"	if len(r.pending) > 0 && pkt.Timestamp != r.pendingTS {\n		r.flush()\n	}\n",""),
("c54-stap-copy","C28",U,"r.pending = append(r.pending, append([]byte(nil), body[:n]...))","r.pending = append(r.pending, body[:n])"),
("c55-fu-nri","C28",U,"(hdr & 0xE0) | origType","(hdr & 0x60) | origType"),
("c56-fu-marker","C28",U,"	if pkt.Marker {\n		r.fuBuf = nil\n		r.flush()","	if pkt.Marker && r.fuBuf == nil {\n		r.flush()"),
("c57-aac-13","C28",U,"size := int(binary.BigEndian.Uint16(headers[off:off+2])) >> 3","size := int(binary.BigEndian.Uint16(headers[off:off+2])) >> 3 & 0xfff"),
("c58-aac-frag-size","C28",U,"r.buf == nil || r.ts != pkt.Timestamp || r.size != size","r.buf == nil || r.ts != pkt.Timestamp"),
("c59-aac-frag-marker","C28",U,"				if pkt.Marker {\n					r.buf = nil\n					return nil\n				}\n",""),
("c60-rtp-ext","C28",U,"off += 4 + extLen","off += extLen"),
("c61-rtp-pad","C28",U,"		end -= padLen\n","		if padLen < 16 {\n			end -= padLen\n		}\n"),
("c62-idr-only","C28",U,"(n[0]&0x1F) == 5 {","n[0] == 0x65 {"),
("c63-fu-piece","C28",U,"		if len(payload) < 2 {\n			r.fuBuf","		if len(payload) <= 2 {\n			r.fuBuf"),
("c64-restart","C28 C31",U,"const maxReorder = 1024","const maxReorder = 32768"),
]
