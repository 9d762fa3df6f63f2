D="libsrt/tsdemux.go"; L="libsrt/listener.go"; S="librtmp/srt_server.go"
M=[
("e01-cc-dup","C31 C34 C33",D,"dup = c.seen && cc == c.cc && bytes.Equal(payload, c.payload)","dup = c.seen && cc == c.cc"),
("e02-cc-disc","C33",D,"!(discontinuity && pusi)","!discontinuity"),
("e03-cc-first","C33",D,"c.payload = append(c.payload[:0], payload...)","c.payload = payload"),
("e04-rest","C33",D,"		buf = append(d.rest, buf...)\n		d.rest = nil","		buf = append(d.rest, buf...)"),
("e05-sync","C33",D,"				next+TSPacketSize < len(buf) && buf[next+TSPacketSize] != 0x47)","				next+TSPacketSize+1 < len(buf) && buf[next+TSPacketSize+1] != 0x47)"),
("e06-af-len","C33",D,"		if off > TSPacketSize {","		if off >= TSPacketSize {"),
("e07-tei","C33",D,"	if pkt[1]&0x80 != 0 {\n		return //transport","	if pkt[1]&0x80 != 0 && pkt[1]&0x40 != 0 {\n		return //transport"),
("e08-scramble","C33",D,"if pkt[3]&0xC0 != 0 {","if pkt[3]&0x80 != 0 {"),
("e09-pointer","C33",D,"			s.buf = append(s.buf, payload[1:1+pointer]...)\n			sections = s.take(sections)\n",""),
("e10-multi-sec","C33",D,"		s.buf = s.buf[n:]\n	}\n	return out","		s.buf = s.buf[n:]\n		if len(out) > 0 {\n			break\n		}\n	}\n	return out"),
("e11-crc","C33",D,"n >= 12 && sectionCRC(sec) == 0","n >= 12"),
("e12-cni","C33",D,"	if section[0] != 0x02 || section[5]&0x01 == 0 ||","	if section[0] != 0x02 ||"),
("e13-pat-nit","C33",D,"		if programNumber != 0 {","		if programNumber != 0 || len(section) == 16 {"),
("e14-pminfo","C33",D,"int(binary.BigEndian.Uint16(section[10:12]) & 0x0FFF)","int(section[11])"),
("e15-esinfo","C33",D,"esInfoLen := int(binary.BigEndian.Uint16(section[off+3:off+5]) & 0x0FFF)","esInfoLen := int(section[off+4])"),
("e16-pmt-change","C33 C34",D,"if video != d.videoPID || hevc != d.hevc {","if video != d.videoPID {"),
("e17-pmt-audiodrop","C33",D,"		d.audio = pesBuf{}\n		d.dropAudio()\n","		d.audio = pesBuf{}\n"),
("e18-gap","C33 C34",D,"	if gap {\n		p.buf = nil\n		lost()\n	}\n","	if gap && !pusi {\n		p.buf = nil\n		lost()\n	}\n"),
("e19-peslen","C33",D,"		if n > 6 && len(p.buf) >= n {\n			p.buf = p.buf[:n]\n			flush()","		if n > 6 && len(p.buf) == n {\n			p.buf = p.buf[:n]\n			flush()"),
("e20-nopts","C33",D,"	if pes[7]&0x80 != 0 {\n		d.videoTS","	{\n		d.videoTS"),
("e21-carried","C33",D,"if !timed && pos >= carried {","if !timed {"),
("e22-blocks","C33",D,"d.audioBlocks += blocks","d.audioBlocks += 1 + 0*blocks"),
("e23-pts33","C33",D,"rate) & (1<<33 - 1),","rate),"),
("e24-crcbit","C33",D,"b[1]&0xF6 != 0xF0","b[1]&0xF7 != 0xF1"),
("e25-size13","C33",D,"size = int(b[3]&0x03)<<11","size = int(b[3]&0x01)<<11"),
("e26-ratetop","C33",D,"index >= len(rates)","index >= len(rates)-1"),
("e27-complete","C33",D,"n > 0 && len(pes) < 6+n {","n > 0 && len(pes) < n {"),
("e28-readpts","C33",D,"v := uint64(b[0]&0x0E) << 29","v := uint64(b[0]&0x06) << 29"),
("e29-key3","C33",D,"			i += 3\n		} else","			i += 4\n		} else"),
("e30-irap","C33",D,"t >= 16 && t <= 23","t >= 16 && t <= 21"),
("e31-maxpes","C33 C31",D,"	if len(p.buf) > maxPESSize {\n		p.buf = nil\n		lost()\n	}\n",""),
("f01-deadline","C30 C31",L,"if soon := time.Now().Add(ackInterval); soon.Before(wake) {","if soon := time.Now().Add(50 * ackInterval); soon.Before(wake) {"),
("f02-timeout-refresh","C30 C31",L,"	if sess != nil {\n		sess.lastSeen = time.Now()\n	}\n","	if sess != nil && hdr0(raw) {\n		sess.lastSeen = time.Now()\n	}\n","// newSession adds","func hdr0(b []byte) bool { return b[0]&0x80 == 0 }\n\n// newSession adds"),
("f03-pending","C31",L,"	if !sess.concluded {\n		l.pending--\n	} else if","	if !sess.concluded {\n	} else if"),
("f04-notconcluded","C31",L,"if sess == nil || !sess.concluded {\n			return","if sess == nil {\n			return"),
("f05-late","C30",L,"	if diff < 0 {\n		//Late","	if diff < -1 {\n		//Late"),
("f06-nakto","C32 C30",L,"(hdr.SeqNumber-1)&seqMask)","hdr.SeqNumber-1)"),
("f07-seqwrap","C30",L,"sess.expectedSeq = (hdr.SeqNumber + 1) & seqMask","sess.expectedSeq = hdr.SeqNumber + 1"),
("f08-ack-num","C30",L,"		sess.ackNum++\n","		sess.ackNum += uint32(len(l.sessions))\n"),
("f09-cookie","C31",L,"if hs.SyncCookie != l.cookie(peer) {","if hs.SyncCookie != l.cookie(peer) && sess == nil {"),
("f10-newcaller","C31",L,"if sess != nil && sess.concluded && sess.peerSocketID != hs.SrtSocketID {","if sess != nil && sess.concluded && sess.peerSocketID != hs.SrtSocketID && sess.ackNum == 0 {"),
("f11-repeat-conc","C31 C30",L,"		if !sess.concluded {\n			l.pending--\n			sess.concluded = true","		{\n			if !sess.concluded {\n				l.pending--\n			}\n			sess.concluded = true"),
("f12-ind-socket","C31",L,"		to.peerSocketID = hs.SrtSocketID\n",""),
("f13-refuse","C31 C34",L,"		l.sendControl(sess, CtrlShutdown, 0, 0, nil)\n		l.drop(sess.peerAddr.String())","		l.drop(sess.peerAddr.String())"),
("f14-ext0","C31",L,"		reply.ExtensionField = 0 //no extensions in our reply\n",""),
("f15-initial","C30 C31",L,"sess.expectedSeq = hs.InitialSequence & seqMask","sess.expectedSeq = hs.InitialSequence"),
("f16-oldest","C31",L,"sess.lastSeen.Before(l.sessions[oldest].lastSeen)","sess.lastSeen.After(l.sessions[oldest].lastSeen)"),
("f17-hdronly","C30 C31",L,"if n >= HeaderSize {","if n > HeaderSize {"),
("f18-shutdown-any","C31",L,"		case CtrlShutdown:\n			l.drop(key)","		case CtrlShutdown:\n			if len(body) == 0 {\n				l.drop(key)\n			}"),
("g01-cts","C34",S,"pts := (c.time + c.lead + tsDiff(au.PTS, au.DTS)) / 90","pts := dts + tsDiff(au.PTS, au.DTS)/90"),
("g02-time33","C34",S,"return int64((a-b)<<31) >> 31","return int64(a) - int64(b)"),
("g03-lead","C34",S,"if ts < 90000 {","if ts < 900 {"),
("g04-first-sps","C34",S,"c.sps = sps[len(sps)-1]","c.sps = sps[0]"),
("g05-multi","C34",S,"if len(sps) > 1 || len(pps) > 1 {","if len(sps) > 1 {"),
("g06-hdr-change","C34",S,"!bytes.Equal(seq, c.videoHdr) {","c.videoHdr == nil {"),
("g07-adts-crc","C34",S,"	if af.Data[1]&0x01 == 0 {\n		header = 9 //with a CRC\n	}\n",""),
("g08-chan","C34",S,"channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)","channels := (af.Data[3] >> 6) & 0x03"),
("g09-asc","C34",S,"asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07","asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x03"),
("g10-trim","C34",S,'bytes.TrimRight(buf[nalStart:end], "\\x00")','buf[nalStart:end]'),
("g11-flush","C34",S,"	c.demux.Flush()\n",""),
("g12-hdr-copy","C34 C05",S,"			c.rtmp.room.setVideoSequenceHeader(vt)\n			c.rtmp.room.GOP.WriteMeta(vt)\n		}\n	}\n	if len(pictureNALs)","			c.rtmp.room.setVideoSequenceHeader(vt)\n			c.rtmp.room.GOP.Write(vt)\n		}\n	}\n	if len(pictureNALs)"),
("g13-hevc","C34 C31",S,"	if au.HEVC {\n		return //not bridged\n	}\n",""),
("g14-neg","C34",S,"	if c.time+c.lead < 0 {\n		return 0\n	}\n",""),
]
