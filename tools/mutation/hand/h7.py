D="libdash/dash.go"; P="libdash/mpd.go"; I="libmp4/init_segment.go"; MS="libmp4/media_segment.go"; A="libavc/avc.go"
U="librtsp/rtp_unpack.go"; SP="librtsp/sdp_parse.go"; SD="librtsp/sdp.go"; N="librtsp/h264.go"
L="libsrt/listener.go"; K="libsrt/control.go"; HS="libsrt/handshake.go"; MT="libflv/meta.go"
M=[
("i01-seg-filter","C24 C40",D,"if s.conf == d.conf {","if s.conf.codec == d.conf.codec {"),
("i02-init-alias","C24",D,"	c.record = append([]byte(nil), c.record...)\n",""),
("i03-rotate-next","C24",D," || d.newest != d.current {"," || (d.current != nil && d.newest.codec != d.current.codec) {"),
("i04-cts-sign","C24",D,"cts := int32(v.Cts<<8) >> 8","cts := int32(v.Cts & 0x7fffff)"),
("i05-alias-data","C24",D,"append([]byte(nil), v.Data()...)","v.Data()"),
("i06-restart","C24",D,"if d.clock < d.lastDTS-restart {","if d.clock < d.lastDTS-restart*10 {"),
("i07-restart2","C24",D,"		d.clock = d.lastDTS\n	}\n	if d.clock >","		d.lastDTS = d.clock\n	}\n	if d.clock >"),
("i08-clock32","C24",D,"d.clock += int64(int32(timestamp - d.lastTimestamp))","d.clock += int64(timestamp - d.lastTimestamp)"),
("i09-codec-zero","C24",D,"for len(constraints) > 0 && constraints[len(constraints)-1] == 0 {","for len(constraints) > 1 && constraints[len(constraints)-1] == 0 {"),
("i10-codec-compat","C24",D,"compat := bits.Reverse32(binary.BigEndian.Uint32(record[2:6]))","compat := binary.BigEndian.Uint32(record[2:6])"),
("i11-codec-space","C24",D,'space := []string{"", "A", "B", "C"}[record[1]>>6]','space := []string{"", "A", "B", "C"}[record[1]>>6&1]'),
("i12-hevc-arr","C24",D,"nalType := src[off] & 0x3F","nalType := src[off] & 0x7F"),
("i13-hevc-cnt","C24",D,"numNalus := int(src[off+1])<<8 | int(src[off+2])","numNalus := int(src[off+2]) & 1"),
("i14-hevc-sub","C24",D,"for i := maxSubLayers; i < 8; i++ {","for i := maxSubLayers; i < 7; i++ {"),
("i15-hevc-sub2","C24",D,"br.skip(88)","br.skip(80)"),
("i16-hevc-444","C24",D,"	if chromaFormat == 3 {\n		_, _ = br.readBits(1)\n	}\n	w32","	w32"),
("i17-crop","C24",D,"	if chromaFormat == 1 || chromaFormat == 2 {\n		x = 2","	if chromaFormat == 1 {\n		x = 2"),
("i18-crop-field","C24",D,"	if frameMbsOnly == 0 {\n			unitY *= 2\n		}\n","",),
("i19-epb","C24",D,"	br := newBitReader(rbsp[1:]) //skip","	br := newBitReader(sps[1:]) //skip"),
("i20-prof","C24",D,"profile == 44 || ",""),
("i21-lists","C24",D,"				lists = 12","				lists = 8"),
("i22-list-size","C24",D,"if i >= 6 {","if i > 6 {"),
("i23-list-stop","C24",D,"					if next != 0 {\n						next = (last","					{\n						next = (last"),
("i24-poc1","C24",D,"		_ = br.readSE()\n		_ = br.readSE()\n		n :=","		_ = br.readSE()\n		n :="),
("i25-se","C24",D,"		return -int32(v / 2)","		return int32(v / 2)"),
("i26-mpd-td","C24",P,"targetDurSec*len(in.segments),","targetDurSec,"),
("i27-mpd-dollar","C24 C40",P,'"$", "$$", ',""),
("i28-offset","C24",D,"		d.timeOffset = startTime","		d.timeOffset = 0"),
("i29-last-dur","C24",D,"dur = s.dts - d.currentSamples[i-1].dts","dur = 33"),
("i30-init-order","C24 C40",D,"	if d.current != d.conf {\n		if err := d.writeInit(d.current); err != nil {\n			d.currentSamples = d.currentSamples[:0]\n			return err\n		}\n	}\n\n",""),
("i31-known","C24",D,"		} else if known {","		} else if known && i > 0 {"),
("i32-reap","C24 C09",D,"for len(d.segments) > d.windowSize {","if len(d.segments) > d.windowSize+1 {"),
("i33-type","C24",D,"		case libflv.AVC_NALU:","		case libflv.AVC_NALU, libflv.AVC_END_OF_SEQUENCE:"),
("i34-nodata","C24",MS,"IsKey bool","IsKey bool") if 0 else
("i34-sync","C23 C24",MS,"return 0x01010000","return 0x01000000"),
("i35-base32","C23 C24",MS,"	body = appendU64(body, baseTime)","	body = appendU64(body, uint64(uint32(baseTime)))"),
("i36-record","C23 C24",I,"	if len(p.Record) > 0 {","	if len(p.Record) > 64 {"),
("i37-next-id","C23",I,"if trackID < nextTrackID {","if trackID < nextTrackID-1 {"),
("i38-lang","C23",I,"0x55c4)    //","0x55c5)    //"),
("i39-avc-len3","C37 C20",A,"seq.naluLen = src[4]&0x03 + 1","seq.naluLen = src[4]&0x03 | 1"),
("i40-avc-sps","C37 C20",A,"if hasIdr && !hasSps {","if hasIdr {"),
("i41-avc-aud","C37 C20",A,"		if nal[0]&0x1f == nalu_type_aud {\n			continue\n		}\n",""),
("i42-avc-aud2","C37 C20",A,"if nal[0]&0x1f == nalu_type_aud {","if nal[0] == nalu_type_aud {"),
("i43-avc-partial","C37 C20",A,"if nalLen <= 0 || nalLen > len(src)-index {","if nalLen < 0 || nalLen > len(src)-index {"),
("i44-avc-replace","C37 C20",A,"	parser.SpecificInfo = info\n","	if len(parser.SpecificInfo) <= len(info) {\n		parser.SpecificInfo = info\n	}\n"),
("i45-rtp-ext","C25 C28",U,"off += 4 + extLen","off += extLen + 4*(extLen&1) + 4"),
("i46-rtp-padall","C25",U,"if padLen > end-off {","if padLen >= end-off {"),
("i47-late","C25 C28",U,"		case d <= 0 && d > -maxReorder:\n			return r.Next()","		case d < 0 && d > -maxReorder:\n			return r.Next()"),
("i48-late2","C25 C28",U,"		case d <= 0 && d > -maxReorder:\n			return nil","		case d < 0 && d > -maxReorder:\n			return nil"),
("i49-aac-size","C25 C28",U,"r.buf == nil || r.ts != pkt.Timestamp || r.size != size","r.buf == nil || r.ts != pkt.Timestamp"),
("i50-aac-ts","C25 C28",U,"r.buf == nil || r.ts != pkt.Timestamp || r.size != size","r.buf == nil || r.size != size"),
("i51-stap-skip","C25 C28",U,"			if n > len(body) {\n				break\n			}","			if n > len(body) {\n				return\n			}"),
("i52-next","C25 C28",U,"	r.ready = r.ready[1:]","	r.ready = nil"),
("i53-nalhdr","C25 C28",U,"(hdr & 0xE0) | origType","(hdr & 0x60) | origType"),
("i54-fu-in-ts","C25 C28",U,"	if pkt.Timestamp != r.pendingTS {\n		r.fuBuf = nil\n	}\n",""),
("i55-key","C28",U,"if len(n) > 0 && (n[0]&0x1F) == 5 {","if len(n) > 1 && (n[0]&0x3F) == 0x25 {"),
("i56-sdp-m","C26 C28",SP,"current.kind, current.formats = fields[0], fields[3:]","current.kind, current.formats = fields[0], fields[3:4]"),
("i57-sdp-hevc-sticky","C26 C28",SP,"			out.IsHEVC = true\n",'			out.IsHEVC = params["sprop-sps"] != ""\n'),
("i58-sdp-config","C26 C28",SP,"err == nil && len(b) > 0 {","err == nil && len(b) > 1 && len(b) < 5 {"),
("i59-sdp-lower","C26 C28",SP,"out[strings.ToLower(strings.TrimSpace(kv[:eq]))]","out[strings.TrimSpace(kv[:eq])]"),
("i60-sdp-first","C26 C28",SP,"			if sps == nil {\n				sps = b\n			}","			sps = b"),
("i61-sdp-order","C26",SP,"switch b[0] & 0x1F {","switch b[0] & 0x7F {"),
("i62-sdp-pad","C26 C28",SP,'strings.TrimRight(s, "=")','strings.TrimSuffix(s, "=")'),
("i63-sdp-session","C26 C28",SP,"			if current != nil {","			if current != nil && len(current.formats) == 1 {"),
("i64-sdp-opus","C26 C28",SP,'["sprop-stereo"] == "1"','["stereo"] == "1"'),
("i65-sdp-name","C26",SD,"c < 0x20 || c == 0x7F","c < 0x20 && c != '\\t' || c == 0x7F"),
("i66-sdp-name2","C26",SD,"if c < 0x20 || c == 0x7F {","if c == '\\n' {"),
("i67-split-size","C25 C27",N,"if size < 0 || size > len(buf)-off {","if size < 0 || size >= len(buf)-off {"),
("i68-pack-edge","C25 C27",N,"if len(nal) <= mtu {","if len(nal) < mtu {"),
("i69-srt-tick","C31 C09",L,"if now.Sub(sess.lastSeen) > sessionTimeout {","if !sess.concluded && now.Sub(sess.lastSeen) > sessionTimeout {"),
("i70-srt-seen","C31 C30",L,"	if sess != nil {\n		sess.lastSeen = time.Now()\n	}\n","	if sess != nil && hdr.Kind == KindData {\n		sess.lastSeen = time.Now()\n	}\n"),
("i71-srt-nakfirst","C30",L,"diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)\n	if diff < 0 {","diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)\n	if diff < -1 {"),
("i72-srt-ackdue","C30",L,"	sess.ackDue, l.ackDue = true, true\n	diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)\n	if diff < 0 {","	diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)\n	sess.ackDue, l.ackDue = diff >= 0, true\n	if diff < 0 {"),
("i73-srt-ackall","C30",L,"			l.ackDue = true\n			continue\n		}\n		sess.ackDue = false","			continue\n		}\n		sess.ackDue = false"),
("i74-srt-newcaller","C31",L,"sess.concluded && sess.peerSocketID != hs.SrtSocketID {","sess.concluded && sess.peerSocketID < hs.SrtSocketID {"),
("i75-srt-initseq","C31 C30",L,"sess.expectedSeq = hs.InitialSequence & seqMask","sess.expectedSeq = hs.InitialSequence & (seqMask >> 1)"),
("i76-srt-indconc","C31",L,"		case !sess.concluded:\n			sess.peerSocketID = hs.SrtSocketID\n		}","		default:\n			sess.peerSocketID = hs.SrtSocketID\n		}"),
("i77-srt-pending","C31 C16",L,"			l.pending--\n			sess.concluded = true","			sess.concluded = true"),
("i78-srt-evict","C31 C16",L,'if !sess.concluded && (oldest == ""','if (oldest == ""'),
("i79-srt-onerr","C30",L,"		l.drop(sess.peerAddr.String())\n","		sess.onData = nil\n"),
("i80-srt-shut","C31",L,"		case CtrlShutdown:\n			l.drop(key)","		case CtrlShutdown:\n			if sess != nil && sess.concluded {\n				l.drop(key)\n			}"),
("i81-srt-diff","C32",K,"if d > half {","if d >= half {"),
("i82-srt-nakrange","C32",K,"			from := w & 0x7FFFFFFF","			from := w & 0x3FFFFFFF"),
("i83-srt-v4","C31",L,"	case HSTypeAgreement: //v5 INDUCTION","	case HSTypeAgreement, HSTypeDone: //v5 INDUCTION"),
("i84-meta-long","C18 C03",MT,"			verb += 2\n","			verb += 1\n"),
("i85-meta-tb","C18",MT,"meta.TagBase, meta.FirstField, meta.SecondField = tb, first, second","meta.FirstField, meta.SecondField = first, second"),
("i86-meta-name","C18 C03",MT,'array[0] == "@setDataFrame"','array[0] == "@setDataFrame" && array[1] == "onMetaData"'),
("i87-meta-two","C18",MT,"	case len(array) == 2:","	case len(array) == 2 && array[0] == \"onMetaData\":"),
]
