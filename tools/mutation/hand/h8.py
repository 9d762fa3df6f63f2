T="libmpeg/ts.go"; P="libmpeg/pes.go"; S="libmpeg/psi.go"; H="librtsp/hevc.go"; A="librtsp/aac.go"; M_="librtsp/message.go"; G="librtmp/aggregate_message.go"; N="librtsp/h264.go"
U="librtsp/rtp_unpack.go"; K="libsrt/packet.go"; X="libsrt/crypto.go"; AM="libamf/amf0.go"
M=[
("j01-agg-edge","C01",G,"off+11 <= len(payload)","off+11 < len(payload)"),
("j02-agg-len","C01",G,"subLen := uint32(payload[off+1])<<16 | ","subLen := "),
("j03-agg-ts","C01",G,"am.messageTime + (ts - firstSubTS)","am.messageTime + (ts-firstSubTS)&0xffffff"),
("j04-agg-first","C01",G,"		if !gotFirst {","		if !gotFirst || ts < firstSubTS {"),
("j05-agg-first0","C01",G,"		if !gotFirst {","		if firstSubTS == 0 {"),
("j06-agg-trunc","C01 C13",G,"if bodyEnd > len(payload) {","if bodyEnd+4 > len(payload) {"),
("j07-hevc-hdr","C25 C27",H,"(hdr0 & 0x81) | (49 << 1)","(hdr0 & 0x80) | (49 << 1)"),
("j08-hevc-type","C25 C27",H,"(hdr0 >> 1) & 0x3F\n	body","(hdr0 >> 1) & 0x1F\n	body"),
("j09-hevc-key","C28 C25",H,"t >= 16 && t <= 23","t >= 19 && t <= 21"),
("j10-hevc-key2","C28 C25",H,"t >= 16 && t <= 23","t >= 16 && t < 21"),
("j11-hevc-mtu","C25",H,"fragSize := mtu - 3","fragSize := mtu - 2"),
("j12-aac-trunc","C25 C27",A,"if len(frame) >= 1<<13 {","if len(frame) >= 1<<12 {"),
("j13-msg-cl0","C29 C14",M_,"if n < 0 || n > maxBody {","if n <= 0 || n > maxBody {"),
("j14-msg-hdrval","C29 C26",M_,'idx := strings.Index(line, ":")','idx := strings.LastIndex(line, ":")'),
("j15-msg-trim","C29",M_,"key := strings.TrimSpace(line[:idx])","key := line[:idx]"),
("j16-msg-lf","C29",M_,'strings.TrimRight(string(line), "\\r\\n")','strings.TrimSuffix(string(line), "\\r\\n")'),
("j17-msg-long","C29",M_,"		if err != bufio.ErrBufferFull {","		if err != bufio.ErrBufferFull || len(line) > 4096 {"),
("j18-msg-split","C29",M_,'strings.SplitN(startLine, " ", 3)','strings.Fields(startLine)'),
("j19-rtp-ext","C25 C28",U,"extLen := int(binary.BigEndian.Uint16(buf[off+2:off+4])) * 4","extLen := int(buf[off+3]) * 4"),
("j20-rtp-cc","C25 C28",U,"cc := int(buf[0] & 0x0F)","cc := int(buf[0] & 0x07)"),
("j21-rtp-pt","C25 C28",U,"buf[1] & 0x7F,","buf[1] & 0x6F,"),
("j22-ts-af-edge","C19 C20",T,"remain < int(writable-headerSize)","remain <= int(writable-headerSize)"),
("j23-ts-af-len","C19 C20",T,"uint8(int(writable) - 4 - remain - 1)","uint8(int(writable) - int(headerSize) - remain - 1)"),
("j24-ts-pcr","C19 C20",T,"uint8(af.ProgramClockReferenceBase>>25)","uint8(af.ProgramClockReferenceBase>>25)&0x7f"),
("j25-ts-pcr2","C19 C20",T,"((uint8(af.ProgramClockReferenceBase) & 0x01) << 7)|0x7e","0x7e"),
("j26-pes-len","C19 C20",P,"size := len(pes.Data) + 5 + 3","size := len(pes.Data) + 5 + 4"),
("j27-pes-len2","C19 C20",P,"if size > 0xffff {","if size >= 0x1ffff {"),
("j28-pes-dts","C19 C20",P,"if pes.PTS == pes.DTS {","if uint32(pes.PTS) == uint32(pes.DTS) {"),
("j29-pes-hdrsplit","C19",P,"			finish = false\n			return\n		}\n	}\n\n	if pes.Index < len(pes.Data) {\n		if writable-writed >= len","			finish = false\n		}\n	}\n\n	if pes.Index < len(pes.Data) {\n		if writable-writed >= len"),
("j30-psi-esinfo","C19",S,"esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])","esInfoLength := uint16(b3[i+4])"),
("j31-psi-nit","C19",S,"if programNumber == 0x0000 {","if programNumber&0xff == 0x0000 {"),
("j32-psi-pid","C19",S,"pmtPID := uint16(b2[i+2]&0x1f)<<8","pmtPID := uint16(b2[i+2]&0x0f)<<8"),
("j33-psi-len","C19",S,"if (pat.SectionLength>>10)&0x03 != 0x00 || pat.SectionLength > 0x3fd {","if (pat.SectionLength>>10)&0x03 != 0x00 || pat.SectionLength >= 0x3fd {"),
("j34-psi-ver","C19",S,"pmt.VersionNumber = (b1[5] & 0x3e) >> 1","pmt.VersionNumber = (b1[5] & 0x1e) >> 1"),
("j35-pes-ext","C19",P,"pesExtensionFieldLength := b[0] & 0x7f","pesExtensionFieldLength := b[0] & 0x3f"),
("j36-pes-id","C19",P,"pes.StreamID != 0xf8 {\n			pes.HeaderData","pes.StreamID != 0xf8 && pes.StreamID != 0xbd {\n			pes.HeaderData") ,
("j37-af-splice","C19",T,"		b = next(1)\n		af.SpliceCountdown = int8(b[0])","		b = next(1)\n		af.SpliceCountdown = int8(b[0] & 0x7f)"),
("j38-af-ext","C19",T,"			b = next(3)\n			af.PiecewiseRate","			b = next(2)\n			b = append(b, 0)\n			af.PiecewiseRate"),
("j39-nopayload","C19",T,"	if ts.AdaptationFieldExist&0x01 == 0 { //no payload\n		return nil\n	}\n",""),
("j40-pes-data","C19",T,"			pes.Data = nil\n","			if !pes.started() {\n				pes.Data = nil\n			}\n") if 0 else
("j40-pes-data","C19",T,"			pes.Data = nil\n","			pes.Data = pes.Data[:0]\n"),
("j41-srt-seq","C32 C30",K,"hdr.SeqNumber = first & 0x7FFFFFFF","hdr.SeqNumber = first & 0x3FFFFFFF"),
("j42-srt-type","C32",K,"ControlType((first >> 16) & 0x7FFF)","ControlType((first >> 16) & 0xFF)"),
("j43-iv","C32",X,"copy(iv[0:14], salt[:14])","copy(iv[0:13], salt[:13])"),
("j44-stap-last","C25 C28",U,"for len(body) >= 2 {","for len(body) > 2+1 {"),
]
