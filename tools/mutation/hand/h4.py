H="libhls/hls.go"; P="libhls/m3u8.go"
M=[
("d01-rate-idx","C20",H,"if hls.Ah.SampleRate <= uint8(len(libaac.AACRates)-1) {","if hls.Ah.SampleRate < uint8(len(libaac.AACRates)-1) {"),
("d02-flush-jump","C20",H,"				pes = hls.flushAudio()\n			}\n			hls.audioCache.Cache","				hls.flushAudio()\n			}\n			hls.audioCache.Cache"),
("d03-hevc-pts","C20",H,'''			pes.DTS = hls.ticks(tag.GetTagInfo().TimeStamp)
			pes.PTS = pes.DTS
			pes.PTS_DTSFlag = 0x02
			pes.PESHeaderDataLength = 0x05
			pes.Index = 0
			pes.HeaderIndex = 0
			pes.Data = avccToAnnexB''','''			pes.DTS = hls.ticks(tag.GetTagInfo().TimeStamp)
			pes.PTS_DTSFlag = 0x02
			pes.PESHeaderDataLength = 0x05
			pes.Index = 0
			pes.HeaderIndex = 0
			pes.Data = avccToAnnexB'''),
("d04-cts-neg","C20",H,"return uint64(int64(int32(cts<<8)>>8) * 90)","return uint64(int64(int32(cts)) * 90)"),
("d05-clock-wrap","C20 C21",H,"hls.clock += int64(int32(timestamp - uint32(hls.clock)))","hls.clock = int64(timestamp)"),
("d06-end-audio","C20 C21",H,"if pes := hls.flushAudio(); pes != nil && hls.currentFile != nil {","if pes := hls.flushAudio(); pes != nil && hls.currentFile != nil && hls.stopRequested() {"),
("d07-rotate-noflush","C21 C20",H,"if curDur*float64(time.Second) >= float64(hls.targetDur) {","if curDur*float64(time.Second) > float64(hls.targetDur) {"),
("d08-restart","C21",H,"				if curDur < 0 { //the publisher restarted its clock\n					curDur = float64(hls.targetDur) / float64(time.Second)\n				}\n",""),
("d09-cc-keep","C19 C20",H,"	hls.Cc = map[uint16]uint8{}\n	return hls.writePSI()","	return hls.writePSI()"),
("d10-psi-once","C19 C20",H,"if time.Since(hls.lastPSI) >= psiInterval {","if time.Since(hls.lastPSI) >= 100*psiInterval {"),
("d11-part-copy","C22",H,"parts:    append([]partInfo(nil), hls.currentParts...),","parts:    hls.currentParts,"),
("d12-part-indep","C22",H,"	hls.partIndependent = nextIndependent\n","	hls.partIndependent = nextIndependent && hls.partStartOffset > 0 && !independent\n"),
("d13-part-offset","C22",H,"	hls.partStartOffset = 0\n",""),
("d14-part-limit","C22",H,"partDur+interval+interval/8 > limit","partDur+interval/8 > limit"),
("d15-avail-next","C22",H,"part >= len(hls.segments[len(hls.segments)-1].parts)","part > len(hls.segments[len(hls.segments)-1].parts)"),
("d16-avail-neg","C22",H,"return msn == hls.nextSeq && part >= 0 && part < len(hls.currentParts)","return msn == hls.nextSeq && part < len(hls.currentParts)"),
("d17-wait-ended","C22 C08",H,"for !hls.ended && time.Now().Before(deadline)","for time.Now().Before(deadline)"),
("d18-wait-timer","C22",H,"		timer := time.AfterFunc(timeout, func() {\n			hls.mu.Lock()\n			hls.cond.Broadcast()\n			hls.mu.Unlock()\n		})\n		defer timer.Stop()\n",""),
("d19-stop-wake","C22 C08",H,"	hls.ended = true\n	hls.cond.Broadcast()\n	hls.mu.Unlock()\n	hls.removeSegments()","	hls.ended = true\n	hls.mu.Unlock()\n	hls.removeSegments()"),
("d20-end-wake","C22",H,"		hls.ended = true\n		hls.cond.Broadcast()\n		hls.mu.Unlock()\n		if","		hls.ended = true\n		hls.mu.Unlock()\n		if"),
("d21-window","C21",H,"for len(hls.segments) > hls.windowSize {","for len(hls.segments) > hls.windowSize+1 {"),
("d22-reap-file","C21 C09",H,"		_ = os.Remove(filepath.Join(hls.dir, old.filename))\n	}\n	hls.cond","		if len(old.parts) == 0 {\n			_ = os.Remove(filepath.Join(hls.dir, old.filename))\n		}\n	}\n	hls.cond"),
("d23-dur-last","C21",H,"	if int64(hls.currentEndDTS-hls.lastVideoDTS) <= 0 { //the last frame lasts a while, too\n		hls.currentEndDTS = hls.lastVideoDTS + hls.frameInterval\n	}\n",""),
("d24-rotate-dur","C21",H,"	if int64(nextStartDTS-hls.currentStartDTS) > 0 {\n		hls.currentEndDTS = nextStartDTS //a segment lasts until the next one\n	}\n",""),
("d25-hevc-aud","C20",H,"if len(data) > 4 && data[4]>>1&0x3f == 35 {","if len(data) > 4 && data[4]&0x3f == 35 {"),
("d26-hevc-sps-multi","C20",H,"if videoKey && !hasHEVCSPS(pv.Data()) {","if videoKey && !hasHEVCSPS(pv.Data()[:min(len(pv.Data()), 5)]) {"),
("d27-hevc-change","C20",H,"				if sets, ok := hevcParameterSets(pv.Data()); ok {","				if sets, ok := hevcParameterSets(pv.Data()); ok && hls.hevcSets == nil {"),
("d28-annexb-zero","C20",H,"		if size == 0 {\n			continue\n		}\n",""),
("d29-hevc-type","C20",H,"			pes.StreamType = 0x24\n\n			if pv","			if pv"),
("d30-avc-type","C20",H,"			pes.StreamType = 0x1B\n",""),
("d31-hevc-empty","C20",H,"			if len(pes.Data) == 0 {\n				return nil, 0, false, true\n			}\n",""),
("d32-target-floor","C21",P,'''	target := int(math.Ceil(maxDur))
	if target < 1 {
		target = 1
	}
	var sb strings.Builder
	sb.WriteString("#EXTM3U\\n")
	sb.WriteString("#EXT-X-VERSION:3''','''	target := int(math.Floor(maxDur + 0.5))
	if target < 1 {
		target = 1
	}
	var sb strings.Builder
	sb.WriteString("#EXTM3U\\n")
	sb.WriteString("#EXT-X-VERSION:3'''),
("d33-uri-colon","C21 C40",P,'strings.ReplaceAll(url.PathEscape(filename), ":", "%3A")','url.PathEscape(filename)'),
("d34-preload","C22",P,"if next := p.byteOffset + p.byteLength; next > preloadOffset {\n				preloadOffset = next\n			}","preloadOffset = p.byteOffset"),
("d35-ll-seq","C22",P,"		mediaSeq = in.segments[0].seq\n","		mediaSeq = in.nextSeq - len(in.segments)\n"),
("d36-ll-empty","C22",P,'if len(in.segments) == 0 && in.currentName == "" {','if len(in.segments) == 0 && len(in.currentParts) == 0 {'),
("d37-align-base","C20","libhls/align.go","	a.frameNum = 1\n","	a.frameNum = 0\n"),
("d38-align-ms","C20","libhls/align.go","if dPts <= uint64(syncms)*90 {","if dPts <= uint64(syncms)*900 {"),
("d39-cache-copy","C20","libhls/audio_cache.go","append([]byte(nil), a.buf.Bytes()...)","a.buf.Bytes()"),
("d40-first-psi","C20",H,"hls.currentFile == nil {\n			//No segment yet","hls.currentFile == nil && pid == libmpeg.VIDEO_PID {\n			//No segment yet"),
("d41-end-order","C21",H,"		if hls.stopRequested() {\n			hls.removeSegments()\n		}\n",""),
("d42-currentname","C22",H,'	hls.currentSegName = ""\n',''),
("d43-parts-reset","C22",H,"	hls.currentParts = hls.currentParts[:0]\n	hls.currentSegName","	hls.currentSegName"),
]
