M=[
("a01-abort-forgets","C01","librtmp/control_message.go",'''	delete(am.rtmp.partial, am.ChunkStreamID)
''','''	delete(am.rtmp.partial, am.ChunkStreamID)
	delete(am.rtmp.lastChunk, am.ChunkStreamID)
'''),
("a02-aggr-hi","C01","librtmp/aggregate_message.go"," | uint32(payload[off+7])<<24",""),
("a03-aggr-data15","C01","librtmp/aggregate_message.go","case DATA_MESSAGE_AMF0, DATA_MESSAGE_AMF3:","case DATA_MESSAGE_AMF0:"),
("a04-newchunk-ext","C02","librtmp/chunk.go","ExtendedTimestamp: messageTime >= MAX_TIMESTAMP","ExtendedTimestamp: messageTime > MAX_TIMESTAMP"),
("a05-piece","C13","librtmp/chunk.go","if n > readPiece {","if n > readPiece<<8 {"),
("a06-setchunk-now","C02 C11","librtmp/control_message.go",'''	if err := NewChunk(SET_CHUNK_SIZE, 4, scsm.messageTime, FMT0, csidProtocolControl, b).Send(scsm.rtmp); err != nil {
		return err
	}
	scsm.rtmp.ownMaxChunkSize = int(scsm.NewChunkSize)
''','''	scsm.rtmp.ownMaxChunkSize = int(scsm.NewChunkSize)
	if err := NewChunk(SET_CHUNK_SIZE, 4, scsm.messageTime, FMT0, csidProtocolControl, b).Send(scsm.rtmp); err != nil {
		return err
	}
'''),
("a07-chunksize-hi","C01","librtmp/control_message.go","scsm.rtmp.peerMaxChunkSize = scsm.NewChunkSize","scsm.rtmp.peerMaxChunkSize = scsm.NewChunkSize & 0xffffff"),
("a08-fmt2-len","C01","librtmp/chunk.go",'''		cmhp.MessageLength = rtmp.lastChunk[basicHeader.CsID].MessageLength
		cmhp.MessageType = rtmp.lastChunk[basicHeader.CsID].MessageType
		cmhp.MessageStreamID = rtmp.lastChunk[basicHeader.CsID].MessageStreamID
	case FMT3''','''		cmhp.MessageLength = rtmp.lastChunk[basicHeader.CsID].MessageLength
		cmhp.MessageType = rtmp.lastChunk[basicHeader.CsID].MessageType
	case FMT3'''),
("a09-ping-ts","C12","librtmp/control_message.go","copy(payload[2:], ucm.EventData[:4])","copy(payload[2:], ucm.EventData[:3])"),
("a10-ack-gt","C12","librtmp/rtmp.go","rtmp.bytesReceived-rtmp.lastAcked >= rtmp.peerWindowAckSize","rtmp.bytesReceived-rtmp.lastAcked > rtmp.peerWindowAckSize"),
("a11-ack-noimmediate","C12","librtmp/control_message.go","	wasm.rtmp.acknowledge()\n",""),
("a12-ack-add","C12","librtmp/rtmp.go","rtmp.lastAcked = rtmp.bytesReceived\n","rtmp.lastAcked += rtmp.peerWindowAckSize\n"),
("a13-gop-keepone","C04 C05 C06","librtmp/gop.go","if i < len(c.gops)-1 && (tags","if i <= len(c.gops)-1 && (tags"),
("a14-join-any","C05 C04","librtmp/gop.go","for i > 0 && !gops[i].key && (r.g == nil || gops[i-1].seq > r.g.seq) {","for i > 0 && !gops[i].key && r.g == nil {"),
("a15-join-again","C04","librtmp/gop.go","(r.g == nil || gops[i-1].seq > r.g.seq)","(r.g == nil || gops[i-1].seq >= r.g.seq)"),
("a16-waitkey","C05 C04","librtmp/gop.go","r.g, r.next, r.waitKey = gops[i], 0, true","r.g, r.next, r.waitKey = gops[i], 0, r.g == nil"),
("a17-sent-audio","C05 C04","librtmp/gop.go","if h := r.g.hdr.audio; h != nil && h != r.sent.audio {","if h := r.g.hdr.audio; h != nil && r.sent.audio == nil {"),
("a18-sent-video","C05 C04","librtmp/gop.go","if h := r.g.hdr.video; h != nil && h != r.sent.video {","if h := r.g.hdr.video; h != nil && r.sent.video == nil {"),
("a19-ended-queue","C08 C11","librtmp/gop.go","len(r.queue) == 0 && r.g != nil &&","r.g != nil &&"),
("a20-ended-next","C08 C11","librtmp/gop.go"," && r.next == len(r.g.tags)",""),
("a21-hdr-after-close","C08 C04","librtmp/gop.go","		case r.c.closed:\n			return nil, false\n		default","		case r.c.closed && r.next > 0:\n			return nil, false\n		default"),
("a22-start-hdr","C05","librtmp/gop.go","g := &gop{seq: last.seq + 1, key: key, hdr: c.hdr}","g := &gop{seq: last.seq + 1, key: key, hdr: last.hdr}"),
("a23-keytags","C04","librtmp/gop.go","r.next == 1 && r.g.key:","r.g.key:"),
("a24-enh-key","C05 C03","librtmp/gop.go","return tag.FrameType & 0x07, tag.CodecID","return tag.FrameType & 0x03, tag.CodecID"),
("a25-enh-coded","C05 C04","librtmp/gop.go","(packetType == libflv.AVC_NALU || packetType == codedFramesX)","packetType == libflv.AVC_NALU"),
("a26-opus-hdr","C05 C01","librtmp/gop.go","(tag.SoundFormat == libflv.FLV_AUDIO_AAC || tag.SoundFormat == libflv.FLV_AUDIO_OPUS)","tag.SoundFormat == libflv.FLV_AUDIO_AAC"),
("a27-av1","C05 C04","librtmp/gop.go","case libflv.FLV_VIDEO_AVC, libflv.FLV_VIDEO_HEVC, libflv.FLV_VIDEO_AV1:","case libflv.FLV_VIDEO_AVC, libflv.FLV_VIDEO_HEVC:"),
("a28-meta-only","C05","librtmp/gop.go",'return tag.SecondField == "onMetaData"','return tag.FirstField != "" && tag.SecondField == "onMetaData"'),
("a29-room-video-once","C27 C05","librtmp/room.go","	room.videoSeqHdr = tag\n","	if room.videoSeqHdr == nil {\n		room.videoSeqHdr = tag\n	}\n"),
("a30-room-audio-once","C27 C05","librtmp/room.go","	room.audioSeqHdr = tag\n","	if room.audioSeqHdr == nil {\n		room.audioSeqHdr = tag\n	}\n"),
("a31-unpub-any","C07 C08","librtmp/app.go","	if app.Load(room.RoomID) == room {\n","	if app.Load(room.RoomID) != nil {\n"),
("a32-hls-none-dash","C40 C08","librtmp/app.go","	if d, ok := app.dash.LoadAndDelete(roomID); ok {","	if d, ok := app.dash.Load(roomID); ok {"),
("a33-delayed-race","C40","librtmp/app.go",'''	if hls := app.LoadHLS(room.RoomID); hls != nil {
		return hls
	}
''','''	app.mu.Unlock()
	hls := app.LoadHLS(room.RoomID)
	app.mu.Lock()
	if hls != nil {
		return hls
	}
'''),
("a34-ended-meanwhile","C40 C09 C36","librtmp/app.go",'''	if app.Load(room.RoomID) != room {
		return nil //it ended meanwhile
	}
	dir, err := app.segmentDir(app.hlsDir''','''	dir, err := app.segmentDir(app.hlsDir'''),
("a35-rmdir","C09 C36","librtmp/app.go",'''		hls.Stop()
		_ = os.RemoveAll(dir)''','''		hls.Stop()
		_ = os.Remove(dir)'''),
("a36-name-len","C36 C40","librtmp/app.go","len(roomID) > 200","len(roomID) > 255"),
("a37-name-bs","C36","librtmp/app.go"," || r == '\\\\'",""),
("a38-name-del","C36","librtmp/app.go"," || r == 0x7f",""),
("a39-fcunpub","C08 C11","librtmp/command_message.go",'(cm.PublishingName == "" || cm.PublishingName == room.RoomID)','cm.PublishingName == room.RoomID'),
("a40-play-again","C11 C09","librtmp/command_message.go","		cm.rtmp.endPlay()\n\n		err1","		err1"),
("a41-pub-after-play","C11","librtmp/rtmp.go","	if rtmp.room != nil {\n		return false\n	}\n	room := NewRoom","	if rtmp.room != nil && rtmp.room.RoomID == roomID {\n		return false\n	}\n	room := NewRoom"),
("a42-endpublish-close","C11","librtmp/rtmp.go","	rtmp.room.Close()\n	rtmp.room = nil","	if rtmp.play == nil {\n		rtmp.room.Close()\n	}\n	rtmp.room = nil"),
("a43-role","C11","librtmp/rtmp.go","	if rtmp.role == roleUnknown {\n","	{\n"),
("a44-objenc","C11","librtmp/command_message.go","ObjectEncoding: cm.CommandObject.ObjectEncoding","ObjectEncoding: 0"),
("a45-txn","C11","librtmp/command_message.go",'''					Code:        "NetStream.Publish.BadName",''','''					Code:        "NetStream.Publish.Badname",'''),
("a46-cmd-chunk","C02 C11","librtmp/command_message.go","	chunkSize := cmr.rtmp.ownMaxChunkSize\n","	chunkSize := 4096\n"),
("a47-conn-app","C11 C07","librtmp/command_message.go","		cm.rtmp.app = cm.CommandObject.App\n",'		if cm.rtmp.app == "" {\n			cm.rtmp.app = cm.CommandObject.App\n		}\n'),
("a48-delete-play","C11 C08 C09","librtmp/command_message.go","		cm.rtmp.endPublish()\n		cm.rtmp.endPlay()\n","		if cm.rtmp.room != nil {\n			cm.rtmp.endPublish()\n		} else {\n			cm.rtmp.endPlay()\n		}\n"),
("a49-data-hdr","C04 C05","librtmp/data_message.go","	if !isMetaData(dm.metaTag) {","	if false {"),
("a50-data-chunk","C02","librtmp/data_message.go","	chunkSize := dm.rtmp.ownMaxChunkSize\n","	chunkSize := len(dm.messagePayload)\n"),
]
