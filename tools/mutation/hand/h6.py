M=[
("g01-waitkey","C04","librtmp/gop.go","r.g, r.next, r.waitKey = gops[i], 0, true","r.g, r.next, r.waitKey = gops[i], 0, r.g == nil"),
("g02-closed-empty","C08","librtmp/gop.go","		case r.c.closed:\n			return nil, false\n		default","		case r.c.closed && r.next > 0:\n			return nil, false\n		default"),
("g03-chunksize-24","C01","librtmp/control_message.go","scsm.rtmp.peerMaxChunkSize = scsm.NewChunkSize","scsm.rtmp.peerMaxChunkSize = scsm.NewChunkSize & 0xffffff"),
("g04-hls-late","C40 C08","librtmp/app.go","if h, ok := app.hls.LoadAndDelete(roomID); ok {","if h, ok := app.hls.Load(roomID); ok {"),
]
