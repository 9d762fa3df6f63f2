#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit titles and statements).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None,hook=None):
    if len(title)>80: print(id,len(title),title)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))

p("C01","RTMP ingest recovers exactly the messages sent, however they are chunked",
 "Whatever legal way a publisher splits its messages into chunks (any announced chunk size and mid-stream changes of it, full, delta-timestamp and continuation headers, 1-, 2- or 3-byte chunk-stream ids, extended timestamps, partially sent messages of several chunk streams interleaved, aborted partial messages, aggregate messages, any TCP segmentation), the server recovers exactly the audio, video and metadata messages that were sent. Each keeps its own type, payload bytes and absolute timestamp, and they appear in the order in which they were completed.",
 ["inputs","histories"],"all message sequences and all legal chunkings and segmentations of them",
 "The tests parse a handful of hand-made chunks; the guarantee quantifies over every interleaving, header-compression choice and size.",
 ["librtmp/chunk.go","librtmp/message.go","librtmp/control_message.go","librtmp/aggregate_message.go"],
 [("per-chunk-stream header compression state","librtmp/chunk.go"),("message accumulation until the announced length","librtmp/message.go"),("aggregate sub-message timestamp rebasing","librtmp/aggregate_message.go")],
 ["RTMP player and HTTP-FLV viewer of the published stream"],[("peer chunk size","current maximum chunk payload announced by the peer","librtmp/rtmp.go")])
p("C02","RTMP output is a legal chunk stream carrying the published media unaltered",
 "Every byte the server writes to an RTMP client parses without error under an independent implementation of the RTMP chunk protocol, using the chunk size the server announced, also for messages longer than a chunk, for timestamps at and beyond 0xFFFFFF, and while command replies and media are written at the same time. The audio, video and metadata messages a player receives equal the published ones in type, timestamp and payload bytes (metadata: the same property names and values).",
 ["inputs","schedules"],"all published messages, sizes and timestamps, and all timings of commands against media",
 "Tests round-trip single chunks through the same code; an encoder and decoder wrong in the same way agree, and nothing checks command/media concurrency.",
 ["librtmp/chunk.go","librtmp/message.go","librtmp/room.go","librtmp/audio.go","librtmp/video.go","librtmp/data_message.go"],
 [("message to chunk splitting with basic/extended headers","librtmp/chunk.go"),("tag re-serialisation for players","librtmp/room.go")],["bytes on the player's TCP connection"])
p("C03","HTTP-FLV and WebSocket-FLV deliver a well-formed FLV of the same media",
 "What an HTTP-FLV or WebSocket-FLV viewer receives is a well-formed FLV file from its first byte: the file header, then tags with correct type, size, timestamp (including its high byte) and previous-tag-size. Every audio, video and metadata tag carries the payload and timestamp of the published message it came from, for every codec and packet type the server accepts.",
 ["inputs"],"all published messages of every audio/video codec, sizes and 32-bit timestamps",
 "Tests check one AVC and one AAC tag; layout, sizes and timestamps must hold for every codec, size and the whole 32-bit range.",
 ["libflv/flv.go","libflv/tag.go","libflv/audio.go","libflv/video.go","libflv/meta.go","librtmp/room.go","librtmp/server.go"],
 [("tag marshalling","libflv/flv.go"),("viewer writer loop","librtmp/room.go")],["HTTP body / WebSocket messages of a viewer"])
p("C04","Viewers see media in published order, no duplicates, skipping only whole GOPs",
 "Every viewer, whatever its protocol, join time and speed, receives coded audio and video frames in exactly the order they were published, each at most once, never altered or torn. Where frames are missing because the viewer joined late or fell behind, the next video frame it gets is a keyframe; a viewer that keeps up misses nothing after its first frame and gets everything up to the end of the stream.",
 ["schedules","histories"],"all publish rates, GOP structures, join times, viewer speeds and goroutine interleavings",
 "An ordering/exactly-once claim over concurrent interleavings of one writer and many readers around GOP boundaries; tests have one reader and one short GOP.",
 ["librtmp/room.go","librtmp/video.go","librtmp/audio.go"],
 [("GOP broadcast ring","librtmp/room.go"),("GOP reset on keyframe","librtmp/video.go")],["frames with unique ids at each viewer"],hook=None)
p("C05","A viewer joining at any moment gets current headers, then a keyframe, promptly",
 "A viewer joining a live stream at any moment receives, before its first coded frame of a track, the metadata and decoder configuration of that track which were in force for that frame, and the first coded video frame it receives is a keyframe. Media is delivered for every combination of tracks the publisher really sends (audio only, video only, with or without metadata), never waiting for a track that is absent, and a configuration changed in mid-stream reaches current and later viewers before the frames that need it.",
 ["schedules","inputs","histories"],"all join times relative to header and keyframe publication, all track combinations and header changes",
 "Tests join before publishing with all three headers present; the claim covers every join point and every track combination.",
 ["librtmp/room.go","librtmp/video.go","librtmp/audio.go","librtmp/data_message.go"],
 [("sequence header cache and backfill","librtmp/room.go")],["first tags seen by viewers"])
p("C06","A slow or stalled viewer never delays the publisher or other viewers",
 "A viewer that reads slowly, stops reading or disconnects without notice never blocks or drops the publisher, and never delays, reorders or loses media for the other viewers of that stream or for other streams. The memory the server keeps for a stream stays bounded by a few GOPs however long the stalled viewer stays.",
 ["schedules","fault_sequences"],"all combinations of stalled, slow and vanished viewers with healthy ones",
 "Back-pressure isolation needs full socket buffers and concurrent viewers, which no test creates.",
 ["librtmp/room.go","librtmp/server.go"],[("shared ring read by each viewer at its own pace","librtmp/room.go")],["healthy viewers' progress while others are stalled","process memory"])
p("C07","A live stream name has exactly one publisher, and only it feeds that stream",
 "At any time at most one session is the publisher of a given application and stream name: a second publisher, over RTMP or RTSP, is refused with an error reply and of several simultaneous ones exactly one is accepted. Media sent by any other session (refused publishers, players, connections that never published) reaches nobody, and media published under one application/stream never reaches viewers of another.",
 ["schedules","histories"],"all interleavings of publish, play and media messages from any number of sessions, names and applications",
 "Mutual exclusion over concurrent sessions; tests publish once per name.",
 ["librtmp/command_message.go","librtmp/app.go","librtmp/audio.go","librtmp/video.go","librtmp/data_message.go","librtmp/rtsp_ingest.go"],
 [("room registration at publish","librtmp/command_message.go"),("room registry","librtmp/app.go")],["publish replies, media at viewers"])
p("C08","A publisher ending ends its viewers and frees the name, disturbing nobody else",
 "However an accepted publisher ends (unpublish or delete-stream command, RTSP TEARDOWN, orderly or abrupt disconnect, protocol error), all viewers of that stream receive everything published before and then see the stream end, and the name can immediately be published again with viewers of the new publication receiving only the new media. The end of any other session (a viewer, a refused publisher, an earlier publisher of the same name) never ends or disturbs the live stream.",
 ["histories","fault_sequences","schedules"],"all sequences of publish, unpublish, play, disconnect and republish over the same names",
 "Histories of republish/disconnect races; tests run one publisher lifetime.",
 ["librtmp/rtmp.go","librtmp/command_message.go","librtmp/app.go","librtmp/room.go","librtmp/rtsp_server.go","librtmp/rtsp_ingest.go"],
 [("session cleanup","librtmp/rtmp.go"),("room close waking every reader","librtmp/room.go")],["viewers' end of stream, later publications"])
p("C09","Ended sessions release every goroutine, socket and file they used",
 "After any session ends (publisher or viewer, over RTMP, HTTP-FLV, WebSocket, RTSP or HLS/DASH, normally, by error or by disconnect, at any point of its protocol), the server closes its connection and gives back everything the session held: goroutines, TCP and UDP sockets, open files, and the HLS/DASH segment files of an ended stream.",
 ["histories","fault_sequences"],"all session kinds, and all points at which they are cut off",
 "A conservation claim over arbitrary session histories; no test counts goroutines, descriptors or files.",
 ["librtmp/rtmp.go","librtmp/server.go","librtmp/rtsp_server.go","librtmp/rtsp_ingest.go","libhls/hls.go","libdash/dash.go","librtmp/client.go"],
 [("deferred cleanup of sessions","librtmp/rtmp.go"),("Stop of segmenters","libhls/hls.go, libdash/dash.go")],["goroutine count, /proc/self/fd, segment directory, peer-visible EOF"])
p("C10","The RTMP handshake succeeds for every conforming client and echoes correctly",
 "For every client handshake, simple or digest (either digest schema), with any random bytes, any version time fields and any TCP segmentation, the server answers with version 3, a 1536-byte S1 and an S2 that echoes the client's C1 (simple) or carries a valid digest and response keyed by the client's digest (complex), and then accepts commands. Sessions with an unsupported version are closed, and the same holds with the server's own client against a conforming server.",
 ["inputs"],"all C0/C1/C2 contents, digest positions and segmentations",
 "Digest offsets depend on random bytes; tests try few.",
 ["librtmp/handshake.go"],[("digest location and verification for both schemas","librtmp/handshake.go")],["S0 S1 S2 bytes on the wire"])
p("C11","Every RTMP command gets exactly the reply the protocol prescribes",
 "Every request that expects an answer (connect, createStream, publish, play, FCPublish, releaseStream, deleteStream, closeStream, FCUnpublish, pause, seek) gets exactly one terminal reply of the prescribed kind, carrying the request's transaction id where it is a result and the prescribed status code, in request order, for any numeric transaction id and any legal arguments; unknown commands neither break nor end the session. connect additionally yields window size, peer bandwidth and chunk size before its result, and an unknown application or malformed request is refused without a success reply. Each command has taken effect when its reply arrives: a session receives the media of the stream it was last granted to play and no other, also while it publishes, and none after deleteStream or closeStream, which end all it plays and publishes.",
 ["inputs","histories"],"all command sequences, transaction ids and argument shapes",
 "Tests play one scripted OBS-like sequence.",
 ["librtmp/command_message.go","librtmp/control_message.go","librtmp/message.go"],
 [("command dispatch","librtmp/command_message.go")],["command replies on the wire"])
p("C12","RTMP acknowledgements, pings and window sizes follow the byte counts",
 "Once a peer announces a window acknowledgement size, the server sends an acknowledgement at least every time that many further bytes have been received, whose value is the number of bytes received and never decreases; a ping request is answered by a ping response with the same timestamp. Control messages take effect at their position in the stream and never disturb media on other chunk streams.",
 ["inputs","histories"],"all window sizes, byte counts, control message placements",
 "Counting over whole connections; tests send one control message.",
 ["librtmp/control_message.go","librtmp/message.go","librtmp/rtmp.go"],[("received byte accounting","librtmp/message.go")],["acknowledgement messages on the wire"])
p("C13","No RTMP byte sequence crashes the server or harms other sessions",
 "No sequence of bytes sent to the RTMP port, at any stage of a session and however truncated, oversized, malformed or nested, crashes the server process, makes it spin or hang, or makes it allocate memory out of proportion to what was sent. At worst the offending session is closed; streams and sessions of other clients go on undisturbed.",
 ["inputs","fault_sequences"],"all byte sequences and all disconnection points",
 "Robustness over all inputs; tests send well-formed input only.",
 ["librtmp/chunk.go","librtmp/message.go","librtmp/command_message.go","librtmp/control_message.go","librtmp/aggregate_message.go","libamf/amf0.go","libflv/audio.go","libflv/video.go"],
 [("length and type checks in each parser","librtmp, libamf, libflv")],["process liveness, canary stream, memory"])
p("C14","No RTSP input crashes the server or harms other sessions",
 "No sequence of RTSP requests, headers, SDP bodies, interleaved frames or RTP/RTCP packets (TCP or UDP), however malformed or ordered, crashes the server process, makes it hang or allocate memory out of proportion, or disturbs other streams. At worst the offending session is closed.",
 ["inputs","fault_sequences"],"all request sequences, bodies, frames and packets",
 "Robustness over all inputs and orders.",
 ["librtmp/rtsp_server.go","librtmp/rtsp_ingest.go","librtsp/message.go","librtsp/sdp_parse.go","librtsp/rtp.go","librtsp/rtp_unpack.go"],
 [("request, SDP and RTP parsers","librtsp")],["process liveness, canary stream, memory"])
p("C15","No HTTP or WebSocket input crashes the server or harms other sessions",
 "No HTTP request (any method, path, query, header) to the FLV and HLS/DASH ports and no sequence of WebSocket bytes sent by a viewer crashes the server process, hangs it, or makes it allocate memory out of proportion; other viewers and streams are undisturbed and the ports keep serving.",
 ["inputs","fault_sequences"],"all HTTP requests and WebSocket frame sequences",
 "Robustness over all inputs.",
 ["librtmp/server.go","librtmp/websocket.go"],[("frame reader, URL parsing","librtmp/websocket.go, librtmp/server.go")],["process liveness, canary stream, memory"])
p("C16","No datagram or TS payload crashes the SRT listener or harms other streams",
 "No sequence of UDP datagrams from any number of peers to the SRT port, and no payload bytes fed to the TS demuxer, however malformed, crashes the process, hangs it, or makes it allocate memory out of proportion; callers that then behave are still served and other streams are undisturbed.",
 ["inputs","fault_sequences"],"all datagram sequences and payload bytes",
 "Robustness over all inputs.",
 ["libsrt/listener.go","libsrt/packet.go","libsrt/handshake.go","libsrt/control.go","libsrt/tsdemux.go","librtmp/srt_server.go"],
 [("bounds checks in packet, handshake and TS parsers","libsrt")],["process liveness, later callers, memory"])
p("C17","AMF0 values survive encoding and decoding exactly",
 "Encoding any value built from numbers, booleans, strings of any length, nulls, objects and arrays nested to any usual depth yields AMF0 bytes that an independent decoder reads as the same value, and decoding any AMF0 encoding of such values (including ECMA arrays with any declared count, strict arrays, long strings, dates and undefined) yields the same values in the same order with nothing added, lost or shifted. Malformed input is reported as an error and never decoded as extra values.",
 ["inputs"],"all AMF0 value trees and byte strings",
 "Structural property over unbounded trees; tests check flat values through the package's own encoder.",
 ["libamf/amf0.go","libamf/amf.go"],[("recursive marker-directed decoder and encoder","libamf/amf0.go")],["decoded values, encoded bytes"])
p("C18","FLV tags and metadata parse and re-serialise without loss",
 "For every FLV audio or video message payload of any codec the server accepts, parsing it exposes the header fields it carries and re-serialising it (as RTMP payload and as FLV tag) gives back the identical bytes with correct size, timestamp and type; metadata (and other script data) keeps its name and every value and property the publisher sent, whatever its AMF type, and never fails because of unknown or differently typed properties. Truncated payloads are reported as errors.",
 ["inputs"],"all tag payloads and metadata objects",
 "Round-trip law over all payloads; tests use one or two tags.",
 ["libflv/audio.go","libflv/video.go","libflv/meta.go","libflv/tag.go","libflv/flv.go"],[("tag parse and marshal","libflv")],["marshalled bytes"])
p("C19","Generated MPEG-TS packets always parse back to the same tables and PES data",
 "For every program layout and every PES payload length, timestamp and flag combination, the TS muxer emits only whole 188-byte packets with sync byte, legal adaptation fields, continuity counters that increase by one per PID, PSI sections of one packet with correct CRC, and PES packets from which an independent demuxer recovers exactly the original payload, PTS/DTS (33 bit), PCR and random-access flag. The package's own demuxer recovers the same data from its output and from any conforming TS with stuffing or adaptation fields.",
 ["inputs"],"all payload lengths (every residue modulo packet size), timestamps and flags",
 "Boundary cases depend on length residues; tests sample a few lengths.",
 ["libmpeg/ts.go","libmpeg/pes.go","libmpeg/psi.go","libmpeg/crc32.go"],[("packetisation with stuffing","libmpeg/ts.go"),("section CRC","libmpeg/crc32.go")],["TS bytes"])
p("C20","HLS segments contain exactly the published frames, in order, with right times",
 "For every published stream with H.264/H.265 video, with or without AAC audio, concatenating the HLS segments in sequence order and demuxing them with an independent demuxer gives every published coded frame from the first keyframe on exactly once and in order, video as Annex-B with parameter sets before each keyframe and audio as valid ADTS, with video PTS/DTS equal to the published timestamps (plus composition offset) at 90 kHz modulo 2^33 for any 32-bit timestamp and signed composition offset (audio PTS within a few milliseconds, as audio clocks are smoothed). Each segment starts with PAT and PMT naming the right stream types, starts with a keyframe when there is video, and is a whole number of valid TS packets.",
 ["inputs","histories"],"all frame sequences, sizes, GOP lengths, timestamps",
 "Conservation through muxing for arbitrary streams; tests count a few segments.",
 ["libhls/hls.go","libhls/align.go","libhls/audio_cache.go","libavc/avc.go","libaac/aac.go","libmpeg/ts.go","libmpeg/pes.go"],
 [("segment cutting at keyframes","libhls/hls.go"),("audio frame cache","libhls/audio_cache.go")],["segment files"])
p("C21","The HLS playlist is always a valid, monotone window onto existing segments",
 "At every moment the media playlist served is well-formed, its media sequence never decreases, each segment keeps its sequence number, URI and duration for as long as it is listed, sequence numbers are consecutive, every listed segment file exists and is complete, durations match the media in the segment and none exceeds the target duration when rounded, and the window holds at most the configured number of segments with older files removed. Segments are cut only at keyframes once the target duration is reached.",
 ["histories","inputs","schedules"],"all stream histories and all polling moments",
 "A temporal property over successive playlists; tests look at one rendering.",
 ["libhls/hls.go","libhls/m3u8.go"],[("sliding window","libhls/m3u8.go"),("segment rotation","libhls/hls.go")],["playlist polled throughout, files on disk"])
p("C22","LL-HLS parts tile their segments and blocking reload waits for the right part",
 "In low-latency mode the parts listed for a segment are consecutive byte ranges that tile it without gap or overlap, end up covering exactly the finished segment, start on packet boundaries, are no longer than the advertised part target when the frame rate is steady and frames are shorter than it, sum to the segment duration, mark as independent exactly those starting with a keyframe, and the preload hint names the next byte to come. A blocking playlist request for a media sequence and part returns as soon as and not before that part (or a later one) is in the playlist, or when its timeout or the stream's end comes first.",
 ["histories","inputs","schedules"],"all stream histories, all requested positions and request times",
 "Tiling and blocking semantics over histories and concurrent waiters; tests check the rendering of a fixed list.",
 ["libhls/hls.go","libhls/m3u8.go","librtmp/server.go"],[("part boundaries at flush","libhls/hls.go"),("condition variable for waiters","libhls/hls.go")],["playlists, blocking request return times relative to playlist content"])
p("C23","Generated MP4 boxes nest exactly and locate every sample correctly",
 "For every parameter choice the MP4 builder emits boxes whose sizes nest exactly, whose initialisation segment carries the given track id, timescale, dimensions and decoder configuration bytes, and whose media segments' sample table gives each sample's exact duration, size, keyframe flag and signed composition offset, with data offset pointing at the first sample byte, so an independent parser recovers every sample's bytes and times.",
 ["inputs"],"all parameter sets, sample counts and sizes",
 "Layout law over all sizes; tests check a few fourccs.",
 ["libmp4/box.go","libmp4/init_segment.go","libmp4/init_segment_hevc.go","libmp4/media_segment.go"],[("box builders","libmp4")],["box bytes"])
p("C24","DASH segments carry exactly the published video, matching the manifest",
 "For every published H.264/H.265 stream the concatenation of the DASH media segments gives every video frame from the first keyframe on exactly once, in order, with its bytes and with decode and presentation times equal to the published timestamps and signed composition offsets; segments start at keyframes, are numbered consecutively, and decode times continue without gap across segments, also when the publisher's clock wraps or starts anew. The manifest is well-formed XML whose template, numbering, timescale, codec string and dimensions agree with the initialisation segment and the segments available, every segment it makes available exists, and its presentation starts with the stream's first segment.",
 ["inputs","histories"],"all video frame sequences, SPS contents and timestamps",
 "Conservation through fragmenting for arbitrary streams.",
 ["libdash/dash.go","libdash/mpd.go","libmp4/media_segment.go"],[("segment cutting","libdash/dash.go"),("manifest rendering","libdash/mpd.go")],["segment files, manifest"])
p("C25","RTP packetisation and reassembly are inverse for every NAL and audio frame",
 "For every H.264/H.265 NAL unit size and MTU, AAC frame and Opus packet, the video payloads produced respect the MTU, all follow RFC 6184/7798/3640/7587 and an independent depacketiser recovers exactly the original; RTP headers carry the right version, payload type, marker, timestamp, SSRC and sequence numbers incrementing modulo 2^16. The receive side recovers every NAL from single, aggregated and fragmented packets of any legal packing, takes padding, CSRC and extension headers off, and on lost or out-of-sequence fragments drops the damaged NAL without ever emitting a spliced one. An access unit counts as a key frame exactly when it has an IDR (H.264) or random access picture (H.265).",
 ["inputs","fault_sequences"],"all NAL sizes around fragmentation boundaries, MTUs, loss patterns",
 "Boundary sizes and loss patterns; tests use a couple of sizes.",
 ["librtsp/h264.go","librtsp/hevc.go","librtsp/aac.go","librtsp/opus.go","librtsp/rtp.go","librtsp/rtp_unpack.go"],[("fragmentation and reassembly","librtsp")],["RTP payloads, reassembled NALs"])
p("C26","SDP descriptions state the stream's real parameters and parse back exactly",
 "For every combination of codecs and parameter sets, the SDP generated lists exactly the tracks present with correct payload types, clock rates, control names and decodable parameter sets/configuration; parsing it, or any SDP with the same information in any legal attribute order, spacing and line ending, recovers the same parameters, with the control and payload type of each track kept apart.",
 ["inputs"],"all track and parameter combinations and legal formattings",
 "Tests use one or two fixed SDPs.",
 ["librtsp/sdp.go","librtsp/sdp_parse.go"],[("SDP builder and parser","librtsp")],["SDP text"])
p("C27","An RTSP player receives the published media with right timing and sequence",
 "For every published stream, an RTSP player that has completed DESCRIBE, SETUP and PLAY, over interleaved TCP or UDP, receives valid interleaved frames/RTP packets on the channels or ports it set up, with sequence numbers incrementing by one per track, from which an independent depacketiser recovers a keyframe-aligned, in-order, duplicate-free run of the published video NAL units and audio frames, with parameter sets available before each keyframe, RTP timestamps equal to the published presentation times at the track clock, and the marker bit on the last packet of each access unit. The SDP it was given describes that media, and nothing other than RTP frames and RTSP replies is written on the connection.",
 ["inputs","schedules"],"all published streams, join times and transports",
 "End-to-end with real timing; the test plays a single keyframe.",
 ["librtmp/rtsp_server.go","librtsp/h264.go","librtsp/hevc.go","librtsp/aac.go","librtsp/rtp.go","librtsp/sdp.go"],[("stream loop from room to RTP","librtmp/rtsp_server.go")],["RTP at the player"])
p("C28","Media published by RTSP reaches every viewer as the same access units",
 "For every stream an RTSP client publishes (ANNOUNCE, SETUP, RECORD; interleaved or UDP; H.264, with AAC if announced), viewers receive the codec configuration from the SDP first and then every access unit exactly once and in order, with the same NAL units, the right keyframe flag, and timestamps advancing as the RTP timestamps do, including across RTP timestamp and sequence wrap and a restart of the sequence numbers; each AAC frame, also when several share a packet, is delivered once with its own timestamp. The stream is available in HLS and DASH in the same way as one published by RTMP.",
 ["inputs","schedules"],"all published RTP streams, packings and segmentations",
 "Wraps, packings and segmentation not sampled by tests.",
 ["librtmp/rtsp_ingest.go","librtsp/rtp_unpack.go","librtsp/sdp_parse.go"],[("depacketise and convert to tags","librtmp/rtsp_ingest.go")],["tags at viewers"])
p("C29","RTSP requests get one matching reply each, and only legal state changes succeed",
 "Every well-formed RTSP request gets exactly one reply, in order, echoing its CSeq, with a session id that stays the same once assigned, the accepted transport parameters in SETUP replies, body length matching Content-Length, and an error status for unknown methods, unknown streams and requests not valid in the current state, without ending the connection unless TEARDOWN. Header names match in any letter case, lines may end in CRLF or LF and be long (up to 16 KB), and requests split or pipelined over TCP in any way are treated alike.",
 ["inputs","histories"],"all request sequences, header spellings and segmentations",
 "Protocol histories; tests run one happy path.",
 ["librtmp/rtsp_server.go","librtsp/message.go"],[("request dispatch","librtmp/rtsp_server.go"),("request parser","librtsp/message.go")],["replies on the wire"])
p("C30","SRT delivers payloads in order, once, asks for losses and acknowledges correctly",
 "For every pattern of loss, duplication and reordering of data packets, including sequence wrap at 2^31, the payloads delivered are a subsequence of those sent, in sequence order and each at most once, with nothing lost that arrived in order. Every missing range is requested in a loss report naming exactly those sequence numbers, and acknowledgements name the next expected sequence number, never decreasing and never naming a packet not received or skipped; keepalives are answered and a shutdown ends the session.",
 ["fault_sequences","inputs"],"all loss/duplication/reordering patterns and initial sequence numbers",
 "Loss patterns and wrap; the test sends a few in-order packets.",
 ["libsrt/listener.go","libsrt/control.go","libsrt/packet.go"],[("expected sequence tracking and NAK","libsrt/listener.go")],["datagrams from the listener, delivered payloads"])
p("C31","An SRT session exists only after a valid two-step handshake and stays intact",
 "Data is accepted only from a peer that completed induction and conclusion with the cookie issued to it; the replies to both steps are well-formed and carry the listener's cookie and version, echo the caller's parameters and address it by its socket id. Repeated conclusion packets are answered again without resetting the session, peers are kept apart by address, and a new caller is served regardless of what others did.",
 ["histories","inputs"],"all orders and repetitions of handshake packets from any number of peers",
 "Histories across peers; the test shakes hands once.",
 ["libsrt/listener.go","libsrt/handshake.go"],[("cookie check","libsrt/listener.go")],["handshake replies"])
p("C32","SRT headers, loss lists and AES-CTR decryption agree with the SRT specification",
 "Every data and control header, handshake, acknowledgement and loss list the package writes has the layout of the SRT specification and is read back as the same fields over their full ranges, sequence comparison is circular over 31 bits, and payload decryption equals AES-128-CTR with the package's documented counter derivation (salt with the sequence number xored into its first four bytes, then a 16-bit block count) for every key, salt, sequence number and payload length, with even and odd keys kept apart; malformed input is an error.",
 ["inputs"],"all field values, keys, sequence numbers, payload lengths",
 "Codec laws over full ranges.",
 ["libsrt/packet.go","libsrt/control.go","libsrt/handshake.go","libsrt/crypto.go"],[("codecs","libsrt")],["encoded bytes, decrypted payloads"])
p("C33","The TS demuxer recovers exactly the access units of any conforming stream",
 "For every conforming MPEG-TS carrying H.264 (or H.265), one access unit per PES packet, and ADTS AAC - any PIDs, PSI repetition, adaptation fields and stuffing, bounded or unbounded PES lengths, any split of the byte stream into feeds - the demuxer reports every complete access unit and audio frame once and in order, with its exact bytes, PTS/DTS, keyframe flag and, for audio, its AAC parameters. Data before the first unit start and damaged packets never produce access units made of other units' bytes.",
 ["inputs"],"all multiplexing layouts and feed splits",
 "Splits and layouts unbounded; tests feed a couple of packets.",
 ["libsrt/tsdemux.go"],[("PES reassembly by PID","libsrt/tsdemux.go")],["callbacks"])
p("C34","Media published over SRT reaches viewers as the same frames with right times",
 "For every conforming TS with H.264 video, ADTS AAC audio or both sent by an SRT caller, viewers over RTMP and HTTP-FLV receive the decoder configurations first and then every video access unit from the first keyframe and every AAC frame, in order and once, with the same NAL units and raw AAC data, right keyframe flags and timestamps equal to the TS times in milliseconds up to a constant offset, across the 33-bit wrap. When the caller shuts down or another takes over, viewers never receive units mixed from two callers.",
 ["inputs","histories"],"all TS streams, datagram sizes, caller sequences",
 "No test goes from SRT to a viewer.",
 ["librtmp/srt_server.go","libsrt/tsdemux.go","libsrt/listener.go"],[("TS to FLV tag bridge","librtmp/srt_server.go")],["tags at viewers"])
p("C35","WebSocket frames are legal whatever is sent and received meanwhile",
 "Everything the server sends on an upgraded connection is a sequence of legal, unmasked, complete frames with minimal length encoding, whose binary payloads concatenate to the FLV stream, also while pings, pongs and close frames of the client are answered at the same time. The upgrade reply carries the accept key derived from the request's key for any header spelling; a ping is answered by a pong with the same payload, a close is answered and ends the connection, and upgrade requests without a key are refused.",
 ["inputs","schedules"],"all payload sizes, client frame sequences and timings",
 "Concurrency of pongs with media and length boundaries.",
 ["librtmp/websocket.go","librtmp/server.go"],[("frame writer","librtmp/websocket.go")],["bytes on the upgraded connection"])
p("C36","Segment files are written and served only inside the configured directory",
 "Whatever stream and application names a publisher uses (with path separators, dot segments, control characters, any length) and whatever path a client requests, the server creates, overwrites, removes and serves files only inside the configured segment directory, and one stream's files are never overwritten, served or removed on account of another stream, including one with the same name in another application.",
 ["inputs"],"all names and request paths",
 "Adversarial inputs; tests use plain names.",
 ["librtmp/server.go","librtmp/app.go","librtmp/command_message.go","libhls/hls.go","libdash/dash.go"],[("file naming","libhls/hls.go, libdash/dash.go"),("request path handling","librtmp/server.go")],["file system around the segment directory, HTTP responses"])
p("C37","H.264 and AAC configuration and frame conversion is exact",
 "For every AVC decoder configuration record (any number and size of parameter sets) and every access unit with length prefixes of the size it gives the Annex-B output is the same NAL units in order with start codes and the stream's current parameter sets before each keyframe; for every AudioSpecificConfig the ADTS header produced decodes to the same object type, sampling rate and channels with the exact frame length. A repeated or changed configuration replaces the earlier one, and truncated input gives an error and no output rather than a wrong one.",
 ["inputs"],"all configuration records, NAL layouts and AAC parameters",
 "Exhaustive over field ranges; tests use one or two records.",
 ["libavc/avc.go","libaac/aac.go"],[("configuration parsing","libavc/avc.go"),("ADTS header","libaac/aac.go")],["converted bytes"])
p("C38","A pulled RTMP stream is the same as the upstream stream, across reconnects",
 "A stream pulled from an upstream RTMP server, which is asked, each command after the answer to the one before, for the application and stream the URL names (percent-escapes resolved), is available locally exactly like a locally published one: viewers receive the same media messages in order, and headers changed upstream in mid-stream arrive in place. When the upstream closes, refuses, falls silent before it plays or is not there, the pull retries until it succeeds and then delivers the new media, while the local name stays subject to single-publisher ownership and nothing accumulates.",
 ["histories","fault_sequences"],"all upstream streams, failures and reconnect sequences",
 "Tests pull once from the own server.",
 ["librtmp/client.go","librtmp/server.go","librtmp/command_message.go"],[("pull loop with backoff","librtmp/server.go"),("client command sequence","librtmp/client.go")],["local viewers of the pulled stream"])
p("C39","No data race under any mix of concurrent sessions",
 "Under any concurrent mix of publishers, viewers of every protocol, joins, leaves, republishing and segment requests, no two goroutines of the server access the same memory without synchronisation where one of them writes, and no shared map is used concurrently without protection.",
 ["schedules"],"all concurrent mixes of operations",
 "The tests run without the race detector and mostly one session at a time.",
 ["librtmp/room.go","librtmp/app.go","librtmp/server.go","librtmp/rtsp_server.go","librtmp/rtsp_ingest.go","librtmp/websocket.go","libhls/hls.go","libdash/dash.go","libsrt/listener.go"],
 [("mutexes and sync.Map","throughout")],["race detector reports"])
p("C40","HLS and DASH over HTTP serve current, complete content with right headers",
 "For a live stream, the playlist and manifest URLs answer 200 with the current content and right content type, each segment, part range and initialisation segment they name can be fetched and is byte-identical to what was written, with the right content type and cross-origin header; unknown applications, streams, segments and methods get an error status and never another stream's content. In delayed mode the first request starts the segmenter exactly once, however many arrive at once.",
 ["inputs","schedules","configurations"],"all request sequences, stream names, modes, byte ranges",
 "Tests call one handler once.",
 ["librtmp/server.go","librtmp/app.go","libhls/hls.go","libdash/dash.go"],[("HTTP handlers","librtmp/server.go")],["HTTP responses"])
p("C41","No upstream server can crash the pulling server or harm its other streams",
 "Nothing an upstream RTMP server sends to a pull, at any stage of the session (handshake, replies to connect, createStream and play, control messages, media) and however truncated, malformed, unexpected or absent, and no way it ends the connection, crashes the server process, makes it spin or hang, or makes it allocate memory out of proportion to what was sent. At worst that session is given up and the pull tries again, so that a later faultless session is pulled in full; published streams and other pulls go on undisturbed.",
 ["inputs","fault_sequences"],"all byte sequences of an upstream and all disconnection points",
 "Robustness over all inputs; the tests pull once from a well-behaved upstream.",
 ["librtmp/client.go","librtmp/rtmp.go","librtmp/handshake.go","librtmp/message.go","librtmp/command_message.go","librtmp/server.go"],
 [("client session and retry loop","librtmp/client.go, librtmp/rtmp.go, librtmp/server.go")],["process liveness, innocent stream, memory, connections of the pulls"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
