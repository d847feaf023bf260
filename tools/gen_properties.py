#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it can be edited and diffed)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

SRV = "internal/server/server.go"; SES = "internal/server/session.go"; HTTP = "internal/server/http.go"
EV = "internal/pubsub/events/events.go"; DEC = "internal/pubsub/events/decode.go"
WEBM = "internal/webrtc/recorder/webm.go"; REC = "internal/webrtc/recorder/recorder.go"; IVF = "internal/webrtc/recorder/ivfwriter.go"
RTC = "internal/webrtc/webrtc.go"; LK = "internal/webrtc/livekit/livekit.go"
JB = "internal/webrtc/utils/jitter_buffer.go"; RL = "internal/webrtc/utils/receive_log.go"
SU = "internal/webrtc/utils/sequence_unwrapper.go"; NK = "internal/webrtc/utils/nack.go"; SB = "internal/webrtc/utils/send_buffer.go"
CFG = "internal/config/config.go"; LOAD = "internal/config/loader.go"; APP = "internal/app/app.go"; ACFG = "internal/app/config.go"
RED = "internal/pubsub/redis/redis.go"; PS = "internal/pubsub/redis.go"; PROM = "internal/prometheus/prometheus.go"

# ---------------------------------------------------------------- signalling
prop("C01", "Every start request is answered exactly once and truthfully",
 "Every startRecording message received on the subscribe channel yields exactly one startRecordingResponse on the publish channel carrying the same recordingSessionId. The response says \"ok\", with the recording's full path as fileName (and for the mediasoup adapter a base64 SDP answer, and no error), only if the recording was set up; otherwise it says \"failed\", with a non-empty error and neither sdp nor fileName. A request that is well-formed per the README (adapter unspecified means mediasoup; SDP in adapterOptions.mediasoup.sdp or in the legacy sdp field; LiveKit room and at least one track id) and whose SDP, file name and session id are usable is never refused.",
 ["histories", "inputs"],
 "for every history of start/stop messages mixing valid and invalid offers, adapters, option shapes, file names and session ids, on both adapters",
 "The existing tests only call the Validate methods on 9 hand-written structs; no test drives the message handler, so response count, correlation and content are unobserved for every history.",
 [SRV, SES, EV], [("HandlePubSub startRecording branch", SRV), ("StartRecording.Validate/Success/Fail", EV), ("Session.StartRecording", SES)],
 observe=["messages published on the publish channel"])
prop("C02", "An active session id is exclusive; an inactive one is reusable",
 "While a recording session is active, a further startRecording with its recordingSessionId is refused and the running recording (its file, its later stop and its notifications) is unaffected. Once a session has ended for any reason, or its start has failed, the same id can be started again, and nothing that happens afterwards to the earlier session's connection affects the new one.",
 ["histories", "schedules"],
 "for every interleaving of starts, duplicate starts, failing starts, stops and peer disconnections over a small set of session ids",
 "No test exercises the session table at all; the guarantee is over histories and over when a stale connection dies.",
 [SRV, SES], [("sessions map Load/Store/Delete", SRV), ("per-session end callbacks", SES)],
 state=[("sessions", "active sessions by id", SRV)], observe=["startRecordingResponse, recordingStopped messages"])
prop("C03", "A session ends exactly once, with its file final, and is silent afterwards",
 "stopRecording for an active session yields exactly one recordingStopped with that id and reason \"stopped\" (a peer that goes away yields exactly one with another reason), and stopRecording for an unknown or already ended session yields nothing. By the time recordingStopped is published the recording file is complete and no longer changes, and no further message about that session is ever published. The timestampHR of the message is the presentation time, in milliseconds, of the last video frame recorded (absent when that is 0).",
 ["histories", "schedules"],
 "for every way (stop request, peer closing, both in any order, repeated stops, stops for unknown ids) and moment a session can end, with media flowing or not",
 "Needs live sessions and orderings of independent events (stop vs. disconnect vs. end of track); the tests start no session.",
 [SRV, SES, RTC, WEBM], [("HandlePubSub stopRecording branch", SRV), ("Session.StopRecording", SES), ("flow / ICE callbacks", SES), ("WebmRecorder.Close", WEBM)],
 state=[("stopped", "session already ended", SES), ("closed", "file finalised", WEBM)], observe=["recordingStopped messages", "file contents at and after recordingStopped"])
prop("C04", "No control message can take the recorder down",
 "Whatever bytes arrive on the subscribe channel (not JSON, not an object, wrong field types, unknown or missing id, truncated, huge, deeply nested, hostile SDP), the recorder process keeps running, keeps answering later requests, and recordings already in progress are not disturbed.",
 ["inputs", "histories"],
 "for every byte string delivered as a message, at every point of a history",
 "Tests decode no bytes at all; the guarantee quantifies over arbitrary input.",
 [DEC, EV, SRV], [("events.Decode", DEC), ("Event.IsValid and the typed accessors", EV), ("recover around mediasoup setup", SRV)],
 observe=["process liveness", "recorderStatus answers afterwards"])
prop("C05", "Status requests are answered and startup is announced",
 "When the subscription to the control channel is established the recorder publishes one recorderStatus, and every getRecorderStatus message yields exactly one more. Each carries the build's appVersion, an instanceId that is the same throughout the process's life and different between processes, and the generation time as a millisecond UNIX timestamp.",
 ["histories", "inputs"],
 "for every interleaving of status requests with other traffic, however the JSON5 message is spelled, and across restarts",
 "No test calls the handler or starts the process.",
 [SRV, EV, APP], [("OnStart and getRecorderStatus branch", SRV), ("NewRecorderStatus", EV), ("instance id", APP)], observe=["recorderStatus messages"])
prop("C06", "The session gauge equals the number of active sessions",
 "At every quiescent point the recorder_sessions metric equals the number of sessions that have been started successfully and have not yet ended; failed, refused and repeated starts, repeated stops and disconnections leave no residue.",
 ["histories"],
 "for every history of starts (successful, refused, failing), stops and disconnections",
 "A conservation law over histories; no test reads the metric.",
 [SES, PROM, SRV], [("Sessions.Inc / Dec", SES)], state=[("recorder_sessions", "current number of sessions", PROM)], observe=["/metrics", "the gauge in the default registry"])
# ---------------------------------------------------------------- files
prop("C07", "Recordings stay inside the recording directory, where the answer says",
 "A recording is only ever created at the configured directory joined with the requested fileName, and that cleaned path is what an \"ok\" answer reports as fileName. A fileName that would resolve outside the configured directory is refused and nothing is created or changed anywhere. With writeToDevNull nothing is created at all.",
 ["inputs", "configurations"],
 "for every file name (nested, dotted, parent references, absolute, repeated separators, odd characters) and every spelling of the configured directory",
 "No test calls the path preparation code; the guarantee is over all names and directory spellings.",
 [REC, IVF], [("ValidateAndPrepareFile", REC), ("NewIVFWriter path", IVF)], observe=["file tree of a scratch root after the call", "GetFilePath / response fileName"])
prop("C08", "An existing recording is never overwritten or mixed with another",
 "A recording whose target file already exists is refused, and the existing bytes are left untouched. Two sessions never write into the same file, even when both were started with the same fileName before either had written anything.",
 ["histories", "inputs", "schedules"],
 "for every sequence of starts, media and stops over a small set of session ids and file names, including names that are different spellings of one path",
 "No test creates a recorder; the collision only shows with two sessions and a particular order of start and first frame.",
 [REC, WEBM, SRV], [("exists check", REC), ("lazy open of the file on first frame", WEBM)], observe=["contents of pre-existing files", "start responses"])
prop("C09", "Files get the configured modes; refused requests leave nothing behind",
 "Recording files are created with recorder.fileMode and missing parent directories with recorder.dirFileMode (octal text, less the umask); existing directories keep their mode. A request is refused, with no file created, when the recording directory does not exist, the file mode or a needed directory mode is not a number, or the file name does not end in .webm. The file appears only once media is recorded.",
 ["inputs", "configurations"],
 "for every mode string, umask, directory depth, extension and pre-existing tree",
 "No test exercises file creation or configuration values.",
 [REC, WEBM], [("ValidateAndPrepareFile / NewRecorder", REC), ("OpenFile in initWriter", WEBM)], observe=["stat of the created tree"])
# ---------------------------------------------------------------- media: recorder
prop("C10", "Every recorded video frame is one sent frame, intact, in order, once",
 "Every video block of a recording is byte-for-byte one frame the sender sent, reassembled from all of its packets and nothing else. Frames appear in sending order and none appears twice. A frame of which a packet never arrived is never written, however the remaining packets arrive and whether or not the loss is signalled.",
 ["inputs", "histories"],
 "for every VP8 stream (frames of at least 10 bytes and 16 to 8192 pixels a side, assembled within 2 s; packetisation, picture-id width and start, sequence/timestamp start including wrap-around) and every pattern of packets missing from it",
 "There is no recorder test. The guarantee is over all loss patterns and counter positions.",
 [WEBM], [("pushVP8Custom reassembly", WEBM), ("NotifySkippedPacket", WEBM)], state=[("currentFrame", "frame being assembled", WEBM), ("expectedNextSeq", "next sequence number", WEBM)], observe=["video blocks of the finished WebM file"])
prop("C11", "Nothing that can be recorded is lost",
 "From the first complete keyframe on, every frame received in full is in the finished file as long as no packet is lost, and after a loss recording resumes with the first complete keyframe that follows. What has been recorded stays recorded: later media, a later loss or the end of the session never removes frames already written.",
 ["inputs", "histories"],
 "for every stream (frames as for C10) and loss pattern, with video only, audio only or both, in every interleaving of the two after both kinds are known; the one known exception, a second track that joins late, is a recorded finding",
 "There is no recorder test; completeness is over all streams and interleavings.",
 [WEBM], [("pushVP8Custom", WEBM), ("pushOpus", WEBM), ("initWriter conditions", WEBM), ("close", WEBM)], observe=["blocks of the finished WebM file"])
prop("C12", "A recording is decodable from its first frame and after every loss",
 "The first video block of a file is a keyframe, the video track header carries that keyframe's width and height, and exactly the blocks whose VP8 payload is a keyframe are flagged as such. After a loss that damages or removes a frame (a packet missing inside a frame, or a jump in the picture ids) no inter frame is recorded until the next complete keyframe has been.",
 ["inputs", "histories"],
 "for every stream start (inter frames first, truncated keyframes, invalid frames), every loss pattern and every frame size",
 "There is no recorder test; needs generated loss histories.",
 [WEBM], [("hasKeyFrame gating", WEBM), ("validateVP8Frame", WEBM), ("dimensions passed to initWriter", WEBM)], observe=["track header and blocks of the finished WebM file"])
prop("C13", "Video presentation times follow the sender's RTP clock without drift",
 "The presentation time of a recorded video frame is its RTP timestamp relative to the first keyframe's, converted from 90 kHz, to within one millisecond plus rounding that does not accumulate beyond 1 ms per ten thousand frames. This holds across 32-bit timestamp wrap-around, gaps from lost frames, arbitrary frame spacing and recordings of any length, and times never decrease while the sender's do not; VideoTimestamp reports the time of the last recorded frame.",
 ["inputs", "histories"],
 "for every start timestamp, frame spacing sequence and loss pattern",
 "There is no recorder test; wrap-around and drift need generated clocks.",
 [WEBM], [("duration / pts computation", WEBM)], state=[("videoTimestamp", "pts of last frame", WEBM), ("packetTimestamp", "its RTP timestamp", WEBM)], observe=["block times", "VideoTimestamp()"])
prop("C14", "Audio packets are recorded intact, once, in order, on the Opus clock",
 "Every audio block is one sent Opus payload, unmodified, in sending order and never twice; every packet that arrives from the moment the file is open is present (however much of the stream is lost around it), at the time at which it arrived if audio joins late. The spacing of audio blocks equals the spacing of their RTP timestamps at 48 kHz to within a millisecond with no accumulating drift, including across lost packets, sequence/timestamp wrap-around and bounded reordering or duplication.",
 ["inputs", "histories"],
 "for every packet pattern (loss, duplication, reordering within the queue) and every start of the counters",
 "There is no recorder test.",
 [WEBM], [("pushOpus via sample builder", WEBM)], state=[("audioTimestamp", "time of last audio block", WEBM)], observe=["audio blocks of the finished WebM file"])
prop("C15", "No RTP payload can crash the recorder",
 "Whatever bytes RTP packets carry (truncated payload descriptors, empty or one-byte payloads, hostile extension bits, absurd sizes, any sequence numbers, timestamps and markers), pushing them never panics with either video sampler, the file stays well formed, and a clean stream that follows (its counters continuing in sequence, the two tracks' times within 32 s) is recorded as if the garbage had been a loss.",
 ["inputs", "histories"],
 "for every sequence of RTP packets with arbitrary header fields and payload bytes, audio and video, both samplers",
 "No test feeds any packet; the guarantee is over arbitrary bytes.",
 [WEBM], [("VP8 payload descriptor parsing", WEBM), ("IsVP8KeyFrame / GetVP8KFDimension", WEBM), ("validateVP8Frame", WEBM)], observe=["panics", "finished WebM file"])
prop("C16", "A recording file is well-formed WebM at every crash point",
 "Once opened, the recording file is at every moment a valid WebM header with the tracks that carry media, followed by whole clusters and blocks except possibly a truncated tail, and the recoverable blocks are a prefix of what the completed file will contain and lag behind what was recorded only by what is needed to interleave the tracks. After an orderly end the file parses completely.",
 ["crash_points", "histories"],
 "for every stream (video, audio, both, any order of arrival, long gaps) and every point at which the process might die",
 "There is no recorder test; crash points need snapshots at every step.",
 [WEBM], [("initWriter", WEBM), ("block sorter and block writer set-up", WEBM), ("close", WEBM)], observe=["file bytes after every push", "finished file"])
prop("C17", "The IVF copy mirrors the recorded video",
 "With writeIVFCopy the file next to the recording with extension .ivf holds, after the end of the session, exactly the video frames of the recording in order with their RTP timestamps, a header with the VP80 code, the dimensions of the last keyframe and the exact frame count. Without the option no such file appears.",
 ["inputs", "configurations"],
 "for every stream, loss pattern and number of frames, with the option on and off, and both samplers",
 "No test covers the IVF writer.",
 [IVF, WEBM], [("NewIVFWriter / WriteFrame / UpdateDimensions / Close", IVF), ("pushToIVFWriter", WEBM)], observe=["bytes of the .ivf file", "frames of the .webm file"])
prop("C18", "A keyframe is requested whenever the recording needs one, without flooding",
 "With the default video sampler, whenever a video packet arrives and the recorder cannot use it because it lacks a keyframe, or loss makes it discard a frame, the sender has been asked for a keyframe within the last second or is asked now. Requests triggered by the recorder are at least one second apart, and a stream without loss causes none after its first keyframe.",
 ["histories", "inputs"],
 "for every stream, loss pattern and arrival timing (virtual clock)",
 "Timing and loss histories; there is no recorder test.",
 [WEBM, RTC], [("RequestKeyframe throttle", WEBM), ("calls at each discard", WEBM)], state=[("lastKeyframeRequestTime", "throttle", WEBM)], observe=["calls on the keyframe requester with virtual time"])
prop("C19", "The alternative video sampler records intact frames from a keyframe on",
 "With useCustomSampler off, every video block is one sent frame intact and in order, the first is a keyframe and the track header has its dimensions, every frame but the last is recorded when its stream arrives in order without loss, and presentation times follow the RTP clock.",
 ["inputs", "configurations"],
 "for every stream and loss/reordering pattern with the alternative sampler configured",
 "There is no recorder test.",
 [WEBM], [("pushVP8Builtin", WEBM), ("GetVP8KFDimension", WEBM)], observe=["finished WebM file"])
prop("C20", "Storage failures are contained to the recording they hit",
 "If a recording's file cannot be opened or written (directory removed, permission denied, disk full, size limit) at any point of a session, the recorder process survives, other sessions keep recording intact files, and the affected session can still be stopped and is reported as stopped.",
 ["fault_sequences", "crash_points"],
 "for every kind of storage fault and every moment (before the first frame, after n bytes, at close) it can strike, with other sessions running",
 "Needs fault injection while sessions run; no test does either.",
 [WEBM, SES], [("initWriter open", WEBM), ("write errors in pushVP8*/pushOpus and the block writer", WEBM)], observe=["process liveness", "other sessions' files", "recordingStopped of the affected session"])
# ---------------------------------------------------------------- transport utils
prop("C21", "Sequence numbers are unwrapped consistently",
 "For any packet stream whose reordering stays below half the sequence space, unwrapped numbers are non-negative, congruent to the packet's sequence number, equal for equal packets, and differ between any two packets by exactly their distance in the stream, across any number of wrap-arounds. (The one exception is a packet older than the very first when that would be negative: the numbering then shifts up once by one cycle.)",
 ["inputs", "histories"],
 "for every start value, cycle size, and reordering/duplication/gap pattern below half the space",
 "One test walks a single in-order sequence with one hand-made state; wrap-around combined with reordering is not covered.",
 [SU], [("Unwrap", SU)], state=[("wrapArounds", "cycles seen", SU), ("highestSequenceNumber", "newest number", SU)], observe=["return values"])
prop("C22", "The jitter buffer delivers each packet once, in order, without stalling",
 "Packets come out in strictly increasing sequence order, each at most once, exactly the packet that was added under that number. Without loss every accepted packet comes out as soon as all its predecessors have; a missing packet is waited for at least until its timeout unless it is skipped explicitly (also ahead of its turn) or has slid out of the window, and once its timeout has passed, or it is reached after an explicit skip, the next call moves past it and reports the skip (of a run of packets skipped together, one of their numbers) before or with the packets that follow. The buffer never holds back packets more than its size behind the newest.",
 ["inputs", "histories", "schedules"],
 "for every sequence of adds (reordered, duplicated, late, jumps), reads, explicit skips and clock advances, every size and timeout, under a virtual clock",
 "One test with one size-8 script and no time; the guarantee is over all interleavings of arrivals and time.",
 [JB, RTC], [("Add", JB), ("NextPackets", JB), ("SkipPacket / SetNextPacketsStart", JB), ("GetAndClearLastSkipped", JB)], state=[("nextStart", "next number to deliver", JB), ("end", "newest number", JB)], observe=["return values"])
prop("C23", "The receive log knows exactly which packets are missing",
 "Within the window of the last <size> sequence numbers, the log reports a packet as received exactly if it was added or ignored, and the missing list (but for the newest skipLastN) is exactly the sequence numbers not received, in order, each once, never including one that was received or ignored or lies outside the window. The last consecutive number never passes a missing one inside the window.",
 ["inputs", "histories"],
 "for every sequence of adds (reordered, duplicated, late, jumps, wrap-around), ignores and queries, every allowed size",
 "One scripted size-128 test; window edges combined with jumps and ignores are not covered.",
 [RL], [("Add / IgnoreSeqNum / MissingSeqNumbers", RL)], state=[("lastConsecutive", "everything up to here received", RL), ("end", "newest", RL)], observe=["Get, MissingSeqNumbers, GetLastConsecutive"])
prop("C24", "NACK lists encode exactly the missing packets, compactly",
 "Encoding an ordered list of distinct missing sequence numbers as NACK pairs and decoding it gives back exactly that list, across wrap-around and any gaps, and uses the minimum number of pairs (a new pair only when a number is more than 16 beyond the pair's first). An empty list gives no pairs.",
 ["inputs"], "for every ascending (modulo 2^16) list of sequence numbers",
 "One example each way.",
 [NK], [("NackPairs / NackPairsToSequenceNumbers", NK)], observe=["return values"])
prop("C25", "The send buffer returns exactly the recent packets it was given",
 "For any allowed size, Get returns a packet only if it carries the requested sequence number and lies within the last <size> numbers up to the newest one; a packet added while within that window and still in it is returned, unless a larger jump came in between, a number never added is not.",
 ["inputs", "histories"], "for every add/get sequence with gaps and wrap-around and every allowed size; other sizes are refused",
 "One scripted size-8 test.",
 [SB], [("Add / Get", SB)], observe=["return values"])
# ---------------------------------------------------------------- events, config, pubsub
prop("C26", "Control messages are decoded and validated as documented",
 "Decoding any message with a known id (and at most 100000 nested brackets) yields an event of that type with every field as sent, whatever JSON5 spelling is used (comments, unquoted keys, single quotes, trailing commas, key order, unknown extra fields); everything else yields an event with that id or none. Messages built by the recorder survive encode and decode unchanged, have exactly the documented field names, and responses pass their own validation; the SDP in adapterOptions takes precedence over the legacy one.",
 ["inputs"], "for every message value and every JSON5 rendering of it, and arbitrary other documents",
 "Tests check Validate and GetSDP on fixed structs and never decode a byte string.",
 [EV, DEC], [("Decode", DEC), ("Validate, GetSDP, Success, Fail, Stopped, constructors", EV)], observe=["decoded events", "marshalled JSON"])
prop("C27", "Configuration precedence: environment over file over defaults",
 "For every setting (the list of ICE servers counting as one), the effective value is the one from its BBBRECORDER_ environment variable if set, otherwise the configuration file's, otherwise the documented default, independently of which other settings are given; --dump of any documented path prints exactly that value (as YAML), and of an unknown path prints nothing and fails. Reloading on SIGHUP makes the current file's values effective without interrupting active recordings; a file that cannot be loaded changes nothing.",
 ["configurations", "histories"], "for every combination of settings given in file and environment, and every dump path",
 "No test loads configuration.",
 [CFG, LOAD, ACFG, APP], [("SetDefaults", CFG), ("Config.Load", LOAD), ("dumpConfig / loadConfig", ACFG), ("sighupHandler", APP)], observe=["--dump output", "behaviour after SIGHUP"])
prop("C28", "Pub/sub delivers each message once, in order, unmodified, on its channel",
 "Every message published on the configured subscribe channel after the subscription is handled exactly once, in order and byte-for-byte, whatever its content and however the network splits it; messages on other channels are not. Everything the recorder publishes goes to the configured publish channel unmodified, with the configured password used on every connection. A recorder that loses its subscription does not stay behind deaf: it subscribes again, or ends with a failure status.",
 ["inputs", "histories", "configurations"], "for every message sequence, byte content, fragmentation of the Redis stream, channel names and password",
 "No test opens a Redis connection.",
 [RED, PS, "internal/pubsub/pubsub.go"], [("ListenChannels", RED), ("Publish", RED), ("Redis.Subscribe", PS)], observe=["commands received by a fake Redis server", "messages seen by the handler"])
# ---------------------------------------------------------------- end to end
prop("C29", "End to end: what a mediasoup peer sends is what is on disk",
 "For a session negotiated over SDP, the finished file holds the VP8 and Opus media the peer sent, intact and in order; packets reordered, duplicated or lost and retransmitted within the jitter budget leave no trace in the file, and unrecovered loss costs only the frames up to the next keyframe. Concurrent sessions do not influence each other's files.",
 ["histories", "schedules", "inputs"], "for every number of concurrent sessions, media mix and network impairment (loss, duplication, reordering, late retransmission)",
 "No test opens a peer connection.",
 [RTC, SES, JB, WEBM], [("OnTrack receive loop", RTC), ("jitter buffer and receive log wiring", RTC)], observe=["files after recordingStopped"])
prop("C30", "Lost packets are asked for again; keyframes are requested",
 "While a session receives media, every packet missing behind newer ones is requested by NACK from the peer that sends that stream until it arrives or is given up, packets that were received are not requested, and a picture loss indication for each video stream is sent at least every few seconds and when video is unusable.",
 ["schedules", "fault_sequences"], "for every loss pattern and retransmission delay, audio and video, across sequence wrap-around",
 "No test opens a peer connection.",
 [RTC, RL, NK], [("NACK goroutine", RTC), ("PLI ticker / RequestKeyframeForSSRC", RTC)], observe=["RTCP received by the peer"])
prop("C31", "Flow status notifications tell when media starts and stops flowing",
 "For each recorded track recordingRtpStatusChanged alternates, beginning with \"flowing\" shortly after the first media and never repeating a status; when media pauses for more than about a second it reports \"not_flowing\" and \"flowing\" again on resumption. Each carries the session's id and the millisecond media timestamp.",
 ["histories", "schedules"], "for every pattern of media bursts and pauses",
 "No test opens a peer connection.",
 [RTC, SES], [("flow ticker", RTC), ("SetFlowCallback", SES)], observe=["recordingRtpStatusChanged messages"])
prop("C32", "LiveKit sessions record exactly the requested tracks",
 "A LiveKit session joins the requested room under an identity derived from the session id, subscribes to the requested tracks only, and records their media: every frame that arrives as a whole, in order and unchanged, except closely after a loss, nothing that cannot be decoded, whatever is lost, reordered, duplicated or retransmitted (also the first packets of a track), without ever ending the process. It requests keyframes while video cannot be decoded and reports when media flows, like the other adapter. If the room cannot be joined, or the server does not respond, the start is answered as failed within about 20s and no participant is left behind. When the recording stops the recorder leaves the room; when the recorder is removed from the room the recording ends with reason \"closed\". recordingStopped never precedes the answer to the start.",
 ["histories", "configurations"], "for every set of participants, published tracks and requested track ids",
 "No test connects to a room.",
 [LK, SES], [("Init / subscribeToTracks", LK), ("onTrackSubscribed receive loop", LK)], observe=["signalling received by a fake LiveKit server", "files"])
prop("C33", "The HTTP test bridge matches answers to requests and survives foreign ones",
 "Every POST /sdp is published as one startRecording with the posted offer, and is answered with the SDP from the response to that very request (with an error status if it failed), also when several requests are in flight. Responses for sessions the bridge did not start, or without an SDP, never harm the process or other requests; a request without body or with another method is answered 422.",
 ["histories", "schedules", "inputs"], "for every interleaving of posts and responses (own, foreign, failed, duplicated)",
 "No test starts the HTTP server.",
 [HTTP], [("Serve / serve", HTTP)], state=[("answerChannels", "pending requests", HTTP)], observe=["HTTP responses", "published startRecording messages", "process liveness"])
prop("C34", "The HTTP server hands out recordings and nothing else",
 "With the HTTP server enabled, GET /media/<path> gives exactly the bytes of the file of that path under the recorder directory (ranges included) and GET / the recorder's web page. No request, however its path is spelled and whatever its method, reveals a file outside the recorder directory, changes anything on disk or ends the process.",
 ["inputs", "configurations"], "for every tree of files, every spelling of the directory in the configuration and every request",
 "No test starts the HTTP server.",
 [HTTP], [("serve", HTTP), ("mediaRoot", HTTP)], observe=["HTTP responses", "files on disk"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
