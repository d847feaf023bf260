"""What is claimed: one entry per property."""
CHECKS = {}


def c(pid, pkg, technique, rule, note, level="exploration", **kw):
    if not kw.get("binary"):
        kw = dict(dict(shards={"quick": 8, "thorough": 8}, scale={"quick": 12}), **kw)
    CHECKS[pid] = dict(pkg=pkg, technique=technique, rule=rule, note=note, level=level, **kw)


c("C21", "hutils", "property-based testing: stateful sequences vs. an arithmetic reference",
  "Random streams of positions (reordering below half the number space, jumps, duplicates) in 3- to 32-bit number spaces; non-trivial = the stream wraps around at least once.",
  "Random exploration of the real unwrapper against exact arithmetic; nothing is assumed beyond the generator's reordering bound.")
c("C22", "hutils", "model-based property testing in virtual time (synctest)",
  "Random histories of add/next/wait/skip on the real jitter buffer with a virtual clock, judged by an observable-behaviour model; non-trivial = something was reordered, timed out or slid out of the window.",
  "Exploration; the clock is Go's testing/synctest. The unwrapped number is carried in the packet's timestamp field.")
c("C23", "hutils", "model-based property testing vs. a set model",
  "Random add/ignore histories with gaps, late packets, jumps and wrap-around vs. a set of received numbers; non-trivial = something is missing and a late packet or a window slide occurs.",
  "Exploration against a set model.")
c("C24", "hutils", "property-based round-trip testing with an independent RFC 4585 decoder",
  "Random ordered lists of missing numbers, encoded, decoded by an independent decoder and by the wire format; non-trivial = at least two numbers.",
  "Exploration; minimality judged by the greedy bound.")
c("C25", "hutils", "model-based property testing vs. a map model",
  "Random add histories with gaps, late packets and wrap-around vs. a map; non-trivial = more than three packets.",
  "Exploration against a map model.")

VID = "Random VP8 streams (frame sizes, packetisation, partitions, padding, picture-id forms, counters near wrap-around) with packets lost (single, head, tail, whole frames), signalled or not, with and without audio, pushed through the real recorder in virtual time; "
c("C10", "hrec", "property-based testing: generated VP8 streams vs. an independent WebM parser and the sent frames", VID + "non-trivial = something was recorded and, in the facets with loss, something was lost.",
  "Random exploration; frames of at least 10 bytes with dimensions 16-8192, as the recorder accepts.")
c("C11", "hrec", "property-based testing: generated VP8 streams vs. a reference model of what must be recorded", VID + "non-trivial = something was recorded and, in the facets with loss, something was lost.",
  "Random exploration against a reference model with three classes (must, must not, may).")
c("C12", "hrec", "property-based testing: generated VP8 streams vs. a reference model of decodability", VID + "non-trivial = something was recorded and, in the facets with loss, something was lost.",
  "Random exploration against a reference model.")
c("C13", "hrec", "property-based testing: presentation times vs. RTP arithmetic", VID + "non-trivial = something was recorded and, in the facets with loss, something was lost.",
  "Random exploration; streams of up to 40000 frames.")

c("C14", "hrec", "property-based testing: generated Opus streams vs. an independent WebM parser and RTP arithmetic",
  "Random Opus streams (spacing, pauses, counters near wrap-around) in order, reordered, duplicated, with loss, alone or beside video; non-trivial = at least two audio blocks recorded.",
  "Random exploration; reordering stays below half the audio queue.")
c("C17", "hrec", "differential property-based testing: IVF copy vs. WebM recording",
  VID + "both samplers; non-trivial = at least two frames in the copy.", "Random exploration.")
c("C18", "hrec", "property-based testing in virtual time: keyframe request log vs. a model of the need",
  VID + "non-trivial = the model says that a keyframe was needed at some point.", "Random exploration under a virtual clock (synctest).")
c("C19", "hrec", "property-based testing: generated VP8 streams through the alternative sampler vs. the sent frames",
  VID + "also reordered and duplicated; non-trivial = at least two frames recorded.", "Random exploration; frames must be present without loss, except the last one.")

c("C15", "hrec", "structured fuzzing of RTP packets (grammar + truncation) with a recovery oracle",
  "Random packets from a grammar of VP8 payload descriptors (truncated anywhere), arbitrary bytes, sequence numbers, timestamps, markers, header oddities and skip reports, before and after clean streams, both samplers; every case contains garbage and is counted as non-trivial.",
  "Random exploration; a panic in any goroutine of the code under test is a violation.")
c("C16", "hrec", "property-based testing with crash-point enumeration (file snapshot after every push, random cuts)",
  VID + "also audio only and both samplers, with a snapshot of the file after every packet; non-trivial = more than two blocks in the finished file.",
  "Crash points are the states after every packet and, when the file is append-only in the case at hand, random byte positions.")

STORE = "Random directory trees, umasks, configurations and histories (start, media, close, someone else's files and directories) with file names from a grammar (dot-dot, absolute, empty parts, over-long, NUL, unusual characters, wrong extensions), after every step the whole tree around the recording directory is compared with a path and mode model; non-trivial = more than one step."
c("C07", "hrec", "model-based property testing: histories of recordings vs. a path model, tree compared after every step", STORE, "Random exploration, as an unprivileged user in a scratch tree; the recording directory lies four levels deep so that no name leaves the scratch tree.")
c("C08", ("hrec", "he2e"), "model-based property testing: colliding recordings vs. a model, tree compared after every step", STORE, "Random exploration of histories on the recorder; the refusal of a second active session for the same path is checked end to end.", binary=True, shards={"quick": 8, "thorough": 8}, scale={})
c("C09", "hrec", "model-based property testing: modes and refusals vs. a model, tree compared after every step", STORE, "Random exploration; octal mode strings with a leading 0 or 0o.")
c("C20", "hrec", "property-based fault injection: storage failures of one of two recordings at random points",
  "Two recordings side by side; the first one's directory is removed, made read-only or replaced, descriptors run out, or the file size is limited, at a random step; non-trivial = the fault happened during the recording.",
  "Random exploration with real file system errors, in virtual time (a stall is a deadlock); disk-full is represented by the file size limit.")
c("C26", "hevents", "property-based testing: generated JSON5 spellings, grammar and mutation fuzzing, round trips vs. encoding/json",
  "Random messages rendered in random JSON5 spellings; arbitrary, wrongly typed, deeply nested and mutated messages; every constructor; non-trivial = a spelling that is not plain JSON, any garbage, any message with a session id.",
  "Random exploration against the drawn values and, for strict JSON, encoding/json.")

E2E = dict(binary=True, shards={"quick": 6, "thorough": 8})
SLOW = dict(binary=True, shards={"quick": 16, "thorough": 16})
HIST = "Random histories of control messages (good, invalid, repeated and hostile starts, stops, status requests, garbage, several at once) and events (media, peers going away) against the real binary through a fake Redis, with WebRTC peers that send video and audio; "
c("C01", "he2e", "model-based property testing: histories of control messages against the real binary vs. a session model", HIST + "non-trivial = a start was accepted and another was refused.",
  "Random exploration in real time with patience of 20 s.", **E2E)
c("C02", "he2e", "model-based property testing: histories of control messages against the real binary vs. a session model", HIST + "non-trivial = a recorded frame was judged.",
  "Random exploration in real time with patience of 20 s; stale connections are watched for 8 s.", **SLOW)
c("C03", "he2e", "model-based property testing: histories of control messages against the real binary vs. a session model", HIST + "every file is copied at the moment recordingStopped is published; non-trivial = a recorded frame was judged.",
  "Random exploration in real time; silence is watched for up to 8 s.", **SLOW)
c("C04", "he2e", "fuzzing of control messages and session descriptions against the real binary with live recordings", HIST + "non-trivial = hostile messages were sent and a start was accepted.",
  "Random exploration; messages of up to 8 MB and 5 million brackets.", **E2E)
c("C05", "he2e", "model-based property testing: status requests among other traffic against the real binary", HIST + "non-trivial = status was requested at least twice.",
  "Random exploration.", **E2E)
c("C06", "he2e", "model-based property testing: the metric after every step of a history vs. a session model", HIST + "non-trivial = the number of sessions changed at least twice.",
  "Random exploration; the gauge is read from the metrics endpoint.", **SLOW)
c("C27", "he2e", "property-based testing: generated configuration files and environments vs. a precedence model (--dump, effects, SIGHUP)",
  "Random subsets of the settings with random values in file (YAML or JSON) and environment, dumped by group, setting or unknown path; running recorders whose settings come from either or both sources; sequences of reloads with good and faulty files beside a recording that goes on; non-trivial = something is given, or the recorder ran.",
  "Random exploration; octal modes are quoted in YAML files; strings are not empty or padded with blanks; on reload the recorder's own settings are judged.", **SLOW)
c("C28", "he2e", "property-based testing: generated message streams and fragmentations through a fake Redis vs. the sent sequence; fault injection on the connection",
  "Random streams of messages (awkward session ids, up to 4 MB, several in one segment, cut anywhere) to the configured channel and to others with similar or pattern-like names, with and without password and HTTP bridge; lost connections; silence; non-trivial = at least two messages were to be answered (or the connection was lost, or the silence passed).",
  "Random exploration; the content of messages is judged by the session ids that come back, valid UTF-8 only; a silence of 75 s or more is waited for once per shard.", **SLOW)
c("C29", "he2e", "property-based testing: generated media through a generated bad network into the real binary vs. the sent frames",
  "One to four sessions in one process, each with a WebRTC peer whose VP8 and Opus packets are lost (and retransmitted upon the n-th request, or never), overtaken and duplicated as drawn, across sequence and timestamp wrap-around, with varying payload types and offers; non-trivial = at least one packet was impaired.",
  "Random exploration in real time over the loopback interface; a failing case must fail three times, and cases during which the machine stood still or dropped packets are inconclusive.", **SLOW)
c("C30", "he2e", "property-based testing: generated loss patterns into the real binary vs. the RTCP that comes back",
  "The sessions of C29, judged by the requests that the peer receives: every packet that stays missing while newer ones arrive is asked for in time and again, none that was delivered in its turn or never sent, none long after it came; and sessions of several seconds whose video becomes unusable by loss or starts without a keyframe, judged by the picture loss indications; non-trivial = at least one packet was impaired, or video was unusable for a while.",
  "Random exploration in real time over the loopback interface; deadlines of 600 ms and 1.5 s where the code takes 40 ms and 1 s; a failing case must fail three times, and cases during which the machine stood still or dropped packets are inconclusive. Video requests are masked by the WebRTC library's own, sent every 100 ms.", **SLOW)
c("C31", "he2e", "property-based testing: generated media bursts and pauses into the real binary vs. a model of its status messages",
  "Three to eight sessions side by side of some ten seconds each, with one track or two, whose media comes in bursts of one packet to several seconds with breaks and pauses between; judged by the order, the times and the media times of the status messages; non-trivial = media paused for longer than the recorder may need to notice.",
  "Random exploration in real time over the loopback interface; breaks up to 0.75 s must not be reported, pauses from 2.6 s on must be, those between may be; of sessions with two tracks, whose messages do not say which track they are about, only the counts are judged. A failing case must fail three times, and cases during which the machine stood still are inconclusive.", **SLOW)
c("C32", "he2e", "property-based testing: generated rooms, tracks and media through a fake LiveKit server into the real binary vs. what was asked for and sent",
  "A fake LiveKit server (signalling and WebRTC) with generated rooms: participants, published tracks, rooms that do not let the recorder in; one to four sessions at once that record one or two of the tracks, with reordered, duplicated, lost and retransmitted packets, ended by stopRecording or by the server; and sessions of several seconds judged by their status messages and their requests for packets and keyframes; non-trivial = the room has other tracks than the requested ones, or a packet was impaired.",
  "Random exploration in real time over the loopback interface; streams advance steadily (the client library's jitter buffer may discard what is stuck behind a gap when time jumps). A failing case must fail three times, and cases during which the machine stood still or dropped packets are inconclusive.", **SLOW)
c("C33", "he2e", "property-based testing: generated histories of requests and answers vs. a model, through the real HTTP server and a fake Redis",
  "Random histories of posts (several at once, alike, large), answers in any order (good, failed, without SDP, repeated, to requests given up), foreign and malformed messages and requests to be refused; and real offers posted at once beside sessions started over Redis, whose media must be in the right files; non-trivial = several requests were in flight together.",
  "Random exploration; bodies are valid UTF-8; a malformed answer to a pending request is not judged.", **SLOW)
c("C34", "he2e", "property-based testing: generated files and raw HTTP requests vs. the files on disk",
  "Random trees of recordings with awkward names, beside files that are nobody's business, and random requests on the wire: for the files (spelled in several ways, with ranges, with other methods) and with every kind of path traversal; non-trivial = at least one traversal was tried.",
  "Random exploration; symbolic links within the recorder directory are out of scope, files called index.html are not asked for by name.", **SLOW)
