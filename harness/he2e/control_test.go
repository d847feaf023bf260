package he2e

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"github.com/pion/webrtc/v3"
)

// ------------------------------------------------------------ histories

// op is one step of a history of control messages and events.
type op struct {
	K   string // start stop status media close garbage pause
	S   int    `json:",omitempty"` // index of the session id
	V   string `json:",omitempty"` // variant of a start
	F   string `json:",omitempty"` // file name
	M   int    `json:",omitempty"` // media: 0 video, 1 audio, 2 both
	N   int    `json:",omitempty"` // frames, milliseconds
	B   []byte `json:",omitempty"` // raw message
	Go  bool   `json:",omitempty"` // do not wait for the outcome
	SDP string `json:",omitempty"`
}

type histCase struct {
	Ids   []string
	Ops   []op
	Quiet int // milliseconds to watch afterwards
}

var validStarts = []string{"new", "legacy", "noadapter", "legacy-noadapter", "both", "extra"}
var failStarts = []string{"unknown", "nosdp", "nosdp-noadapter", "notbase64", "notjson", "emptysdp", "garbagesdp", "answer", "lk-noroom", "lk-notracks", "lk-noconfig", "lk-unreachable", "odd", "odd"}

var goodFiles = []string{"a.webm", "b.webm", "c.webm", "sub/a.webm", "sub/deep/x.webm", "./a.webm", "sub/../b.webm", "ü ñ.webm", "a b'\"c.webm", ".webm", "d.webm", "e.webm", "f.webm", "/g.webm"}
var badFiles = []string{"../x.webm", "x.mp4", "", "sub/../../x.webm", "x", "x.webm.tmp", "/../../x.webm", "..",
	strings.Repeat("n", 251) + ".webm", "sub/" + strings.Repeat("ü", 126) + ".webm", strings.Repeat("p", 256) + "/x.webm", "sub/a\x00b.webm", strings.Repeat("long/", 820) + "x.webm"}

type histOpts struct {
	ops    int
	files  []string // instead of goodFiles
	kinds  []string // weights by repetition
	quiet  int
	slowCl bool // peers that go away without media
}

func genHist(o histOpts) func(t *rapid.T) histCase {
	return func(t *rapid.T) histCase {
		c := histCase{Quiet: o.quiet}
		files := o.files
		if files == nil {
			files = goodFiles
		}
		pool := []string{"s1", "rec-2b1f", "日本 \"x\"", strings.Repeat("i", 300), "A", "a", "s1 ", "0", "<&>", "null"}
		n := rapid.IntRange(1, 3).Draw(t, "ids")
		c.Ids = rapid.Permutation(pool).Draw(t, "pool")[:n]
		open := map[int]bool{}
		hasMedia := map[int]bool{}
		k := rapid.IntRange(2, o.ops).Draw(t, "ops")
		for i := 0; i < k; i++ {
			x := op{K: rapid.SampledFrom(o.kinds).Draw(t, "kind"), S: rapid.IntRange(0, n-1).Draw(t, "session"), Go: rapid.IntRange(0, 2).Draw(t, "nowait") == 0}
			if (x.K == "media" || x.K == "close") && !open[x.S] {
				// mostly where there is a session
				for j := 0; j < n; j++ {
					if open[j] {
						x.S = j
					}
				}
				if !open[x.S] {
					x.K = "start"
				}
			}
			switch x.K {
			case "stop":
				open[x.S] = false
			case "start":
				x.M = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "media")
				x.V = rapid.SampledFrom(validStarts).Draw(t, "valid start")
				x.F = rapid.SampledFrom(files).Draw(t, "file")
				flaw := rapid.IntRange(0, 9).Draw(t, "flaw")
				if o.files != nil {
					flaw = 9
				}
				switch flaw {
				case 0:
					x.F = rapid.SampledFrom(badFiles).Draw(t, "bad file")
				case 1, 2:
					x.V = rapid.SampledFrom(failStarts).Draw(t, "invalid start")
					if x.V == "odd" {
						x.B = genOdd(t)
					}
				}
				good := inside(x.F)
				for _, v := range failStarts {
					good = good && v != x.V
				}
				if !open[x.S] && good {
					open[x.S] = true
					hasMedia[x.S] = false
				}
			case "media":
				x.N = rapid.IntRange(1, 25).Draw(t, "frames")
				hasMedia[x.S] = true
			case "close":
				if !hasMedia[x.S] && !o.slowCl {
					c.Ops = append(c.Ops, op{K: "media", S: x.S, N: 3})
				}
				open[x.S] = false
			case "foreign":
				x.F = rapid.SampledFrom(files).Draw(t, "file")
				x.M = rapid.IntRange(0, 1).Draw(t, "directory")
				x.N = rapid.IntRange(0, 30).Draw(t, "size")
			case "pause":
				x.N = rapid.IntRange(1, 150).Draw(t, "ms")
			case "garbage":
				x.B = genGarbage(t, c.Ids[x.S])
				if rapid.IntRange(0, 3).Draw(t, "hostile sdp") == 0 {
					x = op{K: "hostile", S: x.S, SDP: genSDP(t), F: "hostile.webm"}
				}
			}
			c.Ops = append(c.Ops, x)
		}
		return c
	}
}

// genOdd draws the rest of a start message, well-typed, but without any usable
// session description or room.
func genOdd(t *rapid.T) []byte {
	m := M{}
	part := func(in M, key string, vals ...any) {
		if v := rapid.SampledFrom(append(vals, "ABSENT")).Draw(t, key); v != "ABSENT" {
			in[key] = v
		}
	}
	part(m, "adapter", "mediasoup", "livekit", "livekit", "", nil, "x", "Mediasoup")
	part(m, "sdp", "", nil, "x", b64(M{"type": "offer"}))
	if rapid.IntRange(0, 3).Draw(t, "options") > 0 {
		o := M{}
		part(o, "mediasoup", nil, M{}, M{"sdp": ""}, M{"sdp": nil}, M{"sdp": "x"}, M{"sdp": b64(nil)}, M{"sdp": b64([]int{})})
		part(o, "livekit", nil, M{}, M{"room": "r"}, M{"room": "", "trackIds": nil}, M{"trackIds": []string{"a", "b"}}, M{"room": "r", "trackIds": []string{""}}, M{"room": "r", "trackIds": []any{"a", nil}})
		m["adapterOptions"] = o
	} else {
		part(m, "adapterOptions", nil, M{}, M{"x": 1})
	}
	b, _ := json.Marshal(m)
	return b
}

// genGarbage draws a message that asks for nothing.
func genGarbage(t *rapid.T, id string) []byte {
	q, _ := json.Marshal(id)
	s := rapid.SampledFrom([]string{
		"", " ", "{", "}", "[]", "null", "1", "\"startRecording\"", "{}", "{id:null}", "{id:1}", "{id:['startRecording']}", "{\"id\":\"\"}",
		"{id:'startRecording'", "{id:'startRecording',recordingSessionId:1}", "{id:'startRecording',adapterOptions:'x'}", "{id:'startRecording',adapterOptions:{mediasoup:[]}}",
		"{id:'stopRecording',recordingSessionId:{}}", "{id:'stopRecording',recordingSessionId:null}", "{id:'startRecordingResponse',recordingSessionId:ID,status:'ok'}",
		"{id:'recordingStopped',recordingSessionId:ID}", "{id:'recorderStatus'}", "{id:'recordingRtpStatusChanged',recordingSessionId:ID,timestampUTC:5}",
		"{id:'unknown',recordingSessionId:ID}", "{ID:'stopRecordin',recordingSessionId:ID}", "{id:'STOPRECORDING',recordingSessionId:ID}", "{x:{id:'stopRecording',recordingSessionId:ID}}",
		"[{id:'stopRecording',recordingSessionId:ID}]", "\xff\xfe\x00", "{id:'getRecorderStatus'", "{id:'stopRecording' recordingSessionId:ID}", "DEEP", "DEEP2", "HUGE", "HUGESTRING",
		"{id:'stopRecording',recordingSessionId:'no such session'}", "{id:'stopRecording'}", "{\"id\":\"stopRecording\",\"recordingSessionId\":\"\\ud800\"}", "/*", "//", "{id:'getRecorderStatus',}}",
	}).Draw(t, "garbage")
	switch s {
	case "DEEP":
		return bytes.Repeat([]byte("["), rapid.SampledFrom([]int{100, 50000, 99999, 5000000}).Draw(t, "depth"))
	case "DEEP2":
		return []byte("{id:'startRecording',adapterOptions:" + strings.Repeat("{mediasoup:", rapid.SampledFrom([]int{100, 40000, 1000000}).Draw(t, "depth")))
	case "HUGE":
		return bytes.Repeat([]byte{byte(rapid.IntRange(0, 255).Draw(t, "byte"))}, 8<<20)
	case "HUGESTRING":
		return []byte("{id:'other',x:'" + strings.Repeat("y", 8<<20) + "'}")
	}
	if rapid.IntRange(0, 4).Draw(t, "random") == 0 {
		return rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
	}
	return []byte(strings.ReplaceAll(s, "ID", string(q)))
}

var sdpLines = strings.Split(`v=0
o=- 4979 1795 IN IP4 0.0.0.0
s=-
t=0 0
a=fingerprint:sha-256 CF:21:79:6E:21:C8:8B:CE:FB:EC:6C:B6:80:3F:20:E3:11:51:DF:46:F0:C5:69:5C:85:CF:3A:AF:9A:08:21:ED
a=extmap-allow-mixed
a=group:BUNDLE 0 1
m=video 9 UDP/TLS/RTP/SAVPF 96
c=IN IP4 0.0.0.0
a=setup:actpass
a=mid:0
a=ice-ufrag:xrQftHcrhbHOzKtQ
a=ice-pwd:VUjgqnaRXubhNQUdLWKNWmRBpZoTXrgl
a=rtcp-mux
a=rtpmap:96 VP8/90000
a=rtcp-fb:96 nack
a=ssrc:1675928452 cname:x
a=sendrecv
a=candidate:2070692838 1 udp 2130706431 127.0.0.1 9 typ host
a=end-of-candidates
m=audio 9 UDP/TLS/RTP/SAVPF 111
c=IN IP4 0.0.0.0
a=setup:active
a=mid:1
a=ice-ufrag:xrQftHcrhbHOzKtQ
a=ice-pwd:VUjgqnaRXubhNQUdLWKNWmRBpZoTXrgl
a=rtpmap:111 opus/48000/2
a=simulcast:recv a;b
a=rid:a send
a=sendonly`, "\n")

// genSDP draws a session description with lines missing, repeated, reordered
// and damaged.
func genSDP(t *rapid.T) string {
	lines := append([]string(nil), sdpLines...)
	for i := rapid.IntRange(0, 6).Draw(t, "damages"); i > 0; i-- {
		p := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
		switch rapid.IntRange(0, 5).Draw(t, "damage") {
		case 0:
			if len(lines) > 1 {
				lines = append(lines[:p:p], lines[p+1:]...)
			}
		case 1:
			lines = append(lines[:p:p], append([]string{lines[p]}, lines[p:]...)...)
		case 2:
			q := rapid.IntRange(0, len(lines)-1).Draw(t, "other line")
			lines[p], lines[q] = lines[q], lines[p]
		case 3:
			if l := lines[p]; len(l) > 0 {
				lines[p] = l[:rapid.IntRange(0, len(l)-1).Draw(t, "cut")]
			}
		case 4:
			if l := lines[p]; len(l) > 0 {
				j := rapid.IntRange(0, len(l)-1).Draw(t, "at")
				lines[p] = l[:j] + rapid.SampledFrom([]string{"0", "-1", " ", "99999999999", "x", ":", "/", "\x00", "é", ""}).Draw(t, "with") + l[j+1:]
			}
		case 5:
			lines = lines[:p+1]
		}
	}
	return strings.Join(lines, rapid.SampledFrom([]string{"\r\n", "\r\n", "\n"}).Draw(t, "eol")) + "\r\n"
}

// ------------------------------------------------------------ the model

// live is a session that the model takes to be active.
type live struct {
	sid     string
	peer    *Peer
	legacy  bool
	kind    int
	file    string
	frames  []media.Frame
	aframes []media.Frame
	pkts    []media.Pkt
	apkts   []media.Pkt
	nextP   int // next video packet
	sentF   int // frames sent
	sentA   int
	warm    int // frames sent before the recorder was known to receive
	sure    int // frames known to be recorded
	closing bool
	joined  bool
	first   int // the message that said ok
	ended   bool
	end     Event
	nEnd    int // which recordingStopped of its session id
}

// want is a message that has to come.
type want struct {
	id   string // startRecordingResponse or recordingStopped
	out  string // ok, failed, any; stopped, gone, either
	why  string // further properties at stake
	l    *live
	step int
}

type snapT struct {
	path string
	data []byte
	n    int
}

type hist struct {
	c        histCase
	r        *core.Rec
	p        *Proc
	prop     string
	act      map[string]*live
	wants    map[string][]want // by session id, in order
	order    []string
	statuses int
	gauge    int
	seen     int
	sent     time.Time // earliest unanswered status request
	peers    []*Peer
	used     map[string]bool // paths
	ended    []*live
	inst     string
	active   map[string]bool // as announced
	mu       sync.Mutex
	snaps    map[string][]snapT
	files    map[string]string
	nEnds    map[string]int
	foreign  map[string][]byte

	// what happened, for the rule of non-triviality
	nOk, nFailed, nCollide, nStatus, nGarbage, nFrames, nMoves int
}

// fail is a failure that concerns the given properties only.
func (h *hist) fail(props, f string, a ...any) error {
	if !strings.Contains(props, h.prop) {
		h.r.Label("(other property) " + props)
		fmt.Printf("other property %s: %s\n", props, fmt.Sprintf(f, a...))
		return nil
	}
	return fmt.Errorf(f, a...)
}

func inside(f string) bool {
	c := filepath.Clean(filepath.Join("/x/y", f))
	for _, p := range strings.Split(c, "/") {
		if len(p) > 255 {
			return false // no file can have that name
		}
	}
	if len(c) > 4000 || strings.Contains(c, "\x00") {
		return false
	}
	return strings.HasPrefix(c, "/x/y/") && strings.HasSuffix(c, ".webm")
}

func b64(v any) string {
	b, _ := json.Marshal(v)
	return base64.StdEncoding.EncodeToString(b)
}

func runHist(prop string) func(c histCase, r *core.Rec) error {
	return func(c histCase, r *core.Rec) error {
		h := &hist{c: c, r: r, prop: prop, act: map[string]*live{}, wants: map[string][]want{}, used: map[string]bool{},
			active: map[string]bool{}, snaps: map[string][]snapT{}, files: map[string]string{}, nEnds: map[string]int{}, foreign: map[string][]byte{}}
		return h.run()
	}
}

func (h *hist) run() error {
	defer func() {
		for _, p := range h.peers {
			p.Close()
		}
	}()
	red := NewRedis("")
	defer red.Close()
	red.OnPublish = func(m Msg) {
		e := decode(m)
		sid := e.S("recordingSessionId")
		h.mu.Lock()
		defer h.mu.Unlock()
		switch {
		case e.S("id") == "startRecordingResponse" && e.S("status") == "ok":
			h.files[sid] = e.S("fileName")
		case e.S("id") == "recordingStopped":
			b, _ := os.ReadFile(h.files[sid])
			h.snaps[sid] = append(h.snaps[sid], snapT{path: h.files[sid], data: b})
		}
	}
	h.statuses = 1
	h.sent = time.Now()
	h.p = MustStart(Opts{Redis: red, Prom: true, Config: M{"livekit": M{"host": "ws://127.0.0.1:9"}}})
	defer h.p.Stop()
	for i, x := range h.c.Ops {
		if err := h.do(i, x); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, x.K, err)
		}
		if !x.Go {
			if err := h.settle(); err != nil {
				return fmt.Errorf("after step %d (%s): %w", i, x.K, err)
			}
		}
	}
	if err := h.settle(); err != nil {
		return fmt.Errorf("after the last step: %w", err)
	}
	for _, id := range h.c.Ids {
		h.stop(id)
	}
	if err := h.settle(); err != nil {
		return fmt.Errorf("after stopping everything: %w", err)
	}
	for _, p := range h.peers {
		p.Close()
	}
	time.Sleep(time.Duration(h.c.Quiet) * time.Millisecond)
	if err := h.settle(); err != nil {
		return fmt.Errorf("%d ms after everything was stopped: %w", h.c.Quiet, err)
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	for id, l := range h.snaps {
		for i, s := range l {
			if len(s.data) == 0 && h.reused(id, i, s.path) {
				continue
			}
			if now, _ := os.ReadFile(s.path); s.path != "" && !bytes.Equal(now, s.data) {
				if e := h.fail("C03 C08", "%s had %d bytes when recordingStopped of session %q was published, it has %d bytes now", s.path, len(s.data), id, len(now)); e != nil {
					return e
				}
			}
		}
	}
	for path, data := range h.foreign {
		if now, err := os.ReadFile(path); !bytes.Equal(now, data) {
			if e := h.fail("C08", "%s, which is no recording, had %d bytes, it has %d bytes now (%v)", path, len(data), len(now), err); e != nil {
				return e
			}
		}
	}
	for _, l := range h.ended {
		if err := h.judgeFile(l); err != nil {
			return err
		}
	}
	switch h.prop {
	case "C01":
		h.r.NonTrivialIf(h.nOk > 0 && h.nFailed > 0)
	case "C08":
		h.r.NonTrivialIf(h.nCollide > 0)
	case "C02", "C03":
		h.r.NonTrivialIf(h.nFrames > 0)
	case "C04":
		h.r.NonTrivialIf(h.nOk > 0 && h.nGarbage > 0)
	case "C05":
		h.r.NonTrivialIf(h.nStatus > 1)
	case "C06":
		h.r.NonTrivialIf(h.nMoves > 1)
	}
	return nil
}

// reused: another recording into that path was possible, as there was none.
func (h *hist) reused(id string, n int, path string) bool {
	c := 0
	for _, l := range h.ended {
		if l.file == path {
			c++
		}
	}
	return c > 1
}

func (h *hist) do(i int, x op) error {
	sid := h.c.Ids[x.S%len(h.c.Ids)]
	switch x.K {
	case "start":
		return h.start(i, x, sid)
	case "hostile":
		if err := h.settle(); err != nil || h.act[sid] != nil {
			return err
		}
		h.r.Label("hostile sdp")
		h.nGarbage++
		f := fmt.Sprintf("hostile%d.webm", i)
		l := &live{sid: sid, file: filepath.Join(h.p.Dir, f), kind: -1}
		h.p.Send(M{"id": "startRecording", "recordingSessionId": sid, "fileName": f, "adapter": "mediasoup", "sdp": b64(M{"type": "offer", "sdp": x.SDP})})
		h.act[sid] = l
		h.want(sid, want{id: "startRecordingResponse", out: "any", l: l, step: i})
		return h.settle()
	case "stop":
		h.stop(sid)
	case "status":
		h.p.Redis.Send(h.p.sub, []byte([]string{`{"id":"getRecorderStatus"}`, `{id:'getRecorderStatus', x: 1,}`, "{ // who?\n\"id\": 'getRecorderStatus' }"}[i%3]), 7)
		h.statuses++
		h.nStatus++
		h.p.Asked++
	case "garbage":
		h.r.Label("garbage message")
		h.nGarbage++
		h.p.Redis.Send(h.p.sub, x.B)
	case "foreign": // somebody else's file or directory
		if err := h.settle(); err != nil {
			return err
		}
		path := filepath.Clean(filepath.Join(h.p.Dir, x.F))
		if _, err := os.Lstat(path); err == nil || h.used[path] {
			return nil
		}
		h.r.Label("foreign file")
		os.MkdirAll(filepath.Dir(path), 0o777)
		os.Chmod(filepath.Dir(path), 0o777)
		data := bytes.Repeat([]byte("someone else's"), x.N)
		if x.M == 1 {
			os.Mkdir(path, 0o777)
		} else {
			os.WriteFile(path, data, 0o666)
			h.foreign[path] = data
		}
	case "pause":
		time.Sleep(time.Duration(x.N) * time.Millisecond)
	case "media":
		if err := h.settle(); err != nil {
			return err
		}
		if l := h.act[sid]; l != nil && l.joined && !l.closing {
			return h.media(l, x.N, !x.Go)
		}
	case "close":
		if err := h.settle(); err != nil {
			return err
		}
		if l := h.act[sid]; l != nil && l.joined && !l.closing {
			h.r.Label("peer goes away")
			l.closing = true
			l.peer.Close()
			h.want(sid, want{id: "recordingStopped", out: "gone", l: l, step: i})
		}
	}
	return nil
}

func (h *hist) want(sid string, w want) { h.wants[sid] = append(h.wants[sid], w) }

func (h *hist) stop(sid string) {
	h.p.Send(M{"id": "stopRecording", "recordingSessionId": sid})
	l := h.act[sid]
	switch {
	case l == nil:
		h.r.Label("stop without session")
	case l.closing:
		h.r.Label("stop and peer going away at once")
		for i, w := range h.wants[sid] {
			if w.l == l && w.id == "recordingStopped" {
				h.wants[sid][i].out = "either"
			}
		}
	default:
		h.want(sid, want{id: "recordingStopped", out: "stopped", l: l})
		delete(h.act, sid)
	}
}

func (h *hist) start(i int, x op, sid string) error {
	for _, l := range h.act {
		if l.closing {
			if err := h.settle(); err != nil {
				return err
			}
		}
	}
	path := filepath.Clean(filepath.Join(h.p.Dir, x.F))
	if h.used[path] {
		if err := h.settle(); err != nil {
			return err
		}
	}
	m := M{"id": "startRecording", "recordingSessionId": sid, "fileName": x.F}
	valid := false
	for _, v := range validStarts {
		valid = valid || v == x.V
	}
	l := &live{sid: sid, kind: x.M, file: path}
	offer := ""
	if valid || x.V == "unknown" || x.V == "answer" {
		l.peer = NewPeer(x.M != 1, x.M != 0)
		h.peers = append(h.peers, l.peer)
		offer = l.peer.Offer
	}
	opt := func(s string) M { return M{"mediasoup": M{"sdp": s}} }
	switch x.V {
	case "new":
		m["adapter"], m["adapterOptions"] = "mediasoup", opt(offer)
	case "legacy":
		m["adapter"], m["sdp"] = "mediasoup", offer
	case "noadapter":
		m["adapterOptions"] = opt(offer)
	case "legacy-noadapter":
		m["sdp"] = offer
	case "both": // the newer field wins
		m["adapter"], m["adapterOptions"], m["sdp"] = "mediasoup", opt(offer), b64(M{"type": "offer", "sdp": "nonsense"})
	case "extra":
		m["adapter"], m["adapterOptions"], m["whatever"] = "mediasoup", M{"mediasoup": M{"sdp": offer, "x": 1}, "livekit": nil, "y": []int{1}}, M{"z": nil}
	case "unknown":
		m["adapter"], m["adapterOptions"] = "janus", opt(offer)
	case "odd":
		json.Unmarshal(x.B, &m)
	case "nosdp":
		m["adapter"], m["adapterOptions"] = "mediasoup", M{}
	case "nosdp-noadapter":
	case "notbase64":
		m["adapter"], m["sdp"] = "mediasoup", "v=0\r\n%%%"
	case "notjson":
		m["adapter"], m["sdp"] = "mediasoup", base64.StdEncoding.EncodeToString([]byte("v=0"))
	case "emptysdp":
		m["adapter"], m["sdp"] = "mediasoup", b64(M{"type": "offer", "sdp": ""})
	case "garbagesdp":
		m["adapter"], m["sdp"] = "mediasoup", b64(M{"type": "offer", "sdp": "v=0\r\nm=nonsense\r\n"})
	case "answer":
		var d webrtc.SessionDescription
		b, _ := base64.StdEncoding.DecodeString(offer)
		json.Unmarshal(b, &d)
		m["adapter"], m["sdp"] = "mediasoup", b64(M{"type": "answer", "sdp": d.SDP})
	case "lk-noroom":
		m["adapter"], m["adapterOptions"] = "livekit", M{"livekit": M{"trackIds": []string{"a"}}}
	case "lk-notracks":
		m["adapter"], m["adapterOptions"] = "livekit", M{"livekit": M{"room": "r", "trackIds": []string{}}}
	case "lk-noconfig":
		m["adapter"], m["sdp"] = "livekit", "x"
	case "lk-unreachable":
		m["adapter"], m["adapterOptions"] = "livekit", M{"livekit": M{"room": "r", "trackIds": []string{"a"}}}
	}
	w := want{id: "startRecordingResponse", out: "failed", step: i, l: l}
	_, err := os.Lstat(path)
	inUse := false
	for _, o := range h.act {
		inUse = inUse || o.file == path
	}
	switch {
	case h.act[sid] != nil:
		h.r.Label("start of an active session")
	case !valid:
		h.r.Label("start that must fail")
	case !inside(x.F):
		h.r.Label("bad file name")
	case err == nil:
		h.r.Label("existing file")
		w.why = " C08"
		h.nCollide++
	case inUse:
		h.r.Label("file in use")
		w.why = " C08"
		h.nCollide++
	default:
		h.r.Label("good start")
		w.out = "ok"
		h.act[sid] = l
		h.used[path] = true
	}
	h.want(sid, w)
	h.p.Send(m)
	return nil
}

// settle waits for everything that has to come and judges what has.
func (h *hist) settle() error {
	if err := h.barrier(); err != nil {
		return err
	}
	counts := func(ms []Msg) map[string]int {
		n := map[string]int{}
		for _, m := range ms[h.seen:] {
			e := decode(m)
			if id := e.S("id"); id == "startRecordingResponse" || id == "recordingStopped" {
				n[e.S("recordingSessionId")]++
			}
		}
		return n
	}
	h.p.Redis.Wait(patience, func(ms []Msg) bool {
		n := counts(ms)
		for sid, w := range h.wants {
			if n[sid] < len(w) {
				return !h.p.Alive()
			}
		}
		return true
	})
	if err := h.p.Died(); err != nil {
		return err
	}
	// what came meanwhile belongs to it, too
	if err := h.barrier(); err != nil {
		return err
	}
	ms := h.p.Redis.Msgs()[h.seen:]
	h.seen += len(ms)
	got := map[string][]Got{}
	status := 0
	for _, m := range ms {
		if m.Channel != h.p.pub {
			if err := h.fail("C01 C28", "published on channel %q: %s", m.Channel, m.Data); err != nil {
				return err
			}
			continue
		}
		e := decode(m)
		sid := e.S("recordingSessionId")
		switch e.S("id") {
		case "startRecordingResponse", "recordingStopped":
			got[sid] = append(got[sid], Got{e, m.At, m.N})
			if e.S("id") == "recordingStopped" {
				h.active[sid] = false
			} else if e.S("status") == "ok" {
				h.active[sid] = true
			}
		case "recordingRtpStatusChanged":
			if !h.active[sid] {
				if err := h.fail("C03", "published about session %q, which has ended: %s", sid, m.Data); err != nil {
					return err
				}
			}
		case "recorderStatus":
			status++
			if err := h.judgeStatus(e, m); err != nil {
				return err
			}
		default:
			if err := h.fail("C01 C26", "published: %s", m.Data); err != nil {
				return err
			}
		}
	}
	if status != h.statuses {
		if err := h.fail("C05", "%d status requests (and announcements) gave %d recorderStatus messages", h.statuses, status); err != nil {
			return err
		}
	}
	h.statuses = 0
	h.sent = time.Now()
	for sid, w := range h.wants {
		if err := h.match(sid, w, got[sid]); err != nil {
			return err
		}
		delete(got, sid)
	}
	h.wants = map[string][]want{}
	for sid, g := range got {
		p := "C01"
		if g[0].S("id") == "recordingStopped" {
			p = "C03"
		}
		if err := h.fail(p, "unexpected message about session %q: %v", sid, g[0].Event); err != nil {
			return err
		}
	}
	// who is active now
	n := len(h.act)
	if n != h.gauge {
		h.gauge = n
		h.nMoves++
	}
	var v float64
	var err error
	for i := 0; i < 100; i++ {
		if v, err = h.p.Gauge(); err != nil {
			return h.fail("C06", "%v", err)
		}
		if v == float64(n) {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if v != float64(n) {
		if e := h.fail("C06", "%d sessions are active, recorder_sessions is %v", n, v); e != nil {
			return e
		}
	}
	// get the new ones connected
	for _, l := range h.act {
		if l.peer != nil && !l.joined {
			if !l.peer.Connected() {
				if e := h.fail("C01 C29", "no connection within %v of the answer for session %q", patience, l.sid); e != nil {
					return e
				}
				return core.Inconcl("no connection")
			}
			l.joined = true
		}
	}
	return nil
}

func (h *hist) barrier() error {
	if h.statuses == 0 {
		h.sent = time.Now()
	}
	h.statuses++
	return h.p.Barrier()
}

func (h *hist) judgeStatus(e Event, m Msg) error {
	if h.inst == "" {
		h.inst = e.S("instanceId")
	}
	switch ts := int64(e.F("timestamp")); {
	case e.S("appVersion") != Version():
		return h.fail("C05", "the version is %q, not %q: %s", e.S("appVersion"), Version(), m.Data)
	case e.S("instanceId") == "" || e.S("instanceId") != h.inst:
		return h.fail("C05", "the instance id is %q, it was %q", e.S("instanceId"), h.inst)
	case ts < h.sent.UnixMilli()-1 || ts > m.At.UnixMilli()+1:
		return h.fail("C05", "the timestamp is %v (%s), requested at %d and received at %d", e["timestamp"], m.Data, h.sent.UnixMilli(), m.At.UnixMilli())
	}
	return nil
}

func (h *hist) match(sid string, w []want, got []Got) error {
	for i, x := range w {
		who := fmt.Sprintf("session %q", sid)
		if i >= len(got) {
			p := "C01 C02"
			if x.id == "recordingStopped" {
				p = "C03"
			}
			if err := h.fail(p, "%s: no %s within %v (expected outcome: %s)\n%s", who, x.id, patience, x.out, h.p.Log()); err != nil {
				return err
			}
			return core.Inconcl("a message is missing")
		}
		g := got[i]
		if g.S("id") != x.id {
			if err := h.fail("C01 C02 C03", "%s: %v was published where %s (%s) was due", who, g.Event, x.id, x.out); err != nil {
				return err
			}
			return core.Inconcl("wrong message")
		}
		if x.id == "startRecordingResponse" {
			if err := h.matchStart(sid, x, g); err != nil {
				return err
			}
			continue
		}
		reason := g.S("reason")
		if reason == "" || x.out == "stopped" && reason != "stopped" || x.out == "gone" && reason == "stopped" {
			if err := h.fail("C03", "%s: the reason is %q, it was %s", who, reason, x.out); err != nil {
				return err
			}
		}
		x.l.ended, x.l.end = true, g.Event
		x.l.nEnd = h.nEnds[sid]
		h.nEnds[sid]++
		if h.act[sid] == x.l {
			delete(h.act, sid)
		}
		if x.l.peer != nil {
			h.ended = append(h.ended, x.l)
		}
	}
	if len(got) > len(w) {
		p := "C01 C02"
		if got[len(w)].S("id") == "recordingStopped" {
			p = "C02 C03"
		}
		if err := h.fail(p, "session %q: one message too many: %v", sid, got[len(w)].Event); err != nil {
			return err
		}
		return core.Inconcl("too many messages")
	}
	return nil
}

func (h *hist) matchStart(sid string, x want, g Got) error {
	st := g.S("status")
	out := x.out
	if out == "any" {
		out = st
		h.r.Label("hostile sdp " + st)
		if st == "failed" && h.act[sid] == x.l {
			delete(h.act, sid)
		}
	}
	if st != out {
		props := "C01 C02" + x.why
		if err := h.fail(props, "start of session %q (step %d: %s %q) was answered %v, it should be %s", sid, x.step, h.c.Ops[x.step].V, h.c.Ops[x.step].F, g.Event, out); err != nil {
			return err
		}
		return core.Inconcl("unexpected outcome")
	}
	if st == "failed" {
		h.nFailed++
		if g.S("error") == "" || g.Has("sdp") || g.Has("fileName") {
			return h.fail("C01", "a failed start was answered %v", g.Event)
		}
		return nil
	}
	if st != "ok" || g.Has("error") || g.S("fileName") != x.l.file || g.S("sdp") == "" {
		return h.fail("C01 C07", "a good start into %s was answered %v", x.l.file, g.Event)
	}
	x.l.first = g.N
	h.nOk++
	if x.l.peer != nil && h.act[sid] == x.l {
		if err := x.l.peer.Answer(g.S("sdp")); err != nil {
			if e := h.fail("C01", "session %q: %v", sid, err); e != nil {
				return e
			}
			return core.Inconcl("unusable answer")
		}
	}
	return nil
}

// ------------------------------------------------------------ media

// the first frames are keyframes: until the recorder's end of the connection is
// up, what is sent to it is lost
const warmup = 100

var tags atomic.Int32

func (l *live) compile() {
	tag := uint32(tags.Add(1))
	s := media.VStream{Pic: 15, Seq: 65500, Tag: tag}
	for i := 0; i < 600; i++ {
		s.F = append(s.F, media.VFrame{K: i%12 == 0 || i < warmup, W: 320, H: 240, N: 300 + i%7*100, P: []int{200}, D: 3000})
	}
	l.frames, l.pkts = s.Compile()
	a := media.AStream{Seq: 65000, Tag: tag}
	for i := 0; i < 2000; i++ {
		a.F = append(a.F, media.AFrame{N: 40, D: 960})
	}
	l.aframes, l.apkts = a.Compile()
}

func (l *live) audio(n int) {
	for ; n > 0 && l.sentA < len(l.apkts); n-- {
		l.peer.Write(false, l.apkts[l.sentA].P)
		l.sentA++
	}
}

func poll(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (h *hist) blocks(path string, typ uint64) []media.Block {
	b, _ := os.ReadFile(path)
	return media.ParseWebm(b).Of(typ)
}

// media sends n frames (or so many audio packets) and waits until they are recorded.
func (h *hist) media(l *live, n int, wait bool) error {
	first := l.frames == nil
	if first {
		l.compile()
	}
	exists := func() bool { _, err := os.Stat(l.file); return err == nil }
	if l.kind == 2 && first {
		// audio first, a track that joins later starts the file over (known finding)
		if !poll(patience, func() bool { l.audio(1); return exists() }) {
			return h.fail("C02 C04 C29", "session %q: no audio was recorded within %v\n%s", l.sid, patience, h.p.Log())
		}
	}
	frame := func() {
		if l.nextP >= len(l.pkts) {
			return
		}
		f := l.pkts[l.nextP].Frame
		for l.nextP < len(l.pkts) && l.pkts[l.nextP].Frame == f {
			l.peer.Write(true, l.pkts[l.nextP].P)
			l.nextP++
		}
		l.sentF = f + 1
		if l.kind == 2 {
			l.audio(2)
		}
	}
	if first && l.kind != 1 {
		wait := time.Millisecond
		next := time.Now()
		ok := poll(patience, func() bool {
			if l.kind == 0 && exists() {
				return true
			}
			if b, _ := os.ReadFile(l.file); l.kind == 2 && len(media.ParseWebm(b).Of(1)) > 0 {
				return true
			}
			if l.sentF < warmup && !time.Now().Before(next) {
				frame()
				next = time.Now().Add(wait)
				wait = wait * 3 / 2
			}
			return false
		})
		l.warm = l.sentF
		if !ok {
			return h.fail("C02 C04 C29", "session %q: none of %d keyframes was recorded within %v\n%s", l.sid, l.sentF, patience, h.p.Log())
		}
	}
	if l.kind == 1 {
		if first && !poll(patience, func() bool { l.audio(1); return exists() }) {
			return h.fail("C02 C04 C29", "session %q: no audio was recorded within %v\n%s", l.sid, patience, h.p.Log())
		}
		a0 := len(h.blocks(l.file, 2))
		s0 := l.sentA
		for i := 0; i < n; i++ {
			l.audio(1)
			time.Sleep(time.Millisecond)
		}
		if !wait {
			return nil
		}
		ok := poll(patience, func() bool {
			return len(h.blocks(l.file, 2))-a0 > l.sentA-s0-10
		})
		if !ok {
			return h.fail("C02 C04", "session %q: the last of %d audio packets were not recorded within %v\n%s", l.sid, l.sentA, patience, h.p.Log())
		}
		return nil
	}
	for i := 0; i < n; i++ {
		frame()
		if i%4 == 3 {
			time.Sleep(time.Millisecond)
		}
	}
	if !wait {
		return nil
	}
	got := 0
	ok := poll(patience, func() bool {
		b, _ := os.ReadFile(l.file)
		v := media.ParseWebm(b).Of(1)
		if len(v) > 0 {
			for got = 0; got < len(l.frames) && !bytes.Equal(l.frames[got].Data, v[len(v)-1].Data); got++ {
			}
			got++
		}
		if l.kind == 2 {
			return got >= 1
		}
		return got >= l.sentF-2
	})
	if !ok {
		return h.fail("C02 C04", "session %q: %d frames were sent, the last to be recorded within %[4]v is number %[3]d\n%[5]s", l.sid, l.sentF, got, patience, h.p.Log())
	}
	if l.kind == 0 {
		l.sure = max(0, l.sentF-2)
	}
	return nil
}

// judgeFile checks the file as it was when its recordingStopped was published.
func (h *hist) judgeFile(l *live) error {
	snaps := h.snaps[l.sid] // the caller holds h.mu
	if l.nEnd >= len(snaps) || snaps[l.nEnd].path != l.file {
		return nil // reported elsewhere
	}
	b := snaps[l.nEnd].data
	if len(b) == 0 {
		if l.sure > 0 {
			return h.fail("C02 C03 C04", "session %q: %d frames were recorded, but %s is empty when recordingStopped is published", l.sid, l.sure, l.file)
		}
		return nil
	}
	f := media.ParseWebm(b)
	if f.Err != nil {
		return h.fail("C03", "session %q: %s was incomplete when recordingStopped was published: %v", l.sid, l.file, f.Err)
	}
	v := f.Of(1)
	if len(v) == 0 && l.sure > 0 {
		return h.fail("C02 C03 C04", "session %q: %d frames were recorded, %s has none in the end", l.sid, l.sure, l.file)
	}
	j := 0
	for len(v) > 0 && j < l.warm && !bytes.Equal(v[0].Data, l.frames[j].Data) {
		j++
	}
	for i, k := range v {
		if j+i >= len(l.frames) || !bytes.Equal(k.Data, l.frames[j+i].Data) {
			return h.fail("C02 C03 C04 C08 C29", "session %q: block %d of %s is not frame %d of the session", l.sid, i, l.file, j+i)
		}
	}
	if len(v) > 0 && j+len(v) < l.sure {
		return h.fail("C02 C03 C04", "session %q: %d frames were recorded, %s ends with frame %d", l.sid, l.sure, l.file, j+len(v)-1)
	}
	j = 0
	for i, k := range f.Of(2) {
		for j < len(l.aframes) && !bytes.Equal(k.Data, l.aframes[j].Data) {
			j++
		}
		if j++; j > len(l.aframes) {
			return h.fail("C02 C03 C04 C08 C29", "session %q: audio block %d of %s is not of the session, or it is out of order", l.sid, i, l.file)
		}
	}
	h.r.LabelIf(len(v) > 0, "frames recorded")
	h.nFrames += len(v)
	ts := l.end.F("timestampHR")
	if len(v) > 0 {
		if last := float64(v[len(v)-1].T - v[0].T); ts < last-1.01 || ts > last+1.01 {
			return h.fail("C03", "session %q: timestampHR is %v, the last video frame of the file is at %v ms", l.sid, l.end["timestampHR"], last)
		}
	} else if l.kind == 0 && ts != 0 {
		return h.fail("C03", "session %q: timestampHR is %v, no video was recorded", l.sid, l.end["timestampHR"])
	}
	return nil
}

// ------------------------------------------------------------ properties

var mixed = []string{"start", "start", "start", "stop", "stop", "media", "media", "status", "close", "pause", "garbage"}

func histFacet(prop, name string, quick, thorough int, o histOpts) core.Facet[histCase] {
	run := runHist(prop)
	return core.Facet[histCase]{Name: name, Quick: quick, Thorough: thorough, Gen: genHist(o), Run: run, ShrinkSeconds: 30}
}

func TestC01(t *testing.T) {
	core.Prop("C01", core.F(histFacet("C01", "history", 1500, 30000, histOpts{ops: 14, kinds: []string{"start", "start", "start", "start", "stop", "stop", "media", "status", "pause", "garbage"}}))).Run(t)
}

func TestC02(t *testing.T) {
	core.Prop("C02", core.F(histFacet("C02", "history", 400, 8000, histOpts{ops: 14, kinds: []string{"start", "start", "start", "start", "stop", "stop", "media", "media", "media", "close", "pause"}})),
		core.F(histFacet("C02", "stale", 8, 300, histOpts{ops: 10, kinds: []string{"start", "start", "start", "stop", "media", "close"}, slowCl: true, quiet: 8000}))).Run(t)
}

func TestC03(t *testing.T) {
	core.Prop("C03", core.F(histFacet("C03", "history", 400, 8000, histOpts{ops: 14, kinds: []string{"start", "start", "start", "stop", "stop", "stop", "media", "media", "media", "close", "pause"}, quiet: 150})),
		core.F(histFacet("C03", "stale", 8, 300, histOpts{ops: 10, kinds: []string{"start", "start", "start", "stop", "media", "close"}, slowCl: true, quiet: 8000}))).Run(t)
}

func TestC04(t *testing.T) {
	core.Prop("C04", core.F(histFacet("C04", "history", 1200, 30000, histOpts{ops: 16, kinds: []string{"start", "media", "media", "garbage", "garbage", "garbage", "garbage", "garbage", "status", "stop"}}))).Run(t)
}

func TestC05(t *testing.T) {
	core.Prop("C05", core.F(histFacet("C05", "history", 900, 20000, histOpts{ops: 20, kinds: []string{"start", "media", "garbage", "status", "status", "status", "status", "stop", "pause"}}))).Run(t)
}

func TestC06(t *testing.T) {
	core.Prop("C06", core.F(histFacet("C06", "history", 400, 8000, histOpts{ops: 20, kinds: []string{"start", "start", "start", "stop", "stop", "media", "close", "garbage"}}))).Run(t)
}

var aliases = []string{"x.webm", "/x.webm", "//x.webm", "./x.webm", "sub/../x.webm", "sub/./../x.webm", "x/../x.webm", "y.webm", "sub/y.webm", "sub//y.webm", "/sub/y.webm", "sub/deep/../y.webm", "sub/y.webm/../y.webm"}

func TestC08(t *testing.T) {
	core.Prop("C08", core.F(histFacet("C08", "end-to-end", 800, 20000, histOpts{ops: 12, files: aliases, kinds: []string{"start", "start", "start", "start", "stop", "media", "foreign"}}))).Run(t)
}
