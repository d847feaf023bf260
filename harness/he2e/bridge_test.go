package he2e

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
)

// brOp is a step of a history of the HTTP bridge.
type brOp struct {
	Op   string
	Body string `json:",omitempty"`
	Pad  int    `json:",omitempty"` // size of the body
	N    int    `json:",omitempty"` // requests at once; which pending request
	Text string `json:",omitempty"` // the SDP or error of an answer
}

type brCase struct {
	Ops   []brOp
	Order []int // in which order what is left is answered
}

var brText = []string{"answer", "", "a\"b", "<p>&amp;", "日本", "line\nline\r\n", "\\u0041", "%d%s%!", "\u2028", " ", "{\"type\":\"answer\"}", "null", "'"}

func genBridge(t *rapid.T) brCase {
	var c brCase
	text := func() string { return rapid.SampledFrom(brText).Draw(t, "text") }
	for i := rapid.IntRange(1, 25).Draw(t, "steps"); i > 0; i-- {
		o := brOp{}
		switch rapid.IntRange(0, 12).Draw(t, "step") {
		case 0, 1, 2, 3:
			o.Op, o.Body, o.N = "post", rapid.SampledFrom([]string{"offer", "o2", "a\"b", "日本", "{}", "line\nline", "\\", "<&>", "\u2028x", "0", "//", "'"}).Draw(t, "body"), rapid.SampledFrom([]int{1, 1, 2, 4, 12}).Draw(t, "at once")
			if rapid.IntRange(0, 5).Draw(t, "large") == 0 {
				o.Pad = rapid.SampledFrom([]int{1000, 5000, 70000, 1000000}).Draw(t, "size")
			}
		case 4, 5, 6:
			o.Op, o.N, o.Text = "ok", rapid.IntRange(0, 20).Draw(t, "which"), text()
		case 7:
			o.Op, o.N, o.Text = rapid.SampledFrom([]string{"failed", "nosdp", "again", "cancel"}).Draw(t, "what"), rapid.IntRange(0, 20).Draw(t, "which"), text()
		case 8, 9:
			o.Op, o.Text, o.N = "foreign", rapid.SampledFrom([]string{
				`{"id":"startRecordingResponse","recordingSessionId":"other","status":"ok","sdp":"x","fileName":"f"}`,
				`{"id":"startRecordingResponse","recordingSessionId":"other","status":"failed","error":"x"}`,
				`{"id":"startRecordingResponse","recordingSessionId":"other","status":"ok"}`,
				`{"id":"startRecordingResponse"}`,
				`{"id":"startRecordingResponse","recordingSessionId":""}`,
				`{"id":"startRecordingResponse","recordingSessionId":5,"sdp":[]}`,
				`{"id":"startRecordingResponse","recordingSessionId":null,"error":null}`,
				`{"id":"recordingStopped","recordingSessionId":"@","reason":"stopped"}`,
				`{"id":"recordingRtpStatusChanged","recordingSessionId":"@","status":"flowing"}`,
				`{"id":"startRecording","recordingSessionId":"@","fileName":"a.webm","sdp":"x"}`,
				`{"id":"recorderStatus","instanceId":"x"}`, `{"id":"recorderStatus"}`, `{"id":7}`, `{}`, `[]`, `null`, ``, `{`, `"x"`, `{"id":"nosuch"}`,
			}).Draw(t, "message"), rapid.IntRange(0, 20).Draw(t, "which")
		case 10:
			o.Op, o.Text = "bad", rapid.SampledFrom([]string{"GET", "PUT", "DELETE", "PATCH", "OPTIONS", "empty POST", "chunked empty POST", "empty GET"}).Draw(t, "request")
		case 11:
			o.Op = "status"
		case 12:
			o.Op = "wait"
		}
		c.Ops = append(c.Ops, o)
	}
	for i := 0; i < 12; i++ {
		c.Order = append(c.Order, rapid.IntRange(0, 100).Draw(t, "order"))
	}
	return c
}

// brReq is a request in flight.
type brReq struct {
	body   string
	cancel context.CancelFunc
	gone   bool
	sid    string
	want   string // what has to come back
	answer bool   // answered
	done   chan bool
	code   int
	got    string
	err    error
}

func (b *brReq) wait() bool {
	select {
	case <-b.done:
		return true
	case <-time.After(patience):
		return false
	}
}

// httpUp waits until the HTTP server answers.
func (p *Proc) httpUp() error {
	if !poll(patience, func() bool {
		c, err := net.Dial("tcp", p.HTTP)
		if err == nil {
			c.Close()
		}
		return err == nil && p.Redis.Subscribers(p.pub) > 0 || !p.Alive()
	}) {
		return fmt.Errorf("the HTTP server is not up within %v\n%s", patience, p.Log())
	}
	return p.Died()
}

func (p *Proc) post(body string) *brReq {
	ctx, cancel := context.WithCancel(context.Background())
	b := &brReq{body: body, cancel: cancel, done: make(chan bool)}
	q, err := http.NewRequestWithContext(ctx, "POST", "http://"+p.HTTP+"/sdp", strings.NewReader(body))
	must(err)
	go func() {
		defer close(b.done)
		res, err := (&http.Client{Transport: &http.Transport{DisableKeepAlives: true}}).Do(q)
		if err != nil {
			b.err = err
			return
		}
		defer res.Body.Close()
		g, err := io.ReadAll(res.Body)
		b.code, b.got, b.err = res.StatusCode, string(g), err
	}()
	return b
}

// brStart is a startRecording that the bridge published.
type brStart struct {
	Id, RecordingSessionId, FileName, Adapter, Sdp string
	AdapterOptions                                 struct{ Mediasoup struct{ Sdp string } }
}

func runBridge(c brCase, r *core.Rec) error {
	red := NewRedis("")
	defer red.Close()
	p := MustStart(Opts{Redis: red, HTTP: true})
	defer p.Stop()
	if err := p.httpUp(); err != nil {
		return err
	}
	// the recorder in the same process does not see the starts, the harness answers
	red.Mute(SubCh, true)
	var reqs []*brReq
	sids, files := map[string]bool{}, map[string]bool{}
	seen := 0
	starts := func(ms []Msg) (out []brStart) {
		for _, m := range ms {
			if m.Channel == SubCh {
				var s brStart
				json.Unmarshal(m.Data, &s)
				out = append(out, s)
			}
		}
		return
	}
	post := func(body string, n int) error {
		var mine []*brReq
		for i := 0; i < n; i++ {
			b := p.post(fmt.Sprintf("%s%d", body, i%3)) // some are alike
			mine = append(mine, b)
		}
		reqs = append(reqs, mine...)
		var got []brStart
		if !red.Wait(patience, func(ms []Msg) bool {
			got = starts(ms)
			return len(got) >= seen+n || !p.Alive()
		}) {
			return fmt.Errorf("%d requests were posted, %d starts were published within %v\n%s", seen+n, len(got), patience, p.Log())
		}
		if err := p.Died(); err != nil {
			return err
		}
		for _, s := range got[seen:] {
			sdp := s.AdapterOptions.Mediasoup.Sdp
			if s.Id != "startRecording" || s.RecordingSessionId == "" || s.FileName == "" || s.Adapter != "mediasoup" {
				return fmt.Errorf("a request was published as %+v", s)
			}
			if sids[s.RecordingSessionId] || files[s.FileName] {
				return fmt.Errorf("two requests share the session id %q or the file %q", s.RecordingSessionId, s.FileName)
			}
			sids[s.RecordingSessionId], files[s.FileName] = true, true
			ok := false
			for _, b := range mine {
				if b.sid == "" && b.body == sdp {
					b.sid = s.RecordingSessionId
					ok = true
					break
				}
			}
			if !ok {
				return fmt.Errorf("a start with the offer %.100q was published, which was not posted (or not as often)", sdp)
			}
		}
		seen += n
		return nil
	}
	pending := func() (out []*brReq) {
		for _, b := range reqs {
			if !b.answer && !b.gone {
				out = append(out, b)
			}
		}
		return
	}
	alike := func(b *brReq) bool {
		for _, x := range reqs {
			if x != b && x.body == b.body {
				return true
			}
		}
		return false
	}
	// counts tells by how much more requests with this body came back than were
	// answered; which of those alike is which cannot be told
	counts := func(body string) (n int) {
		for _, b := range reqs {
			if b.body != body || b.gone {
				continue
			}
			if b.answer {
				n--
			}
			select {
			case <-b.done:
				n++
			default:
			}
		}
		return
	}
	say := func(v any) {
		j, ok := v.([]byte)
		if !ok {
			j = raw(v)
		}
		red.Send(PubCh, j)
	}
	answer := func(b *brReq, kind, text string) {
		m := M{"id": "startRecordingResponse", "recordingSessionId": b.sid, "status": "ok", "fileName": "/x/" + b.sid}
		switch kind {
		case "ok":
			m["sdp"] = text
			b.want = "200 " + text
		case "failed":
			m = M{"id": "startRecordingResponse", "recordingSessionId": b.sid, "status": "failed", "error": text}
			b.want = "error"
		case "nosdp":
			b.want = "error"
		}
		b.answer = true
		say(m)
	}
	concurrent := 0
	for i, o := range c.Ops {
		l := pending()
		concurrent = max(concurrent, len(l))
		switch o.Op {
		case "post":
			if err := post(fmt.Sprintf("%s %d %s", o.Body, i, strings.Repeat("p", o.Pad)), o.N); err != nil {
				return err
			}
			r.LabelIf(o.Pad > 0, "large offer")
		case "ok", "failed", "nosdp":
			if len(l) > 0 {
				b := l[o.N%len(l)]
				answer(b, o.Op, o.Text+fmt.Sprint(i))
				r.Label(o.Op)
				if !poll(patience, func() bool { return counts(b.body) >= 0 }) {
					return fmt.Errorf("a request was answered %s, its response has not come within %v", o.Op, patience)
				}
			}
		case "again":
			for _, b := range reqs {
				if b.answer {
					say(M{"id": "startRecordingResponse", "recordingSessionId": b.sid, "status": "ok", "sdp": "wrong " + o.Text, "fileName": "f"})
					r.Label("a second answer")
				}
			}
		case "cancel":
			if len(l) > 0 {
				b := l[o.N%len(l)]
				if alike(b) {
					break
				}
				b.gone = true
				b.cancel()
				<-b.done
				r.Label("given up")
				if o.N%2 == 0 {
					say(M{"id": "startRecordingResponse", "recordingSessionId": b.sid, "status": "ok", "sdp": o.Text, "fileName": "f"})
				}
			}
		case "foreign":
			x := "another"
			if len(l) > 0 {
				x = l[o.N%len(l)].sid
			}
			say([]byte(strings.ReplaceAll(o.Text, "@", x)))
			r.Label("foreign message")
		case "bad":
			f := strings.Fields(o.Text)
			var body io.Reader = strings.NewReader("an offer")
			if strings.Contains(o.Text, "empty") {
				body = nil
				if f[0] == "chunked" {
					body = io.MultiReader(strings.NewReader(""))
				}
			}
			q, _ := http.NewRequest(f[len(f)-1], "http://"+p.HTTP+"/sdp", body)
			res, err := (&http.Client{Timeout: patience}).Do(q)
			if err != nil {
				if e := p.Died(); e != nil {
					return e
				}
				return fmt.Errorf("%s /sdp: %v", o.Text, err)
			}
			io.Copy(io.Discard, res.Body)
			res.Body.Close()
			if res.StatusCode != 422 {
				return fmt.Errorf("%s /sdp is answered %d", o.Text, res.StatusCode)
			}
			r.Label("refused")
		case "status":
			if err := p.Barrier(); err != nil {
				return err
			}
		case "wait":
			time.Sleep(20 * time.Millisecond)
		}
		if err := p.Died(); err != nil {
			return err
		}
		for _, b := range reqs {
			if counts(b.body) > 0 {
				return fmt.Errorf("step %d, %s: a request with the offer %.60q came back before it was answered", i, o.Op, b.body)
			}
		}
	}
	if err := post("the last", 1); err != nil {
		return err
	}
	l := pending()
	concurrent = max(concurrent, len(l))
	for i := 0; len(l) > 0; i++ {
		j := c.Order[i%len(c.Order)] % len(l)
		answer(l[j], "ok", fmt.Sprintf("sdp %d", i))
		l = append(l[:j:j], l[j+1:]...)
	}
	got, want := map[string][]string{}, map[string][]string{}
	for _, b := range reqs {
		if b.gone {
			continue
		}
		if !b.wait() {
			return fmt.Errorf("a request was answered, its response has not come within %v\n%s", patience, p.Log())
		}
		if err := p.Died(); err != nil {
			return err
		}
		if b.err != nil {
			return fmt.Errorf("a request was answered, but: %v", b.err)
		}
		g := fmt.Sprintf("%d %s", b.code, b.got)
		if b.code >= 400 {
			g = "error"
		}
		got[b.body] = append(got[b.body], g)
		want[b.body] = append(want[b.body], b.want)
	}
	for k := range got {
		sort.Strings(got[k])
		sort.Strings(want[k])
		if fmt.Sprintf("%q", got[k]) != fmt.Sprintf("%q", want[k]) {
			return fmt.Errorf("the offer %.60q was answered %.300q, what came back is %.300q", k, want[k], got[k])
		}
	}
	if n := len(starts(red.Msgs())); n != seen {
		return fmt.Errorf("%d requests were posted, but %d starts published", seen, n)
	}
	r.LabelIf(concurrent > 1, "several in flight")
	r.NonTrivialIf(concurrent > 1)
	return nil
}

// ------------------------------------------------------------ with a recorder

type loopCase struct {
	Peers  []PeerOpts
	Kinds  []int
	Own    int // sessions started over Redis in between
	Frames int
}

func genLoop(t *rapid.T) loopCase {
	var c loopCase
	for i := rapid.IntRange(1, 6).Draw(t, "peers"); i > 0; i-- {
		c.Peers = append(c.Peers, genPeer(t))
		c.Kinds = append(c.Kinds, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "kind"))
	}
	c.Own = rapid.IntRange(0, 2).Draw(t, "own")
	c.Frames = rapid.IntRange(3, 20).Draw(t, "frames")
	return c
}

func runLoop(c loopCase, r *core.Rec) error {
	red := NewRedis("")
	defer red.Close()
	p := MustStart(Opts{Redis: red, HTTP: true})
	defer p.Stop()
	if err := p.httpUp(); err != nil {
		return err
	}
	r.LabelIf(len(c.Peers) > 1, "several at once")
	r.LabelIf(c.Own > 0, "others started over Redis")
	r.NonTrivialIf(len(c.Peers)+c.Own > 1)
	mach := watchMachine()
	var w sync.WaitGroup
	errs := make([]error, len(c.Peers)+c.Own)
	for i := range errs {
		i := i
		w.Add(1)
		go func() {
			defer w.Done()
			errs[i] = core.Guard(func() error {
				kind, opts := 0, PeerOpts{}
				if i < len(c.Peers) {
					kind, opts = c.Kinds[i], c.Peers[i]
				}
				l := &live{sid: fmt.Sprintf("own%d", i), kind: kind, peer: NewPeerWith(kind != 1, kind != 0, opts)}
				defer l.peer.Close()
				if i >= len(c.Peers) {
					if err := connect(p, l, l.sid+".webm"); err != nil {
						return err
					}
				} else {
					b := p.post(l.peer.Offer)
					if !b.wait() || b.err != nil || b.code != 200 {
						return fmt.Errorf("a good offer is answered %d %.200q, %v\n%s", b.code, b.got, b.err, p.Log())
					}
					if err := l.peer.Answer(b.got); err != nil {
						return err
					}
					if !l.peer.Connected() {
						return fmt.Errorf("no connection")
					}
					for _, m := range red.Msgs() {
						var s brStart
						if m.Channel == SubCh && json.Unmarshal(m.Data, &s) == nil && s.AdapterOptions.Mediasoup.Sdp == l.peer.Offer {
							l.sid = s.RecordingSessionId
						}
					}
					for _, g := range p.Of("startRecordingResponse", l.sid) {
						l.file = g.S("fileName")
					}
				}
				return loopMedia(p, l, c.Frames, r)
			})
		}()
	}
	w.Wait()
	err := p.Died()
	for _, e := range errs {
		if err == nil {
			err = e
		}
	}
	return mach.judge(err, 120*ms)
}

// loopMedia records some media and checks that they are in the session's file.
func loopMedia(p *Proc, l *live, n int, r *core.Rec) error {
	m := &medRun{c: &medSess{Kind: l.kind}, l: l}
	if l.kind != 1 {
		m.vs = newSender(l.peer, true)
	}
	if l.kind != 0 {
		m.as = newSender(l.peer, false)
	}
	h := &hist{r: r, p: p}
	if err := m.warm(h); err != nil {
		return err
	}
	for i := 0; i < n; i++ {
		m.c.V.F = append(m.c.V.F, media.VFrame{K: i == 0, W: 320, H: 240, N: 50, D: 3000})
		m.c.A.F = append(m.c.A.F, media.AFrame{N: 20, D: 960})
	}
	m.compile()
	m.count()
	m.both(func() { m.vs.run(m.pkts, nil, ms) }, func() { m.as.run(m.apkts, nil, ms) })
	poll(2*time.Second, func() bool {
		b, _ := os.ReadFile(l.file)
		last := m.aframes[len(m.aframes)-2].Data
		if l.kind != 1 {
			last = m.frames[len(m.frames)-2].Data
		}
		return bytes.Contains(b, last)
	})
	time.Sleep(100 * ms)
	if err := m.finish(h); err != nil {
		return err
	}
	return m.judgeFile(true)
}

func TestC33(t *testing.T) {
	core.Prop("C33",
		core.F(core.Facet[brCase]{Name: "answers", Quick: 800, Thorough: 30000, Gen: genBridge, Run: runBridge, ShrinkSeconds: 60}),
		core.F(core.Facet[loopCase]{Name: "recorder", Quick: 80, Thorough: 2000, Gen: genLoop, Run: runLoop, Confirm: 1, ShrinkSeconds: 40}),
	).Run(t)
}
