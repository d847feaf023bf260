package he2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
)

// psMsg is a message sent to the recorder, or to somebody else.
type psMsg struct {
	Ch   int    // 0 the recorder's channel, otherwise one of the others
	Sid  string // a start that must fail (there is no SDP)
	Pad  int    // its size
	Kind int    // 0 start, 1 status, 2 a good start and a stop
	Wait bool   // until it has been answered
}

type psCase struct {
	Sub, Pub, Pass string
	Others         []string
	HTTP           bool
	M              []psMsg
	Cuts           []int
}

var chNames = []string{"to-x", "to-x2", "from-x", "a b", "*", "to-*", "to-?", "[ab]", "日本", "x\r\ny", "\"q\"", "{a}", "to-bbb-webrtc-recorder", "from-bbb-webrtc-recorder", "TO-X", "to-x ", "a", "b", "$7", ":1", "-ERR x"}

func genPS(t *rapid.T) psCase {
	names := rapid.Permutation(chNames).Draw(t, "channels")
	c := psCase{Sub: names[0], Pub: names[1], Others: append([]string{names[1]}, names[2:5]...), HTTP: rapid.IntRange(0, 3).Draw(t, "http") == 0}
	if rapid.Bool().Draw(t, "password") {
		c.Pass = rapid.SampledFrom([]string{"x", "pa ss", "p\r\nq", "ü", "*1", "\"", strings.Repeat("long", 100), "123", "true"}).Draw(t, "the password")
	}
	if rapid.IntRange(0, 3).Draw(t, "similar") == 0 {
		c.Others = append(c.Others, c.Sub+"x", c.Sub[:len(c.Sub)-1], strings.ToUpper(c.Sub), c.Sub+" ", " "+c.Sub)
	}
	for i := rapid.IntRange(1, 30).Draw(t, "messages"); i > 0; i-- {
		m := psMsg{Kind: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "kind"), Wait: rapid.IntRange(0, 4).Draw(t, "wait") == 0}
		if rapid.IntRange(0, 4).Draw(t, "to others") == 0 {
			m.Ch = rapid.IntRange(1, len(c.Others)).Draw(t, "other")
		}
		m.Sid = rapid.SampledFrom([]string{"s", "日本語", "a\"b", "x\r\n*3\r\n$7\r\nmessage", "\r\n", "\x01\x7f", "\u2028\u2029", "👩‍👩‍👧", "<script>&", "\\u0041", "'", "//x", "/*", " ", "$5\r\nhello\r\n", "\t"}).Draw(t, "sid") +
			rapid.StringMatching(`[a-z]{0,3}`).Draw(t, "tail")
		if rapid.IntRange(0, 7).Draw(t, "padding") == 0 {
			m.Pad = rapid.SampledFrom([]int{100, 4000, 4096, 16384, 65530, 200000, 2000000}).Draw(t, "size")
		}
		c.M = append(c.M, m)
	}
	for i := rapid.IntRange(0, 6).Draw(t, "cuts"); i > 0; i-- {
		c.Cuts = append(c.Cuts, rapid.SampledFrom([]int{1, 2, 3, 7, 13, 64, 1000, 1448, 4096, 70000}).Draw(t, "cut"))
	}
	return c
}

func raw(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return bytes.TrimSuffix(b.Bytes(), []byte("\n"))
}

func runPS(c psCase, r *core.Rec) error {
	red := NewRedis(c.Pass)
	defer red.Close()
	p := MustStart(Opts{Redis: red, Sub: c.Sub, Pub: c.Pub, HTTP: c.HTTP})
	defer p.Stop()
	var want []string
	status := 1
	var batch []Msg
	flush := func() error {
		red.SendAll(batch, c.Cuts...)
		batch = nil
		n := len(want) + status
		red.Wait(patience, func(ms []Msg) bool { return len(ms) >= n || !p.Alive() })
		return p.Died()
	}
	others := 0
	var peers []*Peer
	defer func() {
		for _, x := range peers {
			x.Close()
		}
	}()
	for i, m := range c.M {
		ch := c.Sub
		if m.Ch > 0 {
			ch = c.Others[(m.Ch-1)%len(c.Others)]
		}
		mine := ch == c.Sub
		if !mine {
			others++
		}
		sid := fmt.Sprintf("%s%d", m.Sid, i)
		switch m.Kind {
		case 1:
			batch = append(batch, Msg{Channel: ch, Data: []byte(`{"id":"getRecorderStatus","x":"` + strings.Repeat("y", m.Pad) + `"}`)})
			if mine {
				status++
			}
		case 0:
			sid += strings.Repeat("é", m.Pad/2)
			batch = append(batch, Msg{Channel: ch, Data: raw(M{"id": "startRecording", "recordingSessionId": sid, "fileName": "x.webm"})})
			if mine {
				want = append(want, "startRecordingResponse failed "+sid)
			}
		case 2:
			x := NewPeer(true, false)
			peers = append(peers, x)
			batch = append(batch, Msg{Channel: ch, Data: raw(M{"id": "startRecording", "recordingSessionId": sid, "fileName": fmt.Sprintf("f%d.webm", i), "sdp": x.Offer})},
				Msg{Channel: ch, Data: raw(M{"id": "stopRecording", "recordingSessionId": sid})})
			if mine {
				want = append(want, "startRecordingResponse ok "+sid, "recordingStopped stopped "+sid)
			}
		}
		if m.Wait {
			if err := flush(); err != nil {
				return err
			}
		}
	}
	if err := flush(); err != nil {
		return err
	}
	// whatever else there is comes before the answer to this
	p.Asked = status - 1
	status++
	if err := p.Barrier(); err != nil {
		return err
	}
	var got []string
	n := 0
	for _, m := range red.Msgs() {
		if m.Channel != c.Pub {
			return fmt.Errorf("published on channel %q: %.300s", m.Channel, m.Data)
		}
		e := Event{}
		if err := json.Unmarshal(m.Data, &e); err != nil {
			return fmt.Errorf("published: %.300q (%v)", m.Data, err)
		}
		switch e.S("id") {
		case "recorderStatus":
			n++
		case "recordingStopped":
			got = append(got, e.S("id")+" "+e.S("reason")+" "+e.S("recordingSessionId"))
		default:
			got = append(got, e.S("id")+" "+e.S("status")+" "+e.S("recordingSessionId"))
		}
	}
	// a session is stopped in a goroutine of its own: only the rest is in order
	wa, ws := split(want)
	ga, gs := split(got)
	for i := range wa {
		if i >= len(ga) || ga[i] != wa[i] {
			return fmt.Errorf("answer %d of %d is %.300q, it should be %.300q", i, len(wa), append(ga, make([]string, i+1)...)[i], wa[i])
		}
	}
	if len(ga) > len(wa) {
		return fmt.Errorf("one answer too many: %.300q", ga[len(wa)])
	}
	if len(ws) != len(gs) {
		return fmt.Errorf("%d sessions were stopped, not %d", len(gs), len(ws))
	}
	if n != status {
		return fmt.Errorf("%d status messages, there should be %d", n, status)
	}
	if n := red.NUnauth(); n > 0 {
		return fmt.Errorf("%d commands came without the password (%v)", n, red.Unauth)
	}
	r.LabelIf(others > 0, "messages to others")
	r.LabelIf(len(c.Cuts) > 0, "split by the network")
	r.NonTrivialIf(len(want) > 1)
	return nil
}

func split(l []string) (a, s []string) {
	for _, x := range l {
		if strings.HasPrefix(x, "recordingStopped") {
			s = append(s, x)
		} else {
			a = append(a, x)
		}
	}
	return
}

// ------------------------------------------------------------ silence and loss

type idleCase struct {
	Seconds int
	Pass    string
}

// runIdle: a subscription outlives a time without messages.
func runIdle(c idleCase, r *core.Rec) error {
	red := NewRedis(c.Pass)
	defer red.Close()
	p := MustStart(Opts{Redis: red})
	defer p.Stop()
	for end := time.Now().Add(time.Duration(c.Seconds) * time.Second); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
		if err := p.Died(); err != nil {
			return fmt.Errorf("while there was nothing to do: %w", err)
		}
	}
	r.NonTrivial()
	return p.Barrier()
}

type lossCase struct {
	HTTP   bool
	Active bool
	Before int
	Gone   bool // the server goes away altogether
}

// runLoss: a recorder that lost its subscription does not stay behind deaf.
func runLoss(c lossCase, r *core.Rec) error {
	red := NewRedis("")
	defer red.Close()
	p := MustStart(Opts{Redis: red, HTTP: c.HTTP})
	defer p.Stop()
	for i := 0; i < c.Before; i++ {
		if err := p.Barrier(); err != nil {
			return err
		}
	}
	if c.Active {
		l, err := startSession(p, "s", "s.webm", 0)
		if err != nil {
			return err
		}
		defer l.peer.Close()
	}
	if c.Gone {
		red.Close()
	} else {
		red.Drop(p.sub)
	}
	for end := time.Now().Add(patience); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		if !p.Alive() {
			r.NonTrivial()
			if p.Cmd.ProcessState.Success() {
				return fmt.Errorf("the recorder lost its subscription and ended with status 0, so that no service manager starts it again")
			}
			return nil
		}
		if !c.Gone && red.Subscribers(p.sub) > 0 {
			r.Label("subscribed again")
			return p.Barrier()
		}
	}
	return fmt.Errorf("%v after it lost its subscription the recorder runs without one", patience)
}

func TestC28(t *testing.T) {
	core.Prop("C28",
		core.F(core.Facet[psCase]{Name: "stream", Quick: 500, Thorough: 20000, Gen: genPS, Run: runPS, ShrinkSeconds: 40}),
		core.F(core.Facet[lossCase]{Name: "loss", Quick: 100, Thorough: 2000, ShrinkSeconds: 20, Run: runLoss, Gen: func(t *rapid.T) lossCase {
			return lossCase{rapid.Bool().Draw(t, "http"), rapid.Bool().Draw(t, "active"), rapid.IntRange(0, 3).Draw(t, "before"), rapid.Bool().Draw(t, "gone")}
		}}),
		core.F(core.Facet[idleCase]{Name: "idle", Quick: 1, Thorough: 16, ShrinkSeconds: 1, Run: runIdle, Gen: func(t *rapid.T) idleCase {
			return idleCase{rapid.SampledFrom([]int{75, 76, 80}).Draw(t, "seconds"), rapid.SampledFrom([]string{"", "x"}).Draw(t, "password")}
		}})).Run(t)
}
