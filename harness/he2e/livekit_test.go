package he2e

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	lkp "github.com/livekit/protocol/livekit"
)

// lkSess is a session that records tracks of a room.
type lkSess struct {
	medSess
	Room     int
	Vid, Aud string   // tracks to record
	None     []string `json:",omitempty"` // requested, but not there
	Rev      bool     `json:",omitempty"` // video is requested last
	Bad      bool     `json:",omitempty"` // the room does not let the recorder in
	Mid      bool     `json:",omitempty"` // the very first packet is lost
	End      string   // how the session ends
}

func (s *lkSess) want() (out []string) {
	for _, t := range []string{s.Vid, s.Aud} {
		if t != "" {
			out = append(out, t)
		}
	}
	sort.Strings(out)
	return
}

type lkCase struct {
	Rooms    []lkRoom
	S        []lkSess
	Key, Sec string
	Wrong    bool `json:",omitempty"` // the recorder has another secret
	Pace     bool `json:",omitempty"` // at the pace of real media
	Wild     bool `json:",omitempty"` // time does not advance steadily
}

func (c *lkCase) name(i int) string { return fmt.Sprintf("room %d é/\"x\"", i) }

func (s *lkSess) start(p *Proc, sid, file, room string) (Got, error) {
	ids := []string{}
	for _, x := range []string{s.Vid, s.Aud} {
		if x != "" {
			ids = append(ids, x)
		}
	}
	if s.Rev && len(ids) > 1 {
		ids[0], ids[1] = ids[1], ids[0]
	}
	ids = append(ids, s.None...)
	p.Send(M{"id": "startRecording", "recordingSessionId": sid, "fileName": file, "adapter": "livekit",
		"adapterOptions": M{"livekit": M{"room": room, "trackIds": ids}}})
	// the server may take long not to let the recorder in
	g := p.WaitN("startRecordingResponse", sid, 1, patience+20*time.Second)
	if len(g) == 0 {
		return Got{}, fmt.Errorf("session %q: no answer within %v\n%s", sid, patience+20*time.Second, p.Log())
	}
	return g[0], nil
}

// conn finds the one connection of a session.
func (k *LK) conn(room, sid string) (*lkConn, error) {
	var mine []*lkConn
	for _, c := range k.Conns(room) {
		if strings.HasSuffix(c.Identity, sid) {
			mine = append(mine, c)
		}
	}
	if len(mine) != 1 {
		return nil, fmt.Errorf("session %q: %d participants joined room %q for it", sid, len(mine), room)
	}
	return mine[0], nil
}

// joinLK starts a session and waits until its tracks are there.
func (s *lkSess) joinLK(k *LK, room string, p *Proc, m *medRun, file string, got **lkConn) error {
	sid := m.l.sid
	e, err := s.start(p, sid, file, room)
	if err != nil {
		return err
	}
	if e.S("status") != "ok" {
		return fmt.Errorf("session %q: the start was answered %v\n%s", sid, e.Event, p.Log())
	}
	if e.S("sdp") != "" {
		return fmt.Errorf("session %q: the start of a LiveKit session was answered with the sdp %q", sid, e.S("sdp"))
	}
	m.l.file = e.S("fileName")
	c, err := k.conn(room, sid)
	if err != nil {
		return err
	}
	*got = c
	want := s.want()
	if !poll(patience, func() bool {
		subs, settled := c.Subs()
		return len(subs) >= len(want) && settled || !p.Alive()
	}) {
		subs, settled := c.Subs()
		return fmt.Errorf("session %q is to record %v, it subscribed to %v within %v (negotiated: %v)\n%s", sid, want, subs, patience, settled, p.Log())
	}
	if err := p.Died(); err != nil {
		return err
	}
	m.l.peer = c.peer
	return nil
}

// judgeConn judges what the server saw of a session.
func (s *lkSess) judgeConn(c *lkConn) error {
	subs, _ := c.Subs()
	sort.Strings(subs)
	if want := s.want(); fmt.Sprint(subs) != fmt.Sprint(want) {
		return fmt.Errorf("the tracks %v are to be recorded (of %v), but %v were subscribed to", want, c.room.Parts, subs)
	}
	if c.Kind != lkp.ParticipantInfo_EGRESS {
		return fmt.Errorf("the recorder joined as a participant of kind %v", c.Kind)
	}
	if c.Query.Get("auto_subscribe") != "0" {
		return fmt.Errorf("the recorder joined with auto_subscribe=%q: it gets tracks that are not to be recorded", c.Query.Get("auto_subscribe"))
	}
	return nil
}

func (c *lkCase) run(r *core.Rec) error {
	rooms := map[string]*lkRoom{}
	for i := range c.Rooms {
		rooms[c.name(i)] = &c.Rooms[i]
	}
	sec := c.Sec
	if c.Wrong {
		sec += "x"
	}
	k := NewLK(c.Key, c.Sec, rooms)
	defer k.Close()
	cfg := M{"livekit": M{"host": k.Host, "apiKey": c.Key, "apiSecret": sec}}
	conns := make([]*lkConn, len(c.S))
	var runs []*medRun
	for i := range c.S {
		i := i
		s := &c.S[i]
		room := c.name(s.Room)
		if s.Bad || c.Wrong {
			runs = append(runs, &medRun{})
			continue
		}
		x := s.medSess
		m := &medRun{c: &x, mid: s.Mid}
		m.join = func(p *Proc, m *medRun, file string) error { return s.joinLK(k, room, p, m, file, &conns[i]) }
		if s.End == "kick" {
			m.quit = func(h *hist) { conns[i].kick() }
		}
		runs = append(runs, m)
	}
	err := execRuns(r, cfg, runs, func(i int, m *medRun, h *hist) error {
		s := &c.S[i]
		if m.c == nil {
			return c.refused(i, k, h)
		}
		if err := m.warm(h); err != nil {
			return err
		}
		m.compile()
		m.count()
		pace, apace := time.Millisecond, time.Millisecond
		if c.Pace {
			apace = 20 * ms
			m.both(func() { m.vs.paced(m.pkts, m.c.VI, 33*ms) }, func() { m.as.run(m.apkts, m.c.AI, apace) })
		} else {
			m.both(func() { m.vs.run(m.pkts, m.c.VI, pace) }, func() { m.as.run(m.apkts, m.c.AI, apace) })
		}
		m.arrive()
		time.Sleep(50 * ms)
		if err := m.finish(h); err != nil {
			return err
		}
		want := "stopped"
		if s.End == "kick" {
			want = "closed"
		}
		if m.end.S("reason") != want {
			return fmt.Errorf("the session ended with reason %q, not %q", m.end.S("reason"), want)
		}
		if !poll(patience, func() bool { left, closed := conns[i].Left(); return closed && (left || s.End == "kick") }) {
			left, closed := conns[i].Left()
			return fmt.Errorf("the session has ended, but %v later the recorder is still in the room (left: %v, connection closed: %v)", patience, left, closed)
		}
		return nil
	})
	if err != nil {
		return err
	}
	if err := k.Odd(); err != nil {
		return err
	}
	ids := map[string]bool{}
	for _, x := range k.Conns("") {
		if ids[x.Room+"\x00"+x.Identity] {
			return fmt.Errorf("two participants of room %q are called %q", x.Room, x.Identity)
		}
		ids[x.Room+"\x00"+x.Identity] = true
	}
	for i, m := range runs {
		if m.c == nil {
			continue
		}
		err := c.S[i].judgeConn(conns[i])
		if err == nil {
			err = m.judgeLK(c.Wild)
		}
		if err != nil {
			return fmt.Errorf("session %d of %d: %w", i, len(runs), err)
		}
	}
	return nil
}

// late finds the frames that were recovered too late to be waited for, and
// those that were not recovered as they were not requested: the client library
// does not request packets lost just before the sequence numbers start over.
func (s *sender) late(from int) (late, lost map[int]bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	late, lost = map[int]bool{}, map[int]bool{}
	for _, k := range s.sent[from:] {
		switch {
		case k.arrived.IsZero():
			lost[k.p.Frame] = true
		case k.arrived.Sub(k.due) > 120*ms:
			late[k.p.Frame] = true
		}
	}
	return
}

// judgeLK judges the recording. The client library's jitter buffer, which waits
// for 200ms of media at most, may drop what follows a loss closely; when time
// does not advance steadily, everything that waits.
func (m *medRun) judgeLK(wild bool) error {
	f := media.ParseWebm(m.final)
	if f.Err != nil || f.Truncated {
		return fmt.Errorf("%s is malformed: %v", m.l.file, f.Err)
	}
	const near = 7
	if m.c.Kind != 1 {
		got, err := matchMain(f.Of(1), m.frames, "video")
		if err != nil {
			return err
		}
		usable, must, since := true, true, near
		late, lost := m.vs.late(m.nv)
		for i, x := range m.frames {
			_, has := got[i]
			all := x.Arrive == x.NPkt && !lost[i]
			switch {
			case has && !all:
				return fmt.Errorf("video frame %d was recorded though it did not arrive as a whole; impairments %+v", i, m.c.VI)
			case has && !x.Key && !usable:
				return fmt.Errorf("video frame %d was recorded though it cannot be decoded; impairments %+v", i, m.c.VI)
			}
			if x.Key && all {
				must = true
			}
			if late[i] {
				since = 0
			}
			last := i >= m.tail+tailN/2 && i < m.tail+tailN*2/3
			if !has && all && must && (since >= near && !wild || last) {
				return fmt.Errorf("video frame %d of %d (main part: %d) is missing, %d recorded; impairments %+v", i, len(m.frames), m.tail, len(got), m.c.VI)
			}
			usable = has && (x.Key || usable)
			must = must && has
			since++
			if !all {
				since = 0
			}
		}
		if err := judgeSpacing(got, m.frames, 90, "video"); err != nil {
			return err
		}
	}
	if m.c.Kind != 0 {
		got, err := matchMain(f.Of(2), m.aframes, "audio")
		if err != nil {
			return err
		}
		since := near
		late, lost := m.as.late(m.na)
		for i, x := range m.aframes {
			_, has := got[i]
			if late[i] {
				since = 0
			}
			last := i >= m.atail+tailN/2 && i < m.atail+tailN*2/3
			switch {
			case !has && x.Arrive > 0 && !lost[i] && (since >= near && !wild || last):
				return fmt.Errorf("audio packet %d of %d (main part: %d) is missing, %d recorded; impairments %+v", i, len(m.aframes), m.atail, len(got), m.c.AI)
			case has && (x.Arrive == 0 || lost[i]):
				return fmt.Errorf("audio packet %d was recorded though it never arrived", i)
			}
			since++
			if x.Arrive == 0 || lost[i] {
				since = 0
			}
		}
		if err := judgeSpacing(got, m.aframes, 48, "audio"); err != nil {
			return err
		}
	}
	return nil
}

// arrive waits for what comes after everything that matters.
func (m *medRun) arrive() {
	poll(4*time.Second, func() bool {
		b, _ := os.ReadFile(m.l.file)
		f := media.ParseWebm(b)
		ok := func(bs []media.Block, fr []media.Frame) bool {
			x := string(fr[len(fr)-tailN/3].Data)
			for i := len(bs) - 1; i >= 0 && i > len(bs)-2*tailN; i-- {
				if string(bs[i].Data) == x {
					return true
				}
			}
			return false
		}
		return (m.c.Kind == 1 || ok(f.Of(1), m.frames)) && (m.c.Kind == 0 || ok(f.Of(2), m.aframes))
	})
}

// paced sends packets at the times of their frames, through the network.
func (s *sender) paced(pkts []media.Pkt, ims []imp, every time.Duration) {
	s.runAt(pkts, ims, func(i int) time.Duration {
		if pkts[i].Frame == pkts[i-1].Frame {
			return 0
		}
		return every
	})
}

// refused starts a session in a room that does not let it in.
func (c *lkCase) refused(i int, k *LK, h *hist) error {
	s := &c.S[i]
	time.Sleep(time.Duration(s.Late) * ms)
	sid := fmt.Sprintf("m%d", i)
	file := sid + ".webm"
	e, err := s.start(h.p, sid, file, c.name(s.Room))
	if err != nil {
		return err
	}
	mode := c.Rooms[s.Room].Mode
	kicked := strings.HasPrefix(mode, "kick")
	if ok := e.S("status") == "ok"; ok && !kicked || !ok && e.S("error") == "" {
		return fmt.Errorf("session %q: the recorder was not let in (%s), but the start was answered %v", sid, mode, e.Event)
	}
	var mine []*lkConn
	for _, x := range k.Conns(c.name(s.Room)) {
		if strings.HasSuffix(x.Identity, sid) {
			mine = append(mine, x)
		}
	}
	if !poll(patience, func() bool {
		for _, x := range mine {
			if _, closed := x.Left(); !closed {
				return false
			}
		}
		return true
	}) {
		return fmt.Errorf("session %q failed to start, but %v later its connection to the room still exists", sid, patience)
	}
	if e.S("status") == "ok" {
		if l := h.p.WaitN("recordingStopped", sid, 1, patience); len(l) == 0 {
			return fmt.Errorf("session %q was removed from the room, but its end is not published within %v", sid, patience)
		}
	}
	time.Sleep(30 * ms)
	switch l := h.p.Of("recordingStopped", sid); {
	case e.S("status") != "ok" && len(l) > 0:
		return fmt.Errorf("session %q failed to start, but its end is published: %v", sid, l[0].Event)
	case len(l) > 1:
		return fmt.Errorf("the end of session %q is published %d times: %v", sid, len(l), l)
	case len(l) == 1 && l[0].N < e.N:
		return fmt.Errorf("the end of session %q is published before the answer to its start: %v, then %v", sid, l[0].Event, e.Event)
	case len(l) == 1 && l[0].S("reason") != "closed":
		return fmt.Errorf("session %q was removed from the room, but ended with reason %q", sid, l[0].S("reason"))
	}
	if _, err := os.Stat(h.p.Dir + "/" + file); err == nil {
		return fmt.Errorf("session %q failed to start, but there is a file", sid)
	}
	return nil
}

// ------------------------------------------------------------ generators

type lkOpts struct {
	maxS  int
	modes []string
	pace  bool
	wild  bool
	imps  func(t *rapid.T, video bool, n, first int) []imp
	nv    int
}

func genLK(o lkOpts) func(t *rapid.T) lkCase {
	return func(t *rapid.T) lkCase {
		c := lkCase{Pace: o.pace, Wild: o.wild}
		c.Key = rapid.SampledFrom([]string{"key", "APIabc123", "ü k"}).Draw(t, "key")
		c.Sec = rapid.SampledFrom([]string{"a secret of more than thirty-two bytes", "s3cr3t", "\"'\\ %"}).Draw(t, "secret")
		c.Wrong = o.modes != nil && rapid.IntRange(0, 11).Draw(t, "other secret") == 0
		nid := 0
		id := func(p string) string {
			nid++
			return p + rapid.SampledFrom([]string{"", "a", "Zx9", "AAAA"}).Draw(t, "id") + fmt.Sprint(nid)
		}
		nr := rapid.IntRange(1, 2).Draw(t, "rooms")
		for i := 0; i < nr; i++ {
			x := lkRoom{Peer: genPeer(t)}
			x.Peer.AudioFirst = false
			if i > 0 && o.modes != nil {
				x.Mode = rapid.SampledFrom(o.modes).Draw(t, "mode")
			}
			for j := rapid.IntRange(1, 4).Draw(t, "participants"); j > 0; j-- {
				q := lkPart{Sid: id("PA_"), Identity: id(rapid.SampledFrom([]string{"user", "w_", "ü ", "bbb-webrtc-recorder-m"}).Draw(t, "identity"))}
				for n := rapid.IntRange(0, 4).Draw(t, "tracks"); n > 0; n-- {
					q.Tracks = append(q.Tracks, lkTrack{Sid: id("TR_"), Video: rapid.Bool().Draw(t, "video"), Muted: rapid.IntRange(0, 4).Draw(t, "muted") == 0})
				}
				x.Parts = append(x.Parts, q)
			}
			q := &x.Parts[0]
			q.Tracks = append(q.Tracks, lkTrack{Sid: id("TR_"), Video: true}, lkTrack{Sid: id("TR_")})
			c.Rooms = append(c.Rooms, x)
		}
		for n := rapid.IntRange(1, o.maxS).Draw(t, "sessions"); n > 0; n-- {
			s := lkSess{Room: rapid.IntRange(0, nr-1).Draw(t, "room"), Rev: rapid.Bool().Draw(t, "audio first"),
				End: rapid.SampledFrom([]string{"stop", "stop", "stop", "kick"}).Draw(t, "end")}
			s.medSess = medSess{
				Kind: rapid.SampledFrom([]int{0, 1, 2, 2}).Draw(t, "kind"),
				Seq:  rapid.OneOf(rapid.Uint16Range(65300, 65535), rapid.Uint16()).Draw(t, "seq"),
				ASeq: rapid.OneOf(rapid.Uint16Range(65300, 65535), rapid.Uint16()).Draw(t, "aseq"),
				Ts:   rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-300000, 1<<32-1)).Draw(t, "ts"),
				ATs:  rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-200000, 1<<32-1)).Draw(t, "ats"),
				Late: rapid.IntRange(0, 60).Draw(t, "later"),
			}
			room := &c.Rooms[s.Room]
			s.Bad = room.Mode != ""
			var vids, auds []string
			for _, p := range room.Parts {
				for _, x := range p.Tracks {
					if x.Video {
						vids = append(vids, x.Sid)
					} else {
						auds = append(auds, x.Sid)
					}
				}
			}
			if s.Kind != 1 {
				s.Vid = rapid.SampledFrom(vids).Draw(t, "video track")
				s.Mid = rapid.IntRange(0, 3).Draw(t, "first packet lost") == 0
			}
			if s.Kind != 0 {
				s.Aud = rapid.SampledFrom(auds).Draw(t, "audio track")
			}
			if rapid.IntRange(0, 4).Draw(t, "a track that is not there") == 0 {
				s.None = []string{rapid.SampledFrom([]string{"TR_nosuch", "", "TR_", "PA_1"}).Draw(t, "which")}
			}
			d := uint32(0)
			if s.Kind != 1 {
				s.medSess.V = media.GenV(t, media.VOpts{MinFrames: 20, MaxFrames: o.nv, MaxPkts: 4, MaxSize: 300, KeyFirst: true, KeyEvery: 12, Pics: []int{15}})
				d = 3000
				for i := range s.medSess.V.F {
					if o.wild && rapid.IntRange(0, 9).Draw(t, "another pace") == 0 {
						d = rapid.SampledFrom([]uint32{1500, 3000, 9000, 17000, 18000, 19000, 30000, 90000}).Draw(t, "spacing")
					}
					s.medSess.V.F[i].D = d
				}
				_, pkts := s.medSess.V.Compile()
				s.VI = o.imps(t, true, len(pkts), s.medSess.V.First())
			}
			if s.Kind != 0 {
				s.medSess.A = media.GenA(t, media.AOpts{Min: 40, Max: 2 * o.nv})
				d = 960
				for i := range s.medSess.A.F {
					if o.wild && rapid.IntRange(0, 9).Draw(t, "another pace") == 0 {
						d = rapid.SampledFrom([]uint32{480, 960, 960, 2880, 9600, 19200, 48000}).Draw(t, "spacing")
					}
					s.medSess.A.F[i].D = d
				}
				s.AI = o.imps(t, false, len(s.medSess.A.F), 1)
			}
			c.S = append(c.S, s)
		}
		return c
	}
}

// genNear draws reordering and duplicates only.
func genNear(t *rapid.T, video bool, n, first int) (out []imp) {
	used := map[int]bool{}
	for k := rapid.IntRange(0, 6).Draw(t, "impairments"); k > 0 && n > first; k-- {
		m := imp{I: rapid.IntRange(first, n-1).Draw(t, "packet")}
		if rapid.Bool().Draw(t, "overtaken") {
			m.By = rapid.IntRange(1, 3).Draw(t, "by")
		} else {
			m.D = rapid.SampledFrom([]int{1, 2, 5, 30}).Draw(t, "again")
		}
		if !used[m.I] {
			used[m.I] = true
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].I < out[j].I })
	return
}

// genMany draws many losses for good.
func genMany(t *rapid.T, video bool, n, first int) (out []imp) {
	one := rapid.SampledFrom([]int{2, 4, 8, 30}).Draw(t, "one in")
	for i := first; i < n; i++ {
		if rapid.IntRange(1, one).Draw(t, "lost") == 1 {
			out = append(out, imp{I: i, L: -1})
		}
	}
	return
}

// genLost draws losses: of video they are retransmitted or not, of audio never.
func genLost(t *rapid.T, video bool, n, first int) (out []imp) {
	used := map[int]bool{}
	for k := rapid.IntRange(0, 6).Draw(t, "impairments"); k > 0 && n > first; k-- {
		m := imp{I: rapid.IntRange(first, n-1).Draw(t, "packet"), L: -1}
		if video && rapid.Bool().Draw(t, "retransmitted") {
			m.L, m.R = 1, rapid.SampledFrom([]int{0, 0, 10, 30}).Draw(t, "round trip")
		}
		for b := rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(t, "burst"); b > 0 && m.I < n; b-- {
			if !used[m.I] {
				used[m.I] = true
				out = append(out, m)
			}
			m.I++
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].I < out[j].I })
	return
}

func lkFacet(name string, quick, thorough int, o lkOpts) core.Facet[lkCase] {
	return core.Facet[lkCase]{Name: name, Quick: quick, Thorough: thorough, Gen: genLK(o), Confirm: 2, ShrinkSeconds: 60,
		Run: func(c lkCase, r *core.Rec) error {
			var mc medCase
			for _, s := range c.S {
				r.LabelIf(s.Bad || c.Wrong, "not let in: "+c.Rooms[s.Room].Mode)
				if s.Bad || c.Wrong {
					continue
				}
				r.Label("end: " + s.End)
				r.LabelIf(len(s.None) > 0, "a track that is not there")
				n := 0
				for _, p := range c.Rooms[s.Room].Parts {
					n += len(p.Tracks)
				}
				r.LabelIf(n > len(s.want()), "other tracks in the room")
				r.NonTrivialIf(n > len(s.want()))
				mc.S = append(mc.S, s.medSess)
			}
			labelMedia(r, &mc)
			w := watchMachine()
			return w.judge(c.run(r), 120*time.Millisecond)
		}}
}

// lkSlow is about servers that are waited for.
func lkSlow(name string, quick, thorough int) core.Facet[lkCase] {
	f := lkFacet(name, quick, thorough, lkOpts{maxS: 2, nv: 30, imps: genNear})
	gen := f.Gen
	f.Gen = func(t *rapid.T) lkCase {
		c := gen(t)
		c.S = c.S[:1]
		m := rapid.SampledFrom([]string{"silent", "no-offer", "kick-join"}).Draw(t, "mode")
		c.Rooms[c.S[0].Room].Mode = m
		c.S[0].Bad = true
		return c
	}
	f.Confirm = 1
	return f
}

// inRoom lets every session record its own participant of a LiveKit room.
func inRoom(ss []longSess, runs []*medRun) (M, func() error) {
	const key, sec, name = "key", "a secret of more than thirty-two bytes", "room"
	room := &lkRoom{Peer: PeerOpts{VP8: 96, Opus: 111}}
	rooms := map[string]*lkRoom{name: room}
	for i := range ss {
		room.Parts = append(room.Parts, lkPart{Identity: fmt.Sprint("user", i), Sid: fmt.Sprint("PA_", i),
			Tracks: []lkTrack{{Sid: fmt.Sprint("TR_v", i), Video: true}, {Sid: fmt.Sprint("TR_a", i)}}})
	}
	k := NewLK(key, sec, rooms)
	for i, m := range runs {
		s := &lkSess{medSess: ss[i].medSess, End: "stop"}
		if s.Kind != 1 {
			s.Vid = fmt.Sprint("TR_v", i)
		}
		if s.Kind != 0 {
			s.Aud = fmt.Sprint("TR_a", i)
		}
		m.sdk = true
		m.join = func(p *Proc, m *medRun, file string) error {
			var c *lkConn
			return s.joinLK(k, name, p, m, file, &c)
		}
	}
	return M{"livekit": M{"host": k.Host, "apiKey": key, "apiSecret": sec}}, func() error {
		k.Close()
		return k.Odd()
	}
}

// together: a session of both tracks starts with its video.
func genLKUnusable(t *rapid.T) longCase {
	c := genUnusable(t)
	for i := range c.S {
		c.S[i].Kind = 0
	}
	return c
}

func TestC32(t *testing.T) {
	core.Prop("C32",
		core.F(lkFacet("rooms", 160, 4000, lkOpts{maxS: 4, nv: 60, imps: genNear, modes: []string{"", "", "401", "404", "503", "drop", "close", "leave", "odd", "text", "garbage", "kick-sub", "kick-sub"}})),
		core.F(lkFacet("wild", 320, 8000, lkOpts{maxS: 3, nv: 60, imps: genMany, wild: true})),
		core.F(longFacetIn("flow", 24, 600, genFlow, labelFlow, judgeFlow, inRoom)),
		core.F(longFacetIn("keyframes", 24, 600, genLKUnusable, labelUnusable, judgePli, inRoom)),
		core.F(lkSlow("slow", 16, 200)),
		core.F(lkFacet("lost", 80, 2000, lkOpts{maxS: 4, nv: 60, imps: genLost, pace: true})),
	).Run(t)
}
