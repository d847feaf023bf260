package he2e

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
)

// ------------------------------------------------------------ the network

// imp is what the network does to a packet.
type imp struct {
	I  int // packet
	L  int `json:",omitempty"` // lost: retransmitted upon so many requests, never if negative
	R  int `json:",omitempty"` // milliseconds until the retransmission
	By int `json:",omitempty"` // overtaken by so many packets
	D  int `json:",omitempty"` // duplicated so many packets later
}

// sentPkt is a packet that was due to be sent.
type sentPkt struct {
	p       media.Pkt
	im      imp
	n       int       // position in the stream
	due     time.Time // when it would have been sent
	arrived time.Time // when it was
	asked   []time.Time
}

// sender sends one track of a peer through a bad network, and answers requests.
type sender struct {
	peer  *Peer
	video bool
	mu    sync.Mutex
	sent  []*sentPkt
	bySeq map[uint16]*sentPkt
	odd   []string // requests for packets that were not sent
	done  bool
}

func newSender(p *Peer, video bool) *sender {
	return &sender{peer: p, video: video, bySeq: map[uint16]*sentPkt{}}
}

func (s *sender) deliver(k *sentPkt) {
	if k.arrived.IsZero() {
		k.arrived = time.Now()
	}
	s.peer.Write(s.video, k.p.P)
}

// due registers a packet whose turn it is.
func (s *sender) due(p media.Pkt, im imp) *sentPkt {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := &sentPkt{p: p, im: im, n: len(s.sent), due: time.Now()}
	s.sent = append(s.sent, k)
	s.bySeq[p.P.SequenceNumber] = k
	if im.L == 0 && im.By == 0 {
		s.deliver(k)
	}
	return k
}

func (s *sender) nack(seqs []uint16) {
	now := time.Now()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, q := range seqs {
		k := s.bySeq[q]
		if k == nil {
			s.odd = append(s.odd, fmt.Sprintf("packet %d was requested, which was not sent", q))
			continue
		}
		k.asked = append(k.asked, now)
		if k.im.L < 0 || len(k.asked) < k.im.L || s.done {
			continue
		}
		time.AfterFunc(time.Duration(k.im.R)*time.Millisecond, func() {
			s.mu.Lock()
			defer s.mu.Unlock()
			if !s.done {
				s.deliver(k)
			}
		})
	}
}

// run sends packets at a steady pace.
func (s *sender) run(pkts []media.Pkt, ims []imp, every time.Duration) {
	s.runAt(pkts, ims, func(int) time.Duration { return every })
}

// runAt sends packets, with a pause before each.
func (s *sender) runAt(pkts []media.Pkt, ims []imp, every func(i int) time.Duration) {
	by := map[int]imp{}
	for _, m := range ims {
		if m.I < len(pkts) {
			by[m.I] = m
		}
	}
	type slot struct{ pos, i, what int } // 0 due, 1 the delayed one, 2 a duplicate
	var l []slot
	for i := range pkts {
		l = append(l, slot{i * 2, i, 0})
		m := by[i]
		if m.By > 0 {
			l = append(l, slot{(i+m.By)*2 + 1, i, 1})
		}
		if m.D > 0 && m.L == 0 {
			l = append(l, slot{(i+m.By+m.D)*2 + 1, i, 2})
		}
	}
	sort.SliceStable(l, func(a, b int) bool { return l[a].pos < l[b].pos })
	ks := make([]*sentPkt, len(pkts))
	next := time.Now()
	for _, x := range l {
		switch x.what {
		case 0:
			if d := time.Until(next); d > 0 {
				time.Sleep(d)
			}
			if x.i+1 < len(pkts) {
				next = next.Add(every(x.i + 1))
			}
			if now := time.Now(); next.Before(now) {
				next = now
			}
			ks[x.i] = s.due(pkts[x.i], by[x.i])
		case 1:
			if by[x.i].L == 0 {
				s.mu.Lock()
				s.deliver(ks[x.i])
				s.mu.Unlock()
			}
		case 2:
			s.mu.Lock()
			s.deliver(ks[x.i])
			s.mu.Unlock()
		}
	}
}

func (s *sender) stop() {
	s.mu.Lock()
	s.done = true
	s.mu.Unlock()
}

// ------------------------------------------------------------ the machine

// machine notices that the machine, not the recorder, was slow or lost packets.
type machine struct {
	stop  chan bool
	end   chan bool
	worst time.Duration
	drops int64
}

func udpDrops() int64 {
	b, _ := os.ReadFile("/proc/net/snmp")
	var keys []string
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || f[0] != "Udp:" {
			continue
		}
		if keys == nil {
			keys = f
			continue
		}
		n := int64(0)
		for i, k := range keys {
			if (k == "RcvbufErrors" || k == "SndbufErrors" || k == "InErrors") && i < len(f) {
				var v int64
				fmt.Sscan(f[i], &v)
				n += v
			}
		}
		return n
	}
	return 0
}

func watchMachine() *machine {
	m := &machine{stop: make(chan bool), end: make(chan bool), drops: udpDrops()}
	go func() {
		last := time.Now()
		for {
			select {
			case <-m.stop:
				close(m.end)
				return
			case <-time.After(2 * time.Millisecond):
			}
			now := time.Now()
			m.worst = max(m.worst, now.Sub(last))
			last = now
		}
	}()
	return m
}

// judge turns a failure that the machine may have caused into no answer.
func (m *machine) judge(err error, limit time.Duration) error {
	close(m.stop)
	<-m.end
	switch {
	case err == nil:
		return nil
	case m.worst > limit:
		return core.Inconcl("the machine stood still for %v: %v", m.worst, err)
	case udpDrops() != m.drops:
		return core.Inconcl("the machine dropped packets: %v", err)
	}
	return err
}

// ------------------------------------------------------------ sessions

type medSess struct {
	Kind int // 0 video, 1 audio, 2 both
	Peer PeerOpts
	Seq  uint16
	ASeq uint16
	Ts   uint32
	ATs  uint32
	V    media.VStream // after the first keyframes
	A    media.AStream
	VI   []imp `json:",omitempty"`
	AI   []imp `json:",omitempty"`
	Late int   `json:",omitempty"` // ms before it starts
}

type medCase struct {
	S       []medSess
	Timeout int // of the jitter buffer
	Pause   int // ms before the last packets
	IVF     bool
}

type medRun struct {
	c           *medSess
	l           *live
	vs, as      *sender
	frames      []media.Frame // main and tail
	pkts        []media.Pkt
	tail        int // first frame of the tail
	aframes     []media.Frame
	apkts       []media.Pkt
	atail       int
	final       []byte
	end         Event
	wframes     []media.Frame // sent before the main part
	sdk         bool          // requests come from the LiveKit client library
	mid         bool          // the very first packet is lost
	waudio      []media.Frame
	nv, na      int // packets sent before
	start, stop time.Time
	events      []Got  // status changes
	rtcps       []Rtcp // received

	// instead of an offer of the peer's and stopRecording
	join func(p *Proc, m *medRun, file string) error
	quit func(h *hist)
}

// warm gets the recorder to receive: keyframes and audio packets are sent until
// they are recorded.
func (m *medRun) warm(h *hist) error {
	c, l := m.c, m.l
	exists := func() bool { _, err := os.Stat(l.file); return err == nil }
	ta := uint32(tags.Add(1))
	tv := uint32(tags.Add(1))
	// with LiveKit, the recorder knows about the video and waits for it
	together := c.Kind == 2 && m.join != nil
	if together {
		c.A.Seq, c.A.Ts = c.ASeq, c.ATs
	} else if c.Kind != 0 {
		a := media.AStream{Seq: c.ASeq, Ts: c.ATs, Tag: ta}
		for i := 0; i < 3000; i++ {
			a.F = append(a.F, media.AFrame{N: 20, D: 960})
		}
		frames, pkts := a.Compile()
		n := 0
		defer func() { m.waudio = append(m.waudio, frames[:n]...) }()
		if !poll(patience, func() bool {
			if n < len(pkts) {
				m.as.due(pkts[n], imp{})
				n++
			}
			return exists()
		}) {
			return fmt.Errorf("session %q: no audio was recorded within %v\n%s", l.sid, patience, h.p.Log())
		}
		c.A.Seq = c.ASeq + uint16(n)
		c.A.Ts = pkts[n-1].P.Timestamp + 960
	}
	if c.Kind != 1 {
		v := media.VStream{Pic: 15, Seq: c.Seq, Ts: c.Ts, Tag: tv, PicID: c.V.PicID}
		for i := 0; i < 150; i++ {
			v.F = append(v.F, media.VFrame{K: true, W: 320, H: 240, N: 60, D: 3000})
		}
		first := imp{}
		if m.mid {
			v.F[0].P = []int{30}
			first.L = -1
		}
		frames, pkts := v.Compile()
		n := 0
		defer func() {
			if n > 0 {
				m.wframes = append(m.wframes, frames[:pkts[n-1].Frame+1]...)
			}
		}()
		wait, next := time.Millisecond, time.Now()
		if !poll(patience, func() bool {
			if c.Kind == 0 && exists() {
				return true
			}
			if b, _ := os.ReadFile(l.file); c.Kind == 2 && len(media.ParseWebm(b).Of(1)) > 0 && (!together || len(media.ParseWebm(b).Of(2)) > 0) {
				return true
			}
			if n < len(pkts) && !time.Now().Before(next) {
				m.vs.due(pkts[n], first)
				first = imp{}
				n++
				if c.Kind == 2 {
					// the blocks of one track wait for the other's
					m.audio(1)
				}
				next = time.Now().Add(wait)
				wait = wait * 3 / 2
			}
			return false
		}) {
			return fmt.Errorf("session %q: none of %d keyframes was recorded within %v\n%s", l.sid, n, patience, h.p.Log())
		}
		c.V.Seq = c.Seq + uint16(n)
		c.V.PicID += uint16(pkts[n-1].Frame + 1)
		c.V.Ts = pkts[n-1].P.Timestamp + 3000
	}
	return nil
}

// audio sends further audio packets from before the main part.
func (m *medRun) audio(n int) {
	a := media.AStream{Seq: m.c.A.Seq, Ts: m.c.A.Ts, Tag: uint32(tags.Add(1))}
	for i := 0; i < n; i++ {
		a.F = append(a.F, media.AFrame{N: 20, D: 960})
	}
	frames, pkts := a.Compile()
	m.waudio = append(m.waudio, frames...)
	for _, p := range pkts {
		m.as.due(p, imp{})
	}
	m.c.A.Seq += uint16(n)
	m.c.A.Ts += uint32(n) * 960
}

const tailN = 24

func (m *medRun) compile() {
	c := m.c
	c.V.Pic = 15
	c.V.Tag, c.A.Tag = uint32(tags.Add(1)), uint32(tags.Add(1))
	v, a := c.V, c.A
	m.tail, m.atail = len(v.F), len(a.F)
	v.F, a.F = append([]media.VFrame(nil), v.F...), append([]media.AFrame(nil), a.F...)
	for i := 0; i < tailN; i++ {
		v.F = append(v.F, media.VFrame{K: true, W: 320, H: 240, N: 60, D: 3000})
		a.F = append(a.F, media.AFrame{N: 20, D: 960})
	}
	m.frames, m.pkts = v.Compile()
	m.aframes, m.apkts = a.Compile()
	for _, x := range c.VI {
		if x.L < 0 && x.I < len(m.pkts) && !m.pkts[x.I].Lost {
			m.pkts[x.I].Lost = true
			m.frames[m.pkts[x.I].Frame].Arrive--
		}
	}
	for _, x := range c.AI {
		if x.L < 0 && x.I < len(m.apkts) && !m.apkts[x.I].Lost {
			m.apkts[x.I].Lost = true
			m.aframes[m.apkts[x.I].Frame].Arrive--
		}
	}
}

func (m *medRun) vcut() int {
	for i := range m.pkts {
		if m.pkts[i].Frame >= m.tail {
			return i
		}
	}
	return len(m.pkts)
}

// count remembers how much was sent before the main part.
func (m *medRun) count() {
	if m.vs != nil {
		m.nv = len(m.vs.sent)
	}
	if m.as != nil {
		m.na = len(m.as.sent)
	}
}

// both does something with each of the tracks that there are.
func (m *medRun) both(video, audio func()) {
	var w sync.WaitGroup
	if m.c.Kind != 1 {
		w.Add(1)
		go func() { defer w.Done(); video() }()
	}
	if m.c.Kind != 0 {
		w.Add(1)
		go func() { defer w.Done(); audio() }()
	}
	w.Wait()
}

// finish ends the recording.
func (m *medRun) finish(h *hist) error {
	for _, s := range []*sender{m.vs, m.as} {
		if s != nil {
			s.stop()
		}
	}
	m.stop = time.Now()
	if m.quit != nil {
		m.quit(h)
	} else {
		h.p.Send(M{"id": "stopRecording", "recordingSessionId": m.l.sid})
	}
	g := h.p.WaitN("recordingStopped", m.l.sid, 1, patience)
	if len(g) == 0 {
		return fmt.Errorf("session %q: no recordingStopped within %v", m.l.sid, patience)
	}
	m.end = g[0].Event
	m.final, _ = os.ReadFile(m.l.file)
	return nil
}

func (m *medRun) run(h *hist, c *medCase) error {
	if err := m.warm(h); err != nil {
		return err
	}
	m.compile()
	m.count()
	both := m.both
	cut := m.vcut()
	// the jitter buffer moves on only when something arrives
	pace, tailPace := time.Millisecond, 15*time.Millisecond
	if c.Timeout < 1000 {
		pace, tailPace = 2*time.Millisecond, 45*time.Millisecond
	}
	both(func() { m.vs.run(m.pkts[:cut], m.c.VI, pace) }, func() { m.as.run(m.apkts[:m.atail], m.c.AI, pace) })
	time.Sleep(time.Duration(c.Pause) * time.Millisecond)
	both(func() { m.vs.run(m.pkts[cut:], nil, tailPace) }, func() { m.as.run(m.apkts[m.atail:], nil, tailPace) })
	// what comes after everything that matters has come
	poll(4*time.Second, func() bool {
		b, _ := os.ReadFile(m.l.file)
		f := media.ParseWebm(b)
		ok := func(bs []media.Block, fr []media.Frame) bool {
			for _, x := range fr[len(fr)-tailN/2 : len(fr)-tailN/3] {
				for i := len(bs) - 1; i >= 0 && i > len(bs)-2*tailN; i-- {
					if bytes.Equal(bs[i].Data, x.Data) {
						return true
					}
				}
			}
			return false
		}
		return (m.c.Kind == 1 || ok(f.Of(1), m.frames)) && (m.c.Kind == 0 || ok(f.Of(2), m.aframes))
	})
	time.Sleep(50 * time.Millisecond)
	return m.finish(h)
}

// exec runs the sessions of a case side by side.
func (c *medCase) exec(r *core.Rec) ([]*medRun, error) {
	cfg := M{"webrtc": M{"jitterBufferPktTimeout": c.Timeout}, "recorder": M{"writeIVFCopy": c.IVF}}
	var runs []*medRun
	for i := range c.S {
		s := c.S[i]
		runs = append(runs, &medRun{c: &s})
	}
	return runs, execRuns(r, cfg, runs, func(i int, m *medRun, h *hist) error { return m.run(h, c) })
}

func execRuns(r *core.Rec, cfg M, runs []*medRun, each func(int, *medRun, *hist) error) error {
	red := NewRedis("")
	defer red.Close()
	p := MustStart(Opts{Redis: red, Config: cfg})
	defer p.Stop()
	h := &hist{r: r, p: p}
	errs := make([]error, len(runs))
	var w sync.WaitGroup
	for i, m := range runs {
		i, m := i, m // the module's Go version shares them
		w.Add(1)
		go func() {
			defer w.Done()
			errs[i] = core.Guard(func() error {
				if m.c == nil {
					return each(i, m, h)
				}
				time.Sleep(time.Duration(m.c.Late) * time.Millisecond)
				m.l = &live{sid: fmt.Sprintf("m%d", i), kind: m.c.Kind}
				if m.join == nil {
					m.l.peer = NewPeerWith(m.c.Kind != 1, m.c.Kind != 0, m.c.Peer)
				} else if err := m.join(p, m, fmt.Sprintf("m%d.webm", i)); err != nil {
					return err
				}
				defer m.l.peer.Close()
				if m.c.Kind != 1 {
					m.vs = newSender(m.l.peer, true)
				}
				if m.c.Kind != 0 {
					m.as = newSender(m.l.peer, false)
				}
				m.l.peer.mu.Lock()
				m.l.peer.onNack = func(kind string, seqs []uint16) {
					if kind == "video" {
						m.vs.nack(seqs)
					} else {
						m.as.nack(seqs)
					}
				}
				m.l.peer.mu.Unlock()
				if m.join == nil {
					if err := connect(p, m.l, fmt.Sprintf("m%d.webm", i)); err != nil {
						return err
					}
				}
				if err := each(i, m, h); err != nil {
					return err
				}
				m.events = p.Of("recordingRtpStatusChanged", m.l.sid)
				m.rtcps = m.l.peer.Rtcps()
				return nil
			})
		}()
	}
	w.Wait()
	if err := p.Died(); err != nil {
		return err
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// blocksOf matches recorded blocks with frames of the main part; what precedes
// the main part may be anything.
func matchMain(bs []media.Block, fr []media.Frame, what string) (map[int]media.Block, error) {
	by := map[string]int{}
	for i := range fr {
		by[string(fr[i].Data)] = i
	}
	got := map[int]media.Block{}
	last := -1
	for n, b := range bs {
		i, ok := by[string(b.Data)]
		switch {
		case !ok && last >= 0:
			return nil, fmt.Errorf("%s block %d of %d (after %s frame %d of %d) is not what was sent: %d bytes, % x…", what, n, len(bs), what, last, len(fr), len(b.Data), b.Data[:min(len(b.Data), 12)])
		case !ok:
		case i <= last:
			return nil, fmt.Errorf("%s frame %d was recorded after frame %d", what, i, last)
		default:
			last = i
			got[i] = b
		}
	}
	return got, nil
}

func judgeSpacing(got map[int]media.Block, fr []media.Frame, rate float64, what string) error {
	first := -1
	for i := range fr {
		b, ok := got[i]
		if !ok {
			continue
		}
		if first < 0 {
			first = i
			continue
		}
		want := float64(fr[i].Ts-fr[first].Ts) / rate
		if d := float64(b.T-got[first].T) - want; math.Abs(d) > 2+float64(i)/5000 {
			return fmt.Errorf("%s frame %d is %d ms after frame %d, it should be %.1f ms", what, i, b.T-got[first].T, first, want)
		}
	}
	return nil
}

func (m *medRun) judgeFile(recover bool) error {
	f := media.ParseWebm(m.final)
	if f.Err != nil || f.Truncated {
		return fmt.Errorf("%s is malformed: %v", m.l.file, f.Err)
	}
	if m.c.Kind != 1 {
		got, err := matchMain(f.Of(1), m.frames, "video")
		if err != nil {
			return err
		}
		class, _ := media.Classify(m.frames, m.pkts, true)
		for i, k := range class {
			_, has := got[i]
			if k == media.Must && !has {
				return fmt.Errorf("video frame %d of %d (main part: %d) is missing, %d recorded; impairments %+v", i, len(m.frames), m.tail, len(got), m.c.VI)
			}
			if k == media.MustNot && has {
				return fmt.Errorf("video frame %d was recorded though it cannot be decoded; impairments %+v", i, m.c.VI)
			}
		}
		if err := judgeSpacing(got, m.frames, 90, "video"); err != nil {
			return err
		}
	}
	if m.c.Kind != 0 {
		got, err := matchMain(f.Of(2), m.aframes, "audio")
		if err != nil {
			return err
		}
		for i, x := range m.aframes {
			_, has := got[i]
			if !has && x.Arrive > 0 {
				return fmt.Errorf("audio packet %d of %d (main part: %d) is missing, %d recorded; impairments %+v", i, len(m.aframes), m.atail, len(got), m.c.AI)
			}
			if has && x.Arrive == 0 {
				return fmt.Errorf("audio packet %d was recorded though it never arrived", i)
			}
		}
		if err := judgeSpacing(got, m.aframes, 48, "audio"); err != nil {
			return err
		}
	}
	return nil
}

// ------------------------------------------------------------ generators

type medOpts struct {
	maxS    int
	recover bool // every lost packet is retransmitted in time
	frames  int
	losses  int
}

func genMedia(o medOpts) func(t *rapid.T) medCase {
	return func(t *rapid.T) medCase {
		c := medCase{IVF: rapid.IntRange(0, 3).Draw(t, "ivf") == 0}
		if o.recover {
			c.Timeout = rapid.SampledFrom([]int{3000, 10000, 30000}).Draw(t, "timeout")
			c.Pause = rapid.IntRange(250, 400).Draw(t, "pause")
		} else {
			c.Timeout = rapid.SampledFrom([]int{200, 200, 300, 400}).Draw(t, "timeout")
			c.Pause = rapid.IntRange(600, 900).Draw(t, "pause")
		}
		for n := rapid.SampledFrom([]int{1, 1, 2, 3}[:o.maxS+1]).Draw(t, "sessions"); n > 0; n-- {
			s := medSess{
				Kind: rapid.SampledFrom([]int{0, 0, 1, 2, 2}).Draw(t, "kind"),
				Peer: genPeer(t),
				Seq:  rapid.OneOf(rapid.Uint16Range(65300, 65535), rapid.Uint16()).Draw(t, "seq"),
				ASeq: rapid.OneOf(rapid.Uint16Range(65300, 65535), rapid.Uint16()).Draw(t, "aseq"),
				Ts:   rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-300000, 1<<32-1)).Draw(t, "ts"),
				ATs:  rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-200000, 1<<32-1)).Draw(t, "ats"),
				Late: rapid.IntRange(0, 60).Draw(t, "later"),
			}
			if s.Kind != 1 {
				s.V = media.GenV(t, media.VOpts{MinFrames: 20, MaxFrames: o.frames, MaxPkts: 4, MaxSize: 300, KeyFirst: true, KeyEvery: 12, Pics: []int{15}})
				_, pkts := s.V.Compile()
				s.VI = genImps(t, o, len(pkts), s.V.First())
			}
			if s.Kind != 0 {
				s.A = media.GenA(t, media.AOpts{Min: 40, Max: 2 * o.frames})
				s.AI = genImps(t, o, len(s.A.F), 1)
			}
			c.S = append(c.S, s)
		}
		return c
	}
}

func genPeer(t *rapid.T) PeerOpts {
	return PeerOpts{
		VP8:        rapid.SampledFrom([]uint8{96, 96, 101, 120, 100}).Draw(t, "vp8 type"),
		Opus:       rapid.SampledFrom([]uint8{111, 111, 100 + 9, 127, 98}).Draw(t, "opus type"),
		Extra:      rapid.Bool().Draw(t, "further codecs"),
		AudioFirst: rapid.Bool().Draw(t, "audio first"),
	}
}

// genImps draws impairments of packets from the first-th on.
func genImps(t *rapid.T, o medOpts, n, first int) (out []imp) {
	used := map[int]bool{}
	for k := rapid.IntRange(0, o.losses).Draw(t, "impairments"); k > 0; k-- {
		if n <= first {
			break
		}
		m := imp{I: rapid.IntRange(first, n-1).Draw(t, "packet")}
		kind := rapid.IntRange(0, 5).Draw(t, "impairment")
		burst := 1
		switch kind {
		case 0, 1, 2:
			m.L = rapid.SampledFrom([]int{1, 1, 2, 3, 4}).Draw(t, "requests")
			m.R = rapid.SampledFrom([]int{0, 0, 10, 50, 100}).Draw(t, "round trip")
			burst = rapid.SampledFrom([]int{1, 1, 2, 5, 20, 40}).Draw(t, "burst")
			if !o.recover {
				m.L, m.R = -1, 0
			}
		case 3, 4:
			m.By = rapid.IntRange(1, 20).Draw(t, "by")
			if o.recover && rapid.Bool().Draw(t, "far") {
				m.By = rapid.IntRange(20, 200).Draw(t, "by far")
			}
		case 5:
			m.D = rapid.SampledFrom([]int{1, 2, 5, 30, 150}).Draw(t, "again")
		}
		for ; burst > 0 && m.I < n; burst-- {
			if !used[m.I] {
				used[m.I] = true
				out = append(out, m)
			}
			m.I++
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].I < out[j].I })
	return
}

func labelMedia(r *core.Rec, c *medCase) {
	r.LabelIf(len(c.S) > 1, "several sessions")
	for _, s := range c.S {
		r.Label([]string{"video", "audio", "both"}[s.Kind])
		for _, m := range append(append([]imp(nil), s.VI...), s.AI...) {
			r.LabelIf(m.L > 0, "lost and retransmitted")
			r.LabelIf(m.L < 0, "lost for good")
			r.LabelIf(m.By > 0, "reordered")
			r.LabelIf(m.D > 0, "duplicated")
			r.NonTrivial()
		}
	}
}

func mediaFacet(name string, quick, thorough int, o medOpts, judge func(m *medRun, r *core.Rec) error) core.Facet[medCase] {
	return core.Facet[medCase]{Name: name, Quick: quick, Thorough: thorough, Gen: genMedia(o), Confirm: 2, ShrinkSeconds: 40,
		Run: func(c medCase, r *core.Rec) error {
			labelMedia(r, &c)
			w := watchMachine()
			runs, err := c.exec(r)
			for i, m := range runs {
				if err != nil {
					break
				}
				if err = judge(m, r); err != nil {
					err = fmt.Errorf("session %d of %d: %w", i, len(runs), err)
				}
			}
			return w.judge(err, 120*time.Millisecond)
		}}
}

func TestC29(t *testing.T) {
	file := func(m *medRun, r *core.Rec) error { return m.judgeFile(true) }
	core.Prop("C29",
		core.F(mediaFacet("recovered", 320, 8000, medOpts{maxS: 3, recover: true, frames: 100, losses: 8}, file)),
		core.F(mediaFacet("lost", 240, 6000, medOpts{maxS: 3, frames: 100, losses: 5}, file)),
	).Run(t)
}
