package he2e

import (
	"fmt"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
)

// Sessions of several seconds, at the pace of real media.

type seg struct {
	N   int // frames
	Gap int // ms of silence that follow
}

type longSess struct {
	medSess
	Every int // ms between frames
	Segs  []seg
	Keys  []int `json:",omitempty"` // video frames that are keyframes
	Lose  []int `json:",omitempty"` // video frames that are lost for good
	NoKey bool  `json:",omitempty"` // media starts without a keyframe
}

type longCase struct {
	S []longSess
}

func (c *longSess) frames() (n int) {
	for _, s := range c.Segs {
		n += s.N
	}
	return
}

// build makes the streams; gap[i] is the silence before frame i.
func (c *longSess) build(m *medRun) []int {
	m.c.V.Pic = 15
	m.c.V.Tag, m.c.A.Tag = uint32(tags.Add(1)), uint32(tags.Add(1))
	keys, lose := map[int]bool{}, map[int]bool{}
	for _, k := range c.Keys {
		keys[k] = true
	}
	for _, k := range c.Lose {
		lose[k] = true
	}
	var gap []int
	before := 0
	for _, s := range c.Segs {
		for i := 0; i < s.N; i++ {
			g := c.Every
			if i == 0 {
				g = before + c.Every
			}
			gap = append(gap, g)
		}
		before = s.Gap
	}
	if c.Kind != 1 {
		v := m.c.V
		for i, g := range gap {
			f := media.VFrame{K: keys[i], N: 80, D: uint32(g * 90)}
			if f.K {
				f.W, f.H = 320, 240
			}
			if i%3 == 0 {
				f.P = []int{30}
			}
			v.F = append(v.F, f)
		}
		m.frames, m.pkts = v.Compile()
		for i := range m.pkts {
			if p := &m.pkts[i]; p.First && lose[p.Frame] {
				p.Lost = true
				m.frames[p.Frame].Arrive--
				m.c.VI = append(m.c.VI, imp{I: i, L: -1})
			}
		}
	}
	if c.Kind != 0 {
		a := m.c.A
		for _, g := range gap {
			a.F = append(a.F, media.AFrame{N: 20, D: uint32(g * 48)})
		}
		m.aframes, m.apkts = a.Compile()
	}
	return gap
}

// pace sends packets at the times of their frames.
func (s *sender) pace(pkts []media.Pkt, ims []imp, gap []int) {
	by := map[int]imp{}
	for _, m := range ims {
		by[m.I] = m
	}
	at := time.Now()
	for i, p := range pkts {
		if i == 0 || pkts[i-1].Frame != p.Frame {
			at = at.Add(time.Duration(gap[p.Frame]) * ms)
			time.Sleep(time.Until(at))
		}
		s.due(p, by[i])
	}
}

func (c *longSess) run(m *medRun, h *hist) error {
	if !c.NoKey {
		if err := m.warm(h); err != nil {
			return err
		}
	} else {
		m.c.V.Seq, m.c.V.Ts = m.c.Seq, m.c.Ts
		m.c.A.Seq, m.c.A.Ts = m.c.ASeq, m.c.ATs
	}
	m.start = time.Now()
	m.count()
	gap := c.build(m)
	m.both(func() { m.vs.pace(m.pkts, m.c.VI, gap) }, func() { m.as.pace(m.apkts, nil, gap) })
	if g := c.Segs[len(c.Segs)-1].Gap; g > 0 {
		time.Sleep(time.Duration(g) * ms)
	}
	return m.finish(h)
}

func longFacet(name string, quick, thorough int, gen func(*rapid.T) longCase, label func(longCase, *core.Rec), judge func(c *longSess, m *medRun, r *core.Rec) error) core.Facet[longCase] {
	return longFacetIn(name, quick, thorough, gen, label, judge, func([]longSess, []*medRun) (M, func() error) { return M{}, nil })
}

// longFacetIn has in prepare the configuration and the server.
func longFacetIn(name string, quick, thorough int, gen func(*rapid.T) longCase, label func(longCase, *core.Rec), judge func(c *longSess, m *medRun, r *core.Rec) error, prepare func([]longSess, []*medRun) (M, func() error)) core.Facet[longCase] {
	return core.Facet[longCase]{Name: name, Quick: quick, Thorough: thorough, Gen: gen, Confirm: 2, ShrinkSeconds: 60,
		Run: func(c longCase, r *core.Rec) error {
			label(c, r)
			w := watchMachine()
			var runs []*medRun
			for i := range c.S {
				s := c.S[i].medSess
				runs = append(runs, &medRun{c: &s})
			}
			cfg, done := prepare(c.S, runs)
			err := execRuns(r, cfg, runs, func(i int, m *medRun, h *hist) error { return c.S[i].run(m, h) })
			if done != nil {
				if e := done(); err == nil {
					err = e
				}
			}
			for i, m := range runs {
				if err != nil {
					break
				}
				if err = judge(&c.S[i], m, r); err != nil {
					err = fmt.Errorf("session %d of %d: %w", i, len(runs), err)
				}
			}
			return w.judge(err, 120*ms)
		}}
}

func genLongSess(t *rapid.T, kinds []int) longSess {
	c := longSess{Every: rapid.SampledFrom([]int{10, 20, 33, 50}).Draw(t, "every")}
	c.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	c.Peer = genPeer(t)
	c.Seq = rapid.OneOf(rapid.Uint16Range(65300, 65535), rapid.Uint16()).Draw(t, "seq")
	c.ASeq = rapid.OneOf(rapid.Uint16Range(65300, 65535), rapid.Uint16()).Draw(t, "aseq")
	c.Ts = rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-300000, 1<<32-1)).Draw(t, "ts")
	c.ATs = rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-200000, 1<<32-1)).Draw(t, "ats")
	c.Late = rapid.IntRange(0, 1000).Draw(t, "later")
	return c
}

// ------------------------------------------------------------ flow

func genFlow(t *rapid.T) longCase {
	var c longCase
	for n := rapid.IntRange(3, 8).Draw(t, "sessions"); n > 0; n-- {
		s := genLongSess(t, []int{0, 0, 1, 1, 1, 2})
		left := 9000
		for left > 0 {
			g := seg{N: rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(5, 60), rapid.IntRange(60, 200)).Draw(t, "frames")}
			if m := 3000 / s.Every; g.N > m {
				g.N = m
			}
			g.Gap = rapid.OneOf(rapid.IntRange(0, 600), rapid.IntRange(2600, 3500), rapid.IntRange(2600, 3500), rapid.IntRange(600, 2600)).Draw(t, "gap")
			left -= g.N*s.Every + g.Gap
			s.Segs = append(s.Segs, g)
		}
		n, k := s.frames(), rapid.IntRange(5, 60).Draw(t, "keyframe interval")
		for i := 0; i < n; i += k {
			s.Keys = append(s.Keys, i)
		}
		c.S = append(c.S, s)
	}
	return c
}

func labelFlow(c longCase, r *core.Rec) {
	for _, s := range c.S {
		r.Label([]string{"video", "audio", "both"}[s.Kind])
		for i, g := range s.Segs {
			r.LabelIf(g.N == 1, "a single packet or frame")
			if i == len(s.Segs)-1 {
				r.LabelIf(g.Gap >= 2600, "stops")
				continue
			}
			r.LabelIf(g.Gap >= 2600, "pause")
			r.LabelIf(g.Gap+s.Every <= 700 && g.Gap >= 300, "short break")
			r.NonTrivialIf(g.Gap >= 2600)
		}
	}
}

func (s *sender) arrivals() (out []time.Time) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, k := range s.sent {
		if !k.arrived.IsZero() {
			out = append(out, k.arrived)
		}
	}
	return
}

// stamped is a frame with the time at which its last packet was sent.
type stamped struct {
	at time.Time
	ms float64 // media time
}

// mediaTimes gives the media time of each frame, relative to the first that was
// recorded.
func (m *medRun) mediaTimes() ([]stamped, error) {
	f := media.ParseWebm(m.final)
	if f.Err != nil {
		return nil, fmt.Errorf("the file is malformed: %v", f.Err)
	}
	s, all, rate, bs := m.vs, append(append([]media.Frame(nil), m.wframes...), m.frames...), 90.0, f.Of(1)
	if m.c.Kind == 1 {
		s, all, rate, bs = m.as, append(append([]media.Frame(nil), m.waudio...), m.aframes...), 48.0, f.Of(2)
	}
	if len(bs) == 0 {
		return nil, fmt.Errorf("nothing was recorded")
	}
	first := -1
	for i := range all {
		if string(all[i].Data) == string(bs[0].Data) {
			first = i
			break
		}
	}
	if first < 0 {
		return nil, fmt.Errorf("the first block is not what was sent")
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	at := map[uint32]time.Time{}
	for _, k := range s.sent {
		at[k.p.P.Timestamp] = k.arrived
	}
	var out []stamped
	for i := first; i < len(all); i++ {
		out = append(out, stamped{at[all[i].Rtp], float64(int32(all[i].Rtp-all[first].Rtp)) / rate})
	}
	return out, nil
}

func judgeFlow(c *longSess, m *medRun, r *core.Rec) error {
	var arr []time.Time
	tracks := 1
	if c.Kind == 2 {
		tracks = 2
	}
	if m.vs != nil {
		arr = m.vs.arrivals()
	} else {
		arr = m.as.arrivals()
	}
	show := func() string {
		s := ""
		for _, e := range m.events {
			s += fmt.Sprintf(" %s at %d (media time %v);", e.S("status"), e.At.Sub(m.start).Milliseconds(), e.F("timestampHR"))
		}
		a := ""
		for i := range arr {
			if i == 0 || i == len(arr)-1 || arr[i].Sub(arr[i-1]) > 500*ms || arr[i+1].Sub(arr[i]) > 500*ms {
				a += fmt.Sprintf(" %d", arr[i].Sub(m.start).Milliseconds())
			}
		}
		return fmt.Sprintf("\nstatus changes:%s\npackets (ms; ends of bursts):%s", s, a)
	}
	n := 0
	for i, e := range m.events {
		switch e.S("status") {
		case "flowing":
			n++
		case "not_flowing":
			n--
		default:
			return fmt.Errorf("status change %d says %q%s", i, e.S("status"), show())
		}
		if n < 0 || n > tracks {
			return fmt.Errorf("status change %d of %d, %q, repeats the status%s", i, len(m.events), e.S("status"), show())
		}
	}
	balance := func(t time.Time) (n int) {
		for _, e := range m.events {
			if e.At.Before(t) {
				n++
				if e.S("status") != "flowing" {
					n -= 2
				}
			}
		}
		return
	}
	between := func(a, b time.Time) bool {
		for _, x := range arr {
			if x.After(a) && x.Before(b) {
				return true
			}
		}
		return false
	}
	// soon after media starts
	if t := m.start.Add(1500 * ms); m.stop.After(t) && balance(t) < tracks && len(m.events) < tracks {
		return fmt.Errorf("not reported as flowing 1.5s after the first media was recorded%s", show())
	}
	for _, e := range m.events {
		if e.S("status") == "flowing" {
			if !between(e.At.Add(-350*ms), e.At) {
				return fmt.Errorf("\"flowing\" is reported at %d, but nothing had been sent for 350ms%s", e.At.Sub(m.start).Milliseconds(), show())
			}
		} else if between(e.At.Add(-750*ms), e.At.Add(-200*ms)) {
			return fmt.Errorf("\"not_flowing\" is reported at %d, but media came within the 750ms before%s", e.At.Sub(m.start).Milliseconds(), show())
		}
	}
	end := m.stop
	for i := range arr {
		next := end
		if i+1 < len(arr) {
			next = arr[i+1]
		}
		if arr[i].Before(m.start) || next.Sub(arr[i]) < 2600*ms {
			continue
		}
		if b := balance(next); b != 0 {
			return fmt.Errorf("the silence from %d to %d is not reported%s", arr[i].Sub(m.start).Milliseconds(), next.Sub(m.start).Milliseconds(), show())
		}
		r.Label("silence reported")
		if next == end || end.Before(next.Add(1000*ms)) {
			continue
		}
		up := 0
		for _, e := range m.events {
			if e.At.After(next) && e.At.Before(next.Add(1000*ms)) && e.S("status") == "flowing" {
				up++
			}
		}
		if up < tracks {
			return fmt.Errorf("the resumption at %d is not reported within 1s%s", next.Sub(m.start).Milliseconds(), show())
		}
		r.Label("resumption reported")
	}
	if tracks > 1 {
		return nil
	}
	// media times
	fr, err := m.mediaTimes()
	if err != nil {
		return err
	}
	for i, e := range m.events {
		hr := e.F("timestampHR")
		lo, hi := -1, -1
		for j, x := range fr {
			if x.at.Before(e.At.Add(-200 * ms)) {
				lo = j
			}
			if x.at.Before(e.At) {
				hi = j
			}
		}
		if e.S("status") == "flowing" && lo >= 0 {
			// at the latest the frame before the one that made it flow
			lo--
		}
		min, max := 0.0, 0.0
		if lo >= 0 {
			min = fr[lo].ms
		}
		if hi >= 0 {
			max = fr[hi].ms
		}
		if hr < min-2 || hr > max+2 {
			return fmt.Errorf("status change %d of %d, %q, is of media time %v, but that was between %.0f and %.0f%s", i, len(m.events), e.S("status"), hr, min, max, show())
		}
	}
	return nil
}

func TestC31(t *testing.T) {
	core.Prop("C31",
		core.F(longFacet("bursts", 64, 2000, genFlow, labelFlow, judgeFlow)),
	).Run(t)
}
