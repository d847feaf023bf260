package he2e

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
)

const ms = time.Millisecond

// judgeNacks compares what was requested with what was missing, from the
// from-th packet on (what came before may not have reached the recorder).
func (s *sender) judgeNacks(from int, sdk bool, end time.Time, r *core.Rec) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	what := "audio"
	if s.video {
		what = "video"
	}
	if len(s.odd) > 0 {
		return fmt.Errorf("%s: %s", what, s.odd[0])
	}
	for _, k := range s.sent[min(from, len(s.sent)):] {
		name := fmt.Sprintf("%s packet %d (%d after the first of the main part)", what, k.p.P.SequenceNumber, k.n-from)
		if k.im.L == 0 && k.im.By == 0 {
			if len(k.asked) > 0 {
				return fmt.Errorf("%s was requested %v after it was delivered in its turn", name, k.asked[0].Sub(k.arrived))
			}
			continue
		}
		if !k.arrived.IsZero() {
			for _, a := range k.asked {
				if a.After(k.arrived.Add(300 * ms)) {
					return fmt.Errorf("%s was requested %v after it was delivered", name, a.Sub(k.arrived))
				}
			}
		}
		if sdk && k.p.P.SequenceNumber > 65000 {
			continue // the library may never request these
		}
		// when was it known to be missing?
		var after []time.Time
		for _, x := range s.sent[k.n+1:] {
			if !x.arrived.IsZero() && x.arrived.Before(end) {
				after = append(after, x.arrived)
			}
		}
		const enough = 15
		if len(after) < enough {
			continue
		}
		sort.Slice(after, func(a, b int) bool { return after[a].Before(after[b]) })
		known := after[enough-1]
		if !k.arrived.IsZero() && k.arrived.Before(known.Add(600*ms)) {
			continue
		}
		if end.After(known.Add(600*ms)) && (len(k.asked) == 0 || k.asked[0].After(known.Add(600*ms))) {
			r.Label("judged")
			return fmt.Errorf("%s is missing and %d newer ones were delivered, but it was not requested within 600ms (asked %d times in all; the recording went on for %v)", name, enough, len(k.asked), end.Sub(known))
		}
		if k.im.L < 0 && end.After(known.Add(1000*ms)) {
			r.Label("never answered")
			if len(k.asked) < 5 {
				return fmt.Errorf("%s never came, and was requested only %d times in %v", name, len(k.asked), end.Sub(known))
			}
		}
	}
	return nil
}

func (m *medRun) judgeNacks(r *core.Rec) error {
	if m.vs != nil {
		if err := m.vs.judgeNacks(m.nv, m.sdk, m.stop, r); err != nil {
			return err
		}
	}
	if m.as != nil {
		return m.as.judgeNacks(m.na, m.sdk, m.stop, r)
	}
	return nil
}

// ------------------------------------------------------------ keyframes

func genUnusable(t *rapid.T) longCase {
	var c longCase
	for n := rapid.IntRange(3, 8).Draw(t, "sessions"); n > 0; n-- {
		s := genLongSess(t, []int{0, 0, 0, 2})
		s.Every = rapid.SampledFrom([]int{20, 33, 50}).Draw(t, "every")
		n := rapid.IntRange(3000, 7500).Draw(t, "ms") / s.Every
		s.Segs = []seg{{N: n}}
		at := func(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, name) / s.Every }
		if rapid.IntRange(0, 3).Draw(t, "nothing wrong") == 0 {
			n = rapid.IntRange(5500, 8500).Draw(t, "longer") / s.Every
			s.Segs[0].N, s.Keys = n, []int{0}
			c.S = append(c.S, s)
			continue
		}
		s.NoKey = rapid.IntRange(0, 2).Draw(t, "no keyframe at first") == 0
		i := 0
		if s.NoKey {
			i = at("first keyframe", 2000, 4000)
		}
		for i < n {
			s.Keys = append(s.Keys, i)
			l := i + 1 + at("lost", 0, 1500)
			if rapid.IntRange(0, 5).Draw(t, "the keyframe") == 0 {
				l = i
			}
			if l < n {
				s.Lose = append(s.Lose, l)
				if rapid.Bool().Draw(t, "more") && l+1 < n {
					s.Lose = append(s.Lose, l+1)
				}
			}
			i = l + 2 + at("next keyframe", 100, 3500)
		}
		if s.NoKey && len(s.Lose) > 0 && s.Lose[0] == s.Keys[0] {
			s.Lose = s.Lose[1:]
		}
		c.S = append(c.S, s)
	}
	return c
}

func labelUnusable(c longCase, r *core.Rec) {
	for _, s := range c.S {
		r.Label([]string{"video", "audio", "both"}[s.Kind])
		r.LabelIf(s.NoKey, "starts without a keyframe")
		r.LabelIf(len(s.Lose) > 0, "lost for good")
		r.LabelIf(!s.NoKey && len(s.Lose) == 0, "nothing wrong")
		r.NonTrivialIf(s.NoKey || len(s.Lose) > 0)
	}
}

func judgePli(c *longSess, m *medRun, r *core.Rec) error {
	if err := m.judgeNacks(r); err != nil && !c.NoKey {
		return err
	}
	var plis []time.Time
	ssrc := m.l.peer.SSRC("video")
	for _, k := range m.rtcps {
		if k.Pli && k.SSRC == ssrc {
			plis = append(plis, k.At)
		} else if k.Pli {
			return fmt.Errorf("a picture loss indication is about %d, which is not the video stream %d", k.SSRC, ssrc)
		}
	}
	show := func() string {
		s := "\npicture loss indications:"
		for _, p := range plis {
			s += fmt.Sprintf(" %d", p.Sub(m.start).Milliseconds())
		}
		return s + fmt.Sprintf("; end: %d", m.stop.Sub(m.start).Milliseconds())
	}
	// silent finds a time without any of them
	silent := func(a, b time.Time, limit time.Duration) (time.Time, bool) {
		last := a
		for _, p := range plis {
			if p.After(a) && p.Before(b) {
				if p.Sub(last) > limit {
					return last, true
				}
				last = p
			}
		}
		return last, b.Sub(last) > limit
	}
	if t, no := silent(m.start, m.stop, 5*time.Second); no {
		return fmt.Errorf("no picture loss indication within 5s of %d%s", t.Sub(m.start).Milliseconds(), show())
	}
	at := map[int]time.Time{}
	lost := map[int]bool{}
	m.vs.mu.Lock()
	for _, k := range m.vs.sent[m.nv:] {
		at[k.p.Frame] = k.due
		if k.p.Lost {
			lost[k.p.Frame] = true
		}
	}
	m.vs.mu.Unlock()
	bad := c.NoKey
	since := m.start
	check := func(until time.Time) error {
		if until.Sub(since) < 2000*ms {
			return nil
		}
		r.Label("unusable for long")
		t, no := silent(since, since.Add(2000*ms), 1999*ms)
		if !no {
			t, no = silent(since.Add(500*ms), until, 1500*ms)
		}
		if no {
			return fmt.Errorf("video cannot be decoded from %d to %d, but no keyframe is requested for long from %d on%s", since.Sub(m.start).Milliseconds(), until.Sub(m.start).Milliseconds(), t.Sub(m.start).Milliseconds(), show())
		}
		return nil
	}
	for i := range m.frames {
		switch {
		case lost[i] && !bad:
			bad, since = true, at[i]
		case !lost[i] && m.frames[i].Key && bad:
			bad = false
			if err := check(at[i]); err != nil {
				return err
			}
		}
	}
	if bad {
		return check(m.stop)
	}
	return nil
}

func TestC30(t *testing.T) {
	core.Prop("C30",
		core.F(mediaFacet("requests", 240, 6000, medOpts{maxS: 3, frames: 100, losses: 5}, (*medRun).judgeNacks)),
		core.F(mediaFacet("answered", 160, 4000, medOpts{maxS: 3, recover: true, frames: 100, losses: 8}, (*medRun).judgeNacks)),
		core.F(longFacet("unusable", 48, 1500, genUnusable, labelUnusable, judgePli)),
	).Run(t)
}
