package hrec

import (
	"fmt"
	"math"
	"os"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
)

// ---------------------------------------------------------------- C14

type audioOpts struct {
	media.AOpts
	disturb bool
	video   bool
	queues  bool
	late    bool // the audio may start much later than the video
	stalls  bool // the network holds one of the two back for a while
}

func genAudio(o audioOpts) func(t *rapid.T) videoCase {
	return func(t *rapid.T) videoCase {
		a := media.GenA(t, o.AOpts)
		c := videoCase{A: &a, HasA: true, NoV: true, After: rapid.IntRange(0, 3).Draw(t, "after")}
		if o.disturb {
			for range a.F {
				d := 0
				// the stream is entered at its first packet
				if rapid.IntRange(0, 4).Draw(t, "late") == 0 && len(c.Delay) > 0 {
					d = rapid.IntRange(1, 15).Draw(t, "by")
				}
				c.Delay = append(c.Delay, d)
				d = 0
				if rapid.IntRange(0, 9).Draw(t, "dup") == 0 {
					d = rapid.IntRange(1, 12).Draw(t, "dupby")
				}
				c.Dup = append(c.Dup, d)
			}
		}
		if o.queues {
			c.AQueue = rapid.SampledFrom([]uint16{0, 0, 8, 4}).Draw(t, "aqueue")
		}
		if o.video {
			c.NoV = false
			if o.late {
				c.Queue = rapid.SampledFrom([]uint16{1, 8, 0}).Draw(t, "vqueue")
				c.V = media.GenV(t, media.VOpts{MinFrames: 30, MaxFrames: 120, MaxPkts: 2, MaxSize: 40, Gaps: true, RealTime: true})
			} else {
				c.V = media.GenV(t, media.VOpts{MinFrames: 1, MaxFrames: 30, Loss: rapid.Bool().Draw(t, "vloss"), Pad: true, MaxPkts: 3, MaxSize: 60, Gaps: true})
			}
			c.ADelay = rapid.IntRange(0, 600).Draw(t, "adelay")
			if o.late {
				c.ADelay = rapid.SampledFrom([]int{1000, 20000, 31000, 34000, 70000, 600000}).Draw(t, "late")
			}
			c.Notify = rapid.IntRange(0, 2).Draw(t, "notify")
			if o.stalls {
				c.ADelay = rapid.IntRange(0, 100).Draw(t, "a later")
				c.Queue = rapid.SampledFrom([]uint16{1, 1, 8, 0}).Draw(t, "small queue")
				c.V = media.GenV(t, media.VOpts{KeyFirst: true, MinFrames: 30, MaxFrames: 150, MaxPkts: 2, MaxSize: 40})
				c.AStall = genStalls(t, len(a.F), 8000)
				if rapid.IntRange(0, 2).Draw(t, "video too") == 0 {
					c.VStall = genStalls(t, len(c.V.F), 8000)
				}
			}
		}
		return c
	}
}

func (v *videoRun) judgeAudio(c *videoCase, r *core.Rec) error {
	blocks := v.f.Of(2)
	if tr := v.f.Track(2); tr != nil && (tr.Codec != "A_OPUS" || tr.Rate != 48000) {
		return fmt.Errorf("the audio track is %q at %v Hz", tr.Codec, tr.Rate)
	}
	got, err := match(blocks, v.aframes)
	if err != nil {
		return fmt.Errorf("audio: %v", err)
	}
	for n, i := range got {
		if v.aframes[i].Arrive == 0 {
			return fmt.Errorf("audio packet %d was recorded (block %d) but never arrived", i, n)
		}
		if n == 0 {
			continue
		}
		p := got[n-1]
		want := float64(v.aframes[i].Ts-v.aframes[p].Ts) / 48
		if d := float64(blocks[n].T-blocks[n-1].T) - want; math.Abs(d) > 1.0001 {
			return fmt.Errorf("audio packets %d and %d are %d ms apart instead of %.3f ms", p, i, blocks[n].T-blocks[n-1].T, want)
		}
		want = float64(v.aframes[i].Ts-v.aframes[got[0]].Ts) / 48
		if d := float64(blocks[n].T-blocks[0].T) - want; math.Abs(d) > 1.01+float64(n)/10000 {
			return fmt.Errorf("audio packet %d is %d ms after the first one instead of %.3f ms", i, blocks[n].T-blocks[0].T, want)
		}
	}
	lost := false
	for _, p := range v.apkts {
		lost = lost || p.Lost
	}
	if !lost && len(got) > 0 && len(v.f.Of(1)) > 0 && v.opened >= 0 {
		// the file was opened with the first video frame
		for n, st := range v.steps {
			if st.pkt == nil || st.pkt.Video || st.pkt.Frame != got[0] {
				continue
			}
			want := max(0, v.did[n]-v.did[v.opened])
			if d := int(blocks[0].T) - want; d < -500 || d > 500 {
				return fmt.Errorf("the first audio block is at %d ms, it arrived %d ms after the first video frame", blocks[0].T, want)
			}
			r.LabelIf(want > 500, "audio joined late")
			break
		}
	}
	r.LabelIf(lost, "audio lost")
	r.LabelIf(len(blocks) > 0, "audio recorded")
	// packets behind a lost one are given up if they come late
	if lost && disturbed(c) {
		return nil
	}
	has := map[int]bool{}
	for _, i := range got {
		has[i] = true
	}
	first := 0
	if !c.NoV {
		if v.opened < 0 {
			return nil
		}
		first = v.opened + 1
	}
	// before the file was opened
	before := map[int]bool{}
	for n, st := range v.steps {
		if st.pkt == nil || st.pkt.Video {
			continue
		}
		if n < first {
			before[st.pkt.Frame] = true
		} else if !before[st.pkt.Frame] && !has[st.pkt.Frame] {
			return fmt.Errorf("audio packet %d, received after the file was opened, is missing: %d of %d recorded", st.pkt.Frame, len(got), len(v.aframes))
		}
	}
	return nil
}

func disturbed(c *videoCase) bool {
	for i, d := range c.Delay {
		if d > 0 || c.Dup[i] > 0 {
			return true
		}
	}
	return false
}

func audioFacet(name string, quick, thorough int, o audioOpts) core.Facet[videoCase] {
	return core.Facet[videoCase]{Name: name, Quick: quick, Thorough: thorough, Gen: genAudio(o),
		Run: func(c videoCase, r *core.Rec) error {
			v, err := c.exec(r, false)
			if err != nil {
				return err
			}
			for i := 1; i < len(v.apkts); i++ {
				if v.apkts[i].P.SequenceNumber == 0 {
					r.Label("sequence wrap")
				}
				if v.apkts[i].P.Timestamp < v.apkts[i-1].P.Timestamp {
					r.Label("timestamp wrap")
				}
			}
			r.LabelIf(disturbed(&c), "reordered or duplicated")
			r.NonTrivialIf(len(v.f.Of(2)) > 1)
			return v.judgeAudio(&c, r)
		}}
}

// outages, also of about the size of the audio queue and of its buffer
var bursts = []int{1, 1, 2, 3, 7, 8, 14, 15, 16, 30, 31, 32, 33, 61, 62, 63, 64, 65, 100}

func TestC14(t *testing.T) {
	core.Prop("C14",
		core.F(audioFacet("clean", 1500, 30000, audioOpts{AOpts: media.AOpts{Min: 1, Max: 80, Gaps: true}})),
		core.F(audioFacet("reordered", 2500, 50000, audioOpts{AOpts: media.AOpts{Min: 2, Max: 80, Gaps: true}, disturb: true})),
		core.F(audioFacet("loss", 2500, 50000, audioOpts{AOpts: media.AOpts{Min: 2, Max: 150, Gaps: true, Loss: true}, disturb: true})),
		core.F(audioFacet("outage", 1500, 30000, audioOpts{AOpts: media.AOpts{Min: 60, Max: 260, Gaps: true, Bursts: bursts}, queues: true})),
		core.F(audioFacet("outage-with-video", 800, 15000, audioOpts{AOpts: media.AOpts{Min: 60, Max: 200, Bursts: bursts}, queues: true, video: true})),
		core.F(audioFacet("late-start", 600, 10000, audioOpts{AOpts: media.AOpts{Min: 1, Max: 60}, video: true, late: true})),
		core.F(audioFacet("stalls", 1000, 20000, audioOpts{AOpts: media.AOpts{Min: 20, Max: 150}, video: true, stalls: true})),
		core.F(audioFacet("with-video", 3000, 60000, audioOpts{AOpts: media.AOpts{Min: 1, Max: 80, Gaps: true}, disturb: true, video: true})),
		core.F(audioFacet("with-video-loss", 1500, 30000, audioOpts{AOpts: media.AOpts{Min: 1, Max: 80, Gaps: true, Loss: true}, disturb: true, video: true})),
		core.F(core.Facet[videoCase]{Name: "pipeline", Quick: 1500, Thorough: 30000,
			Gen: func(t *rapid.T) videoCase {
				a := media.GenA(t, media.AOpts{Min: 2, Max: 80, Gaps: true, Loss: rapid.IntRange(0, 2).Draw(t, "lossy") == 0})
				c := videoCase{A: &a, NoV: true, Queue: rapid.SampledFrom([]uint16{64, 512}).Draw(t, "size")}
				c.Delay, c.Dup = genDisturb(t, len(a.F))
				return c
			},
			Run: func(c videoCase, r *core.Rec) error {
				v := &videoRun{}
				v.aframes, v.apkts = c.A.Compile()
				dir := scratch()
				defer os.RemoveAll(dir)
				v.cfg = defaults(dir)
				v.hasA = true
				late := false
				v.steps, late = pipeline(v.apkts, c.Delay, c.Dup, c.Queue, r)
				r.LabelIf(late, "reordered")
				if err := v.run.exec(r); err != nil {
					return err
				}
				var err error
				if v.f, err = v.parse(); err != nil {
					return err
				}
				r.NonTrivialIf(late && len(v.f.Of(2)) > 1)
				return v.judgeAudio(&c, r)
			}}),
		core.F(core.Facet[longCase]{Name: "long", Quick: 4, Thorough: 60,
			Gen: func(t *rapid.T) longCase {
				return longCase{N: rapid.IntRange(3000, 70000).Draw(t, "n"), Ts: rapid.Uint32().Draw(t, "ts"), Spacings: rapid.SliceOfN(rapid.SampledFrom([]uint32{960, 961, 120, 2880, 1, 47}), 1, 5).Draw(t, "spacings")}
			},
			Run: func(c longCase, r *core.Rec) error {
				a := media.AStream{Seq: 60000, Ts: c.Ts}
				for i := 0; i < c.N; i++ {
					f := media.AFrame{N: 8}
					if i > 0 {
						f.D = c.Spacings[i%len(c.Spacings)]
					}
					a.F = append(a.F, f)
				}
				vc := videoCase{A: &a, HasA: true, NoV: true}
				v, err := vc.exec(r, false)
				if err != nil {
					return err
				}
				r.NonTrivial()
				return v.judgeAudio(&vc, r)
			}}),
	).Run(t)
}

// ---------------------------------------------------------------- C17

func TestC17(t *testing.T) {
	facet := func(name string, quick, thorough int, o media.VOpts, alt bool) core.Facet[videoCase] {
		return core.Facet[videoCase]{Name: name, Quick: quick, Thorough: thorough,
			Gen: func(t *rapid.T) videoCase {
				c := genVideo(o)(t)
				c.IVF = rapid.IntRange(0, 5).Draw(t, "ivf") > 0
				c.Alt = alt
				c.File = rapid.SampledFrom([]string{"rec.webm", "a.b.webm", "sub/x.webm", "d.d/rec.webm", ".webm", "x.ivf.webm"}).Draw(t, "file")
				return c
			},
			Run: func(c videoCase, r *core.Rec) error {
				v, err := c.exec(r, false)
				if err != nil {
					return err
				}
				v.label(r, &c)
				return v.judgeIVF(&c, r)
			}}
	}
	core.Prop("C17",
		core.F(facet("loss", 3000, 50000, lossOpts, false)),
		core.F(facet("clean", 600, 10000, cleanOpts, false)),
		core.F(facet("long", 30, 600, longOpts, false)),
		core.F(facet("alt", 2000, 40000, media.VOpts{MinFrames: 2, MaxFrames: 40, MaxPkts: 4, Loss: true, Gaps: true}, true)),
		core.F(facet("alt-long", 20, 400, media.VOpts{MinFrames: 300, MaxFrames: 700, MaxPkts: 3, MaxSize: 60, Loss: true, KeyEvery: 20}, true)),
	).Run(t)
}

func (v *videoRun) judgeIVF(c *videoCase, r *core.Rec) error {
	if !c.IVF || v.f.Track(1) == nil {
		if v.ivf != nil {
			return fmt.Errorf("an .ivf file of %d bytes appeared (option %v, %d tracks)", len(v.ivf), c.IVF, len(v.f.Tracks))
		}
		return nil
	}
	if v.ivf == nil {
		return fmt.Errorf("there is no .ivf file")
	}
	f, err := media.ParseIVF(v.ivf)
	if err != nil {
		return err
	}
	if f.FourCC != "VP80" {
		return fmt.Errorf("the IVF header says %q", f.FourCC)
	}
	if int(f.Count) != len(f.Frames) {
		return fmt.Errorf("the IVF header says %d frames, there are %d", f.Count, len(f.Frames))
	}
	if len(f.Frames) != len(v.blocks) {
		return fmt.Errorf("the recording has %d frames, its IVF copy %d", len(v.blocks), len(f.Frames))
	}
	rtp := map[string]uint32{}
	for _, x := range v.frames {
		rtp[string(x.Data)] = x.Rtp
	}
	w, h, keys := uint16(0), uint16(0), 0
	for n, b := range v.blocks {
		if string(b.Data) != string(f.Frames[n]) {
			return fmt.Errorf("frame %d of the IVF copy differs from the recording", n)
		}
		if ts, ok := rtp[string(b.Data)]; ok && uint64(ts) != f.Times[n] {
			return fmt.Errorf("frame %d of the IVF copy has timestamp %d instead of %d", n, f.Times[n], ts)
		}
		if b.Data[0]&1 == 0 && len(b.Data) >= 10 {
			w, h = uint16(b.Data[6])|uint16(b.Data[7]&0x3f)<<8, uint16(b.Data[8])|uint16(b.Data[9]&0x3f)<<8
			keys++
		}
	}
	if len(f.Frames) > 0 && (f.W != w || f.H != h) {
		return fmt.Errorf("the IVF header says %dx%d, the last keyframe is %dx%d", f.W, f.H, w, h)
	}
	r.NonTrivialIf(len(f.Frames) > 1)
	r.LabelIf(keys > 1, "several keyframes")
	r.LabelIf(len(f.Frames) >= 100, "over 100 frames")
	return nil
}

// ---------------------------------------------------------------- C18

func (v *videoRun) judgeRequests(c *videoCase, r *core.Rec) error {
	for i := 1; i < len(v.requests); i++ {
		if d := v.requests[i] - v.requests[i-1]; d < 1000 {
			return fmt.Errorf("keyframe requests at %d and %d ms, %d ms apart", v.requests[i-1], v.requests[i], d)
		}
	}
	cl, usable := classifyState(v.frames, v.pkts, c.V.Pic != 0)
	asked := func(at int) bool {
		for _, q := range v.requests {
			if q <= at && q >= at-1000 {
				return true
			}
		}
		return false
	}
	needs := 0
	for n, st := range v.steps {
		if st.pkt == nil || !st.pkt.Video || st.pkt.Pad {
			continue
		}
		f := v.frames[st.pkt.Frame]
		why := ""
		switch {
		case cl[st.pkt.Frame] == mustNot && f.Arrive == f.NPkt:
			why = fmt.Sprintf("inter frame %d (packet %d) is unusable for lack of a keyframe", st.pkt.Frame, st.pkt.Index)
		case f.Arrive < f.NPkt && f.Arrive > 0 && v.gapBefore(st.pkt):
			why = fmt.Sprintf("frame %d is incomplete (packet %d follows a gap)", st.pkt.Frame, st.pkt.Index)
		case v.tailLostBefore(n, usable):
			why = fmt.Sprintf("the frame before frame %d is incomplete", st.pkt.Frame)
		}
		if why == "" {
			continue
		}
		needs++
		if !asked(v.did[n]) {
			return fmt.Errorf("at %d ms %s, but no keyframe has been requested within the last second: requests at %v ms", v.did[n], why, v.requests)
		}
	}
	if !v.lossy() {
		key := -1
		for n, st := range v.steps {
			if st.pkt != nil && st.pkt.Video && st.pkt.Last && v.frames[st.pkt.Frame].Key {
				key = v.did[n]
				break
			}
		}
		for _, q := range v.requests {
			if key >= 0 && q > key {
				return fmt.Errorf("nothing is lost, yet a keyframe is requested at %d ms, after the first one was complete at %d ms", q, key)
			}
		}
	}
	r.LabelIf(len(v.requests) > 1, "several requests")
	r.LabelIf(needs > 0, "a keyframe is needed")
	r.NonTrivialIf(needs > 0)
	return nil
}

// gapBefore: an earlier packet of the same frame was lost just before p.
func (v *videoRun) gapBefore(p *media.Pkt) bool {
	for i := range v.pkts {
		if &v.pkts[i] == p {
			return i > 0 && p.Index > 0 && v.pkts[i-1].Lost && v.pkts[i-1].Frame == p.Frame
		}
	}
	return false
}

// tailLostBefore: step n is the first video packet since the tail of a frame
// that was being assembled was lost.
func (v *videoRun) tailLostBefore(n int, usable []bool) bool {
	p := v.steps[n].pkt
	for m := n - 1; m >= 0; m-- {
		q := v.steps[m].pkt
		if q == nil || !q.Video {
			continue
		}
		f := v.frames[q.Frame]
		return q.Frame != p.Frame && !q.Pad && !q.Last && f.Arrive == q.Index+1 && (f.Key || usable[q.Frame])
	}
	return false
}

func TestC18(t *testing.T) {
	facet := func(name string, quick, thorough int, o media.VOpts) core.Facet[videoCase] {
		return core.Facet[videoCase]{Name: name, Quick: quick, Thorough: thorough, Gen: genVideo(o),
			Run: func(c videoCase, r *core.Rec) error {
				v, err := c.exec(r, false)
				if err != nil {
					return err
				}
				v.label(r, &c)
				return v.judgeRequests(&c, r)
			}}
	}
	nokey := media.VOpts{MinFrames: 20, MaxFrames: 120, KeyEvery: 60, MaxPkts: 2, MaxSize: 40, Gaps: true, Loss: true}
	core.Prop("C18",
		core.F(facet("loss", 3000, 60000, lossOpts)),
		core.F(facet("clean", 1500, 20000, cleanOpts)),
		core.F(facet("few-keyframes", 1000, 20000, nokey)),
		core.F(facet("long", 30, 600, longOpts)),
	).Run(t)
}

// ---------------------------------------------------------------- C19

func TestC19(t *testing.T) {
	lossless := media.VOpts{Pad: true, MinFrames: 1, MaxFrames: 60, MaxPkts: 6, Parts: true, Gaps: true, BigTs: true}
	loss := lossless
	loss.Loss = true
	wrap := media.VOpts{Pad: true, MinFrames: 200, MaxFrames: 600, MaxPkts: 4, MaxSize: 60, Loss: true, KeyEvery: 20}
	wrapClean := wrap
	wrapClean.Loss = false
	facet := func(name string, quick, thorough int, o media.VOpts, reorder bool) core.Facet[altCase] {
		return core.Facet[altCase]{Name: name, Quick: quick, Thorough: thorough,
			Gen: func(t *rapid.T) altCase {
				c := altCase{V: media.GenV(t, o), Queue: rapid.SampledFrom([]uint16{256, 256, 64, 40}).Draw(t, "queue")}
				if reorder {
					for range mustPkts(c.V) {
						d := 0
						if rapid.IntRange(0, 5).Draw(t, "late") == 0 && len(c.Delay) > 0 {
							d = rapid.IntRange(1, 10).Draw(t, "by")
						}
						c.Delay = append(c.Delay, d)
						d = 0
						if rapid.IntRange(0, 9).Draw(t, "dup") == 0 {
							d = rapid.IntRange(1, 10).Draw(t, "dupby")
						}
						c.Dup = append(c.Dup, d)
					}
				}
				return c
			},
			Run: func(c altCase, r *core.Rec) error { return c.run(r) }}
	}
	core.Prop("C19",
		core.F(facet("clean", 1500, 30000, lossless, false)),
		core.F(facet("loss", 2500, 50000, loss, false)),
		core.F(facet("reordered", 1500, 30000, lossless, true)),
		core.F(facet("reordered-loss", 1500, 30000, loss, true)),
		core.F(pipelineFacetOf("pipeline", 800, 16000, true, func(c *pipeCase, v *videoRun) error {
			a := altCase{V: c.V}
			return a.judge(v)
		})),
		core.F(facet("long", 40, 800, wrap, true)),
		core.F(facet("long-clean", 40, 800, wrapClean, false)),
	).Run(t)
}

// altCase goes through the alternative sampler.
type altCase struct {
	V     media.VStream
	Queue uint16
	Delay []int
	Dup   []int
}

func (c *altCase) run(r *core.Rec) error {
	v := &videoRun{}
	dir := scratch()
	defer os.RemoveAll(dir)
	v.cfg = defaults(dir)
	v.cfg.UseCustomSampler = false
	v.cfg.VideoPacketQueueSize = c.Queue
	v.frames, v.pkts = c.V.Compile()
	v.steps = disturb(v.pkts, c.Dup, c.Delay, false)
	v.hasV = true
	if err := v.run.exec(r); err != nil {
		return err
	}
	var err error
	if v.f, err = v.parse(); err != nil {
		return err
	}
	v.blocks = v.f.Of(1)
	vc := videoCase{V: c.V}
	v.label(r, &vc)
	r.NonTrivialIf(len(v.blocks) > 1)
	return c.judge(v)
}

func (c *altCase) judge(v *videoRun) error {
	if err := v.judgeIntact(); err != nil {
		return err
	}
	if len(v.blocks) > 0 {
		b := v.blocks[0]
		if b.Data[0]&1 != 0 {
			return fmt.Errorf("the first video block is not a keyframe")
		}
		fr := v.frames[v.got[0]]
		if tr := v.f.Track(1); int(tr.W) != fr.W || int(tr.H) != fr.H {
			return fmt.Errorf("the track header says %dx%d, the first keyframe is %dx%d", tr.W, tr.H, fr.W, fr.H)
		}
		for n, b := range v.blocks {
			if key := v.frames[v.got[n]].Key; b.Key != key {
				return fmt.Errorf("block %d: flagged as keyframe: %v, is one: %v", n, b.Key, key)
			}
		}
		if err := v.judgeTimes(); err != nil {
			return err
		}
	}
	// the sample builder may drop a frame that was reordered
	lossless := !v.lossy() && len(c.Delay) == 0
	if lossless {
		has := v.has()
		first := -1
		for i, f := range v.frames {
			if f.Key && first < 0 {
				first = i
			}
			// the last frame is complete only once the next one begins, in this sampler
			if first >= 0 && i < len(v.frames)-1 && !has[i] {
				return fmt.Errorf("frame %d of %d is missing though nothing was lost; recorded: %v", i, len(v.frames), keys(has, len(v.frames)))
			}
		}
	}
	return nil
}
