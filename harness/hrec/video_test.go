package hrec

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
	"github.com/pion/rtp"
)

// videoCase is a recorded VP8 stream, with audio or without.
type videoCase struct {
	V      media.VStream
	A      *media.AStream `json:",omitempty"`
	ADelay int            `json:",omitempty"` // ms the audio starts after the video
	HasA   bool           `json:",omitempty"` // an audio track is declared
	Notify int            `json:",omitempty"`
	After  int            `json:",omitempty"` // steps repeated after the end
	Queue  uint16         `json:",omitempty"`
	AQueue uint16         `json:",omitempty"`
	IVF    bool           `json:",omitempty"`
	Alt    bool           `json:",omitempty"` // the other sampler
	File   string         `json:",omitempty"`
	Cuts   []int          `json:",omitempty"`
	NoV    bool           `json:",omitempty"` // audio only
	Dup    []int          `json:",omitempty"` // see disturb
	Delay  []int          `json:",omitempty"`
	AStall [][2]int       `json:",omitempty"` // [packet, ms]: the network holds audio from that packet on back for so long
	VStall [][2]int       `json:",omitempty"` // the same for video
}

// stall delays the packets from the given ones on; order is kept.
func stall(pkts []media.Pkt, stalls [][2]int) {
	for _, s := range stalls {
		if s[0] >= len(pkts) {
			continue
		}
		until := pkts[s[0]].At + s[1]
		for i := s[0]; i < len(pkts); i++ {
			pkts[i].At = max(pkts[i].At, until)
		}
	}
}

func genStalls(t *rapid.T, n, most int) (out [][2]int) {
	if n == 0 {
		return nil
	}
	for i := rapid.IntRange(1, 2).Draw(t, "stalls"); i > 0; i-- {
		out = append(out, [2]int{rapid.IntRange(0, n-1).Draw(t, "stalled packet"), min(most, rapid.SampledFrom([]int{50, 300, 700, 1500, 3000, 8000}).Draw(t, "stall"))})
	}
	return
}

type videoRun struct {
	run
	frames  []media.Frame
	pkts    []media.Pkt
	aframes []media.Frame
	apkts   []media.Pkt
	f       *media.File
	blocks  []media.Block
	got     []int
}

func (c *videoCase) exec(r *core.Rec, snap bool) (*videoRun, error) {
	v := &videoRun{}
	dir := scratch()
	defer os.RemoveAll(dir)
	v.cfg = defaults(dir)
	v.cfg.UseCustomSampler = !c.Alt
	v.cfg.WriteIVFCopy = c.IVF
	if c.Queue > 0 {
		v.cfg.VideoPacketQueueSize = c.Queue
	}
	if c.AQueue > 0 {
		v.cfg.AudioPacketQueueSize = c.AQueue
	}
	v.file = c.File
	v.frames, v.pkts = c.V.Compile()
	stall(v.pkts, c.VStall)
	v.steps = stepsOf(v.pkts, c.Notify)
	v.hasV, v.hasA = !c.NoV, c.HasA
	if c.NoV {
		v.steps = nil
	}
	if c.A != nil {
		v.aframes, v.apkts = c.A.Compile()
		for i := range v.apkts {
			v.apkts[i].At += c.ADelay
		}
		stall(v.apkts, c.AStall)
		v.steps = merge(v.steps, disturb(v.apkts, c.Dup, c.Delay, false))
		v.hasA = true
	}
	v.snap = snap
	if c.After > 0 && len(v.steps) > 0 {
		n := min(c.After, len(v.steps))
		v.afterEnd = append(v.afterEnd, v.steps[len(v.steps)-n:]...)
		v.afterEnd = append(v.afterEnd, v.steps[:n]...)
	}
	if err := v.run.exec(r); err != nil {
		return nil, err
	}
	var err error
	if v.f, err = v.parse(); err != nil {
		return nil, err
	}
	v.blocks = v.f.Of(1)
	if tr := v.f.Track(1); tr != nil && tr.Codec != "V_VP8" {
		return nil, fmt.Errorf("the video track is %q", tr.Codec)
	}
	return v, nil
}

// disturb duplicates and delays packets: dup[i] > 0 sends packet i again that
// many packets later, delay[i] > 0 sends it that many packets later.
func disturb(pkts []media.Pkt, dup, delay []int, dupNewest bool) []step {
	type slot struct {
		pos int
		p   *media.Pkt
	}
	var slots []slot
	for i := range pkts {
		if pkts[i].Lost {
			continue
		}
		pos := i * 2
		if i < len(delay) && delay[i] > 0 {
			pos = (i+delay[i])*2 + 1
		}
		slots = append(slots, slot{pos, &pkts[i]})
		if i < len(dup) && dup[i] > 0 {
			slots = append(slots, slot{pos + dup[i]*2 + 1, &pkts[i]})
		}
	}
	for i := 1; i < len(slots); i++ {
		for j := i; j > 0 && slots[j].pos < slots[j-1].pos; j-- {
			slots[j], slots[j-1] = slots[j-1], slots[j]
		}
	}
	var out []step
	at := 0
	high := int64(-1)
	for _, s := range slots {
		// The recorder gets its packets from a jitter buffer, which lets no
		// duplicate through; its sample builder copes with those of older packets.
		if !dupNewest && s.p.AbsSeq == high {
			continue
		}
		high = max(high, s.p.AbsSeq)
		at = max(at, s.p.At)
		out = append(out, step{at: at, pkt: s.p})
	}
	return out
}

func (v *videoRun) label(r *core.Rec, c *videoCase) {
	lost, partial, whole, multi, pad := 0, 0, 0, 0, 0
	for _, f := range v.frames {
		if f.Arrive < f.NPkt {
			lost++
			if f.Arrive > 0 {
				partial++
			} else {
				whole++
			}
		}
		if f.NPkt > 1 {
			multi++
		}
	}
	wrap, twrap := false, false
	for i, p := range v.pkts {
		if p.Pad {
			pad++
		}
		if i > 0 && p.P.SequenceNumber < v.pkts[i-1].P.SequenceNumber {
			wrap = true
		}
		if i > 0 && p.P.Timestamp < v.pkts[i-1].P.Timestamp {
			twrap = true
		}
	}
	r.LabelIf(partial > 0, "partial frame")
	r.LabelIf(whole > 0, "whole frame lost")
	r.LabelIf(multi > 0, "multi-packet frame")
	r.LabelIf(pad > 0, "padding")
	r.LabelIf(wrap, "sequence wrap")
	r.LabelIf(twrap, "timestamp wrap")
	r.LabelIf(len(v.blocks) == 0, "nothing recorded")
	r.LabelIf(c.A != nil, "audio too")
	r.LabelIf(c.V.Pic == 0, "no picture ids")
	r.LabelIf(len(v.blocks) > 0 && len(v.blocks) < len(v.frames), "part of the frames recorded")
}

// match pairs blocks and frames; C10.
func (v *videoRun) judgeIntact() (err error) {
	if v.got, err = match(v.blocks, v.frames); err != nil {
		return err
	}
	for n, i := range v.got {
		if f := v.frames[i]; f.Arrive < f.NPkt {
			return fmt.Errorf("frame %d was recorded (block %d) though only %d of its %d packets arrived", i, n, f.Arrive, f.NPkt)
		}
	}
	return nil
}

func (v *videoRun) has() map[int]bool {
	m := map[int]bool{}
	byData := map[string]int{}
	for i := range v.frames {
		byData[string(v.frames[i].Data)] = i
	}
	for _, b := range v.blocks {
		if i, ok := byData[string(b.Data)]; ok {
			m[i] = true
		}
	}
	return m
}

// judgeComplete: C11.
func (v *videoRun) judgeComplete(c *videoCase) error {
	cl := classify(v.frames, v.pkts, c.V.Pic != 0)
	has := v.has()
	for i, k := range cl {
		if k == must && !has[i] {
			return fmt.Errorf("frame %d (keyframe: %v, %d packets, all received) is missing from the file; recorded: %v", i, v.frames[i].Key, v.frames[i].NPkt, keys(has, len(v.frames)))
		}
	}
	return nil
}

func keys(m map[int]bool, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if m[i] {
			out = append(out, i)
		}
	}
	return out
}

// judgeDecodable: C12.
func (v *videoRun) judgeDecodable(c *videoCase) error {
	cl := classify(v.frames, v.pkts, c.V.Pic != 0)
	has := v.has()
	for i, k := range cl {
		if k == mustNot && has[i] && v.frames[i].Arrive == v.frames[i].NPkt {
			return fmt.Errorf("inter frame %d was recorded though a complete keyframe had not been since the start or the last loss; recorded: %v", i, keys(has, len(v.frames)))
		}
	}
	return judgeStart(v.f, v.blocks)
}

func judgeStart(f *media.File, blocks []media.Block) error {
	for n, b := range blocks {
		key := len(b.Data) > 0 && b.Data[0]&1 == 0
		if b.Key != key {
			return fmt.Errorf("block %d: flagged as keyframe: %v, is one: %v", n, b.Key, key)
		}
	}
	if len(blocks) > 0 {
		b := blocks[0]
		if !b.Key || len(b.Data) < 10 {
			return fmt.Errorf("the first video block is not a keyframe")
		}
		w := uint64(b.Data[6]) | uint64(b.Data[7]&0x3f)<<8
		h := uint64(b.Data[8]) | uint64(b.Data[9]&0x3f)<<8
		if tr := f.Track(1); tr.W != w || tr.H != h {
			return fmt.Errorf("the track header says %dx%d, the first keyframe is %dx%d", tr.W, tr.H, w, h)
		}
	}
	return nil
}

func (v *videoRun) lossy() bool {
	for _, p := range v.pkts {
		if p.Lost {
			return true
		}
	}
	return false
}

func withAudio(t *rapid.T, c *videoCase) {
	switch rapid.IntRange(0, 5).Draw(t, "audio") {
	case 0:
		c.HasA = true
	case 1, 2:
		a := media.GenA(t, media.AOpts{Min: 1, Max: 40})
		c.A, c.HasA = &a, true
		c.ADelay = rapid.IntRange(0, 300).Draw(t, "adelay")
		if rapid.IntRange(0, 2).Draw(t, "network stalls") == 0 {
			c.AStall = genStalls(t, len(a.F), 8000)
			c.VStall = genStalls(t, len(c.V.F), 450) // a frame has 2 s to arrive
			c.Queue = rapid.SampledFrom([]uint16{1, 8, 0}).Draw(t, "queue")
		}
	}
}

func genVideo(o media.VOpts) func(t *rapid.T) videoCase {
	return func(t *rapid.T) videoCase {
		c := videoCase{V: media.GenV(t, o), Notify: rapid.IntRange(0, 2).Draw(t, "notify")}
		withAudio(t, &c)
		if rapid.IntRange(0, 4).Draw(t, "after") == 0 {
			c.After = rapid.IntRange(1, 8).Draw(t, "nafter")
		}
		return c
	}
}

var (
	cleanOpts = media.VOpts{MinFrames: 1, MaxFrames: 40, Pad: true, Parts: true, Gaps: true, Intra: true, MaxPkts: 6}
	lossOpts  = media.VOpts{MinFrames: 3, MaxFrames: 40, Pad: true, Parts: true, Gaps: true, Intra: true, Loss: true, MaxPkts: 6}
	longOpts  = media.VOpts{MinFrames: 300, MaxFrames: 900, Pad: true, Loss: true, MaxPkts: 3, MaxSize: 60, KeyEvery: 20}
	bigOpts   = media.VOpts{MinFrames: 2, MaxFrames: 8, Loss: true, MaxPkts: 60, MaxSize: 70000, KeyEvery: 3, Parts: true}
)

func videoFacet(name string, quick, thorough int, o media.VOpts, judge func(c *videoCase, v *videoRun) error) core.Facet[videoCase] {
	return core.Facet[videoCase]{Name: name, Quick: quick, Thorough: thorough, Gen: genVideo(o),
		Run: func(c videoCase, r *core.Rec) error {
			v, err := c.exec(r, false)
			if err != nil {
				return err
			}
			v.label(r, &c)
			if len(v.blocks) > 0 && (!o.Loss || v.lossy()) {
				r.NonTrivial()
			}
			return judge(&c, v)
		}}
}

func intact(c *videoCase, v *videoRun) error { return v.judgeIntact() }
func complete(c *videoCase, v *videoRun) error {
	return v.judgeComplete(c)
}
func decodable(c *videoCase, v *videoRun) error { return v.judgeDecodable(c) }

func TestC10(t *testing.T) {
	core.Prop("C10",
		core.F(videoFacet("loss", 5000, 30000, lossOpts, intact)),
		core.F(videoFacet("clean", 1200, 5000, cleanOpts, intact)),
		core.F(videoFacet("long", 50, 300, longOpts, intact)),
		core.F(videoFacet("big", 500, 2000, bigOpts, intact)),
		core.F(pipelineFacet("pipeline", 1200, 6000, func(c *pipeCase, v *videoRun) error { return v.judgeIntact() })),
	).Run(t)
}

func TestC11(t *testing.T) {
	core.Prop("C11",
		core.F(videoFacet("loss", 5000, 30000, lossOpts, complete)),
		core.F(videoFacet("clean", 1500, 8000, cleanOpts, complete)),
		core.F(videoFacet("long", 50, 300, longOpts, complete)),
		core.F(videoFacet("big", 500, 2000, bigOpts, complete)),
		core.F(pipelineFacet("pipeline", 1200, 6000, func(c *pipeCase, v *videoRun) error {
			vc := videoCase{V: c.V}
			return v.judgeComplete(&vc)
		})),
		core.F(keptFacet()),
		core.F(lateTrackFacet()),
	).Run(t)
}

func TestC12(t *testing.T) {
	core.Prop("C12",
		core.F(videoFacet("loss", 5000, 30000, lossOpts, decodable)),
		core.F(videoFacet("clean", 1200, 5000, cleanOpts, decodable)),
		core.F(videoFacet("long", 50, 300, longOpts, decodable)),
		core.F(videoFacet("big", 500, 2000, bigOpts, decodable)),
		core.F(badKeyFacet()),
	).Run(t)
}

// ------------------------------------------------ with the transport utilities

// pipeCase sends the packets of a stream through sequence unwrapper and jitter
// buffer as the receive loop does: delayed, duplicated, lost.
type pipeCase struct {
	V     media.VStream
	Delay []int // packets by which packet i is late
	Dup   []int
	Size  uint16
}

func pipelineFacet(name string, quick, thorough int, judge func(c *pipeCase, v *videoRun) error) core.Facet[pipeCase] {
	return pipelineFacetOf(name, quick, thorough, false, judge)
}

func genDisturb(t *rapid.T, n int) (delay, dup []int) {
	for i := 0; i < n; i++ {
		d := 0
		if rapid.IntRange(0, 5).Draw(t, "late") == 0 && i > 0 {
			d = rapid.IntRange(1, 20).Draw(t, "by")
		}
		delay = append(delay, d)
		d = 0
		if rapid.IntRange(0, 9).Draw(t, "dup") == 0 {
			d = rapid.IntRange(1, 30).Draw(t, "dupby")
		}
		dup = append(dup, d)
	}
	return
}

func pipelineFacetOf(name string, quick, thorough int, alt bool, judge func(c *pipeCase, v *videoRun) error) core.Facet[pipeCase] {
	return core.Facet[pipeCase]{Name: name, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) pipeCase {
			o := media.VOpts{MinFrames: 4, MaxFrames: 40, Pad: true, MaxPkts: 4, MaxSize: 120, Loss: rapid.IntRange(0, 2).Draw(t, "lossy") == 0}
			c := pipeCase{V: media.GenV(t, o)}
			c.Delay, c.Dup = genDisturb(t, len(mustPkts(c.V)))
			c.Size = rapid.SampledFrom([]uint16{64, 128, 512}).Draw(t, "size")
			return c
		},
		Run: func(c pipeCase, r *core.Rec) error {
			v := &videoRun{}
			v.frames, v.pkts = c.V.Compile()
			dir := scratch()
			defer os.RemoveAll(dir)
			v.cfg = defaults(dir)
			v.cfg.UseCustomSampler = !alt
			v.hasV = true
			late := false
			v.steps, late = pipeline(v.pkts, c.Delay, c.Dup, c.Size, r)
			r.LabelIf(late, "reordered")
			if err := v.run.exec(r); err != nil {
				return err
			}
			var err error
			if v.f, err = v.parse(); err != nil {
				return err
			}
			v.blocks = v.f.Of(1)
			if late && len(v.blocks) > 0 {
				r.NonTrivial()
			}
			vc := videoCase{V: c.V}
			v.label(r, &vc)
			return judge(&c, v)
		}}
}

// pipeline is what sequence unwrapper and jitter buffer make of the packets.
// The clock stands still: a lost packet is given up 40 packets later.
func pipeline(pkts []media.Pkt, delays, dup []int, size uint16, r *core.Rec) (steps []step, late bool) {
	delay := append([]int(nil), delays...)
	for i := range pkts {
		if !pkts[i].Lost {
			if i < len(delay) {
				delay[i] = 0 // the stream is entered at its first packet
			}
			break
		}
	}
	arrivals := disturb(pkts, dup, delay, true)
	isLost := map[uint16]bool{}
	of := map[uint16]*media.Pkt{}
	for i := range pkts {
		isLost[pkts[i].P.SequenceNumber] = pkts[i].Lost
		of[pkts[i].P.SequenceNumber] = &pkts[i]
	}
	_, err := r.Bubble(func() error {
		su := utils.NewSequenceUnwrapper(16)
		jb := utils.NewJitterBuffer(size, 200, context.Background())
		deliver := func(ps []*rtp.Packet, skipped bool) {
			if ps != nil && skipped {
				if s, ok := jb.GetAndClearLastSkipped(); ok {
					steps = append(steps, step{notify: []uint16{uint16(s)}})
				}
			}
			for _, p := range ps {
				k := *of[p.SequenceNumber]
				k.P = p
				steps = append(steps, step{pkt: &k})
			}
		}
		last := int64(-1)
		giveUp := func(upTo int64) {
			for n := jb.GetNextStart(); n <= upTo && isLost[uint16(n)]; n = jb.GetNextStart() {
				jb.SkipPacket(n)
				deliver(jb.NextPackets())
				if jb.GetNextStart() == n {
					core.Failf("the jitter buffer does not skip packet %d", n)
				}
			}
		}
		for _, a := range arrivals {
			u := su.Unwrap(uint64(a.pkt.P.SequenceNumber))
			late = late || u < last
			last = max(last, u)
			jb.Add(u, media.Clone(a.pkt.P))
			deliver(jb.NextPackets())
			giveUp(last - 40)
		}
		giveUp(last)
		return nil
	})
	if err != nil {
		panic(core.Fail{Msg: err.Error()})
	}
	return
}

func mustPkts(v media.VStream) []media.Pkt { _, p := v.Compile(); return p }

// ------------------------------------------------ C11: what is recorded stays

func keptFacet() core.Facet[videoCase] {
	return core.Facet[videoCase]{Name: "kept", Quick: 800, Thorough: 4000, Gen: genVideo(lossOpts),
		Run: func(c videoCase, r *core.Rec) error {
			v, err := c.exec(r, true)
			if err != nil {
				return err
			}
			v.label(r, &c)
			seen := 0
			for i, b := range v.snaps {
				if len(b) == 0 {
					continue
				}
				f := media.ParseWebm(b)
				if f.Err != nil {
					return fmt.Errorf("after step %d the file is malformed: %v", i, f.Err)
				}
				if len(f.Blocks) > len(v.f.Blocks) {
					return fmt.Errorf("after step %d the file had %d blocks, in the end %d", i, len(f.Blocks), len(v.f.Blocks))
				}
				for n, x := range f.Blocks[min(seen, len(f.Blocks)):] {
					if y := v.f.Blocks[seen+n]; !bytes.Equal(x.Data, y.Data) || x.T != y.T || x.Key != y.Key {
						return fmt.Errorf("block %d as of step %d is gone from the finished file", seen+n, i)
					}
				}
				if len(f.Blocks) < seen {
					return fmt.Errorf("after step %d the file had %d blocks, before that %d", i, len(f.Blocks), seen)
				}
				seen = len(f.Blocks)
			}
			r.NonTrivialIf(seen > 0)
			return nil
		}}
}

// ------------------------------------------------ C11: a track that comes late

type lateCase struct {
	Frames, Before int
}

// lateTrackFacet has no generated cases: it is a known finding.
func lateTrackFacet() core.Facet[lateCase] {
	return core.Facet[lateCase]{Name: "late-track", Gen: func(t *rapid.T) lateCase { return lateCase{} },
		Run: func(c lateCase, r *core.Rec) error { return lateTrack(c, r) }}
}

// ------------------------------------------------ C12: unusable keyframes first

// badKeyCase starts with keyframes the recorder must not accept.
type badKeyCase struct {
	V   media.VStream
	Bad []int // frame -> kind of damage
	Arg []int
}

func badKeyFacet() core.Facet[badKeyCase] {
	return core.Facet[badKeyCase]{Name: "bad-keyframes", Quick: 1500, Thorough: 8000,
		Gen: func(t *rapid.T) badKeyCase {
			c := badKeyCase{V: media.GenV(t, media.VOpts{MinFrames: 3, MaxFrames: 15, KeyEvery: 2, MaxSize: 60, MaxPkts: 2, KeyFirst: true})}
			for range c.V.F {
				c.Bad = append(c.Bad, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "bad"))
				c.Arg = append(c.Arg, rapid.IntRange(0, 15).Draw(t, "arg"))
			}
			return c
		},
		Run: func(c badKeyCase, r *core.Rec) error {
			// 1: a keyframe of less than 10 bytes, 2: dimensions below 16, 3: above 8192
			v := &videoRun{}
			v.frames, v.pkts = c.V.Compile()
			dir := scratch()
			defer os.RemoveAll(dir)
			v.cfg = defaults(dir)
			v.hasV = true
			bad := map[int]bool{}
			for i := range v.frames {
				if i < len(c.Bad) && c.Bad[i] > 0 && v.frames[i].Key && v.frames[i].NPkt == 1 {
					bad[i] = true
				}
			}
			for i := range v.pkts {
				p := &v.pkts[i]
				if !bad[p.Frame] || p.Pad {
					continue
				}
				pl := p.P.Payload
				n := len(pl) - len(v.frames[p.Frame].Data)
				switch c.Bad[p.Frame] {
				case 1:
					p.P.Payload = pl[:n+1+c.Arg[p.Frame]%9]
				case 2:
					pl[n+6], pl[n+7] = byte(c.Arg[p.Frame]), 0
				case 3:
					pl[n+9], pl[n+8] = 0x20, byte(1+c.Arg[p.Frame])
				}
			}
			v.steps = stepsOf(v.pkts, 0)
			if err := v.run.exec(r); err != nil {
				return err
			}
			var err error
			if v.f, err = v.parse(); err != nil {
				return err
			}
			v.blocks = v.f.Of(1)
			r.LabelIf(len(bad) > 0, "unusable keyframe")
			r.NonTrivialIf(len(bad) > 0)
			// inter frames after an unusable keyframe cannot be decoded
			ok := false
			allowed := map[string]int{}
			want := []int{}
			for i, f := range v.frames {
				if f.Key {
					ok = !bad[i]
				}
				if ok {
					allowed[string(f.Data)] = i
					want = append(want, i)
				}
			}
			for n, b := range v.blocks {
				if _, is := allowed[string(b.Data)]; !is {
					return fmt.Errorf("block %d is an unusable keyframe or depends on one", n)
				}
			}
			if len(v.blocks) != len(want) {
				return fmt.Errorf("%d frames recorded instead of %d", len(v.blocks), len(want))
			}
			return judgeStart(v.f, v.blocks)
		}}
}

// ------------------------------------------------ C13

func (v *videoRun) judgeTimes() error {
	if err := v.judgeIntact(); err != nil {
		return nil // not this property's business
	}
	if len(v.blocks) == 0 {
		return nil
	}
	t0, ts0 := v.blocks[0].T, v.frames[v.got[0]].Ts
	lastT := t0
	for n, i := range v.got {
		want := float64(v.frames[i].Ts-ts0) / 90
		tol := 1.0001 + float64(n)/10000
		if d := float64(v.blocks[n].T-t0) - want; math.Abs(d) > tol {
			return fmt.Errorf("block %d (frame %d) is at %d ms instead of %.3f ms", n, i, v.blocks[n].T-t0, want)
		}
		if v.blocks[n].T < lastT {
			return fmt.Errorf("block %d is at %d ms, before block %d at %d ms", n, v.blocks[n].T, n-1, lastT)
		}
		lastT = v.blocks[n].T
	}
	return nil
}

// judgeVideoTimestamp: what VideoTimestamp says after each frame.
func (v *videoRun) judgeVideoTimestamp() error {
	if len(v.got) == 0 {
		if v.closeTs != 0 {
			return fmt.Errorf("Close reports %v for a recording without video", v.closeTs)
		}
		return nil
	}
	at := map[int]int64{}
	for n, i := range v.got {
		at[i] = v.blocks[n].T - v.blocks[0].T
	}
	cur := int64(0)
	for n, st := range v.steps {
		if st.pkt == nil || !st.pkt.Video {
			continue
		}
		if t, ok := at[st.pkt.Frame]; ok && st.pkt.Last {
			cur = t
		}
		if d := float64(v.vts[n].Microseconds())/1000 - float64(cur); d < -0.001 || d > 1.001 {
			return fmt.Errorf("after step %d VideoTimestamp is %v, the last frame recorded is at %d ms", n, v.vts[n], cur)
		}
	}
	if d := float64(v.closeTs.Microseconds())/1000 - float64(cur); d < -0.001 || d > 1.001 {
		return fmt.Errorf("Close reports %v, the last frame recorded is at %d ms", v.closeTs, cur)
	}
	return nil
}

func times(c *videoCase, v *videoRun) error {
	if err := v.judgeTimes(); err != nil {
		return err
	}
	return v.judgeVideoTimestamp()
}

func TestC13(t *testing.T) {
	core.Prop("C13",
		core.F(videoFacet("arbitrary-spacing", 3000, 12000, media.VOpts{MinFrames: 2, MaxFrames: 40, BigTs: true, Gaps: true, MaxPkts: 3, MaxSize: 60, KeyFirst: true}, times)),
		core.F(videoFacet("loss", 4000, 20000, media.VOpts{MinFrames: 3, MaxFrames: 40, BigTs: true, Loss: true, Pad: true, MaxPkts: 3, MaxSize: 60}, times)),
		core.F(core.Facet[longCase]{Name: "long", Quick: 8, Thorough: 60,
			Gen: func(t *rapid.T) longCase {
				return longCase{N: rapid.IntRange(10000, 40000).Draw(t, "n"), Ts: rapid.Uint32().Draw(t, "ts"), Spacings: rapid.SliceOfN(rapid.OneOf(rapid.Uint32Range(1, 100), rapid.SampledFrom([]uint32{3000, 3003, 2999, 91, 1}), rapid.Uint32Range(1, 200000)), 1, 7).Draw(t, "spacings"),
					KeyEvery: rapid.IntRange(10, 500).Draw(t, "key")}
			},
			Run: func(c longCase, r *core.Rec) error {
				s := media.VStream{Seq: 65000, Ts: c.Ts, Pic: 15}
				for i := 0; i < c.N; i++ {
					f := media.VFrame{N: 12, K: i%c.KeyEvery == 0, W: 320, H: 240}
					if i > 0 {
						f.D = c.Spacings[i%len(c.Spacings)]
					}
					s.F = append(s.F, f)
				}
				vc := videoCase{V: s}
				v, err := vc.exec(r, false)
				if err != nil {
					return err
				}
				r.NonTrivial()
				return times(&vc, v)
			}}),
	).Run(t)
}

type longCase struct {
	N        int
	Ts       uint32
	Spacings []uint32
	KeyEvery int
}
