package hrec

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"github.com/pion/rtp"
)

// ---------------------------------------------------------------- C15

type rawPkt struct {
	A bool   `json:",omitempty"` // audio
	S int    // sequence number minus the one before
	T uint32 // timestamp minus the one before
	M bool   `json:",omitempty"`
	B []byte // payload
	G int    `json:",omitempty"` // ms
	N bool   `json:",omitempty"` // reported as skipped instead of sent
	H int    `json:",omitempty"` // header oddities: 1 extension, 2 padding flag, 3 csrcs
}

type garbageCase struct {
	Pre    media.VStream
	Raw    []rawPkt
	Post   media.VStream
	K      uint32 // unless anything goes, the timestamps follow the sequence numbers
	Jump   int    // sequence numbers skipped before the clean stream
	Alt    bool
	Queue  uint16
	HasA   bool
	Audio  int // clean audio packets in the end
	IVF    bool
	NoTail bool // any sequence numbers: no demands on what follows
}

// genPayload draws a payload from a grammar of VP8 descriptors, truncated anywhere.
func genPayload(t *rapid.T) []byte {
	switch rapid.IntRange(0, 9).Draw(t, "payload") {
	case 0:
		return nil
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "few")
	case 2:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
	}
	b := []byte{rapid.SampledFrom([]byte{0x90, 0x10, 0x80, 0x00, 0x91, 0x81, 0xb0, 0xff, 0x17}).Draw(t, "b0")}
	if b[0]&0x80 != 0 {
		x := rapid.SampledFrom([]byte{0x80, 0xe0, 0xf0, 0x00, 0x40, 0x20, 0x10, 0xff, 0x30}).Draw(t, "x")
		b = append(b, x)
		if x&0x80 != 0 {
			p := rapid.Byte().Draw(t, "pid")
			b = append(b, p)
			if p&0x80 != 0 {
				b = append(b, rapid.Byte().Draw(t, "pid2"))
			}
		}
		if x&0x40 != 0 {
			b = append(b, rapid.Byte().Draw(t, "tl0"))
		}
		if x&0x30 != 0 {
			b = append(b, rapid.Byte().Draw(t, "tk"))
		}
	}
	body := rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "body")
	if rapid.IntRange(0, 2).Draw(t, "keylike") == 0 {
		body = append([]byte{byte(rapid.SampledFrom([]int{0, 1, 0x10}).Draw(t, "tag")), 0, 0, 0x9d, 0x01, 0x2a, rapid.Byte().Draw(t, "w0"), rapid.Byte().Draw(t, "w1"), rapid.Byte().Draw(t, "h0"), rapid.Byte().Draw(t, "h1")}, body...)
	}
	b = append(b, body...)
	if rapid.IntRange(0, 2).Draw(t, "cut") == 0 {
		b = b[:rapid.IntRange(0, min(len(b), 14)).Draw(t, "at")]
	}
	if rapid.IntRange(0, 30).Draw(t, "big") == 0 {
		b = append(b, bytes.Repeat([]byte{0xa5}, rapid.IntRange(1000, 70000).Draw(t, "n"))...)
	}
	return b
}

func genGarbage(alt, wild bool) func(t *rapid.T) garbageCase {
	return func(t *rapid.T) garbageCase {
		c := garbageCase{Alt: alt, NoTail: wild, Jump: rapid.SampledFrom([]int{0, 0, 1, 5, 100}).Draw(t, "jump"), HasA: rapid.Bool().Draw(t, "audio"), IVF: rapid.IntRange(0, 3).Draw(t, "ivf") == 0}
		c.K = rapid.SampledFrom([]uint32{3000, 0, 960, 20000}).Draw(t, "k")
		c.Queue = rapid.SampledFrom([]uint16{20, 30}).Draw(t, "queue")
		c.Pre = media.GenV(t, media.VOpts{MinFrames: 0, MaxFrames: 4, MaxPkts: 3, MaxSize: 40})
		n := rapid.IntRange(1, 25).Draw(t, "n")
		for i := 0; i < n; i++ {
			p := rawPkt{S: 1, T: 3000, M: rapid.Bool().Draw(t, "m")}
			p.A = c.HasA && rapid.IntRange(0, 3).Draw(t, "a") == 0
			switch rapid.IntRange(0, 5).Draw(t, "seq") {
			case 0:
				p.S = rapid.IntRange(0, 4).Draw(t, "ds")
			case 1:
				if wild {
					p.S = rapid.IntRange(-40000, 40000).Draw(t, "jump")
					if rapid.Bool().Draw(t, "nearqueue") {
						// about what the queues hold
						p.S = rapid.SampledFrom([]int{64, 2 * int(c.Queue), 512}).Draw(t, "hold") + rapid.IntRange(-9, 3).Draw(t, "by")
					}
				}
			case 2:
				p.S = rapid.IntRange(-3, 3).Draw(t, "ds")
			}
			switch rapid.IntRange(0, 3).Draw(t, "ts") {
			case 0:
				p.T = 0
			case 1:
				p.T = rapid.Uint32().Draw(t, "dt")
			}
			if rapid.IntRange(0, 9).Draw(t, "skip") == 0 {
				p.N = true
			}
			p.G = rapid.SampledFrom([]int{0, 0, 20, 700, 2500}).Draw(t, "g")
			p.H = rapid.IntRange(0, 9).Draw(t, "h")
			p.B = genPayload(t)
			c.Raw = append(c.Raw, p)
		}
		if !wild {
			o := media.VOpts{MinFrames: 3, MaxFrames: 15, MaxPkts: 3, MaxSize: 60, KeyEvery: 3, Pad: true}
			if alt {
				o.MinFrames, o.MaxFrames = 80, 110
			}
			c.Post = media.GenV(t, o)
			c.Audio = rapid.SampledFrom([]int{0, 120}).Draw(t, "tail")
		}
		return c
	}
}

func (c garbageCase) run(r *core.Rec) error {
	v := &videoRun{}
	dir := scratch()
	defer os.RemoveAll(dir)
	v.cfg = defaults(dir)
	v.cfg.UseCustomSampler = !c.Alt
	v.cfg.WriteIVFCopy = c.IVF
	if c.Alt {
		v.cfg.VideoPacketQueueSize = c.Queue
	}
	v.hasV, v.hasA = true, c.HasA
	_, pre := c.Pre.Compile()
	v.steps = stepsOf(pre, 0)
	seq, ts, aseq, ats := c.Pre.Seq, c.Pre.Ts, uint16(0), uint32(0)
	at := 0
	for _, p := range pre {
		seq, ts, at = p.P.SequenceNumber+1, p.P.Timestamp, p.At
	}
	seq--
	var hi, cur [2]int // highest and current raw sequence number, relative
	for _, p := range c.Raw {
		at += p.G
		s, tt, w, d := &seq, &ts, 0, c.K
		if p.A {
			s, tt, w, d = &aseq, &ats, 1, min(c.K, 3000)
		}
		cur[w] += p.S
		hi[w] = max(hi[w], cur[w])
		*s += uint16(p.S)
		if c.NoTail {
			*tt += p.T
		} else {
			// the WebM writer cannot interleave tracks more than 32 s apart
			*tt += uint32(p.S) * d
		}
		if p.N {
			v.steps = append(v.steps, step{at: at, notify: []uint16{*s}})
			continue
		}
		k := &media.Pkt{Video: !p.A, P: &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 96, SequenceNumber: *s, Timestamp: *tt, Marker: p.M}, Payload: p.B}}
		switch p.H {
		case 1:
			k.P.Header.Extension = true
			k.P.Header.ExtensionProfile = 0xbede
		case 2:
			k.P.Header.Padding = true
			k.P.PaddingSize = byte(len(p.B))
		case 3:
			k.P.Header.CSRC = []uint32{1, 2}
		}
		v.steps = append(v.steps, step{at: at, pkt: k})
	}
	// the clean stream follows the highest number seen
	post := c.Post
	post.Ts = ts + uint32(hi[0]-cur[0])*c.K + 90000
	post.Seq = seq + uint16(hi[0]-cur[0]) + 1 + uint16(c.Jump)
	frames, pkts := post.Compile()
	for i := range pkts {
		pkts[i].At += at
	}
	tail := stepsOf(pkts, 0)
	var aframes []media.Frame
	if c.HasA && c.Audio > 0 {
		a := media.AStream{Seq: aseq + uint16(hi[1]-cur[1]) + 4, Ts: ats + uint32(hi[1]-cur[1])*min(c.K, 3000) + 960}
		for i := 0; i < c.Audio; i++ {
			a.F = append(a.F, media.AFrame{N: 20, D: 960, G: 20})
		}
		var apkts []media.Pkt
		aframes, apkts = a.Compile()
		for i := range apkts {
			apkts[i].At += at
		}
		tail = merge(tail, stepsOf(apkts, 0))
	}
	v.steps = append(v.steps, tail...)
	if err := v.run.exec(r); err != nil {
		return err
	}
	f, err := v.parse()
	if err != nil {
		return err
	}
	if len(v.ivf) > 0 {
		if _, err := media.ParseIVF(v.ivf); err != nil {
			return err
		}
	}
	r.NonTrivial()
	blocks := f.Of(1)
	r.LabelIf(len(blocks) > 0, "video recorded")
	if len(blocks) > 0 {
		if b := blocks[0]; len(b.Data) < 10 || b.Data[0]&1 != 0 || !b.Key {
			return fmt.Errorf("the first video block is not a keyframe: % x", head(b.Data))
		}
	}
	if c.NoTail {
		return nil
	}
	// what must have been recorded of the clean stream
	from := -1
	if !c.Alt {
		for i, fr := range frames {
			if fr.Key {
				from = i
				break
			}
		}
	} else {
		// once the queue has been gone through
		n := 0
		for i, fr := range frames {
			n += fr.NPkt
			if n > 2*int(c.Queue)+30 && fr.Key {
				from = i
				break
			}
		}
		// the last frame may still be waited for
		if n := len(frames); n > 0 && len(blocks) > 0 && !bytes.Equal(blocks[len(blocks)-1].Data, frames[n-1].Data) {
			frames = frames[:n-1]
		}
	}
	if from >= 0 && from < len(frames) {
		r.Label("clean tail judged")
		want := frames[from:]
		if c.Alt {
			// its sample builder cuts frames at its end, which the recorder drops
			have := map[string]bool{}
			for _, b := range blocks {
				have[string(b.Data)] = true
			}
			n := 0
			for i := range want {
				if have[string(want[i].Data)] {
					n++
				}
			}
			if n*2 < len(want) {
				return fmt.Errorf("only %d of the last %d frames of the clean stream after the garbage are recorded", n, len(want))
			}
		} else {
			if len(blocks) < len(want) {
				return fmt.Errorf("%d blocks, the clean stream at the end has %d frames since its keyframe %d", len(blocks), len(want), from)
			}
			got := blocks[len(blocks)-len(want):]
			for i := range want {
				if !bytes.Equal(got[i].Data, want[i].Data) {
					return fmt.Errorf("frame %d of the clean stream after the garbage is not recorded as it should be (%d blocks, want the last %d)", from+i, len(blocks), len(want))
				}
			}
		}
		soon := false
		for n, st := range v.steps {
			if n > v.opened && v.opened >= 0 && st.pkt != nil && !st.pkt.Video && st.pkt.Frame == len(aframes)-50 && n > len(v.steps)-len(tail) {
				soon = true
			}
		}
		// garbage timestamps may have carried the video far away from the audio
		for _, b := range blocks {
			soon = soon && b.T < 20000
		}
		if len(aframes) > 0 && soon {
			r.Label("clean audio tail judged")
			ab := f.Of(2)
			want := aframes[len(aframes)-40:]
			if fa := f.Track(2); fa == nil || len(ab) < 40 {
				return fmt.Errorf("only %d audio blocks of 120 clean packets", len(ab))
			}
			for i, b := range ab[len(ab)-40:] {
				if !bytes.Equal(b.Data, want[i].Data) {
					return fmt.Errorf("audio packet %d of the clean stream is not recorded as it should be (%d audio blocks)", len(aframes)-40+i, len(ab))
				}
			}
		}
	}
	return nil
}

func TestC15(t *testing.T) {
	facet := func(name string, quick, thorough int, alt, wild bool) core.Facet[garbageCase] {
		return core.Facet[garbageCase]{Name: name, Quick: quick, Thorough: thorough, Gen: genGarbage(alt, wild),
			Run: func(c garbageCase, r *core.Rec) error { return c.run(r) }}
	}
	core.Prop("C15",
		core.F(facet("default", 3000, 60000, false, false)),
		core.F(facet("default-wild", 2000, 40000, false, true)),
		core.F(facet("alternative", 1000, 20000, true, false)),
		core.F(facet("alternative-wild", 2000, 40000, true, true)),
	).Run(t)
}

// ---------------------------------------------------------------- C16

func TestC16(t *testing.T) {
	facet := func(name string, quick, thorough int, gen func(t *rapid.T) videoCase) core.Facet[videoCase] {
		return core.Facet[videoCase]{Name: name, Quick: quick, Thorough: thorough,
			Gen: func(t *rapid.T) videoCase {
				c := gen(t)
				c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 3, 12).Draw(t, "cuts")
				c.Queue = rapid.SampledFrom([]uint16{0, 0, 16, 1}).Draw(t, "queue")
				return c
			},
			Run: func(c videoCase, r *core.Rec) error {
				v, err := c.exec(r, true)
				if err != nil {
					return err
				}
				return v.judgeCrash(&c, r)
			}}
	}
	alt := func(t *rapid.T) videoCase {
		c := genVideo(media.VOpts{MinFrames: 2, MaxFrames: 40, MaxPkts: 4, Loss: true, Gaps: true, BigTs: true})(t)
		c.Alt = true
		return c
	}
	core.Prop("C16",
		core.F(facet("video", 1500, 30000, genVideo(media.VOpts{MinFrames: 2, MaxFrames: 40, MaxPkts: 3, Loss: true, Gaps: true, BigTs: true}))),
		core.F(facet("audio", 800, 15000, genAudio(audioOpts{AOpts: media.AOpts{Min: 1, Max: 80, Gaps: true, Loss: true}, disturb: true}))),
		core.F(facet("both", 1500, 30000, genAudio(audioOpts{AOpts: media.AOpts{Min: 1, Max: 80, Gaps: true, Loss: true}, disturb: true, video: true}))),
		core.F(facet("alternative", 800, 15000, alt)),
		core.F(facet("long", 6, 120, genVideo(media.VOpts{MinFrames: 300, MaxFrames: 600, MaxPkts: 2, MaxSize: 40, KeyEvery: 20, BigTs: true}))),
	).Run(t)
}

func (v *videoRun) judgeCrash(c *videoCase, r *core.Rec) error {
	appendOnly := true
	prefix := func(f *media.File, what string) error {
		if f.Err != nil {
			return fmt.Errorf("%s the file is malformed: %v", what, f.Err)
		}
		if len(f.Blocks) > len(v.f.Blocks) {
			return fmt.Errorf("%s the file has %d blocks, in the end %d", what, len(f.Blocks), len(v.f.Blocks))
		}
		for i, b := range f.Blocks {
			if e := v.f.Blocks[i]; !bytes.Equal(b.Data, e.Data) || b.T != e.T || b.Key != e.Key || b.Track != e.Track {
				return fmt.Errorf("%s block %d differs from the finished file's", what, i)
			}
		}
		return nil
	}
	tracks := func(f *media.File) error {
		n := 0
		if v.hasV {
			n++
		}
		if v.hasA {
			n++
		}
		if len(f.Tracks) != n || v.hasV != (f.Track(1) != nil) || v.hasA != (f.Track(2) != nil) {
			return fmt.Errorf("the file declares tracks %+v (video %v, audio %v)", f.Tracks, v.hasV, v.hasA)
		}
		return nil
	}
	last := -1
	for i, b := range v.snaps {
		if v.opened >= 0 && i >= v.opened && len(b) == last {
			continue
		}
		if v.opened < 0 || i < v.opened {
			continue
		}
		if len(b) < last {
			return fmt.Errorf("the file shrank from %d to %d bytes at step %d", last, len(b), i)
		}
		last = len(b)
		what := fmt.Sprintf("after step %d", i)
		f := media.ParseWebm(b)
		if err := prefix(f, what); err != nil {
			return err
		}
		if !f.HeaderOK {
			return fmt.Errorf("%s the file has no complete header yet (%d bytes)", what, len(b))
		}
		if err := tracks(f); err != nil {
			return err
		}
		if !bytes.HasPrefix(v.final, b) {
			appendOnly = false
		}
	}
	if v.final != nil {
		if err := tracks(v.f); err != nil {
			return err
		}
	}
	r.LabelIf(v.f.Clusters > 1, "several clusters")
	r.LabelIf(v.hasA && v.hasV && len(v.f.Of(1)) > 0 && len(v.f.Of(2)) > 0, "both tracks have data")
	r.NonTrivialIf(len(v.f.Blocks) > 2)
	if err := v.judgeLag(c, r); err != nil {
		return err
	}
	r.LabelIf(!appendOnly, "rewritten in place")
	if appendOnly && len(v.final) > 0 {
		for _, cut := range c.Cuts {
			cut %= len(v.final)
			f := media.ParseWebm(v.final[:cut])
			if err := prefix(f, fmt.Sprintf("cut at %d of %d", cut, len(v.final))); err != nil {
				return err
			}
			if v.f.HeaderEnd <= cut && !f.HeaderOK {
				return fmt.Errorf("cut at %d of %d: no header", cut, len(v.final))
			}
		}
	}
	return nil
}

// judgeLag: what is written stays behind what is recorded by a bounded number
// of blocks: those kept back to interleave the tracks.
func (v *videoRun) judgeLag(c *videoCase, r *core.Rec) error {
	if c.Alt {
		return nil
	}
	idx := map[string]int{}
	for i, b := range v.f.Of(1) {
		idx[string(b.Data)] = i
	}
	for n, st := range v.steps {
		if st.pkt == nil || !st.pkt.Video || !st.pkt.Last || n < v.opened || v.opened < 0 {
			continue
		}
		i, ok := idx[string(v.frames[st.pkt.Frame].Data)]
		if !ok {
			continue
		}
		f := media.ParseWebm(v.snaps[n])
		lag := i + 1 - len(f.Of(1))
		bound := 1
		if v.hasA {
			bound = int(v.cfg.VideoPacketQueueSize) + 16 + 1
		}
		if lag > bound {
			return fmt.Errorf("after step %d, video block %d has been recorded but the file has only %d", n, i, len(f.Of(1)))
		}
		r.LabelIf(lag > 0, "blocks kept back")
	}
	return nil
}
