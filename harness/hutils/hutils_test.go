// Package hutils checks the sequence-number utilities against reference models.
package hutils

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	log "github.com/sirupsen/logrus"
)

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
}

// ---------------------------------------------------------------- C21

// A stream position sequence: positions are absolute (unwrapped by the
// generator), each within less than half the number space of the highest so far.
type unwrapCase struct {
	Base  int
	Start int64
	Steps []int64 // position relative to the highest position so far
}

func unwrapGen(bases []int, maxBack func(half int64) int64, fwd func(half int64) int64) func(t *rapid.T) unwrapCase {
	return func(t *rapid.T) unwrapCase {
		c := unwrapCase{Base: rapid.SampledFrom(bases).Draw(t, "base")}
		space := int64(1) << c.Base
		half := space / 2
		c.Start = rapid.OneOf(rapid.Int64Range(0, space-1), rapid.Just(int64(0)), rapid.Just(space-1), rapid.Int64Range(0, min(8, space-1)), rapid.Int64Range(half-1, half+1)).Draw(t, "start")
		n := rapid.IntRange(1, 60).Draw(t, "n")
		for i := 0; i < n; i++ {
			var d int64
			switch rapid.IntRange(0, 9).Draw(t, "kind") {
			case 0, 1, 2:
				d = 1
			case 3, 4:
				d = rapid.Int64Range(1, min(20, fwd(half))).Draw(t, "hop")
			case 5:
				d = rapid.Int64Range(1, fwd(half)).Draw(t, "jump")
			case 6:
				d = fwd(half)
			case 7:
				d = -rapid.Int64Range(0, min(20, maxBack(half))).Draw(t, "late")
			case 8:
				d = -rapid.Int64Range(0, maxBack(half)).Draw(t, "verylate")
			case 9:
				d = 0
			}
			c.Steps = append(c.Steps, d)
		}
		return c
	}
}

func unwrapRun(c unwrapCase, r *core.Rec) error {
	u := utils.NewSequenceUnwrapper(c.Base)
	space := int64(1) << c.Base
	pos := c.Start
	hi := pos
	var off int64 // unwrapped = position + off
	if got := u.Unwrap(uint64(pos % space)); got != pos {
		return fmt.Errorf("the first number %d is unwrapped to %d", pos, got)
	}
	wraps, lateWrap, shifted := 0, 0, false
	cycle0 := hi / space
	for i, d := range c.Steps {
		p := hi + d
		if p < 0 {
			// The stream cannot be older than 0 in our own coordinates; such a
			// packet belongs to the cycle before the first one. It is the one
			// exception the property makes.
			p = p + 0
		}
		n := uint64(((p % space) + space) % space)
		got := u.Unwrap(n)
		want := p + off
		if got != want {
			// one-time shift by one cycle, allowed only for a packet older
			// than the first that would otherwise be negative (or its
			// neighbour, zero)
			if !shifted && off == 0 && want <= 0 && p < c.Start && got == want+space {
				shifted = true
				off = space
				r.Label("shift")
			} else {
				return fmt.Errorf("step %d: position %d (number %d, highest so far %d) is unwrapped to %d, expected %d (start %d)", i, p, n, hi, got, want, c.Start)
			}
		}
		if got < 0 {
			return fmt.Errorf("step %d: negative result %d", i, got)
		}
		if p > hi {
			if p/space != hi/space {
				wraps++
			}
			hi = p
		} else if p >= 0 && p/space != hi/space {
			lateWrap++
		}
	}
	_ = cycle0
	r.LabelIf(wraps > 0, "wraps")
	r.LabelIf(wraps > 2, "wraps>2")
	r.LabelIf(lateWrap > 0, "late packet from the previous cycle")
	r.NonTrivialIf(wraps > 0)
	return nil
}

func TestC21(t *testing.T) {
	minus1 := func(h int64) int64 { return max(1, h-1) }
	core.Prop("C21",
		core.F(core.Facet[unwrapCase]{Name: "rtp16", Quick: 6000, Thorough: 200000, Gen: unwrapGen([]int{16}, minus1, minus1), Run: unwrapRun}),
		core.F(core.Facet[unwrapCase]{Name: "smallspace", Quick: 6000, Thorough: 200000, Gen: unwrapGen([]int{3, 4, 5, 6, 8}, minus1, minus1), Run: unwrapRun}),
		core.F(core.Facet[unwrapCase]{Name: "timestamp32", Quick: 3000, Thorough: 60000, Gen: unwrapGen([]int{15, 24, 32}, minus1, minus1), Run: unwrapRun}),
		// a long stream as a recording of hours would produce it
		core.F(core.Facet[longUnwrapCase]{Name: "longstream", Quick: 60, Thorough: 1500, Gen: longUnwrapGen, Run: longUnwrapRun}),
	).Run(t)
}

type longUnwrapCase struct {
	Start  uint16
	N      int
	Stride int64
	Swap   int // every Swap-th packet is delivered Back positions late (0 = never)
	Back   int64
}

func longUnwrapGen(t *rapid.T) longUnwrapCase {
	return longUnwrapCase{
		Start:  rapid.Uint16().Draw(t, "start"),
		N:      rapid.IntRange(70000, 300000).Draw(t, "n"),
		Stride: rapid.Int64Range(1, 40).Draw(t, "stride"),
		Swap:   rapid.IntRange(0, 50).Draw(t, "swap"),
		Back:   rapid.Int64Range(1, 2000).Draw(t, "back"),
	}
}

func longUnwrapRun(c longUnwrapCase, r *core.Rec) error {
	u := utils.NewSequenceUnwrapper(16)
	p0 := int64(c.Start)
	wraps := 0
	for i := 0; i < c.N; i++ {
		p := p0 + int64(i)*c.Stride
		if got := u.Unwrap(uint64(uint16(p))); got != p {
			return fmt.Errorf("packet %d: number %d unwrapped to %d, expected %d", i, uint16(p), got, p)
		}
		if i > 0 && p>>16 != (p-c.Stride)>>16 {
			wraps++
		}
		if c.Swap > 0 && i%c.Swap == c.Swap-1 && p-c.Back > p0 {
			q := p - c.Back
			if got := u.Unwrap(uint64(uint16(q))); got != q {
				return fmt.Errorf("late packet %d after %d: number %d unwrapped to %d, expected %d", q, p, uint16(q), got, q)
			}
		}
	}
	r.NonTrivialIf(wraps > 0)
	r.LabelIf(wraps > 3, "wraps>3")
	return nil
}

// ---------------------------------------------------------------- C22

type jbOp struct {
	Op string // add, next, wait, skip
	D  int64  // add: position relative to the highest added; skip: relative to the next expected
	Ms int
}

type jbCase struct {
	Size    uint16
	Timeout uint16
	Start   int64
	Auto    bool // call NextPackets after each Add as the receive loop does
	Ops     []jbOp
}

func jbGen(t *rapid.T) jbCase {
	c := jbCase{
		Size:    rapid.OneOf(rapid.SampledFrom([]uint16{2, 3, 4, 8, 16, 64, 512}), rapid.Uint16Range(2, 40)).Draw(t, "size"),
		Timeout: rapid.SampledFrom([]uint16{1, 10, 100, 200, 1000}).Draw(t, "timeout"),
		Start:   rapid.OneOf(rapid.Int64Range(0, 3), rapid.Int64Range(65500, 65540), rapid.Int64Range(0, 200000)).Draw(t, "start"),
		Auto:    rapid.Bool().Draw(t, "auto"),
	}
	n := rapid.IntRange(1, 60).Draw(t, "n")
	sz := int64(c.Size)
	c.Ops = append(c.Ops, jbOp{Op: "add"})
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 15).Draw(t, "op") {
		case 0, 1, 2, 3, 4:
			c.Ops = append(c.Ops, jbOp{Op: "add", D: 1})
		case 5, 6:
			c.Ops = append(c.Ops, jbOp{Op: "add", D: rapid.Int64Range(2, max(3, min(6, sz))).Draw(t, "gap")})
		case 7:
			c.Ops = append(c.Ops, jbOp{Op: "add", D: rapid.Int64Range(max(1, sz-3), sz+3).Draw(t, "edge")})
		case 8:
			if rapid.IntRange(0, 4).Draw(t, "rare") == 0 {
				c.Ops = append(c.Ops, jbOp{Op: "add", D: rapid.Int64Range(1, 3*sz+3).Draw(t, "jump")})
			}
		case 9, 10, 11:
			c.Ops = append(c.Ops, jbOp{Op: "add", D: -rapid.Int64Range(0, min(sz+2, 8)).Draw(t, "late")})
		case 12:
			c.Ops = append(c.Ops, jbOp{Op: "next"})
		case 13, 14:
			to := int(c.Timeout)
			c.Ops = append(c.Ops, jbOp{Op: "wait", Ms: rapid.SampledFrom([]int{1, to / 2, to - 1, to, to + 1, 2 * to}).Draw(t, "ms")})
			c.Ops = append(c.Ops, jbOp{Op: "next"})
		case 15:
			c.Ops = append(c.Ops, jbOp{Op: "skip", D: int64(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 6, -1, -2}).Draw(t, "skipoff"))})
			for rapid.IntRange(0, 1).Draw(t, "more") > 0 {
				c.Ops = append(c.Ops, jbOp{Op: "skip", D: int64(rapid.IntRange(0, 6).Draw(t, "skipoff"))})
			}
		}
	}
	return c
}

// jbRun judges the buffer by what a caller can see: what Add accepted, what
// NextPackets gave and when.
func jbRun(c jbCase, r *core.Rec) error {
	_, err := r.Bubble(func() error { return jbRunInner(c, r) })
	return err
}

func jbRunInner(c jbCase, r *core.Rec) error {
	jb := utils.NewJitterBuffer(c.Size, c.Timeout, context.Background())
	size := int64(c.Size)
	timeout := time.Duration(c.Timeout) * time.Millisecond
	accepted := map[int64]*rtp.Packet{} // latest accepted, not delivered
	delivered := map[int64]bool{}
	next := int64(-1) // everything below has been delivered or given up
	newest := int64(-1)
	first := int64(-1)
	var waitSince time.Time // when a NextPackets call first found `next` missing
	waiting := int64(-1)
	signalled := map[int64]bool{} // skips reported
	given := map[int64]bool{} // skipped explicitly before its turn came: must be passed over at once
	maybe := map[int64]bool{} // the same, but not known to be missing then: may be
	ahead := 0
	reordered, lost, dup, slid, timedOut, byhand := 0, 0, 0, 0, 0, 0

	step := func(op jbOp) error {
		switch op.Op {
		case "wait":
			time.Sleep(time.Duration(op.Ms) * time.Millisecond)
		case "add":
			seq := c.Start
			if newest >= 0 {
				seq = newest + op.D
			}
			if seq < 0 {
				return nil
			}
			p := &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(seq), Timestamp: uint32(seq)}, Payload: []byte{1}}
			ok := jb.Add(seq, p)
			switch {
			case newest < 0:
				if !ok {
					return fmt.Errorf("the first packet %d is refused", seq)
				}
				first, newest, next = seq, seq, seq
				accepted[seq] = p
			case seq > newest:
				if !ok {
					return fmt.Errorf("packet %d, newer than all before (%d), is refused", seq, newest)
				}
				newest = seq
				if seq >= next { // else it was skipped explicitly before it came
					accepted[seq] = p
				}
				if low := newest - size + 1; next < low {
					// slid out of the window
					for q := range accepted {
						if q < low {
							delete(accepted, q)
						}
					}
					next = low
					slid++
				}
			case seq < next || delivered[seq]:
				// too late or a duplicate: may be accepted or refused, but never delivered
				dup++
			case accepted[seq] != nil:
				dup++
				if ok {
					// replaced by the duplicate; either packet may come out
					accepted[seq] = p
				}
			default: // fills a gap inside the window
				reordered++
				if newest-seq < size {
					if !ok {
						return fmt.Errorf("packet %d, still awaited (next %d, newest %d, size %d), is refused", seq, next, newest, size)
					}
					accepted[seq] = p
				}
			}
		case "skip":
			if next < 0 {
				return nil
			}
			seq := next + op.D
			if seq < 0 {
				return nil
			}
			jb.SkipPacket(seq)
			if op.D == 0 {
				byhand++
				delete(accepted, seq)
				next++
			}
			if op.D > 0 {
				maybe[seq] = true
				if seq <= newest && accepted[seq] == nil {
					given[seq] = true
				}
			}
		case "next":
			if next < 0 {
				return nil
			}
			before := next
			pkts, skipped := jb.NextPackets()
			// what has to be / may be passed over
			var reported []int64
			if skipped {
				for {
					q, ok := jb.GetAndClearLastSkipped()
					if !ok {
						break
					}
					reported = append(reported, q)
					if len(reported) > 100000 {
						return fmt.Errorf("GetAndClearLastSkipped never ends")
					}
				}
			}
			for _, q := range reported {
				signalled[q] = true
			}
			// delivered packets: strictly increasing, never before, each the one accepted
			cur := next - 1
			for _, p := range pkts {
				if p == nil {
					return fmt.Errorf("NextPackets delivers a nil packet (next %d)", next)
				}
				q := int64(p.Timestamp) // the harness puts the unwrapped number here
				if q <= cur {
					return fmt.Errorf("packet %d delivered after %d", q, cur)
				}
				if delivered[q] {
					return fmt.Errorf("packet %d delivered twice", q)
				}
				w := accepted[q]
				if w == nil {
					return fmt.Errorf("packet %d delivered although it is not awaited (next %d)", q, next)
				}
				if w.SequenceNumber != p.SequenceNumber {
					return fmt.Errorf("packet %d is not the one added under that number", q)
				}
				// anything between cur and q must be a legitimate skip
				any := false
				for m := cur + 1; m < q; m++ {
					any = any || signalled[m]
				}
				for m := cur + 1; m < q; m++ {
					if accepted[m] != nil {
						return fmt.Errorf("packet %d was accepted but %d is delivered without it", m, q)
					}
					if maybe[m] {
						ahead++
					} else if waiting != m || time.Since(waitSince) < timeout {
						return fmt.Errorf("missing packet %d is passed over before its timeout (waited since a call %v ago, timeout %v)", m, time.Since(waitSince), timeout)
					}
					if !skipped {
						return fmt.Errorf("missing packet %d is passed over without being reported", m)
					}
					if !any {
						return fmt.Errorf("missing packet %d is passed over, but the reported number is %v", m, reported)
					}
					timedOut++
				}
				delivered[q] = true
				delete(accepted, q)
				cur = q
			}
			if cur+1 > next {
				next = cur + 1
			}
			if len(pkts) == 0 {
				// nothing delivered: is something stalling?
				if before <= newest && accepted[before] != nil {
					return fmt.Errorf("packet %d is there and next in order but is not delivered", before)
				}
				if before <= newest {
					// a missing packet
					g := jb.GetNextStart()
					if waiting == before && time.Since(waitSince) >= timeout || given[before] || maybe[before] && g > before {
						// its timeout has passed, or it was skipped explicitly: this
						// call must have moved past it and what else was skipped
						if !given[before] && !maybe[before] {
							timedOut++
						} else {
							ahead++
						}
						next = before + 1
						for next <= newest && (given[next] && accepted[next] == nil || maybe[next] && g > next) {
							ahead++
							next++
						}
						if g != next {
							return fmt.Errorf("missing packet %d is due to be passed over, the next one awaited is %d, but the buffer waits for %d", before, next, g)
						}
						any := false
						for m := before; m < next; m++ {
							any = any || signalled[m]
						}
						if !skipped || !any {
							return fmt.Errorf("missing packet %d is given up without being reported (%v)", before, reported)
						}
						if accepted[next] != nil {
							return fmt.Errorf("packet %d is next in order after the skip of %d but is not delivered", next, before)
						}
					} else if skipped {
						return fmt.Errorf("a skip (%v) is reported although packet %d is still being waited for", reported, before)
					}
				} else if skipped {
					return fmt.Errorf("a skip (%v) is reported with nothing missing", reported)
				}
			} else {
				if before <= newest && !delivered[before] {
					// head was missing, handled in the loop above
					lost++
				}
				if accepted[next] != nil {
					return fmt.Errorf("packet %d is there and next in order but is not delivered with its predecessors", next)
				}
			}
			// is the head missing now? the clock starts with a call that finds it missing
			if next <= newest && accepted[next] == nil {
				if waiting != next {
					// A call that did not look at the head leaves the clock
					// unstarted; one that did starts it. Both are allowed, so
					// the oracle starts it with the first call that had to.
					if before == next || len(pkts) == 0 {
						waiting, waitSince = next, time.Now()
					}
				}
			} else if waiting == next {
				waiting = -1
			}
			for _, q := range reported {
				if delivered[q] || accepted[q] != nil {
					return fmt.Errorf("packet %d is reported as skipped but was received", q)
				}
			}
		}
		// never hold back packets more than size behind the newest
		if newest >= 0 {
			if g := jb.GetNextStart(); g < newest-size+1 {
				return fmt.Errorf("the buffer still waits for %d with the newest at %d and size %d", g, newest, size)
			} else if g != next {
				return fmt.Errorf("after %s: next in order should be %d, the buffer says %d", op.Op, next, g)
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		if err := step(op); err != nil {
			return fmt.Errorf("op %d %+v: %w", i, op, err)
		}
		if c.Auto && op.Op == "add" {
			if err := step(jbOp{Op: "next"}); err != nil {
				return fmt.Errorf("op %d %+v: %w", i, op, err)
			}
		}
	}
	// drain: with enough calls spaced by the timeout everything accepted comes out
	for i := int64(0); i < 2*size+4 && next <= newest; i++ {
		if err := step(jbOp{Op: "next"}); err != nil {
			return fmt.Errorf("drain: %w", err)
		}
		time.Sleep(timeout)
	}
	for i := int64(0); i < 2*size+4 && next <= newest; i++ {
		if err := step(jbOp{Op: "next"}); err != nil {
			return fmt.Errorf("drain: %w", err)
		}
		time.Sleep(timeout)
	}
	if next <= newest || len(accepted) > 0 {
		return fmt.Errorf("stalled: next %d, newest %d, undelivered %d", next, newest, len(accepted))
	}
	_ = first
	r.LabelIf(reordered > 0, "reordered")
	r.LabelIf(dup > 0, "late or duplicate")
	r.LabelIf(timedOut > 0, "timeout skip")
	r.LabelIf(slid > 0, "window slide")
	r.LabelIf(byhand > 0, "explicit skip")
	r.LabelIf(ahead > 0, "explicit skip ahead of its turn")
	r.LabelIf(c.Start == 0, "starts at 0")
	r.LabelIf(c.Start <= 65536 && newest > 65536, "crosses 65536")
	r.NonTrivialIf(reordered > 0 || timedOut > 0 || slid > 0)
	return nil
}

func TestC22(t *testing.T) {
	core.Prop("C22",
		core.F(core.Facet[jbCase]{Name: "history", Quick: 8000, Thorough: 250000, Gen: jbGen, Run: jbRun}),
	).Run(t)
}

// ---------------------------------------------------------------- C23

type rlOp struct {
	Op string // add, ignore, check
	D  int    // relative to the highest
	N  uint16
}

type rlCase struct {
	Size  uint16
	Start uint16
	Ops   []rlOp
}

func rlGen(t *rapid.T) rlCase {
	c := rlCase{
		Size:  rapid.SampledFrom([]uint16{64, 64, 64, 128, 256, 1024, 1024, 16384}).Draw(t, "size"),
		Start: rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{0, 1, 65535, 65530, 65472})).Draw(t, "start"),
	}
	sz := int(c.Size)
	n := rapid.IntRange(1, 80).Draw(t, "n")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 14).Draw(t, "op") {
		case 0, 1, 2, 3:
			c.Ops = append(c.Ops, rlOp{Op: "add", D: 1})
		case 4, 5, 6:
			c.Ops = append(c.Ops, rlOp{Op: "add", D: rapid.IntRange(2, 20).Draw(t, "gap")})
		case 7:
			c.Ops = append(c.Ops, rlOp{Op: "add", D: rapid.IntRange(sz-2, sz+2).Draw(t, "edge")})
		case 8:
			if rapid.IntRange(0, 3).Draw(t, "rare") == 0 {
				c.Ops = append(c.Ops, rlOp{Op: "add", D: rapid.IntRange(1, 32767).Draw(t, "jump")})
			} else {
				c.Ops = append(c.Ops, rlOp{Op: "run", D: rapid.IntRange(sz-5, 2*sz).Draw(t, "run")})
			}
		case 9, 10:
			c.Ops = append(c.Ops, rlOp{Op: "add", D: -rapid.IntRange(0, min(30, sz-1)).Draw(t, "late")})
		case 11:
			c.Ops = append(c.Ops, rlOp{Op: "add", D: -rapid.IntRange(0, min(2*sz, 32000)).Draw(t, "verylate")})
		case 12:
			// fill the oldest missing number
			c.Ops = append(c.Ops, rlOp{Op: rapid.SampledFrom([]string{"fill", "giveup"}).Draw(t, "what"), D: rapid.IntRange(0, 5).Draw(t, "idx")})
		case 13:
			c.Ops = append(c.Ops, rlOp{Op: "ignore", D: -rapid.IntRange(0, min(2*sz, 32000)).Draw(t, "ign")})
		case 14:
			c.Ops = append(c.Ops, rlOp{Op: "check", N: uint16(rapid.IntRange(0, 40).Draw(t, "skip"))})
		}
	}
	return c
}

func rlRun(c rlCase, r *core.Rec) error {
	rl, err := utils.NewReceiveLog(c.Size)
	if err != nil {
		return core.HarnessError{Why: err.Error()}
	}
	size := int64(c.Size)
	base := int64(1 << 20)
	first := base + int64(c.Start)
	hi := int64(-1)
	got := map[int64]bool{}
	wraps, late, tooLate, slides := 0, 0, 0, 0
	maxMissing := 0
	add := func(p int64) {
		if hi >= 0 && p <= hi-size {
			tooLate++
		} else if p < hi {
			late++
		}
		rl.Add(uint16(p))
		if hi < 0 {
			hi = p
			got[p] = true
			return
		}
		if p > hi {
			if p>>16 != hi>>16 {
				wraps++
			}
			if hi-first < size && p-first >= size {
				slides++
			}
			for q := hi - size + 1; q <= p-size; q++ {
				delete(got, q)
			}
			hi = p
		}
		if p > hi-size {
			got[p] = true
		}
	}
	add(first)
	// what a caller must see as missing: within the window, from the first
	// packet on, not received. Numbers below the last consecutive one are not
	// reported, so it must not pass a missing one.
	check := func(skip uint16) error {
		var want []uint16
		low := max(hi-size+1, first)
		// numbers older than the first packet seen are not known to exist
		for q := low; q <= hi-int64(skip); q++ {
			if !got[q] {
				want = append(want, uint16(q))
			}
		}
		have := rl.MissingSeqNumbers(skip)
		maxMissing = max(maxMissing, len(want))
		if len(have) != len(want) {
			return fmt.Errorf("MissingSeqNumbers(%d): got %v, want %v (end %d)", skip, trim(have), trim(want), uint16(hi))
		}
		for i := range have {
			if have[i] != want[i] {
				return fmt.Errorf("MissingSeqNumbers(%d): got %v, want %v (end %d)", skip, trim(have), trim(want), uint16(hi))
			}
		}
		for q := low; q <= hi; q++ {
			if rl.Get(uint16(q)) != got[q] {
				return fmt.Errorf("Get(%d) = %v, received or ignored: %v (end %d, size %d)", uint16(q), !got[q], got[q], uint16(hi), size)
			}
		}
		// outside the window
		for _, d := range []int64{size, size + 1, 2 * size} {
			if d < 32768 && rl.Get(uint16(hi-d)) {
				return fmt.Errorf("Get(%d) = true although it is %d behind the newest", uint16(hi-d), d)
			}
		}
		if rl.Get(uint16(hi+1)) || rl.Get(uint16(hi+100)) {
			return fmt.Errorf("a number that is still to come is reported as received (end %d)", uint16(hi))
		}
		lc := rl.GetLastConsecutive()
		for q := low; q <= hi; q++ {
			if !got[q] {
				if d := uint16(lc - uint16(q)); d < 32768 {
					return fmt.Errorf("the last consecutive number %d passes the missing %d", lc, uint16(q))
				}
				break
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		switch op.Op {
		case "add":
			p := hi + int64(op.D)
			if p < first {
				// older than the first packet: it is not part of the known stream
				continue
			}
			add(p)
		case "run":
			for k := 0; k < op.D; k++ {
				add(hi + 1)
			}
		case "fill", "giveup":
			miss := rl.MissingSeqNumbers(0)
			if len(miss) == 0 {
				continue
			}
			s := miss[op.D%len(miss)]
			p := hi - int64(uint16(uint16(hi)-s))
			if op.Op == "fill" {
				add(p)
			} else {
				rl.IgnoreSeqNum(s)
				if p > hi-size {
					got[p] = true
				}
			}
		case "ignore":
			p := hi + int64(op.D)
			if p < first {
				continue
			}
			rl.IgnoreSeqNum(uint16(p))
			if p > hi-size {
				got[p] = true
			}
		}
		if err := check(op.N); err != nil {
			return fmt.Errorf("after op %d %+v: %w", i, op, err)
		}
		if i%5 == 4 {
			if err := check(0); err != nil {
				return fmt.Errorf("after op %d %+v: %w", i, op, err)
			}
		}
	}
	r.LabelIf(wraps > 0, "wraps")
	r.LabelIf(late > 0, "late")
	r.LabelIf(tooLate > 0, "older than the window")
	r.LabelIf(slides > 0, "window slides past the start")
	r.LabelIf(maxMissing > 0, "missing")
	r.NonTrivialIf(maxMissing > 0 && (late > 0 || slides > 0))
	return nil
}

func trim(v []uint16) string {
	if len(v) > 40 {
		return fmt.Sprintf("%v… (%d)", v[:40], len(v))
	}
	return fmt.Sprint(v)
}

type rlSize struct{ Size uint16 }

func TestC23(t *testing.T) {
	core.Prop("C23",
		core.F(core.Facet[rlCase]{Name: "history", Quick: 3000, Thorough: 100000, Gen: rlGen, Run: rlRun}),
	).Run(t)
}

// ---------------------------------------------------------------- C24

type nackCase struct {
	Start uint16
	Gaps  []uint16
}

func nackGen(t *rapid.T) nackCase {
	c := nackCase{Start: rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(65500, 65535), rapid.Just(uint16(0))).Draw(t, "start")}
	n := rapid.IntRange(0, 80).Draw(t, "n")
	sum := 0
	for i := 0; i < n; i++ {
		g := rapid.OneOf(rapid.Uint16Range(1, 3), rapid.Uint16Range(14, 19), rapid.Uint16Range(1, 40), rapid.Uint16Range(1, 700)).Draw(t, "gap")
		sum += int(g)
		if sum > 32000 {
			break
		}
		c.Gaps = append(c.Gaps, g)
	}
	return c
}

func nackRun(c nackCase, r *core.Rec) error {
	seqs := []uint16{}
	if len(c.Gaps) > 0 || c.Start%2 == 0 {
		seqs = append(seqs, c.Start)
	}
	for _, g := range c.Gaps {
		seqs = append(seqs, seqs[len(seqs)-1]+g)
	}
	in := append([]uint16{}, seqs...)
	pairs := utils.NackPairs(seqs)
	for i := range in {
		if seqs[i] != in[i] {
			return fmt.Errorf("NackPairs changed its argument: %v -> %v", in, seqs)
		}
	}
	// minimum number of pairs: greedy is optimal as a pair covers 17 consecutive numbers from its first
	want := 0
	var pid uint16
	for i, s := range in {
		if i == 0 || s-pid > 16 {
			want++
			pid = s
		}
	}
	if len(pairs) != want {
		return fmt.Errorf("%v encoded in %d pairs %v, %d suffice", in, len(pairs), pairs, want)
	}
	// independent decoder: the RTCP wire format (RFC 4585)
	back := utils.NackPairsToSequenceNumbers(pairs)
	dec := []uint16{}
	for _, p := range pairs {
		dec = append(dec, p.PacketID)
		for b := 0; b < 16; b++ {
			if uint16(p.LostPackets)&(1<<b) != 0 {
				dec = append(dec, p.PacketID+uint16(b)+1)
			}
		}
	}
	for name, l := range map[string][]uint16{"RFC 4585 decoding": dec, "NackPairsToSequenceNumbers": back} {
		if len(l) != len(in) {
			return fmt.Errorf("%s of the pairs of %v is %v", name, in, l)
		}
		for i := range l {
			if l[i] != in[i] {
				return fmt.Errorf("%s of the pairs of %v is %v", name, in, l)
			}
		}
	}
	// and through the wire
	if len(pairs) > 0 && len(pairs) < 200 {
		b, err := (&rtcp.TransportLayerNack{Nacks: pairs}).Marshal()
		if err != nil {
			return core.HarnessError{Why: err.Error()}
		}
		var n rtcp.TransportLayerNack
		if err := n.Unmarshal(b); err != nil {
			return core.HarnessError{Why: err.Error()}
		}
		l := utils.NackPairsToSequenceNumbers(n.Nacks)
		if !bytes.Equal(u16s(l), u16s(in)) {
			return fmt.Errorf("through RTCP: %v -> %v", in, l)
		}
	}
	r.LabelIf(len(pairs) > 1, "several pairs")
	r.LabelIf(len(in) > 0 && in[len(in)-1] < in[0], "wraps")
	r.LabelIf(len(in) == 0, "empty")
	r.NonTrivialIf(len(in) > 1)
	return nil
}

func u16s(l []uint16) []byte {
	b := []byte{}
	for _, v := range l {
		b = binary.BigEndian.AppendUint16(b, v)
	}
	return b
}

// decoding of arbitrary pairs, then re-encoding: the numbers are a superset-free equal set
type nackDecCase struct {
	Pairs [][2]uint16 // gap to the end of the previous pair's range, mask
	Start uint16
}

func nackDecGen(t *rapid.T) nackDecCase {
	c := nackDecCase{Start: rapid.Uint16().Draw(t, "start")}
	n := rapid.IntRange(0, 12).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Pairs = append(c.Pairs, [2]uint16{rapid.Uint16Range(17, 60).Draw(t, "gap"), rapid.Uint16().Draw(t, "mask")})
	}
	return c
}

func nackDecRun(c nackDecCase, r *core.Rec) error {
	var pairs []rtcp.NackPair
	id := c.Start
	var want []uint16
	for _, p := range c.Pairs {
		pairs = append(pairs, rtcp.NackPair{PacketID: id, LostPackets: rtcp.PacketBitmap(p[1])})
		np := rtcp.NackPair{PacketID: id, LostPackets: rtcp.PacketBitmap(p[1])}
		want = append(want, np.PacketList()...)
		id += p[0]
	}
	got := utils.NackPairsToSequenceNumbers(pairs)
	if !bytes.Equal(u16s(got), u16s(want)) {
		return fmt.Errorf("pairs %v decoded to %v, want %v", pairs, got, want)
	}
	again := utils.NackPairsToSequenceNumbers(utils.NackPairs(got))
	if !bytes.Equal(u16s(again), u16s(got)) {
		return fmt.Errorf("%v re-encoded and decoded gives %v", got, again)
	}
	r.NonTrivialIf(len(want) > len(pairs))
	return nil
}

func TestC24(t *testing.T) {
	core.Prop("C24",
		core.F(core.Facet[nackCase]{Name: "roundtrip", Quick: 8000, Thorough: 300000, Gen: nackGen, Run: nackRun}),
		core.F(core.Facet[nackDecCase]{Name: "decode", Quick: 4000, Thorough: 100000, Gen: nackDecGen, Run: nackDecRun}),
	).Run(t)
}

// ---------------------------------------------------------------- C25

type sbCase struct {
	Size  uint16
	Start uint16
	Steps []int // relative to the newest
}

func sbGen(t *rapid.T) sbCase {
	c := sbCase{
		Size:  rapid.SampledFrom([]uint16{1, 2, 4, 8, 8, 16, 64, 256, 1024, 32768}).Draw(t, "size"),
		Start: rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{0, 1, 65535, 65530})).Draw(t, "start"),
	}
	sz := int(c.Size)
	n := rapid.IntRange(0, 60).Draw(t, "n")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 8).Draw(t, "op") {
		case 0, 1, 2, 3:
			c.Steps = append(c.Steps, 1)
		case 4, 5:
			c.Steps = append(c.Steps, rapid.IntRange(2, max(3, min(sz, 12))).Draw(t, "gap"))
		case 6:
			c.Steps = append(c.Steps, rapid.IntRange(1, min(3*sz+1, 32767)).Draw(t, "jump"))
		case 7:
			c.Steps = append(c.Steps, -rapid.IntRange(0, min(12, sz+2)).Draw(t, "late"))
		case 8:
			c.Steps = append(c.Steps, -rapid.IntRange(0, min(3*sz, 32767)).Draw(t, "verylate"))
		}
	}
	return c
}

func sbRun(c sbCase, r *core.Rec) error {
	sb, err := utils.NewSendBuffer(c.Size)
	if err != nil {
		return core.HarnessError{Why: err.Error()}
	}
	size := int64(c.Size)
	base := int64(1 << 20)
	hi := base + int64(c.Start)
	got := map[int64][]*rtp.Packet{}
	mk := func(p int64) *rtp.Packet {
		pk := &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(p)}}
		return pk
	}
	late := 0
	put := func(p int64) {
		pk := mk(p)
		sb.Add(pk)
		if p > hi {
			hi = p
		}
		if p > hi-size {
			got[p] = append(got[p], pk)
		} else {
			late++
		}
	}
	put(hi)
	lateIn := 0
	for i, d := range c.Steps {
		if d < 0 && int64(-d) < size {
			lateIn++
		}
		put(hi + int64(d))
		lim := min(size, 300)
		for q := hi - lim - 40; q <= hi+40; q++ {
			g := sb.Get(uint16(q))
			in := q > hi-size && q <= hi
			if g == nil {
				if in && len(got[q]) > 0 {
					return fmt.Errorf("step %d: packet %d was added and lies within the last %d up to %d, but is not returned", i, uint16(q), size, uint16(hi))
				}
				continue
			}
			if !in {
				return fmt.Errorf("step %d: Get(%d) returns a packet although the newest is %d and the size %d", i, uint16(q), uint16(hi), size)
			}
			if g.SequenceNumber != uint16(q) {
				return fmt.Errorf("step %d: Get(%d) returns packet %d", i, uint16(q), g.SequenceNumber)
			}
			ok := false
			for _, w := range got[q] {
				ok = ok || w == g
			}
			if !ok {
				return fmt.Errorf("step %d: Get(%d) returns a packet that was never added in this window", i, uint16(q))
			}
		}
	}
	r.LabelIf(late > 0, "older than the window")
	r.LabelIf(lateIn > 0, "late inside the window")
	r.NonTrivialIf(len(c.Steps) > 3)
	return nil
}

func TestC25(t *testing.T) {
	core.Prop("C25",
		core.F(core.Facet[sbCase]{Name: "history", Quick: 3000, Thorough: 80000, Gen: sbGen, Run: sbRun}),
	).Run(t)
}
