// Package hrec checks the recorder: what is pushed into it against what is on disk.
package hrec

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"testing/synctest"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	log "github.com/sirupsen/logrus"
)

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
}

func scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		panic(core.HarnessError{Why: err.Error()})
	}
	return d
}

func defaults(dir string) config.Recorder {
	return config.Recorder{Directory: dir, DirFileMode: "0700", FileMode: "0600", VideoPacketQueueSize: 256, AudioPacketQueueSize: 32, UseCustomSampler: true}
}

type requester struct{ f func() }

func (r requester) RequestKeyframe()                { r.f() }
func (r requester) RequestKeyframeForSSRC(_ uint32) { r.f() }

// step is one thing that happens to the recorder.
type step struct {
	at     int // ms
	pkt    *media.Pkt
	notify []uint16 // skipped packets reported before pkt is pushed
}

// run is one recording session in virtual time.
type run struct {
	cfg      config.Recorder
	hasV     bool
	hasA     bool
	file     string
	steps    []step
	snap     bool // snapshots after every step
	afterEnd []step

	// results
	path     string
	final    []byte
	ivf      []byte
	snaps    [][]byte
	vts      []time.Duration // VideoTimestamp after each step
	closeTs  time.Duration
	requests []int // ms
	opened   int   // step after which the file existed, -1
	did      []int // time of each step in ms
}

// exec runs the session. An error is a violation (or a harness error).
func (s *run) exec(r *core.Rec) error {
	if s.file == "" {
		s.file = "rec.webm"
	}
	done := false
	leaked, err := r.Bubble(func() error {
		rec, err := recorder.NewRecorder(context.Background(), s.cfg, s.file)
		if err != nil {
			return fmt.Errorf("NewRecorder refuses %q: %v", s.file, err)
		}
		s.path = rec.GetFilePath()
		rec.SetHasVideo(s.hasV)
		rec.SetHasAudio(s.hasA)
		t0 := time.Now()
		now := func() int { return int(time.Since(t0) / time.Millisecond) }
		rec.SetKeyframeRequester(requester{func() { s.requests = append(s.requests, now()) }})
		s.opened = -1
		push := func(st step) {
			if d := st.at - now(); d > 0 {
				time.Sleep(time.Duration(d) * time.Millisecond)
			}
			for _, n := range st.notify {
				rec.NotifySkippedPacket(n)
			}
			if st.pkt != nil {
				if st.pkt.Video {
					rec.PushVideo(media.Clone(st.pkt.P))
				} else {
					rec.PushAudio(media.Clone(st.pkt.P))
				}
			}
		}
		for i, st := range s.steps {
			push(st)
			s.did = append(s.did, now())
			s.vts = append(s.vts, rec.VideoTimestamp())
			if s.opened < 0 {
				if _, err := os.Stat(s.path); err == nil {
					s.opened = i
				}
			}
			if s.snap {
				synctest.Wait()
				b, _ := os.ReadFile(s.path)
				s.snaps = append(s.snaps, b)
			}
		}
		s.closeTs = rec.Close()
		synctest.Wait()
		s.final, _ = os.ReadFile(s.path)
		s.ivf, _ = os.ReadFile(ivfPath(s.path))
		if len(s.afterEnd) > 0 {
			for _, st := range s.afterEnd {
				push(st)
			}
			rec.Close()
			synctest.Wait()
			if b, _ := os.ReadFile(s.path); !bytes.Equal(b, s.final) {
				return fmt.Errorf("the file changed after the recording was closed: %d -> %d bytes", len(s.final), len(b))
			}
		}
		done = true
		return nil
	})
	if err != nil {
		return err
	}
	if !done && leaked {
		return fmt.Errorf("the recorder hangs")
	}
	return nil
}

func ivfPath(p string) string { return p[:len(p)-len(filepath.Ext(p))] + ".ivf" }

// steps of packets: the lost ones are left out; their numbers are reported
// before the next packet according to mode (0 never, 1 all, 2 the last one).
func stepsOf(pkts []media.Pkt, mode int) []step {
	var out []step
	var pend []uint16
	for i := range pkts {
		p := &pkts[i]
		if p.Lost {
			if p.Video {
				pend = append(pend, p.P.SequenceNumber)
			}
			continue
		}
		st := step{at: p.At, pkt: p}
		if p.Video {
			switch {
			case mode == 1:
				st.notify = pend
			case mode == 2 && len(pend) > 0:
				st.notify = pend[len(pend)-1:]
			}
			pend = nil
		}
		out = append(out, st)
	}
	return out
}

// merge interleaves by time, stable.
func merge(a, b []step) []step {
	out := append(append([]step(nil), a...), b...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].at < out[j].at })
	return out
}

// parse parses the final file and insists that it is complete.
func (s *run) parse() (*media.File, error) {
	if s.final == nil {
		return &media.File{}, nil
	}
	f := media.ParseWebm(s.final)
	if f.Err != nil {
		return nil, fmt.Errorf("the finished file is malformed: %v (%d bytes)", f.Err, len(s.final))
	}
	if f.Truncated || !f.HeaderOK {
		return nil, fmt.Errorf("the finished file is truncated (%d bytes, %d blocks, header %v)", len(s.final), len(f.Blocks), f.HeaderOK)
	}
	if f.DocType != "webm" || f.Scale != 1000000 {
		return nil, fmt.Errorf("document type %q, timecode scale %d", f.DocType, f.Scale)
	}
	return f, nil
}

// match finds which sent frame each block is.
func match(blocks []media.Block, frames []media.Frame) ([]int, error) {
	byData := map[string]int{}
	for i := range frames {
		byData[string(frames[i].Data)] = i
	}
	last := -1
	var out []int
	for n, b := range blocks {
		i, ok := byData[string(b.Data)]
		if !ok {
			return nil, fmt.Errorf("block %d (%d ms, %d bytes, % x…) is not a frame that was sent%s", n, b.T, len(b.Data), head(b.Data), guess(b.Data, frames))
		}
		if i == last {
			return nil, fmt.Errorf("frame %d was recorded twice", i)
		}
		if i < last {
			return nil, fmt.Errorf("frame %d was recorded after frame %d", i, last)
		}
		last = i
		out = append(out, i)
	}
	return out, nil
}

func head(b []byte) []byte { return b[:min(len(b), 12)] }

func guess(b []byte, frames []media.Frame) string {
	if len(b) < 3 {
		return ""
	}
	i := int(binary.LittleEndian.Uint16(b[1:]))
	if i < len(frames) && bytes.HasPrefix(frames[i].Data, b[:3]) {
		return fmt.Sprintf(" (it begins like frame %d of %d bytes)", i, len(frames[i].Data))
	}
	return ""
}

// What has to become of a frame.
const (
	must    = media.Must
	mustNot = media.MustNot
	may     = media.May
)

var classNames = media.ClassNames

func classify(frames []media.Frame, pkts []media.Pkt, ids bool) []int {
	out, _ := media.Classify(frames, pkts, ids)
	return out
}

func classifyState(frames []media.Frame, pkts []media.Pkt, ids bool) ([]int, []bool) {
	return media.Classify(frames, pkts, ids)
}
