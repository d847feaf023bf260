package hrec

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// faultCase is two recordings side by side, the storage of the first fails.
type faultCase struct {
	A, B  media.VStream
	Audio bool   `json:",omitempty"`
	Alt   bool   `json:",omitempty"`
	IVF   bool   `json:",omitempty"`
	Fault string // removed, readonly, replaced, nofiles, limit, deleted
	At    int    // step of the first recording before which it happens
	Limit int    // bytes a file may have
	Skip  bool   `json:",omitempty"` // packets reported lost all along
}

func genFault(t *rapid.T) faultCase {
	c := faultCase{Alt: rapid.IntRange(0, 2).Draw(t, "alt") == 0, IVF: rapid.IntRange(0, 2).Draw(t, "ivf") == 0, Audio: rapid.IntRange(0, 2).Draw(t, "audio") == 0}
	c.Fault = rapid.SampledFrom([]string{"limit", "limit", "removed", "readonly", "replaced", "nofiles", "deleted"}).Draw(t, "fault")
	c.A = media.GenV(t, media.VOpts{MinFrames: 3, MaxFrames: 40, MaxPkts: 3, MaxSize: 900, KeyEvery: 5, Loss: rapid.Bool().Draw(t, "loss")})
	c.B = media.GenV(t, media.VOpts{MinFrames: 3, MaxFrames: 25, MaxPkts: 2, MaxSize: 30, KeyFirst: true, KeyEvery: 5})
	c.At = rapid.IntRange(0, 60).Draw(t, "at")
	if c.Fault != "limit" && c.Fault != "deleted" {
		c.At = rapid.IntRange(0, 2).Draw(t, "early")
	}
	c.Limit = rapid.OneOf(rapid.IntRange(0, 600), rapid.IntRange(0, 9000)).Draw(t, "limit")
	return c
}

func (c faultCase) run(r *core.Rec) error {
	root := scratch()
	dirA, dirB := filepath.Join(root, "a"), filepath.Join(root, "b")
	defer func() {
		os.Chmod(dirA, 0o700)
		os.RemoveAll(root)
	}()
	for _, d := range []string{dirA, dirB} {
		if err := os.Mkdir(d, 0o700); err != nil {
			return core.HarnessError{Why: err.Error()}
		}
	}
	fa, pa := c.A.Compile()
	fb, pb := c.B.Compile()
	var lim syscall.Rlimit
	var nofile syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) != nil || syscall.Getrlimit(syscall.RLIMIT_NOFILE, &nofile) != nil {
		return core.Inconcl("no limits")
	}
	restore := func() {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &nofile)
	}
	defer restore()
	signal.Ignore(syscall.SIGXFSZ)
	var pathA, pathB string
	var closed bool
	failedAt := -1
	var err error
	leaked, err := r.Bubble(func() error {
		mk := func(dir string) (recorder.Recorder, error) {
			cfg := defaults(dir)
			cfg.UseCustomSampler = !c.Alt
			cfg.WriteIVFCopy = c.IVF
			rec, err := recorder.NewRecorder(context.Background(), cfg, "r.webm")
			if err == nil {
				rec.SetHasVideo(true)
				rec.SetHasAudio(c.Audio)
				rec.SetKeyframeRequester(requester{func() {}})
			}
			return rec, err
		}
		a, err := mk(dirA)
		if err != nil {
			return err
		}
		b, err := mk(dirB)
		if err != nil {
			return err
		}
		pathA, pathB = a.GetFilePath(), b.GetFilePath()
		aseq := uint16(0)
		for i := 0; i < len(pa) || i < len(pb); i++ {
			if i == c.At {
				failedAt = i
				switch c.Fault {
				case "limit":
					l := lim
					l.Cur = uint64(c.Limit)
					if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
						return core.HarnessError{Why: err.Error()}
					}
				case "removed", "deleted":
					os.RemoveAll(dirA)
				case "readonly":
					os.Chmod(dirA, 0o500)
				case "replaced":
					os.RemoveAll(dirA)
					os.WriteFile(dirA, []byte("x"), 0o600)
				}
			}
			if i < len(pa) && !pa[i].Lost {
				nofiles := c.Fault == "nofiles" && failedAt >= 0
				if nofiles {
					l := nofile
					l.Cur = 0
					syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l)
				}
				a.PushVideo(media.Clone(pa[i].P))
				if nofiles {
					syscall.Setrlimit(syscall.RLIMIT_NOFILE, &nofile)
				}
				if c.Audio {
					p := media.AStream{Seq: aseq, Ts: uint32(aseq) * 960, F: []media.AFrame{{N: 30}}}
					_, ap := p.Compile()
					a.PushAudio(media.Clone(ap[0].P))
					b.PushAudio(media.Clone(ap[0].P))
					aseq++
				}
			} else if i < len(pa) {
				a.NotifySkippedPacket(pa[i].P.SequenceNumber)
			}
			if i < len(pb) {
				b.PushVideo(media.Clone(pb[i].P))
			}
			time.Sleep(5 * time.Millisecond)
		}
		a.VideoTimestamp()
		a.Close()
		a.Close()
		synctest.Wait()
		restore()
		b.Close()
		synctest.Wait()
		closed = true
		return nil
	})
	restore()
	if err != nil {
		return err
	}
	if leaked || !closed {
		return fmt.Errorf("a recorder hangs when the storage of a recording fails (%s)", c.Fault)
	}
	// the other recording is complete, up to the size limit
	if c.Fault != "limit" || c.Limit > 6000 {
		data, err := os.ReadFile(pathB)
		if err != nil {
			return fmt.Errorf("the other recording is missing: %v", err)
		}
		f := media.ParseWebm(data)
		if f.Err != nil || f.Truncated {
			return fmt.Errorf("the other recording is malformed: %v", f.Err)
		}
		blocks := f.Of(1)
		n := len(fb)
		if c.Alt {
			n--
		}
		if len(blocks) < n {
			return fmt.Errorf("the other recording has %d of %d frames", len(blocks), len(fb))
		}
		for i, b := range blocks {
			if !bytes.Equal(b.Data, fb[i].Data) {
				return fmt.Errorf("frame %d of the other recording is damaged", i)
			}
		}
		r.Label("other recording judged")
	}
	data, err := os.ReadFile(pathA)
	if err == nil && len(data) > 0 {
		f := media.ParseWebm(data)
		if f.Err != nil {
			return fmt.Errorf("what is left of the failed recording is malformed: %v", f.Err)
		}
		if _, err := match(f.Of(1), fa); err != nil {
			return fmt.Errorf("failed recording: %v", err)
		}
		r.LabelIf(c.Fault == "limit" && failedAt >= 0 && len(data) >= c.Limit, "failed while writing")
	}
	r.LabelIf(failedAt >= 0, c.Fault)
	r.LabelIf(err != nil, "no file")
	r.NonTrivialIf(failedAt >= 0)
	return nil
}

func TestC20(t *testing.T) {
	core.Prop("C20",
		core.F(core.Facet[faultCase]{Name: "faults", Quick: 3000, Thorough: 60000, Gen: genFault, Run: func(c faultCase, r *core.Rec) error { return c.run(r) }}),
	).Run(t)
}
