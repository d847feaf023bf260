package hrec

import (
	"context"
	"fmt"
	"os"
	"testing/synctest"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// lateTrack records video only, then the peer adds an audio track.
func lateTrack(c lateCase, r *core.Rec) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	s := media.VStream{Pic: 15}
	for i := 0; i < c.Frames; i++ {
		s.F = append(s.F, media.VFrame{K: i%3 == 0, W: 64, H: 64, N: 20, D: 3000})
	}
	frames, pkts := s.Compile()
	var rerr error
	_, err := r.Bubble(func() error {
		rec, err := recorder.NewRecorder(context.Background(), defaults(dir), "a.webm")
		if err != nil {
			return err
		}
		rec.SetHasVideo(true)
		for i, p := range pkts {
			if i == c.Before {
				rec.SetHasAudio(true)
			}
			rec.PushVideo(media.Clone(p.P))
		}
		rec.Close()
		synctest.Wait()
		b, _ := os.ReadFile(rec.GetFilePath())
		f := media.ParseWebm(b)
		if f.Err != nil {
			rerr = f.Err
		} else if got := len(f.Of(1)); got != len(frames) {
			rerr = fmt.Errorf("an audio track that came after %d of %d frames left %d frames in the file", c.Before, len(frames), got)
		}
		return nil
	})
	if err != nil {
		return err
	}
	return rerr
}
