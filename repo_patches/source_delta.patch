From 17a4da3946d0f1575def368e2c8e4824cbe4c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 01/42] fix: receive log: ignore sequence numbers older than
 the log instead of marking a newer one as received

---
 internal/webrtc/utils/receive_log.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index bef0e7a..34d1b7b 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -65,6 +65,11 @@ func (s *ReceiveLog) Add(seq uint16) {
 		}
 	} else {
 		// negative diff, seq < end (with counting for rollovers)
+		if s.end-seq >= s.size {
+			// older than the log: its slot belongs to a newer packet by now
+			return
+		}
+
 		if s.lastConsecutive+1 == seq {
 			s.lastConsecutive = seq
 			s.fixLastConsecutive() // there might be other valid packets after seq
@@ -107,6 +112,11 @@ func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
 func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
 	// Forcefully mark this packet as received - used in scenarios where we
 	// we give up on NACKing a packet
+	if s.end-seq >= s.size {
+		// outside the log: its slot belongs to another packet
+		return
+	}
+
 	s.set(seq)
 
 	// If this seqnum was blocking, ffw it
-- 
2.43.0


From e2de23e4e1db1c45215cdb52b412eabdc6c6372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 02/42] fix: send buffer: a late packet must not move the
 window back or evict a newer packet

---
 internal/webrtc/utils/send_buffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/utils/send_buffer.go b/internal/webrtc/utils/send_buffer.go
index 54e606a..e998e93 100644
--- a/internal/webrtc/utils/send_buffer.go
+++ b/internal/webrtc/utils/send_buffer.go
@@ -58,10 +58,13 @@ func (s *SendBuffer) Add(packet *rtp.Packet) {
 		for i := s.lastAdded + 1; i != seq; i++ {
 			s.packets[i%s.size] = nil
 		}
+		s.lastAdded = seq
+	} else if s.lastAdded-seq >= s.size {
+		// older than the buffer: its slot belongs to a newer packet by now
+		return
 	}
 
 	s.packets[seq%s.size] = packet
-	s.lastAdded = seq
 }
 
 func (s *SendBuffer) Get(seq uint16) *rtp.Packet {
-- 
2.43.0


From eb52a2afdcad76d9504fd59acff109f158112ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 03/42] fix: jitter buffer: sequence number 0 is a valid first
 or skipped packet

---
 internal/webrtc/utils/jitter_buffer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 93d670f..0e43535 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -15,6 +15,8 @@ type JitterBuffer struct {
 	missingPacketTimers  map[int64]time.Time
 	packetTimeout        time.Duration
 	lastSkippedSeq       int64
+	hasSkipped           bool
+	started              bool
 	ctx                  context.Context
 }
 
@@ -49,7 +51,8 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 		return false
 	}
 
-	if s.nextStart == 0 {
+	if !s.started {
+		s.started = true
 		log.WithField("session", s.ctx.Value("session")).
 			Tracef("First packet in jitter buffer: seq=%d", seq)
 		s.nextStart = seq
@@ -113,6 +116,7 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 			Debugf("Skipping missing packet after timeout: seq=%d", s.nextStart)
 		delete(s.missingPacketTimers, s.nextStart)
 		s.lastSkippedSeq = s.nextStart
+		s.hasSkipped = true
 		s.nextStart++
 		skippedPacket = true
 
@@ -155,6 +159,7 @@ func (s *JitterBuffer) SkipPacket(seq int64) {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Skipping missing packet in jitter buffer: seq=%d", seq)
 				s.lastSkippedSeq = seq
+				s.hasSkipped = true
 				s.SetNextPacketsStart(seq + 1)
 	}
 }
@@ -177,12 +182,13 @@ func (s *JitterBuffer) GetNextStart() int64 {
 }
 
 func (s *JitterBuffer) GetAndClearLastSkipped() (int64, bool) {
-	if s.lastSkippedSeq == 0 {
+	if !s.hasSkipped {
 		return 0, false
 	}
 
 	skipped := s.lastSkippedSeq
 	s.lastSkippedSeq = 0
+	s.hasSkipped = false
 
 	return skipped, true
 }
-- 
2.43.0


From 493c88bea80261a8c7da2eb78d629cd2abae94b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 04/42] fix: do not panic on VP8 payloads with a truncated or
 empty descriptor

---
 internal/webrtc/recorder/webm.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dbffd08..19e96ac 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -2,6 +2,7 @@ package recorder
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"os"
 	"sync"
@@ -115,7 +116,7 @@ func NewWebmRecorder(
 		useCustomSampler:      useCustomSampler,
 		writeIVFCopy:          writeIVFCopy,
 		audioBuilder:          samplebuilder.New(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
-		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &codecs.VP8Packet{}, vp8SampleRate),
+		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate),
 		lastKeyFrameTime:      time.Now(),
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
@@ -446,12 +447,36 @@ func validateVP8Frame(frame []byte, frameInfo *VP8FrameInfo) (bool, string) {
 	return true, ""
 }
 
+// vp8Depacketizer refuses the payloads codecs.VP8Packet cannot cope with: it
+// reads past the end of a truncated 16-bit PictureID and accepts descriptors
+// that are not followed by any VP8 data.
+type vp8Depacketizer struct {
+	codecs.VP8Packet
+}
+
+func (d *vp8Depacketizer) Unmarshal(payload []byte) ([]byte, error) {
+	if len(payload) == 3 && payload[0]&0x80 != 0 && payload[1]&0x80 != 0 && payload[2]&0x80 != 0 {
+		return nil, errors.New("truncated VP8 payload descriptor")
+	}
+
+	data, err := d.VP8Packet.Unmarshal(payload)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(data) == 0 {
+		return nil, errors.New("no VP8 data after the payload descriptor")
+	}
+
+	return data, nil
+}
+
 func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	if len(packet.Payload) == 0 {
 		return false
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet := vp8Depacketizer{}
 
 	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
 		return false
@@ -527,7 +552,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet := vp8Depacketizer{}
 
 	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
 		log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 0937775d49d675a813824705e72333d40c48fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 05/42] fix: builtin sampler: take keyframe flag and dimensions
 from the assembled frame

---
 internal/webrtc/recorder/webm.go | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 19e96ac..2cc913a 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -70,7 +70,6 @@ type WebmRecorder struct {
 	seenKeyFrame bool
 	// Has a valid keyframe to keep recording
 	hasKeyFrame             bool
-	currKeyFrame            *rtp.Packet
 	lastKeyFrameTime        time.Time
 	keyframeRequester       KeyframeRequester
 	lastKeyframeRequestTime time.Time
@@ -296,7 +295,6 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 	isKeyFrame := IsVP8KeyFrame(packet)
 
 	if isKeyFrame {
-		r.currKeyFrame = packet
 		r.lastKeyFrameTime = time.Now()
 	}
 
@@ -313,16 +311,12 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			return
 		}
 
-		isKf := false
-
-		if r.currKeyFrame != nil {
-			isKf = ts == r.currKeyFrame.Timestamp
-		}
+		isKf := len(sample.Data) >= 10 && sample.Data[0]&0x1 == 0
 
 		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
 			(r.audioWriter == nil && r.hasAudio) ||
 			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
-			width, height := GetVP8KFDimension(packet)
+			width, height := GetVP8KFDimension(sample.Data)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			r.initWriter(width, height)
@@ -485,22 +479,14 @@ func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	return vp8Packet.S != 0 && (vp8Packet.Payload[0]&0x1 == 0) && vp8Packet.PID == 0
 }
 
-func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
-	if len(packet.Payload) == 0 {
-		return 0, 0
-	}
-
-	vp8Packet := codecs.VP8Packet{}
-
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
-		return 0, 0
-	}
-
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 {
+// GetVP8KFDimension returns the dimensions in the header of a VP8 keyframe
+// (RFC 6386#9.1), or zeros if the frame is not one.
+func GetVP8KFDimension(frame []byte) (int, int) {
+	if len(frame) < 10 || frame[0]&0x1 != 0 {
 		return 0, 0
 	}
 
-	raw := uint(vp8Packet.Payload[6]) | uint(vp8Packet.Payload[7])<<8 | uint(vp8Packet.Payload[8])<<16 | uint(vp8Packet.Payload[9])<<24
+	raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
 	width := int(raw & 0x3FFF)
 	height := int((raw >> 16) & 0x3FFF)
 
-- 
2.43.0


From 8fda9441871a8d96bf7660ca7b849bad27256b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 06/42] fix: discard a VP8 frame whenever one of its packets is
 missing, signaled or not

---
 internal/webrtc/recorder/webm.go | 42 +++++++++++++++++---------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 2cc913a..b6cf66c 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -83,8 +83,8 @@ type WebmRecorder struct {
 
 	// Last PictureID received in any VP8 packet, not necessarily written
 	lastPictureID    uint16
-	lastSkippedSeq   uint16
 	skipSignaled     bool
+	seqStarted       bool
 	lastProcessedSeq uint16
 	expectedNextSeq  uint16
 
@@ -194,7 +194,6 @@ func (r *WebmRecorder) NotifySkippedPacket(seq uint16) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	r.lastSkippedSeq = seq
 	r.skipSignaled = true
 
 	// Frame in progress and skipped packet might belong to it, discard current
@@ -501,43 +500,46 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	if len(p.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
-	if r.expectedNextSeq > 0 && p.SequenceNumber != r.expectedNextSeq {
+	if r.seqStarted && p.SequenceNumber != r.expectedNextSeq {
 		if !r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Sequence discontinuity detected: expected=%d, got=%d",
 					r.expectedNextSeq, p.SequenceNumber)
 		}
 
-		if r.skipSignaled && r.lastSkippedSeq+1 == p.SequenceNumber {
-			log.WithField("session", r.ctx.Value("session")).
-				Debugf("Processing first packet after skip: seq=%d, last_skipped=%d",
-					p.SequenceNumber, r.lastSkippedSeq)
+		// Frame in progress lost at least one of its packets, signaled or not
+		if r.currentFrame != nil {
+			var logMsgPkts = 0
 
-			// Force treating this as a new frame start for safety
-			if r.currentFrame != nil {
-				var logMsgPkts = 0
-
-				if r.currentFrameInfo != nil {
-					logMsgPkts = len(r.currentFrameInfo.packets)
-				}
-
-				log.WithField("session", r.ctx.Value("session")).
-					Warnf("Discarding partial frame after skip boundary: pkts=%v", logMsgPkts)
-				r.currentFrame = nil
-				r.currentFrameInfo = nil
+			if r.currentFrameInfo != nil {
+				logMsgPkts = len(r.currentFrameInfo.packets)
 			}
+
+			log.WithField("session", r.ctx.Value("session")).
+				Warnf("Discarding partial frame due to missing packets: pkts=%v, expected=%d, got=%d",
+					logMsgPkts, r.expectedNextSeq, p.SequenceNumber)
+			r.currentFrame = nil
+			r.currentFrameInfo = nil
+			r.hasKeyFrame = false
+			r.RequestKeyframe()
 		}
 
 		r.skipSignaled = false
 	}
 
+	r.seqStarted = true
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
+	// Padding: uses up a sequence number, carries no media
+	if len(p.Payload) == 0 {
+		return
+	}
+
 	vp8Packet := vp8Depacketizer{}
 
 	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
-- 
2.43.0


From 27ec1210b8f5dfb20f7363c439b3d9805ed58668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 07/42] fix: treat a further VP8 partition as a continuation of
 its frame, and drop a frame with an unreadable packet

---
 internal/webrtc/recorder/webm.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index b6cf66c..7862efa 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -545,13 +545,16 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", p.SequenceNumber, err)
+		r.currentFrame = nil
+		r.currentFrameInfo = nil
 		r.hasKeyFrame = false
 		r.RequestKeyframe()
 		return
 	}
 
 	// Lifted from LK
-	isKeyFrame := vp8Packet.S != 0 && (vp8Packet.Payload[0]&0x1 == 0) && vp8Packet.PID == 0
+	isFrameStart := vp8Packet.S == 1 && vp8Packet.PID == 0
+	isKeyFrame := isFrameStart && (vp8Packet.Payload[0]&0x1 == 0)
 	pictureID := vp8Packet.PictureID
 
 	log.WithField("session", r.ctx.Value("session")).
@@ -559,21 +562,15 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			p.SequenceNumber, p.Timestamp, p.Marker, vp8Packet.S == 1,
 			pictureID, isKeyFrame, len(vp8Packet.Payload), vp8Packet.PID)
 
-	// I don't fully get this: when testing with some extreme network scenarios,
-	// I got packets with S=1 and PID > 0. I have not had the time to investigate
-	// further, so try and make it work but log it - prlanzarin
+	// S=1 and PID > 0: start of a further partition of the same frame (RFC 7741),
+	// i.e. a continuation as far as the assembly is concerned
 	if vp8Packet.S == 1 && vp8Packet.PID > 0 {
 		log.WithField("session", r.ctx.Value("session")).
-			Warnf("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
-		if r.currentFrameInfo != nil {
-			r.currentFrameInfo.packets = append(r.currentFrameInfo.packets, p.SequenceNumber)
-			r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)
-			return
-		}
+			Tracef("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
 	}
 
 	// NEW FRAME!
-	if vp8Packet.S == 1 {
+	if isFrameStart {
 		// OLD FRAME, but not complete. Discard it.
 		if r.currentFrame != nil && len(r.currentFrame) > 0 {
 			var logMsgPkts = "none"
@@ -635,7 +632,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					r.currentFrameInfo = nil
 				}
 
-				if isKeyFrame && vp8Packet.S == 1 {
+				if isKeyFrame {
 					// This is a new keyframe after discontinuity - ACCEPT IT
 					log.WithField("session", r.ctx.Value("session")).
 						Debugf("Accepting keyframe despite PictureID discontinuity: new picID=%d, seq=%d",
@@ -708,7 +705,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
 		return
-	case r.currentFrame == nil && vp8Packet.S != 1:
+	case r.currentFrame == nil && !isFrameStart:
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Dropping continuation packet without start bit: seq=%d", p.SequenceNumber)
 		r.currentFrameInfo = nil
-- 
2.43.0


From 0ebd106895bd0dd1545ee055bbe3d4ec26056dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 08/42] fix: detect VP8 picture id gaps after id 0 and with
 7-bit ids, and do not invent any without ids

---
 internal/webrtc/recorder/webm.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 7862efa..a899f5b 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -83,6 +83,7 @@ type WebmRecorder struct {
 
 	// Last PictureID received in any VP8 packet, not necessarily written
 	lastPictureID    uint16
+	hasLastPictureID bool
 	skipSignaled     bool
 	seqStarted       bool
 	lastProcessedSeq uint16
@@ -608,11 +609,16 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		// Check for PictureID discontinuity
-		if r.lastPictureID > 0 {
-			// Picture ID should ++ and wrap around at 15 bits
-			expectedID := (r.lastPictureID + 1) & 0x7FFF
-			pidDiff := (pictureID - r.lastPictureID) & 0x7FFF
-			if pidDiff > 1 && pidDiff < 0x7000 {
+		if r.hasLastPictureID && vp8Packet.I == 1 {
+			// Picture ID should ++ and wrap around at 15 bits (or 7, if the
+			// sender uses the short form)
+			idMask := uint16(0x7FFF)
+			if p.Payload[2]&0x80 == 0 {
+				idMask = 0x7F
+			}
+			expectedID := (r.lastPictureID + 1) & idMask
+			pidDiff := (pictureID - r.lastPictureID) & idMask
+			if pidDiff > 1 && pidDiff < idMask-idMask>>3 {
 				log.WithField("session", r.ctx.Value("session")).
 					Debugf("VP8 Picture ID gap detected: expected=%d, got=%d (missing %d frames), seq=%d",
 						expectedID, pictureID, pidDiff-1, p.SequenceNumber)
@@ -768,6 +774,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			r.currentFrameInfo.endSequence = p.SequenceNumber
 			r.currentFrameInfo.size = len(r.currentFrame)
 			r.lastPictureID = r.currentFrameInfo.pictureID
+			r.hasLastPictureID = vp8Packet.I == 1
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame complete: seq=[%d-%d], ts=%d, packets=%d, size=%d, elapsed=%v, keyframe=%v",
@@ -807,7 +814,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 
 	if r.currentFrameInfo != nil {
 		// PictureID continuity
-		if r.lastPictureID > 0 &&
+		if r.hasLastPictureID &&
 			pictureID != ((r.lastPictureID+1)&0x7FFF) &&
 			r.currentFrameInfo.pictureID != pictureID {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 1e3297f31ea25c9e9f407dd8116998f27896419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 09/42] fix: flag keyframes of several packets as keyframes

---
 internal/webrtc/recorder/webm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index a899f5b..d59c445 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -823,6 +823,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 	}
 
+	// The last packet of the frame does not tell, its first byte does
+	isKeyFrame = r.currentFrame[0]&0x1 == 0
+
 	r.lastFrameSize = len(r.currentFrame)
 	r.corruptedFrameCount = 0 // Reset corruption counter on valid frame
 
-- 
2.43.0


From 633febc6c15612b4c9d5c7366f01f458a51f1046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 10/42] fix: keep requesting a keyframe while one is needed

---
 internal/webrtc/recorder/webm.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index d59c445..43325f9 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -647,11 +647,6 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					// Continue processing this keyframe
 					r.hasKeyFrame = true
 					r.lastKeyFrameTime = time.Now()
-
-					// Still update request state to avoid unnecessary PLIs
-					if r.lastKeyframeRequestTime.IsZero() {
-						r.lastKeyframeRequestTime = time.Now()
-					}
 				} else {
 					// For non-keyframes with discontinuity, reject and request keyframe
 					r.hasKeyFrame = false
@@ -704,9 +699,8 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	case !r.hasKeyFrame && !isKeyFrame:
 		log.WithField("session", r.ctx.Value("session")).
 			Tracef("Waiting for keyframe, dropping non-keyframe: seq=%d", p.SequenceNumber)
-		if !r.seenKeyFrame {
-			r.RequestKeyframe()
-		}
+		// Throttled, so keep asking for as long as one is missing
+		r.RequestKeyframe()
 
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
-- 
2.43.0


From a526fb7f28838fb8fad7b72fe5ac3d0bcfd02d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 11/42] fix: open the file on a keyframe only, start its clocks
 there, never reopen without a new track

---
 internal/webrtc/recorder/webm.go | 83 +++++++++++++++++---------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 43325f9..5025580 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -54,10 +54,8 @@ type WebmRecorder struct {
 	useCustomSampler      bool
 	writeIVFCopy          bool
 
-	hasAudio      bool
-	hasVideo      bool
-	hasValidAudio bool
-	hasValidVideo bool
+	hasAudio bool
+	hasVideo bool
 
 	audioWriter, videoWriter       webm.BlockWriteCloser
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
@@ -121,12 +119,10 @@ func NewWebmRecorder(
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
 		// maxFrameSize = 5MB (basically disabled for now)
-		maxFrameSize:  10 * 1024 * 1024,
-		skipSignaled:  false,
-		hasAudio:      false,
-		hasVideo:      false,
-		hasValidAudio: false,
-		hasValidVideo: false,
+		maxFrameSize: 10 * 1024 * 1024,
+		skipSignaled: false,
+		hasAudio:     false,
+		hasVideo:     false,
 	}
 
 	return r
@@ -233,22 +229,29 @@ func isSequenceInRange(seq, start, end uint16) bool {
 }
 
 // Locked
-func (r *WebmRecorder) close() time.Duration {
-	if r.closed {
-		return r.videoTimestamp
-	}
-	r.closed = true
-
+func (r *WebmRecorder) closeWriters() {
 	if r.audioWriter != nil {
 		if err := r.audioWriter.Close(); err != nil {
 			panic(err)
 		}
+		r.audioWriter = nil
 	}
 	if r.videoWriter != nil {
 		if err := r.videoWriter.Close(); err != nil {
 			panic(err)
 		}
+		r.videoWriter = nil
+	}
+}
+
+// Locked
+func (r *WebmRecorder) close() time.Duration {
+	if r.closed {
+		return r.videoTimestamp
 	}
+	r.closed = true
+
+	r.closeWriters()
 	if r.started {
 		log.WithField("session", r.ctx.Value("session")).
 			Infof("webm writer closed: %s", r.file)
@@ -313,19 +316,22 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 
 		isKf := len(sample.Data) >= 10 && sample.Data[0]&0x1 == 0
 
-		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
-			(r.audioWriter == nil && r.hasAudio) ||
-			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
+		duration := sample.Duration
+
+		if isKf && ((r.videoWriter == nil && r.hasVideo) || (r.audioWriter == nil && r.hasAudio)) {
 			width, height := GetVP8KFDimension(sample.Data)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			r.initWriter(width, height)
+			r.videoTimestamp = 0
+			r.audioTimestamp = 0
+			duration = 0
 		}
 
 		if r.videoWriter != nil {
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Writing VP8 frame: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-			r.videoTimestamp += sample.Duration
+			r.videoTimestamp += duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
 				panic(err)
@@ -375,7 +381,6 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Audio frame written: ts=%d, size=%d", int64(r.audioTimestamp/time.Millisecond), len(sample.Data))
-			r.hasValidAudio = true
 		}
 	}
 }
@@ -828,32 +833,30 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Assembled complete VP8 frame: keyframe=%v, size=%d",
 			isKeyFrame, frameSize)
 
-	duration := time.Duration((float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate))*secondToNanoseconds) * time.Nanosecond
-	newVideoTs := r.videoTimestamp + duration
-	newPts := int64(newVideoTs / time.Millisecond)
-
-	log.WithField("session", r.ctx.Value("session")).
-		Tracef("Frame duration: %v, pts=%v, new timestamp: %v, prevPacketTS: %v, newPacketTS: %v",
-			duration, newPts, r.videoTimestamp+duration, r.packetTimestamp, p.Timestamp)
-
 	// Initialize writer if either:
 	// 1. We don't have a video writer yet and we have video
 	// 2. We don't have an audio writer yet and we have audio
-	// 3. We have both tracks but haven't received valid samples from both yet
-	if (r.videoWriter == nil && r.hasVideo) ||
-		(r.audioWriter == nil && r.hasAudio) ||
-		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio)) {
-
-		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
-		width := int(raw & 0x3FFF)
-		height := int((raw >> 16) & 0x3FFF)
+	// A file can only start with a keyframe, and its clocks start with it
+	if isKeyFrame && ((r.videoWriter == nil && r.hasVideo) || (r.audioWriter == nil && r.hasAudio)) {
+		width, height := GetVP8KFDimension(r.currentFrame)
 
 		log.WithField("session", r.ctx.Value("session")).
 			Tracef("Frame dimensions: %dx%d", width, height)
 
 		r.initWriter(width, height)
+		r.videoTimestamp = 0
+		r.audioTimestamp = 0
+		r.packetTimestamp = p.Timestamp
 	}
 
+	duration := time.Duration((float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate))*secondToNanoseconds) * time.Nanosecond
+	newVideoTs := r.videoTimestamp + duration
+	newPts := int64(newVideoTs / time.Millisecond)
+
+	log.WithField("session", r.ctx.Value("session")).
+		Tracef("Frame duration: %v, pts=%v, new timestamp: %v, prevPacketTS: %v, newPacketTS: %v",
+			duration, newPts, r.videoTimestamp+duration, r.packetTimestamp, p.Timestamp)
+
 	if r.videoWriter != nil {
 		if r.pts > 0 && r.pts == newPts {
 			log.WithField("session", r.ctx.Value("session")).
@@ -902,7 +905,6 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			r.pushToIVFWriter(r.currentFrame, p)
 		}
 
-		r.hasValidVideo = true
 	}
 
 	r.currentFrame = nil
@@ -960,6 +962,11 @@ func (r *WebmRecorder) initWriter(width, height int) {
 		return
 	}
 
+	// A track was added after the file was opened, start over with both tracks
+	if r.started {
+		r.closeWriters()
+	}
+
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
 	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-- 
2.43.0


From 40e0353ef9eafe16d1f082be03d9f51ac0c68871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 12/42] fix: IVF copy: record with the builtin sampler, mirror
 the file only, configured mode, never overwrite

---
 internal/webrtc/recorder/ivfwriter.go | 24 +++++++++++++----
 internal/webrtc/recorder/webm.go      | 38 +++++++++++----------------
 2 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a1d1108..b820358 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -26,7 +26,7 @@ type RTPPacketWithMeta struct {
 }
 
 // VP8 only for now
-func NewIVFWriter(basePath string) (*IVFWriter, error) {
+func NewIVFWriter(basePath string, fileMode os.FileMode) (*IVFWriter, error) {
 	if basePath == "" {
 		return &IVFWriter{enabled: false}, nil
 	}
@@ -34,7 +34,7 @@ func NewIVFWriter(basePath string) (*IVFWriter, error) {
 	ext := filepath.Ext(basePath)
 	ivfPath := basePath[:len(basePath)-len(ext)] + ".ivf"
 
-	file, err := os.Create(ivfPath)
+	file, err := os.OpenFile(ivfPath, os.O_RDWR|os.O_CREATE|os.O_EXCL, fileMode)
 	if err != nil {
 		return nil, err
 	}
@@ -90,12 +90,26 @@ func (writer *IVFWriter) writeIVFHeader(width, height uint16) error {
 
 	_, err := writer.file.Write(header)
 
-	if err != nil {
+	return err
+}
+
+// Reset drops everything written so far
+func (writer *IVFWriter) Reset() error {
+	if !writer.enabled || writer.closed {
+		return nil
+	}
+
+	if err := writer.file.Truncate(0); err != nil {
 		return err
 	}
 
-	_, err = writer.file.Seek(0, io.SeekStart)
-	return err
+	if _, err := writer.file.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+
+	writer.frameCount = 0
+
+	return writer.writeIVFHeader(640, 480)
 }
 
 func (writer *IVFWriter) UpdateDimensions(width, height uint16) error {
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 5025580..73feb42 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -339,10 +339,10 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame written: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-		}
 
-		if r.writeIVFCopy {
-			r.pushToIVFWriter(sample.Data, packet)
+			if r.writeIVFCopy {
+				r.pushToIVFWriter(sample.Data, ts, isKf)
+			}
 		}
 	}
 }
@@ -902,9 +902,8 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(r.currentFrame, p)
+			r.pushToIVFWriter(r.currentFrame, p.Timestamp, isKeyFrame)
 		}
-
 	}
 
 	r.currentFrame = nil
@@ -912,8 +911,13 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 }
 
 func (r *WebmRecorder) startIVFWriter() error {
-	if r.ivfWriter == nil {
-		ivf, err := NewIVFWriter(r.file)
+	// The recording starts over and its copy with it
+	if r.ivfWriter != nil {
+		return r.ivfWriter.Reset()
+	}
+
+	if r.file != os.DevNull {
+		ivf, err := NewIVFWriter(r.file, r.fileMode)
 
 		if err != nil {
 			return fmt.Errorf("failed to create RTP ivf: %w", err)
@@ -928,25 +932,15 @@ func (r *WebmRecorder) startIVFWriter() error {
 	return nil
 }
 
-func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
-	if r.ivfWriter != nil && len(r.currentFrame) > 0 {
-		isKeyFrame := false
-
-		if r.currentFrameInfo != nil {
-			isKeyFrame = r.currentFrameInfo.isKeyFrame
-		} else {
-			isKeyFrame = IsVP8KeyFrame(p)
-		}
-
+func (r *WebmRecorder) pushToIVFWriter(frame []byte, timestamp uint32, isKeyFrame bool) {
+	if r.ivfWriter != nil && len(frame) > 0 {
 		if isKeyFrame && len(frame) >= 10 {
-			raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
-			width := uint16(raw & 0x3FFF)
-			height := uint16((raw >> 16) & 0x3FFF)
+			width, height := GetVP8KFDimension(frame)
 
-			r.ivfWriter.UpdateDimensions(width, height)
+			r.ivfWriter.UpdateDimensions(uint16(width), uint16(height))
 		}
 
-		err := r.ivfWriter.WriteFrame(frame, p.Timestamp, isKeyFrame)
+		err := r.ivfWriter.WriteFrame(frame, timestamp, isKeyFrame)
 
 		if err != nil {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From daa9ee5c50d4d07da1806168f2bfd2d000c25d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 13/42] fix: a storage failure ends the affected recording
 instead of crashing or stalling the process

---
 internal/webrtc/recorder/webm.go | 70 +++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 10 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 73feb42..bb1a704 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -63,6 +63,8 @@ type WebmRecorder struct {
 
 	started bool
 	closed  bool
+	// The file could not be opened, do not try again
+	openFailed bool
 
 	// Seen at least one keyframe
 	seenKeyFrame bool
@@ -96,6 +98,35 @@ type WebmRecorder struct {
 	ivfWriter           *IVFWriter
 }
 
+// fileWriter keeps a storage failure from taking down the muxer (which panics
+// or stalls): what cannot be written is dropped, from the first failure on.
+type fileWriter struct {
+	file   *os.File
+	failed bool
+}
+
+func (w *fileWriter) Write(p []byte) (int, error) {
+	if w.failed {
+		return len(p), nil
+	}
+
+	if _, err := w.file.Write(p); err != nil {
+		log.Errorf("Error writing %s, the recording ends here: %v", w.file.Name(), err)
+		w.failed = true
+	}
+
+	return len(p), nil
+}
+
+func (w *fileWriter) Close() error {
+	err := w.file.Close()
+	if err != nil {
+		log.Errorf("Error closing %s: %v", w.file.Name(), err)
+	}
+
+	return err
+}
+
 func NewWebmRecorder(
 	file string,
 	fileMode os.FileMode,
@@ -232,13 +263,15 @@ func isSequenceInRange(seq, start, end uint16) bool {
 func (r *WebmRecorder) closeWriters() {
 	if r.audioWriter != nil {
 		if err := r.audioWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing audio writer: %v", err)
 		}
 		r.audioWriter = nil
 	}
 	if r.videoWriter != nil {
 		if err := r.videoWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing video writer: %v", err)
 		}
 		r.videoWriter = nil
 	}
@@ -334,7 +367,8 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			r.videoTimestamp += duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing video frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -376,7 +410,8 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		if r.audioWriter != nil {
 			r.audioTimestamp += sample.Duration
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing audio frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -956,17 +991,26 @@ func (r *WebmRecorder) initWriter(width, height int) {
 		return
 	}
 
+	if r.openFailed {
+		return
+	}
+
 	// A track was added after the file was opened, start over with both tracks
 	if r.started {
 		r.closeWriters()
 	}
 
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
-	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
+	file, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot open %s, nothing will be recorded: %v", r.file, err)
+		r.openFailed = true
+		return
 	}
 
+	w := &fileWriter{file: file}
+
 	info := &webm.Info{
 		TimecodeScale: 1000000, // 1ms
 		MuxingApp:     internal.AppName,
@@ -1019,8 +1063,11 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot start writing to %s, nothing will be recorded: %v", r.file, err)
+		w.Close()
+		r.openFailed = true
+		return
 	}
 
 	writers, err := webm.NewSimpleBlockWriter(
@@ -1031,8 +1078,11 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Cannot start writing to %s, nothing will be recorded: %v", r.file, err)
+		w.Close()
+		r.openFailed = true
+		return
 	}
 
 	log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 725393667e740d7783d1d5f8c1241c90309a8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 14/42] fix: never truncate a recording created by someone else
 since the session started

---
 internal/webrtc/recorder/webm.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index bb1a704..6fc874d 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -1001,7 +1001,13 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	}
 
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
-	file, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
+	// Only what this recorder created itself is ever overwritten
+	flags := os.O_WRONLY | os.O_CREATE | os.O_EXCL
+	if r.started || r.file == os.DevNull {
+		flags = os.O_WRONLY | os.O_CREATE | os.O_TRUNC
+	}
+
+	file, err := os.OpenFile(r.file, flags, r.fileMode)
 	if err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Errorf("Cannot open %s, nothing will be recorded: %v", r.file, err)
-- 
2.43.0


From 4681f8ea64d8263548627186c68989e13d7adc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 15/42] fix: refuse file names that leave the recording
 directory

---
 internal/webrtc/recorder/recorder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 5f1f2b5..9f41718 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -7,6 +7,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -42,6 +43,11 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 
 	if !cfg.WriteToDevNull {
 		file = path.Clean(dir + string(os.PathSeparator) + file)
+
+		if rel, err := filepath.Rel(dir, file); err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
+			return "", 0, fmt.Errorf("file is outside of the recording directory %s", file)
+		}
+
 		fileDir := path.Dir(file)
 
 		if _, err := os.Stat(fileDir); err != nil {
-- 
2.43.0


From 78b33c5376f33ae1f0137dcddabfdd3fdfeb1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 16/42] fix: refuse a recording before creating directories for
 it

---
 internal/webrtc/recorder/recorder.go | 45 ++++++++++++++--------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 9f41718..58abb5a 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -41,6 +41,14 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		return "", 0, fmt.Errorf("directory does not exist %s", cfg.Directory)
 	}
 
+	var fileMode os.FileMode
+
+	if parsedFileMode, err := strconv.ParseUint(cfg.FileMode, 0, 32); err != nil {
+		return "", 0, fmt.Errorf("invalid file mode %s", cfg.FileMode)
+	} else {
+		fileMode = os.FileMode(parsedFileMode)
+	}
+
 	if !cfg.WriteToDevNull {
 		file = path.Clean(dir + string(os.PathSeparator) + file)
 
@@ -77,39 +85,30 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		file = os.DevNull
 	}
 
-	var fileMode os.FileMode
-
-	if parsedFileMode, err := strconv.ParseUint(cfg.FileMode, 0, 32); err != nil {
-		return "", 0, fmt.Errorf("invalid file mode %s", cfg.FileMode)
-	} else {
-		fileMode = os.FileMode(parsedFileMode)
-	}
-
 	return file, fileMode, nil
 }
 
 func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorder, error) {
 	ext := filepath.Ext(file)
+	if ext != ".webm" {
+		return nil, fmt.Errorf("unsupported file extension %s", ext)
+	}
+
 	file, fileMode, err := ValidateAndPrepareFile(ctx, cfg, file)
 
 	if err != nil {
 		return nil, err
 	}
 
-	var r Recorder
-	switch ext {
-	case ".webm":
-		r = NewWebmRecorder(
-			file,
-			fileMode,
-			cfg.VideoPacketQueueSize,
-			cfg.AudioPacketQueueSize,
-			cfg.UseCustomSampler,
-			cfg.WriteIVFCopy,
-		)
-		r.WithContext(ctx)
-	default:
-		return nil, fmt.Errorf("unsupported file extension %s", ext)
-	}
+	r := NewWebmRecorder(
+		file,
+		fileMode,
+		cfg.VideoPacketQueueSize,
+		cfg.AudioPacketQueueSize,
+		cfg.UseCustomSampler,
+		cfg.WriteIVFCopy,
+	)
+	r.WithContext(ctx)
+
 	return r, nil
 }
-- 
2.43.0


From fa59681a1a4bad410ba1576053d5fa686b5ac0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 17/42] fix: mediasoup adapter: keep the callbacks, offer and
 connection it is given

---
 internal/webrtc/webrtc.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3643769..750d290 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -51,19 +51,19 @@ func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
 	}
 }
 
-func (w WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
+func (w *WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
 	w.connStateCallbackFn = fn
 }
 
-func (w WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
+func (w *WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
 	w.flowCallback = fn
 }
 
-func (w WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
+func (w *WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
 	w.sdpOffer = offer
 }
 
-func (w WebRTC) validateInitParams() error {
+func (w *WebRTC) validateInitParams() error {
 	if w.connStateCallbackFn == nil {
 		return errors.New("connStateCallbackFn is not set")
 	}
@@ -79,7 +79,7 @@ func (w WebRTC) validateInitParams() error {
 	return nil
 }
 
-func (w WebRTC) Init(
+func (w *WebRTC) Init(
 	rec recorder.Recorder,
 ) (webrtc.SessionDescription, error) {
 	if err := w.validateInitParams(); err != nil {
@@ -480,13 +480,13 @@ func (w WebRTC) Init(
 	return *peerConnection.LocalDescription(), nil
 }
 
-func (w WebRTC) RequestKeyframe() {
+func (w *WebRTC) RequestKeyframe() {
 	for _, ssrc := range w.videoTrackSSRCs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
-func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -506,7 +506,11 @@ func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	w.pliStats[ssrc] = PLITracker{count: w.pliStats[ssrc].count + 1, timestamp: time.Now()}
 }
 
-func (w WebRTC) Close() error {
+func (w *WebRTC) Close() error {
+	if w.pc == nil {
+		return nil
+	}
+
 	return w.pc.Close()
 }
 
-- 
2.43.0


From 26364a4543e06338405e43d206ffd53ae05ce10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 18/42] fix: lock the state shared by a track's goroutines,
 skip given up packets by unwrapped number

---
 internal/webrtc/webrtc.go | 46 ++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 750d290..ed91c32 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -34,6 +35,7 @@ type WebRTC struct {
 
 	connStateCallbackFn func(state webrtc.ICEConnectionState)
 	flowCallback        func(isFlowing bool, videoTimestamp time.Duration, closed bool)
+	m                   sync.Mutex // guards videoTrackSSRCs and pliStats
 	videoTrackSSRCs     []uint32
 	pliStats            map[uint32]PLITracker
 	sdpOffer            webrtc.SessionDescription
@@ -172,8 +174,10 @@ func (w *WebRTC) Init(
 				track.SSRC(), track.RID())
 
 		if isVideo {
+			w.m.Lock()
 			w.videoTrackSSRCs = append(w.videoTrackSSRCs, uint32(track.SSRC()))
 			w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+			w.m.Unlock()
 
 			if kfr, ok := rec.(interface {
 				SetKeyframeRequester(recorder.KeyframeRequester)
@@ -205,6 +209,9 @@ func (w *WebRTC) Init(
 			panic(err)
 		}
 
+		// Guards rl and jb, both are shared with the NACK goroutine
+		var bufMutex sync.Mutex
+
 		jb := utils.NewJitterBuffer(
 			w.cfg.JitterBuffer,
 			w.cfg.JitterBufferPktTimeout,
@@ -229,7 +236,10 @@ func (w *WebRTC) Init(
 						ticker.Stop()
 						return
 					case <-ticker.C:
+						bufMutex.Lock()
 						missing := rl.MissingSeqNumbers(10)
+						bufMutex.Unlock()
+
 						if missing == nil || len(missing) == 0 {
 							continue
 						}
@@ -254,8 +264,13 @@ func (w *WebRTC) Init(
 								log.WithField("session", w.ctx.Value("session")).
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
+								bufMutex.Lock()
 								rl.IgnoreSeqNum(seq)
-								jb.SkipPacket(int64(seq))
+								// The jitter buffer works with unwrapped sequence numbers
+								next := jb.GetNextStart()
+								jb.SkipPacket(next + int64(int16(seq-uint16(next))))
+								bufMutex.Unlock()
+
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
@@ -385,6 +400,8 @@ func (w *WebRTC) Init(
 
 			seq = su.Unwrap(uint64(rtp.SequenceNumber))
 
+			bufMutex.Lock()
+
 			if !jb.Add(seq, rtp) {
 				log.WithField("session", w.ctx.Value("session")).
 					Warnf("Failed to add packet to jitter buffer: seq=%d, timestamp=%d",
@@ -398,6 +415,13 @@ func (w *WebRTC) Init(
 					track.ID(), rtp.SequenceNumber, seq, rtp.Timestamp, len(rtp.Payload))
 
 			packets, skipped := jb.NextPackets()
+			skippedSeq, hasSkipped := int64(0), false
+
+			if packets != nil && skipped {
+				skippedSeq, hasSkipped = jb.GetAndClearLastSkipped()
+			}
+
+			bufMutex.Unlock()
 
 			if packets == nil {
 				continue
@@ -408,14 +432,9 @@ func (w *WebRTC) Init(
 					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
 
 			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
-			if skipped {
-				skippedSeq, ok := jb.GetAndClearLastSkipped()
-				if ok {
-					if rec != nil {
-						rec.NotifySkippedPacket(uint16(skippedSeq))
-						log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
-					}
-				}
+			if hasSkipped {
+				rec.NotifySkippedPacket(uint16(skippedSeq))
+				log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
 			}
 
 			for _, p := range packets {
@@ -481,7 +500,11 @@ func (w *WebRTC) Init(
 }
 
 func (w *WebRTC) RequestKeyframe() {
-	for _, ssrc := range w.videoTrackSSRCs {
+	w.m.Lock()
+	ssrcs := append([]uint32(nil), w.videoTrackSSRCs...)
+	w.m.Unlock()
+
+	for _, ssrc := range ssrcs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
@@ -494,6 +517,9 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 			Error(err)
 	}
 
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if _, exists := w.pliStats[ssrc]; !exists {
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 	}
-- 
2.43.0


From dfffc3a364e8fd32c7ff6202950d9f53ded58fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 19/42] fix: ignore messages that cannot be decoded instead of
 crashing on them

---
 internal/pubsub/events/events.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index eff67b3..10a4795 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -44,10 +44,13 @@ type LiveKitConfig struct {
 }
 
 func (e *Event) IsValid() bool {
-	return e.Id != ""
+	return e != nil && e.Id != ""
 }
 
 func (e *Event) StartRecording() *StartRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecording); ok {
 		return ev
 	}
@@ -55,6 +58,9 @@ func (e *Event) StartRecording() *StartRecording {
 }
 
 func (e *Event) StartRecordingResponse() *StartRecordingResponse {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecordingResponse); ok {
 		return ev
 	}
@@ -62,6 +68,9 @@ func (e *Event) StartRecordingResponse() *StartRecordingResponse {
 }
 
 func (e *Event) StopRecording() *StopRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StopRecording); ok {
 		return ev
 	}
@@ -346,6 +355,9 @@ type GetRecorderStatus struct {
 }
 
 func (e *Event) GetRecorderStatus() *GetRecorderStatus {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*GetRecorderStatus); ok {
 		return ev
 	}
-- 
2.43.0


From c03bbb68573f47f7e9720690fcb9b2c41c52fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 20/42] fix: refuse messages nested deep enough to exhaust the
 decoder's stack

---
 internal/pubsub/events/decode.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/pubsub/events/decode.go b/internal/pubsub/events/decode.go
index d8afbd5..f1b0073 100644
--- a/internal/pubsub/events/decode.go
+++ b/internal/pubsub/events/decode.go
@@ -1,11 +1,22 @@
 package events
 
 import (
+	"bytes"
+
 	log "github.com/sirupsen/logrus"
 	"github.com/titanous/json5"
 )
 
+// The decoder recurses, a message nested millions of levels deep would exhaust
+// the stack (which is fatal). No message has a use for that many brackets.
+const maxBrackets = 100000
+
 func Decode(message []byte) *Event {
+	if n := bytes.Count(message, []byte("[")) + bytes.Count(message, []byte("{")); n > maxBrackets {
+		log.Errorf("message has too many brackets: %d", n)
+		return nil
+	}
+
 	e := &Event{}
 	m := make(map[string]interface{})
 	if err := json5.Unmarshal(message, &m); err != nil {
-- 
2.43.0


From 9ccb7736b3eadd05c968c34808be208ee0de5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 21/42] fix: accept a new-style SDP without an adapter, which
 means mediasoup

---
 internal/pubsub/events/events.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index 10a4795..9ef2663 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -117,7 +117,7 @@ func (e *StartRecording) Validate() error {
 		if len(e.AdapterOptions.LiveKit.TrackIDs) == 0 {
 			return fmt.Errorf("livekit adapter requires at least one track ID")
 		}
-	case AdapterMediasoup:
+	case AdapterMediasoup, "":
 		// TODO remove legacy SDP field later on - prlanzarin
 		if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != "" {
 			return nil
-- 
2.43.0


From fa0210777d4d27bfccab4b0740aff0dc439cfe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 22/42] fix: end a session exactly once, whoever ends it, and
 leave nothing of it or of a failed start behind

---
 internal/server/server.go  | 27 +++++++----
 internal/server/session.go | 91 +++++++++++++++++++++++++-------------
 2 files changed, 79 insertions(+), 39 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index e5864fc..428fb6e 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
@@ -20,6 +19,7 @@ type Server struct {
 	cfg      *config.Config
 	pubsub   pubsub.PubSub
 	sessions sync.Map
+	m        sync.Mutex // makes the end of a session atomic for new ones
 }
 
 func NewServer(cfg *config.Config, ps pubsub.PubSub) *Server {
@@ -39,12 +39,16 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		e := event.StartRecording()
 
 		if e == nil {
-			s.PublishPubSub(e.Fail(fmt.Errorf("incorrect event")))
+			return
 		}
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
 
+		// A session that is about to end ends first, see Session#end
+		s.m.Lock()
 		_, ok := s.sessions.Load(e.SessionId)
+		s.m.Unlock()
+
 		if ok {
 			err := fmt.Errorf("session %s already exists", e.SessionId)
 			log.Error(err)
@@ -82,6 +86,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			if _, err := sess.StartRecording(e); err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
+				sess.abort()
 				s.PublishPubSub(e.Fail(err))
 				return
 			}
@@ -98,6 +103,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			}
 
 			var sdp string
+			var sess *Session
 			func() {
 				defer func() {
 					if r := recover(); r != nil {
@@ -106,17 +112,20 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				}()
 
 				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
-				sess := NewSession(e.SessionId, s, wrtc, nil, rec)
+				sess = NewSession(e.SessionId, s, wrtc, nil, rec)
 				s.sessions.Store(e.SessionId, sess)
 				sdp, err = sess.StartRecording(e)
-				s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
 			}()
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
+				sess.abort()
 				s.PublishPubSub(e.Fail(err))
+				return
 			}
 
+			s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
+
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
 			log.WithField("session", ctx.Value("session")).Error(err)
@@ -132,9 +141,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		if sess, ok := s.sessions.Load(e.SessionId); ok {
-			ts := sess.(*Session).StopRecording() / time.Millisecond
-			s.PublishPubSub(e.Stopped("stopped", ts))
-			s.CloseSession(e.SessionId)
+			sess.(*Session).end("stopped")
 		}
 
 	case "getRecorderStatus":
@@ -153,6 +160,8 @@ func (s *Server) OnStart() error {
 	return nil
 }
 
-func (s *Server) CloseSession(id string) {
-	s.sessions.Delete(id)
+// CloseSession forgets a session, but not one that was started with the same id
+// since.
+func (s *Server) CloseSession(sess *Session) {
+	s.sessions.CompareAndDelete(sess.id, sess)
 }
diff --git a/internal/server/session.go b/internal/server/session.go
index ce47407..8e6b8cf 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
@@ -18,6 +19,7 @@ type Session struct {
 	webrtc   *webrtc.WebRTC
 	livekit  *livekit.LiveKitWebRTC
 	recorder recorder.Recorder
+	m        sync.Mutex // guards stopped, and publishing until then
 	stopped  bool
 }
 
@@ -39,23 +41,10 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 		signal.Decode(e.GetSDP(), &offer)
 		s.webrtc.SetConnectionStateCallback(func(state pwebrtc.ICEConnectionState) {
 			if state > pwebrtc.ICEConnectionStateConnected {
-				if !s.stopped {
-					ts := s.StopRecording() / time.Millisecond
-					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts))
-					s.server.CloseSession(s.id)
-				}
+				s.end(state.String())
 			}
 		})
-		s.webrtc.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.webrtc.SetFlowCallback(s.onFlow)
 		s.webrtc.SetSDPOffer(offer)
 		answer, err := s.webrtc.Init(s.recorder)
 
@@ -68,16 +57,7 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 
 	// For LiveKit, we don't need to return an SDP answer
 	if s.livekit != nil {
-		s.livekit.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.livekit.SetFlowCallback(s.onFlow)
 
 		if err := s.livekit.Init(s.recorder); err != nil {
 			return "", err
@@ -87,11 +67,62 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	return "", nil
 }
 
-func (s *Session) StopRecording() time.Duration {
+func (s *Session) onFlow(isFlowing bool, timestamp time.Duration, closed bool) {
+	if closed {
+		s.end("closed")
+		return
+	}
+
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if !s.stopped {
-		s.stopped = true
-		prometheus.Sessions.Dec()
-		return s.recorder.Close()
+		s.server.PublishPubSub(events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond))
+	}
+}
+
+// end ends the session, once: the file is final and the id free by the time
+// this is published, and nothing else is from then on.
+func (s *Session) end(reason string) {
+	s.server.m.Lock()
+
+	if ts, ok := s.stop(); ok {
+		s.server.CloseSession(s)
+		s.server.PublishPubSub(events.NewRecordingStopped(s.id, reason, ts/time.Millisecond))
+	}
+
+	s.server.m.Unlock()
+	s.closeTransport()
+}
+
+// abort drops a session that could not be started.
+func (s *Session) abort() {
+	s.stop()
+	s.server.CloseSession(s)
+	s.closeTransport()
+}
+
+func (s *Session) stop() (time.Duration, bool) {
+	s.m.Lock()
+	stopped := s.stopped
+	s.stopped = true
+	s.m.Unlock()
+
+	if stopped {
+		return 0, false
+	}
+
+	prometheus.Sessions.Dec()
+
+	return s.recorder.Close(), true
+}
+
+func (s *Session) closeTransport() {
+	if s.webrtc != nil {
+		s.webrtc.Close()
+	}
+
+	if s.livekit != nil {
+		s.livekit.Close()
 	}
-	return 0
 }
-- 
2.43.0


From fd03771edd8adeb28b97b4ba09194462dfaf97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 23/42] fix: refuse a recording into a file that an active
 session is about to create

---
 internal/server/server.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 428fb6e..62a4f1b 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"os"
 	"sync"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -67,7 +68,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 		switch e.Adapter {
 		case "livekit":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = s.newRecorder(ctx, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -94,7 +95,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			s.PublishPubSub(e.Success("", rec.GetFilePath()))
 
 		case "mediasoup", "":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = s.newRecorder(ctx, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -149,6 +150,25 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 	}
 }
 
+// newRecorder makes sure that no two sessions record into the same file, which
+// does not exist before there is something to record.
+func (s *Server) newRecorder(ctx context.Context, fileName string) (recorder.Recorder, error) {
+	rec, err := recorder.NewRecorder(ctx, s.cfg.Recorder, fileName)
+	if err != nil || rec.GetFilePath() == os.DevNull {
+		return rec, err
+	}
+
+	s.sessions.Range(func(_, other interface{}) bool {
+		if other.(*Session).recorder.GetFilePath() == rec.GetFilePath() {
+			err = fmt.Errorf("file is in use by another session %s", rec.GetFilePath())
+		}
+
+		return err == nil
+	})
+
+	return rec, err
+}
+
 func (s *Server) PublishPubSub(msg interface{}) {
 	j, _ := json.Marshal(msg)
 	s.pubsub.Publish(s.cfg.PubSub.Channels.Publish, j)
-- 
2.43.0


From 94be70cacc1a3e3d9e2b675b64f75e3926f4add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 24/42] fix: HTTP bridge: survive foreign and failed responses,
 keep concurrent requests apart

---
 internal/server/http.go | 59 ++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 666d7f8..567be90 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -3,18 +3,21 @@ package server
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
 	"net/http"
 	"path"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -37,13 +40,19 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 }
 
 func (s *HTTPServer) Serve() {
-	answerChannels := make(map[string]*chan string)
+	var m sync.Mutex
+	answerChannels := make(map[string]chan *events.StartRecordingResponse)
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
 			if e := event.StartRecordingResponse(); e != nil {
-				if e.SDP != nil {
-					*answerChannels[e.SessionId] <- *e.SDP
+				m.Lock()
+				answerChan, ok := answerChannels[e.SessionId]
+				delete(answerChannels, e.SessionId)
+				m.Unlock()
+
+				if ok {
+					answerChan <- e
 				}
 			}
 		},
@@ -51,15 +60,17 @@ func (s *HTTPServer) Serve() {
 			return nil
 		},
 	)
-	go s.serve(func(sdp string) string {
-		t := time.Now()
-		sessId := t.Format("20060102150405")
-		answerChan := make(chan string)
-		answerChannels[sessId] = &answerChan
+	go s.serve(func(ctx context.Context, sdp string) (string, error) {
+		// Concurrent requests need distinct sessions and files
+		sessId := time.Now().Format("20060102150405") + "-" + uuid.NewString()
+		answerChan := make(chan *events.StartRecordingResponse, 1)
+		m.Lock()
+		answerChannels[sessId] = answerChan
+		m.Unlock()
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
-			FileName:  fmt.Sprintf("%s.webm", t.Format("20060102150405")),
+			FileName:  fmt.Sprintf("%s.webm", sessId),
 			Adapter:   "mediasoup",
 			AdapterOptions: &events.AdapterOptions{
 				Mediasoup: &events.MediasoupConfig{
@@ -69,13 +80,26 @@ func (s *HTTPServer) Serve() {
 		}
 		j, _ := json.Marshal(e)
 		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
-		answer := <-answerChan
-		delete(answerChannels, sessId)
-		return answer
+
+		select {
+		case answer := <-answerChan:
+			if answer.Error != nil {
+				return "", errors.New(*answer.Error)
+			}
+			if answer.SDP == nil {
+				return "", errors.New("no SDP in the answer")
+			}
+			return *answer.SDP, nil
+		case <-ctx.Done():
+			m.Lock()
+			delete(answerChannels, sessId)
+			m.Unlock()
+			return "", ctx.Err()
+		}
 	})
 }
 
-func (s *HTTPServer) serve(handler func(string) string) {
+func (s *HTTPServer) serve(handler func(context.Context, string) (string, error)) {
 
 	http.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
 		body, _ := io.ReadAll(r.Body)
@@ -84,8 +108,13 @@ func (s *HTTPServer) serve(handler func(string) string) {
 			fmt.Fprintf(w, "Post SDP offer in body")
 			return
 		}
-		response := handler(string(body))
-		fmt.Fprintf(w, response)
+		response, err := handler(r.Context(), string(body))
+		if err != nil {
+			w.WriteHeader(http.StatusBadGateway)
+			fmt.Fprint(w, err)
+			return
+		}
+		fmt.Fprint(w, response)
 	})
 
 	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
-- 
2.43.0


From 75f9ea998c26022cad0cf8a190745ed662e69334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 25/42] fix: livekit adapter: watch the flow and request
 keyframes for as long as a track lives, leave the room, notice being
 disconnected

---
 internal/webrtc/livekit/livekit.go | 159 ++++++++++++++++-------------
 1 file changed, 89 insertions(+), 70 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 33e6130..5fbdcd4 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -39,9 +39,9 @@ type PLITracker struct {
 }
 
 type TrackFlowState struct {
+	packets       uint64
 	lastSeqNum    uint16
 	lastTimestamp time.Duration
-	isFlowing     bool
 }
 
 type LiveKitWebRTC struct {
@@ -124,7 +124,9 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 		return fmt.Errorf("failed to connect to LiveKit room: %w", err)
 	}
 
+	w.m.Lock()
 	w.room = roomClient
+	w.m.Unlock()
 
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Connected to LiveKit room %s", w.roomId)
@@ -140,10 +142,13 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 
 func (w *LiveKitWebRTC) Close() error {
 	w.m.Lock()
-	defer w.m.Unlock()
+	room := w.room
+	w.room = nil
+	w.m.Unlock()
 
-	if w.room != nil {
-		w.room.Disconnect()
+	// Not locked, this calls onDisconnected
+	if room != nil {
+		room.Disconnect()
 	}
 
 	return nil
@@ -153,7 +158,15 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 	subscribedTracks = make([]lksdk.TrackPublication, 0)
 	remoteParticipants := make(map[string]*lksdk.RemoteParticipant)
 
-	for _, remoteParticipant := range w.room.GetRemoteParticipants() {
+	w.m.Lock()
+	room := w.room
+	w.m.Unlock()
+
+	if room == nil {
+		return nil, fmt.Errorf("room was left already")
+	}
+
+	for _, remoteParticipant := range room.GetRemoteParticipants() {
 		for _, trackPublication := range remoteParticipant.TrackPublications() {
 			if slices.Contains(w.trackIds, trackPublication.SID()) {
 				kind := TrackKind(trackPublication.Kind())
@@ -178,7 +191,10 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 		}
 	}
 
+	w.m.Lock()
 	w.remoteParticipants = remoteParticipants
+	w.m.Unlock()
+
 	return subscribedTracks, nil
 }
 
@@ -199,23 +215,25 @@ func (w *LiveKitWebRTC) subscribe(track lksdk.TrackPublication) error {
 
 func (w *LiveKitWebRTC) RequestKeyframe() {
 	w.m.Lock()
-	defer w.m.Unlock()
-
-	ssrcs := make([]string, 0, len(w.pliStats))
+	ssrcs := make([]uint32, 0, len(w.pliStats))
 
 	for ssrc := range w.pliStats {
-		ssrcs = append(ssrcs, fmt.Sprintf("%d", ssrc))
+		ssrcs = append(ssrcs, ssrc)
 	}
+	w.m.Unlock()
 
 	log.WithField("session", w.ctx.Value("session")).
-		Tracef("Requesting keyframe for SSRCs %s", strings.Join(ssrcs, ", "))
+		Tracef("Requesting keyframe for SSRCs %v", ssrcs)
 
-	for ssrc := range w.pliStats {
-		w.RequestKeyframeForSSRC(uint32(ssrc))
+	for _, ssrc := range ssrcs {
+		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
 func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if w.room == nil {
 		return
 	}
@@ -240,6 +258,7 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	}
 }
 
+// updateFlowState notes that a track's media got as far as this packet
 func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp time.Duration) {
 	w.m.Lock()
 	defer w.m.Unlock()
@@ -247,34 +266,64 @@ func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp
 	state, exists := w.flowState[trackID]
 
 	if !exists {
-		state = &TrackFlowState{
-			lastSeqNum:    seqNum,
-			lastTimestamp: timestamp,
-			isFlowing:     false,
-		}
+		state = &TrackFlowState{}
 		w.flowState[trackID] = state
-
-		return
 	}
 
-	wasFlowing := state.isFlowing
-	state.isFlowing = state.lastSeqNum != seqNum
+	state.packets++
 	state.lastSeqNum = seqNum
 	state.lastTimestamp = timestamp
+}
+
+// watchFlow reports when the media of a track starts and stops flowing, until
+// the track is done
+func (w *LiveKitWebRTC) watchFlow(trackID string, done chan struct{}) {
+	ticker := time.NewTicker(time.Millisecond * 100)
+	defer ticker.Stop()
+
+	var wasFlowing, isDone bool
+	var lastPackets uint64
 
-	if state.isFlowing != wasFlowing && w.flowCallback != nil {
+	for !isDone {
+		select {
+		case <-done:
+			isDone = true
+		case <-ticker.C:
+		}
+
+		w.m.Lock()
+		var packets uint64
 		var latestTimestamp time.Duration
 
+		if state, exists := w.flowState[trackID]; exists {
+			packets = state.packets
+		}
+
 		for _, s := range w.flowState {
 			if s.lastTimestamp > latestTimestamp {
 				latestTimestamp = s.lastTimestamp
 			}
 		}
+		w.m.Unlock()
+
+		isFlowing := !isDone && packets != lastPackets
+		lastPackets = packets
+
+		if isFlowing == wasFlowing {
+			continue
+		}
 
-		w.flowCallback(state.isFlowing, latestTimestamp, false)
+		wasFlowing = isFlowing
+		w.flowCallback(isFlowing, latestTimestamp, false)
 		log.WithField("session", w.ctx.Value("session")).
 			Tracef("Flow state changed for track %s: flowing=%v latestTimestamp=%s",
-				trackID, state.isFlowing, latestTimestamp)
+				trackID, isFlowing, latestTimestamp)
+
+		if isFlowing {
+			ticker.Reset(time.Millisecond * 1000)
+		} else {
+			ticker.Reset(time.Millisecond * 100)
+		}
 	}
 }
 
@@ -318,13 +367,18 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		// TODO: plug logger
 	)
 
+	// Closed at the end of the track
+	done := make(chan struct{})
+
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
 
 	if isVideo {
-		ssrc := uint32(track.SSRC())
-		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
+		w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+	}
+	w.m.Unlock()
 
+	if isVideo {
 		if kfr, ok := w.handler.(interface {
 			SetKeyframeRequester(interfaces.KeyframeRequester)
 		}); ok {
@@ -333,10 +387,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-		done := make(chan bool)
-		defer func() {
-			done <- true
-		}()
 		go func() {
 			ticker := time.NewTicker(time.Second * 3)
 			for {
@@ -345,47 +395,17 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 					ticker.Stop()
 					return
 				case <-ticker.C:
-					w.RequestKeyframeForSSRC(ssrc)
+					w.RequestKeyframeForSSRC(uint32(track.SSRC()))
 				}
 			}
 		}()
 	}
-	w.m.Unlock()
 
-	flowCheckDone := make(chan bool)
-	defer func() {
-		flowCheckDone <- true
-	}()
-	go func() {
-		ticker := time.NewTicker(time.Millisecond * 100)
-		var lastSeqNum uint16
-		for {
-			select {
-			case <-flowCheckDone:
-				ticker.Stop()
-				return
-			case <-ticker.C:
-				w.m.Lock()
-				state, exists := w.flowState[trackID]
-
-				if exists && state.lastSeqNum == lastSeqNum {
-					// No new packets received == not flowing
-					w.updateFlowState(trackID, state.lastSeqNum, state.lastTimestamp)
-				}
-
-				if state.isFlowing {
-					ticker.Reset(time.Millisecond * 1000)
-				} else {
-					ticker.Reset(time.Millisecond * 100)
-				}
-
-				lastSeqNum = state.lastSeqNum
-				w.m.Unlock()
-			}
-		}
-	}()
+	go w.watchFlow(trackID, done)
 
 	go func() {
+		defer close(done)
+
 		for {
 			packet, _, err := track.ReadRTP()
 
@@ -403,17 +423,13 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 
 			for _, p := range packets {
-				w.updateFlowState(
-					trackID,
-					p.SequenceNumber,
-					time.Duration(p.Timestamp)*time.Millisecond/time.Duration(clockRate),
-				)
-
 				switch trackKind {
 				case TrackKindVideo:
 					w.handler.PushVideo(p)
+					w.updateFlowState(trackID, p.SequenceNumber, w.handler.VideoTimestamp())
 				case TrackKindAudio:
 					w.handler.PushAudio(p)
+					w.updateFlowState(trackID, p.SequenceNumber, w.handler.AudioTimestamp())
 				}
 			}
 		}
@@ -448,6 +464,9 @@ func (w *LiveKitWebRTC) onTrackMuted(
 func (w *LiveKitWebRTC) onDisconnected() {
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Disconnected from LiveKit room %s", w.roomId)
+
+	// Not ours to wait for, this ends the session unless it has ended already
+	go w.flowCallback(false, 0, true)
 }
 
 func (w *LiveKitWebRTC) validateInitParams() error {
-- 
2.43.0


From d7039dff21b8b8c27ce2b738132e6e70171f9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 26/42] fix: builtin sampler: do not split a frame at its
 further partitions

---
 internal/webrtc/recorder/webm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 6fc874d..9d9e7e1 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -505,6 +505,12 @@ func (d *vp8Depacketizer) Unmarshal(payload []byte) ([]byte, error) {
 	return data, nil
 }
 
+// IsPartitionHead tells whether the payload starts a frame, further partitions of
+// a frame (S=1, PID > 0) do not.
+func (d *vp8Depacketizer) IsPartitionHead(payload []byte) bool {
+	return len(payload) > 0 && payload[0]&0x10 != 0 && payload[0]&0x07 == 0
+}
+
 func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	if len(packet.Payload) == 0 {
 		return false
-- 
2.43.0


From c2759a73449f4e7c1ca51e7284afd6310afa95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 27/42] fix: builtin sampler: never record a frame truncated by
 the sample builder

---
 internal/webrtc/recorder/webm.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 9d9e7e1..d317446 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -60,6 +60,10 @@ type WebmRecorder struct {
 	audioWriter, videoWriter       webm.BlockWriteCloser
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
 	audioTimestamp, videoTimestamp time.Duration
+	// Time taken by video samples that were dropped since the last one written
+	skippedDuration time.Duration
+	// Last packet the video sample builder let go of, i.e. the last one of a sample
+	lastReleasedPacket *rtp.Packet
 
 	started bool
 	closed  bool
@@ -145,7 +149,6 @@ func NewWebmRecorder(
 		useCustomSampler:      useCustomSampler,
 		writeIVFCopy:          writeIVFCopy,
 		audioBuilder:          samplebuilder.New(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
-		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate),
 		lastKeyFrameTime:      time.Now(),
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
@@ -156,6 +159,12 @@ func NewWebmRecorder(
 		hasVideo:     false,
 	}
 
+	r.videoBuilder = samplebuilder.New(videoPacketQueueSize, &vp8Depacketizer{}, vp8SampleRate,
+		samplebuilder.WithPacketReleaseHandler(func(p *rtp.Packet) {
+			r.lastReleasedPacket = p
+		}),
+	)
+
 	return r
 }
 
@@ -349,7 +358,16 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 
 		isKf := len(sample.Data) >= 10 && sample.Data[0]&0x1 == 0
 
-		duration := sample.Duration
+		duration := r.skippedDuration + sample.Duration
+		r.skippedDuration = 0
+
+		// The sample builder cuts frames short that wrap around its buffer
+		if r.lastReleasedPacket == nil || !r.lastReleasedPacket.Marker {
+			log.WithField("session", r.ctx.Value("session")).
+				Warnf("Discarding truncated VP8 frame: ts=%d, size=%d", ts, len(sample.Data))
+			r.skippedDuration = duration
+			continue
+		}
 
 		if isKf && ((r.videoWriter == nil && r.hasVideo) || (r.audioWriter == nil && r.hasAudio)) {
 			width, height := GetVP8KFDimension(sample.Data)
-- 
2.43.0


From 051bdd1b281b96277a841a0e4acacfb283f02db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 28/42] fix: record the audio that is still queued behind a
 lost packet when the recording ends

---
 internal/webrtc/recorder/webm.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index d317446..cdacab3 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -14,6 +14,7 @@ import (
 	"github.com/jech/samplebuilder"
 	"github.com/pion/rtp"
 	"github.com/pion/rtp/codecs"
+	"github.com/pion/webrtc/v3/pkg/media"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -293,6 +294,11 @@ func (r *WebmRecorder) close() time.Duration {
 	}
 	r.closed = true
 
+	// Packets after a lost one that was still waited for
+	if r.audioWriter != nil {
+		r.writeOpus(r.audioBuilder.ForcePopWithTimestamp)
+	}
+
 	r.closeWriters()
 	if r.started {
 		log.WithField("session", r.ctx.Value("session")).
@@ -412,9 +418,13 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 	}
 
 	r.audioBuilder.Push(p)
+	r.writeOpus(r.audioBuilder.PopWithTimestamp)
+}
 
+// Locked
+func (r *WebmRecorder) writeOpus(pop func() (*media.Sample, uint32)) {
 	for {
-		sample := r.audioBuilder.Pop()
+		sample, _ := pop()
 		if sample == nil {
 			return
 		}
-- 
2.43.0


From 23f584fb80e773195df1c57d66acce39c48316d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 29/42] fix: builtin sampler: padding uses up a sequence
 number, it is not a loss

---
 internal/webrtc/recorder/webm.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index cdacab3..c58cbb8 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -339,7 +339,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	if len(packet.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
@@ -367,6 +367,12 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		duration := r.skippedDuration + sample.Duration
 		r.skippedDuration = 0
 
+		// Padding
+		if len(sample.Data) == 0 {
+			r.skippedDuration = duration
+			continue
+		}
+
 		// The sample builder cuts frames short that wrap around its buffer
 		if r.lastReleasedPacket == nil || !r.lastReleasedPacket.Marker {
 			log.WithField("session", r.ctx.Value("session")).
@@ -517,6 +523,11 @@ type vp8Depacketizer struct {
 }
 
 func (d *vp8Depacketizer) Unmarshal(payload []byte) ([]byte, error) {
+	// Padding
+	if len(payload) == 0 {
+		return nil, nil
+	}
+
 	if len(payload) == 3 && payload[0]&0x80 != 0 && payload[1]&0x80 != 0 && payload[2]&0x80 != 0 {
 		return nil, errors.New("truncated VP8 payload descriptor")
 	}
@@ -534,9 +545,14 @@ func (d *vp8Depacketizer) Unmarshal(payload []byte) ([]byte, error) {
 }
 
 // IsPartitionHead tells whether the payload starts a frame, further partitions of
-// a frame (S=1, PID > 0) do not.
+// a frame (S=1, PID > 0) do not. Padding stands alone.
 func (d *vp8Depacketizer) IsPartitionHead(payload []byte) bool {
-	return len(payload) > 0 && payload[0]&0x10 != 0 && payload[0]&0x07 == 0
+	return len(payload) == 0 || payload[0]&0x10 != 0 && payload[0]&0x07 == 0
+}
+
+// IsPartitionTail tells whether the payload ends a frame.
+func (d *vp8Depacketizer) IsPartitionTail(marker bool, payload []byte) bool {
+	return marker || len(payload) == 0
 }
 
 func IsVP8KeyFrame(packet *rtp.Packet) bool {
-- 
2.43.0


From 5f8063e944532b1be9868bff7929ec167cd1dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 30/42] fix: do not let the sample builders crash when a gap
 makes them drop all they hold

---
 internal/webrtc/recorder/webm.go | 45 +++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index c58cbb8..8cf2519 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -61,6 +61,8 @@ type WebmRecorder struct {
 	audioWriter, videoWriter       webm.BlockWriteCloser
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
 	audioTimestamp, videoTimestamp time.Duration
+	// Newest packets in the sample builders
+	newestAudioSeq, newestVideoSeq uint16
 	// Time taken by video samples that were dropped since the last one written
 	skippedDuration time.Duration
 	// Last packet the video sample builder let go of, i.e. the last one of a sample
@@ -169,6 +171,20 @@ func NewWebmRecorder(
 	return r
 }
 
+// A sample builder breaks if it has to drop everything it holds to make room
+// for the gap before a packet. Tells whether it has to be emptied before, and
+// whether the gap is large enough for it to start over by itself.
+func overflows(builder *samplebuilder.SampleBuilder, queueSize, newestSeq, seq uint16) (bool, bool) {
+	capacity := 2 * min(max(int(queueSize), 2), 0x7FFF)
+	gap := seq - newestSeq
+
+	if builder.Len() == 0 || gap <= 1 || gap >= 0x8000 {
+		return false, false
+	}
+
+	return builder.Len()+int(gap) >= capacity, int(gap) > capacity
+}
+
 func (r *WebmRecorder) GetFilePath() string {
 	return r.file
 }
@@ -349,14 +365,33 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		r.lastKeyFrameTime = time.Now()
 	}
 
+	if full, _ := overflows(r.videoBuilder, r.videoPacketQueueSize, r.newestVideoSeq, packet.SequenceNumber); full {
+		r.writeVP8Builtin(r.videoBuilder.ForcePopWithTimestamp)
+
+		// The frame before the gap is incomplete, wait until it can go
+		full, startsOver := overflows(r.videoBuilder, r.videoPacketQueueSize, r.newestVideoSeq, packet.SequenceNumber)
+		if full && !startsOver {
+			return
+		}
+	}
+
+	if r.videoBuilder.Len() == 0 || packet.SequenceNumber-r.newestVideoSeq < 0x8000 {
+		r.newestVideoSeq = packet.SequenceNumber
+	}
+
 	r.videoBuilder.Push(packet)
 	log.WithField("session", r.ctx.Value("session")).
 		Tracef("BUILTIN: VP8 RTP-DEPAY: seq=%d, ts=%d, marker=%v, S=%v, PictureID=%d, KeyFrame=%v, size=%d, PartID=%d",
 			packet.SequenceNumber, packet.Timestamp, packet.Marker, isKeyFrame,
 			0, isKeyFrame, len(packet.Payload), 0)
 
+	r.writeVP8Builtin(r.videoBuilder.PopWithTimestamp)
+}
+
+// Locked
+func (r *WebmRecorder) writeVP8Builtin(pop func() (*media.Sample, uint32)) {
 	for {
-		sample, ts := r.videoBuilder.PopWithTimestamp()
+		sample, ts := pop()
 
 		if sample == nil {
 			return
@@ -423,6 +458,14 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		return
 	}
 
+	if full, _ := overflows(r.audioBuilder, r.audioPacketQueueSize, r.newestAudioSeq, p.SequenceNumber); full {
+		r.writeOpus(r.audioBuilder.ForcePopWithTimestamp)
+	}
+
+	if r.audioBuilder.Len() == 0 || p.SequenceNumber-r.newestAudioSeq < 0x8000 {
+		r.newestAudioSeq = p.SequenceNumber
+	}
+
 	r.audioBuilder.Push(p)
 	r.writeOpus(r.audioBuilder.PopWithTimestamp)
 }
-- 
2.43.0


From d4c38ceb803c9f024056b29ed7541b27c3130f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 31/42] fix: place audio that joins late where it belongs, do
 not lose it

---
 internal/webrtc/recorder/webm.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 8cf2519..502f9ec 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -70,6 +70,9 @@ type WebmRecorder struct {
 
 	started bool
 	closed  bool
+	// When the file was opened, and whether it has audio already
+	openTime     time.Time
+	audioStarted bool
 	// The file could not be opened, do not try again
 	openFailed bool
 
@@ -485,7 +488,14 @@ func (r *WebmRecorder) writeOpus(pop func() (*media.Sample, uint32)) {
 		}
 
 		if r.audioWriter != nil {
-			r.audioTimestamp += sample.Duration
+			if r.audioStarted {
+				r.audioTimestamp += sample.Duration
+			} else {
+				// It may join late
+				r.audioTimestamp = time.Since(r.openTime)
+				r.audioStarted = true
+			}
+
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
 				log.WithField("session", r.ctx.Value("session")).
 					Errorf("Error writing audio frame: %v", err)
@@ -1199,6 +1209,8 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	}
 
 	r.started = true
+	r.openTime = time.Now()
+	r.audioStarted = false
 
 	if r.writeIVFCopy && r.hasVideo {
 		if err := r.startIVFWriter(); err != nil {
-- 
2.43.0


From 1fbe72ad6f5b54a03ed388af1d8e388ea02491c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 32/42] fix: keep the redis settings that a configuration
 source does not give

---
 internal/config/loader.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/config/loader.go b/internal/config/loader.go
index 5b345e0..097e915 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -3,6 +3,7 @@ package config
 import (
 	"fmt"
 	"github.com/crazy-max/gonfig"
+	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 	"path"
@@ -27,6 +28,7 @@ func (cfg *Config) Load(app App, configFile string) {
 			Extensions: []string{"yaml", "yml"},
 		},
 	})
+	adapter := cfg.PubSub.Adapters["redis"]
 	if found, err := fileLoader.Load(cfg); err != nil {
 		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename())))
 	} else if !found {
@@ -34,6 +36,7 @@ func (cfg *Config) Load(app App, configFile string) {
 	} else {
 		log.Printf("configuration loaded from file: %s", fileLoader.GetFilename())
 	}
+	cfg.PubSub.mergeRedis(adapter)
 
 	// Load from environment variables
 	envPrefix := "BBBRECORDER_"
@@ -41,6 +44,7 @@ func (cfg *Config) Load(app App, configFile string) {
 		Prefix: envPrefix,
 	})
 
+	adapter = cfg.PubSub.Adapters["redis"]
 	if found, err := envLoader.Load(cfg); err != nil {
 		log.Fatal(errors.Wrap(err, "failed to decode configuration from environment variables"))
 	} else if !found {
@@ -48,6 +52,19 @@ func (cfg *Config) Load(app App, configFile string) {
 	} else {
 		log.Printf("configuration loaded from %d environment variables", len(envLoader.GetVars()))
 	}
+	cfg.PubSub.mergeRedis(adapter)
 
 	cfg.App = app
 }
+
+// mergeRedis completes the settings of the redis adapter with those that were
+// in effect before: loaders replace the map of an adapter as a whole.
+func (p *PubSub) mergeRedis(previous interface{}) {
+	r := &Redis{}
+	for _, settings := range []interface{}{previous, p.Adapters["redis"]} {
+		if err := mapstructure.WeakDecode(settings, r); err != nil {
+			log.Fatal(errors.Wrap(err, "failed to decode redis pubsub configuration"))
+		}
+	}
+	p.Adapters["redis"] = r
+}
-- 
2.43.0


From c1a4c33d73742429fee74ab04129ebab51078193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 33/42] fix: load the credentials of ICE servers

---
 internal/config/config.go | 19 ++++++++++++++-----
 internal/webrtc/webrtc.go |  9 ++++++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 75f8b43..29351bd 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -107,11 +107,20 @@ type Channels struct {
 }
 
 type WebRTC struct {
-	ICEServers             []webrtc.ICEServer `yaml:"iceServers,omitempty"`
-	RTCMinPort             uint16             `yaml:"rtcMinPort,omitempty"`
-	RTCMaxPort             uint16             `yaml:"rtcMaxPort,omitempty"`
-	JitterBuffer           uint16             `yaml:"jitterBuffer,omitempty"`
-	JitterBufferPktTimeout uint16             `yaml:"jitterBufferPktTimeout,omitempty"`
+	ICEServers             []ICEServer `yaml:"iceServers,omitempty"`
+	RTCMinPort             uint16      `yaml:"rtcMinPort,omitempty"`
+	RTCMaxPort             uint16      `yaml:"rtcMaxPort,omitempty"`
+	JitterBuffer           uint16      `yaml:"jitterBuffer,omitempty"`
+	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPktTimeout,omitempty"`
+}
+
+// ICEServer mirrors webrtc.ICEServer, whose Credential is an interface that
+// the configuration loaders cannot set
+type ICEServer struct {
+	URLs           []string                 `yaml:"urls"`
+	Username       string                   `yaml:"username,omitempty"`
+	Credential     string                   `yaml:"credential,omitempty"`
+	CredentialType webrtc.ICECredentialType `yaml:"credentialtype,omitempty"`
 }
 
 type HTTP struct {
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index ed91c32..7ab83dc 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -89,9 +89,16 @@ func (w *WebRTC) Init(
 	}
 
 	cfg := webrtc.Configuration{
-		ICEServers:   w.cfg.ICEServers,
 		SDPSemantics: webrtc.SDPSemanticsUnifiedPlanWithFallback,
 	}
+	for _, s := range w.cfg.ICEServers {
+		cfg.ICEServers = append(cfg.ICEServers, webrtc.ICEServer{
+			URLs:           s.URLs,
+			Username:       s.Username,
+			Credential:     s.Credential,
+			CredentialType: s.CredentialType,
+		})
+	}
 
 	// Create a MediaEngine object to configure the supported codec
 	m := &webrtc.MediaEngine{}
-- 
2.43.0


From 4e17ae562336f6e70c0b940e2ed3a30184a28238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 34/42] fix: dump settings that are false, zero or empty, under
 their documented names

---
 internal/config/config.go | 72 +++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 29351bd..589c4f9 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -17,12 +17,12 @@ type App struct {
 
 type Config struct {
 	App        App        `yaml:"-"`
-	Recorder   Recorder   `yaml:"recorder,omitempty"`
-	PubSub     PubSub     `yaml:"pubsub,omitempty"`
-	WebRTC     WebRTC     `yaml:"webrtc,omitempty"`
-	HTTP       HTTP       `yaml:"http,omitempty"`
-	Prometheus Prometheus `yaml:"prometheus,omitempty"`
-	LiveKit    LiveKit    `yaml:"livekit,omitempty"`
+	Recorder   Recorder   `yaml:"recorder"`
+	PubSub     PubSub     `yaml:"pubsub"`
+	WebRTC     WebRTC     `yaml:"webrtc"`
+	HTTP       HTTP       `yaml:"http"`
+	Prometheus Prometheus `yaml:"prometheus"`
+	LiveKit    LiveKit    `yaml:"livekit"`
 	Log        LogConfig  `yaml:"log"`
 }
 
@@ -79,64 +79,64 @@ func (cfg *Config) SetDefaults() {
 }
 
 type Recorder struct {
-	Directory            string `yaml:"directory,omitempty"`
-	DirFileMode          string `yaml:"dirFileMode,omitempty"`
-	FileMode             string `yaml:"fileMode,omitempty"`
-	WriteToDevNull       bool   `yaml:"writeToDevNull,omitempty"`
-	WriteIVFCopy         bool   `yaml:"writeIVFCopy,omitempty"`
-	VideoPacketQueueSize uint16 `yaml:"videoPacketQueueSize,omitempty"`
-	AudioPacketQueueSize uint16 `yaml:"audioPacketQueueSize,omitempty"`
-	UseCustomSampler     bool   `yaml:"useCustomSampler,omitempty"`
+	Directory            string `yaml:"directory"`
+	DirFileMode          string `yaml:"dirFileMode"`
+	FileMode             string `yaml:"fileMode"`
+	WriteToDevNull       bool   `yaml:"writeToDevNull"`
+	WriteIVFCopy         bool   `yaml:"writeIVFCopy"`
+	VideoPacketQueueSize uint16 `yaml:"videoPacketQueueSize"`
+	AudioPacketQueueSize uint16 `yaml:"audioPacketQueueSize"`
+	UseCustomSampler     bool   `yaml:"useCustomSampler"`
 }
 
 type Redis struct {
-	Address  string `yaml:"address,omitempty"`
-	Network  string `yaml:"network,omitempty"`
-	Password string `yaml:"password,omitempty"`
+	Address  string `yaml:"address"`
+	Network  string `yaml:"network"`
+	Password string `yaml:"password"`
 }
 
 type PubSub struct {
-	Channels Channels `yaml:"channels,omitempty"`
-	Adapter  string   `yaml:"adapter,omitempty"`
+	Channels Channels `yaml:"channels"`
+	Adapter  string   `yaml:"adapter"`
 	Adapters map[string]interface{}
 }
 
 type Channels struct {
-	Subscribe string `yaml:"subscribe,omitempty"`
-	Publish   string `yaml:"publish,omitempty"`
+	Subscribe string `yaml:"subscribe"`
+	Publish   string `yaml:"publish"`
 }
 
 type WebRTC struct {
-	ICEServers             []ICEServer `yaml:"iceServers,omitempty"`
-	RTCMinPort             uint16      `yaml:"rtcMinPort,omitempty"`
-	RTCMaxPort             uint16      `yaml:"rtcMaxPort,omitempty"`
-	JitterBuffer           uint16      `yaml:"jitterBuffer,omitempty"`
-	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPktTimeout,omitempty"`
+	ICEServers             []ICEServer `yaml:"iceServers"`
+	RTCMinPort             uint16      `yaml:"rtcMinPort"`
+	RTCMaxPort             uint16      `yaml:"rtcMaxPort"`
+	JitterBuffer           uint16      `yaml:"jitterBuffer"`
+	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPktTimeout"`
 }
 
 // ICEServer mirrors webrtc.ICEServer, whose Credential is an interface that
 // the configuration loaders cannot set
 type ICEServer struct {
 	URLs           []string                 `yaml:"urls"`
-	Username       string                   `yaml:"username,omitempty"`
-	Credential     string                   `yaml:"credential,omitempty"`
-	CredentialType webrtc.ICECredentialType `yaml:"credentialtype,omitempty"`
+	Username       string                   `yaml:"username"`
+	Credential     string                   `yaml:"credential"`
+	CredentialType webrtc.ICECredentialType `yaml:"credentialtype"`
 }
 
 type HTTP struct {
-	Enable bool `yaml:"enable,omitempty"`
-	Port   int  `yaml:"port,omitempty"`
+	Enable bool `yaml:"enable"`
+	Port   int  `yaml:"port"`
 }
 
 type Prometheus struct {
-	Enable        bool   `yaml:"enable,omitempty"`
-	ListenAddress string `yaml:"listenAddress,omitempty"`
+	Enable        bool   `yaml:"enable"`
+	ListenAddress string `yaml:"listenAddress"`
 }
 
 type LiveKit struct {
-	Host      string `mapstructure:"host"`
-	APIKey    string `mapstructure:"api_key"`
-	APISecret string `mapstructure:"api_secret"`
+	Host      string `mapstructure:"host" yaml:"host"`
+	APIKey    string `mapstructure:"api_key" yaml:"apiKey"`
+	APISecret string `mapstructure:"api_secret" yaml:"apiSecret"`
 }
 
 type LogConfig struct {
-- 
2.43.0


From d33b8873cb312a1dabbc2642c3af8ad7fc343712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 35/42] fix: do not panic on a negative index in a dump path

---
 internal/app/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/config.go b/internal/app/config.go
index 3234eaa..e536028 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -32,7 +32,7 @@ func dumpConfig() {
 			}
 			switch v.(type) {
 			case []interface{}:
-				if i == nil || len(v.([]interface{})) < *i+1 {
+				if i == nil || *i < 0 || len(v.([]interface{})) < *i+1 {
 					v = nil
 					goto _break
 				}
-- 
2.43.0


From d40debb749879cfe9e297e68dc7eb1e0a9f044e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 36/42] fix: keep running when the configuration cannot be
 reloaded

---
 internal/app/app.go       | 13 ++++++++++---
 internal/app/config.go    |  7 +++++--
 internal/config/loader.go | 20 +++++++++++++-------
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/internal/app/app.go b/internal/app/app.go
index 78c5e09..5af8678 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -55,7 +55,9 @@ func init() {
 	if flags.dump != "" {
 		log.SetLevel(log.FatalLevel)
 		cfg = initConfig()
-		loadConfig()
+		if err := loadConfig(); err != nil {
+			log.Fatal(err)
+		}
 		dumpConfig()
 	}
 
@@ -66,7 +68,9 @@ func init() {
 func Init() {
 	cfg = initConfig()
 	log.Infof("Starting %s PID: %d", app.Name, os.Getpid())
-	loadConfig()
+	if err := loadConfig(); err != nil {
+		log.Fatal(err)
+	}
 	configureLog()
 	sigintHandler()
 	sighupHandler()
@@ -96,7 +100,10 @@ func sighupHandler() {
 			select {
 			case <-sighup:
 				log.Debug("reloading config...")
-				loadConfig()
+				if err := loadConfig(); err != nil {
+					log.Errorf("configuration not reloaded: %s", err)
+					continue
+				}
 				configureLog()
 			}
 		}
diff --git a/internal/app/config.go b/internal/app/config.go
index e536028..4f218db 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -14,10 +14,13 @@ func initConfig() *config.Config {
 	return (&config.Config{App: app}).GetDefaults()
 }
 
-func loadConfig() {
+func loadConfig() error {
 	newCfg := initConfig()
-	newCfg.Load(app, flags.config)
+	if err := newCfg.Load(app, flags.config); err != nil {
+		return err
+	}
 	*cfg = *newCfg
+	return nil
 }
 
 func dumpConfig() {
diff --git a/internal/config/loader.go b/internal/config/loader.go
index 097e915..5839f61 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -9,7 +9,7 @@ import (
 	"path"
 )
 
-func (cfg *Config) Load(app App, configFile string) {
+func (cfg *Config) Load(app App, configFile string) error {
 	// Load from file(s)
 	if configFile == "" {
 		configFile = app.Name + ".yml"
@@ -30,13 +30,15 @@ func (cfg *Config) Load(app App, configFile string) {
 	})
 	adapter := cfg.PubSub.Adapters["redis"]
 	if found, err := fileLoader.Load(cfg); err != nil {
-		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename())))
+		return errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename()))
 	} else if !found {
 		log.Debugf("no configuration file found: %s", fileLoader.GetFilename())
 	} else {
 		log.Printf("configuration loaded from file: %s", fileLoader.GetFilename())
 	}
-	cfg.PubSub.mergeRedis(adapter)
+	if err := cfg.PubSub.mergeRedis(adapter); err != nil {
+		return err
+	}
 
 	// Load from environment variables
 	envPrefix := "BBBRECORDER_"
@@ -46,25 +48,29 @@ func (cfg *Config) Load(app App, configFile string) {
 
 	adapter = cfg.PubSub.Adapters["redis"]
 	if found, err := envLoader.Load(cfg); err != nil {
-		log.Fatal(errors.Wrap(err, "failed to decode configuration from environment variables"))
+		return errors.Wrap(err, "failed to decode configuration from environment variables")
 	} else if !found {
 		log.Debugf("no %s* environment variables defined", envPrefix)
 	} else {
 		log.Printf("configuration loaded from %d environment variables", len(envLoader.GetVars()))
 	}
-	cfg.PubSub.mergeRedis(adapter)
+	if err := cfg.PubSub.mergeRedis(adapter); err != nil {
+		return err
+	}
 
 	cfg.App = app
+	return nil
 }
 
 // mergeRedis completes the settings of the redis adapter with those that were
 // in effect before: loaders replace the map of an adapter as a whole.
-func (p *PubSub) mergeRedis(previous interface{}) {
+func (p *PubSub) mergeRedis(previous interface{}) error {
 	r := &Redis{}
 	for _, settings := range []interface{}{previous, p.Adapters["redis"]} {
 		if err := mapstructure.WeakDecode(settings, r); err != nil {
-			log.Fatal(errors.Wrap(err, "failed to decode redis pubsub configuration"))
+			return errors.Wrap(err, "failed to decode redis pubsub configuration")
 		}
 	}
 	p.Adapters["redis"] = r
+	return nil
 }
-- 
2.43.0


From 0dec0f961161508f2b490f787f5face49ac13134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 37/42] fix: fail when the pubsub subscription is lost

---
 internal/app/app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/app/app.go b/internal/app/app.go
index 5af8678..4b99d41 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -90,6 +90,9 @@ func Run() {
 	ps := pubsub.NewPubSub(cfg.PubSub)
 	s := server.NewServer(cfg, ps)
 	ps.Subscribe(cfg.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
+	// Subscribe returns when the subscription is lost: end with a failure, so
+	// that the service manager starts the recorder again
+	log.Fatal("pubsub subscription ended")
 }
 
 func sighupHandler() {
-- 
2.43.0


From 6c76487b8610ae6ce61ac11c8b1735dc8ee38201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 38/42] fix: remember explicit skips of packets whose turn has
 not come yet

When several lost packets are given up while the jitter buffer still waits
for (or holds) an earlier one, SkipPacket ignored them, and each of them
then cost a full packet timeout of its own, holding back the media for
seconds. Mark them as timed out instead, so that they are passed over as
soon as they are reached.
---
 internal/webrtc/utils/jitter_buffer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 0e43535..3f7b374 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -161,6 +161,10 @@ func (s *JitterBuffer) SkipPacket(seq int64) {
 				s.lastSkippedSeq = seq
 				s.hasSkipped = true
 				s.SetNextPacketsStart(seq + 1)
+	} else if seq > s.nextStart && seq <= s.end && s.packets[seq%s.size] == nil {
+		// Not its turn yet: do not wait for it once everything before it is
+		// delivered or skipped
+		s.missingPacketTimers[seq] = time.Time{}
 	}
 }
 
-- 
2.43.0


From d43d234d8a22ccd23e177d125d96d1cade5ec526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 39/42] fix: leave the LiveKit room if joining it fails, and
 give up on servers that do not respond

---
 internal/webrtc/livekit/livekit.go | 37 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 5fbdcd4..9fd752d 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -33,6 +33,9 @@ const (
 	TrackKindAudio TrackKind = "audio"
 )
 
+// joinTimeout is longer than what the SDK allows for the media connection
+const joinTimeout = 20 * time.Second
+
 type PLITracker struct {
 	count     int
 	timestamp time.Time
@@ -102,13 +105,7 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 	log.WithField("session", w.ctx.Value("session")).
 		Debugf("Connecting to LiveKit room %s with identity %s", w.roomId, identity)
 
-	roomClient, err := lksdk.ConnectToRoom(w.cfg.Host, lksdk.ConnectInfo{
-		APIKey:              w.cfg.APIKey,
-		APISecret:           w.cfg.APISecret,
-		RoomName:            w.roomId,
-		ParticipantIdentity: identity,
-		ParticipantKind:     lksdk.ParticipantEgress,
-	}, &lksdk.RoomCallback{
+	roomClient := lksdk.NewRoom(&lksdk.RoomCallback{
 		ParticipantCallback: lksdk.ParticipantCallback{
 			OnTrackSubscribed:   w.onTrackSubscribed,
 			OnTrackUnsubscribed: w.onTrackUnsubscribed,
@@ -116,11 +113,31 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 			OnTrackMuted:        w.onTrackMuted,
 		},
 		OnDisconnected: w.onDisconnected,
-	},
-		lksdk.WithAutoSubscribe(false),
-	)
+	})
+	joined := make(chan error, 1)
+
+	go func() {
+		joined <- roomClient.Join(w.cfg.Host, lksdk.ConnectInfo{
+			APIKey:              w.cfg.APIKey,
+			APISecret:           w.cfg.APISecret,
+			RoomName:            w.roomId,
+			ParticipantIdentity: identity,
+			ParticipantKind:     lksdk.ParticipantEgress,
+		}, lksdk.WithAutoSubscribe(false))
+	}()
+
+	var err error
+
+	// A server that does not respond would be waited for forever
+	select {
+	case err = <-joined:
+	case <-time.After(joinTimeout):
+		err = fmt.Errorf("no response within %s", joinTimeout)
+	}
 
 	if err != nil {
+		// What there is of the connection is not closed otherwise
+		roomClient.Disconnect()
 		return fmt.Errorf("failed to connect to LiveKit room: %w", err)
 	}
 
-- 
2.43.0


From 659572d72e71cdf0c02259a10610bd2b16efaf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 40/42] fix: publish the end of a session after the answer to
 its start

---
 internal/server/server.go  | 2 ++
 internal/server/session.go | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 62a4f1b..bebb369 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -93,6 +93,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			}
 
 			s.PublishPubSub(e.Success("", rec.GetFilePath()))
+			close(sess.answered)
 
 		case "mediasoup", "":
 			rec, err = s.newRecorder(ctx, e.FileName)
@@ -126,6 +127,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			}
 
 			s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
+			close(sess.answered)
 
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
diff --git a/internal/server/session.go b/internal/server/session.go
index 8e6b8cf..661f437 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -21,6 +21,7 @@ type Session struct {
 	recorder recorder.Recorder
 	m        sync.Mutex // guards stopped, and publishing until then
 	stopped  bool
+	answered chan struct{} // closed after the start is answered, or won't be with success
 }
 
 func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWebRTC, recorder recorder.Recorder) *Session {
@@ -30,6 +31,7 @@ func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWe
 		webrtc:   wrtc,
 		livekit:  lk,
 		recorder: recorder,
+		answered: make(chan struct{}),
 	}
 }
 
@@ -82,8 +84,10 @@ func (s *Session) onFlow(isFlowing bool, timestamp time.Duration, closed bool) {
 }
 
 // end ends the session, once: the file is final and the id free by the time
-// this is published, and nothing else is from then on.
+// this is published, and nothing else is from then on. It is not published
+// before the answer to the start.
 func (s *Session) end(reason string) {
+	<-s.answered
 	s.server.m.Lock()
 
 	if ts, ok := s.stop(); ok {
@@ -99,6 +103,7 @@ func (s *Session) end(reason string) {
 func (s *Session) abort() {
 	s.stop()
 	s.server.CloseSession(s)
+	close(s.answered)
 	s.closeTransport()
 }
 
-- 
2.43.0


From 3542c550974a62d420111bbe58a6250f60914c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:46 +0000
Subject: [PATCH 41/42] fix: survive losses that make LiveKit's jitter buffer
 panic

---
 internal/webrtc/livekit/livekit.go | 56 +++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 9fd752d..e683633 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -372,17 +372,20 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}
 
 	latency := time.Duration(200) * time.Millisecond
-	buffer := jitter.NewBuffer(
-		depacketizer,
-		clockRate,
-		latency,
-		jitter.WithPacketDroppedHandler(func() {
-			if isVideo {
-				w.RequestKeyframe()
-			}
-		}),
-		// TODO: plug logger
-	)
+	newBuffer := func() *jitter.Buffer {
+		return jitter.NewBuffer(
+			depacketizer,
+			clockRate,
+			latency,
+			jitter.WithPacketDroppedHandler(func() {
+				if isVideo {
+					w.RequestKeyframe()
+				}
+			}),
+			// TODO: plug logger
+		)
+	}
+	buffer := newBuffer()
 
 	// Closed at the end of the track
 	done := make(chan struct{})
@@ -432,8 +435,21 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 				return
 			}
 
-			buffer.Push(packet)
-			packets := buffer.Pop(false)
+			packets, err := pushAndPop(buffer, packet)
+
+			if err != nil {
+				log.WithField("session", w.ctx.Value("session")).
+					Errorf("Error in the jitter buffer of track %s, starting over: %v", trackID, err)
+
+				buffer = newBuffer()
+				w.m.Lock()
+				w.jitterBuffers[trackID] = buffer
+				w.m.Unlock()
+
+				if isVideo {
+					w.RequestKeyframe()
+				}
+			}
 
 			if len(packets) == 0 {
 				continue
@@ -453,6 +469,20 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}()
 }
 
+// pushAndPop fails where the jitter buffer panics: there are losses that leave
+// it empty unexpectedly. It is of no use then.
+func pushAndPop(buffer *jitter.Buffer, packet *rtp.Packet) (packets []*rtp.Packet, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
+	buffer.Push(packet)
+
+	return buffer.Pop(false), nil
+}
+
 func (w *LiveKitWebRTC) onTrackUnsubscribed(
 	track *webrtc.TrackRemote,
 	pub *lksdk.RemoteTrackPublication,
-- 
2.43.0


From 429850a32f982658b9fc80f0fd7fddf5fa1abe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:13 +0000
Subject: [PATCH 42/42] fix: get LiveKit's jitter buffer going when the first
 packet of a track is lost

---
 internal/webrtc/livekit/livekit.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index e683633..2ff6780 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -426,6 +426,8 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	go func() {
 		defer close(done)
 
+		started := false
+
 		for {
 			packet, _, err := track.ReadRTP()
 
@@ -435,6 +437,13 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 				return
 			}
 
+			// The jitter buffer never gets going if what it gets first isn't the
+			// start of a frame
+			if !started && !depacketizer.IsPartitionHead(packet.Payload) {
+				continue
+			}
+			started = true
+
 			packets, err := pushAndPop(buffer, packet)
 
 			if err != nil {
@@ -442,6 +451,7 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 					Errorf("Error in the jitter buffer of track %s, starting over: %v", trackID, err)
 
 				buffer = newBuffer()
+				started = false
 				w.m.Lock()
 				w.jitterBuffers[trackID] = buffer
 				w.m.Unlock()
-- 
2.43.0

