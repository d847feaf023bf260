package he2e

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/webrtc/v3"
)

// Rtcp is an RTCP message received from the recorder.
type Rtcp struct {
	At   time.Time
	Nack []uint16
	Pli  bool
	SSRC uint32 // media the message is about
	On   string // kind of the track on whose stream it came
}

// Peer is an SFU as seen by the recorder.
type Peer struct {
	pc    *webrtc.PeerConnection
	Video *webrtc.TrackLocalStaticRTP
	Audio *webrtc.TrackLocalStaticRTP
	vs    *webrtc.RTPSender
	as    *webrtc.RTPSender
	Offer string // base64

	mu     sync.Mutex
	state  webrtc.ICEConnectionState
	rtcps  []Rtcp
	onNack func(kind string, seqs []uint16)
}

// PeerOpts varies the offer.
type PeerOpts struct {
	VP8, Opus  uint8 // payload types
	Extra      bool  // the offer lists further codecs and feedback
	AudioFirst bool
}

func newPC(o PeerOpts) *webrtc.PeerConnection {
	m := &webrtc.MediaEngine{}
	if o.VP8 == 0 {
		o.VP8 = 96
	}
	if o.Opus == 0 {
		o.Opus = 111
	}
	fb := []webrtc.RTCPFeedback{{Type: "nack"}, {Type: "nack", Parameter: "pli"}}
	if o.Extra {
		fb = append(fb, webrtc.RTCPFeedback{Type: "goog-remb"}, webrtc.RTCPFeedback{Type: "transport-cc"}, webrtc.RTCPFeedback{Type: "ccm", Parameter: "fir"})
		must(m.RegisterCodec(webrtc.RTPCodecParameters{
			RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeH264, ClockRate: 90000, SDPFmtpLine: "level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42e01f", RTCPFeedback: fb}, PayloadType: 125}, webrtc.RTPCodecTypeVideo))
		must(m.RegisterCodec(webrtc.RTPCodecParameters{
			RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypePCMU, ClockRate: 8000}, PayloadType: 0}, webrtc.RTPCodecTypeAudio))
	}
	must(m.RegisterCodec(webrtc.RTPCodecParameters{
		RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeVP8, ClockRate: 90000, RTCPFeedback: fb}, PayloadType: webrtc.PayloadType(o.VP8)}, webrtc.RTPCodecTypeVideo))
	must(m.RegisterCodec(webrtc.RTPCodecParameters{
		RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeOpus, ClockRate: 48000, Channels: 2}, PayloadType: webrtc.PayloadType(o.Opus)}, webrtc.RTPCodecTypeAudio))
	if o.Extra {
		must(m.RegisterCodec(webrtc.RTPCodecParameters{
			RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: "video/rtx", ClockRate: 90000, SDPFmtpLine: fmt.Sprintf("apt=%d", o.VP8)}, PayloadType: 126}, webrtc.RTPCodecTypeVideo))
		for _, u := range []string{"urn:ietf:params:rtp-hdrext:sdes:mid", "http://www.webrtc.org/experiments/rtp-hdrext/abs-send-time", "urn:ietf:params:rtp-hdrext:toffset"} {
			must(m.RegisterHeaderExtension(webrtc.RTPHeaderExtensionCapability{URI: u}, webrtc.RTPCodecTypeVideo))
		}
	}
	se := webrtc.SettingEngine{}
	se.SetIncludeLoopbackCandidate(true)
	se.SetHostAcceptanceMinWait(0)
	se.SetSrflxAcceptanceMinWait(0)
	se.SetPrflxAcceptanceMinWait(0)
	se.SetICEMulticastDNSMode(0)
	se.SetInterfaceFilter(func(n string) bool { return n == "lo" })
	se.SetNetworkTypes([]webrtc.NetworkType{webrtc.NetworkTypeUDP4})
	api := webrtc.NewAPI(webrtc.WithMediaEngine(m), webrtc.WithSettingEngine(se))
	pc, err := api.NewPeerConnection(webrtc.Configuration{})
	must(err)
	return pc
}

func must(err error) {
	if err != nil {
		panic(core.HarnessError{Why: err.Error()})
	}
}

// NewPeer prepares a peer that offers the given kinds of media.
func NewPeer(video, audio bool) *Peer { return NewPeerWith(video, audio, PeerOpts{}) }

func NewPeerWith(video, audio bool, o PeerOpts) *Peer {
	p := &Peer{pc: newPC(o)}
	addV := func() {
		if video {
			var err error
			p.Video, err = webrtc.NewTrackLocalStaticRTP(webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeVP8}, "v", "s")
			must(err)
			p.vs, err = p.pc.AddTrack(p.Video)
			must(err)
			go p.readRTCP("video", p.vs)
		}
	}
	addA := func() {
		if audio {
			var err error
			p.Audio, err = webrtc.NewTrackLocalStaticRTP(webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeOpus}, "a", "s")
			must(err)
			p.as, err = p.pc.AddTrack(p.Audio)
			must(err)
			go p.readRTCP("audio", p.as)
		}
	}
	if o.AudioFirst {
		addA()
		addV()
	} else {
		addV()
		addA()
	}
	p.pc.OnICEConnectionStateChange(func(s webrtc.ICEConnectionState) {
		p.mu.Lock()
		p.state = s
		p.mu.Unlock()
	})
	offer, err := p.pc.CreateOffer(nil)
	must(err)
	done := webrtc.GatheringCompletePromise(p.pc)
	must(p.pc.SetLocalDescription(offer))
	<-done
	b, _ := json.Marshal(p.pc.LocalDescription())
	p.Offer = base64.StdEncoding.EncodeToString(b)
	return p
}

func (p *Peer) readRTCP(kind string, s *webrtc.RTPSender) {
	b := make([]byte, 1500)
	for {
		n, _, err := s.Read(b)
		if err != nil {
			return
		}
		pkts, err := rtcp.Unmarshal(b[:n])
		if err != nil {
			continue
		}
		now := time.Now()
		for _, k := range pkts {
			r := Rtcp{At: now, On: kind}
			switch k := k.(type) {
			case *rtcp.TransportLayerNack:
				r.SSRC = k.MediaSSRC
				for _, n := range k.Nacks {
					r.Nack = append(r.Nack, n.PacketList()...)
				}
			case *rtcp.PictureLossIndication:
				r.SSRC = k.MediaSSRC
				r.Pli = true
			default:
				continue
			}
			p.mu.Lock()
			p.rtcps = append(p.rtcps, r)
			f := p.onNack
			p.mu.Unlock()
			if f != nil && len(r.Nack) > 0 {
				f(kind, r.Nack)
			}
		}
	}
}

// Rtcps gives what was received so far.
func (p *Peer) Rtcps() []Rtcp {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Rtcp(nil), p.rtcps...)
}

// Answer takes the recorder's answer.
func (p *Peer) Answer(sdp string) error {
	b, err := base64.StdEncoding.DecodeString(sdp)
	if err != nil {
		return fmt.Errorf("the sdp of the response is not base64: %v", err)
	}
	var d webrtc.SessionDescription
	if err := json.Unmarshal(b, &d); err != nil {
		return fmt.Errorf("the sdp of the response is no session description: %v", err)
	}
	if d.Type != webrtc.SDPTypeAnswer {
		return fmt.Errorf("the sdp of the response is no answer but %s", d.Type)
	}
	if err := p.pc.SetRemoteDescription(d); err != nil {
		return fmt.Errorf("the answer is not accepted: %v", err)
	}
	return nil
}

// Connected waits for the connection.
func (p *Peer) Connected() bool {
	// the state of the peer connection is unreliable: pion may compute the last
	// one from an outdated state of the ICE transport
	t := p.vs
	if t == nil {
		t = p.as
	}
	for end := time.Now().Add(patience); t.Transport().State() != webrtc.DTLSTransportStateConnected; {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

// SSRC of the track of that kind.
func (p *Peer) SSRC(kind string) uint32 {
	s := p.vs
	if kind == "audio" {
		s = p.as
	}
	return uint32(s.GetParameters().Encodings[0].SSRC)
}

// Write sends a packet.
func (p *Peer) Write(video bool, k *rtp.Packet) error {
	t := p.Audio
	if video {
		t = p.Video
	}
	c := *k
	return t.WriteRTP(&c)
}

func (p *Peer) Close() { p.pc.Close() }
