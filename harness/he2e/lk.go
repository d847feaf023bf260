package he2e

import (
	"fmt"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"encoding/json"
	"github.com/gorilla/websocket"
	"github.com/livekit/protocol/auth"
	lkp "github.com/livekit/protocol/livekit"
	"github.com/pion/webrtc/v3"
	"google.golang.org/protobuf/proto"
)

// lkTrack is a track that a participant of a room publishes.
type lkTrack struct {
	Sid   string
	Video bool
	Mime  string `json:",omitempty"` // not VP8 or Opus
	Muted bool   `json:",omitempty"`
}

type lkPart struct {
	Sid, Identity string
	Tracks        []lkTrack
}

// lkRoom is a room as the LiveKit server has it.
type lkRoom struct {
	Parts []lkPart
	Mode  string   // how connections go; "" is well
	Peer  PeerOpts // of the connections to the recorder
}

// LK is a LiveKit server.
type LK struct {
	Host string
	key  string
	sec  string
	srv  *http.Server
	stop chan bool

	mu    sync.Mutex
	rooms map[string]*lkRoom
	conns []*lkConn
	odd   []string // what no client should do
	tries int
}

// lkConn is a participant, as the server sees it.
type lkConn struct {
	lk       *LK
	Room     string
	Identity string
	Kind     lkp.ParticipantInfo_Kind
	Query    url.Values
	room     *lkRoom
	ws       *websocket.Conn
	wmu      sync.Mutex
	peer     *Peer

	mu       sync.Mutex
	subs     []string // tracks that are subscribed to, in order
	unsubs   []string
	answered int // offers answered
	offered  int
	settled  map[string]bool // tracks of which the client knows
	again    bool
	pend     []webrtc.ICECandidateInit
	left     bool
	closed   bool
	opened   time.Time
	ended    time.Time
}

// NewLK starts a server.
func NewLK(key, sec string, rooms map[string]*lkRoom) *LK {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	k := &LK{Host: "ws://" + l.Addr().String(), key: key, sec: sec, rooms: rooms, stop: make(chan bool)}
	k.srv = &http.Server{Handler: k}
	go k.srv.Serve(l)
	return k
}

func (k *LK) Close() {
	close(k.stop)
	k.srv.Close()
	for _, c := range k.Conns("") {
		c.hangup()
	}
}

// Conns gives the connections to a room, or all.
func (k *LK) Conns(room string) (out []*lkConn) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, c := range k.conns {
		if room == "" || c.Room == room {
			out = append(out, c)
		}
	}
	return
}

func (k *LK) complain(f string, a ...any) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.odd = append(k.odd, fmt.Sprintf(f, a...))
}

// Odd tells what the clients did wrong.
func (k *LK) Odd() error {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.odd) > 0 {
		return fmt.Errorf("%s", strings.Join(k.odd, "; "))
	}
	return nil
}

func (k *LK) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	k.mu.Lock()
	k.tries++
	k.mu.Unlock()
	raw := strings.TrimPrefix(q.Header.Get("Authorization"), "Bearer ")
	v, err := auth.ParseAPIToken(raw)
	if err != nil {
		http.Error(w, "invalid token", http.StatusUnauthorized)
		return
	}
	if v.APIKey() != k.key {
		http.Error(w, "invalid API key: "+v.APIKey(), http.StatusUnauthorized)
		return
	}
	g, err := v.Verify(k.sec)
	if err != nil || g.Video == nil || !g.Video.RoomJoin {
		http.Error(w, "invalid token, error: "+fmt.Sprint(err), http.StatusUnauthorized)
		return
	}
	room := k.rooms[g.Video.Room]
	if room == nil {
		http.Error(w, "requested room does not exist", http.StatusNotFound)
		return
	}
	switch room.Mode {
	case "401":
		http.Error(w, "permissions denied", http.StatusUnauthorized)
		return
	case "404":
		http.Error(w, "no such node", http.StatusNotFound)
		return
	case "503":
		http.Error(w, "", http.StatusServiceUnavailable)
		return
	case "drop":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
		return
	}
	if q.URL.Path == "/rtc/validate" {
		w.Write([]byte("success"))
		return
	}
	if q.URL.Path != "/rtc" {
		http.NotFound(w, q)
		return
	}
	ws, err := (&websocket.Upgrader{}).Upgrade(w, q, nil)
	if err != nil {
		return
	}
	c := &lkConn{lk: k, Room: g.Video.Room, Identity: g.Identity, Kind: g.GetParticipantKind(), Query: q.URL.Query(), room: room, ws: ws,
		settled: map[string]bool{}, opened: time.Now()}
	k.mu.Lock()
	k.conns = append(k.conns, c)
	k.mu.Unlock()
	defer c.hangup()
	switch room.Mode {
	case "close":
		return
	case "leave":
		c.send(&lkp.SignalResponse{Message: &lkp.SignalResponse_Leave{Leave: &lkp.LeaveRequest{Reason: lkp.DisconnectReason_ROOM_DELETED}}})
	case "odd":
		c.send(&lkp.SignalResponse{Message: &lkp.SignalResponse_RefreshToken{RefreshToken: "x"}})
	case "silent":
	case "text":
		ws.WriteMessage(websocket.TextMessage, []byte("hello"))
	case "garbage":
		ws.WriteMessage(websocket.BinaryMessage, []byte{0xff, 0xff, 0xff})
	default:
		c.join()
	}
	c.read()
}

func (c *lkConn) send(m *lkp.SignalResponse) {
	b, err := proto.Marshal(m)
	must(err)
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.ws.WriteMessage(websocket.BinaryMessage, b)
}

func (r *lkRoom) infos() (out []*lkp.ParticipantInfo) {
	for _, p := range r.Parts {
		i := &lkp.ParticipantInfo{Sid: p.Sid, Identity: p.Identity, State: lkp.ParticipantInfo_ACTIVE}
		for _, t := range p.Tracks {
			x := &lkp.TrackInfo{Sid: t.Sid, Type: lkp.TrackType_AUDIO, MimeType: "audio/opus", Source: lkp.TrackSource_MICROPHONE, Muted: t.Muted}
			if t.Video {
				x.Type, x.MimeType, x.Source = lkp.TrackType_VIDEO, "video/VP8", lkp.TrackSource_SCREEN_SHARE
			}
			if t.Mime != "" {
				x.MimeType = t.Mime
			}
			i.Tracks = append(i.Tracks, x)
		}
		out = append(out, i)
	}
	return
}

// join lets the participant in and offers the connection.
func (c *lkConn) join() {
	c.send(&lkp.SignalResponse{Message: &lkp.SignalResponse_Join{Join: &lkp.JoinResponse{
		Room:              &lkp.Room{Sid: "RM_" + c.Room, Name: c.Room},
		Participant:       &lkp.ParticipantInfo{Sid: fmt.Sprintf("PA_self%p", c), Identity: c.Identity, State: lkp.ParticipantInfo_ACTIVE},
		OtherParticipants: c.room.infos(),
		SubscriberPrimary: true,
		IceServers:        []*lkp.ICEServer{{Urls: []string{"stun:" + stunServer().Addr}}},
		ServerInfo:        &lkp.ServerInfo{Version: "1.5.3", Protocol: 12},
	}}})
	if c.room.Mode == "no-offer" {
		return
	}
	p := &Peer{pc: newPC(c.room.Peer)}
	_, err := p.pc.CreateDataChannel("_reliable", nil)
	must(err)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.peer = p
	c.offer()
	if c.room.Mode == "kick-join" {
		c.kick()
	}
}

// offer (re)negotiates; c.mu is held.
func (c *lkConn) offer() {
	if c.peer.pc.SignalingState() != webrtc.SignalingStateStable {
		c.again = true
		return
	}
	c.again = false
	o, err := c.peer.pc.CreateOffer(nil)
	if err != nil {
		return
	}
	done := webrtc.GatheringCompletePromise(c.peer.pc)
	if c.peer.pc.SetLocalDescription(o) != nil {
		return
	}
	<-done
	c.offered++
	c.send(&lkp.SignalResponse{Message: &lkp.SignalResponse_Offer{Offer: &lkp.SessionDescription{Type: "offer", Sdp: c.peer.pc.LocalDescription().SDP}}})
}

func (c *lkConn) read() {
	for {
		k, b, err := c.ws.ReadMessage()
		if err != nil {
			return
		}
		m := &lkp.SignalRequest{}
		if k != websocket.BinaryMessage || proto.Unmarshal(b, m) != nil {
			c.lk.complain("%s sent a malformed message", c.Identity)
			continue
		}
		c.handle(m)
	}
}

func (c *lkConn) handle(m *lkp.SignalRequest) {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch m := m.Message.(type) {
	case *lkp.SignalRequest_Answer:
		if c.peer == nil || c.peer.pc.SetRemoteDescription(webrtc.SessionDescription{Type: webrtc.SDPTypeAnswer, SDP: m.Answer.Sdp}) != nil {
			return
		}
		for _, x := range c.pend {
			c.peer.pc.AddICECandidate(x)
		}
		c.pend = nil
		c.answered++
		if c.again {
			c.offer()
			return
		}
		for _, s := range c.subs {
			c.settled[s] = true
		}
	case *lkp.SignalRequest_Trickle:
		if m.Trickle.Target != lkp.SignalTarget_SUBSCRIBER || c.peer == nil {
			return
		}
		var x webrtc.ICECandidateInit
		if json.Unmarshal([]byte(m.Trickle.CandidateInit), &x) != nil {
			return
		}
		if c.peer.pc.CurrentRemoteDescription() == nil {
			c.pend = append(c.pend, x)
		} else {
			c.peer.pc.AddICECandidate(x)
		}
	case *lkp.SignalRequest_Subscription:
		sids := append([]string(nil), m.Subscription.TrackSids...)
		for _, p := range m.Subscription.ParticipantTracks {
			sids = append(sids, p.TrackSids...)
		}
		if c.room.Mode == "kick-sub" {
			c.kick()
			return
		}
		for _, s := range sids {
			c.subscribe(s, m.Subscription.Subscribe)
		}
	case *lkp.SignalRequest_Leave:
		c.left = true
	}
}

func (c *lkConn) subscribe(sid string, on bool) {
	if !on {
		c.unsubs = append(c.unsubs, sid)
		return
	}
	for _, p := range c.room.Parts {
		for _, t := range p.Tracks {
			if t.Sid != sid {
				continue
			}
			c.subs = append(c.subs, sid)
			if c.peer == nil {
				return
			}
			mime, rtpKind := webrtc.MimeTypeOpus, "audio"
			if t.Video {
				mime, rtpKind = webrtc.MimeTypeVP8, "video"
			}
			if t.Mime != "" {
				mime = t.Mime
			}
			l, err := webrtc.NewTrackLocalStaticRTP(webrtc.RTPCodecCapability{MimeType: mime}, t.Sid, p.Sid+"|"+t.Sid)
			must(err)
			s, err := c.peer.pc.AddTrack(l)
			if err != nil {
				return
			}
			go c.peer.readRTCP(rtpKind, s)
			c.peer.mu.Lock()
			if t.Video {
				c.peer.Video, c.peer.vs = l, s
			} else {
				c.peer.Audio, c.peer.as = l, s
			}
			c.peer.mu.Unlock()
			c.offer()
			return
		}
	}
	c.lk.complain("%s subscribed to %s, which is not in the room", c.Identity, sid)
}

// Subs gives the tracks that are subscribed to, and whether all of them are
// negotiated.
func (c *lkConn) Subs() (out []string, settled bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	settled = true
	for _, s := range c.subs {
		settled = settled && c.settled[s]
	}
	return append(out, c.subs...), settled
}

// Left tells whether the participant left, and whether the connection is gone.
func (c *lkConn) Left() (left, closed bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.left, c.closed
}

// kick removes the participant.
func (c *lkConn) kick() {
	c.send(&lkp.SignalResponse{Message: &lkp.SignalResponse_Leave{Leave: &lkp.LeaveRequest{Reason: lkp.DisconnectReason_PARTICIPANT_REMOVED}}})
}

// hangup ends the connection on the part of the server.
func (c *lkConn) hangup() {
	c.ws.Close()
	c.mu.Lock()
	if !c.closed {
		c.closed = true
		c.ended = time.Now()
	}
	p := c.peer
	c.mu.Unlock()
	if p != nil {
		p.Close()
	}
}
