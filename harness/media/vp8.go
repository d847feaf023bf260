package media

import (
	"encoding/binary"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"github.com/pion/rtp"
)

// VFrame is one VP8 frame as it is sent.
type VFrame struct {
	K    bool   `json:",omitempty"` // keyframe
	W, H uint16 `json:",omitempty"` // of a keyframe
	SX   uint8  `json:",omitempty"` // scaling bits of width and height
	N    int    // payload size
	P    []int  `json:",omitempty"` // sizes of all packets but the last
	Q    []int  `json:",omitempty"` // packets that start a further partition
	D    uint32 // RTP timestamp minus that of the frame before
	G    int    `json:",omitempty"` // milliseconds between the frame before and this one
	I    []int  `json:",omitempty"` // milliseconds before each packet but the first
	Pad  int    `json:",omitempty"` // padding-only packets that follow
	L    []int  `json:",omitempty"` // packets that are lost (index; padding after the payload packets)
}

// VStream is a VP8 stream.
type VStream struct {
	Seq   uint16
	Ts    uint32
	Pic   int    // 0: no picture ids, 7 or 15 bits
	PicID uint16 `json:",omitempty"`
	Tl0   bool   `json:",omitempty"`
	Tid   bool   `json:",omitempty"`
	Kidx  bool   `json:",omitempty"`
	Tag   uint32 `json:",omitempty"` // streams with different tags have different contents
	F     []VFrame
}

// Pkt is a packet of a stream.
type Pkt struct {
	P      *rtp.Packet
	Video  bool
	Frame  int // index of the frame or audio packet
	Index  int
	First  bool
	Last   bool // carries the marker
	Pad    bool
	Lost   bool
	At     int // milliseconds
	AbsSeq int64
}

// Frame is what a recording of a frame has to look like.
type Frame struct {
	Data   []byte
	Key    bool
	W, H   int
	Ts     int64 // unwrapped RTP timestamp
	Rtp    uint32
	NPkt   int
	Arrive int // packets that are not lost
	At     int
}

// Body gives the bytes of frame i. The index is in it, so no two are alike.
func (f *VFrame) Body(i int, tag uint32) []byte {
	n := f.N
	if n < 10 {
		n = 10
	}
	b := make([]byte, n)
	x := uint32(i)*2654435761 + 12345 + tag*2246822519
	for j := range b {
		x = x*1664525 + 1013904223
		b[j] = byte(x >> 24)
	}
	if f.K {
		b[0] &^= 1
		b[3], b[4], b[5] = 0x9d, 0x01, 0x2a
		binary.LittleEndian.PutUint16(b[6:], f.W&0x3fff|uint16(f.SX&3)<<14)
		binary.LittleEndian.PutUint16(b[8:], f.H&0x3fff|uint16(f.SX>>2&3)<<14)
	} else {
		b[0] |= 1
	}
	binary.LittleEndian.PutUint16(b[1:], uint16(i))
	return b
}

// Compile packetises the stream.
func (s *VStream) Compile() (frames []Frame, pkts []Pkt) {
	seq := int64(s.Seq)
	abs := int64(s.Ts)
	at := 0
	for i := range s.F {
		f := &s.F[i]
		abs += int64(f.D)
		at += f.G
		body := f.Body(i, s.Tag)
		fr := Frame{Data: body, Key: f.K, W: int(f.W & 0x3fff), H: int(f.H & 0x3fff), Ts: abs, Rtp: uint32(abs), At: at}
		var parts [][]byte
		rest := body
		for _, n := range f.P {
			if n < 1 || n >= len(rest) {
				continue
			}
			parts = append(parts, rest[:n])
			rest = rest[n:]
		}
		parts = append(parts, rest)
		lost := map[int]bool{}
		for _, l := range f.L {
			lost[l] = true
		}
		newPart := map[int]bool{}
		for _, q := range f.Q {
			newPart[q] = q > 0
		}
		pid := byte(0)
		fr.NPkt = len(parts)
		for j, p := range parts {
			if j > 0 && j-1 < len(f.I) {
				at += f.I[j-1]
			}
			s1 := j == 0
			if newPart[j] && pid < 7 {
				pid++
				s1 = true
			}
			d := s.descriptor(i, s1, pid)
			k := Pkt{P: &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 96, SequenceNumber: uint16(seq), Timestamp: uint32(abs), Marker: j == len(parts)-1, SSRC: 1111},
				Payload: append(d, p...)}, Video: true, Frame: i, Index: j, First: j == 0, Last: j == len(parts)-1, Lost: lost[j], At: at, AbsSeq: seq}
			if !k.Lost {
				fr.Arrive++
			}
			pkts = append(pkts, k)
			seq++
		}
		for j := 0; j < f.Pad; j++ {
			pkts = append(pkts, Pkt{P: &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 96, SequenceNumber: uint16(seq), Timestamp: uint32(abs), SSRC: 1111}},
				Video: true, Frame: i, Index: len(parts) + j, Pad: true, Lost: lost[len(parts)+j], At: at, AbsSeq: seq})
			seq++
		}
		frames = append(frames, fr)
	}
	return
}

func (s *VStream) descriptor(frame int, start bool, pid byte) []byte {
	b0 := pid & 7
	if start {
		b0 |= 0x10
	}
	if frame%3 == 2 {
		b0 |= 0x20 // N
	}
	if s.Pic == 0 && !s.Tl0 && !s.Tid && !s.Kidx {
		return []byte{b0}
	}
	var ext byte
	var tail []byte
	id := s.PicID + uint16(frame)
	switch s.Pic {
	case 7:
		ext |= 0x80
		tail = append(tail, byte(id&0x7f))
	case 15:
		ext |= 0x80
		tail = append(tail, 0x80|byte(id>>8&0x7f), byte(id))
	}
	if s.Tl0 {
		ext |= 0x40
		tail = append(tail, byte(frame))
	}
	if s.Tid || s.Kidx {
		if s.Tid {
			ext |= 0x20
		}
		if s.Kidx {
			ext |= 0x10
		}
		tail = append(tail, byte(frame*37))
	}
	return append([]byte{b0 | 0x80, ext}, tail...)
}

// AFrame is one Opus packet.
type AFrame struct {
	N int    // payload size
	D uint32 // RTP timestamp minus that of the packet before
	G int    `json:",omitempty"` // milliseconds before it
	L bool   `json:",omitempty"` // lost
}

type AStream struct {
	Seq uint16
	Ts  uint32
	Tag uint32 `json:",omitempty"`
	F   []AFrame
}

func (f *AFrame) Body(i int, tag uint32) []byte {
	b := make([]byte, max(f.N, 4))
	x := uint32(i)*747796405 + 77 + tag*2246822519
	for j := range b {
		x = x*1664525 + 1013904223
		b[j] = byte(x >> 24)
	}
	binary.LittleEndian.PutUint32(b, uint32(i)+0x51000000)
	return b
}

func (s *AStream) Compile() (frames []Frame, pkts []Pkt) {
	seq, abs, at := int64(s.Seq), int64(s.Ts), 0
	for i := range s.F {
		f := &s.F[i]
		abs += int64(f.D)
		at += f.G
		fr := Frame{Data: f.Body(i, s.Tag), Ts: abs, Rtp: uint32(abs), NPkt: 1, At: at}
		if !f.L {
			fr.Arrive = 1
		}
		frames = append(frames, fr)
		pkts = append(pkts, Pkt{P: &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 111, SequenceNumber: uint16(seq), Timestamp: uint32(abs), SSRC: 2222}, Payload: fr.Data},
			Frame: i, First: true, Last: true, Lost: f.L, At: at, AbsSeq: seq})
		seq++
	}
	return
}

// Clone copies a packet (the code under test may keep what it is given).
func Clone(p *rtp.Packet) *rtp.Packet {
	q := *p
	q.Payload = append([]byte(nil), p.Payload...)
	return &q
}

// VOpts bounds a generated stream.
type VOpts struct {
	MinFrames, MaxFrames int
	Loss                 bool
	Pad                  bool
	Parts                bool
	MaxSize              int
	MaxPkts              int
	KeyFirst             bool // the first frame is a keyframe
	Gaps                 bool // pauses between frames
	BigTs                bool // arbitrary frame spacing
	Intra                bool // time passes inside frames
	Pics                 []int
	KeyEvery             int // about one keyframe in so many
	NoSmallKey           bool
	RealTime             bool // timestamps advance with arrival
}

// GenV draws a stream.
func GenV(t *rapid.T, o VOpts) VStream {
	pics := o.Pics
	if pics == nil {
		pics = []int{15, 15, 7, 0}
	}
	s := VStream{
		Seq: rapid.OneOf(rapid.Uint16Range(65500, 65535), rapid.Just(uint16(0)), rapid.Uint16()).Draw(t, "seq"),
		Ts:  rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-200000, 1<<32-1), rapid.Just(uint32(0))).Draw(t, "ts"),
		Pic: rapid.SampledFrom(pics).Draw(t, "pic"),
		Tl0: rapid.Bool().Draw(t, "tl0"), Tid: rapid.Bool().Draw(t, "tid"), Kidx: rapid.Bool().Draw(t, "kidx"),
	}
	s.PicID = rapid.OneOf(rapid.Just(uint16(0)), rapid.Uint16Range(100, 127), rapid.Uint16Range(0x7fe0, 0x7fff), rapid.Uint16Range(0, 0x7fff)).Draw(t, "picid")
	n := rapid.IntRange(o.MinFrames, o.MaxFrames).Draw(t, "frames")
	every := o.KeyEvery
	if every == 0 {
		every = 6
	}
	base := rapid.SampledFrom([]uint32{3000, 3003, 2970, 3750, 6006, 90, 4500}).Draw(t, "spacing")
	maxSize := o.MaxSize
	if maxSize == 0 {
		maxSize = 400
	}
	maxPkts := o.MaxPkts
	if maxPkts == 0 {
		maxPkts = 5
	}
	lossN := 0
	if o.Loss {
		lossN = rapid.SampledFrom([]int{5, 11, 23, 59}).Draw(t, "lossrate")
	}
	keyFirst := o.KeyFirst || rapid.IntRange(0, 3).Draw(t, "keyfirst") > 0
	for i := 0; i < n; i++ {
		f := VFrame{D: base, G: int(base / 90)}
		if i == 0 {
			f.D, f.G = 0, 0
		}
		f.K = i == 0 && keyFirst || rapid.IntRange(0, every-1).Draw(t, "key") == 0
		if f.K {
			f.W = rapid.OneOf(rapid.SampledFrom([]uint16{16, 640, 1280, 320, 8192, 176, 17}), rapid.Uint16Range(16, 8192)).Draw(t, "w")
			f.H = rapid.OneOf(rapid.SampledFrom([]uint16{16, 480, 720, 240, 8192, 144, 17}), rapid.Uint16Range(16, 8192)).Draw(t, "h")
			f.SX = rapid.Uint8Range(0, 15).Draw(t, "scale")
		}
		if o.BigTs && rapid.IntRange(0, 4).Draw(t, "bigts") == 0 && i > 0 {
			f.D = rapid.OneOf(rapid.Uint32Range(0, 200), rapid.Uint32Range(1, 90000*40), rapid.Uint32Range(1, 90000*3600)).Draw(t, "d")
		}
		if o.Gaps && rapid.IntRange(0, 6).Draw(t, "gap") == 0 {
			f.G = rapid.SampledFrom([]int{0, 200, 900, 1000, 1001, 1100, 2500, 5000}).Draw(t, "g")
			if o.RealTime {
				f.D = uint32(f.G * 90)
			}
		}
		f.N = rapid.OneOf(rapid.IntRange(10, maxSize), rapid.IntRange(10, 40)).Draw(t, "size")
		np := rapid.IntRange(1, maxPkts).Draw(t, "pkts")
		for j := 1; j < np; j++ {
			hi := f.N / np
			if hi < 1 {
				break
			}
			sz := rapid.OneOf(rapid.IntRange(1, min(hi, 12)), rapid.IntRange(1, hi)).Draw(t, "psize")
			f.P = append(f.P, sz)
			if o.Parts && rapid.IntRange(0, 4).Draw(t, "part") == 0 {
				f.Q = append(f.Q, j)
			}
			if o.Intra && rapid.IntRange(0, 5).Draw(t, "intra") == 0 {
				f.I = append(f.I, rapid.SampledFrom([]int{1, 10, 50, 200}).Draw(t, "i"))
			} else if o.Intra {
				f.I = append(f.I, 0)
			}
		}
		np = len(f.P) + 1
		if o.Pad && rapid.IntRange(0, 6).Draw(t, "pad") == 0 {
			f.Pad = rapid.IntRange(1, 3).Draw(t, "npad")
		}
		if o.Loss {
			switch rapid.IntRange(0, lossN).Draw(t, "loss") {
			case 0: // one packet
				f.L = []int{rapid.IntRange(0, np+f.Pad-1).Draw(t, "l")}
			case 1: // the tail
				f.L = []int{np - 1}
			case 2: // the head
				f.L = []int{0}
			case 3: // everything
				for j := 0; j < np+f.Pad; j++ {
					f.L = append(f.L, j)
				}
			}
		}
		s.F = append(s.F, f)
	}
	return s
}

// AOpts bounds a generated audio stream.
type AOpts struct {
	Min, Max int
	Loss     bool
	Gaps     bool
	Bursts   []int // lengths of losses in a row to choose from
}

func GenA(t *rapid.T, o AOpts) AStream {
	s := AStream{
		Seq: rapid.OneOf(rapid.Uint16Range(65500, 65535), rapid.Just(uint16(0)), rapid.Uint16()).Draw(t, "aseq"),
		Ts:  rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-50000, 1<<32-1), rapid.Just(uint32(0))).Draw(t, "ats"),
	}
	n := rapid.IntRange(o.Min, o.Max).Draw(t, "apackets")
	base := rapid.SampledFrom([]uint32{960, 960, 480, 120, 2880, 1920, 961}).Draw(t, "aspacing")
	for i := 0; i < n; i++ {
		f := AFrame{D: base, G: int(base / 48), N: rapid.IntRange(4, 60).Draw(t, "asize")}
		if i == 0 {
			f.D, f.G = 0, 0
		}
		if o.Gaps && rapid.IntRange(0, 9).Draw(t, "dtx") == 0 {
			f.D = rapid.OneOf(rapid.Uint32Range(1, 48000*5), rapid.Uint32Range(1, 48000*300)).Draw(t, "ad")
		}
		if o.Loss && rapid.IntRange(0, 9).Draw(t, "aloss") == 0 {
			f.L = true
		}
		s.F = append(s.F, f)
	}
	if len(o.Bursts) > 0 {
		for k := rapid.IntRange(1, 4).Draw(t, "bursts"); k > 0; k-- {
			at := rapid.IntRange(1, len(s.F)).Draw(t, "burstat")
			l := rapid.SampledFrom(o.Bursts).Draw(t, "burst")
			for j := at; j < at+l && j < len(s.F); j++ {
				s.F[j].L = true
			}
		}
	}
	return s
}

// First is the number of packets of the first frame.
func (s *VStream) First() int {
	_, p := s.Compile()
	n := 0
	for n < len(p) && p[n].Frame == 0 {
		n++
	}
	return n
}
