// Package media has independent readers of the files and writers of the streams.
package media

import (
	"encoding/binary"
	"fmt"
	"math"
)

// An independent, tolerant WebM parser: a truncated tail is reported, anything
// else that does not fit is an error.

type Track struct {
	Num, Type, W, H, Channels uint64
	Codec                     string
	Rate                      float64
}

type Block struct {
	Track   uint64
	T       int64 // milliseconds
	Key     bool
	Data    []byte
	Cluster int
	End     int // offset of its last byte + 1
}

type File struct {
	HeaderOK  bool
	HeaderEnd int
	DocType   string
	Scale     uint64
	Tracks    []Track
	Blocks    []Block
	Clusters  int
	Truncated bool
	Err       error
}

func (f *File) Track(typ uint64) *Track {
	for i := range f.Tracks {
		if f.Tracks[i].Type == typ {
			return &f.Tracks[i]
		}
	}
	return nil
}

func (f *File) Of(typ uint64) []Block {
	tr := f.Track(typ)
	var out []Block
	if tr == nil {
		return nil
	}
	for _, b := range f.Blocks {
		if b.Track == tr.Num {
			out = append(out, b)
		}
	}
	return out
}

type short struct{}

type reader struct {
	b   []byte
	pos int
}

func (r *reader) need(n int) {
	if n < 0 || r.pos+n > len(r.b) {
		panic(short{})
	}
}

func (r *reader) id() uint32 {
	r.need(1)
	n := 1
	for m := byte(0x80); n <= 4 && r.b[r.pos]&m == 0; m >>= 1 {
		n++
	}
	if n > 4 {
		panic(fmt.Errorf("bad element id at %d: %x", r.pos, r.b[r.pos]))
	}
	r.need(n)
	v := uint32(0)
	for i := 0; i < n; i++ {
		v = v<<8 | uint32(r.b[r.pos+i])
	}
	r.pos += n
	return v
}

// vint returns the size and whether it is "unknown"
func (r *reader) vint() (uint64, bool) {
	r.need(1)
	n := 1
	m := byte(0x80)
	for ; n <= 8 && r.b[r.pos]&m == 0; m >>= 1 {
		n++
	}
	if n > 8 {
		panic(fmt.Errorf("bad size at %d", r.pos))
	}
	r.need(n)
	v := uint64(r.b[r.pos] &^ m)
	all := r.b[r.pos]|^(m-1) == 0xff && r.b[r.pos]&(m-1) == m-1
	for i := 1; i < n; i++ {
		v = v<<8 | uint64(r.b[r.pos+i])
		all = all && r.b[r.pos+i] == 0xff
	}
	r.pos += n
	return v, all
}

func uintOf(b []byte) uint64 {
	v := uint64(0)
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func floatOf(b []byte) float64 {
	switch len(b) {
	case 4:
		return float64(math.Float32frombits(binary.BigEndian.Uint32(b)))
	case 8:
		return math.Float64frombits(binary.BigEndian.Uint64(b))
	}
	return 0
}

func (r *reader) bytes() []byte {
	n, unk := r.vint()
	if unk {
		panic(fmt.Errorf("unexpected unknown size at %d", r.pos))
	}
	if n > 1<<31 {
		panic(fmt.Errorf("absurd size %d at %d", n, r.pos))
	}
	r.need(int(n))
	b := r.b[r.pos : r.pos+int(n)]
	r.pos += int(n)
	return b
}

func children(b []byte, f func(id uint32, data []byte)) {
	r := &reader{b: b}
	for r.pos < len(b) {
		id := r.id()
		f(id, r.bytes())
	}
}

func ParseWebm(b []byte) (f *File) {
	f = &File{}
	r := &reader{b: b}
	defer func() {
		switch p := recover().(type) {
		case nil:
		case short:
			f.Truncated = true
		case error:
			f.Err = p
		default:
			panic(p)
		}
	}()
	if id := r.id(); id != 0x1A45DFA3 {
		panic(fmt.Errorf("no EBML header: %x", id))
	}
	hdr := r.bytes()
	nested(hdr, func() {
		children(hdr, func(id uint32, d []byte) {
			if id == 0x4282 {
				f.DocType = string(d)
			}
		})
	})
	if id := r.id(); id != 0x18538067 {
		panic(fmt.Errorf("no segment: %x", id))
	}
	r.vint()
	f.Scale = 1000000
	clusterT := int64(-1)
	inCluster := false
	for r.pos < len(b) {
		start := r.pos
		id := r.id()
		switch id {
		case 0x1F43B675:
			r.vint()
			inCluster = true
			clusterT = -1
			f.Clusters++
			continue
		case 0x1549A966, 0x1654AE6B, 0x114D9B74, 0x1C53BB6B, 0xEC, 0xBF:
			d := r.bytes()
			if id == 0x1549A966 {
				inCluster = false
				nested(d, func() {
					children(d, func(id uint32, d []byte) {
						if id == 0x2AD7B1 {
							f.Scale = uintOf(d)
						}
					})
				})
			}
			if id == 0x1654AE6B {
				inCluster = false
				if f.HeaderOK {
					panic(fmt.Errorf("second Tracks element at %d", start))
				}
				nested(d, func() { f.parseTracks(d) })
				f.HeaderOK = true
				f.HeaderEnd = r.pos
			}
			continue
		}
		if !inCluster {
			panic(fmt.Errorf("element %x outside a cluster at %d", id, start))
		}
		d := r.bytes()
		switch id {
		case 0xE7:
			clusterT = int64(uintOf(d))
		case 0xAB, 0xA7:
		case 0xA3:
			if clusterT < 0 {
				panic(fmt.Errorf("block before the cluster's timecode at %d", start))
			}
			nested(d, func() {
				br := &reader{b: d}
				tn, _ := br.vint()
				br.need(3)
				rel := int16(binary.BigEndian.Uint16(d[br.pos:]))
				fl := d[br.pos+2]
				if fl&0x06 != 0 {
					panic(fmt.Errorf("laced block at %d", start))
				}
				known := false
				for _, t := range f.Tracks {
					known = known || t.Num == tn
				}
				if !known {
					panic(fmt.Errorf("block of undeclared track %d at %d", tn, start))
				}
				f.Blocks = append(f.Blocks, Block{Track: tn, T: clusterT + int64(rel), Key: fl&0x80 != 0, Data: d[br.pos+3:], Cluster: f.Clusters, End: r.pos})
			})
		default:
			panic(fmt.Errorf("unknown element %x in a cluster at %d", id, start))
		}
	}
	return f
}

// inside an element that is complete nothing may be cut short
func nested(d []byte, g func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(short); ok {
				panic(fmt.Errorf("element shorter than its contents: % x", trunc(d, 40)))
			}
			panic(p)
		}
	}()
	g()
}

func trunc(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func (f *File) parseTracks(d []byte) {
	children(d, func(id uint32, d []byte) {
		if id != 0xAE {
			return
		}
		t := Track{}
		children(d, func(id uint32, d []byte) {
			switch id {
			case 0xD7:
				t.Num = uintOf(d)
			case 0x83:
				t.Type = uintOf(d)
			case 0x86:
				t.Codec = string(d)
			case 0xE0:
				children(d, func(id uint32, d []byte) {
					switch id {
					case 0xB0:
						t.W = uintOf(d)
					case 0xBA:
						t.H = uintOf(d)
					}
				})
			case 0xE1:
				children(d, func(id uint32, d []byte) {
					switch id {
					case 0xB5:
						t.Rate = floatOf(d)
					case 0x9F:
						t.Channels = uintOf(d)
					}
				})
			}
		})
		f.Tracks = append(f.Tracks, t)
	})
}

// ---------------------------------------------------------------- IVF

type IVF struct {
	FourCC     string
	W, H       uint16
	Den, Num   uint32
	Count      uint32
	Frames     [][]byte
	Times      []uint64
	HeaderSize uint16
}

func ParseIVF(b []byte) (*IVF, error) {
	if len(b) < 32 || string(b[:4]) != "DKIF" {
		return nil, fmt.Errorf("no IVF header in %d bytes", len(b))
	}
	f := &IVF{FourCC: string(b[8:12]), W: binary.LittleEndian.Uint16(b[12:]), H: binary.LittleEndian.Uint16(b[14:]),
		Den: binary.LittleEndian.Uint32(b[16:]), Num: binary.LittleEndian.Uint32(b[20:]), Count: binary.LittleEndian.Uint32(b[24:]),
		HeaderSize: binary.LittleEndian.Uint16(b[6:])}
	if f.HeaderSize != 32 {
		return nil, fmt.Errorf("IVF header size %d", f.HeaderSize)
	}
	for p := 32; p < len(b); {
		if p+12 > len(b) {
			return nil, fmt.Errorf("truncated IVF frame header at %d", p)
		}
		n := int(binary.LittleEndian.Uint32(b[p:]))
		ts := binary.LittleEndian.Uint64(b[p+4:])
		p += 12
		if p+n > len(b) {
			return nil, fmt.Errorf("truncated IVF frame at %d: %d bytes", p, n)
		}
		f.Frames = append(f.Frames, b[p:p+n])
		f.Times = append(f.Times, ts)
		p += n
	}
	return f, nil
}
