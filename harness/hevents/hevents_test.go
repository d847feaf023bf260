// Package hevents checks the decoding and encoding of control messages (C26).
package hevents

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	log "github.com/sirupsen/logrus"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
)

func TestMain(m *testing.M) {
	log.SetLevel(log.PanicLevel)
	os.Exit(m.Run())
}

// ------------------------------------------------------------ JSON5 rendering

// val is a JSON value: nil, bool, string, num (already spelled), list or obj.
type num string
type list []any
type kv struct {
	K string
	V any
}
type obj []kv

// spell renders values in random JSON5 spellings.
type spell struct {
	t     *rapid.T
	b     strings.Builder
	plain bool // strict JSON
	label map[string]bool
}

func (s *spell) n(max int, what string) int { return rapid.IntRange(0, max).Draw(s.t, what) }

func (s *spell) ws() {
	if s.plain {
		return
	}
	for i := s.n(9, "ws") - 6; i > 0; i-- {
		switch s.n(5, "kind of space") {
		case 0:
			s.b.WriteString(" ")
		case 1:
			s.b.WriteString("\n")
		case 2:
			s.b.WriteString("\t")
		case 3:
			s.b.WriteString("\r\n")
		case 4:
			s.b.WriteString(" //" + rapid.SampledFrom([]string{"", " a comment", " 'quoted\" {[", " \"id\": 'x',", " ünï", " // again", " }"}).Draw(s.t, "line comment") + "\n")
			s.label["comment"] = true
		case 5:
			s.b.WriteString(" /*" + rapid.SampledFrom([]string{"", " a comment ", "'\"", "\n id: 'y',\n", "}", "//"}).Draw(s.t, "block comment") + "*/")
			s.label["comment"] = true
		}
	}
}

func (s *spell) str(v string) {
	q := byte('"')
	if !s.plain && s.n(1, "quote") == 1 {
		q = '\''
		s.label["single quotes"] = true
	}
	s.b.WriteByte(q)
	for _, r := range v {
		switch {
		case r == rune(q) || r == '\\':
			s.b.WriteByte('\\')
			s.b.WriteRune(r)
		case r < 0x20:
			short := map[rune]string{'\n': "\\n", '\r': "\\r", '\t': "\\t", '\b': "\\b", '\f': "\\f"}[r]
			if short != "" && s.n(1, "short escape") == 1 {
				s.b.WriteString(short)
			} else {
				fmt.Fprintf(&s.b, "\\u%04x", r)
			}
		case s.n(15, "escape") == 15 && r < 0x10000:
			fmt.Fprintf(&s.b, "\\u%04X", r)
		case r >= 0x10000 && s.n(3, "surrogates") == 3:
			r -= 0x10000
			fmt.Fprintf(&s.b, "\\u%04x\\u%04x", 0xD800+(r>>10), 0xDC00+(r&0x3ff))
		case r == '/' && s.n(3, "slash") == 3:
			s.b.WriteString("\\/")
		case !s.plain && (r == '"' || r == '\'') && s.n(1, "other quote") == 1:
			s.b.WriteByte('\\')
			s.b.WriteRune(r)
		default:
			s.b.WriteRune(r)
		}
	}
	s.b.WriteByte(q)
}

func identifier(k string) bool {
	for i := 0; i < len(k); i++ {
		c := k[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return k != ""
}

func (s *spell) val(v any) {
	s.ws()
	switch v := v.(type) {
	case nil:
		s.b.WriteString("null")
	case bool:
		s.b.WriteString(strconv.FormatBool(v))
	case string:
		s.str(v)
	case num:
		s.b.WriteString(string(v))
	case list:
		s.b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				s.b.WriteByte(',')
			}
			s.val(e)
			s.ws()
		}
		s.comma(len(v))
		s.b.WriteByte(']')
	case obj:
		s.b.WriteByte('{')
		for i, e := range v {
			if i > 0 {
				s.b.WriteByte(',')
			}
			s.ws()
			if !s.plain && identifier(e.K) && s.n(1, "unquoted") == 1 {
				s.b.WriteString(e.K)
				if s.n(3, "space after key") == 3 {
					s.b.WriteByte(' ')
				}
				s.label["unquoted key"] = true
			} else {
				s.str(e.K)
				s.ws()
			}
			s.b.WriteByte(':')
			s.val(e.V)
			s.ws()
		}
		s.comma(len(v))
		s.b.WriteByte('}')
	}
}

func (s *spell) comma(n int) {
	if !s.plain && n > 0 && s.n(2, "trailing comma") == 2 {
		s.b.WriteByte(',')
		s.ws()
		s.label["trailing comma"] = true
	}
}

var strs = rapid.OneOf(
	rapid.StringMatching(`[a-zA-Z0-9_./ -]{0,20}`),
	rapid.SampledFrom([]string{"", "id", "startRecording", "null", "//", "/* x */", "}", "',\"", "\\", "\\u0041", "\x00\x1f", "v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\n", "日本語", "😀", "\u2028", "<>&", strings.Repeat("a", 3000)}),
	rapid.String(),
)

func genStr(t *rapid.T, what string) string {
	s := strs.Draw(t, what)
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

var extraNames = []string{"x", "extra", "_a", "$", "timestamp", "meta data", "", "sessionId", "id2", "é", "options", "x-y"}

func genExtra(t *rapid.T, depth int, plain bool) any {
	k := 6
	if depth <= 0 {
		k = 4
	}
	switch rapid.IntRange(0, k).Draw(t, "kind of extra") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2, 3:
		n := []num{"0", "-1", "17", "1.5", "-2e3", "123456789012345"}
		if !plain {
			n = append(n, "0x1F", "+1", ".5", "5.", "Infinity", "-Infinity", "NaN", "+.5e1", "0XaB")
		}
		return rapid.SampledFrom(n).Draw(t, "number")
	case 4:
		return genStr(t, "extra string")
	case 5:
		var l list
		for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
			l = append(l, genExtra(t, depth-1, plain))
		}
		return l
	default:
		var o obj
		for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
			o = append(o, kv{fmt.Sprintf("%s%d", rapid.SampledFrom(extraNames).Draw(t, "name"), i), genExtra(t, depth-1, plain)})
		}
		return o
	}
}

// ------------------------------------------------------------ spelling facet

type spellCase struct {
	Text   []byte
	Kind   string
	Id     string
	Sid    string
	File   string
	Adp    string
	SDP    string
	HasOpt bool
	HasMS  bool
	MSSDP  string
	HasLK  bool
	Room   string
	Tracks []string
	Status string
	Err    *string
	RSDP   *string
	RFile  *string
	Ver    string
	Inst   string
	Ts     int64
	Labels []string
}

func shuffle(t *rapid.T, o obj) obj {
	if len(o) < 2 {
		return o
	}
	return rapid.Permutation([]kv(o)).Draw(t, "order")
}

func addExtras(t *rapid.T, o obj, plain bool, c *spellCase) obj {
	for i := rapid.IntRange(0, 3).Draw(t, "extras") - 1; i > 0; i-- {
		o = append(o, kv{fmt.Sprintf("%s%d", rapid.SampledFrom(extraNames).Draw(t, "extra name"), i), genExtra(t, 2, plain)})
		c.Labels = append(c.Labels, "extra fields")
	}
	return shuffle(t, o)
}

func genSpell(t *rapid.T) spellCase {
	plain := rapid.IntRange(0, 5).Draw(t, "plain") == 0
	c := spellCase{}
	c.Id = rapid.SampledFrom([]string{"startRecording", "startRecording", "startRecording", "stopRecording", "getRecorderStatus", "startRecordingResponse", "recorderStatus", "other", ""}).Draw(t, "id")
	if c.Id == "other" {
		c.Id = rapid.SampledFrom([]string{"startrecording", "StartRecording", "recordingStopped", "startRecording ", "x", "stop", "日本"}).Draw(t, "other id")
		c.Kind = "other"
	} else if c.Id == "" {
		c.Kind = "other"
	} else {
		c.Kind = c.Id
	}
	o := obj{{"id", c.Id}}
	str := func(name string, p *string, emptyOk bool) kv {
		*p = genStr(t, name)
		return kv{name, *p}
	}
	maybe := func(what string) bool { return rapid.IntRange(0, 3).Draw(t, what) > 0 }
	switch c.Kind {
	case "startRecording":
		if maybe("has session id") {
			o = append(o, str("recordingSessionId", &c.Sid, true))
		}
		if maybe("has file") {
			o = append(o, str("fileName", &c.File, true))
		}
		if maybe("has adapter") {
			c.Adp = rapid.SampledFrom([]string{"mediasoup", "livekit", "", "Mediasoup", "janus"}).Draw(t, "adapter")
			o = append(o, kv{"adapter", c.Adp})
		}
		if maybe("has sdp") {
			o = append(o, str("sdp", &c.SDP, true))
		} else if rapid.IntRange(0, 4).Draw(t, "null sdp") == 0 {
			o = append(o, kv{"sdp", nil})
		}
		if maybe("has options") {
			c.HasOpt = true
			var op obj
			if maybe("has mediasoup") {
				c.HasMS = true
				var m obj
				if maybe("has options sdp") {
					m = append(m, str("sdp", &c.MSSDP, true))
				}
				op = append(op, kv{"mediasoup", addExtras(t, m, plain, &c)})
			}
			if maybe("has livekit") {
				c.HasLK = true
				var l obj
				if maybe("has room") {
					l = append(l, str("room", &c.Room, true))
				}
				if maybe("has tracks") {
					var tr list
					for i := rapid.IntRange(0, 4).Draw(t, "tracks"); i > 0; i-- {
						s := genStr(t, "track")
						tr = append(tr, s)
						c.Tracks = append(c.Tracks, s)
					}
					l = append(l, kv{"trackIds", tr})
				}
				op = append(op, kv{"livekit", addExtras(t, l, plain, &c)})
			}
			o = append(o, kv{"adapterOptions", addExtras(t, op, plain, &c)})
		}
	case "stopRecording":
		o = append(o, str("recordingSessionId", &c.Sid, true))
	case "startRecordingResponse":
		o = append(o, str("recordingSessionId", &c.Sid, true))
		c.Status = rapid.SampledFrom([]string{"ok", "failed", "", "x"}).Draw(t, "status")
		o = append(o, kv{"status", c.Status})
		for _, f := range []struct {
			n string
			p **string
		}{{"error", &c.Err}, {"sdp", &c.RSDP}, {"fileName", &c.RFile}} {
			if maybe("has " + f.n) {
				s := genStr(t, f.n)
				*f.p = &s
				o = append(o, kv{f.n, s})
			}
		}
	case "recorderStatus":
		o = append(o, str("appVersion", &c.Ver, true), str("instanceId", &c.Inst, true))
		c.Ts = rapid.Int64Range(0, 1<<50).Draw(t, "ts")
		o = append(o, kv{"timestamp", num(strconv.FormatInt(c.Ts, 10))})
	}
	o = addExtras(t, o, plain, &c)
	s := &spell{t: t, plain: plain, label: map[string]bool{}}
	s.val(o)
	s.ws()
	c.Text = []byte(s.b.String())
	for l := range s.label {
		c.Labels = append(c.Labels, l)
	}
	return c
}

func runSpell(c spellCase, r *core.Rec) error {
	for _, l := range c.Labels {
		r.Label(l)
	}
	r.Label(c.Kind)
	r.NonTrivialIf(len(c.Labels) > 0)
	e := events.Decode(c.Text)
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\nmessage: %s", fmt.Sprintf(f, a...), trunc(c.Text))
	}
	if c.Kind == "other" {
		if e != nil && e.Id != c.Id {
			return fail("the event has id %q, not %q", e.Id, c.Id)
		}
		if e.StartRecording() != nil || e.StopRecording() != nil || e.GetRecorderStatus() != nil || e.StartRecordingResponse() != nil {
			return fail("a message with id %q was decoded as another message", c.Id)
		}
		if c.Id == "" && e.IsValid() {
			return fail("a message with an empty id is valid")
		}
		return nil
	}
	if e == nil || !e.IsValid() || e.Id != c.Id {
		return fail("not decoded as a %s: %+v", c.Id, e)
	}
	if err := onlyTyped(e, c.Kind); err != nil {
		return fail("%v", err)
	}
	switch c.Kind {
	case "startRecording":
		s := e.StartRecording()
		if s.Id != c.Id || s.SessionId != c.Sid || s.FileName != c.File || string(s.Adapter) != c.Adp || s.SDP != c.SDP {
			return fail("decoded as %+v", s)
		}
		if (s.AdapterOptions != nil) != c.HasOpt {
			return fail("adapterOptions present=%v", s.AdapterOptions != nil)
		}
		if c.HasOpt {
			o := s.AdapterOptions
			if (o.Mediasoup != nil) != c.HasMS || (o.LiveKit != nil) != c.HasLK {
				return fail("adapterOptions decoded as %+v", o)
			}
			if c.HasMS && o.Mediasoup.SDP != c.MSSDP {
				return fail("mediasoup sdp decoded as %q", o.Mediasoup.SDP)
			}
			if c.HasLK && (o.LiveKit.Room != c.Room || len(o.LiveKit.TrackIDs) != len(c.Tracks) || len(c.Tracks) > 0 && !reflect.DeepEqual(o.LiveKit.TrackIDs, c.Tracks)) {
				return fail("livekit decoded as %+v", o.LiveKit)
			}
		}
		want := c.SDP
		if c.MSSDP != "" {
			want = c.MSSDP
		}
		if g := s.GetSDP(); g != want {
			return fail("the SDP to use is %q, want %q", g, want)
		}
		ok := true
		switch c.Adp {
		case "livekit":
			ok = c.HasLK && c.Room != "" && len(c.Tracks) > 0
		case "", "mediasoup":
			ok = want != ""
		default:
			if c.SDP != "" {
				ok = s.Validate() == nil // undocumented
			} else {
				ok = false
			}
		}
		if err := s.Validate(); (err == nil) != ok {
			return fail("Validate returned %v", err)
		}
		r.LabelIf(ok, "valid start")
	case "stopRecording":
		if s := e.StopRecording(); s.Id != c.Id || s.SessionId != c.Sid {
			return fail("decoded as %+v", s)
		}
	case "getRecorderStatus":
		if s := e.GetRecorderStatus(); s.Id != c.Id {
			return fail("decoded as %+v", s)
		}
	case "startRecordingResponse":
		s := e.StartRecordingResponse()
		if s.Id != c.Id || s.SessionId != c.Sid || s.Status != c.Status || !eq(s.Error, c.Err) || !eq(s.SDP, c.RSDP) || !eq(s.FileName, c.RFile) {
			return fail("decoded as %+v", s)
		}
		bad := c.Sid == "" || c.Status == "ok" && (c.Err != nil || c.RFile == nil) || c.Status == "failed" && (c.Err == nil || c.RSDP != nil) || c.Status != "ok" && c.Status != "failed"
		if err := s.Validate(); (err != nil) != bad {
			return fail("Validate returned %v", err)
		}
	case "recorderStatus":
		s, ok := e.Data.(*events.RecorderStatus)
		if !ok || s.Id != c.Id || s.AppVersion != c.Ver || s.InstanceId != c.Inst || s.Timestamp != c.Ts {
			return fail("decoded as %+v", e.Data)
		}
	}
	return nil
}

func eq(a, b *string) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

func trunc(b []byte) string {
	if len(b) > 2000 {
		return string(b[:2000]) + "…"
	}
	return string(b)
}

// onlyTyped demands that exactly the accessor that belongs to the id answers.
func onlyTyped(e *events.Event, id string) error {
	have := map[string]bool{"startRecording": e.StartRecording() != nil, "stopRecording": e.StopRecording() != nil,
		"getRecorderStatus": e.GetRecorderStatus() != nil, "startRecordingResponse": e.StartRecordingResponse() != nil}
	for k, v := range have {
		if v != (k == id) {
			return fmt.Errorf("an event with id %q answers %s()=%v", id, k, v)
		}
	}
	return nil
}

// ------------------------------------------------------------ garbage facet

type garbageCase struct {
	Text []byte
	Kind string
}

func genGarbage(t *rapid.T) garbageCase {
	k := rapid.IntRange(0, 6).Draw(t, "kind of garbage")
	if k == 3 && rapid.IntRange(0, 15).Draw(t, "really deep") != 0 {
		k = 4
	}
	switch k {
	case 0:
		return garbageCase{rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"), "bytes"}
	case 1: // tokens
		toks := []string{"{", "}", "[", "]", ":", ",", "id", "'id'", "\"id\"", "'startRecording'", "\"stopRecording\"", "//", "/*", "*/", "\n", " ", "0x", "+", "-", ".", "e5", "NaN", "Infinity", "null", "true", "\\", "\\u12", "'", "\"", "adapterOptions", "sdp", "\r", "\x00", "1", "\f", "livekit", "trackIds", "error"}
		var b []byte
		for i := rapid.IntRange(0, 25).Draw(t, "tokens"); i > 0; i-- {
			b = append(b, rapid.SampledFrom(toks).Draw(t, "token")...)
		}
		return garbageCase{b, "tokens"}
	case 2: // a wrong type somewhere
		o := obj{{"id", rapid.SampledFrom([]any{"startRecording", "stopRecording", "getRecorderStatus", "startRecordingResponse", "recordingRtpStatusChanged", "recorderStatus", nil, num("1"), list{}, obj{}}).Draw(t, "id")}}
		for _, n := range []string{"recordingSessionId", "fileName", "adapter", "sdp", "status", "error", "timestampUTC", "timestampHR", "timestamp"} {
			if rapid.Bool().Draw(t, "has "+n) {
				o = append(o, kv{n, genExtra(t, 2, false)})
			}
		}
		if rapid.Bool().Draw(t, "has options") {
			o = append(o, kv{"adapterOptions", rapid.SampledFrom([]any{nil, "x", list{obj{}}, obj{{"mediasoup", "x"}}, obj{{"mediasoup", nil}}, obj{{"livekit", obj{{"trackIds", "x"}}}}, obj{{"livekit", obj{{"trackIds", list{num("1"), nil}}}}}}).Draw(t, "options")})
		}
		s := &spell{t: t, label: map[string]bool{}}
		s.val(shuffle(t, o))
		return garbageCase{[]byte(s.b.String()), "wrong types"}
	case 3: // deep nesting
		n := rapid.SampledFrom([]int{10, 1000, 50000, 99998, 100001, 3000000}).Draw(t, "depth")
		open := rapid.SampledFrom([]string{"[", "{a:", "{\"id\":'startRecording',adapterOptions:", "[{x:"}).Draw(t, "opening")
		if len(open)*n > 8<<20 {
			n = (8 << 20) / len(open)
		}
		pre := rapid.SampledFrom([]string{"", "{id:'stopRecording',x:", "{id:'startRecording',adapterOptions:"}).Draw(t, "prefix")
		return garbageCase{append([]byte(pre), bytes.Repeat([]byte(open), n)...), "deep"}
	default: // mutated message
		c := genSpell(t)
		b := c.Text
		for i := rapid.IntRange(1, 6).Draw(t, "mutations"); i > 0 && len(b) > 0; i-- {
			p := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			switch rapid.IntRange(0, 5).Draw(t, "mutation") {
			case 0:
				b = b[:p]
			case 1:
				b = append(append([]byte{}, b[:p]...), b[p+1:]...)
			case 2:
				b = append([]byte{}, b...)
				b[p] = rapid.Byte().Draw(t, "byte")
			case 3:
				ins := rapid.SampledFrom([]string{"{", "}", "[", "]", ",", ":", "'", "\"", "\\", "//", "/*", "*/", "*", "/", "\n", "null", "0x", "\\u", "\x00", "-", "."}).Draw(t, "ins")
				b = append(append(append([]byte{}, b[:p]...), ins...), b[p:]...)
			case 4:
				q := rapid.IntRange(p, min(len(b), p+30)).Draw(t, "to")
				b = append(append([]byte{}, b[:q]...), b[p:]...)
			case 5:
				q := rapid.IntRange(p, min(len(b), p+30)).Draw(t, "to")
				b = append(append([]byte{}, b[:p]...), b[q:]...)
			}
		}
		return garbageCase{b, "mutated"}
	}
}

func runGarbage(c garbageCase, r *core.Rec) error {
	r.Label(c.Kind)
	r.NonTrivial()
	e := events.Decode(c.Text)
	r.LabelIf(e != nil, "decoded")
	// none of this may panic either, whatever Decode returned
	known := map[string]bool{"startRecording": true, "stopRecording": true, "getRecorderStatus": true, "startRecordingResponse": true}
	e.IsValid()
	a, b, g, s := e.StartRecording(), e.StopRecording(), e.GetRecorderStatus(), e.StartRecordingResponse()
	if a != nil {
		a.Validate()
		a.GetSDP()
	}
	if s != nil {
		s.Validate()
	}
	if e == nil {
		if a != nil || b != nil || g != nil || s != nil || e.IsValid() {
			return fmt.Errorf("a nil event answers")
		}
		return nil
	}
	if known[e.Id] {
		if err := onlyTyped(e, e.Id); err != nil {
			return fmt.Errorf("%v\nmessage: %q", err, trunc(c.Text))
		}
	}
	// differential: what encoding/json can read, it must agree with
	var m map[string]json.RawMessage
	d := json.NewDecoder(bytes.NewReader(c.Text))
	if json.Valid(c.Text) && d.Decode(&m) == nil {
		r.Label("strict JSON")
		var id string
		if raw, ok := m["id"]; !ok || json.Unmarshal(raw, &id) != nil || string(raw) == "null" {
			return fmt.Errorf("a message without an id was decoded as %q\nmessage: %q", e.Id, trunc(c.Text))
		}
		if id != e.Id {
			return fmt.Errorf("id %q was decoded as %q\nmessage: %q", id, e.Id, trunc(c.Text))
		}
	} else if json.Valid(c.Text) {
		return fmt.Errorf("a message that is no object was decoded as %q\nmessage: %q", e.Id, trunc(c.Text))
	}
	return nil
}

// ------------------------------------------------------------ round trip facet

type roundCase struct {
	Kind    string
	Sid     string
	A, B    string
	Ts      int64
	Flowing bool
}

func genRound(t *rapid.T) roundCase {
	return roundCase{
		Kind:    rapid.SampledFrom([]string{"success", "fail", "flow", "stopped", "stopped2", "status", "status2"}).Draw(t, "kind"),
		Sid:     genStr(t, "sid"), A: genStr(t, "a"), B: genStr(t, "b"),
		Ts:      rapid.OneOf(rapid.Int64Range(0, 1000000), rapid.SampledFrom([]int64{0, 1, 1 << 40})).Draw(t, "ts"),
		Flowing: rapid.Bool().Draw(t, "flowing")}
}

func runRound(c roundCase, r *core.Rec) error {
	r.Label(c.Kind)
	r.NonTrivialIf(c.Sid != "")
	var v any
	want := map[string]any{}
	set := func(k string, s string) {
		if s != "" {
			want[k] = s
		}
	}
	t0 := time.Now()
	switch c.Kind {
	case "success":
		v = (&events.StartRecording{SessionId: c.Sid}).Success(c.A, c.B)
		want = map[string]any{"id": "startRecordingResponse", "status": "ok", "sdp": c.A, "fileName": c.B}
	case "fail":
		v = (&events.StartRecording{SessionId: c.Sid, SDP: c.A, FileName: c.B}).Fail(fmt.Errorf("%s", c.A))
		want = map[string]any{"id": "startRecordingResponse", "status": "failed", "error": c.A}
	case "flow":
		v = events.NewRecordingRtpStatusChanged(c.Sid, c.Flowing, time.Duration(c.Ts))
		want = map[string]any{"id": "recordingRtpStatusChanged", "status": map[bool]string{true: "flowing", false: "not_flowing"}[c.Flowing], "timestampHR": float64(c.Ts)}
	case "stopped":
		v = events.NewRecordingStopped(c.Sid, c.A, time.Duration(c.Ts))
		want = map[string]any{"id": "recordingStopped"}
		set("reason", c.A)
	case "stopped2":
		v = (&events.StopRecording{SessionId: c.Sid}).Stopped(c.A, time.Duration(c.Ts))
		want = map[string]any{"id": "recordingStopped"}
		set("reason", c.A)
	case "status":
		v = events.NewRecorderStatus(c.A, c.B)
		want = map[string]any{"id": "recorderStatus"}
	case "status2":
		v = (&events.GetRecorderStatus{}).Status(c.A, c.B)
		want = map[string]any{"id": "recorderStatus"}
	}
	t1 := time.Now()
	if !strings.HasPrefix(c.Kind, "status") {
		set("recordingSessionId", c.Sid)
	}
	if strings.HasPrefix(c.Kind, "stopped") && c.Ts != 0 {
		want["timestampHR"] = float64(c.Ts)
	}
	if strings.HasPrefix(c.Kind, "status") {
		set("appVersion", c.A)
		set("instanceId", c.B)
	}
	raw, err := json.Marshal(v)
	if err != nil {
		return fmt.Errorf("%+v cannot be encoded: %v", v, err)
	}
	got := map[string]any{}
	if err := json.Unmarshal(raw, &got); err != nil {
		return err
	}
	fail := func(f string, a ...any) error { return fmt.Errorf("%s\nmessage: %s", fmt.Sprintf(f, a...), trunc(raw)) }
	// the times
	if u, ok := got["timestampUTC"]; ok {
		s, _ := u.(string)
		ts, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || ts.Before(t0.Add(-time.Millisecond)) || ts.After(t1.Add(time.Millisecond)) {
			return fail("timestampUTC is %v", u)
		}
		want["timestampUTC"] = u
	} else if c.Kind == "flow" || strings.HasPrefix(c.Kind, "stopped") {
		return fail("no timestampUTC")
	}
	if strings.HasPrefix(c.Kind, "status") {
		ts, _ := got["timestamp"].(float64)
		if int64(ts) < t0.UnixMilli() || int64(ts) > t1.UnixMilli() {
			return fail("timestamp is %v, the time is %d", got["timestamp"], t0.UnixMilli())
		}
		want["timestamp"] = got["timestamp"]
	}
	if c.Kind == "success" {
		delete(got, "adapter") // allowed, undocumented
	}
	if !reflect.DeepEqual(got, want) {
		return fail("the fields are %v, want %v", got, want)
	}
	if s, ok := v.(*events.StartRecordingResponse); ok && c.Sid != "" {
		if err := s.Validate(); err != nil {
			return fail("a response of the recorder does not pass its own validation: %v", err)
		}
	}
	// and back
	e := events.Decode(raw)
	if !e.IsValid() || e.Id != want["id"] {
		return fail("decoded as %+v", e)
	}
	switch d := e.Data.(type) {
	case *events.StartRecordingResponse, *events.RecorderStatus, *events.RecordingRtpStatusChanged:
		if reflect.TypeOf(d) != reflect.TypeOf(v) || !reflect.DeepEqual(d, v) {
			return fail("decoded as %+v, encoded from %+v", d, v)
		}
	default:
		raw2, _ := json.Marshal(e.Data)
		var got2 map[string]any
		if json.Unmarshal(raw2, &got2) != nil || !reflect.DeepEqual(got2, want) {
			return fail("decoded as %s", raw2)
		}
	}
	return nil
}

// ------------------------------------------------------------ known finding

type starCase struct{ Comment string }

func runStar(c starCase, r *core.Rec) error {
	m := []byte("{/*" + c.Comment + "*/ id: 'stopRecording', recordingSessionId: 's'}")
	if e := events.Decode(m); e.StopRecording() == nil || e.StopRecording().SessionId != "s" {
		return fmt.Errorf("not decoded: %s", m)
	}
	return nil
}

func TestC26(t *testing.T) {
	core.Prop("C26",
		core.F(core.Facet[spellCase]{Name: "spelling", Quick: 20000, Thorough: 400000, Gen: genSpell, Run: runSpell}),
		core.F(core.Facet[garbageCase]{Name: "garbage", Quick: 25000, Thorough: 500000, Gen: genGarbage, Run: runGarbage}),
		core.F(core.Facet[roundCase]{Name: "round-trip", Quick: 8000, Thorough: 100000, Gen: genRound, Run: runRound}),
		core.F(core.Facet[starCase]{Name: "star-comment", Gen: func(*rapid.T) starCase { return starCase{} }, Run: runStar}),
	).Run(t)
}
