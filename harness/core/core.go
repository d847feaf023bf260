// Package core runs one property's generated-input search.
//
// A property is a list of facets. Each facet has a generator that draws a
// plain-data, JSON-able case from rapid, and a Run function that executes the
// case against the code under test and judges it. The failing case that rapid
// shrinks to is written out as the replay file; replaying bypasses rapid.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
)

const modPrefix = "github.com/bigbluebutton/bbb-webrtc-recorder/"
const pbtPrefix = modPrefix + "internal/verifpbt/"

// Rec collects what one case turned out to be.
type Rec struct {
	labels     map[string]int
	nontrivial bool
	note       string
	Replay     bool
	Log        func(string, ...any)
	T          *testing.T
}

// Bubble runs f in a synctest bubble (virtual time). Goroutines of the code
// under test that are left blocked at the end are not a failure by themselves;
// leaked reports them.
func (r *Rec) Bubble(f func() error) (leaked bool, err error) {
	defer func() {
		if p := recover(); p != nil {
			if strings.Contains(fmt.Sprint(p), "deadlock") {
				leaked = true
				return
			}
			panic(p)
		}
	}()
	synctest.Test(r.T, func(*testing.T) { err = Guard(f) })
	return
}

func (r *Rec) Label(l string) { r.labels[l]++ }
func (r *Rec) LabelIf(b bool, l string) {
	if b {
		r.labels[l]++
	}
}
func (r *Rec) NonTrivial()          { r.nontrivial = true }
func (r *Rec) NonTrivialIf(b bool)  { r.nontrivial = r.nontrivial || b }
func (r *Rec) Note(f string, a ...any) { r.note = fmt.Sprintf(f, a...) }

// Inconclusive aborts a case without judging it.
type Inconclusive struct{ Why string }

func (i Inconclusive) Error() string { return "inconclusive: " + i.Why }

func Inconcl(f string, a ...any) error { return Inconclusive{fmt.Sprintf(f, a...)} }

// HarnessError is a fault of the harness itself.
type HarnessError struct{ Why string }

func (h HarnessError) Error() string { return "harness: " + h.Why }

type facet interface {
	name() string
	run(t *testing.T, p *state)
	replay(t *testing.T, raw json.RawMessage, p *state) error
}

// Facet is one generator + oracle.
type Facet[C any] struct {
	Name            string
	Quick, Thorough int // number of cases
	Gen             func(t *rapid.T) C
	Run             func(c C, r *Rec) error
	// Fixed cases are run before the random ones (regressions).
	Fixed []C
	// ShrinkSeconds bounds shrinking (default 20 s).
	ShrinkSeconds int
	// Retries: a failing case must fail this many additional times to count
	// (real-time end-to-end facets only).
	Confirm int
}

type Violation struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Kind     string          `json:"kind"`
}

type facetResult struct {
	Facet        string         `json:"facet"`
	Evaluations  int            `json:"evaluations"`
	Inconclusive int            `json:"inconclusive"`
	Labels       map[string]int `json:"labels"`
	Samples      []any          `json:"samples"`
	Seed         uint64         `json:"seed"`
	WallS        float64        `json:"wall_s"`
}

type result struct {
	Property   string        `json:"property"`
	Facets     []facetResult `json:"facets"`
	Distinct   []string      `json:"distinct"`
	Violations []Violation   `json:"violations"`
	Harness    []string      `json:"harness_errors"`
	Done       bool          `json:"done"`
}

type state struct {
	prop     string
	out      string
	seed     uint64
	shard    int
	shards   int
	thorough bool
	scale    float64
	res      result
	distinct map[string]bool
}

// Property is what a TestCxx function runs.
type Property struct {
	ID     string
	Facets []facet
}

func Prop(id string, fs ...facet) Property { return Property{ID: id, Facets: fs} }

func F[C any](f Facet[C]) facet { return &f }

func (f *Facet[C]) shrink() int {
	if f.ShrinkSeconds == 0 {
		return 20
	}
	return f.ShrinkSeconds
}

func (f *Facet[C]) name() string { return f.Name }

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Run executes the property in the mode the environment asks for.
func (p Property) Run(t *testing.T) {
	s := &state{prop: p.ID, out: os.Getenv("VERIF_OUT"), shard: envInt("VERIF_SHARD", 0), shards: envInt("VERIF_SHARDS", 1),
		thorough: os.Getenv("VERIF_TIER") == "thorough", scale: 1, distinct: map[string]bool{}}
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && v > 0 {
		s.scale = v
	}
	s.seed = uint64(envInt("VERIF_SEED", 1))
	s.res.Property = p.ID
	if s.out == "" {
		s.out = t.TempDir()
	}
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		raw, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		var v Violation
		if err := json.Unmarshal(raw, &v); err != nil {
			t.Fatal(err)
		}
		for _, f := range p.Facets {
			if f.name() == v.Facet {
				err := f.replay(t, v.Case, s)
				if err != nil {
					s.judge(v.Facet, v.Case, err)
				}
				s.finish()
				if err != nil {
					t.Errorf("%v", err)
				}
				return
			}
		}
		t.Fatalf("no facet %q in %s", v.Facet, p.ID)
	}
	only := os.Getenv("VERIF_FACET")
	for _, f := range p.Facets {
		if only != "" && only != f.name() {
			continue
		}
		if len(s.res.Violations) > 0 && !s.thorough {
			break // one is enough
		}
		t.Run(f.name(), func(t *testing.T) { f.run(t, s) })
		s.flush()
	}
	s.finish()
}

func (s *state) judge(facet string, c json.RawMessage, err error) {
	if he, ok := err.(HarnessError); ok {
		s.res.Harness = append(s.res.Harness, facet+": "+he.Why+" case="+trunc(string(c), 2000))
		return
	}
	if _, ok := err.(Inconclusive); ok {
		return
	}
	s.res.Violations = append(s.res.Violations, Violation{Property: s.prop, Facet: facet, Message: err.Error(), Case: c, Kind: "case"})
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (s *state) flush() {
	s.res.Distinct = s.res.Distinct[:0]
	for h := range s.distinct {
		s.res.Distinct = append(s.res.Distinct, h)
	}
	sort.Strings(s.res.Distinct)
	b, _ := json.Marshal(s.res)
	tmp := filepath.Join(s.out, "result.json.tmp")
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(s.out, "result.json"))
}

func (s *state) finish() { s.res.Done = true; s.flush() }

// CallerKind says whose code a panic came from: the code under test, or the
// harness. The first frame (innermost) of this module decides.
func CallerKind(stack []byte) string {
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.HasPrefix(l, pbtPrefix) {
			return "harness"
		}
		if strings.HasPrefix(l, modPrefix) {
			return "target"
		}
	}
	return "unknown"
}

// Guard runs f and turns a panic of the code under test into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 64<<10)
			buf = buf[:runtime.Stack(buf, false)]
			// skip the frames of the recovering goroutine above panic()
			st := string(buf)
			if i := strings.Index(st, "\npanic("); i >= 0 {
				st = st[i+1:]
			}
			switch v := p.(type) {
			case HarnessError:
				err = v
				return
			case Inconclusive:
				err = v
				return
			case Fail:
				err = fmt.Errorf("%s", v.Msg)
				return
			}
			if CallerKind([]byte(st)) == "target" {
				err = fmt.Errorf("panic in the code under test: %v\n%s", p, trunc(st, 4000))
			} else {
				err = HarnessError{fmt.Sprintf("panic: %v\n%s", p, trunc(st, 4000))}
			}
		}
	}()
	return f()
}

// Fail can be thrown (panic) from deep inside an oracle.
type Fail struct{ Msg string }

func Failf(f string, a ...any) { panic(Fail{fmt.Sprintf(f, a...)}) }

func (f *Facet[C]) exec(c C, rec *Rec) error {
	return Guard(func() error { return f.Run(c, rec) })
}

func (f *Facet[C]) replay(t *testing.T, raw json.RawMessage, s *state) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return HarnessError{"bad case: " + err.Error()}
	}
	s.writeCurrent(f.Name, raw)
	rec := &Rec{labels: map[string]int{}, Replay: true, T: t, Log: func(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }}
	err := f.exec(c, rec)
	s.clearCurrent()
	return err
}

func (s *state) writeCurrent(facet string, raw json.RawMessage) {
	b, _ := json.Marshal(Violation{Property: s.prop, Facet: facet, Case: raw, Kind: "crash"})
	os.WriteFile(filepath.Join(s.out, "current.json"), b, 0o644)
}
func (s *state) clearCurrent() { os.Remove(filepath.Join(s.out, "current.json")) }

func (f *Facet[C]) run(t *testing.T, s *state) {
	n := f.Quick
	if s.thorough {
		n = f.Thorough
	}
	n = int(float64(n) * s.scale)
	n = (n + s.shards - 1) / s.shards
	if n < 1 {
		n = 1
	}
	if f.Quick == 0 && !s.thorough || s.thorough && f.Thorough == 0 {
		n = 0
	}
	seed := mix(s.seed, s.prop, f.Name, s.shard)
	fr := facetResult{Facet: f.Name, Labels: map[string]int{}, Seed: seed}
	start := time.Now()
	var lastFail error
	var lastCase json.RawMessage
	failed := false
	curT := t
	var failedAt time.Time
	one := func(c C) error {
		if failed && time.Since(failedAt) > time.Duration(f.shrink())*time.Second {
			return nil // enough shrinking
		}
		raw, err := json.Marshal(c)
		if err != nil {
			return HarnessError{"case not JSON-able: " + err.Error()}
		}
		// the case that runs is the one the replay file would give
		var cc C
		if err := json.Unmarshal(raw, &cc); err != nil {
			return HarnessError{"case not JSON-able: " + err.Error()}
		}
		s.writeCurrent(f.Name, raw)
		rec := &Rec{labels: map[string]int{}, T: curT, Log: func(string, ...any) {}}
		err = f.exec(cc, rec)
		for i := 0; err != nil && i < f.Confirm; i++ {
			if _, ok := err.(HarnessError); ok {
				break
			}
			if _, ok := err.(Inconclusive); ok {
				break
			}
			rec2 := &Rec{labels: map[string]int{}, T: curT, Log: func(string, ...any) {}}
			if err2 := f.exec(cc, rec2); err2 == nil {
				err = nil
				fr.Labels["unconfirmed-failure"]++
			} else {
				err = err2
			}
		}
		if !failed {
			fr.Evaluations++
			for k, v := range rec.labels {
				if v > 0 {
					fr.Labels[k]++
				}
			}
			if _, ok := err.(Inconclusive); ok {
				fr.Inconclusive++
				return nil
			}
			if rec.nontrivial {
				h := strconv.FormatUint(mix(f.Name, string(raw)), 36)
				if !s.distinct[h] {
					s.distinct[h] = true
					if len(fr.Samples) < 3 {
						fr.Samples = append(fr.Samples, json.RawMessage(sample(raw)))
					}
				}
			}
		}
		if _, ok := err.(Inconclusive); ok {
			return nil
		}
		if err != nil {
			if !failed {
				failedAt = time.Now()
			}
			failed = true
			lastFail = err
			lastCase = raw
		}
		return err
	}
	for _, c := range f.Fixed {
		if s.shard != 0 {
			break
		}
		if one(c) != nil {
			break
		}
	}
	if lastFail == nil && n > 0 {
		shrink := f.shrink()
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
		must(flag.Set("rapid.nofailfile", "true"))
		must(flag.Set("rapid.shrinktime", fmt.Sprintf("%ds", shrink)))
		t.Run("search", func(t *testing.T) {
			curT = t
			rapid.Check(t, func(rt *rapid.T) {
				c := f.Gen(rt)
				if err := one(c); err != nil {
					rt.Fatalf("%v", trunc(err.Error(), 3000))
				}
			})
		})
	}
	s.clearCurrent()
	fr.WallS = time.Since(start).Seconds()
	s.res.Facets = append(s.res.Facets, fr)
	if lastFail != nil {
		s.judge(f.Name, lastCase, lastFail)
		t.Errorf("%s/%s: %v", s.prop, f.Name, trunc(lastFail.Error(), 3000))
	} else if t.Failed() {
		s.res.Harness = append(s.res.Harness, f.Name+": rapid reported a failure that no case explains (generator panic?)")
	}
}

func sample(raw []byte) []byte {
	if len(raw) <= 1500 {
		return raw
	}
	b, _ := json.Marshal(string(raw[:1500]) + "…")
	return b
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
