package hrec

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// storeOp is one step of a history of recordings in a directory tree.
type storeOp struct {
	Op   string // start, media, close, file, mkdir
	Name string `json:",omitempty"`
	Mode string `json:",omitempty"` // fileMode
	Dir  string `json:",omitempty"` // dirFileMode
	Conf int    `json:",omitempty"` // 1: the directory is missing, 2: writeToDevNull, 3: IVF copies, 4: unclean directory
	Kind int    `json:",omitempty"` // media: 0 video, 1 audio, 2 both; alternative sampler 3
	S    int    `json:",omitempty"` // session (modulo)
	N    int    `json:",omitempty"` // frames
}

type storeCase struct {
	Umask int
	Tree  []string // directories end in /, of others the name is the content, -> makes a link
	Ops   []storeOp
}

type storeEntry struct {
	mode    fs.FileMode
	content string
	rec     *storeSession // written by
}

type storeSession struct {
	rec    recorder.Recorder
	target string // relative to the root, "" for /dev/null
	name   string
	mode   fs.FileMode
	ivf    bool
	open   bool // its file exists
	dead   bool // could not open
	closed bool
	n      int
	video  bool
	seq    uint16
	sent   [][]byte // frames
}

// finding is an error that concerns one property.
type finding struct{ prop, msg string }

func (f finding) Error() string { return f.msg }

type storeRun struct {
	root     string
	dir      string // recording directory, relative to the root
	tree     map[string]*storeEntry
	umask    fs.FileMode
	sessions []*storeSession
	found    []finding
}

func (s *storeRun) fail(prop, f string, a ...any) {
	s.found = append(s.found, finding{prop, fmt.Sprintf(f, a...)})
}

// scan reads the tree below the root.
func (s *storeRun) scan() map[string]*storeEntry {
	out := map[string]*storeEntry{}
	filepath.WalkDir(s.root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			panic(core.HarnessError{Why: err.Error()})
		}
		rel, _ := filepath.Rel(s.root, p)
		info, err := os.Lstat(p)
		if err != nil {
			panic(core.HarnessError{Why: err.Error()})
		}
		e := &storeEntry{mode: info.Mode()}
		switch {
		case info.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				b = []byte("unreadable: " + fmt.Sprint(info.Size()))
			}
			e.content = string(b)
		case info.Mode()&fs.ModeSymlink != 0:
			e.content, _ = os.Readlink(p)
		}
		out[rel] = e
		return nil
	})
	return out
}

const storeDepth = "w/x/y/z" // the recording directory lies this deep

func (c storeCase) run(r *core.Rec) *storeRun {
	s := &storeRun{root: scratch(), umask: fs.FileMode(c.Umask) & 0o777}
	defer func() {
		filepath.WalkDir(s.root, func(p string, d fs.DirEntry, err error) error {
			if d != nil && d.IsDir() {
				os.Chmod(p, 0o700)
			}
			return nil
		})
		os.RemoveAll(s.root)
	}()
	s.dir = storeDepth + "/rec"
	old := syscall.Umask(0o022)
	defer syscall.Umask(old)
	check := func(err error) {
		if err != nil {
			panic(core.HarnessError{Why: err.Error()})
		}
	}
	check(os.MkdirAll(filepath.Join(s.root, s.dir), 0o755))
	for _, n := range []string{"secret.webm", "w/secret.webm", "w/x/y/z/a.webm", "w/x/y/b.webm"} {
		check(os.WriteFile(filepath.Join(s.root, n), []byte("outside"), 0o640))
	}
	check(os.Mkdir(filepath.Join(s.root, storeDepth, "rec2"), 0o755))
	for _, n := range c.Tree {
		p := filepath.Join(s.root, s.dir, n)
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		if os.MkdirAll(filepath.Dir(p), 0o750) != nil {
			continue
		}
		switch {
		case strings.HasSuffix(n, "/"):
			os.Mkdir(p, 0o711)
		case strings.HasSuffix(n, ".link"):
			os.Symlink("nowhere/at.webm", strings.TrimSuffix(p, ".link"))
		default:
			os.WriteFile(p, []byte("content of "+n), 0o604)
		}
	}
	s.tree = s.scan()
	syscall.Umask(c.Umask)
	leaked, err := r.Bubble(func() error {
		for i, op := range c.Ops {
			s.do(r, i, op)
			synctest.Wait()
			s.compare(i, op)
			if len(s.found) > 0 {
				break
			}
		}
		for _, x := range s.sessions {
			if !x.closed {
				x.rec.Close()
			}
		}
		return nil
	})
	if err != nil {
		s.fail("", "%v", err)
	} else if leaked {
		s.fail("C20", "a recorder hangs")
	}
	syscall.Umask(old)
	return s
}

// compare compares the tree with what it should be.
func (s *storeRun) compare(i int, op storeOp) {
	got := s.scan()
	var paths []string
	for p := range got {
		paths = append(paths, p)
	}
	for p := range s.tree {
		if got[p] == nil {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	inside := func(p string) bool { return strings.HasPrefix(p, s.dir+"/") }
	what := fmt.Sprintf("step %d (%s %q)", i, op.Op, op.Name)
	for _, p := range paths {
		w, g := s.tree[p], got[p]
		prop := "C07"
		if inside(p) {
			prop = "C09"
		}
		switch {
		case w == nil:
			s.fail(prop, "%s: %s appeared (%v)", what, p, g.mode)
		case g == nil && w.rec != nil:
			s.fail("C09", "%s: %s, which has been recorded into, is missing", what, p)
		case g == nil && w.mode.IsDir():
			s.fail("C09", "%s: the directory %s is missing", what, p)
		case g == nil:
			s.fail("C08", "%s: %s disappeared", what, p)
		case w.mode != g.mode:
			s.fail("C09", "%s: %s has the mode %v, expected %v", what, p, g.mode, w.mode)
		case w.rec == nil && w.content != g.content:
			prop = "C08"
			if !inside(p) {
				prop = "C07"
			}
			s.fail(prop, "%s: %s was changed (%d bytes, now %d)", what, p, len(w.content), len(g.content))
		case w.rec != nil && w.rec.closed && !strings.HasSuffix(p, ".ivf"):
			f := media.ParseWebm([]byte(g.content))
			if f.Err != nil || f.Truncated {
				s.fail("C08", "%s: %s is malformed: %v", what, p, f.Err)
				continue
			}
			for n, b := range f.Blocks {
				if n >= len(w.rec.sent) || !bytes.Equal(b.Data, w.rec.sent[n]) {
					s.fail("C08", "%s: block %d of %s is not its session's", what, n, p)
					break
				}
			}
			if len(f.Blocks) != len(w.rec.sent) {
				s.fail("C08", "%s: %s has %d blocks of the %d of its session", what, p, len(f.Blocks), len(w.rec.sent))
			}
		}
	}
}

func parseMode(m string) (fs.FileMode, bool) {
	v := uint64(0)
	d := m
	switch {
	case m == "0":
		return 0, true
	case strings.HasPrefix(m, "0o"):
		d = m[2:]
	case strings.HasPrefix(m, "0"):
		d = m[1:]
	default:
		return 0, false
	}
	for _, c := range d {
		if c < '0' || c > '7' {
			return 0, false
		}
		v = v*8 + uint64(c-'0')
	}
	return fs.FileMode(v), true
}

func (s *storeRun) do(r *core.Rec, i int, op storeOp) {
	var x *storeSession
	if len(s.sessions) > 0 {
		x = s.sessions[op.S%len(s.sessions)]
	}
	abs := func(rel string) string { return filepath.Join(s.root, rel) }
	switch op.Op {
	case "mkdir", "file":
		// someone else
		rel := filepath.Join(s.dir, op.Name)
		if s.tree[rel] != nil || s.tree[filepath.Dir(rel)] == nil || !s.tree[filepath.Dir(rel)].mode.IsDir() {
			return
		}
		if op.Op == "mkdir" {
			if os.Mkdir(abs(rel), 0o755) != nil {
				return
			}
		} else if os.WriteFile(abs(rel), []byte(fmt.Sprintf("someone else's %d", i)), 0o600) != nil {
			return
		}
		for p, e := range s.scan() {
			if s.tree[p] == nil {
				s.tree[p] = e
			}
		}
	case "start":
		s.start(r, i, op)
	case "media":
		if x == nil {
			return
		}
		s.media(r, x, op)
	case "close":
		if x == nil {
			return
		}
		x.rec.Close()
		x.closed = true
	}
}

// start checks a request against the model of what is to be accepted.
func (s *storeRun) start(r *core.Rec, i int, op storeOp) {
	cfg := defaults(filepath.Join(s.root, s.dir))
	cfg.FileMode, cfg.DirFileMode = op.Mode, op.Dir
	switch op.Conf {
	case 1:
		cfg.Directory = filepath.Join(s.root, s.dir, "missing")
	case 2:
		cfg.WriteToDevNull = true
	case 3:
		cfg.WriteIVFCopy = true
	case 4:
		cfg.Directory = filepath.Join(s.root, storeDepth) + "/./x//../rec/"
	}
	if op.Kind == 3 {
		cfg.UseCustomSampler = false
	}
	base := s.dir
	if op.Conf == 1 {
		base += "/missing"
	}
	mode, modeOK := parseMode(op.Mode)
	dirMode, dirOK := parseMode(op.Dir)
	target := filepath.Join(base, op.Name)
	rel, _ := filepath.Rel(base, target)
	outside := rel == ".." || strings.HasPrefix(rel, "../")
	why, prop := "", "C09"
	// 0 refuse, 1 accept, 2 either
	verdict := 1
	refuse := func(p, w string) {
		if verdict == 1 {
			verdict, why, prop = 0, w, p
		}
	}
	if filepath.Ext(op.Name) != ".webm" {
		refuse("C09", "its name does not end in .webm")
	}
	if op.Conf == 1 {
		refuse("C09", "the recording directory does not exist")
	}
	if !modeOK {
		refuse("C09", "the file mode is not a number")
	}
	var mk []string
	if op.Conf != 2 {
		if outside {
			refuse("C07", "it leads outside of the recording directory")
		}
		if strings.ContainsRune(op.Name, 0) {
			refuse("C07", "its name cannot exist")
		}
		for _, part := range strings.Split(target, "/") {
			if len(part) > 255 {
				refuse("C07", "its name cannot exist")
			}
		}
		if verdict == 1 {
			p := filepath.Dir(target)
			for s.tree[p] == nil {
				mk = append([]string{p}, mk...)
				p = filepath.Dir(p)
			}
			switch e := s.tree[p]; {
			case e.mode&fs.ModeSymlink != 0:
				verdict = 2
			case !e.mode.IsDir():
				refuse("C09", "its directory is a file")
			case len(mk) > 0 && !dirOK:
				refuse("C09", "the directory mode is not a number")
			case len(mk) > 0 && dirMode&^s.umask&0o300 != 0o300 && os.Geteuid() != 0:
				verdict = 2 // nested directories may not be possible
			case len(mk) > 0 && e.mode&0o300 != 0o300:
				verdict = 2
			}
			if e := s.tree[target]; e != nil && verdict == 1 {
				if e.mode&fs.ModeSymlink != 0 {
					verdict = 2
				} else {
					refuse("C08", "its file exists")
				}
			}
		}
	}
	rec, err := recorder.NewRecorder(context.Background(), cfg, op.Name)
	switch {
	case verdict == 0 && err == nil:
		s.fail(prop, "step %d: a recording into %q is accepted though %s", i, op.Name, why)
	case verdict == 1 && err != nil:
		s.fail("C07", "step %d: a recording into %q (%+v) is refused: %v", i, op.Name, op, err)
	}
	r.LabelIf(verdict == 0, "refused: "+why)
	r.LabelIf(verdict == 1, "accepted")
	r.LabelIf(verdict == 1 && len(mk) > 0, "directories made")
	if err != nil || len(s.found) > 0 {
		if verdict == 2 {
			// directories may have been made
			s.tree = s.rescan()
		} else if why == "its name cannot exist" {
			for p, e := range s.scan() {
				if s.tree[p] == nil && e.mode.IsDir() {
					s.tree[p] = e
				}
			}
		}
		return
	}
	x := &storeSession{rec: rec, target: target, name: op.Name, mode: mode & 0o777 &^ s.umask, ivf: op.Conf == 3}
	want := filepath.Join(s.root, target)
	if op.Conf == 2 {
		want, x.target = os.DevNull, ""
	} else {
		for _, p := range mk {
			s.tree[p] = &storeEntry{mode: fs.ModeDir | dirMode&0o777&^s.umask}
		}
	}
	if got := rec.GetFilePath(); got != want {
		s.fail("C07", "step %d: the recording %q says it goes to %s, not %s", i, op.Name, got, want)
	}
	if verdict == 2 {
		s.tree = s.rescan()
		x.dead = true // nothing is demanded
	}
	s.sessions = append(s.sessions, x)
	rec.SetHasVideo(op.Kind != 1)
	rec.SetHasAudio(op.Kind == 1)
	x.video = op.Kind != 1
}

// rescan takes the tree as it is, keeping what is known about recordings.
func (s *storeRun) rescan() map[string]*storeEntry {
	got := s.scan()
	for p, e := range s.tree {
		if g := got[p]; g != nil {
			*g = *e
		}
	}
	return got
}

// media sends n frames, the first of them a keyframe unless N is negative.
func (s *storeRun) media(r *core.Rec, x *storeSession, op storeOp) {
	n := op.N
	if !x.closed && !x.dead && !x.open && (n > 0 || !x.video) && x.target != "" {
		e, parent := s.tree[x.target], s.tree[filepath.Dir(x.target)]
		switch {
		case e != nil:
			// someone was faster
			x.dead = true
			r.Label("file appeared before the first media")
		case parent == nil || parent.mode&0o300 != 0o300 && os.Geteuid() != 0:
			x.dead = true
			r.Label("directory not writable")
		default:
			x.open = true
			r.Label("recorded")
			s.tree[x.target] = &storeEntry{mode: x.mode, rec: x}
			if p := strings.TrimSuffix(x.target, ".webm") + ".ivf"; x.ivf && x.video && s.tree[p] == nil {
				s.tree[p] = &storeEntry{mode: x.mode, rec: x}
			}
		}
	}
	v := media.VStream{Seq: x.seq, Ts: uint32(x.seq) * 3000, Pic: 0}
	a := media.AStream{Seq: x.seq, Ts: uint32(x.seq) * 960}
	for i := 0; i < max(n, -n); i++ {
		v.F = append(v.F, media.VFrame{K: n > 0 && i == 0, W: 64, H: 64, N: 30, D: 3000})
		a.F = append(a.F, media.AFrame{N: 30, D: 960})
	}
	frames, pkts := v.Compile()
	if !x.video {
		frames, pkts = a.Compile()
	}
	for i := range pkts {
		p := media.Clone(pkts[i].P)
		// every session's frames are its own
		own := fmt.Sprintf("%04d%04d", indexOf(s.sessions, x), int(x.seq)+i)
		copy(p.Payload[len(p.Payload)-8:], own)
		d := append([]byte(nil), frames[i].Data...)
		copy(d[len(d)-8:], own)
		if x.video {
			x.rec.PushVideo(p)
		} else {
			x.rec.PushAudio(p)
		}
		if x.open && !x.closed {
			x.sent = append(x.sent, d)
		}
	}
	x.seq += uint16(len(pkts))
}

func indexOf(l []*storeSession, x *storeSession) int {
	for i := range l {
		if l[i] == x {
			return i
		}
	}
	return -1
}

var storeParts = []string{"a", "b", "c.webm", "a.webm", "d", "é ü", "..", ".", "", "rec", "a.ivf", "..a", "~"}
var storeLast = []string{"a.webm", "b.webm", "a.webm", "é.webm", ".webm", "..webm", "a.b.webm", "a.WEBM", "a.webm.mp4", "a", "", "..", "a.webm ", "a\x00.webm", "a.ivf", "*.webm", "%s.webm", "-rf.webm"}

func genName(t *rapid.T) string {
	switch rapid.IntRange(0, 11).Draw(t, "nametype") {
	case 0:
		return strings.Repeat("n", rapid.SampledFrom([]int{240, 250, 251, 300, 5000}).Draw(t, "long")) + ".webm"
	case 1:
		// nowhere near the real root
		return strings.Repeat("../", rapid.IntRange(1, 4).Draw(t, "up")) + rapid.SampledFrom([]string{"a.webm", "rec/a.webm", "rec2/a.webm", "recx.webm", "new.webm", "rec.webm", "z/rec/b.webm"}).Draw(t, "to")
	case 2, 3, 4:
		return rapid.SampledFrom([]string{"a.webm", "b.webm", "a/a.webm"}).Draw(t, "plain")
	}
	parts := rapid.SliceOfN(rapid.SampledFrom(storeParts), 0, 4).Draw(t, "parts")
	n := strings.Join(append(parts, rapid.SampledFrom(storeLast).Draw(t, "last")), "/")
	if rapid.IntRange(0, 9).Draw(t, "abs") == 0 {
		n = "/" + n
	}
	return n
}

func genStore(files bool) func(t *rapid.T) storeCase {
	return func(t *rapid.T) storeCase {
		c := storeCase{Umask: rapid.SampledFrom([]int{0o022, 0, 0o077, 0o027, 0o002}).Draw(t, "umask")}
		c.Tree = rapid.SliceOfN(rapid.SampledFrom([]string{"a/", "a.webm", "b/", "a/a.webm", "a/b/", "b.webm/", "c.webm", "a.ivf", "b.webm.link", "d.link", "d/"}), 0, 5).Draw(t, "tree")
		n := rapid.IntRange(1, 10).Draw(t, "ops")
		for i := 0; i < n; i++ {
			op := storeOp{Op: rapid.SampledFrom([]string{"start", "media", "start", "media", "close", "file", "mkdir"}).Draw(t, "op")}
			if i == 0 {
				op.Op = "start"
			}
			op.S = rapid.IntRange(0, 3).Draw(t, "s")
			switch op.Op {
			case "start":
				op.Name = genName(t)
				if files {
					op.Name = rapid.SampledFrom([]string{"a.webm", "a.webm", "b.webm", "a/../a.webm", "a/a.webm", "./a.webm", "/a.webm"}).Draw(t, "few")
				}
				op.Mode = rapid.SampledFrom([]string{"0600", "0600", "0644", "0640", "0o660", "0777", "0400", "0666"}).Draw(t, "mode")
				op.Dir = rapid.SampledFrom([]string{"0700", "0700", "0755", "0o750", "0770", "0777", "0711"}).Draw(t, "dirmode")
				if !files {
					switch rapid.IntRange(0, 7).Draw(t, "badmode") {
					case 0:
						op.Mode = rapid.SampledFrom([]string{"", "rw", "0888", "-0600", "06 00", "0x", "rw-r--r--"}).Draw(t, "bad")
					case 1:
						op.Dir = rapid.SampledFrom([]string{"", "rwx", "0999", "-0700", "07.0"}).Draw(t, "baddir")
					}
					op.Conf = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3, 4}).Draw(t, "conf")
				} else {
					op.Conf = rapid.SampledFrom([]int{0, 0, 0, 3}).Draw(t, "conf")
				}
				op.Kind = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "kind")
			case "media":
				op.N = rapid.SampledFrom([]int{1, 2, 5, -1, -3}).Draw(t, "n")
			case "file", "mkdir":
				op.Name = rapid.SampledFrom([]string{"a.webm", "a", "b.webm", "a/a.webm", "a/b", "b", "a.ivf", "a/a.ivf"}).Draw(t, "other")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

func storeFacet(prop, name string, quick, thorough int, files bool) core.Facet[storeCase] {
	return core.Facet[storeCase]{Name: name, Quick: quick, Thorough: thorough, Gen: genStore(files),
		Run: func(c storeCase, r *core.Rec) error {
			s := c.run(r)
			r.NonTrivialIf(len(c.Ops) > 1)
			for _, f := range s.found {
				if f.prop == prop || f.prop == "" {
					return f
				}
			}
			return nil
		}}
}

func TestC07(t *testing.T) {
	core.Prop("C07", core.F(storeFacet("C07", "names", 4000, 80000, false)), core.F(storeFacet("C07", "collisions", 1000, 20000, true))).Run(t)
}

func TestC08(t *testing.T) {
	core.Prop("C08", core.F(storeFacet("C08", "collisions", 4000, 80000, true)), core.F(storeFacet("C08", "names", 1500, 30000, false))).Run(t)
}

func TestC09(t *testing.T) {
	core.Prop("C09", core.F(storeFacet("C09", "names", 4000, 80000, false)), core.F(storeFacet("C09", "collisions", 1500, 30000, true))).Run(t)
}
