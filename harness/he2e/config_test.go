package he2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/media"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"gopkg.in/yaml.v3"
)

// ------------------------------------------------------------ dump

type setting struct {
	path string
	kind string // str bool u16 int mode
	def  any
}

// the documented settings and defaults
var settings = []setting{
	{"recorder.directory", "str", ""},
	{"recorder.dirFileMode", "mode", "0700"},
	{"recorder.fileMode", "mode", "0600"},
	{"recorder.writeToDevNull", "bool", false},
	{"recorder.writeIVFCopy", "bool", false},
	{"recorder.videoPacketQueueSize", "u16", 256},
	{"recorder.audioPacketQueueSize", "u16", 32},
	{"recorder.useCustomSampler", "bool", true},
	{"pubsub.channels.subscribe", "str", "to-bbb-webrtc-recorder"},
	{"pubsub.channels.publish", "str", "from-bbb-webrtc-recorder"},
	{"pubsub.adapter", "str", "redis"},
	{"pubsub.adapters.redis.address", "str", ":6379"},
	{"pubsub.adapters.redis.network", "str", "tcp"},
	{"pubsub.adapters.redis.password", "str", ""},
	{"webrtc.rtcMinPort", "u16", 24577},
	{"webrtc.rtcMaxPort", "u16", 32768},
	{"webrtc.jitterBuffer", "u16", 512},
	{"webrtc.jitterBufferPktTimeout", "u16", 200},
	{"http.enable", "bool", false},
	{"http.port", "int", 8080},
	{"prometheus.enable", "bool", false},
	{"prometheus.listenAddress", "str", "127.0.0.1:3200"},
	{"livekit.host", "str", "ws://localhost:7880"},
	{"livekit.apiKey", "str", ""},
	{"livekit.apiSecret", "str", ""},
	{"log.level", "str", ""},
}

// ice is an ICE server.
type ice struct {
	URLs     []string
	Username string `json:",omitempty"`
	Cred     string `json:",omitempty"`
}

// given is a setting given by a source.
type given struct {
	I int
	V string // as text
}

type confCase struct {
	File, Env       []given
	IceFile, IceEnv []ice `json:",omitempty"`
	Style           int   // of the file
	NoFile          bool
	Dumps           []string
	Noise           []string // further environment variables
}

var confStrs = []string{"x", "/var/rec", "a b", "true", "null", "~", "1e3", "0x10", "007", "é ü", "a:b", "a: b", "#c", "x #c", "'q'", "\"d\"", "a,b", "$HOME", "${X}", "{{x}}", "[1]", "-", "a=b", "\\n", "%s", "ws://h:1/p?q=1&r=2", "yes", "123456", "12.50", "/a/../b", "*", "&a", "!t", "@", "`", "x_y", "a.b", "日本"}

func genValue(t *rapid.T, s setting, env bool) string {
	switch s.kind {
	case "bool":
		return rapid.SampledFrom([]string{"true", "false"}).Draw(t, "bool")
	case "u16":
		return strconv.Itoa(rapid.SampledFrom([]int{0, 1, 2, 31, 100, 256, 1024, 8080, 30000, 32768, 65534, 65535}).Draw(t, "u16"))
	case "int":
		return strconv.Itoa(rapid.SampledFrom([]int{0, 1, 80, 8081, 65535, 70000}).Draw(t, "int"))
	case "mode":
		return rapid.SampledFrom([]string{"0600", "0644", "0750", "0777", "0o640", "0001"}).Draw(t, "mode")
	}
	if rapid.IntRange(0, 5).Draw(t, "kind of string") == 0 {
		return rapid.StringMatching(`[a-zA-Z0-9 :#/._\-]{0,12}[a-z]`).Draw(t, "string")
	}
	return rapid.SampledFrom(confStrs).Draw(t, "string")
}

func genIce(t *rapid.T) []ice {
	var l []ice
	for i := rapid.IntRange(1, 3).Draw(t, "ice servers"); i > 0; i-- {
		x := ice{}
		for j := rapid.IntRange(1, 2).Draw(t, "urls"); j > 0; j-- {
			x.URLs = append(x.URLs, rapid.SampledFrom([]string{"stun:a.example:1", "turn:b.example:3478?transport=udp", "turns:c", "stun:[::1]:5"}).Draw(t, "url"))
		}
		if rapid.Bool().Draw(t, "credentials") {
			x.Username = rapid.SampledFrom([]string{"webrtc", "u v", "007", "true"}).Draw(t, "username")
			x.Cred = rapid.SampledFrom([]string{"turnpassword", "a:b #c", "12345", "null"}).Draw(t, "credential")
		}
		l = append(l, x)
	}
	return l
}

func genGiven(t *rapid.T, env bool) []given {
	var l []given
	max := rapid.SampledFrom([]int{1, 3, len(settings)}).Draw(t, "density")
	for _, i := range rapid.Permutation(seq(len(settings))).Draw(t, "settings")[:rapid.IntRange(0, max).Draw(t, "given")] {
		l = append(l, given{i, genValue(t, settings[i], env)})
	}
	return l
}

func seq(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

func genConf(t *rapid.T) confCase {
	c := confCase{Style: rapid.IntRange(0, 2).Draw(t, "style")}
	c.File, c.Env = genGiven(t, false), genGiven(t, true)
	if rapid.IntRange(0, 4).Draw(t, "ice in file") == 0 {
		c.IceFile = genIce(t)
	}
	if rapid.IntRange(0, 4).Draw(t, "ice in env") == 0 {
		c.IceEnv = genIce(t)
	}
	c.NoFile = len(c.File) == 0 && c.IceFile == nil || rapid.IntRange(0, 9).Draw(t, "no file") == 0
	for i := rapid.IntRange(0, 2).Draw(t, "noise"); i > 0; i-- {
		c.Noise = append(c.Noise, rapid.SampledFrom([]string{"RECORDER_DIRECTORY=/no", "XBBBRECORDER_HTTP_PORT=1", "BBBRECORDERHTTP_PORT=1", "BBBRECORDER_=1", "BBBRECORDER_NOSUCH_THING=1", "HTTP_PORT=1", "PORT=1", "bbb=1"}).Draw(t, "variable"))
	}
	c.Dumps = []string{"all"}
	groups := []string{"recorder", "pubsub", "pubsub.channels", "pubsub.adapters", "pubsub.adapters.redis", "webrtc", "http", "prometheus", "livekit", "log", "webrtc.iceServers"}
	for i := rapid.IntRange(1, 4).Draw(t, "dumps"); i > 0; i-- {
		s := ""
		switch rapid.IntRange(0, 5).Draw(t, "what") {
		case 0:
			s = rapid.SampledFrom(groups).Draw(t, "group")
		case 1:
			s = rapid.SampledFrom([]string{"nope", "recorder.nope", "recorder.directory.x", "webrtc.iceServers.9", "webrtc.iceServers.-1", "webrtc.iceServers.x", "http.port.0", ".", "recorder.", ".recorder", "recorder..directory", "RECORDER", "recorder.Directory", "all.recorder", "pubsub.adapters.amqp", "http.port.port", "0", "webrtc.iceServers.0.0", "webrtc.iceServers.99999999999999999999", " recorder", "app", "app.version"}).Draw(t, "unknown")
		case 2:
			s = "webrtc.iceServers." + strconv.Itoa(rapid.IntRange(0, 2).Draw(t, "index")) + rapid.SampledFrom([]string{"", ".urls", ".urls.0", ".urls.1", ".username", ".credential"}).Draw(t, "part")
		default:
			s = settings[rapid.IntRange(0, len(settings)-1).Draw(t, "setting")].path
		}
		c.Dumps = append(c.Dumps, s)
	}
	return c
}

func (s setting) value(text string) any {
	switch s.kind {
	case "bool":
		return text == "true"
	case "u16", "int":
		n, _ := strconv.Atoi(text)
		return n
	}
	return text
}

func put(m map[string]any, path string, v any) {
	p := strings.Split(path, ".")
	for _, k := range p[:len(p)-1] {
		n, ok := m[k].(map[string]any)
		if !ok {
			n = map[string]any{}
			m[k] = n
		}
		m = n
	}
	m[p[len(p)-1]] = v
}

func iceTree(l []ice, full bool) []any {
	r := []any{}
	for _, x := range l {
		m := map[string]any{}
		u := []any{}
		for _, s := range x.URLs {
			u = append(u, s)
		}
		m["urls"] = u
		if x.Username != "" || full {
			m["username"] = x.Username
		}
		if x.Cred != "" || full {
			m["credential"] = x.Cred
		}
		r = append(r, m)
	}
	return r
}

func at(v any, path string) (any, bool) {
	if path == "all" {
		return v, true
	}
	for _, k := range strings.Split(path, ".") {
		switch x := v.(type) {
		case map[string]any:
			n, ok := x[k]
			if !ok {
				return nil, false
			}
			v = n
		case []any:
			i, err := strconv.Atoi(k)
			if err != nil || i < 0 || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

// same compares an expected value with a dumped one; the dump may have more in
// ICE servers than is documented.
func same(want, got any) bool {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return false
		}
		for k, v := range w {
			if !same(v, g[k]) {
				return false
			}
		}
		for k := range g {
			if _, ok := w[k]; !ok && k != "credentialtype" {
				return false
			}
		}
		return true
	case []any:
		g, ok := got.([]any)
		if !ok || len(w) != len(g) {
			return false
		}
		for i := range w {
			if !same(w[i], g[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(want, got)
}

func (c confCase) files(dir string) (cfg string, env []string, want map[string]any) {
	want = map[string]any{}
	for _, s := range settings {
		put(want, s.path, s.def)
	}
	put(want, "webrtc.iceServers", []any{})
	cfg = filepath.Join(dir, "conf.yml")
	if !c.NoFile {
		tree := map[string]any{}
		for _, g := range c.File {
			s := settings[g.I]
			put(tree, s.path, s.value(g.V))
			put(want, s.path, s.value(g.V))
		}
		if c.IceFile != nil {
			put(tree, "webrtc.iceServers", iceTree(c.IceFile, false))
			put(want, "webrtc.iceServers", iceTree(c.IceFile, true))
		}
		if len(tree) == 0 {
			tree["log"] = map[string]any{"level": ""}
		}
		var b []byte
		switch c.Style {
		case 0:
			b, _ = yaml.Marshal(tree)
		case 1:
			b, _ = json.Marshal(tree)
		case 2:
			b, _ = yaml.Marshal(tree)
			b = append([]byte("# settings\n---\n"), bytes.ReplaceAll(b, []byte("\n"), []byte("  # x\n"))...)
		}
		os.WriteFile(cfg, b, 0o600)
	}
	env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir}, c.Noise...)
	for _, g := range c.Env {
		s := settings[g.I]
		put(want, s.path, s.value(g.V))
		env = append(env, "BBBRECORDER_"+strings.ToUpper(strings.ReplaceAll(s.path, ".", "_"))+"="+g.V)
	}
	if c.IceEnv != nil {
		put(want, "webrtc.iceServers", iceTree(c.IceEnv, true))
		for i, x := range c.IceEnv {
			p := fmt.Sprintf("BBBRECORDER_WEBRTC_ICESERVERS_%d_", i)
			env = append(env, p+"URLS="+strings.Join(x.URLs, ","))
			if x.Username != "" {
				env = append(env, p+"USERNAME="+x.Username)
			}
			if x.Cred != "" {
				env = append(env, p+"CREDENTIAL="+x.Cred)
			}
		}
	}
	return
}

func runDump(c confCase, r *core.Rec) error {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "d")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cfg, env, want := c.files(dir)
	for _, d := range c.Dumps {
		cmd := exec.Command(binary, "-c", cfg, "--dump", d)
		cmd.Dir = dir
		cmd.Env = env
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		w, ok := at(any(want), d)
		if strings.Contains(errb.String(), "panic: ") {
			return fmt.Errorf("--dump %s crashed:\n%.2000s", d, errb.String())
		}
		if !ok {
			r.Label("unknown path")
			if err == nil || out.Len() > 0 {
				return fmt.Errorf("--dump %s of an unknown path: %v, printed %q", d, err, out.String())
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("--dump %s failed: %v\n%s", d, err, errb.String())
		}
		var got any
		if err := yaml.Unmarshal(out.Bytes(), &got); err != nil {
			return fmt.Errorf("--dump %s printed %q: %v", d, out.String(), err)
		}
		if !same(w, got) {
			wy, _ := yaml.Marshal(w)
			return fmt.Errorf("--dump %s printed\n%s\ninstead of\n%s", d, out.String(), wy)
		}
	}
	r.LabelIf(len(c.File) > 0 && len(c.Env) > 0 && !c.NoFile, "both sources")
	r.NonTrivialIf(len(c.Env)+len(c.File) > 0)
	return nil
}

// ------------------------------------------------------------ effect

// effCase: where the settings of a running recorder come from: 0 the file, 1
// the environment, 2 both (the file has something else).
type effCase struct {
	Addr, Pass, Sub, Pub, Dir, Mode, DirMode, Prom, IVF int
	Auth                                                bool
}

func genEff(t *rapid.T) effCase {
	s := func(n string) int { return rapid.IntRange(0, 2).Draw(t, n) }
	return effCase{s("address"), s("password"), s("subscribe"), s("publish"), s("directory"), s("fileMode"), s("dirFileMode"), s("prometheus"), s("ivf"), rapid.Bool().Draw(t, "with password")}
}

func runEff(c effCase, r *core.Rec) error {
	pass := ""
	if c.Auth {
		pass = "pa ss:wörd"
	}
	red := NewRedis(pass)
	defer red.Close()
	root, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "e")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	good, bad := filepath.Join(root, "good"), filepath.Join(root, "bad")
	os.Mkdir(good, 0o755)
	os.Mkdir(bad, 0o755)
	file := map[string]any{"log": map[string]any{"level": "WARN"}}
	env := []string{"BBBRECORDER_APP_VERSION=9.9.9", "BBBRECORDER_APP_INSTANCEID=x"}
	set := func(from int, path string, v, other any) {
		if from != 1 {
			x := v
			if from == 2 {
				x = other
			}
			put(file, path, x)
		}
		if from != 0 {
			env = append(env, "BBBRECORDER_"+strings.ToUpper(strings.ReplaceAll(path, ".", "_"))+"="+fmt.Sprint(v))
		}
	}
	prom := "127.0.0.1:" + strconv.Itoa(freePort())
	set(c.Addr, "pubsub.adapters.redis.address", red.Addr, "127.0.0.1:9")
	if c.Auth {
		set(c.Pass, "pubsub.adapters.redis.password", pass, "wrong")
	} else if c.Pass == 2 {
		// an empty password in the file
		put(file, "pubsub.adapters.redis.password", "")
	}
	set(c.Sub, "pubsub.channels.subscribe", "to-x", "to-y")
	set(c.Pub, "pubsub.channels.publish", "from-x", "from-y")
	set(c.Dir, "recorder.directory", good, bad)
	set(c.Mode, "recorder.fileMode", "0640", "0604")
	set(c.DirMode, "recorder.dirFileMode", "0750", "0705")
	set(c.IVF, "recorder.writeIVFCopy", true, false)
	set(c.Prom, "prometheus.enable", true, false)
	set(c.Prom, "prometheus.listenAddress", prom, "127.0.0.1:9")
	put(file, "webrtc.iceServers", []any{map[string]any{"urls": []any{"stun:" + stunServer().Addr}}})
	b, _ := yaml.Marshal(file)
	cfg := filepath.Join(root, "c.yml")
	os.WriteFile(cfg, b, 0o600)
	p := Start(Opts{Redis: red, Dir: good, Sub: "to-x", Pub: "from-x", Env: env, RawConfig: cfg})
	defer p.Stop()
	p.Prom = prom
	if err := p.Ready(); err != nil {
		return err
	}
	if _, err := p.Gauge(); err != nil {
		return fmt.Errorf("the metrics endpoint: %v", err)
	}
	st := p.Of("recorderStatus", "")[0]
	if st.S("appVersion") != Version() || st.S("instanceId") == "x" {
		return fmt.Errorf("the announcement says %v", st.Event)
	}
	l, err := startSession(p, "s", "sub/f.webm", 0)
	if err != nil {
		return err
	}
	defer l.peer.Close()
	h := &hist{r: r, p: p, prop: ""}
	if err := h.media(l, 5, true); err != nil {
		return err
	}
	p.Send(M{"id": "stopRecording", "recordingSessionId": "s"})
	if p.WaitN("recordingStopped", "s", 1, patience) == nil {
		return fmt.Errorf("the session was not stopped")
	}
	want := filepath.Join(good, "sub", "f.webm")
	if l.file != want {
		return fmt.Errorf("the recording is %s, not %s", l.file, want)
	}
	if fi, err := os.Stat(want); err != nil || fi.Mode().Perm() != 0o640&^umask() {
		return fmt.Errorf("the recording has mode %v (%v)", fi.Mode(), err)
	}
	if fi, err := os.Stat(filepath.Dir(want)); err != nil || fi.Mode().Perm() != 0o750&^umask() {
		return fmt.Errorf("its directory has mode %v (%v)", fi.Mode(), err)
	}
	if _, err := os.Stat(strings.TrimSuffix(want, ".webm") + ".ivf"); err != nil {
		return fmt.Errorf("no IVF copy: %v", err)
	}
	if e, _ := os.ReadDir(bad); len(e) > 0 {
		return fmt.Errorf("the wrong directory has %v", e)
	}
	if n := red.NUnauth(); n > 0 {
		return fmt.Errorf("%d commands came without the password", n)
	}
	r.NonTrivial()
	return nil
}

func umask() os.FileMode {
	m := syscall.Umask(0)
	syscall.Umask(m)
	return os.FileMode(m)
}

// startSession starts a session that must start, and connects it.
func startSession(p *Proc, sid, file string, kind int) (*live, error) {
	l := &live{sid: sid, kind: kind, peer: NewPeer(kind != 1, kind != 0)}
	return l, connect(p, l, file)
}

func connect(p *Proc, l *live, file string) error {
	sid := l.sid
	n := len(p.Of("startRecordingResponse", sid))
	p.Send(M{"id": "startRecording", "recordingSessionId": sid, "fileName": file, "adapter": "mediasoup", "adapterOptions": M{"mediasoup": M{"sdp": l.peer.Offer}}})
	g := p.WaitN("startRecordingResponse", sid, n+1, patience)
	if len(g) <= n {
		return fmt.Errorf("session %q: no answer within %v\n%s", sid, patience, p.Log())
	}
	e := g[n]
	if e.S("status") != "ok" {
		return fmt.Errorf("session %q: the start was answered %v", sid, e.Event)
	}
	l.file = e.S("fileName")
	if err := l.peer.Answer(e.S("sdp")); err != nil {
		return err
	}
	if !l.peer.Connected() {
		return fmt.Errorf("session %q: no connection", sid)
	}
	return nil
}

// ------------------------------------------------------------ reload

// reloadCase: configurations in effect one after the other, with a recording
// that goes on meanwhile and one made under each.
type reloadCase struct {
	Steps []reloadStep
	Env   bool // the file mode comes from the environment
}

type reloadStep struct {
	Dir   int
	Mode  string
	IVF   bool
	Alt   bool   // alternative sampler
	Bad   string // a file that cannot be loaded
	Gone  bool   // no file
	Media int    // frames of the long recording before
}

func genReload(t *rapid.T) reloadCase {
	c := reloadCase{Env: rapid.IntRange(0, 3).Draw(t, "env") == 0}
	for i := rapid.IntRange(1, 4).Draw(t, "reloads"); i > 0; i-- {
		s := reloadStep{Dir: rapid.IntRange(0, 2).Draw(t, "dir"), Mode: rapid.SampledFrom([]string{"0600", "0640", "0604"}).Draw(t, "mode"), IVF: rapid.Bool().Draw(t, "ivf"), Alt: rapid.Bool().Draw(t, "sampler"), Media: rapid.IntRange(0, 10).Draw(t, "frames")}
		if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
			s.Bad = rapid.SampledFrom([]string{"", "\t", "recorder: [", "recorder: 5", "recorder:\n  directory: /x\n  nosuch: 1", "http:\n  port: many", "webrtc:\n  jitterBuffer: 70000", "{", "x: y", "recorder:\n  useCustomSampler: maybe", "pubsub:\n  adapters:\n    redis:\n      address:\n      - a"}).Draw(t, "bad file")
			s.Bad += "\n"
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runReload(c reloadCase, r *core.Rec) error {
	red := NewRedis("")
	defer red.Close()
	root, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "r")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	dirs := []string{filepath.Join(root, "a"), filepath.Join(root, "a much longer name"), filepath.Join(root, "ccc")}
	for _, d := range dirs {
		os.Mkdir(d, 0o755)
	}
	o := Opts{Redis: red, Dir: dirs[0]}
	if c.Env {
		o.Env = []string{"BBBRECORDER_RECORDER_FILEMODE=0666"}
	}
	p := MustStart(o)
	defer p.Stop()
	h := &hist{r: r, p: p, prop: ""}
	long, err := startSession(p, "long", "long.webm", 0)
	if err != nil {
		return err
	}
	defer long.peer.Close()
	if err := h.media(long, 3, true); err != nil {
		return err
	}
	text, _ := os.ReadFile(p.Cfg)
	var cfg M
	json.Unmarshal(text, &cfg)
	cur := reloadStep{Dir: 0, Mode: "0600"}
	for i, s := range c.Steps {
		if err := h.media(long, s.Media, false); err != nil {
			return err
		}
		text := []byte(s.Bad)
		if s.Bad == "" {
			merge(cfg, M{"recorder": M{"directory": dirs[s.Dir], "fileMode": s.Mode, "writeIVFCopy": s.IVF, "useCustomSampler": !s.Alt}})
			text, _ = json.Marshal(cfg)
			cur = s
		} else {
			r.Label("a file that cannot be loaded")
		}
		os.WriteFile(p.Cfg, text, 0o600)
		p.Cmd.Process.Signal(syscall.SIGHUP)
		// there is no sign of the reload but its effect
		var why error
		deadline := time.Now().Add(patience)
		for n := 0; ; n++ {
			time.Sleep(time.Duration(50+20*n) * time.Millisecond)
			if why = tryReloaded(h, c, cur, dirs, fmt.Sprintf("t%d.%d", i, n)); why == nil || time.Now().After(deadline) || s.Bad != "" {
				break
			}
			if err := p.Died(); err != nil {
				return err
			}
		}
		if why != nil {
			return fmt.Errorf("reload %d (%+v): %w", i, s, why)
		}
	}
	if err := h.media(long, 5, true); err != nil {
		return err
	}
	red.OnPublish = nil
	p.Send(M{"id": "stopRecording", "recordingSessionId": "long"})
	g := p.WaitN("recordingStopped", "long", 1, patience)
	if len(g) != 1 || g[0].S("reason") != "stopped" {
		return fmt.Errorf("the recording that went on: %v", g)
	}
	b, _ := os.ReadFile(long.file)
	f := media.ParseWebm(b)
	if f.Err != nil {
		return fmt.Errorf("the recording that went on: %v", f.Err)
	}
	j := 0
	v := f.Of(1)
	for len(v) > 0 && j < long.warm && !bytes.Equal(v[0].Data, long.frames[j].Data) {
		j++
	}
	for i, b := range v {
		if !bytes.Equal(b.Data, long.frames[j+i].Data) {
			return fmt.Errorf("block %d of the recording that went on is not frame %d", i, j+i)
		}
	}
	if j+len(v) < long.sentF-2 {
		return fmt.Errorf("%d frames were sent, the recording that went on ends with frame %d", long.sentF, j+len(v)-1)
	}
	r.NonTrivial()
	return nil
}

// tryReloaded makes a recording and looks whether it follows s.
func tryReloaded(h *hist, c reloadCase, s reloadStep, dirs []string, name string) error {
	l, err := startSession(h.p, name, name+".webm", 0)
	if err != nil {
		return err
	}
	defer l.peer.Close()
	if err := h.media(l, 3, true); err != nil {
		return err
	}
	h.p.Send(M{"id": "stopRecording", "recordingSessionId": name})
	if len(h.p.WaitN("recordingStopped", name, 1, patience)) == 0 {
		return fmt.Errorf("session %q was not stopped", name)
	}
	if want := filepath.Join(dirs[s.Dir], name+".webm"); l.file != want {
		return fmt.Errorf("the recording is %s, not %s", l.file, want)
	}
	mode, _ := strconv.ParseUint(s.Mode, 0, 32)
	if c.Env {
		mode = 0o666
	}
	if fi, err := os.Stat(l.file); err != nil || fi.Mode().Perm() != os.FileMode(mode)&^umask() {
		return fmt.Errorf("the mode of %s is %v, it should be %o less the umask (%v)", l.file, fi.Mode(), mode, err)
	}
	_, err = os.Stat(strings.TrimSuffix(l.file, ".webm") + ".ivf")
	if s.IVF != (err == nil) {
		return fmt.Errorf("writeIVFCopy is %v, the copy: %v", s.IVF, err)
	}
	return nil
}

func TestC27(t *testing.T) {
	core.Prop("C27",
		core.F(core.Facet[confCase]{Name: "dump", Quick: 1500, Thorough: 60000, Gen: genConf, Run: runDump, ShrinkSeconds: 30}),
		core.F(core.Facet[effCase]{Name: "effect", Quick: 100, Thorough: 4000, Gen: genEff, Run: runEff, ShrinkSeconds: 30}),
		core.F(core.Facet[reloadCase]{Name: "reload", Quick: 100, Thorough: 4000, Gen: genReload, Run: runReload, ShrinkSeconds: 40})).Run(t)
}
