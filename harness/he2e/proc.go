package he2e

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/pion/stun"
)

const (
	SubCh = "to-recorder"
	PubCh = "from-recorder"
)

// slack scales all patience; checks run on busy machines.
const patience = 20 * time.Second

// Stun is a STUN server on the loopback interface: with it, the recorder offers
// a loopback candidate whatever interfaces the machine has.
type Stun struct {
	c    net.PacketConn
	Addr string
}

var (
	stunOnce sync.Once
	theStun  *Stun
)

func stunServer() *Stun {
	stunOnce.Do(func() {
		c, err := net.ListenPacket("udp4", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		theStun = &Stun{c: c, Addr: c.LocalAddr().String()}
		go func() {
			b := make([]byte, 2000)
			for {
				n, from, err := c.ReadFrom(b)
				if err != nil {
					return
				}
				m := &stun.Message{Raw: append([]byte{}, b[:n]...)}
				if m.Decode() != nil || m.Type != stun.BindingRequest {
					continue
				}
				u := from.(*net.UDPAddr)
				res, err := stun.Build(stun.NewTransactionIDSetter(m.TransactionID), stun.BindingSuccess,
					&stun.XORMappedAddress{IP: u.IP, Port: u.Port}, stun.Fingerprint)
				if err == nil {
					c.WriteTo(res.Raw, from)
				}
			}
		}()
	})
	return theStun
}

// Opts says how to run a recorder.
type Opts struct {
	Config   map[string]any // merged into the default configuration
	Env      []string
	Args     []string
	Redis    *Redis
	Dir      string // recording directory (created)
	Prom     bool
	HTTP     bool
	Sub, Pub string
	Limit    int // file size limit, in bytes
	Nofile   int

	RawConfig string // a configuration file to be used as it is
}

// Proc is a running recorder.
type Proc struct {
	Cmd   *exec.Cmd
	Redis *Redis
	Root  string // scratch directory of the process
	Dir   string // recording directory
	Prom  string
	HTTP  string
	Cfg   string
	out   *os.File
	done  chan struct{}
	err   error
	sub   string
	pub   string
	ownR  bool
	Asked int // status requests sent
}

var nextPort atomic.Int64

// freePort gives a port for a server of the recorder's. Every shard has a range
// of its own, below that of the ports that the system picks.
func freePort() int {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	for i := 0; i < 1000; i++ {
		port := 10000 + shard%16*850 + int(nextPort.Add(1)%850)
		if l, err := net.Listen("tcp", ":"+strconv.Itoa(port)); err == nil {
			l.Close()
			return port
		}
	}
	panic(core.HarnessError{Why: "no free port"})
}

func merge(dst, src map[string]any) {
	for k, v := range src {
		if m, ok := v.(map[string]any); ok {
			if d, ok := dst[k].(map[string]any); ok {
				merge(d, m)
				continue
			}
		}
		dst[k] = v
	}
}

// M abbreviates configuration maps.
type M = map[string]any

var binary = os.Getenv("VERIF_BIN")

// Start runs a recorder and waits until it has subscribed.
func Start(o Opts) *Proc {
	root, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "p")
	if err != nil {
		panic(err)
	}
	p := &Proc{Root: root, Dir: o.Dir, done: make(chan struct{}), Redis: o.Redis, sub: o.Sub, pub: o.Pub}
	if p.sub == "" {
		p.sub = SubCh
	}
	if p.pub == "" {
		p.pub = PubCh
	}
	if p.Redis == nil {
		p.Redis = NewRedis("")
		p.ownR = true
	}
	if p.Dir == "" {
		p.Dir = filepath.Join(root, "rec")
	}
	os.MkdirAll(p.Dir, 0o755)
	cfg := M{
		"log":      M{"level": envOr("VERIF_LOG", "WARN")},
		"recorder": M{"directory": p.Dir},
		"pubsub": M{"channels": M{"subscribe": p.sub, "publish": p.pub}, "adapter": "redis",
			"adapters": M{"redis": M{"address": p.Redis.Addr, "network": "tcp", "password": p.Redis.password}}},
		"webrtc": M{"rtcMinPort": 24577, "rtcMaxPort": 32768, "jitterBuffer": 512, "jitterBufferPktTimeout": 200,
			"iceServers": []any{M{"urls": []any{"stun:" + stunServer().Addr}}}},
	}
	if o.Prom {
		p.Prom = "127.0.0.1:" + strconv.Itoa(freePort())
		cfg["prometheus"] = M{"enable": true, "listenAddress": p.Prom}
	}
	if o.HTTP {
		port := freePort()
		p.HTTP = "127.0.0.1:" + strconv.Itoa(port)
		cfg["http"] = M{"enable": true, "port": port}
	}
	merge(cfg, o.Config)
	p.Cfg = filepath.Join(root, "config.yml")
	b, _ := json.Marshal(cfg) // JSON is YAML
	if err := os.WriteFile(p.Cfg, b, 0o600); err != nil {
		panic(err)
	}
	if o.RawConfig != "" {
		p.Cfg = o.RawConfig
	}
	p.out, err = os.Create(filepath.Join(root, "log"))
	if err != nil {
		panic(err)
	}
	args := append([]string{"-c", p.Cfg}, o.Args...)
	name := binary
	if o.Limit > 0 || o.Nofile > 0 {
		sh := ""
		if o.Limit > 0 {
			sh += fmt.Sprintf("ulimit -f %d; ", (o.Limit+511)/512)
		}
		if o.Nofile > 0 {
			sh += fmt.Sprintf("ulimit -n %d; ", o.Nofile)
		}
		args = append([]string{"-c", sh + "exec \"$0\" \"$@\"", binary}, args...)
		name = "/bin/sh"
		p.out.Close() // the log would run into the limit
		p.out, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
	p.Cmd = exec.Command(name, args...)
	p.Cmd.Dir = root
	p.Cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + root, "GOTRACEBACK=all"}, o.Env...)
	p.Cmd.Stdout, p.Cmd.Stderr = p.out, p.out
	p.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.Cmd.Start(); err != nil {
		panic(err)
	}
	go func() { p.err = p.Cmd.Wait(); close(p.done) }()
	return p
}

// Ready waits for the subscription and the announcement that goes with it.
func (p *Proc) Ready() error {
	ok := p.Redis.Wait(patience, func(m []Msg) bool {
		return !p.Alive() || len(p.Redis.targets(p.sub, nil)) > 0 && len(p.of(m, "recorderStatus", "")) > 0
	})
	if !p.Alive() {
		return fmt.Errorf("the recorder exited at startup: %v\n%s", p.err, p.Log())
	}
	if !ok {
		return fmt.Errorf("no recorderStatus within %v of starting\n%s", patience, p.Log())
	}
	return nil
}

// MustStart starts a recorder that must come up.
func MustStart(o Opts) *Proc {
	p := Start(o)
	if err := p.Ready(); err != nil {
		p.Stop()
		panic(core.Fail{Msg: err.Error()})
	}
	return p
}

func (p *Proc) Alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func (p *Proc) Log() string {
	b, _ := os.ReadFile(filepath.Join(p.Root, "log"))
	s := string(b)
	if i := strings.Index(s, "panic: "); i >= 0 && i < len(s)-3000 {
		return s[i : i+3000]
	}
	if i := strings.Index(s, "fatal error: "); i >= 0 && i < len(s)-3000 {
		return s[i : i+3000]
	}
	if len(s) > 3000 {
		s = "…" + s[len(s)-3000:]
	}
	return s
}

// Died is an error if the process is gone.
func (p *Proc) Died() error {
	if p.Alive() {
		return nil
	}
	return fmt.Errorf("the recorder process ended: %v\n%s", p.err, p.Log())
}

// Stop ends the process and removes its files.
func (p *Proc) Stop() {
	p.Cmd.Process.Kill()
	<-p.done
	p.out.Close()
	if p.ownR {
		p.Redis.Close()
	}
	if os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(p.Root)
	}
}

// Event is a published message, decoded.
type Event map[string]any

func (e Event) S(k string) string  { s, _ := e[k].(string); return s }
func (e Event) Has(k string) bool  { _, ok := e[k]; return ok }
func (e Event) F(k string) float64 { f, _ := e[k].(float64); return f }

func decode(m Msg) Event {
	var e Event
	if json.Unmarshal(m.Data, &e) != nil {
		return Event{}
	}
	return e
}

// Got is a published event with its place in the order of things.
type Got struct {
	Event
	At time.Time
	N  int
}

func (p *Proc) of(ms []Msg, id, sid string) (out []Got) {
	for _, m := range ms {
		if m.Channel != p.pub {
			continue
		}
		if e := decode(m); e.S("id") == id && (sid == "" || e.S("recordingSessionId") == sid) {
			out = append(out, Got{e, m.At, m.N})
		}
	}
	return
}

// Of gives the events with an id (and of a session) published so far.
func (p *Proc) Of(id, sid string) []Got { return p.of(p.Redis.Msgs(), id, sid) }

// WaitN waits until n such events have been published.
func (p *Proc) WaitN(id, sid string, n int, d time.Duration) []Got {
	var out []Got
	p.Redis.Wait(d, func(ms []Msg) bool {
		out = p.of(ms, id, sid)
		return len(out) >= n || !p.Alive()
	})
	return out
}

// Send sends a control message.
func (p *Proc) Send(v any) {
	b, ok := v.([]byte)
	if !ok {
		b, _ = json.Marshal(v)
	}
	p.Redis.Send(p.sub, b)
}

// Barrier returns when everything sent before has been handled.
func (p *Proc) Barrier() error {
	p.Asked++
	n := p.Asked
	p.Send(M{"id": "getRecorderStatus"})
	if got := p.WaitN("recorderStatus", "", n+1, patience); len(got) <= n {
		if err := p.Died(); err != nil {
			return err
		}
		return fmt.Errorf("getRecorderStatus was not answered within %v\n%s", patience, p.Log())
	}
	return nil
}

// Gauge reads the sessions gauge.
func (p *Proc) Gauge() (float64, error) {
	var last error
	for i := 0; i < 50; i++ {
		res, err := http.Get("http://" + p.Prom + "/metrics")
		if err == nil {
			b, _ := io.ReadAll(res.Body)
			res.Body.Close()
			for _, l := range bytes.Split(b, []byte("\n")) {
				if s := strings.TrimPrefix(string(l), "recorder_sessions "); s != string(l) {
					return strconv.ParseFloat(s, 64)
				}
			}
			return 0, fmt.Errorf("the metrics have no recorder_sessions")
		}
		last = err
		time.Sleep(20 * time.Millisecond)
	}
	return 0, last
}

var (
	versionOnce sync.Once
	version     string
)

// Version is what the binary says its version is.
func Version() string {
	versionOnce.Do(func() {
		b, err := exec.Command(binary, "-v").Output()
		if err == nil {
			f := strings.Fields(string(b))
			version = f[len(f)-1]
		}
	})
	return version
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
