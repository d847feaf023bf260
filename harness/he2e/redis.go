// Package he2e drives the real recorder binary: a fake Redis carries the
// control messages, pion peers send the media.
package he2e

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"path"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Msg is something the recorder published.
type Msg struct {
	At      time.Time
	Channel string
	Data    []byte
	N       int // running number
}

// Redis is a fake Redis server.
type Redis struct {
	l        net.Listener
	Addr     string
	password string

	mu     sync.Mutex
	cond   *sync.Cond
	msgs   []Msg
	subs   map[string][]*rconn
	psubs  map[string][]*rconn // patterns
	Unauth []string            // commands that came without the password
	Auths  int
	Bad    []string // protocol errors
	closed bool
	conns  []*rconn
	// OnPublish is called before a PUBLISH is answered, so the recorder waits.
	OnPublish func(Msg)
	muted     map[string]bool
}

type rconn struct {
	net.Conn
	r      *bufio.Reader
	w      sync.Mutex
	authed bool
	nsub   int
}

func NewRedis(password string) *Redis {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	r := &Redis{l: l, Addr: l.Addr().String(), password: password, subs: map[string][]*rconn{}, psubs: map[string][]*rconn{}}
	r.cond = sync.NewCond(&r.mu)
	go r.serve()
	return r
}

func (r *Redis) Close() {
	r.l.Close()
	r.mu.Lock()
	r.closed = true
	for _, c := range r.conns {
		c.Close()
	}
	r.cond.Broadcast()
	r.mu.Unlock()
}

func (r *Redis) serve() {
	for {
		c, err := r.l.Accept()
		if err != nil {
			return
		}
		rc := &rconn{Conn: c, r: bufio.NewReader(c)}
		r.mu.Lock()
		r.conns = append(r.conns, rc)
		r.mu.Unlock()
		go r.conn(rc)
	}
}

func readCommand(b *bufio.Reader) ([][]byte, error) {
	line, err := b.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		return nil, fmt.Errorf("inline command %q", line)
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 1 || n > 100 {
		return nil, fmt.Errorf("bad array header %q", line)
	}
	var out [][]byte
	for i := 0; i < n; i++ {
		h, err := b.ReadString('\n')
		if err != nil {
			return nil, err
		}
		h = strings.TrimRight(h, "\r\n")
		l, err := strconv.Atoi(strings.TrimPrefix(h, "$"))
		if err != nil || l < 0 || !strings.HasPrefix(h, "$") {
			return nil, fmt.Errorf("bad bulk header %q", h)
		}
		d := make([]byte, l+2)
		if _, err := io.ReadFull(b, d); err != nil {
			return nil, err
		}
		out = append(out, d[:l])
	}
	return out, nil
}

func (c *rconn) write(s []byte) {
	c.w.Lock()
	c.SetWriteDeadline(time.Now().Add(10 * time.Second))
	c.Conn.Write(s)
	c.w.Unlock()
}

func bulk(b []byte) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(b), b) }

func (r *Redis) conn(c *rconn) {
	defer func() {
		c.Close()
		r.mu.Lock()
		for k, l := range r.subs {
			var keep []*rconn
			for _, x := range l {
				if x != c {
					keep = append(keep, x)
				}
			}
			r.subs[k] = keep
		}
		for k, l := range r.psubs {
			var keep []*rconn
			for _, x := range l {
				if x != c {
					keep = append(keep, x)
				}
			}
			r.psubs[k] = keep
		}
		r.cond.Broadcast()
		r.mu.Unlock()
	}()
	for {
		cmd, err := readCommand(c.r)
		if err != nil {
			if err != io.EOF && !strings.Contains(err.Error(), "reset") && !strings.Contains(err.Error(), "closed") && err != io.ErrUnexpectedEOF {
				r.mu.Lock()
				r.Bad = append(r.Bad, err.Error())
				r.mu.Unlock()
			}
			return
		}
		name := strings.ToUpper(string(cmd[0]))
		if name == "AUTH" {
			r.mu.Lock()
			r.Auths++
			r.mu.Unlock()
			if r.password == "" {
				c.write([]byte("-ERR Client sent AUTH, but no password is set\r\n"))
			} else if string(cmd[len(cmd)-1]) == r.password {
				c.authed = true
				c.write([]byte("+OK\r\n"))
			} else {
				c.write([]byte("-WRONGPASS invalid username-password pair or user is disabled.\r\n"))
			}
			continue
		}
		if r.password != "" && !c.authed {
			r.mu.Lock()
			r.Unauth = append(r.Unauth, name)
			r.mu.Unlock()
			c.write([]byte("-NOAUTH Authentication required.\r\n"))
			continue
		}
		switch name {
		case "PING":
			if c.nsub > 0 {
				c.write([]byte("*2\r\n" + bulk([]byte("pong")) + bulk(append([]byte{}, cmd[len(cmd)-1]...))))
			} else {
				c.write([]byte("+PONG\r\n"))
			}
		case "SUBSCRIBE":
			for _, ch := range cmd[1:] {
				c.nsub++
				c.write([]byte(fmt.Sprintf("*3\r\n$9\r\nsubscribe\r\n%s:%d\r\n", bulk(ch), c.nsub)))
				r.mu.Lock()
				r.subs[string(ch)] = append(r.subs[string(ch)], c)
				r.cond.Broadcast()
				r.mu.Unlock()
			}
		case "PSUBSCRIBE":
			for _, ch := range cmd[1:] {
				c.nsub++
				c.write([]byte(fmt.Sprintf("*3\r\n$10\r\npsubscribe\r\n%s:%d\r\n", bulk(ch), c.nsub)))
				r.mu.Lock()
				r.psubs[string(ch)] = append(r.psubs[string(ch)], c)
				r.cond.Broadcast()
				r.mu.Unlock()
			}
		case "UNSUBSCRIBE":
			c.nsub = 0
			c.write([]byte("*3\r\n$11\r\nunsubscribe\r\n$-1\r\n:0\r\n"))
		case "PUBLISH":
			if len(cmd) != 3 {
				c.write([]byte("-ERR wrong number of arguments for 'publish' command\r\n"))
				continue
			}
			r.mu.Lock()
			m := Msg{At: time.Now(), Channel: string(cmd[1]), Data: cmd[2]}
			hook := r.OnPublish
			r.mu.Unlock()
			if hook != nil {
				hook(m)
			}
			r.mu.Lock()
			m.N = len(r.msgs)
			r.msgs = append(r.msgs, m)
			r.cond.Broadcast()
			muted := r.muted[m.Channel]
			r.mu.Unlock()
			n := 0
			if !muted {
				n = r.Send(m.Channel, m.Data)
			}
			c.write([]byte(fmt.Sprintf(":%d\r\n", n)))
		case "QUIT":
			c.write([]byte("+OK\r\n"))
			return
		case "CLIENT", "SELECT":
			c.write([]byte("+OK\r\n"))
		default:
			r.mu.Lock()
			r.Bad = append(r.Bad, "command "+name)
			r.mu.Unlock()
			c.write([]byte("-ERR unknown command\r\n"))
		}
	}
}

// target is a connection that gets a message, and what it gets.
type target struct {
	c *rconn
	b []byte
}

// targets tells who gets a message (called under the lock).
func (r *Redis) targets(channel string, data []byte) (l []target) {
	for _, c := range r.subs[channel] {
		l = append(l, target{c, []byte("*3\r\n$7\r\nmessage\r\n" + bulk([]byte(channel)) + bulk(data))})
	}
	for p, cs := range r.psubs {
		if ok, _ := path.Match(p, channel); ok {
			for _, c := range cs {
				l = append(l, target{c, []byte("*4\r\n$8\r\npmessage\r\n" + bulk([]byte(p)) + bulk([]byte(channel)) + bulk(data))})
			}
		}
	}
	return
}

// Send publishes a message to the subscribers of a channel, cut into pieces of
// the given sizes (the last of which repeats) with a pause in between.
func (r *Redis) Send(channel string, data []byte, pieces ...int) int {
	return r.SendAll([]Msg{{Channel: channel, Data: data}}, pieces...)
}

// SendAll publishes messages in one go, cut into pieces regardless of where one
// ends and the next begins.
func (r *Redis) SendAll(ms []Msg, pieces ...int) int {
	r.mu.Lock()
	var order []*rconn
	all := map[*rconn][]byte{}
	for _, m := range ms {
		for _, t := range r.targets(m.Channel, m.Data) {
			if all[t.c] == nil {
				order = append(order, t.c)
			}
			all[t.c] = append(all[t.c], t.b...)
		}
	}
	r.mu.Unlock()
	for _, s := range order {
		b := all[s]
		for i := 0; len(pieces) > 0 && len(b) > 0 && i < 60; i++ {
			n := pieces[i%len(pieces)]
			if n <= 0 || n > len(b) {
				n = len(b)
			}
			s.write(b[:n])
			b = b[n:]
			if len(b) > 0 {
				time.Sleep(200 * time.Microsecond)
			}
		}
		if len(b) > 0 {
			s.write(b)
		}
	}
	return len(order)
}

// Mute keeps what the recorder publishes on a channel from its subscribers.
func (r *Redis) Mute(channel string, on bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.muted == nil {
		r.muted = map[string]bool{}
	}
	r.muted[channel] = on
}

// Drop closes the connections that listen to a channel.
func (r *Redis) Drop(channel string) {
	r.mu.Lock()
	l := r.targets(channel, nil)
	delete(r.subs, channel)
	r.psubs = map[string][]*rconn{}
	r.mu.Unlock()
	for _, t := range l {
		t.c.Close()
	}
}

// Subscribers tells how many connections listen to a channel.
func (r *Redis) Subscribers(channel string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.targets(channel, nil))
}

// Wait blocks until ok holds for the messages so far (called under the lock).
func (r *Redis) Wait(d time.Duration, ok func(m []Msg) bool) bool {
	deadline := time.Now().Add(d)
	stop := time.AfterFunc(d+5*time.Millisecond, func() { r.mu.Lock(); r.cond.Broadcast(); r.mu.Unlock() })
	defer stop.Stop()
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if ok(r.msgs) {
			return true
		}
		if r.closed || time.Now().After(deadline) {
			return false
		}
		r.cond.Wait()
	}
}

// Msgs gives a copy of what was published so far.
func (r *Redis) Msgs() []Msg {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]Msg(nil), r.msgs...)
}

// NUnauth counts the commands that came without the password.
func (r *Redis) NUnauth() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Unauth)
}
