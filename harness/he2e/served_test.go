package he2e

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/core"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifpbt/rapid"
	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
)

type svFile struct {
	Path string // below the recorder directory
	N    int    // size
}

type svReq struct {
	Method string
	Target string `json:",omitempty"` // as it goes over the wire, unless it is about a file
	File   int    // 1 + index of a file
	Enc    int    `json:",omitempty"` // how its path is spelled
	From   int    `json:",omitempty"` // a range
	To     int    `json:",omitempty"`
	Body   bool   `json:",omitempty"`
}

type svCase struct {
	Dir   int // spelling of the directory in the configuration
	Files []svFile
	Reqs  []svReq
}

var svNames = []string{"a.webm", "b c.webm", "日本.webm", "100%.webm", "%2e%2e", "a#b.webm", "q?x.webm", "..a", "a..", ".hidden", "x&y=z.webm", "ü.mkv", "A.WEBM", "a+b.webm", "d;e.webm", "media", "'q'.webm", "~", "a:b.webm", "page.html", "LONG" + strings.Repeat("x", 200)}

func genServed(t *rapid.T) svCase {
	c := svCase{Dir: rapid.IntRange(0, 4).Draw(t, "directory")}
	used := map[string]bool{}
	for i := rapid.IntRange(1, 8).Draw(t, "files"); i > 0; i-- {
		f := svFile{Path: rapid.SampledFrom(svNames).Draw(t, "name"), N: rapid.SampledFrom([]int{0, 1, 10, 600, 5000, 100000, 2000000}).Draw(t, "size")}
		for d := rapid.IntRange(0, 2).Draw(t, "depth"); d > 0; d-- {
			f.Path = rapid.SampledFrom([]string{"room", "my room", "..room", "1%2f2", "日本"}).Draw(t, "folder") + "/" + f.Path
		}
		if !used[f.Path] {
			used[f.Path] = true
			c.Files = append(c.Files, f)
		}
	}
	for i := rapid.IntRange(3, 25).Draw(t, "requests"); i > 0; i-- {
		q := svReq{Method: "GET"}
		switch rapid.IntRange(0, 5).Draw(t, "request") {
		case 0, 1, 2:
			q.File = rapid.IntRange(1, len(c.Files)).Draw(t, "file")
			q.Enc = rapid.IntRange(0, 2).Draw(t, "spelling")
			q.Method = rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "HEAD", "PUT", "DELETE", "POST", "PATCH", "MOVE"}).Draw(t, "method")
			q.Body = q.Method != "GET" && q.Method != "HEAD"
			if n := c.Files[q.File-1].N; q.Method == "GET" && n > 1 && rapid.IntRange(0, 2).Draw(t, "range") == 0 {
				q.From = rapid.IntRange(0, n-1).Draw(t, "from")
				q.To = rapid.IntRange(q.From, n-1).Draw(t, "to") + 1
			}
		default:
			s := "/media"
			for k := rapid.IntRange(1, 6).Draw(t, "pieces"); k > 0; k-- {
				s += rapid.SampledFrom([]string{"/..", "/..", "/%2e%2e", "/.%2e", "/..%2f", "/..%2F..", "/%2e%2e%2f", "//", "/.", "/room", "/..room", "\\..", "/..\\", "%5c..", "/..%5c", "/...", "/..;", "/%252e%252e", "/%c0%ae%c0%ae", "/..%00", "/media", "?", "#"}).Draw(t, "piece")
			}
			s += rapid.SampledFrom([]string{"/secret", "/secret", "/rec2/secret", "/secret/", "", "/", "secret", "%2fsecret", "/sdp", "/index.html"}).Draw(t, "end")
			if rapid.IntRange(0, 5).Draw(t, "front") == 0 {
				s = rapid.SampledFrom([]string{"/", "//", "/../", "/%2e%2e/", "http://x/media/../", "/media2", "*"}).Draw(t, "prefix") + strings.TrimPrefix(s, "/media")
			}
			q.Target = s
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

func svBody(i, n int) []byte {
	b := make([]byte, n)
	x := uint32(i)*2654435761 + 12345
	for j := range b {
		x = x*1664525 + 1013904223
		b[j] = byte(x >> 24)
	}
	return b
}

// treeOf lists what is in a directory.
func treeOf(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			l = append(l, p+" "+err.Error())
			return nil
		}
		l = append(l, fmt.Sprintf("%s %v %d %d", p, i.Mode(), i.Size()*map[bool]int64{true: 0, false: 1}[i.IsDir()], i.ModTime().UnixNano()*map[bool]int64{true: 0, false: 1}[i.IsDir()]))
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// wire sends a request as it is.
func wire(addr, method, target, head string, body []byte) (*http.Response, []byte, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(patience))
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n%s", method, target, head)
	if body != nil {
		fmt.Fprintf(c, "Content-Length: %d\r\n", len(body))
	}
	c.Write(append([]byte("\r\n"), body...))
	res, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return nil, nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res, b, err
}

const svSecret = "this-is-not-for-everyone"

func runServed(c svCase, r *core.Rec) error {
	root, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "s")
	must(err)
	defer os.RemoveAll(root)
	rec := filepath.Join(root, "rec")
	for i, f := range c.Files {
		p := filepath.Join(rec, f.Path)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if os.WriteFile(p, svBody(i, f.N), 0o644) != nil {
			return nil // one file where another has a folder
		}
	}
	os.MkdirAll(filepath.Join(root, "rec2"), 0o755)
	for _, s := range []string{"secret", "rec2/secret", "index.html"} {
		must(os.WriteFile(filepath.Join(root, s), []byte(svSecret), 0o644))
	}
	dir := []string{rec, rec + "/", rec + "//", filepath.Join(root, "rec2") + "/../rec", root + "/./rec/."}[c.Dir]
	red := NewRedis("")
	defer red.Close()
	p := MustStart(Opts{Redis: red, HTTP: true, Dir: rec, Config: M{"recorder": M{"directory": dir}}})
	defer p.Stop()
	if err := p.httpUp(); err != nil {
		return err
	}
	before := treeOf(root)
	page, err := web.PublicEmbedFS.ReadFile("public/index.html")
	must(err)
	reqs := append(c.Reqs, svReq{Method: "GET", Target: "/"})
	for i := range c.Files {
		reqs = append(reqs, svReq{Method: "GET", File: i + 1})
	}
	for i, q := range reqs {
		target, head := q.Target, ""
		var want []byte
		if q.File > 0 {
			f := c.Files[q.File-1]
			want = svBody(q.File-1, f.N)
			switch q.Enc {
			case 0:
				target = "/media/" + (&url.URL{Path: f.Path}).EscapedPath()
			case 1: // everything escaped
				target = "/media/"
				for _, b := range []byte(f.Path) {
					if b == '/' {
						target += "/"
					} else {
						target += fmt.Sprintf("%%%02x", b)
					}
				}
			case 2:
				target = (&url.URL{Path: "/media/" + f.Path}).EscapedPath()
				target = strings.ReplaceAll(target, "+", "%2B")
			}
			if q.To > 0 {
				head = fmt.Sprintf("Range: bytes=%d-%d\r\n", q.From, q.To-1)
			}
		}
		var body []byte
		if q.Body {
			body = []byte("overwritten")
		}
		res, got, err := wire(p.HTTP, q.Method, target, head, body)
		if e := p.Died(); e != nil {
			return fmt.Errorf("request %d, %s %q: %w", i, q.Method, target, e)
		}
		if err != nil {
			if q.File > 0 {
				return fmt.Errorf("%s %q: %v", q.Method, target, err)
			}
			continue // not HTTP
		}
		if bytes.Contains(got, []byte(svSecret)) {
			return fmt.Errorf("%s %q gives a file outside the recorder directory", q.Method, target)
		}
		switch {
		case q.File > 0 && q.Method == "GET":
			code := 200
			if q.To > 0 {
				code, want = 206, want[q.From:q.To]
				r.Label("range")
			}
			if res.StatusCode != code || !bytes.Equal(got, want) {
				return fmt.Errorf("%s %q (%s) gives %d with %d bytes instead of the %d bytes asked for", q.Method, target, head, res.StatusCode, len(got), len(want))
			}
			r.Label("file")
		case q.File > 0 && q.Method == "HEAD":
			if res.StatusCode != 200 || res.ContentLength != int64(len(want)) {
				return fmt.Errorf("HEAD %q gives %d, length %d instead of %d", target, res.StatusCode, res.ContentLength, len(want))
			}
		case target == "/":
			if res.StatusCode != 200 || !bytes.Equal(got, page) {
				return fmt.Errorf("GET / gives %d with %d bytes instead of the page", res.StatusCode, len(got))
			}
		default:
			r.LabelIf(q.File == 0, "traversal")
			r.LabelIf(q.Method != "GET", "other method")
			r.NonTrivialIf(q.File == 0)
		}
		if res.StatusCode/100 == 3 {
			// where it points to is a request like any other
			if u, err := url.Parse(res.Header.Get("Location")); err == nil {
				_, got, err := wire(p.HTTP, "GET", u.EscapedPath(), "", nil)
				if err == nil && bytes.Contains(got, []byte(svSecret)) {
					return fmt.Errorf("%s %q redirects to %q, which gives a file outside the recorder directory", q.Method, target, res.Header.Get("Location"))
				}
				r.Label("redirect")
			}
		}
	}
	if after := treeOf(root); after != before {
		return fmt.Errorf("requests changed files; before:\n%s\nafter:\n%s", before, after)
	}
	return p.Barrier()
}

func TestC34(t *testing.T) {
	core.Prop("C34",
		core.F(core.Facet[svCase]{Name: "requests", Quick: 600, Thorough: 20000, Gen: genServed, Run: runServed, ShrinkSeconds: 40}),
	).Run(t)
}
