package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"mime"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// A run of the page's server on a directory of its own. It listens where it is
// told by the environment, if it was built to do so.

type pageStep struct {
	Op    string `json:"op"` // put, del, get
	Name  []int  `json:"name"`
	B     []int  `json:"b"`
	Path  []int  `json:"path"`
	Head  bool   `json:"head"`
	From  int    `json:"from"`
	To    int    `json:"to"`
	St    int    `json:"st"`
	Len   int    `json:"len"`
	Long  bool   `json:"long"` // the contents are too long to be noted here
	Ct    string `json:"ct"`
	Alien bool   `json:"alien"`

	times   int
	content []byte
}

type pagesEvent struct {
	K     string      `json:"k"`
	Args  int         `json:"args"`
	Up    bool        `json:"up"`
	Port  bool        `json:"port"`
	Exit  int         `json:"exit"`
	Told  bool        `json:"told"`
	Steps []*pageStep `json:"steps"`
}

const alien = "SECRET"

var pageFiles = []string{"index.html", "wasm_exec.js", "hwt.css", "style.css", "aqlparse.wasm"}

// noted is how contents are written down.
func noted(b []byte) []int {
	if len(b) > 200 {
		return codes(fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b)))
	}
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

// pageServer is the running server.
type pageServer struct {
	cmd    *exec.Cmd
	dial   func() (net.Conn, error)
	said   bytes.Buffer
	ended  chan struct{}
	err    error
	socket string
}

// serve starts the server in dir; nil if it ended instead.
func serve(tool, dir string, args []string, files int) *pageServer {
	s := &pageServer{ended: make(chan struct{}), socket: filepath.Join(dir, "socket")}
	s.cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -n %d; exec \"$0\" \"$@\"", files), tool}, args...)...)
	s.cmd.Dir = dir
	s.cmd.Env = append(os.Environ(), "AQLVERIF_LISTEN="+s.socket)
	s.cmd.Stdout, s.cmd.Stderr = &s.said, &s.said
	if err := s.cmd.Start(); err != nil {
		fatal(err)
	}
	go func() {
		s.err = s.cmd.Wait()
		close(s.ended)
	}()
	s.dial = func() (net.Conn, error) { return net.DialTimeout("unix", s.socket, 10*time.Second) }
	begin := time.Now()
	for {
		if c, err := s.dial(); err == nil {
			c.Close()
			return s
		}
		// it may listen in a way that cannot be redirected
		if time.Since(begin) > 5*time.Second {
			direct := func() (net.Conn, error) { return net.DialTimeout("tcp", "127.0.0.1:8080", 10*time.Second) }
			if c, err := direct(); err == nil {
				c.Close()
				s.dial = direct
				return s
			}
		}
		select {
		case <-s.ended:
			return s
		case <-time.After(2 * time.Millisecond):
		}
		if time.Since(begin) > 60*time.Second {
			s.stop()
			fatal(errors.New("the server neither listens nor ends"))
		}
	}
}

func (s *pageServer) up() bool {
	select {
	case <-s.ended:
		return false
	default:
		return true
	}
}

func (s *pageServer) stop() {
	s.cmd.Process.Kill()
	<-s.ended
}

// ask sends one request as it stands and follows where the answer leads.
func (s *pageServer) ask(st *pageStep) {
	st.St, st.Len, st.Ct, st.B, st.Alien = 0, -1, "", []int{}, false
	at := bytesFrom(st.Path)
	for hops := 0; hops < 6; hops++ {
		c, err := s.dial()
		if err != nil {
			return
		}
		method := "GET"
		if st.Head {
			method = "HEAD"
		}
		c.SetDeadline(time.Now().Add(60 * time.Second))
		fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n", method, at)
		if st.From >= 0 {
			fmt.Fprintf(c, "Range: bytes=%d-%d\r\n", st.From, st.To)
		}
		fmt.Fprint(c, "\r\n")
		req, _ := http.NewRequestWithContext(context.Background(), method, "http://localhost/", nil)
		res, err := http.ReadResponse(bufio.NewReader(c), req)
		if err != nil {
			c.Close()
			return
		}
		b, err := io.ReadAll(res.Body)
		c.Close()
		if err != nil {
			return
		}
		if bytes.Contains(b, []byte(alien)) {
			st.Alien = true
		}
		if loc := res.Header.Get("Location"); res.StatusCode/100 == 3 && loc != "" {
			// what the path was does not matter for relative ones but for its last slash
			base, _ := url.Parse("http://localhost/")
			if u, err := url.ParseRequestURI(at); err == nil {
				base = base.ResolveReference(&url.URL{Path: u.Path})
			}
			next, err := base.Parse(loc)
			if err != nil || next.Host != "localhost" {
				st.St = res.StatusCode
				return
			}
			at = next.RequestURI()
			continue
		}
		st.St, st.Len, st.B = res.StatusCode, int(res.ContentLength), noted(b)
		st.Ct, _, _ = mime.ParseMediaType(res.Header.Get("Content-Type"))
		return
	}
}

func (st *pageStep) same(o *pageStep) bool {
	return st.St == o.St && st.Len == o.Len && st.Ct == o.Ct && st.Alien == o.Alien && fmt.Sprint(st.B) == fmt.Sprint(o.B)
}

func playPages(o *Out, tool string, args []string, files int, steps []*pageStep) {
	top, err := os.MkdirTemp(filepath.Dir(o.evF.Name()), "page")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(top)
	must := func(err error) {
		if err != nil {
			fatal(err)
		}
	}
	site := filepath.Join(top, "site")
	must(os.MkdirAll(filepath.Join(site, "sub"), 0o700))
	for _, f := range []string{"secret.txt", "site/secret.txt", "site/index.html.bak", "site/sub/style.css", "site/sub/x.txt", "site/.hidden", "site/main.go"} {
		must(os.WriteFile(filepath.Join(top, f), []byte(alien+" "+f), 0o600))
	}
	for i, a := range args {
		args[i] = strings.ReplaceAll(a, "TOP", top)
	}
	e := pagesEvent{K: "pages", Args: len(args), Steps: steps}
	o.mark(fmt.Sprint(args))
	s := serve(tool, top, args, files)
	e.Up = s.up()
	if e.Up {
		long := false
		for _, st := range steps {
			switch st.Op {
			case "put":
				must(os.WriteFile(filepath.Join(site, string(bytesFrom(st.Name))), st.content, 0o600))
				long = long || len(st.content) > 200
			case "del":
				if err := os.Remove(filepath.Join(site, string(bytesFrom(st.Name)))); err != nil && !errors.Is(err, os.ErrNotExist) {
					fatal(err)
				}
			case "get":
				s.ask(st)
				st.Long = long
				first := *st
				for k := 1; k < st.times && first.same(st); k++ {
					s.ask(st)
				}
			}
		}
		// serving to the end
		e.Up = s.up()
		s.stop()
	} else {
		e.Exit = s.cmd.ProcessState.ExitCode()
	}
	e.Told = strings.TrimSpace(s.said.String()) != ""
	e.Port = true
	if b, err := os.ReadFile(s.socket + ".asked"); err == nil {
		e.Port = strings.HasSuffix(string(b), ":8080")
	}
	var told []string
	for _, st := range steps {
		switch st.Op {
		case "get":
			told = append(told, fmt.Sprintf("get %q head=%v part=%d..%d times=%d: %d %s %d bytes %q alien=%v", bytesFrom(st.Path), st.Head, st.From, st.To, max(st.times, 1), st.St, st.Ct, st.Len, bytesFrom(st.B), st.Alien))
		default:
			told = append(told, fmt.Sprintf("%s %s %q", st.Op, bytesFrom(st.Name), bytesFrom(st.B)))
		}
	}
	o.add(e, map[string]any{"arguments": args, "open files allowed": files, "serves": e.Up, "exit": e.Exit, "steps": told})
}

func put(name string, b []byte) *pageStep {
	return &pageStep{Op: "put", Name: codes(name), B: noted(b), Path: []int{}, From: -1, To: -1, content: b}
}

// pagePath draws a path that somebody may ask for.
func (g *Gen) pagePath() string {
	name := pageFiles[g.n(len(pageFiles))]
	switch g.n(12) {
	case 0, 1, 2, 3:
		return "/" + name
	case 4, 5:
		return "/"
	case 6:
		return "/" + g.pick("secret.txt", "index.html.bak", "sub/style.css", "sub/x.txt", ".hidden", "main.go", "sub", "sub/", "server/main.go", "favicon.ico", "socket", "..", ".", "...",
			"../secret.txt", "%2e%2e/secret.txt", "..%2fsecret.txt", "..%5csecret.txt", "site/style.css", "etc/passwd", "../../../../../../etc/passwd", "%2e%2e%2f%2e%2e%2fetc%2fpasswd", "%00", "index.html%00", "-", "~")
	case 7:
		return "/" + g.pick(strings.ToUpper(name), name+"~", name+".bak", name[:len(name)-1], name+"%20", "x"+name, name+"/..", name+"/x", "index.htm", "index", name+";x")
	case 8:
		return g.pick("//", "/./", "/sub/../", "/x/../", "/../", "/x/y/../../", "/%2e/", "/sub/%2e%2e/", "///") + name
	case 9:
		var sb strings.Builder
		for _, c := range name {
			if g.pct(30) {
				fmt.Fprintf(&sb, g.pick("%%%02x", "%%%02X"), c)
			} else {
				sb.WriteRune(c)
			}
		}
		return "/" + sb.String()
	case 10:
		return g.pick("/", "/"+name) + "?" + g.pick("", "v=1", "file=secret.txt", "/../secret.txt", "a=b&c=d")
	}
	return "/" + name + g.pick("/", "/.", "//", "/./")
}

func drivePages(g *Gen, o *Out, n int, tool string) {
	for o.n < n {
		if g.pct(1) {
			playPages(o, tool, [][]string{{}, {"site", "site"}, {"site", "secret.txt", "x"}}[g.n(3)], 256, []*pageStep{})
			continue
		}
		var steps []*pageStep
		version := 0
		content := func(name string) []byte {
			version++
			if g.pct(4) {
				return []byte{}
			}
			if g.pct(4) {
				return bytes.Repeat([]byte(fmt.Sprintf("%s %d\n", name, version)), g.rng(20, 20000))
			}
			b := []byte(fmt.Sprintf("%s%s %d", g.pick("", "\x00asm", "<html>", "\xff\xfe"), name, version))
			return b
		}
		for _, f := range pageFiles {
			if g.pct(85) {
				steps = append(steps, put(f, content(f)))
			}
		}
		for k := g.rng(2, 12); k > 0; k-- {
			f := pageFiles[g.n(len(pageFiles))]
			switch x := g.n(20); {
			case x < 3:
				steps = append(steps, put(f, content(f)))
			case x < 4:
				steps = append(steps, &pageStep{Op: "del", Name: codes(f), B: []int{}, Path: []int{}, From: -1, To: -1})
			default:
				st := &pageStep{Op: "get", Name: []int{}, B: []int{}, Path: codes(g.pagePath()), From: -1, To: -1}
				switch {
				case g.pct(10):
					st.Head = true
				case g.pct(10):
					st.From = g.n(4)
					st.To = st.From + g.n(5)
				case g.pct(6):
					st.times = g.rng(50, 120)
				}
				steps = append(steps, st)
			}
		}
		long := false
		for _, st := range steps {
			if long = long || len(st.content) > 200; long && st.From >= 0 {
				st.From, st.To = -1, -1
			}
		}
		playPages(o, tool, []string{g.pick("site", "site/", "./site", "TOP/site", "site/sub/..")}, 48, steps)
	}
}

func (c *testCase) pages(o *Out, tool string) {
	var steps []*pageStep
	for _, x := range c.Calls {
		x := *x
		if x.Name == nil {
			x.Name = []int{}
		}
		if x.Path == nil {
			x.Path = []int{}
		}
		if x.B == nil {
			x.B = []int{}
		}
		if x.Op != "get" {
			x.From, x.To = -1, -1
		}
		x.content = []byte(bytesFrom(x.B))
		steps = append(steps, &x)
	}
	playPages(o, tool, []string{"site"}, 48, steps)
}
