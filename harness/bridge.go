package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
)

// What the browser bridge, run the way a browser runs it, says about a query,
// next to what the library says.

type bridgeMark struct {
	Ty   string `json:"ty"`
	S    int    `json:"s"` // in UTF-16 code units
	E    int    `json:"e"`
	Told bool   `json:"told"` // there is a text
}

type bridgeEvent struct {
	K   string       `json:"k"`
	Q   []int        `json:"q"`
	R   string       `json:"r"`   // library: ok, err or P
	B   int          `json:"b"`   // its error: first character, -1 if there is none
	Len int          `json:"len"` // and number of characters
	Up  bool         `json:"up"`  // the bridge answered
	Ast string       `json:"ast"` // none, same (as that of the library) or other
	Ms  []bridgeMark `json:"ms"`
}

type browser struct {
	tool  string
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan string
}

func (b *browser) start() {
	cmd := exec.Command(b.tool)
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal(err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	b.cmd, b.in, b.lines = cmd, in, make(chan string)
	lines := b.lines
	go func() {
		rd := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				close(lines)
				return
			}
			if strings.HasPrefix(l, "=> ") {
				lines <- l[3:]
			}
		}
	}()
	if l, ok := b.next(); !ok || strings.TrimSpace(l) != "ready" {
		fatal(fmt.Errorf("the bridge does not start"))
	}
}

func (b *browser) next() (string, bool) {
	select {
	case l, ok := <-b.lines:
		return l, ok
	case <-time.After(60 * time.Second):
		return "", false
	}
}

func (b *browser) stop() {
	if b.cmd != nil {
		b.in.Close()
		b.cmd.Process.Kill()
		b.cmd.Wait()
		b.cmd = nil
	}
}

type bridgeAnswer struct {
	Ast      *string `json:"ast"`
	Messages []struct {
		Type  string `json:"type"`
		Msg   string `json:"msg"`
		Start *int   `json:"start"`
		End   *int   `json:"end"`
	} `json:"messages"`
}

func (b *browser) ask(q string) (a bridgeAnswer, raw string, ok bool) {
	if b.cmd == nil {
		b.start()
	}
	l, _ := json.Marshal(q)
	io.WriteString(b.in, string(l)+"\n")
	raw, ok = b.next()
	if !ok || json.Unmarshal([]byte(raw), &a) != nil {
		b.stop()
		return a, raw, false
	}
	return a, raw, true
}

// theBrowser serves all cases of a run.
var theBrowser browser

func driveBridge(g *Gen, o *Out, n int, tool string) {
	defer theBrowser.stop()
	for o.n < n {
		var q string
		switch g.n(8) {
		case 0:
			q = g.argQuery()
		case 1, 2:
			q = g.spoil(g.anyQuery())
		case 3:
			q = g.badValue()
		case 4, 5:
			q = g.anyQuery()
		default:
			c := g.clause(g.rng(1, 4), 3)
			g.retext(c, g.adviceCmp)
			q = g.ws() + g.writeClause(c, 0, 15) + g.ws()
		}
		if g.pct(30) {
			// characters that count differently in Go and in JavaScript
			odd := g.pick("é", "漢字", "𝒳", "😀x😀", "ß")
			q = g.pick(`"`+odd+`":1 OR `, `a:"`+odd+`" AND `, odd+" ") + q
		}
		bridgeOnce(o, strings.ToValidUTF8(q, "?"), tool)
	}
}

func bridgeOnce(o *Out, q, tool string) {
	if q == "" {
		return
	}
	o.mark(q)
	theBrowser.tool = tool
	e := bridgeEvent{K: "bridge", Q: codes(q), R: "err", B: -1, Ast: "none", Ms: []bridgeMark{}}
	tree, err, pan := parse(q)
	switch {
	case pan != nil:
		e.R = "P"
	case err == nil:
		e.R = "ok"
	default:
		var pe *parser.ParseError
		if p := -1; errors.As(err, &pe) {
			if p = pe.Position.Offset; p >= 0 && p <= len(q) && pe.Position.Line > 0 {
				e.B, e.Len = utf8.RuneCountInString(q[:p]), pe.Position.Len
			}
		}
	}
	a, raw, up := theBrowser.ask(q)
	e.Up = up
	if up && a.Ast != nil && *a.Ast != "" {
		e.Ast = "other"
		if e.R == "ok" {
			want, err := json.Marshal(tree)
			if err != nil {
				fatal(err)
			}
			var x, y any
			if json.Unmarshal(want, &x) == nil && json.Unmarshal([]byte(*a.Ast), &y) == nil && reflect.DeepEqual(x, y) {
				e.Ast = "same"
			}
		}
	}
	for _, m := range a.Messages {
		k := bridgeMark{Ty: m.Type, S: -1, E: -1, Told: m.Msg != ""}
		if m.Start != nil && m.End != nil {
			k.S, k.E = *m.Start, *m.End
		}
		e.Ms = append(e.Ms, k)
	}
	if len(raw) > 3000 {
		raw = raw[:3000]
	}
	o.add(e, map[string]any{"query": q, "library": e.R, "error at": e.B, "bridge": raw, "tree": e.Ast})
}
