package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

// One query, handed to the parser in several ways.

// outcome is what a parse led to; the tree as a digest.
type outcome struct {
	R      string `json:"r"`
	Tree   string `json:"tree"`
	Leaves int    `json:"leaves"`
	P      []int  `json:"p"`
	Msg    string `json:"msg"`
}

type way struct {
	How  string  `json:"how"`
	Rest bool    `json:"rest"` // the whole text was delivered
	O    outcome `json:"o"`
}

type handedEvent struct {
	K     string  `json:"k"`
	Parts int     `json:"parts"` // comparisons the query was put together from, or 0
	Base  outcome `json:"base"`
	Ways  []way   `json:"ways"`
}

func leavesOf(n ast.Node) int {
	switch t := n.(type) {
	case *ast.AndNode:
		return leavesOf(t.Left) + leavesOf(t.Right)
	case *ast.OrNode:
		return leavesOf(t.Left) + leavesOf(t.Right)
	case *ast.NotNode:
		return leavesOf(t.Expr)
	}
	return 1
}

func outcomeOf(f func() (ast.Node, error)) (o outcome) {
	o = outcome{R: "odd", P: nowhere}
	defer func() {
		if recover() != nil {
			o = outcome{R: "P", P: nowhere}
		}
	}()
	n, err := f()
	switch {
	case err == nil && n != nil:
		b, e := json.Marshal(dump(n))
		if e != nil {
			fatal(e)
		}
		o.R, o.Tree, o.Leaves = "ok", fmt.Sprintf("%x", sha256.Sum256(b)), leavesOf(n)
	case err != nil && n == nil:
		o.R, o.Msg = "err", err.Error()
		if pe := parseError(err); pe != nil {
			o.P = place(pe.Position)
		}
	}
	return
}

var errBroken = errors.New("the reader is broken")

// feeder delivers a text in pieces of the given sizes, and ends it in one of
// the ways readers may: an end of file of its own, one along with the last
// piece, or a failure.
type feeder struct {
	text  []byte
	sizes []int
	end   string // after, with, fail
	i     int
}

func (f *feeder) Read(p []byte) (int, error) {
	if f.i >= len(f.sizes) {
		if f.end == "fail" {
			return 0, errBroken
		}
		if len(f.text) == 0 {
			return 0, io.EOF
		}
		f.sizes = append(f.sizes, len(f.text))
	}
	n := min(f.sizes[f.i], min(len(p), len(f.text)))
	copy(p, f.text[:n])
	f.text = f.text[n:]
	if f.sizes[f.i] -= n; f.sizes[f.i] == 0 || n == 0 {
		f.i++
	}
	if len(f.text) == 0 && f.end == "with" {
		return n, io.EOF
	}
	return n, nil
}

func (f *feeder) play(options ...parser.Option) outcome {
	return outcomeOf(func() (ast.Node, error) { return parser.ParseQueryReader(f, options...) })
}

func fed(q string, sizes []int, end string) way {
	f := &feeder{text: []byte(q), sizes: append([]int{}, sizes...), end: end}
	w := way{How: fmt.Sprint("reader ", sizes, " end ", end)}
	if len(w.How) > 200 {
		w.How = w.How[:200] + "..."
	}
	w.O = f.play()
	w.Rest = len(f.text) == 0 && end != "fail"
	return w
}

// quietly runs f with nothing reaching standard output.
func quietly(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fatal(err)
	}
	defer null.Close()
	old := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = old }()
	f()
}

func throughMatcher(q string, base outcome) outcome {
	m, err, pan := newMatcher(q)
	switch {
	case pan != nil:
		return outcome{R: "P", P: nowhere}
	case err == nil && m != nil:
		o := outcome{R: "ok", Tree: base.Tree, Leaves: base.Leaves, P: nowhere}
		if m.Query() != q {
			o.R = "another query"
		}
		return o
	case err != nil && m == nil:
		return outcomeOf(func() (ast.Node, error) { return nil, err })
	}
	return outcome{R: "odd", P: nowhere}
}

// whileAnother parses q with visitors that do nothing but wait, at their first
// node, for another parse with visitors that accept nothing to have run.
func whileAnother(q, other string) outcome {
	idle := parser.VisitorFunc(func(ast.Node) error { return nil })
	never := parser.VisitorFunc(func(ast.Node) error { return errors.New("not this one") })
	var once sync.Once
	wait := parser.VisitorFunc(func(ast.Node) error {
		once.Do(func() {
			done := make(chan struct{})
			go func() {
				defer close(done)
				outcomeOf(func() (ast.Node, error) {
					return parser.ParseQuery(other, parser.Visitors(idle, idle, never), parser.Visitors(never))
				})
			}()
			select {
			case <-done:
			case <-time.After(time.Second):
			}
		})
		return nil
	})
	return outcomeOf(func() (ast.Node, error) {
		return parser.ParseQuery(q, parser.Visitors(wait, idle, idle), parser.Visitors(idle))
	})
}

func handOver(o *Out, q string, parts int, others []string, ways ...func() way) {
	o.mark(q)
	plainly := func(q string) outcome {
		return outcomeOf(func() (ast.Node, error) { return parser.ParseQuery(q) })
	}
	e := handedEvent{K: "handed", Parts: parts, Base: plainly(q), Ways: []way{}}
	for _, w := range ways {
		e.Ways = append(e.Ways, w())
	}
	if len(q) < 120 {
		var w outcome
		quietly(func() {
			w = outcomeOf(func() (ast.Node, error) { return parser.ParseQuery(q, parser.Debug()) })
		})
		e.Ways = append(e.Ways, way{"debugging", true, w})
	}
	idle := parser.VisitorFunc(func(ast.Node) error { return nil })
	tape := parser.NewMessageVisitor(func(ast.Node, *parser.MessageTape) error { return nil })
	e.Ways = append(e.Ways, way{"idle visitors", true, outcomeOf(func() (ast.Node, error) {
		return parser.ParseQuery(q, parser.Visitors(idle), parser.Visitors(tape, idle))
	})})
	e.Ways = append(e.Ways, way{"matcher", true, throughMatcher(q, e.Base)})
	if len(others) > 0 {
		e.Ways = append(e.Ways, way{"while another is rejected", true, whileAnother(q, others[0])})
		got := make([]outcome, 3)
		var wg sync.WaitGroup
		for i := range got {
			i := i
			wg.Add(2)
			go func() {
				defer wg.Done()
				got[i] = plainly(q)
			}()
			go func() {
				defer wg.Done()
				plainly(others[i%len(others)])
			}()
		}
		wg.Wait()
		for _, w := range got {
			e.Ways = append(e.Ways, way{"next to others", true, w})
		}
	}
	e.Ways = append(e.Ways, way{"again", true, plainly(q)})
	side := map[string]any{"query": q, "at once": e.Base, "ways": e.Ways}
	if len(q) > 2000 {
		side["query"] = q[:2000] + "..."
		side["length"] = len(q)
	}
	o.add(e, side)
}

// pieces are sizes that add up to n, some of them 0.
func (g *Gen) pieces(n int) []int {
	var out []int
	most := []int{1, 2, 3, 7, 64, 512, 4096}[g.n(7)]
	for n > 0 {
		if g.pct(5) {
			out = append(out, 0)
		}
		k := min(n, g.rng(1, most))
		out = append(out, k)
		n -= k
	}
	if g.pct(10) {
		out = append(out, 0)
	}
	return out
}

func driveHanded(g *Gen, o *Out, n int) {
	var others []string
	for o.n < n {
		var q string
		parts := 0
		switch {
		case g.n(400) == 0:
			want := []int{600, 4096, 5000, 9000, 17000, 33000, 66000}[g.n(7)]
			q, parts = g.longQuery(want)
		default:
			q = g.queryText(g.pick("C10", "C10", "C11", "C12"))
		}
		if parts == 0 && len(q) > 1500 {
			continue
		}
		if len(others) < 8 {
			others = append(others, q)
		} else if len(q) < 1500 {
			others[g.n(8)] = q
		}
		ways := []func() way{
			func() way { return fed(q, g.pieces(len(q)), "after") },
			func() way { return fed(q, g.pieces(len(q)), "with") },
		}
		if len(q) > 0 && g.pct(30) {
			ways = append(ways, func() way { return fed(q, g.pieces(g.n(len(q)+1)), "fail") })
		}
		if g.pct(20) {
			handOver(o, q, parts, others, ways...)
		} else {
			handOver(o, q, parts, nil, ways...)
		}
	}
}

// longQuery is a query of about the given length, put together from comparisons
// that are accepted on their own.
func (g *Gen) longQuery(length int) (string, int) {
	var sb strings.Builder
	parts, open := 0, 0
	big := ""
	if g.pct(25) {
		big = strings.Repeat(g.pick("x", "é", "漢", "a b ", "<&"), length/3+1)
	}
	for sb.Len() < length {
		if parts > 0 {
			sb.WriteString(g.pick(" AND ", " OR ", "\nAND\n", " OR\t"))
		}
		if open < 30 && g.pct(10) {
			sb.WriteString(g.pick("(", "!(", "NOT ("))
			open++
		}
		switch {
		case big != "":
			sb.WriteString(`"k":"` + big + `"`)
			big = ""
		default:
			sb.WriteString(g.pick("a", "b.c", `"x y"`, `"漢"`, `a."é"`) + ":" +
				g.pick("1", "-1.5", "exists", "null", "true", `"été"`, "/x.*y/", ">1", "><(1,2)", `(1,"x",/y/,10.0.0.0/8)`, `~"x"`, "2020-01-01", "1.2.3.4/8"))
		}
		parts++
		if open > 0 && g.pct(10) {
			sb.WriteString(")")
			open--
		}
	}
	sb.WriteString(strings.Repeat(")", open))
	return sb.String(), parts
}

func (c *testCase) handed(o *Out, q string) {
	sizes := append([]int{}, c.Sizes...)
	handOver(o, q, 0, nil, func() way { return fed(q, sizes, c.End) })
}
