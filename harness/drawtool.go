//go:build graph

package main

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// A run of the drawing tool in a directory of its own.

type drawToolEvent struct {
	K      string  `json:"k"`
	Q      []int   `json:"q"`
	Ask    string  `json:"ask"`    // svg, dot, other (no known format), default (no file named), usage (no query either)
	Place  string  `json:"place"`  // fresh, old (a file of that name is there), dir (a directory is), lost (its directory is missing)
	Exit   int     `json:"exit"`   // how the tool ended
	Told   bool    `json:"told"`   // it said something
	Target string  `json:"target"` // absent, old or new
	Others bool    `json:"others"` // other files were made or changed
	R      string  `json:"r"`      // ok or unreadable, of the new file
	G      drawing `json:"g"`
}

// drawRun is one use of the tool.
type drawRun struct {
	q, name string
	ask     string
	place   string
}

func init() {
	drivers["C27"] = driveDrawTool
	replays["draw"] = func(o *Out, c *testCase, tool string) {
		dir, err := os.MkdirTemp(filepath.Dir(o.evF.Name()), "draw")
		if err != nil {
			fatal(err)
		}
		defer os.RemoveAll(dir)
		drawRun{fromCodes(c.Q), c.Name, c.Ask, c.Place}.play(o, tool, dir)
	}
}

var fileNames = map[string][]string{
	"svg":   {"q.svg", "Q.SVG", "a b.svg", "q.dot.svg", "x.Svg", "sub/q.svg", "-o.svg", "q..svg", "été.svg"},
	"dot":   {"q.dot", "Q.DOT", "a b.dot", "q.svg.dot", "x.Dot", "sub/q.dot", "dot.dot", "q..dot"},
	"other": {"q.png", "q", "q.txt", "q.svg.bak", "q.dott", "svg", "dot", "q.", "q.sv", "q.gv", "q.svg ", "sub.svg/q", "q.xsvg", "q.pdf", "q.svgz"},
}

func driveDrawTool(g *Gen, o *Out, n int, tool string) {
	dir, err := os.MkdirTemp(filepath.Dir(o.evF.Name()), "draw")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	for o.n < n {
		q := g.graphQuery()
		if strings.IndexByte(q, 0) >= 0 {
			continue
		}
		r := drawRun{q: q, ask: g.pick("svg", "svg", "svg", "dot", "dot", "dot", "other", "default"), place: g.pick("fresh", "fresh", "old", "old", "lost", "dir")}
		if g.pct(1) {
			r.ask = "usage"
		}
		if names := fileNames[r.ask]; names != nil {
			r.name = names[g.n(len(names))]
		}
		r.play(o, tool, dir)
	}
}

const oldText = "what was there before\n"

func (r drawRun) play(o *Out, tool, dir string) {
	if err := os.RemoveAll(dir); err != nil {
		fatal(err)
	}
	must := func(err error) {
		if err != nil {
			fatal(err)
		}
	}
	must(os.MkdirAll(filepath.Join(dir, "sub.svg"), 0o700))
	name := r.name
	if r.ask == "default" || r.ask == "usage" {
		name = "query_graph.svg"
		if r.place == "lost" {
			r.place = "fresh"
		}
	}
	if r.place == "lost" {
		name = filepath.Join("missing", name)
	} else if strings.HasPrefix(name, "sub/") {
		must(os.Mkdir(filepath.Join(dir, "sub"), 0o700))
	}
	file := filepath.Join(dir, name)
	before := map[string]string{filepath.Join(dir, "other.svg"): oldText, filepath.Join(dir, "q2.dot"): oldText}
	switch r.place {
	case "old":
		// longer than any drawing, so that what is left of it would be seen
		before[file] = strings.Repeat(oldText, 4000)
	case "dir":
		must(os.Mkdir(file, 0o700))
	}
	for f, t := range before {
		must(os.WriteFile(f, []byte(t), 0o600))
	}
	o.mark(r.q)
	var args []string
	if r.ask != "usage" {
		args = append(args, r.q)
		if r.ask != "default" {
			args = append(args, name)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, tool, args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	ev := drawToolEvent{K: "draw", Q: codes(r.q), Ask: r.ask, Place: r.place, Target: "absent", R: "ok", G: noDrawing()}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		ev.Exit = 124
	case errors.As(err, &ee):
		ev.Exit = ee.ExitCode()
	case err != nil:
		fatal(err)
	}
	ev.Told = strings.TrimSpace(se.String()+so.String()) != ""
	side := map[string]any{"query": r.q, "arguments": args, "place": r.place, "exit": ev.Exit, "said": se.String() + so.String()}
	must(filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		was, known := before[p]
		switch {
		case p == file && known && was == string(b):
			ev.Target = "old"
		case p == file:
			ev.Target = "new"
			form := "svg"
			if r.ask == "dot" {
				form = "dot"
			}
			var d *drawing
			if d, ev.R = readDrawing(r.q, string(b), form); ev.R == "ok" {
				ev.G = *d
				d.describe(side)
			}
		case !known || was != string(b):
			ev.Others = true
		}
		delete(before, p)
		return nil
	}))
	if len(before) > 0 && !(len(before) == 1 && before[file] != "") {
		ev.Others = true
	}
	side["file"], side["other files changed"], side["read"] = ev.Target, ev.Others, ev.R
	o.add(ev, side)
}
