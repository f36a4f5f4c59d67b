package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"unicode/utf8"

	"aqlverif/sched"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/sampler"
)

// testCase is one case of a model, as the specification writes it.
type testCase struct {
	K     string  `json:"k"`
	Q     []int   `json:"q"`
	Qs    [][]int `json:"qs"`
	Ds    []*Doc  `json:"ds"`
	Docs  []*Doc  `json:"docs"`
	Parts [][]int `json:"parts"`
	Twin  []int   `json:"twin"`
	Vs    []struct {
		Re []string  `json:"re"`
		Ms [][]*vmsg `json:"ms"`
	} `json:"vs"`
	Steps []struct {
		Op  string `json:"op"`
		Bad bool   `json:"bad"`
		D   *Doc   `json:"d"`
	} `json:"steps"`
	Max     int     `json:"max"`
	Bs      [][]int `json:"bs"`
	B       []int   `json:"b"`
	O       int     `json:"o"`
	N       int     `json:"n"`
	W       int     `json:"w"`
	Sched   []int   `json:"sched"`
	Callers [][]struct {
		Kind string `json:"kind"`
		D    *Doc   `json:"d"`
	} `json:"callers"`
	Calls  []*pageStep `json:"calls"`
	InFile bool        `json:"infile"`
	Sizes  []int       `json:"sizes"`
	End    string      `json:"end"`
	None   bool        `json:"none"`
	Name   string      `json:"name"`
	Ask    string      `json:"ask"`
	Place  string      `json:"place"`
}

// tableEvent holds the answers of some queries on some documents.
type tableEvent struct {
	K  string     `json:"k"`
	Qs [][]int    `json:"qs"`
	Ds []*Doc     `json:"ds"`
	Rs [][]string `json:"rs"`
}

// replays are those that only some builds have.
var replays = map[string]func(*Out, *testCase, string){}

// replay runs cases on the code and records what it does.
func replay(o *Out, prop, path, tool string) {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	in := bufio.NewReaderSize(f, 1<<20)
	dec := json.NewDecoder(in)
	for dec.More() {
		c := &testCase{}
		if err := dec.Decode(c); err != nil {
			fatal(err)
		}
		c.play(o, prop, tool)
	}
}

func bytesFrom(b []int) string {
	out := make([]byte, len(b))
	for i, c := range b {
		out[i] = byte(c)
	}
	return string(out)
}

func (c *testCase) play(o *Out, prop, tool string) {
	q := fromCodes(c.Q)
	switch c.K {
	case "table":
		c.table(o)
	case "match", "set":
		c.parts(o, prop)
	case "parse":
		for _, q := range c.Qs {
			q := fromCodes(q)
			o.mark(q)
			e := observeParse(prop, q)
			o.add(e, map[string]any{"query": q, "observed": e.R, "position": e.P})
		}
	case "told":
		c.told(o)
	case "pages":
		c.pages(o, tool)
	case "visit":
		c.visit(o, prop, q)
	case "bridge":
		for _, q := range c.Qs {
			bridgeOnce(o, fromCodes(q), tool)
		}
	case "advice":
		for _, q := range c.Qs {
			adviceOnce(o, fromCodes(q))
		}
	case "stats":
		c.stats(o, q)
	case "total":
		c.total(o, q)
	case "shown":
		c.shown(o, q)
	case "sampler":
		if prop == "C22" {
			c.fields(o)
		} else {
			c.sampler(o)
		}
	case "shared":
		c.shared(o, q)
	case "printed":
		var qs []string
		for _, q := range c.Qs {
			qs = append(qs, fromCodes(q))
		}
		printAll(o, qs)
	case "handed":
		c.handed(o, q)
	case "cli":
		dir := o.evF.Name() + ".dir"
		if err := os.MkdirAll(dir, 0o700); err != nil {
			fatal(err)
		}
		defer os.RemoveAll(filepath.Clean(dir))
		r := cliRun{q: q, text: bytesFrom(c.B), docname: "d.json", none: c.None}
		if c.InFile {
			r.qname = "q.aql"
		}
		r.play(o, tool, dir)
	default:
		f, ok := replays[c.K]
		if !ok {
			fatal(fmt.Errorf("no way to run a case of kind %q", c.K))
		}
		f(o, c, tool)
	}
}

func (c *testCase) table(o *Out) {
	e := tableEvent{K: "table", Qs: c.Qs, Ds: c.Ds, Rs: [][]string{}}
	var texts, qs []string
	for _, d := range c.Ds {
		texts = append(texts, plain(d))
	}
	for _, cs := range c.Qs {
		q := fromCodes(cs)
		qs = append(qs, q)
		o.mark(q)
		m, err, pan := newMatcher(q)
		rs := []string{}
		for _, text := range texts {
			r := "E"
			switch {
			case pan != nil:
				r = "P"
			case err == nil:
				o.mark(q, text)
				r = match(m, []byte(text))
			}
			rs = append(rs, r)
		}
		e.Rs = append(e.Rs, rs)
	}
	o.add(e, map[string]any{"queries": qs, "documents": texts, "observed": e.Rs})
}

func (c *testCase) parts(o *Out, prop string) {
	q := fromCodes(c.Q)
	var parts []string
	for _, p := range c.Parts {
		parts = append(parts, fromCodes(p))
	}
	for _, d := range c.Docs {
		text := plain(d)
		o.mark(q, text)
		ev := partsEvent{K: "bool", Q: c.Q, D: d, Ps: []string{}, Twin: "-", R: answer(q, []byte(text))}
		for _, p := range parts {
			ev.Ps = append(ev.Ps, answer(p, []byte(text)))
		}
		if c.K == "set" {
			ev.K = "set"
			if len(c.Twin) > 0 {
				ev.Twin = answer(fromCodes(c.Twin), []byte(text))
			}
		}
		o.add(ev, map[string]any{"query": q, "document": text, "observed": ev.R, "parts": parts, "alone": ev.Ps, "other operator": fromCodes(c.Twin), "with other operator": ev.Twin})
	}
}

func (c *testCase) visit(o *Out, prop, q string) {
	n, err, pan := parse(q)
	if err != nil || pan != nil {
		return
	}
	for _, tape := range []bool{true, false} {
		var vs []*visitor
		for who, w := range c.Vs {
			v := &visitor{tape: tape}
			for i, re := range w.Re {
				v.react(re, fmt.Sprint("of ", who, " at ", i))
				ms := []*vmsg{}
				if tape {
					for _, m := range w.Ms[i] {
						cp := *m
						cp.where, cp.tmpl = "none", fromCodes(m.T)
						for _, a := range m.Args {
							cp.vals = append(cp.vals, fromCodes(a))
						}
						if m.Pos[0] > 0 {
							cp.where = "at"
							cp.pos = ast.Pos{Line: m.Pos[0], Col: m.Pos[1], Offset: m.Pos[2], Len: m.Pos[3]}
						}
						ms = append(ms, &cp)
					}
				}
				v.Ms = append(v.Ms, ms)
			}
			vs = append(vs, v)
		}
		playVisit(o, prop, q, nodes(n), vs, tape)
		if prop == "C14" {
			break
		}
	}
}

func (c *testCase) stats(o *Out, q string) {
	m, err, pan := newMatcher(q)
	if err != nil || pan != nil {
		return
	}
	e := statsEvent{K: "stats", Q: c.Q, Steps: []statStep{}, St0: readStats(m)}
	var texts []string
	for _, s := range c.Steps {
		text := plain(s.D)
		if s.Bad {
			text = text[:len(text)-1]
		}
		o.mark(q, text)
		r := match(m, []byte(text))
		e.Steps = append(e.Steps, statStep{s.D, s.Bad, 1, r, readStats(m)})
		texts = append(texts, text)
	}
	o.add(e, map[string]any{"query": q, "documents": texts, "observed": e.Steps})
}

func (c *testCase) total(o *Out, q string) {
	m, err, pan := newMatcher(q)
	if err != nil || pan != nil {
		return
	}
	e := totalEvent{K: "total", Clean: true}
	var side []map[string]any
	for _, b := range c.Bs {
		e.Vs = append(e.Vs, &version{B: b, b: []byte(bytesFrom(b))})
	}
	for k := 0; k < 2; k++ {
		for _, v := range e.Vs {
			cp := append(make([]byte, 0, len(v.b)+1), v.b...)
			o.mark(q, string(v.b))
			v.Rs = append(v.Rs, match(m, cp))
			e.Clean = e.Clean && string(cp) == string(v.b)
		}
	}
	for _, v := range e.Vs {
		v.Rs = append(v.Rs, answer(q, v.b))
		side = append(side, map[string]any{"document": string(v.b), "answers": v.Rs})
	}
	o.add(e, map[string]any{"query": q, "versions": side, "untouched": e.Clean})
}

func (c *testCase) shown(o *Out, q string) {
	p := ast.NoPosition()
	if c.O >= 0 {
		p = ast.Pos{Line: 1, Col: utf8.RuneCountInString(q[:c.O]) + 1, Offset: c.O, Len: c.N}
	}
	m := parser.ErrorAt(p, "m")
	o.mark(q, fmt.Sprint(p), fmt.Sprint(c.W))
	for _, isHTML := range []bool{false, true} {
		e := observeShown(q, m, c.W, isHTML)
		o.add(e, map[string]any{"query": q, "position": p, "width": c.W, "html": isHTML,
			"observed": map[string]any{"highlighted": e.V.HL, "query": fromCodes(e.V.Query), "before": fromCodes(e.V.Pre), "marked": fromCodes(e.V.Mid), "after": fromCodes(e.V.Post), "offset": e.V.Off, "length": e.V.N}})
	}
	e := observeTerminal(q, m, c.W)
	o.add(e, map[string]any{"query": q, "position": p, "width": c.W, "observed": sprint(fmtmsg.NewTerminalFormatter(c.W), q, m)})
}

func (c *testCase) sampler(o *Out) {
	sm := sampler.New(c.Max)
	e := samplerEvent{K: "sampler", Max: c.Max, Steps: []sampStep{}}
	var texts []string
	for _, s := range c.Steps {
		st := sampStep{Op: s.Op, N: 1, D: s.D, B: []int{}, OK: true}
		text, pan := "", false
		switch s.Op {
		case "reset":
			sm.Reset()
		case "bad":
			st.Op, text = "raw", `{"a":1,"b":`
			st.B = bytesOf([]byte(text))
			st.OK, pan = sampleOnce(sm, text)
		default:
			text = plain(s.D)
			o.mark(text)
			if st.OK, pan = sampleOnce(sm, text); pan {
				st.OK = false
			}
		}
		st.look(sm, []int{0, 1, 33, 34, 50, 51, 66, 67, 75, 100, 101, 150, 200, 300})
		if pan {
			st.Scanned = -2
		}
		e.Steps = append(e.Steps, st)
		texts = append(texts, st.Op+" "+text)
	}
	o.add(e, map[string]any{"depth": c.Max, "calls": texts, "observed": e.Steps})
}

func (c *testCase) fields(o *Out) {
	sm := sampler.New(c.Max)
	d := c.Steps[0].D
	text := plain(d)
	o.mark(text)
	if ok, pan := sampleOnce(sm, text); !ok || pan {
		return
	}
	e := fieldsEvent{K: "fields", D: d, Max: c.Max, Keys: [][]int{}, Rs: []string{}}
	var keys, qs []string
	if safely(func() { keys = sm.Keys() }) {
		return
	}
	sort.Strings(keys)
	e.Keys = textsOf(keys)
	for _, k := range keys {
		e.Rs = append(e.Rs, answer(k+":exists", []byte(text)))
		qs = append(qs, k+":exists")
	}
	o.add(e, map[string]any{"document": text, "depth": c.Max, "keys": keys, "queries": qs, "observed": e.Rs})
}

// shared lets the callers take turns as the model did, stretched over the
// steps the code takes.
func (c *testCase) shared(o *Out, q string) {
	p := &plan{q: q}
	m, err, pan := newMatcher(q)
	if err != nil || pan != nil {
		return
	}
	p.zero = readStats(m)
	for _, cs := range c.Callers {
		var mine []*call
		for _, cl := range cs {
			if cl.Kind == "stats" {
				mine = append(mine, &call{Kind: "stats", R: "-", Alone: "-", St: noStats, One: noStats})
				continue
			}
			own, _, _ := newMatcher(q)
			x := &call{Kind: "match", text: plain(cl.D), St: noStats}
			x.Alone = match(own, []byte(x.text))
			x.One = readStats(own)
			mine = append(mine, x)
		}
		p.callers = append(p.callers, mine)
	}
	steps := 0
	turns := func(choose func(step, last int, ready []int) int) *sharedEvent {
		return p.run(func(bodies []func()) {
			r := sched.Run(bodies, choose)
			if r.Deadlock {
				fmt.Fprintln(os.Stderr, "deadlock in", q)
				os.Exit(4)
			}
			steps = r.Steps
		})
	}
	o.mark(q, "")
	turns(func(_, last int, ready []int) int {
		if last >= 0 {
			return last
		}
		return ready[0]
	})
	total := steps
	ev := turns(func(step, last int, ready []int) int {
		want := c.Sched[min(step*len(c.Sched)/max(total, 1), len(c.Sched)-1)]
		for _, r := range ready {
			if r == want {
				return r
			}
		}
		if last >= 0 {
			return last
		}
		return ready[0]
	})
	o.add(ev, ev.side(p, fmt.Sprint("turns ", c.Sched)))
}
