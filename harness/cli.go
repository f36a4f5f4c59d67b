package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
)

// A run of the command-line tool, next to what the library says about the
// same query and document.

type libAnswer struct {
	Ok    bool     `json:"ok"`    // the query is accepted
	Off   int      `json:"off"`   // character its error is at, or -1
	R     string   `json:"r"`     // T, F or X (an error for the document)
	St    statTree `json:"st"`    // statistics after the one match
	Kinds []string `json:"kinds"` // kinds of its messages
}

type cliEvent struct {
	K      string    `json:"k"`
	File   string    `json:"file"` // read, or none
	Lib    libAnswer `json:"lib"`
	Exit   int       `json:"exit"`
	Res    string    `json:"res"`   // T, F, or - if there is no result
	St     statTree  `json:"st"`    // statistics printed
	Extra  bool      `json:"extra"` // something else on standard output
	Kinds  []string  `json:"kinds"` // kinds of the messages shown
	Told   bool      `json:"told"`  // their texts, or that of the error, are there
	Gap    int       `json:"gap"`   // where the last marker is, -1 if that says nothing
	Carets int       `json:"carets"`
}

var noStats = statTree{Nm: "", Ch: []statTree{}}

func libraryOn(q string, doc []byte, readable bool) (l libAnswer, texts []string) {
	l = libAnswer{Off: -1, R: "X", St: noStats, Kinds: []string{}}
	m, err, pan := newMatcher(q)
	if pan != nil {
		l.R = "P"
		return
	}
	if err != nil {
		var pe *parser.ParseError
		if errors.As(err, &pe) && pe.Position.Offset >= 0 && pe.Position.Offset <= len(q) && pe.Position.Line > 0 {
			l.Off = utf8.RuneCountInString(q[:pe.Position.Offset])
			texts = append(texts, pe.Msg)
		}
		return
	}
	l.Ok = true
	for _, msg := range m.Messages() {
		kind := map[parser.MessageType]string{parser.MsgHint: "INFO", parser.MsgWarning: "WARNING", parser.MsgError: "ERROR"}[msg.Type]
		l.Kinds = append(l.Kinds, kind)
		texts = append(texts, msg.Msg)
	}
	if readable {
		l.R = match(m, doc)
		l.St = readStats(m)
	}
	return
}

var (
	kindRE   = regexp.MustCompile(`(?m)^(INFO|WARNING|ERROR): `)
	markerRE = regexp.MustCompile(`(?m)^( *)(\^+)[ \r]*$`)
)

func runTool(tool string, args ...string) (stdout, stderr string, exit int) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, tool, args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		exit = 124
	case errors.As(err, &ee):
		exit = ee.ExitCode()
	case err != nil:
		fatal(err)
	}
	return so.String(), se.String(), exit
}

// readOutput takes the standard output of the tool apart.
func readOutput(s string) (res string, st statTree, extra bool) {
	res, st = "-", noStats
	line, rest, _ := strings.Cut(s, "\n")
	switch strings.TrimSpace(line) {
	case "true":
		res = "T"
	case "false":
		res = "F"
	default:
		return res, st, strings.TrimSpace(s) != ""
	}
	if strings.TrimSpace(rest) == "" {
		return
	}
	dec := json.NewDecoder(strings.NewReader(rest))
	var ms jsonmatcher.MatchStats
	if err := dec.Decode(&ms); err != nil {
		return res, st, true
	}
	st = statsTree(&ms)
	after := rest[dec.InputOffset():]
	return res, st, strings.TrimSpace(after) != ""
}

func toldAll(stderr string, texts []string) bool {
	for _, t := range texts {
		i := strings.Index(stderr, t)
		if i < 0 {
			return false
		}
		stderr = stderr[i+len(t):]
	}
	return true
}

// cliRun is one use of the tool: a query, given as it is or as the file
// qname, and the document in the file docname, or none.
type cliRun struct {
	q, qname      string
	text, docname string
	none, isDir   bool
}

func driveCLI(g *Gen, o *Out, n int, tool string) {
	dir, err := os.MkdirTemp(filepath.Dir(o.evF.Name()), "cli")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	for o.n < n {
		keys := g.rng(1, 3)
		var q string
		switch g.n(6) {
		case 0:
			q = g.argQuery()
		case 1:
			q = g.spoil(g.anyQuery())
		case 2:
			q = g.badValue()
		case 3:
			q = g.anyQuery()
		default:
			c := g.clause(g.rng(1, 5), keys)
			if g.pct(50) {
				g.retext(c, func() string { return g.richLeaf(keys) })
			}
			q = g.writeClause(c, 0, 15)
		}
		if g.pct(6) {
			// the text of a file name, inside a query
			q = g.pick(`a.aql:1`, `"q.aql":exists`, `a:"q.aql"`, `a:/.aql/`, `a.aql.b:true`, `a:"x.aql y"`) + g.pick("", " OR ", " AND ", " OR\n") + q
		}
		if g.pct(8) {
			q = g.pick("", "", "", "\ufeff", "# a\n", "// a\n", "\r\n", "\n\n", "-- a\n", "#!aql\n") + q + g.pick("", "", ";", ";\n", "\n;", "\r\n", "\n\n", "\n# a", " // a", "\x00", "\n\n"+q, "\x1a")
		}
		q = strings.ToValidUTF8(q, "?")
		asFile := g.pct(30) || strings.HasPrefix(strings.TrimSpace(q), "-") || strings.HasSuffix(q, ".aql")
		if q == "" || !asFile && strings.IndexByte(q, 0) >= 0 {
			continue
		}
		var d *Doc
		if g.pct(50) {
			d = g.richFlags(keys)
		} else {
			d = g.flags(keys)
		}
		text := g.text(d)
		if g.pct(15) {
			text = badJSON[g.n(len(badJSON))]
		}
		r := cliRun{q: q, text: text, docname: g.pick("d.json", "doc", "d.aql", "a b.json")}
		if g.pct(8) {
			r.none, r.isDir = true, g.pct(40)
		}
		if asFile {
			r.qname = g.pick("q.aql", "my query.aql")
		}
		r.play(o, tool, dir)
	}
}

func (r cliRun) play(o *Out, tool, dir string) {
	q, text := r.q, r.text
	file := filepath.Join(dir, r.docname)
	ev := cliEvent{K: "cli", File: "read"}
	os.Remove(file)
	if r.none {
		ev.File = "none"
		if r.isDir {
			file = dir
		}
	} else if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
		fatal(err)
	}
	arg := q
	if r.qname != "" {
		arg = filepath.Join(dir, r.qname)
		if err := os.WriteFile(arg, []byte(q), 0o600); err != nil {
			fatal(err)
		}
	}
	o.mark(q, text)
	var texts []string
	ev.Lib, texts = libraryOn(q, []byte(text), ev.File == "read")
	stdout, stderr, exit := runTool(tool, arg, file)
	ev.Exit = exit
	ev.Res, ev.St, ev.Extra = readOutput(stdout)
	ev.Kinds, ev.Gap = []string{}, -1
	for _, k := range kindRE.FindAllStringSubmatch(stderr, -1) {
		ev.Kinds = append(ev.Kinds, k[1])
	}
	ev.Told = toldAll(stderr, texts)
	if ms := markerRE.FindAllStringSubmatchIndex(stderr, -1); len(ms) > 0 {
		m := ms[len(ms)-1]
		ev.Carets = m[5] - m[4]
		if !strings.Contains(q, "\n") {
			// relative to where the query starts in the line before
			before := stderr[:m[0]]
			before = strings.TrimSuffix(before, "\n")
			line := before[strings.LastIndexByte(before, '\n')+1:]
			if i := strings.LastIndex(line, q); i >= 0 {
				ev.Gap = (m[3] - m[2]) - utf8.RuneCountInString(line[:i])
			} else {
				ev.Gap = -2
			}
		}
	}
	o.add(ev, map[string]any{"query": q, "in a file": r.qname != "", "document": text, "document file": ev.File, "library": ev.Lib,
		"exit": exit, "stdout": stdout, "stderr": stderr, "marker at": fmt.Sprint(ev.Gap, " ", ev.Carets)})
}
