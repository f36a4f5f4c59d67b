package main

import (
	"encoding/json"
	"fmt"
	"html"
	"strings"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

const sep = "\x1e"

// everything prints all that a template can ask for.
const everything = `{{.HasHL}}` + sep + `{{.Query}}` + sep + `{{.QueryPre}}` + sep + `{{.QueryHL}}` + sep + `{{.QueryPost}}` + sep + `{{.HLStrOffset}}` + sep + `{{.HLLen}}`

type shown struct {
	HL    bool  `json:"hl"`
	Query []int `json:"query"`
	Pre   []int `json:"pre"`
	Mid   []int `json:"mid"`
	Post  []int `json:"post"`
	Off   int   `json:"off"`
	N     int   `json:"n"`
}

type shownEvent struct {
	K string `json:"k"`
	Q []int  `json:"q"`
	O int    `json:"o"`
	N int    `json:"n"`
	W int    `json:"w"`
	V shown  `json:"v"`
}

type terminalEvent struct {
	K      string `json:"k"`
	Q      []int  `json:"q"`
	O      int    `json:"o"`
	N      int    `json:"n"`
	W      int    `json:"w"`
	Text   []int  `json:"text"`
	Lead   int    `json:"lead"`
	Gap    int    `json:"gap"`
	Carets int    `json:"carets"`
}

func sprint(f *fmtmsg.Formatter, q string, m fmtmsg.Message) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	return f.WithQuery(q).Sprint(m)
}

// marker finds the marker line of a message in terminal form and the line above.
func marker(out string) (text string, lead, gap, carets int) {
	lines := strings.Split(out, "\n")
	for i := len(lines) - 1; i > 0; i-- {
		l := lines[i]
		body := strings.TrimLeft(l, " ")
		if body != "" && strings.Trim(body, "^") == "" {
			gap, carets = len(l)-len(body), len(body)
			lead = min(4, len(lines[i-1])-len(strings.TrimLeft(lines[i-1], " ")))
			text = lines[i-1][lead:]
			return
		}
	}
	return
}

// formatters are made once per kind and width, as programs do.
var formatters = map[string]*fmtmsg.Formatter{}

func formatter(w int, isHTML bool) *fmtmsg.Formatter {
	key := fmt.Sprint(w, isHTML)
	f := formatters[key]
	if f == nil {
		var err error
		if f, err = fmtmsg.NewFormatter(everything, isHTML, w); err != nil {
			fatal(err)
		}
		formatters[key] = f
	}
	return f
}

func terminal(w int) *fmtmsg.Formatter {
	key := fmt.Sprint(w, "terminal")
	if formatters[key] == nil {
		formatters[key] = fmtmsg.NewTerminalFormatter(w)
	}
	return formatters[key]
}

func observeShown(q string, m fmtmsg.Message, w int, isHTML bool) shownEvent {
	p := m.Pos()
	e := shownEvent{K: "shown", Q: codes(q), O: p.Offset, N: p.Len, W: w}
	f := formatter(w, isHTML)
	parts := strings.Split(sprint(f, q, m), sep)
	e.V = shown{Query: []int{-1}, Pre: []int{}, Mid: []int{}, Post: []int{}, Off: -1, N: -1}
	if len(parts) != 7 {
		return e
	}
	if isHTML {
		for i := range parts {
			parts[i] = html.UnescapeString(parts[i])
		}
	}
	e.V.HL = parts[0] == "true"
	e.V.Query, e.V.Pre, e.V.Mid, e.V.Post = codes(parts[1]), codes(parts[2]), codes(parts[3]), codes(parts[4])
	json.Unmarshal([]byte(parts[5]), &e.V.Off)
	json.Unmarshal([]byte(parts[6]), &e.V.N)
	return e
}

func observeTerminal(q string, m fmtmsg.Message, w int) terminalEvent {
	p := m.Pos()
	e := terminalEvent{K: "terminal", Q: codes(q), O: p.Offset, N: p.Len, W: w}
	var text string
	text, e.Lead, e.Gap, e.Carets = marker(sprint(terminal(w), q, m))
	e.Text = codes(text)
	return e
}

func (g *Gen) showQuery() string {
	switch g.n(8) {
	case 0:
		return ""
	case 1:
		rs := make([]rune, g.rng(1, 12))
		for i := range rs {
			rs[i] = []rune("ab:1 é漢\U0001F600.")[g.n(9)]
		}
		return string(rs)
	case 2:
		return g.spoil(g.anyQuery())
	case 3:
		var sb strings.Builder
		k := g.rng(1, 90)
		if g.pct(8) {
			k = g.rng(100, 300)
		}
		for ; k > 0; k-- {
			sb.WriteString(g.pick("a", "b", "é", "漢", " ", "\U0001F600", "<", "&", "\"", "'", "."))
		}
		return sb.String()
	}
	q := g.anyQuery()
	if g.pct(60) {
		q = strings.NewReplacer("\n", " ", "\r", " ").Replace(q)
	}
	return q
}

func driveShown(g *Gen, o *Out, n int) {
	for o.n < n {
		q := g.showQuery()
		if !utf8.ValidString(q) || strings.ContainsAny(q, sep+"\x00") {
			continue
		}
		rs := []rune(q)
		var ms []fmtmsg.Message
		if n, err, pan := parse(q); pan == nil {
			if pe := parseError(err); pe != nil {
				ms = append(ms, pe)
			}
			if n != nil {
				for _, x := range nodes(n) {
					if e, ok := x.(*ast.ExprNode); ok {
						ms = append(ms, parser.ErrorWith(e, "m"))
						for _, v := range e.RVals {
							ms = append(ms, parser.ErrorWith(v, "m"))
						}
					}
				}
			}
		}
		for k := g.rng(1, 4); k > 0; k-- {
			i := g.n(len(rs) + 1)
			p := ast.Pos{Line: 1, Col: i + 1, Offset: len(string(rs[:i])), Len: g.n(len(rs) - i + 1)}
			switch {
			case g.pct(12):
				p.Len = g.n(len(rs) + 5)
			case g.pct(8):
				p = ast.NoPosition()
			case g.pct(30):
				p.Len = g.n(4)
			}
			if g.pct(50) {
				ms = append(ms, parser.ErrorAt(p, "m"))
			} else {
				ms = append(ms, &parser.ParserMessage{Position: p, Msg: "m", Type: parser.MsgHint})
			}
		}
		for _, m := range ms {
			w := []int{0, 0, -3, 1, 2, 3, 4, 5, 7, 10, 20, 40, 60, 80}[g.n(14)]
			switch {
			case g.pct(25):
				w = len(rs) + g.rng(-3, 2)
			case g.pct(20):
				w = m.Pos().Len + g.rng(-2, 3)
			case g.pct(10):
				w = g.rng(60, 130)
			}
			o.mark(q, fmt.Sprint(m.Pos()), fmt.Sprint(w))
			side := map[string]any{"query": q, "position": m.Pos(), "width": w}
			if g.pct(30) {
				e := observeTerminal(q, m, w)
				side["observed"] = sprint(terminal(w), q, m)
				o.add(e, side)
			} else {
				e := observeShown(q, m, w, g.pct(25))
				side["observed"] = map[string]any{"highlighted": e.V.HL, "query": fromCodes(e.V.Query), "before": fromCodes(e.V.Pre), "marked": fromCodes(e.V.Mid), "after": fromCodes(e.V.Post), "offset": e.V.Off, "length": e.V.N}
				o.add(e, side)
			}
		}
	}
}
