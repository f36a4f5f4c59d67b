package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

// toldEvent is a message and the forms in which it was written.
type toldEvent struct {
	K    string `json:"k"`
	Src  string `json:"src"`
	Ty   string `json:"ty"`
	Msg  []int  `json:"msg"`
	P    []int  `json:"p"`
	Text []int  `json:"text"`
	JSON []int  `json:"json"`
	HTML bool   `json:"html"`
	Q    []int  `json:"q"`
	FTy  []int  `json:"fty"`
	FMsg []int  `json:"fmsg"`
	FQ   []int  `json:"fq"`
	Term []int  `json:"term"`
}

// telling is a template that prints whose message it is, in each kind of output.
const telling = `{{.Type}}` + sep + `{{.Message}}` + sep + `{{.Query}}`

// teller holds formatters and the printers made with them, to be used again and again.
type teller struct {
	html, text, term *fmtmsg.Formatter
	printers         map[string]*fmtmsg.Printer
}

func newTeller() *teller {
	t := &teller{term: fmtmsg.NewTerminalFormatter(0), printers: map[string]*fmtmsg.Printer{}}
	var err error
	if t.html, err = fmtmsg.NewFormatter(telling, true, 0); err != nil {
		fatal(err)
	}
	if t.text, err = fmtmsg.NewFormatter(telling, false, 0); err != nil {
		fatal(err)
	}
	return t
}

func (t *teller) print(how string, f *fmtmsg.Formatter, q string, m fmtmsg.Message) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	p := t.printers[how+q]
	if p == nil {
		p = f.WithQuery(q)
		t.printers[how+q] = p
	}
	return p.Sprint(m)
}

// said is a message and what it was made from.
type said struct {
	src, ty, msg string
	p            ast.Pos
	m            fmtmsg.Message
	json         []byte
}

func jsonOf(v any, indent bool) (b []byte) {
	defer func() {
		if e := recover(); e != nil {
			b = []byte(fmt.Sprintf("panic: %v", e))
		}
	}()
	var err error
	if indent {
		b, err = json.MarshalIndent(v, "", "\t")
	} else {
		b, err = json.Marshal(v)
	}
	if err != nil {
		return []byte("error: " + err.Error())
	}
	return b
}

// issueAll has messages issued while a query is parsed and gives back those
// that can be had from the visitor and, if there are errors, from the parser.
func issueAll(all []said, fresh func() int, asList, indent bool) (out []said) {
	first := true
	mv := parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
		if !first {
			return nil
		}
		first = false
		for _, s := range all {
			m := &vmsg{Ty: s.ty, where: "at", tmpl: "%s", vals: []any{s.msg}, pos: s.p}
			if s.p == ast.NoPosition() {
				m.where = "none"
			} else if fresh()%2 == 0 {
				m.where = "with"
			}
			if !strings.Contains(s.msg, "%") && fresh()%2 == 0 {
				m.tmpl, m.vals = s.msg, nil
			}
			m.issue(t)
		}
		return nil
	})
	_, err, pan := parse("a:1", parser.Visitors(mv))
	if pan != nil {
		return nil
	}
	got := mv.Messages()
	var list []json.RawMessage
	if asList {
		if json.Unmarshal(jsonOf(got, indent), &list) != nil || len(list) != len(got) {
			list = nil
		}
	}
	for i, s := range all {
		if i >= len(got) {
			break
		}
		s.src, s.m = "message", got[i]
		if s.json = jsonOf(got[i], indent); list != nil {
			s.json = list[i]
		}
		out = append(out, s)
	}
	if pe := parseError(err); pe != nil {
		for _, s := range all {
			if s.ty == "ERROR" {
				s.src, s.m, s.json = "error", pe, jsonOf(pe, indent)
				return append(out, s)
			}
		}
	}
	return out
}

func (t *teller) observe(s said, q string, isHTML bool) toldEvent {
	e := toldEvent{K: "told", Src: s.src, Ty: s.ty, Msg: codes(s.msg), P: place(s.p), JSON: codes(string(s.json)), HTML: isHTML, Q: codes(q),
		FTy: []int{-1}, FMsg: []int{-1}, FQ: []int{-1}}
	text := ""
	safely(func() {
		switch m := s.m.(type) {
		case *parser.ParserMessage:
			text = m.String()
		case *parser.ParseError:
			text = m.Error()
		}
	})
	e.Text = codes(text)
	f, how := t.text, "text"
	if isHTML {
		f, how = t.html, "html"
	}
	if parts := strings.Split(t.print(how, f, q, s.m), sep); len(parts) == 3 {
		e.FTy, e.FMsg, e.FQ = codes(parts[0]), codes(parts[1]), codes(parts[2])
	}
	e.Term = codes(t.print("term", t.term, q, s.m))
	return e
}

func (t *teller) record(o *Out, s said, q string, isHTML bool) {
	o.mark(q, s.msg)
	e := t.observe(s, q, isHTML)
	o.add(e, map[string]any{"query": q, "kind": s.ty, "message": s.msg, "position": s.p, "from": s.src, "html": isHTML,
		"observed": map[string]any{"text": fromCodes(e.Text), "json": string(s.json), "terminal": fromCodes(e.Term),
			"printed": []string{fromCodes(e.FTy), fromCodes(e.FMsg), fromCodes(e.FQ)}}})
}

// message is a text somebody might be told.
func (g *Gen) message() string {
	if g.pct(3) {
		return ""
	}
	var sb strings.Builder
	for k := g.rng(1, 8); k > 0; k-- {
		switch g.n(4) {
		case 0:
			sb.WriteString(g.pick("use ", "not ", "field ", "value ", "HINT", "WARNING: ", "ERROR ", "info", "1:1(0): ", "[2:3(4)]: ", "near ", "m", "  "))
		case 1:
			sb.WriteString(g.pick("<b>", "</script>", "<!--", "&amp;", "&lt;", "&", "<", ">", "'", "\"", "`", "=", "{{.Query}}", "{{", "}}", "&#39;", "+", "/"))
		case 2:
			sb.WriteString(g.pick("\\", "\\n", "\n", "\t", "\r", "%", "%s", "%d", "100%", "%!", "\x07", "\x7f", "\u2028", "\u2029", "\u200d", "\ufeff"))
		default:
			sb.WriteString(g.pick("é", "漢字", "\U0001F600", "é", "ß", "İ", "ﬀ", "a", "Z", "0", "42", "…", "→"))
		}
	}
	if g.pct(3) {
		return strings.Repeat(sb.String(), g.rng(2, 12))
	}
	return sb.String()
}

func (g *Gen) placeIn(q string) ast.Pos {
	if g.pct(20) {
		return ast.NoPosition()
	}
	rs := []rune(q)
	i := g.n(len(rs) + 1)
	p := ast.Pos{Line: 1, Col: i + 1, Offset: len(string(rs[:i])), Len: g.n(len(rs) - i + 1)}
	if g.pct(40) {
		p.Line, p.Col = g.rng(1, 130), g.rng(1, 1200)
	}
	return p
}

func driveTold(g *Gen, o *Out, n int) {
	for o.n < n {
		t := newTeller()
		var qs []string
		for k := g.rng(1, 3); k > 0; k-- {
			q := g.showQuery()
			if utf8.ValidString(q) && !strings.ContainsAny(q, sep+"\x00") && len(q) < 300 {
				qs = append(qs, q)
			}
		}
		if len(qs) == 0 {
			continue
		}
		for k := g.rng(1, 3); k > 0; k-- {
			var all []said
			var of []string
			for j := g.rng(1, 5); j > 0; j-- {
				q := qs[g.n(len(qs))]
				of = append(of, q)
				all = append(all, said{ty: g.pick("HINT", "WARNING", "ERROR"), msg: g.message(), p: g.placeIn(q)})
			}
			for i, s := range issueAll(all, func() int { return g.n(2) }, g.pct(60), g.pct(30)) {
				q := ""
				if s.src == "message" {
					q = of[i]
				} else {
					for j := range all {
						if all[j].ty == "ERROR" {
							q = of[j]
							break
						}
					}
				}
				t.record(o, s, q, g.pct(50))
				if g.pct(15) {
					t.record(o, s, q, g.pct(50))
				}
			}
		}
		// an error of the parser's own
		q := qs[0]
		if _, err, pan := parse(q); pan == nil {
			if pe := parseError(err); pe != nil {
				t.record(o, said{src: "error", ty: "ERROR", msg: pe.Message(), p: pe.Pos(), m: pe, json: jsonOf(pe, g.pct(30))}, q, g.pct(50))
			}
		}
	}
}

func (c *testCase) told(o *Out) {
	q := fromCodes(c.Qs[0])
	p := []ast.Pos{ast.NoPosition(), {Line: 1, Col: 1, Offset: 0, Len: 3}, {Line: 1, Col: 9, Offset: 8, Len: 5}}[c.O]
	t := newTeller()
	k := 0
	for _, s := range issueAll([]said{{ty: c.Ask, msg: fromCodes(c.Q), p: p}}, func() int { k++; return k }, true, c.O == 1) {
		if s.src == c.Place {
			t.record(o, s, q, c.InFile)
		}
	}
}
