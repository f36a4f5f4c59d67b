package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

// nodes lists a tree in reading order.
func nodes(n ast.Node) []ast.Node {
	out := []ast.Node{n}
	switch t := n.(type) {
	case *ast.AndNode:
		out = append(append(out, nodes(t.Left)...), nodes(t.Right)...)
	case *ast.OrNode:
		out = append(append(out, nodes(t.Left)...), nodes(t.Right)...)
	case *ast.NotNode:
		out = append(out, nodes(t.Expr)...)
	}
	return out
}

// nodeKey identifies a node within its tree.
func nodeKey(n ast.Node) string {
	all := nodes(n)
	first, last := -1, -1
	for _, x := range all {
		if e, ok := x.(*ast.ExprNode); ok {
			if first < 0 {
				first = e.Position.Offset
			}
			last = e.Position.Offset
		}
	}
	return fmt.Sprintf("%T %d %d %d", n, first, last, len(all))
}

type vmsg struct {
	Ty   string  `json:"ty"`
	T    []int   `json:"t"`
	Args [][]int `json:"args"`
	Pos  []int   `json:"pos"`

	tmpl  string
	vals  []any
	where string // none, with, at
	pos   ast.Pos
}

type gotMsg struct {
	Ty   string `json:"ty"`
	Text []int  `json:"text"`
	Pos  []int  `json:"pos"`
}

type visitor struct {
	Re []string  `json:"re"`
	Ms [][]*vmsg `json:"ms"`

	tape bool
	errs []error
	mv   *parser.MessageVisitor
}

type visitEvent struct {
	K    string     `json:"k"`
	Q    []int      `json:"q"`
	Vs   []*visitor `json:"vs"`
	Seen [][]int    `json:"seen"`
	Msgs [][]gotMsg `json:"msgs"`
	R    string     `json:"r"`
	Who  int        `json:"who"`
	At   int        `json:"at"`
	Txt  []int      `json:"txt"`
	P    []int      `json:"p"`
}

type posOf struct{ p ast.Pos }

func (p posOf) Pos() ast.Pos { return p.p }

func msgType(t parser.MessageType) string {
	switch t {
	case parser.MsgHint:
		return "HINT"
	case parser.MsgWarning:
		return "WARNING"
	case parser.MsgError:
		return "ERROR"
	}
	return "?"
}

func (m *vmsg) issue(t *parser.MessageTape) {
	switch m.Ty + m.where {
	case "HINTnone":
		t.Hint(m.tmpl, m.vals...)
	case "HINTwith":
		t.HintWith(posOf{m.pos}, m.tmpl, m.vals...)
	case "HINTat":
		t.HintAt(m.pos, m.tmpl, m.vals...)
	case "WARNINGnone":
		t.Warning(m.tmpl, m.vals...)
	case "WARNINGwith":
		t.WarningWith(posOf{m.pos}, m.tmpl, m.vals...)
	case "WARNINGat":
		t.WarningAt(m.pos, m.tmpl, m.vals...)
	case "ERRORnone":
		t.Error(m.tmpl, m.vals...)
	case "ERRORwith":
		t.ErrorWith(posOf{m.pos}, m.tmpl, m.vals...)
	case "ERRORat":
		t.ErrorAt(m.pos, m.tmpl, m.vals...)
	}
}

func (g *Gen) vmsg(n ast.Node, errs int) *vmsg {
	m := &vmsg{Ty: g.pick("HINT", "WARNING"), where: g.pick("none", "with", "at"), Pos: nowhere, Args: [][]int{}}
	if g.pct(errs) {
		m.Ty = "ERROR"
	}
	if m.where != "none" {
		m.pos = ast.Pos{Line: g.rng(1, 3), Col: g.rng(1, 40), Offset: g.n(60), Len: g.n(12)}
		if g.pct(10) {
			m.pos = ast.Pos{Line: 1, Col: 1}
		}
		if e, ok := n.(*ast.ExprNode); ok && g.pct(60) {
			m.pos = e.Pos()
			if len(e.RVals) > 0 && g.pct(40) {
				m.pos = e.RVals[0].Pos()
			}
		}
		m.Pos = place(m.pos)
	}
	var sb strings.Builder
	for k := g.rng(1, 4); k > 0; k-- {
		switch g.n(6) {
		case 0:
			sb.WriteString("%s")
			w := g.pick("x", "a%b", "100%", "%d", "é", "")
			m.vals = append(m.vals, w)
			m.Args = append(m.Args, codes(w))
		case 1:
			sb.WriteString("%d")
			i := g.n(2000) - 1000
			m.vals = append(m.vals, i)
			m.Args = append(m.Args, codes(fmt.Sprint(i)))
		case 2:
			sb.WriteString("%v")
			b := g.pct(50)
			m.vals = append(m.vals, b)
			m.Args = append(m.Args, codes(fmt.Sprint(b)))
		case 3:
			sb.WriteString("%%")
		default:
			sb.WriteString(g.pick("msg ", "near ", "é ", "'quoted' ", "a\nb", "m"+fmt.Sprint(g.n(100))))
		}
	}
	m.tmpl = sb.String()
	m.T = codes(m.tmpl)
	return m
}

func driveVisit(g *Gen, o *Out, prop string, n int) {
	for o.n < n {
		size := []int{1, 2, 3, 4, 5, 8}[g.n(6)]
		if g.pct(2) {
			size = g.rng(12, 40)
		}
		c := g.clause(size, 4)
		if g.n(150) == 0 {
			c = g.chain(g.rng(20, 110))
		}
		q := g.ws() + g.writeClause(c, 0, 20) + g.ws()
		if g.pct(7) {
			q = g.argQuery()
		} else if g.pct(4) {
			q = strings.ToValidUTF8(g.spoil(q), "?")
		}
		visitOnce(g, o, prop, q)
	}
}

// visitors draws what one to four visitors do at each of the size nodes.
func (g *Gen) visitors(prop string, size int, ns []ast.Node) (vs []*visitor) {
	fresh := g.n(1 << 30)
	calm := g.pct(40)
	count := g.rng(1, 4)
	if g.pct(2) {
		count = g.rng(5, 20)
	}
	// one node may be the cause of very many messages
	burst := -1
	if g.pct(1) {
		burst = g.n(size)
	}
	for k := count; k > 0; k-- {
		v := &visitor{tape: g.pct(50) || prop == "C14"}
		for i := 0; i < size; i++ {
			re := "go"
			// every node of a large tree is as good a place to stop as any
			switch x := g.n(max(100, 5*size)); {
			case x < 12:
				re = "skip"
			case x < 16:
				re = "all"
			case x < 19 && !calm:
				re = "perr"
			case x < 22 && !calm:
				re = "err"
			}
			v.react(re, fmt.Sprintf("%d %d %d", fresh, len(vs), i))
			ms := []*vmsg{}
			if v.tape && g.pct(40) {
				for j := g.rng(1, 2); j > 0; j-- {
					var at ast.Node
					if ns != nil {
						at = ns[i]
					}
					rate := 6
					if calm && g.pct(70) {
						rate = 0
					}
					ms = append(ms, g.vmsg(at, rate))
				}
			}
			if v.tape && i == burst {
				for j := g.rng(20, 300); j > 0; j-- {
					m := &vmsg{Ty: g.pick("HINT", "HINT", "WARNING"), where: "none", Pos: nowhere, Args: [][]int{}, tmpl: fmt.Sprint(j)}
					m.T = codes(m.tmpl)
					ms = append(ms, m)
				}
			}
			v.Ms = append(v.Ms, ms)
		}
		vs = append(vs, v)
	}
	return
}

// react adds what the visitor returns at its next node.
func (v *visitor) react(re, name string) {
	var e error
	i := len(v.errs)
	switch re {
	case "skip":
		e = parser.Skip
	case "all":
		e = parser.SkipAll
	case "perr":
		e = parser.ErrorAt(ast.Pos{Line: 1, Col: i + 1, Offset: i, Len: 1}, "perr "+name)
	case "err":
		e = fmt.Errorf("err <%s>", name)
	}
	v.Re = append(v.Re, re)
	v.errs = append(v.errs, e)
}

func visitOnce(g *Gen, o *Out, prop, q string) {
	plain, perr, pan := parse(q)
	if pan != nil {
		return
	}
	size := 9
	var ns []ast.Node
	if perr == nil {
		ns = nodes(plain)
		size = len(ns)
	}
	playVisit(o, prop, q, ns, g.visitors(prop, size, ns), g.pct(60))
}

// playVisit parses q with the visitors, given as one option or as many. ns are
// the nodes of q in reading order, if it has any.
func playVisit(o *Out, prop, q string, ns []ast.Node, vs []*visitor, together bool) {
	idx := map[string]int{}
	for i, x := range ns {
		idx[nodeKey(x)] = i + 1
	}
	ev := visitEvent{K: prop, Q: codes(q), P: nowhere, Txt: []int{}, Vs: vs}
	var pvs []parser.Visitor
	for who, v := range vs {
		who, v := who, v
		ev.Seen = append(ev.Seen, []int{})
		visit := func(n ast.Node, t *parser.MessageTape) error {
			i := idx[nodeKey(n)]
			ev.Seen[who] = append(ev.Seen[who], i)
			if i == 0 || i > len(v.errs) || len(ev.Seen[who]) > 4*len(v.errs)+8 {
				return nil
			}
			if t != nil {
				for _, m := range v.Ms[i-1] {
					m.issue(t)
				}
			}
			return v.errs[i-1]
		}
		if v.tape {
			v.mv = parser.NewMessageVisitor(visit)
			pvs = append(pvs, v.mv)
		} else {
			pvs = append(pvs, parser.VisitorFunc(func(n ast.Node) error { return visit(n, nil) }))
		}
	}
	var opts []parser.Option
	if together {
		opts = append(opts, parser.Visitors(pvs...))
	} else {
		for _, v := range pvs {
			opts = append(opts, parser.Visitors(v))
		}
	}
	o.mark(q)
	n, err, pan := parse(q, opts...)
	for _, v := range ev.Vs {
		got := []gotMsg{}
		if v.mv != nil {
			for _, m := range v.mv.Messages() {
				got = append(got, gotMsg{msgType(m.Type), codes(m.Message()), place(m.Pos())})
			}
		}
		ev.Msgs = append(ev.Msgs, got)
	}
	pe := parseError(err)
	switch {
	case pan != nil:
		ev.R = "P"
	case err == nil && n != nil:
		ev.R = "ok"
	case err == nil || n != nil:
		ev.R = "odd"
	default:
		ev.R = "odd"
		if pe != nil {
			ev.R = "pe"
			ev.Txt = codes(pe.Message())
			ev.P = place(pe.Pos())
		}
		for k, v := range ev.Vs {
			for i, e := range v.errs {
				switch v.Re[i] {
				case "perr":
					if err == e {
						ev.R, ev.Who, ev.At = "perr", k+1, i+1
					}
				case "err":
					if errors.Is(err, e) || strings.Contains(err.Error(), e.Error()) {
						ev.R, ev.Who, ev.At = "err", k+1, i+1
					}
				}
			}
		}
	}
	errText := ""
	if err != nil {
		errText = err.Error()
	}
	o.add(ev, map[string]any{"query": q, "visitors": ev.Vs, "seen": ev.Seen, "observed": ev.R, "error": errText})
}

// ---------------------------------------------------------------- C15

type adviceEvent struct {
	K     string        `json:"k"`
	Q     []int         `json:"q"`
	Plain string        `json:"plain"`
	R     string        `json:"r"`
	Ms    []adviceGiven `json:"ms"`
}
type adviceGiven struct {
	Ty string `json:"ty"`
	P  []int  `json:"p"`
}

// adviceRe is an expression about which there may be something to say.
func (g *Gen) adviceRe() string {
	word := func() string {
		return g.pick("ab", "cd", "foo", "bar", "baz", "qux", "x1", "Hello", "漢字", "zz", "error", "warn", "a", "b")
	}
	var re string
	switch g.n(8) {
	case 0:
		re = word()
	case 1:
		re = word() + "|" + word()
	case 2:
		re = word() + "|" + word() + "|" + word()
	case 3:
		re = g.pick(".*", "") + word() + g.pick(".*", "", "\\.*", "\\\\.*")
	case 4:
		re = g.pick(".*", "") + word() + ".*" + word() + g.pick(".*", "")
	case 5:
		re = g.reSeq([]rune(word()), 1)
	case 6:
		re = g.pick(".*", "^.*", ".+", ".*?x", "a.*", ".*a", ".*a.*", "x\\.*", "x\\\\.*", "漢", "é", ".", "^a", "a$")
	case 7:
		re = word() + word()
	}
	if g.pct(30) {
		re = "(" + re + ")"
	}
	if g.pct(25) {
		re = "(?i)" + re
	} else if g.pct(10) {
		re = "(?s)" + re
	}
	return re
}

func (g *Gen) adviceCmp() string {
	val := func() string {
		switch g.n(7) {
		case 0:
			return g.quoteAQL(g.pick("x", "y", "z", ".*", "a b"))
		case 1:
			if g.pct(30) {
				return g.aqlTime(g.someTime())
			}
			return g.pick("2020-01-01", "2020-01-01T00:00:00Z", "2021-05-06T07:08:09.5+02:00", "2021-05-06")
		case 2:
			return g.pick("1", "2.5", "true", "10.0.0.0/8")
		}
		return g.regexLit(g.adviceRe())
	}
	var rhs string
	switch g.n(6) {
	case 0, 1, 2:
		rhs = val()
	case 3:
		var vs []string
		seen := map[string]bool{}
		for k := g.rng(2, 4); k > 0; k-- {
			if v := val(); !seen[v] {
				vs = append(vs, v)
				seen[v] = true
			}
		}
		if len(vs) == 1 {
			rhs = vs[0]
		} else {
			rhs = g.list(vs)
		}
	case 4:
		rhs = "~" + g.pick(g.quoteAQL("x"), g.regexLit(g.adviceRe()), "true", g.list([]string{g.quoteAQL("x"), g.regexLit(g.adviceRe())}), g.list([]string{g.quoteAQL("x"), "true", g.quoteAQL("y")}))
	case 5:
		rhs = g.pick("<", "<=", ">", ">=", "") + g.pick("2020-01-01T00:00:00Z", "2020-01-01", "2020-01-01T00:00:00.5Z")
		switch g.n(5) {
		case 0:
			rhs = "><(" + g.pick("2020-01-01T00:00:00Z,2020-02-01", "2020-01-01T00:00:00.5Z,2020-01-01T00:00:00.75Z", "2019-12-31,2020-01-01T10:00:00.123456789+01:00") + ")"
		case 1:
			rhs = g.pick("<", "<=", ">", ">=", "", "") + g.aqlTime(g.someTime())
		}
	}
	return g.cmp([]string{g.key(10)}, rhs)
}

func (g *Gen) someTime() time.Time {
	t := time.Date(g.rng(1900, 2100), time.Month(g.rng(1, 12)), g.rng(1, 28), 0, 0, 0, 0, time.UTC)
	switch g.n(4) {
	case 0:
		t = t.Add(time.Duration(g.n(86400)) * time.Second)
	case 1:
		t = t.Add(time.Duration(g.r.Int63n(int64(24 * time.Hour))))
	case 2:
		t = t.Add(time.Duration(g.n(1000)) * time.Millisecond)
	}
	return t
}

func driveAdvice(g *Gen, o *Out, n int) {
	for o.n < n {
		c := g.clause([]int{1, 1, 2, 3, 4}[g.n(5)], 3)
		g.retext(c, g.adviceCmp)
		q := g.ws() + g.writeClause(c, 0, 15) + g.ws()
		adviceOnce(o, q)
	}
}

func adviceOnce(o *Out, q string) {
	e := adviceEvent{K: "advice", Q: codes(q), Plain: "err", R: "err", Ms: []adviceGiven{}}
	o.mark(q)
	if n, err, pan := parse(q); pan == nil && err == nil && n != nil {
		e.Plain = "ok"
	}
	m, err, pan := newMatcher(q)
	var texts []string
	if pan != nil {
		e.R = "P"
	} else if err == nil {
		e.R = "ok"
		e.Ms, texts = adviceOf(m)
	}
	o.add(e, map[string]any{"query": q, "observed": e.R, "messages": texts})
}

func adviceOf(m *jsonmatcher.Matcher) (ms []adviceGiven, texts []string) {
	ms = []adviceGiven{}
	for _, x := range m.Messages() {
		ms = append(ms, adviceGiven{msgType(x.Type), place(x.Pos())})
		texts = append(texts, x.String())
	}
	return
}
