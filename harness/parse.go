package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

// parseEvent is what one parse did: ok, err, P (panic) or odd (an error that
// is not a parse error, or a tree along with an error).
type parseEvent struct {
	K   string `json:"k"`
	Q   []int  `json:"q"`
	UTF bool   `json:"utf"`
	R   string `json:"r"`
	N   any    `json:"n"`
	P   []int  `json:"p"`
}

func place(p ast.Pos) []int { return []int{p.Line, p.Col, p.Offset, p.Len} }

var nowhere = []int{0, 0, -1, 0}

func dumpVal(v ast.Val) map[string]any {
	m := map[string]any{"ty": string(v.Type()), "p": place(v.Pos())}
	switch t := v.(type) {
	case *ast.IntVal:
		m["v"] = codes(strconv.FormatInt(t.Value(), 10))
	case *ast.FloatVal:
		m["v"] = codes(strconv.FormatFloat(t.Value(), 'f', -1, 64))
	case *ast.StringVal:
		m["v"] = codes(t.Value())
	case *ast.RegexpVal:
		m["v"] = codes(t.Value().String())
	case *ast.BoolVal:
		m["v"] = t.Value()
	case *ast.TimeVal:
		u := t.Value().UTC()
		sec := u.Unix()
		d := sec / 86400
		if sec%86400 < 0 {
			d--
		}
		m["v"] = map[string]any{"d": d, "s": sec - d*86400, "ns": u.Nanosecond(), "day": t.DayOnly()}
	case *ast.NetVal:
		a := t.Value().Addr().As4()
		m["v"] = map[string]any{"o": bytesOf(a[:]), "bits": t.Value().Bits()}
	default:
		m["ty"] = "unknown"
	}
	return m
}

func dump(n ast.Node) map[string]any {
	switch t := n.(type) {
	case *ast.AndNode:
		return map[string]any{"t": "and", "l": dump(t.Left), "r": dump(t.Right)}
	case *ast.OrNode:
		return map[string]any{"t": "or", "l": dump(t.Left), "r": dump(t.Right)}
	case *ast.NotNode:
		return map[string]any{"t": "not", "x": dump(t.Expr)}
	case *ast.ExprNode:
		f := make([][]int, len(t.Field))
		for i, s := range t.Field {
			f[i] = codes(s)
		}
		vs := make([]any, len(t.RVals))
		for i, v := range t.RVals {
			vs[i] = dumpVal(v)
		}
		return map[string]any{"t": "cmp", "op": string(t.Op), "f": f, "vs": vs, "p": place(t.Position)}
	}
	return map[string]any{"t": "none"}
}

func parse(q string, options ...parser.Option) (n ast.Node, err error, panicked any) {
	defer func() { panicked = recover() }()
	n, err = parser.ParseQuery(q, options...)
	return
}

func parseError(err error) *parser.ParseError {
	var pe *parser.ParseError
	if errors.As(err, &pe) {
		return pe
	}
	return nil
}

func observeParse(kind, q string) parseEvent {
	e := parseEvent{K: kind, Q: codes(q), UTF: utf8.ValidString(q), N: map[string]any{"t": "none"}, P: nowhere}
	n, err, pan := parse(q)
	switch {
	case pan != nil:
		e.R = "P"
	case err == nil && n != nil:
		e.R = "ok"
		e.N = dump(n)
	case err != nil && n == nil && parseError(err) != nil:
		e.R = "err"
		e.P = place(parseError(err).Position)
	default:
		e.R = "odd"
	}
	return e
}

func driveParse(g *Gen, o *Out, prop string, n int) {
	for o.n < n {
		q := g.queryText(prop)
		if len(q) > 600 {
			continue
		}
		o.mark(q)
		e := observeParse(prop, q)
		o.add(e, map[string]any{"query": q, "observed": e.R, "position": e.P})
	}
}

func (g *Gen) queryText(prop string) string {
	switch prop {
	case "C11":
		return g.argQuery()
	case "C12":
		switch g.n(5) {
		case 0:
			return g.argQuery()
		case 1, 2:
			return g.anyQuery()
		case 3:
			return g.spoil(g.anyQuery())
		}
		return g.badValue()
	}
	switch g.n(12) {
	case 0, 1, 2, 3:
		return g.anyQuery()
	case 4, 5, 6, 7:
		return g.spoil(g.anyQuery())
	case 8:
		return g.spoil(g.spoil(g.shortQuery()))
	case 9:
		return g.badValue()
	case 10:
		return g.soup()
	}
	return g.spoil(g.shortQuery())
}

// anyRHS is something to compare a field with.
func (g *Gen) anyRHS() string {
	switch g.n(14) {
	case 0:
		return "exists"
	case 1:
		return "null"
	case 2:
		return g.pick("true", "false", "~true", "(true,1)", "~ (false , true)")
	case 3, 4:
		return g.numRHS(g.decimal())
	case 5, 6:
		return g.timeRHS(g.instant())
	case 7, 8:
		return g.textRHS(g.phrase())
	case 9, 10:
		return g.regexRHS(g.phrase())
	case 11:
		return g.netRHS(g.block())
	}
	var vs []string
	seen := map[string]bool{}
	for k := g.rng(2, 4); k > 0; k-- {
		l, _ := g.member()
		if !seen[l] && !(l == "true" && seen["false"]) && !(l == "false" && seen["true"]) {
			vs = append(vs, l)
			seen[l] = true
		}
	}
	if len(vs) < 2 {
		return vs[0]
	}
	return g.list(vs)
}

func (g *Gen) anyPath() []string {
	var p []string
	for k := g.rng(1, 3); k > 0; k-- {
		p = append(p, g.key(25))
	}
	return p
}

func (g *Gen) anyCmp() string { return g.cmp(g.anyPath(), g.anyRHS()) }

func (g *Gen) retext(c *clause, f func() string) {
	if c.op == "leaf" {
		c.text = f()
		return
	}
	g.retext(c.l, f)
	if c.r != nil {
		g.retext(c.r, f)
	}
}

func (g *Gen) anyQuery() string {
	c := g.clause([]int{1, 1, 2, 3, 4, 6}[g.n(6)], 3)
	if g.n(400) == 0 {
		c = g.chain(g.rng(10, 60))
	}
	g.retext(c, g.anyCmp)
	return g.ws() + g.writeClause(c, 0, []int{0, 10, 30}[g.n(3)]) + g.ws()
}

func (g *Gen) shortQuery() string {
	c := g.clause(g.rng(1, 3), 3)
	g.retext(c, func() string {
		return g.pick("a", "b", "a.b", "*", "a.*", "\"a b\"") + ":" + g.pick("1", "-1", "1.5", "exists", "null", "true", "\"x\"", "/x/", ">1", "><(1,2)", "(1,2)", "~\"x\"", "2020-01-01", "1.2.3.4/8", "<=2", ">=2", "<2")
	})
	return g.writeClause(c, 0, 10)
}

var tokens = []string{"a", ":", " ", "(", ")", ",", "\"", "/", "\\", ".", "*", "-", "1", "1.5", "AND", "OR", "NOT", "!", "<", ">", "=", "~", "><", "<=", ">=",
	"exists", "null", "true", "false", "2020-01-01", "T00:00:00Z", "1.2.3.4", "/8", "\n", "\t", "é", "漢", "e5", "0", "+", "and", "or", "not", "&", "|", "[", "]", "{", "}", "'", "#", "\\u0041", "\\n", "x", "_", "==", "\r", "\u00a0", "\f", "\x00", "\U0001F600", "\ufeff"}

func (g *Gen) soup() string {
	var sb strings.Builder
	for k := g.rng(1, 8); k > 0; k-- {
		sb.WriteString(tokens[g.n(len(tokens))])
	}
	return sb.String()
}

// misspell writes one of the words or signs of the language in another way.
func (g *Gen) misspell(q string) string {
	ways := []string{" AND ", " and ", " AND ", " And ", " AND ", " && ", " AND ", " , ", " AND ", "  ", " AND ", " AND AND ", " AND ", " AND OR ",
		" OR ", " or ", " OR ", " Or ", " OR ", " || ", " OR ", " XOR ", "NOT ", "not ", "NOT ", "Not ", "NOT ", "NOT", "NOT ", "- ", "!", "NOT", "!", "~", "!", "! !", "!", "!!",
		"true", "True", "true", "TRUE", "true", "yes", "false", "False", "false", "FALSE", "exists", "EXISTS", "exists", "Exists", "exists", "exist", "null", "NULL", "null", "nil", "null", "None",
		">=", "=>", ">=", "≥", "<=", "=<", "<=", "≤", "><", "<>", "><", "> <", "><", "..", ":", "=", ":", "::", ":", ":=", ":", "==", ":", " : ", ":~", "~:", ":", ":!", ":", "!:", ",", ";", ",", ",,", ",", " ", "(", "[", ")", "]", "\"", "'", "\"", "`", "\"", "“", ".", "..", ".", "/", "T", "t", "Z", "z", "T", " ", "-", "−", "/", "|"}
	var at [][3]int
	for w := 0; w < len(ways); w += 2 {
		for i := 0; i < len(q); {
			k := strings.Index(q[i:], ways[w])
			if k < 0 {
				break
			}
			at = append(at, [3]int{w, i + k, len(ways[w])})
			i += k + 1
		}
	}
	if len(at) == 0 {
		return q
	}
	// every way alike, however often it applies
	pick := at[g.n(len(at))]
	w := pick[0]
	for tries := 0; tries < 4; tries++ {
		v := 2 * g.n(len(ways)/2)
		for _, a := range at {
			if a[0] == v {
				pick, w = a, v
			}
		}
		if w == v {
			break
		}
	}
	return q[:pick[1]] + ways[w+1] + q[pick[1]+pick[2]:]
}

// spoil makes a small change anywhere.
func (g *Gen) spoil(q string) string {
	rs := []rune(q)
	if len(rs) == 0 {
		return g.soup()
	}
	i := g.n(len(rs))
	j := min(len(rs), i+g.rng(1, 3))
	if g.pct(12) {
		if s := g.misspell(q); s != q {
			return s
		}
	}
	switch g.n(11) {
	case 0:
		return string(rs[:i]) + string(rs[i+1:])
	case 1:
		return string(rs[:i]) + string(rs[j:])
	case 2, 3:
		return string(rs[:i]) + tokens[g.n(len(tokens))] + string(rs[i:])
	case 4:
		return string(rs[:i]) + tokens[g.n(len(tokens))] + string(rs[i+1:])
	case 5:
		return string(rs[:i])
	case 6:
		return string(rs[i:])
	case 7:
		return q + tokens[g.n(len(tokens))]
	case 8:
		return q + " " + g.soup()
	case 9:
		if g.pct(20) {
			b := []byte(q)
			b[g.n(len(b))] = byte(128 + g.n(128))
			return string(b)
		}
		return string(rs[:j]) + string(rs[i:])
	}
	if i+1 < len(rs) {
		rs[i], rs[i+1] = rs[i+1], rs[i]
	}
	return string(rs)
}

// badValue is a query with a value that is not quite one.
func (g *Gen) badValue() string {
	v := g.pick(`"abc`, `"a\x"`, `"\u12"`, `"\ud800"`, `"a`+"\n"+`b"`, `/a(b/`, `/a[/`, `/*/`, `/a{2,1}/`, `/(?z)/`, `/a`, `/\8/`, `//`, `/+/`,
		"2020-13-01", "2020-02-30", "2019-02-29", "2020-01-01T25:00:00Z", "2020-01-01T00:00:00", "2020-01-01t00:00:00z", "2020-1-1", "2020-01-01T00:00:00+25:00", "2020-00-10",
		"256.1.1.1", "1.2.3.4/33", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.4/", "1.2.3.4/123",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1.", ".5", "-", "--1", "1e5", "+1", "0x10", "1_000", "00012", "-0", "1.5.2",
		"True", "TRUE", "tru", "falsee", "truefalse", "nulls", "existss", "nul", "(1)", "()", "(1,)", "(,1)", "(1 2)", "(1,2", "((1,2))", "(1,(2,3))", "(exists,1)", "(null,1)", "abc", "漢", "=1", "!=1", "<>(1,2)", "=>1", "=<1", ">=<1", ">>1", "> <(1,2)", "~~\"a\"", "~(\"a\")", "exists 1", "!exists",
		"'a'", "*", "a.b", "<(1,2)", ">\"a\"", "~1", "><1", "><(1,2,3)", "><(2,1)", "(true,false)", "(1,1)")
	q := g.pick("a", "a.b", "\"x y\"", "漢", "a.\"é\"") + g.ws() + ":" + g.ws() + v
	switch g.n(4) {
	case 0:
		q = g.anyCmp() + g.ws1() + g.pick("AND", "OR") + g.ws1() + q
	case 1:
		q = q + g.ws1() + g.pick("AND", "OR") + g.ws1() + g.anyCmp()
	case 2:
		q = "(" + g.ws() + g.pick("", "!", "NOT ") + q + ")"
	}
	return q
}

// argQuery is a query whose operators may not like their arguments.
func (g *Gen) argQuery() string {
	c := g.clause([]int{1, 1, 1, 2, 3, 5}[g.n(6)], 3)
	if g.n(300) == 0 {
		c = g.chain(g.rng(10, 60))
	}
	g.retext(c, func() string {
		if g.pct(35) {
			return g.anyCmp()
		}
		return g.cmp([]string{g.key(15)}, g.argRHS())
	})
	return g.ws() + g.writeClause(c, 0, 10) + g.ws()
}

func (g *Gen) argValue() string {
	switch g.n(9) {
	case 0:
		return g.pick("true", "false")
	case 1, 2:
		return g.pick("1", "2", "1.0", "2.0", "1.00", "-1", "-1.0", "01", "0", "-0", "0.0", "-0.0", "10", "10.5", "10.50")
	case 3:
		return g.pick("2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T01:00:00+01:00", "2020-01-02", "2019-12-31T23:59:59.999Z")
	case 4:
		return g.pick("10.0.0.1", "10.0.0.1/32", "10.0.0.0/8", "10.0.0.1/8", "10.0.0.2")
	case 5:
		return g.pick(`"a"`, `"A"`, `"a"`, `"true"`, `"1"`, `"/a/"`, `"a "`, `"2020-01-01"`)
	case 6:
		return g.pick("/a/", "/A/", "/true/", "/1/", `/a\/b/`, `/a[/]b/`)
	}
	l, _ := g.member()
	return l
}

// longArgs are many different arguments, among which at most one is repeated
// or contradicts another one, or does not suit the operator.
func (g *Gen) longArgs(op string) []string {
	vs := make([]string, g.rng(5, 70))
	for i := range vs {
		vs[i] = fmt.Sprintf(g.pick(`"w%d"`, `"w%d"`, "/r%d/"), i)
		if op == "" {
			vs[i] = fmt.Sprintf(g.pick("%d", "%d.5", `"w%d"`, "/r%d/", "10.0.0.%d", "-%d", `"%d"`), i+1)
		}
	}
	g.shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	a, b := g.n(len(vs)), g.n(len(vs))
	if g.pct(30) {
		b = len(vs) - 1
	}
	switch g.n(5) {
	case 0, 1:
		vs[b] = vs[a]
	case 2:
		vs[a], vs[b] = "true", g.pick("false", "true")
	case 3:
		vs[b] = g.argValue()
	}
	return vs
}

func (g *Gen) argRHS() string {
	op := g.pick("", "", "", "<", "<=", ">", ">=", "><", "><", "><", "~", "~")
	n := g.pick("1", "1", "2", "2", "2", "3", "4")
	k, _ := strconv.Atoi(n)
	if op == "><" && g.pct(60) {
		k = 2
	}
	if op == "" && k == 1 {
		k = 2
	}
	if (op == "" || op == "~") && g.pct(10) {
		return op + g.ws() + g.list(g.longArgs(op))
	}
	var vs []string
	for len(vs) < k {
		if len(vs) > 0 && g.pct(15) {
			vs = append(vs, vs[g.n(len(vs))])
			continue
		}
		if op != "" && op != "~" && g.pct(60) {
			if g.pct(75) {
				vs = append(vs, g.aqlNum(g.decimal()))
			} else {
				vs = append(vs, g.aqlTime(g.instant()))
			}
			continue
		}
		vs = append(vs, g.argValue())
	}
	if op == "><" && k == 2 && g.pct(40) {
		d := g.decimal()
		vs = []string{g.aqlNum(d), g.aqlNum(g.near(d))}
		if g.pct(30) {
			t := g.instant()
			vs = []string{g.aqlTime(t), g.aqlTime(g.nearTime(t))}
		}
	}
	rhs := vs[0]
	if k > 1 {
		rhs = g.list(vs)
	}
	return op + g.ws() + rhs
}
