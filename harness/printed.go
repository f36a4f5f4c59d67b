package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/flowchartsman/aql/parser"
)

// Some queries, as their trees are printed and as statistics name their
// comparisons.

type printedQuery struct {
	Q     []int    `json:"q"`
	R     string   `json:"r"`
	Txt   string   `json:"txt"`
	Names []string `json:"names"`
}

type printedEvent struct {
	K  string         `json:"k"`
	Ps []printedQuery `json:"ps"`
}

func leafNames(t statTree) []string {
	if len(t.Ch) == 0 {
		return []string{t.Nm}
	}
	var out []string
	for _, c := range t.Ch {
		out = append(out, leafNames(c)...)
	}
	return out
}

func printAll(o *Out, qs []string) {
	e := printedEvent{K: "printed", Ps: []printedQuery{}}
	var side []map[string]any
	for _, q := range qs {
		o.mark(q)
		p := printedQuery{Q: codes(q), R: "err", Names: []string{}}
		if safely(func() {
			n, err := parser.ParseQuery(q)
			if err != nil {
				return
			}
			p.Txt = n.String()
			m, err, _ := newMatcher(q)
			if err != nil {
				return
			}
			p.R, p.Names = "ok", leafNames(readStats(m))
		}) {
			p.R = "P"
		}
		e.Ps = append(e.Ps, p)
		side = append(side, map[string]any{"query": q, "tree": p.Txt, "names": p.Names})
	}
	o.add(e, map[string]any{"queries": side})
}

func copyClause(c *clause) *clause {
	if c == nil {
		return nil
	}
	return &clause{op: c.op, text: c.text, l: copyClause(c.l), r: copyClause(c.r)}
}

func eachClause(c *clause, f func(*clause)) {
	if c == nil {
		return
	}
	f(c)
	eachClause(c.l, f)
	eachClause(c.r, f)
}

// lookalikes are right-hand sides that are easily taken for each other.
var lookalikes = [][]string{
	{"1", `"1"`, "/1/", "1.5", "-1", `"-1"`, "10", "(1,10)", `("1","10")`, `"1, 10"`, `("1, 10","2")`},
	{"true", "false", `"true"`, "/true/", `~"true"`, "~true"},
	{"exists", `"exists"`, "null", `"null"`, `""`},
	{"2020-01-01", `"2020-01-01"`, "2020-01-01T00:00:00Z", "2020-01-02", "(2020-01-01,2020-01-02)"},
	{"10.0.0.1", `"10.0.0.1"`, "10.0.0.0/8", "10.0.0.0/16", "10.0.0.0/24", `"10.0.0.0/8"`, "10.0.0.2", "10.0.0.1/8", "10.0.0.2/8", "10.0.0.1/24", "10.0.0.255/24"},
	{`"a"`, `"A"`, `"a "`, `" a"`, `"a\""`, `"a\\"`, `"a\n"`, `"a\\n"`, `"é"`, `"e\u0301"`, `"\u00e9x"`, `"漢"`, `"\u0001"`, `"\\u0001"`, `"\u007f"`, `"\u200b"`, `"\ufeff"`},
	{"/a/", "/A/", "/a /", `/a\/b/`, `/a[/]b/`, `/a\\/`, `/(?i)a/`, `/"a"/`, `/a\.b/`, "/a.b/", `"/a/"`, "~/a/"},
	// values that look like several
	{`("x","y","z")`, `("x\", \"y","z")`, `("x\",\"y","z")`, `("x, y","z")`, `("x,y","z")`, `("x","y, z")`, `("x","y","z","")`, `("x\\","y","z")`, `("x\\\", \"y","z")`, `("x","y\", \"z")`, `"x"`, `"x\", \"y"`},
	{"(/a/,/b/,/c/)", `(/a\/, \/b/,/c/)`, `(/a\/,\/b/,/c/)`, `(/a/,/b\/, \/c/)`, `(/a/,/b\/,\/c/)`, `(/a, b/,/c/)`, `(/a\/,\/b\/,\/c/,/d/)`, `(/a\\/,/b/,/c/)`, `(/a\\\/,\/b/,/c/)`, `/a/`, `/a\/,\/b/`, `/\/a\//`, `/\/a/`, `/a\//`},
	{`(/a/,"b","c")`, `(/a\/,"b/,"c")`, `(/a\/, "b"\/, \//,"c")`, `("/a/","b","c")`, `(1,2,"3")`, `("1, 2","3")`, `("1,2","3")`, `(true,"b","c")`, `("true","b","c")`, `("true, b","c")`},
	{">1", ">=1", "<1", "<=1", "><(1,2)", "(1,2)", "(2,1)", "(1,2,3)", "><(1,3)", ">2020-01-01", ">1.0", ">1.00001"},
}

func (g *Gen) lookalikeField() string {
	return g.pick("a", "b", "a.b", `"a.b"`, `"a"`, `a."b"`, `"a"."b"`, `"a b"`, `a."b.c"`, `"a.b".c`, "a.b.c", `"a\"b"`, `""`, `a.""`, `"a."`, `"."`, `"a:"`, `"a,b"`, `"a)"`, `"(a"`, `"[a]"`, `"\\"`, `"a\\b"`, `"a\tb"`, `"é"`, `"漢"`, `A`, "exists", "NOT", `"a{"`, `"/a/"`, `"a "`, `" a"`, "a-b", "a_b", "0", "-")
}

// longRight is a right-hand side of which a printed form might leave something out.
func (g *Gen) longRight() string {
	one := func() string {
		switch g.n(6) {
		case 0:
			return fmt.Sprintf("%d.%0*d", g.n(3), g.rng(1, 13), g.n(10))
		case 5:
			// as many digits as make a difference
			k := g.rng(1, 14)
			return fmt.Sprintf("%d.%0*d", 1+g.r.Int63n(pow10(15-k)-1), k, g.r.Int63n(pow10(k)))
		case 1:
			return fmt.Sprintf("%d", g.r.Int63n(1<<uint(g.rng(4, 62)))-g.r.Int63n(1<<uint(g.pickInt(1, 1, 40, 62))))
		case 2:
			return g.quoteAQL(strings.Repeat(g.pick("x", "word ", "é", "漢"), g.rng(1, 60)) + g.pick("a", "b", "end"))
		case 3:
			return fmt.Sprintf("2020-01-01T00:00:00.%0*d1Z", g.rng(1, 8), 0)
		default:
			return fmt.Sprintf("%d.%d.%d.%d", g.n(256), g.n(256), g.n(256), g.n(256))
		}
	}
	k := g.pickInt(1, 1, 2, 3, 5, 9, 20, 40)
	if k == 1 {
		return one()
	}
	var vs []string
	for ; k > 0; k-- {
		vs = append(vs, one())
	}
	return "(" + strings.Join(vs, ",") + ")"
}

// nearly is a comparison that differs from this one in a single character of
// its values, or in one value more or less.
func (g *Gen) nearly(text string) (string, bool) {
	colon := strings.LastIndexByte(text, ':')
	var at []int
	for i := colon + 1; i < len(text); i++ {
		if c := text[i]; c >= '0' && c <= '9' || c >= 'a' && c <= 'z' && text[i-1] != '\\' {
			at = append(at, i)
		}
	}
	if len(at) == 0 || strings.ContainsAny(text, "/") {
		return "", false
	}
	if comma := strings.LastIndexByte(text, ','); comma > colon && strings.Count(text, ",") > 1 && strings.HasSuffix(text, ")") && g.pct(20) {
		return text[:comma] + ")", true
	}
	if n, err := strconv.ParseInt(text[colon+1:], 10, 64); err == nil && g.pct(40) {
		return text[:colon+1] + fmt.Sprint(n^(1<<uint(g.pickInt(7, 8, 15, 16, 31, 32, 52, 53, 61, 62)))), true
	}
	i := at[len(at)-1]
	if g.pct(50) {
		i = at[g.n(len(at))]
	}
	b := []byte(text)
	if b[i] == '9' || b[i] == 'z' {
		b[i]--
	} else {
		b[i]++
	}
	return string(b), true
}

func drivePrinted(g *Gen, o *Out, n int) {
	for o.n < n {
		if g.n(50) == 0 {
			// a number and those a bit away from it
			num := g.r.Int63n(1<<uint(g.rng(4, 62))) - g.r.Int63n(1<<uint(g.pickInt(1, 1, 40, 62)))
			f := g.lookalikeField()
			qs := []string{f + ":" + fmt.Sprint(num)}
			for _, k := range []uint{8, 16, 24, 31, 32, 52, 53, 62, 63} {
				qs = append(qs, f+":"+fmt.Sprint(num^(1<<k)))
			}
			printAll(o, qs)
			continue
		}
		c := g.clause([]int{1, 1, 1, 2, 3, 5}[g.n(6)], 3)
		if g.n(150) == 0 {
			c = g.chain(g.rng(10, 60))
		}
		pool := lookalikes[g.n(len(lookalikes))]
		long := 20
		if g.pct(20) {
			long = 90
		}
		g.retext(c, func() string {
			if g.pct(long) {
				return g.lookalikeField() + ":" + g.longRight()
			}
			if g.pct(30) {
				return g.anyCmp()
			}
			if g.pct(25) {
				return g.lookalikeField() + ":" + g.longRight()
			}
			return g.lookalikeField() + g.ws() + ":" + g.ws() + pool[g.n(len(pool))]
		})
		write := func(c *clause) string { return g.ws() + g.writeClause(c, 0, g.pickInt(0, 0, 25)) + g.ws() }
		qs := []string{write(c)}
		for k := g.rng(1, 4); k > 0; k-- {
			d := copyClause(c)
			if g.pct(80) {
				var all []*clause
				eachClause(d, func(x *clause) { all = append(all, x) })
				x := all[g.n(len(all))]
				switch x.op {
				case "leaf":
					if t, ok := g.nearly(x.text); ok && g.pct(max(40, long)) {
						x.text = t
						break
					}
					field, rhs, _ := strings.Cut(x.text, ":")
					if strings.Count(x.text, ":") != 1 || g.pct(30) {
						field, rhs = g.lookalikeField(), pool[g.n(len(pool))]
					} else if g.pct(50) {
						field = g.lookalikeField()
					} else {
						rhs = pool[g.n(len(pool))]
					}
					x.text = field + ":" + rhs
				case "not":
					*x = *x.l
				default:
					switch g.n(4) {
					case 0:
						x.op = map[string]string{"and": "or", "or": "and"}[x.op]
					case 1:
						x.l, x.r = x.r, x.l
					case 2:
						*x = *x.l
					case 3:
						if x.r.op == x.op {
							// regroup
							x.l, x.r = &clause{op: x.op, l: x.l, r: x.r.l}, x.r.r
						} else {
							x.r = &clause{op: "not", l: x.r}
						}
					}
				}
			}
			qs = append(qs, write(d))
		}
		total := 0
		for _, q := range qs {
			total += len(q)
		}
		if total < 2500 {
			printAll(o, qs)
		}
	}
}

func (g *Gen) pickInt(ns ...int) int { return ns[g.n(len(ns))] }

func pow10(k int) int64 {
	n := int64(1)
	for ; k > 0; k-- {
		n *= 10
	}
	return n
}
