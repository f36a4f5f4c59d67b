package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/flowchartsman/aql/jsonmatcher"
)

// matchEvent is what one Match answered: T, F, E (query rejected), X (error
// for the document) or P (panic).
type matchEvent struct {
	K string `json:"k"`
	Q []int  `json:"q"`
	D *Doc   `json:"d"`
	R string `json:"r"`
}

// partsEvent is an answer next to those of the parts of the query alone.
type partsEvent struct {
	K    string   `json:"k"`
	Q    []int    `json:"q"`
	D    *Doc     `json:"d"`
	Ps   []string `json:"ps"`
	Twin string   `json:"twin"`
	R    string   `json:"r"`
}

// scene is a query with the documents to try on one matcher. parts are the
// comparisons (or members) of the query, twin the query with the other of
// : and :~.
type scene struct {
	q     string
	docs  []*Doc
	parts []string
	twin  string
}

// answer is what a query alone answers.
func answer(q string, doc []byte) string {
	m, err, pan := newMatcher(q)
	switch {
	case pan != nil:
		return "P"
	case err != nil:
		return "E"
	}
	return match(m, doc)
}

func newMatcher(q string) (m *jsonmatcher.Matcher, err error, panicked any) {
	defer func() { panicked = recover() }()
	m, err = jsonmatcher.NewMatcher(q)
	return
}

func match(m *jsonmatcher.Matcher, doc []byte) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = "P"
		}
	}()
	ok, err := m.Match(doc)
	switch {
	case err != nil:
		return "X"
	case ok:
		return "T"
	}
	return "F"
}

func driveMatch(g *Gen, o *Out, prop string, n int) {
	for o.n < n {
		s := sceneFor(g, prop)
		m, err, pan := newMatcher(s.q)
		for _, d := range s.docs {
			text := g.text(d)
			r := "E"
			switch {
			case pan != nil:
				r = "P"
			case err == nil:
				o.mark(s.q, text)
				r = match(m, []byte(text))
			}
			if s.parts == nil {
				o.add(matchEvent{"match", codes(s.q), d, r}, map[string]any{"query": s.q, "document": text, "observed": r})
				continue
			}
			ps := []string{}
			for _, p := range s.parts {
				ps = append(ps, answer(p, []byte(text)))
			}
			ev := partsEvent{K: "bool", Q: codes(s.q), D: d, Ps: ps, Twin: "-", R: r}
			if prop == "C09" {
				ev.K = "set"
			}
			if s.twin != "" {
				ev.Twin = answer(s.twin, []byte(text))
			}
			o.add(ev, map[string]any{"query": s.q, "document": text, "observed": r, "parts": s.parts, "alone": ps, "other operator": s.twin, "with other operator": ev.Twin})
		}
	}
}

func sceneFor(g *Gen, prop string) scene {
	switch prop {
	case "C01":
		return g.sceneBool()
	case "C02":
		return g.scenePath(false)
	case "C03":
		return g.scenePath(true)
	case "C09":
		return g.sceneList()
	}
	kind := map[string]string{"C04": "num", "C05": "time", "C06": "text", "C07": "regex", "C08": "net"}[prop]
	return g.sceneKind(kind)
}

// ---------------------------------------------------------------- C01

type clause struct {
	op   string // and, or, not, leaf
	l, r *clause
	text string
}

func (g *Gen) leaf(keys int) string {
	k := fmt.Sprintf("k%d", g.n(keys))
	switch g.n(9) {
	case 0:
		return k + ":" + g.ws() + "exists"
	case 1:
		return k + ":" + g.ws() + "null"
	case 2:
		return k + ":" + g.pick(">", "<", ">=", "<=") + fmt.Sprint(g.n(4))
	case 3:
		return k + ":" + g.quoteAQL(g.pick("a", "b", "AND", "OR", "NOT x", "a) OR (b"))
	case 4:
		return k + ":(" + g.pick("1,2", "true, \"a\"", "\"a\" , \"b\"", "0,3", "/a/,2") + ")"
	}
	return k + ":" + g.ws() + g.pick("true", "true", "false", "1", "2", "/a|b/")
}

func (g *Gen) clause(size, keys int) *clause {
	if size <= 1 {
		if g.pct(12) {
			return &clause{op: "not", l: &clause{op: "leaf", text: g.leaf(keys)}}
		}
		return &clause{op: "leaf", text: g.leaf(keys)}
	}
	if g.pct(18) {
		return &clause{op: "not", l: g.clause(size-1, keys)}
	}
	k := g.rng(1, size-1)
	if g.pct(30) {
		k = 1
	}
	return &clause{op: g.pick("and", "or"), l: g.clause(k, keys), r: g.clause(size-k, keys)}
}

// chain is a clause of which one operand is a clause of which one operand ...
func (g *Gen) chain(size int) *clause {
	c := &clause{op: "leaf", text: g.leaf(4)}
	nots := g.pickInt(10, 50, 95)
	for ; size > 0; size-- {
		if g.pct(nots) {
			c = &clause{op: "not", l: c}
			continue
		}
		next := &clause{op: g.pick("and", "or"), l: &clause{op: "leaf", text: g.leaf(4)}, r: c}
		if g.pct(10) {
			next.l, next.r = next.r, next.l
		}
		c = next
	}
	return c
}

func (g *Gen) group(s string) string { return "(" + g.ws() + s + g.ws() + ")" }

// writeClause writes a clause; level 0 may be an OR, 1 an AND, 2 a NOT, 3 only a comparison or group.
func (g *Gen) writeClause(c *clause, level, redundant int) string {
	var s string
	at := 3
	switch c.op {
	case "or":
		s, at = g.writeClause(c.l, 1, redundant)+g.ws1()+"OR"+g.ws1()+g.writeClause(c.r, 0, redundant), 0
	case "and":
		s, at = g.writeClause(c.l, 2, redundant)+g.ws1()+"AND"+g.ws1()+g.writeClause(c.r, 1, redundant), 1
	case "not":
		s, at = g.pick("NOT"+g.ws1(), "!"+g.ws())+g.writeClause(c.l, 3, redundant), 2
	default:
		s = c.text
	}
	if at < level || g.pct(redundant) {
		s = g.group(s)
	}
	return s
}

func (g *Gen) flagValue() *Doc {
	switch g.n(8) {
	case 0:
		return null()
	case 1:
		return num(fmt.Sprint(g.n(4)))
	case 2:
		return str(g.pick("a", "b", "c", "AND", ""))
	case 3:
		return arr(boolean(g.pct(50)), num(fmt.Sprint(g.n(4))))
	}
	return boolean(g.pct(50))
}

func (g *Gen) flags(keys int) *Doc {
	d := obj()
	for i := 0; i < keys; i++ {
		if g.pct(85) {
			d.KV = append(d.KV, kv(fmt.Sprintf("k%d", i), g.flagValue()))
		}
	}
	return d
}

// richLeaf is a comparison of any kind on one of a few nested fields. The
// answers of the comparisons themselves are taken as they come.
func (g *Gen) richLeaf(keys int) string {
	f := fmt.Sprintf("k%d", g.n(keys))
	f += g.pick("", "", ".x", ".x", ".y", ".y", ".x.z", ".*", ".\"x\"", ".\"x.y\"")
	v := func() string {
		return g.pick("1", "2", "3", "-1", "1.5", "2.0", "true", "false", `"a"`, `"b"`, `"a b"`, `"a*"`, `"?"`, `"1"`, `"true"`, `"2020-01-01"`, `"10.0.0.1"`,
			"/a/", "/^b$/", "/1/", "/(?i)A/", "2020-01-01", "2020-01-02", "2020-01-01T00:00:00Z", "10.0.0.1", "10.0.0.0/8", `""`, `"null"`)
	}
	switch g.n(10) {
	case 0:
		return f + ":exists"
	case 1:
		return f + ":null"
	case 2:
		return f + ":" + g.pick(">", "<", ">=", "<=") + g.pick("1", "2", "1.5", "-1", "2020-01-01", "2020-01-02T00:00:00Z")
	case 3:
		return f + ":><" + g.pick("(1,2)", "(-1,1.5)", "(2020-01-01,2020-01-02)", "(1.5,3)")
	case 4:
		return f + ":~" + g.pick(`"a"`, `"b*"`, "true", "false", "/a/", `("a","b")`, `("1",/b/)`)
	case 5, 6:
		a, b := v(), v()
		if strings.Trim(a, `"`) == strings.Trim(b, `"`) || a == "true" || a == "false" || b == "true" || b == "false" {
			a, b = "1", `"b"`
		}
		if g.pct(30) {
			return f + ":(" + a + "," + b + ",10.1.1.1,/zz/)"
		}
		return f + ":(" + a + "," + g.ws() + b + ")"
	}
	return f + ":" + v()
}

func (g *Gen) richValue(depth int) *Doc {
	switch {
	case depth > 0 && g.pct(55):
		d := obj()
		for _, k := range []string{"x", "y", "x.y", "z"} {
			if g.pct(60) {
				d.KV = append(d.KV, kv(k, g.richValue(depth-1)))
			}
		}
		return d
	case depth > 0 && g.pct(40):
		a := arr()
		for k := g.n(4); k > 0; k-- {
			a.E = append(a.E, g.richValue(depth-1))
		}
		return a
	}
	switch g.n(6) {
	case 0:
		return null()
	case 1:
		return boolean(g.pct(50))
	case 2, 3:
		return num(g.pick("1", "2", "3", "-1", "1.5", "0"))
	}
	return str(g.pick("a", "b", "a b", "A", "1", "2", "true", "2020-01-01", "2020-01-01T12:00:00Z", "2020-01-02", "10.0.0.1", "10.0.0.0/9", "", "null"))
}

func (g *Gen) richFlags(keys int) *Doc {
	d := obj()
	for i := 0; i < keys; i++ {
		if g.pct(90) {
			d.KV = append(d.KV, kv(fmt.Sprintf("k%d", i), g.richValue(2)))
		}
	}
	return d
}

// sceneSame joins comparisons on one field, or on fields below one list, that
// could be taken to contradict, to imply or to repeat each other. A list can
// satisfy all of them at once with different elements.
func (g *Gen) sceneSame() scene {
	kind := g.n(4)
	lit := func() (string, *Doc) {
		switch kind {
		case 0:
			v := fmt.Sprint(g.n(5))
			return v, num(v)
		case 1:
			v := g.pick("a", "b", "c", "a b", "b c")
			return g.quoteAQL(v), str(v)
		case 2:
			v := g.pick("2020-01-01", "2020-01-02", "2020-01-03")
			return v, str(v)
		}
		v := g.pick("10.0.0.1", "10.0.0.2", "10.0.0.0/24")
		if g.pct(30) {
			v = g.pick("true", "false")
			return v, boolean(v == "true")
		}
		return v, str(v)
	}
	below := g.pct(40)
	var vals []*Doc
	leaf := func() string {
		f := "a"
		if below {
			f = g.pick("a.x", "a.x", "a.y")
		}
		l, v := lit()
		vals = append(vals, v)
		switch {
		case kind%2 == 0 && g.pct(35):
			return f + ":" + g.pick(">", "<", ">=", "<=") + l
		case g.pct(8):
			return f + ":" + g.pick("exists", "null")
		case g.pct(15):
			if l2, v2 := lit(); l2 != l && v2.T != "bool" {
				vals = append(vals, v2)
				return f + ":(" + l + "," + l2 + ")"
			}
		}
		return f + ":" + l
	}
	c := g.clause(g.rng(2, 4), 1)
	if g.pct(50) {
		// one connective throughout
		op := g.pick("and", "or")
		c = &clause{op: op, l: &clause{op: "leaf"}, r: &clause{op: "leaf"}}
		for k := g.n(3); k > 0; k-- {
			c = &clause{op: op, l: &clause{op: "leaf"}, r: c}
		}
	}
	g.retext(c, leaf)
	parts := c.leaves(nil)
	some := func() *Doc {
		if g.pct(85) {
			return clone(vals[g.n(len(vals))])
		}
		_, v := lit()
		return v
	}
	var docs []*Doc
	for k := g.rng(2, 5); k > 0; k-- {
		a := arr()
		for j := g.rng(0, 4); j > 0; j-- {
			if !below {
				a.E = append(a.E, some())
				continue
			}
			o := obj()
			for _, f := range []string{"x", "y"} {
				if g.pct(70) {
					v := some()
					if g.pct(20) {
						v = arr(v, some())
					}
					o.KV = append(o.KV, kv(f, v))
				}
			}
			a.E = append(a.E, o)
		}
		v := a
		if g.pct(25) && len(a.E) > 0 {
			v = a.E[0]
		}
		docs = append(docs, obj(kv("a", v)))
	}
	return scene{q: g.writeClause(c, 0, 10), docs: docs, parts: parts}
}

func (g *Gen) sceneBool() scene {
	if g.pct(20) {
		return g.sceneSame()
	}
	size := g.rng(1, 7)
	keys := g.rng(1, 5)
	redundant := []int{0, 0, 10, 40}[g.n(4)]
	rich := g.pct(50)
	if rich {
		keys = g.rng(1, 2)
	}
	var q string
	var parts []string
	switch {
	case g.pct(4):
		// long chain
		op := g.pick(" AND ", " OR ")
		k := g.rng(10, 70)
		ls := make([]string, k)
		keys = 12
		for i := range ls {
			ls[i] = g.leaf(keys)
			if op == " AND " && g.pct(85) {
				ls[i] = fmt.Sprintf("k%d:exists", i%keys)
			} else if op == " OR " && g.pct(85) {
				ls[i] = fmt.Sprintf("k%d:\"zz\"", i%keys)
			}
		}
		q = strings.Join(ls, op)
		parts = ls
	case g.pct(3):
		// deep nesting
		q = g.leaf(keys)
		parts = []string{q}
		for k := g.rng(10, 45); k > 0; k-- {
			switch g.n(4) {
			case 0:
				q = "NOT (" + q + ")"
			case 1:
				q = "!(" + q + ")"
			case 2:
				q = "(" + q + ")"
			case 3:
				l := g.leaf(keys)
				q = "(" + l + g.pick(" AND ", " OR ") + "(" + q + "))"
				parts = append([]string{l}, parts...)
			}
		}
	default:
		if g.pct(8) {
			size = g.rng(8, 30)
		}
		c := g.clause(size, keys)
		if rich {
			g.retext(c, func() string { return g.richLeaf(keys) })
		}
		q = g.ws() + g.writeClause(c, 0, redundant) + g.ws()
		parts = c.leaves(nil)
	}
	var docs []*Doc
	for k := g.rng(2, 5); k > 0; k-- {
		if rich {
			docs = append(docs, g.richFlags(keys))
		} else {
			docs = append(docs, g.flags(keys))
		}
	}
	return scene{q: q, docs: docs, parts: parts}
}

func (c *clause) leaves(acc []string) []string {
	if c.op == "leaf" {
		return append(acc, c.text)
	}
	acc = c.l.leaves(acc)
	if c.r != nil {
		acc = c.r.leaves(acc)
	}
	return acc
}

// ---------------------------------------------------------------- C02, C03

var keyPool = []string{"a", "b", "c", "d", "A", "aa", "a-b", "a_1", "0", "1", "name", "x", "x", "a", "b", "id", "exists", "null", "AND", "NOT"}
var oddKeys = []string{"", " ", "a b", "a.b", ".", "*", "a\"b", "\\", "a\\b", "[0]", "[", "{", "}", ":", ",", "é", "漢", "\U0001F600", "a/b", "a\tb", "a\nb", "\u0001", "'", "\u00e9t\u00e9", "a:1", "\"", "\"\"", "$", "@", "#", "key with a rather long name that does not fit into sixty-four bytes at all, and then some", "\u2028", "\x7f"}

// longKey is a name of many letters, some of them capitals.
func (g *Gen) longKey() string {
	var sb strings.Builder
	for k := g.pickInt(3, 6, 10, 20, 50); k > 0; k-- {
		sb.WriteString(g.pick("Request", "user", "ID", "_", "-", "x1", "Content", "length", "É", "漢", "0"))
	}
	return sb.String()
}

func (g *Gen) key(odd int) string {
	if g.pct(odd) {
		if g.pct(3) {
			return g.longKey()
		}
		return oddKeys[g.n(len(oddKeys))]
	}
	return keyPool[g.n(len(keyPool))]
}

func (g *Gen) scalarDoc() *Doc {
	switch g.n(9) {
	case 0:
		return null()
	case 1:
		return boolean(g.pct(50))
	case 2, 3:
		return num(g.pick("0", "1", "2", "-1", "1.5", "10", "1e2", "0.25"))
	case 4:
		return str(g.pick("", "1", "true", "null", "2020-01-01", "10.0.0.1", "{}", "[1]", "{\"a\":1}", "\\", "\"", "a\"b", "[", "}", "]", ","))
	}
	return str(g.pick("a", "b", "foo", "bar", "x y", "漢字"))
}

func (g *Gen) tree(depth, odd int, nulls int) *Doc {
	if depth == 0 || g.pct(12) {
		if g.pct(nulls) {
			return null()
		}
		if g.pct(10) {
			return []*Doc{arr(), obj()}[g.n(2)]
		}
		return g.scalarDoc()
	}
	if g.pct(40) {
		a := arr()
		n := g.rng(0, 4)
		for i := 0; i < n; i++ {
			switch {
			case g.pct(60):
				a.E = append(a.E, g.object(depth-1, odd, nulls))
			case g.pct(20):
				a.E = append(a.E, g.tree(depth-1, odd, nulls))
			case g.pct(nulls):
				a.E = append(a.E, null())
			default:
				a.E = append(a.E, g.scalarDoc())
			}
		}
		return a
	}
	return g.object(depth, odd, nulls)
}

func (g *Gen) object(depth, odd, nulls int) *Doc {
	d := obj()
	n := g.rng(0, 4)
	if g.pct(3) {
		n = g.rng(10, 40)
	}
	for i := 0; i < n; i++ {
		k := g.key(odd)
		if d.has(k) {
			k = fmt.Sprintf("k%d", i)
			if d.has(k) {
				continue
			}
		}
		d.KV = append(d.KV, kv(k, g.tree(max(0, depth-1), odd, nulls)))
	}
	return d
}

// pathIn follows random keys of the document.
func (g *Gen) pathIn(d *Doc, stop int) (path []string, end *Doc) {
	for {
		switch d.T {
		case "obj":
			if len(d.KV) == 0 || (len(path) > 0 && g.pct(stop)) {
				return path, d
			}
			m := d.KV[g.n(len(d.KV))]
			path = append(path, m.K)
			d = m.V
		case "arr":
			if len(path) > 0 && g.pct(stop) {
				return path, d
			}
			var objs []*Doc
			for _, e := range d.E {
				if e.T == "obj" {
					objs = append(objs, e)
				}
			}
			if len(objs) == 0 {
				return path, d
			}
			d = objs[g.n(len(objs))]
		default:
			return path, d
		}
	}
}

func (g *Gen) mutatePath(p []string) []string {
	p = append([]string(nil), p...)
	switch g.n(6) {
	case 0:
		p = append(p, g.key(10))
	case 1:
		if len(p) > 1 {
			p = p[:len(p)-1]
		}
	case 2:
		if len(p) > 1 {
			p = p[1:]
		}
	case 3:
		p[g.n(len(p))] = g.key(20)
	case 4:
		i := g.n(len(p))
		p[i] = g.flipCase(p[i])
	case 5:
		if len(p) > 1 {
			i := g.n(len(p) - 1)
			p = append(p[:i], append([]string{p[i] + "." + p[i+1]}, p[i+2:]...)...)
		}
	}
	return p
}

func literal(g *Gen, d *Doc) string {
	switch d.T {
	case "num":
		if x, ok := parseDecimal(d.S); ok {
			return x.plain()
		}
	case "str":
		return g.quoteAQL(d.S)
	case "bool":
		return fmt.Sprint(d.B)
	}
	return ""
}

// scalarsAt lists the scalars found right at or in d.
func scalarsAt(d *Doc) (out []*Doc) {
	if d.scalar() {
		return []*Doc{d}
	}
	for _, e := range d.E {
		if e.scalar() {
			out = append(out, e)
		}
	}
	return
}

func (g *Gen) bigTree() *Doc {
	switch g.n(4) {
	case 0:
		// long array of objects with the interesting one somewhere
		a := arr()
		n := g.rng(30, 260)
		for i := 0; i < n; i++ {
			a.E = append(a.E, obj(kv("a", num(fmt.Sprint(i)))))
		}
		return obj(kv("x", a))
	case 1:
		// long array of scalars
		a := arr()
		n := g.rng(30, 260)
		for i := 0; i < n; i++ {
			a.E = append(a.E, num(fmt.Sprint(i)))
		}
		return obj(kv("pad", str("x")), kv("x", a))
	case 2:
		// deep
		d := g.scalarDoc()
		for k := g.rng(6, 30); k > 0; k-- {
			switch g.n(3) {
			case 0:
				d = obj(kv("a", d))
			case 1:
				d = obj(kv("b", null()), kv("a", arr(d)))
				if d.KV[1].V.E[0].T == "arr" {
					d = obj(kv("a", d.KV[1].V.E[0]))
				}
			case 2:
				d = obj(kv("a", arr(obj(kv("z", num("1"))), obj(kv("b", d)))))
			}
		}
		return d
	}
	// wide
	d := obj()
	for i := g.rng(20, 90); i > 0; i-- {
		d.KV = append(d.KV, kv(fmt.Sprintf("f%d", i), g.scalarDoc()))
	}
	return d
}

// manyNulls holds many values at a.b of which all but a few are null.
func (g *Gen) manyNulls() *Doc {
	a := arr()
	for i := g.pickInt(2, 5, 9, 17, 33, 65, 130, 260); i >= 0; i-- {
		d := obj(kv("b", null()))
		if g.pct(10) {
			d = obj(kv("c", null()))
		}
		a.E = append(a.E, d)
	}
	if g.pct(60) {
		at := len(a.E) - 1
		if g.pct(40) {
			at = g.n(len(a.E))
		}
		a.E[at] = obj(kv("b", []*Doc{arr(), obj(), str(""), num("0"), boolean(false), arr(null()), str("null")}[g.n(7)]))
	}
	d := obj(kv("a", a))
	if g.pct(30) {
		d = arr(obj(), d, obj(kv("a", null())))
	}
	return d
}

func (g *Gen) scenePath(existNull bool) scene {
	odd := []int{0, 10, 40}[g.n(3)]
	nulls := 10
	if existNull {
		nulls = []int{10, 40, 80}[g.n(3)]
	}
	var root *Doc
	switch {
	case existNull && g.pct(4):
		root = g.manyNulls()
	case g.pct(5):
		root = g.bigTree()
	case g.pct(5):
		root = g.scalarDoc()
	default:
		root = g.tree(g.rng(1, 5), odd, nulls)
		if root.scalar() && g.pct(90) {
			root = g.object(3, odd, nulls)
		}
	}
	path, end := g.pathIn(root, 15)
	if len(path) == 0 {
		path = []string{g.key(10)}
	}
	if g.pct(20) {
		path = g.mutatePath(path)
	}
	var rhs string
	kind := g.n(10)
	if existNull {
		kind = g.n(3)
	}
	sc := scalarsAt(end)
	switch {
	case kind == 0:
		rhs = "exists"
	case kind <= 2 && (existNull || kind == 1):
		rhs = "null"
	case kind <= 6 && len(sc) > 0:
		rhs = literal(g, sc[g.n(len(sc))])
	case kind == 7:
		rhs = ">=" + g.pick("0", "1", "-1", "100")
	case kind == 8 && len(sc) > 0:
		a, b := literal(g, sc[g.n(len(sc))]), literal(g, g.scalarDoc())
		if a != b && a != "" && b != "" && !(a == "true" && b == "false") && !(a == "false" && b == "true") {
			rhs = g.list([]string{a, b})
		}
	}
	if rhs == "" {
		rhs = literal(g, g.scalarDoc())
	}
	if rhs == "" {
		rhs = "exists"
	}
	q := g.cmp(path, rhs)
	if existNull && g.pct(20) {
		q = g.pick("NOT ", "!") + q
	}
	docs := []*Doc{root}
	if g.pct(30) {
		docs = append(docs, g.tree(3, odd, nulls), root)
	}
	return scene{q: q, docs: docs}
}

// ---------------------------------------------------------------- C04 - C09

// place puts values into a document where one path reaches them all.
func (g *Gen) place(vals []*Doc) (*Doc, []string) {
	path := []string{g.pick("f", "v", "field", "a", "é", "x y")}
	var d *Doc
	if len(vals) == 1 && g.pct(75) {
		d = obj(kv(path[0], vals[0]))
	} else if g.pct(50) {
		d = obj(kv(path[0], arr(vals...)))
	} else {
		a := arr()
		for _, v := range vals {
			a.E = append(a.E, obj(kv(path[0], v)))
		}
		p := g.pick("p", "q", "f")
		d = obj(kv(p, a))
		path = append([]string{p}, path...)
	}
	if g.pct(30) {
		d.KV = append([]KV{kv("other", g.scalarDoc())}, d.KV...)
	}
	if g.pct(20) {
		p := g.pick("o", "outer", "f")
		d = obj(kv(p, d))
		path = append([]string{p}, path...)
	}
	return d, path
}

func (g *Gen) otherKind() *Doc {
	switch g.n(9) {
	case 0:
		return null()
	case 1:
		return boolean(g.pct(50))
	case 2:
		return str(g.phrase())
	case 3:
		return num(g.spell(g.decimal()))
	case 4:
		return str(g.pick("", "0", "1", "true", "false", "null", "NaN", "Inf", "-inf", "infinity", "0x10", "1_000", "nan", "i", "N", "e5", ".", "-", "+", "-.", "1e", "1e+", "5e400"))
	case 5:
		return obj(kv("f", num("1")))
	case 6:
		return arr(num("1"), str("a"))
	case 7:
		return str(g.timeString(g.instant()))
	}
	return str(g.netText(g.block()))
}

func (g *Gen) sceneKind(kind string) scene {
	k := 1
	if g.pct(20) {
		k = g.rng(2, 5)
	}
	if g.pct(1) {
		k = g.rng(30, 80)
	}
	// what the values and the query revolve around
	dec := g.decimal()
	inst := g.instant()
	phrase := g.phrase()
	if kind == "regex" && g.pct(12) || kind == "text" && g.pct(3) {
		phrase += g.pick("\n", "\n", "\r\n", "\n\n") + g.phrase()
	}
	blk := g.block()
	filler := ""
	if g.n(250) == 0 && k < 6 {
		filler = strings.Repeat(g.pick("hay ", "x", "lorem ipsum, ", "- "), []int{30, 70, 150, 300}[g.n(4)])
		k = min(k, 2)
	}
	value := func() *Doc {
		if filler != "" && kind != "num" && kind != "time" && g.pct(80) {
			core := phrase
			if kind == "net" {
				core = g.netText(blk)
			}
			if g.pct(75) {
				return str(filler + core)
			}
			return str(core + " " + filler)
		}
		if g.pct(8) {
			return g.otherKind()
		}
		switch kind {
		case "num":
			if g.pct(60) {
				return num(g.spell(g.near(dec)))
			}
			return str(g.spellString(g.near(dec)))
		case "time":
			return str(g.timeString(g.nearTime(inst)))
		case "net":
			return str(g.netText(blk))
		}
		if g.pct(10) {
			d := g.decimal()
			if d.sig != "0" {
				phrase = d.plain()
				return num(g.spell(d))
			}
		}
		if g.pct(15) {
			return str(phrase + g.pick("", " ", "s", "-", "x", "_") + g.phrase())
		}
		if kind == "regex" && g.pct(6) {
			return str(g.flipCase(phrase))
		}
		return str(phrase)
	}
	vals := make([]*Doc, k)
	for i := range vals {
		vals[i] = value()
	}
	d, path := g.place(vals)
	var rhs string
	switch kind {
	case "num":
		rhs = g.numRHS(dec)
	case "time":
		rhs = g.timeRHS(inst)
	case "text":
		rhs = g.textRHS(phrase)
	case "regex":
		rhs = g.regexRHS(phrase)
	case "net":
		rhs = g.netRHS(blk)
	}
	q := g.cmp(path, rhs)
	docs := []*Doc{d}
	if g.pct(25) {
		// the same shape with other values, then the first document again
		for i := range vals {
			vals[i] = value()
		}
		d2 := clone(d)
		fill(d2, path, vals)
		docs = append(docs, d2)
		if g.pct(50) {
			docs = append(docs, d)
		}
	}
	return scene{q: q, docs: docs}
}

func clone(d *Doc) *Doc {
	c := *d
	c.KV = append([]KV(nil), d.KV...)
	for i := range c.KV {
		c.KV[i].V = clone(c.KV[i].V)
	}
	c.E = append([]*Doc(nil), d.E...)
	for i := range c.E {
		c.E[i] = clone(c.E[i])
	}
	return &c
}

// fill replaces the values at the end of the path.
func fill(d *Doc, path []string, vals []*Doc) {
	next := 0
	var rec func(d *Doc, path []string)
	rec = func(d *Doc, path []string) {
		switch d.T {
		case "arr":
			for i := range d.E {
				if len(path) == 0 {
					d.E[i] = vals[next%len(vals)]
					next++
				} else {
					rec(d.E[i], path)
				}
			}
		case "obj":
			for i := range d.KV {
				if len(path) > 0 && d.KV[i].K == path[0] {
					if len(path) == 1 && d.KV[i].V.T != "arr" {
						d.KV[i].V = vals[next%len(vals)]
						next++
					} else {
						rec(d.KV[i].V, path[1:])
					}
				}
			}
		}
	}
	rec(d, path)
}

func (g *Gen) member() (lit string, hit *Doc) {
	switch g.n(9) {
	case 0:
		b := g.pct(50)
		hit := boolean(b)
		if g.pct(30) {
			hit = str(fmt.Sprint(b))
		} else if g.pct(10) {
			hit = num(map[bool]string{true: "1", false: "0"}[b])
		}
		return fmt.Sprint(b), hit
	case 1, 2:
		d := g.decimal()
		if g.pct(30) {
			return g.aqlNum(d), str(g.spellString(d))
		}
		return g.aqlNum(d), num(g.spell(d))
	case 3:
		t := g.instant()
		return g.aqlTime(t), str(g.rfc(t))
	case 4:
		b := g.block()
		return g.aqlNet(b), str(block{g.nearIP(b), 32}.addr())
	case 5:
		s := g.phrase()
		return g.regexLit(g.reSeq([]rune(g.pick(words...)), 1)), str(s)
	}
	s := g.phrase()
	if g.pct(30) {
		return g.quoteAQL(g.pattern(s)), str(s)
	}
	w := g.pick(words...)
	return g.quoteAQL(w), str(w)
}

// family gives members of one kind that are close to each other, and values
// next to them and between them.
func (g *Gen) family() func() (string, *Doc) {
	i := g.rng(0, 3)
	step := g.pickInt(1, 1, 1, 2, -1, 10)
	base := g.pickInt(0, 1, 5, -2, 8, 99)
	inst := g.instant()
	blk := g.block()
	kind := g.n(6)
	w := g.pick(words...)
	if kind == 5 {
		// expressions that have to be kept apart
		return func() (string, *Doc) {
			i++
			s := g.pick("(?i)", "(?i)", "(?s)", "(?m)", "", "", "", "^", "(?i:x)?", "x|") + w + g.pick("", "$", ".b", ".b$", "|Z", "(?i)y", fmt.Sprint(i))
			v := g.pick(w, g.flipCase(w), strings.ToUpper(w)) + g.pick("", "b", "\nb", "xb", "Y", "\n", fmt.Sprint(i))
			return g.regexLit(s), str(g.pick("", "", "", "a", "X", "z\n") + v)
		}
	}
	return func() (string, *Doc) {
		i++
		n := base + i*step
		switch kind {
		case 0:
			h := num(fmt.Sprint(n) + g.pick("", ".0", ".5", ".5", ".25", ".999"))
			if g.pct(20) {
				h = str(h.S)
			}
			return fmt.Sprint(n) + g.pick("", "", "", ".0", ".5"), h
		case 1:
			t := clampYear(inst.Add(time.Duration(i*step) * g.unit()))
			return g.aqlTime(t), str(g.timeString(g.nearTime(t)))
		case 2:
			b := block{blk.ip + uint32(i*step), g.pickInt(32, 32, 32, 31, 30)}
			return g.aqlNet(b), str(block{b.ip + uint32(g.rng(-2, 2)), 32}.addr())
		case 3:
			s := w + strings.Repeat(g.pick("a", "s", "1"), g.rng(0, 2)) + g.pick("", "", "*", "?", fmt.Sprint(i))
			return g.quoteAQL(s), str(g.flipCase(w) + g.pick("", "a", "s", "1", " 1", "-a", fmt.Sprint(i)))
		}
		s := g.pick("^", "") + w + g.pick("", "s?", "[0-9]", "$", ".", fmt.Sprint(i))
		return g.regexLit(s), str(g.pick(w, w, g.flipCase(w)) + g.pick("", "s", "1", " 1", fmt.Sprint(i)))
	}
}

func (g *Gen) unit() time.Duration {
	return []time.Duration{time.Nanosecond, time.Second, time.Hour, 24 * time.Hour, 24 * time.Hour}[g.n(5)]
}

func (g *Gen) sceneList() scene {
	n := g.rng(1, 5)
	if g.pct(6) {
		n = g.rng(6, 40)
	}
	if g.pct(1) {
		n = g.rng(100, 300)
	}
	sim := g.pct(20)
	var lits []string
	var hits []*Doc
	seen := map[string]bool{}
	member := g.member
	if g.pct(15) {
		sim, n = false, min(n, 8)
		if n == 1 {
			n = 3
		}
		member = g.family()
	}
	for len(lits) < n {
		l, h := member()
		if n > 40 {
			i := len(lits)
			l, h = fmt.Sprint(i*7), num(fmt.Sprint(i*7))
			if sim || i%3 == 0 {
				l, h = g.quoteAQL(fmt.Sprintf("w%d", i)), str(fmt.Sprintf("w%d", i))
			}
		}
		if sim {
			switch l[0] {
			case '"', '/', 't', 'f':
			default:
				continue
			}
		}
		if l == "true" && seen["false"] || l == "false" && seen["true"] || seen[l] {
			continue
		}
		seen[l] = true
		lits = append(lits, l)
		hits = append(hits, h)
	}
	rhs := lits[0]
	if n > 1 {
		rhs = g.list(lits)
	}
	if sim {
		rhs = "~" + g.ws() + rhs
	}
	var docs []*Doc
	var path []string
	for k := g.rng(1, 4); k > 0; k-- {
		var vals []*Doc
		for j := g.rng(1, 2); j > 0; j-- {
			if g.pct(70) {
				h := hits[g.n(len(hits))]
				if g.pct(30) {
					h = hits[len(hits)-1]
				}
				vals = append(vals, h)
			} else if g.pct(50) {
				_, h := g.member()
				vals = append(vals, h)
			} else {
				vals = append(vals, g.otherKind())
			}
		}
		if path == nil {
			var d *Doc
			d, path = g.place(vals)
			docs = append(docs, d)
		} else {
			d := clone(docs[0])
			fill(d, path, vals)
			docs = append(docs, d)
		}
	}
	s := scene{q: g.cmp(path, rhs), docs: docs}
	for _, l := range lits {
		s.parts = append(s.parts, g.cmp(path, l))
	}
	if sim {
		s.twin = g.cmp(path, strings.TrimLeft(rhs, "~ \t\r\n"))
	} else if simOk(lits) {
		s.twin = g.cmp(path, "~"+rhs)
	}
	if sim && seen["true"] && seen["false"] {
		s.twin = ""
	}
	return s
}

// simOk says whether :~ accepts all of these.
func simOk(lits []string) bool {
	for _, l := range lits {
		switch l[0] {
		case '"', '/', 't', 'f':
		default:
			return false
		}
	}
	return true
}

var _ = time.Now
