package main

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
)

type statTree struct {
	Nm string     `json:"nm"`
	C  int64      `json:"c"`
	M  int64      `json:"m"`
	Ch []statTree `json:"ch"`
}

func statsTree(s *jsonmatcher.MatchStats) statTree {
	if s == nil {
		return statTree{Nm: "none", Ch: []statTree{}}
	}
	t := statTree{Nm: s.NodeName, C: s.TimesChecked, M: s.TimesMatched, Ch: []statTree{}}
	for _, c := range s.Children {
		t.Ch = append(t.Ch, statsTree(c))
	}
	return t
}

func readStats(m *jsonmatcher.Matcher) (t statTree) {
	defer func() {
		if e := recover(); e != nil {
			t = statTree{Nm: "panic", Ch: []statTree{}}
		}
	}()
	return statsTree(m.Stats())
}

type statStep struct {
	D   *Doc     `json:"d"`
	Bad bool     `json:"bad"`
	N   int      `json:"n"` // so many times in a row
	R   string   `json:"r"`
	St  statTree `json:"st"`
}

type statsEvent struct {
	K     string     `json:"k"`
	Q     []int      `json:"q"`
	St0   statTree   `json:"st0"`
	Steps []statStep `json:"steps"`
}

var badJSON = []string{"", " ", "{", "{\"k0\":1", "{\"k0\":1}}", "nul", "[1,]", "{\"k0\":01}", "{k0:1}", "\"\xff", "{\"k0\":1} x", "'a'", "{\"k0\":\"\n\"}", "{\"k0\":tru}", "+1", "\x00"}

// plainLeaf is a comparison about whose answer there can be no doubt.
func (g *Gen) plainLeaf(keys int) string {
	k := fmt.Sprintf("k%d", g.n(keys))
	return k + ":" + g.pick("true", "true", "false", "1", "2", "exists", "null", ">1", "<2", "(1,2)")
}

func driveStats(g *Gen, o *Out, n int) {
	for o.n < n {
		keys := g.rng(1, 4)
		c := g.clause([]int{1, 2, 3, 4, 5, 7, 10}[g.n(7)], keys)
		if g.n(150) == 0 {
			c = g.chain(g.rng(20, 110))
		}
		g.retext(c, func() string { return g.plainLeaf(keys) })
		q := g.writeClause(c, 0, 15)
		if g.pct(3) {
			// the same clause over and over
			l := g.plainLeaf(keys)
			q = strings.TrimSuffix(strings.Repeat(l+g.pick(" AND ", " OR "), g.rng(5, 25)), " ")
			q = q + " " + l
		}
		m, err, pan := newMatcher(q)
		if err != nil || pan != nil {
			continue
		}
		e := statsEvent{K: "stats", Q: codes(q), Steps: []statStep{}, St0: readStats(m)}
		var texts []string
		for k := g.rng(1, 6); k > 0; k-- {
			d := g.flags(keys)
			text := g.text(d)
			bad := g.pct(12)
			if bad {
				text = badJSON[g.n(len(badJSON))]
			}
			o.mark(q, text)
			n := 1
			if g.pct(6) {
				n = []int{2, 7, 50, 255, 300, 1100, 5000}[g.n(7)]
				if g.n(100) == 0 {
					n = 70000
				}
			}
			r := match(m, []byte(text))
			for j := 1; j < n; j++ {
				if match(m, []byte(text)) != r {
					r = "differs"
				}
			}
			for j := g.n(3); j > 0; j-- {
				readStats(m)
			}
			e.Steps = append(e.Steps, statStep{d, bad, n, r, readStats(m)})
			texts = append(texts, text)
		}
		o.add(e, map[string]any{"query": q, "documents": texts, "observed": e.Steps})
	}
}

// ---------------------------------------------------------------- C18

type version struct {
	B  []int    `json:"b"`
	Rs []string `json:"rs"`
	b  []byte
}

type totalEvent struct {
	K     string     `json:"k"`
	Vs    []*version `json:"vs"`
	Clean bool       `json:"clean"`
}

// spread adds insignificant whitespace to a JSON text.
func (g *Gen) spread(s string) string {
	var sb strings.Builder
	in := false
	pad := func() {
		for g.pct(25) {
			sb.WriteByte(" \t\n\r"[g.n(4)])
		}
	}
	pad()
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in {
			sb.WriteByte(c)
			if c == '\\' && i+1 < len(s) {
				i++
				sb.WriteByte(s[i])
			} else if c == '"' {
				in = false
			}
			continue
		}
		switch c {
		case '"':
			in = true
			sb.WriteByte(c)
		case '{', '}', '[', ']', ',', ':':
			pad()
			sb.WriteByte(c)
			pad()
		default:
			sb.WriteByte(c)
		}
	}
	pad()
	return sb.String()
}

var oddJSON = []string{`{"k0":1e999}`, `{"k0":-0}`, `{"k0":1E+2}`, `{"k0":"\ud800"}`, `{"k0":"\ud83d\ude00"}`, "{\"k0\":\"\xff\xfe\"}", "{\"\xff\":1}", `{"k0":1,"k0":true}`, `{"":1}`, `[]`, `{}`, `null`, `0`, `"k0"`, `true`, `[[],[[]],{}]`, `[{"k0":1}]`, `[[{"k0":1}]]`,
	`{"k0":{"k0":{"k0":[{"k0":1}]}}}`, `{"k0":123456789012345678901234567890}`, `{"k0":0.1e-400}`, `{"k0":"2020-13-45T99:99:99Z"}`, `{"k0":"999.999.999.999/99"}`, `{"k0":"\u0000"}`, `"\u"`, `{"a":"\x"}`, `{"k0":[1,2,,3]}`, `{"k0":.5}`, `{"k0":1.}`, `{"k0":-}`, `{"k0":0x10}`, `{"k0":1}garbage`, `{"k0" 1}`, `{"k0":}`, `{,}`, `[`, `]`, "{\"k0\":\"a\tb\"}", `{"k0":True}`, `{"k0":1}{"k0":2}`, "\xef\xbb\xbf{}", `{"k0":"` + strings.Repeat("long ", 300) + `"}`, `{"k\u0030":1}`, `{"\u006b0":true}`, "\u00a0{}", `{"k0":00}`, `{"k0":1e}`, `{"k0":1e5.5}`, `["a" "b"]`, `{"a":1,}`, `// x`, `{"k0":NaN}`, `{"k0":Infinity}`, `{'k0':1}`}

func (g *Gen) docBytes() string {
	switch g.n(10) {
	case 0, 1:
		return oddJSON[g.n(len(oddJSON))]
	case 2:
		k := g.rng(2, 120)
		return strings.Repeat(`{"k0":`, k) + "1" + strings.Repeat("}", k)
	case 3:
		k := g.rng(2, 120)
		if g.pct(6) {
			k = g.rng(200, 950)
		}
		return strings.Repeat("[", k) + g.pick("1", `{"k0":1}`, "") + strings.Repeat("]", k)
	case 4:
		if g.pct(4) {
			// large
			k := g.pickInt(300, 1100, 2100, 4200)
			pad := g.pick(`"`+strings.Repeat("x", k)+`"`, "["+strings.Repeat(`{"k0":1},`, k/9)+"1]", strings.Repeat("1", k), strings.Repeat(" ", k)+"{}")
			return g.pick(`{"pad":`+pad+`,"k0":1,"k1":true}`, `{"k0":1,"k1":true,"pad":`+pad+`}`, `[`+pad+`,{"k0":1}]`, `{"k0":`+pad+`}`)
		}
		return g.text(g.tree(4, 30, 20))
	case 5:
		s := []byte(g.text(g.flags(4)))
		for k := g.rng(1, 2); k > 0 && len(s) > 0; k-- {
			i := g.n(len(s))
			switch g.n(4) {
			case 0:
				s[i] = byte(g.n(256))
			case 1:
				s = append(s[:i], s[i+1:]...)
			case 2:
				s = append(s[:i], append([]byte{"{}[]\",:0 \\eE+-.tn\x00\x1f\x7f"[g.n(20)]}, s[i:]...)...)
			case 3:
				s = s[:i]
			}
		}
		return string(s)
	case 6:
		if g.pct(30) {
			b := make([]byte, g.n(6))
			for i := range b {
				b[i] = byte(g.n(256))
			}
			return string(b)
		}
		return badJSON[g.n(len(badJSON))]
	}
	return g.text(g.flags(4))
}

// wildQuery is any query text at all.
func (g *Gen) wildQuery() string {
	switch g.n(10) {
	case 0:
		k := g.rng(5, 60)
		return strings.Repeat("(", k) + "k0:1" + strings.Repeat(")", k)
	case 1:
		k := g.rng(5, 60)
		return strings.Repeat(g.pick("!(", "NOT ("), k) + "k0:exists" + strings.Repeat(")", k-g.n(2))
	case 2:
		k := g.rng(10, 200)
		return strings.Repeat("k"+fmt.Sprint(g.n(4))+":"+g.pick("1", "true", "null", `"a"`)+g.pick(" AND ", " OR "), k) + "k1:exists"
	case 3:
		return g.soup()
	case 4:
		return g.spoil(g.anyQuery())
	case 5:
		b := make([]byte, g.n(12))
		for i := range b {
			b[i] = byte(g.n(256))
		}
		return string(b)
	case 6:
		k := g.rng(3, 80)
		return strings.Repeat("k0.", k) + "k0:1"
	case 7:
		k := g.rng(2, 30)
		return strings.Repeat("(k0:1 AND (", k) + "k1:true" + strings.Repeat("))", k)
	case 8:
		return g.badValue()
	}
	return g.anyQuery()
}

func driveTotal(g *Gen, o *Out, n int) {
	for o.n < n {
		q := g.wildQuery()
		if g.pct(60) {
			q = g.writeClause(g.clause(g.rng(1, 4), 4), 0, 10)
			if g.pct(40) {
				q = g.cmp([]string{g.pick("k0", "k1")}, g.anyRHS())
			}
		}
		o.mark(q)
		m, err, pan := newMatcher(q)
		r := "odd"
		switch {
		case pan != nil:
			r = "P"
		case err == nil && m != nil:
			r = "ok"
		case err != nil && m == nil && parseError(err) != nil:
			r = "err"
		}
		o.add(map[string]any{"k": "submit", "r": r}, map[string]any{"query": q, "observed": r})
		if r != "ok" {
			continue
		}
		buffer := make([]byte, 8192)
		for k := g.rng(1, 3); k > 0; k-- {
			first := g.docBytes()
			e := totalEvent{K: "total", Clean: true}
			add := func(s string) { e.Vs = append(e.Vs, &version{B: bytesOf([]byte(s)), b: []byte(s)}) }
			add(first)
			for j := g.n(3); j > 0; j-- {
				add(g.spread(first))
			}
			if g.pct(30) {
				add(g.docBytes())
			}
			if g.pct(5) {
				// so much white space around it that it is left out of the record
				pad := strings.Repeat(g.pick(" ", "\n", " \t\r\n"), []int{70, 1100, 4096, 9000, 17000, 70000}[g.n(6)])
				add(first)
				v := e.Vs[len(e.Vs)-1]
				v.b = []byte(pad + first)
				if g.pct(50) {
					v.b = []byte(first + pad)
				}
			}
			if g.pct(50) {
				// the same length, something else in it
				b := []byte(first)
				for j := g.rng(1, 2); j > 0 && len(b) > 0; j-- {
					switch i := g.n(len(b)); {
					case b[i] >= '0' && b[i] <= '9':
						b[i] = "123"[g.n(3)]
					case strings.Contains(string(b), "true "):
						b = []byte(strings.Replace(string(b), "true ", "false", 1))
					case strings.Contains(string(b), "null"):
						b = []byte(strings.Replace(string(b), "null", "true", 1))
					case strings.Contains(string(b), "true"):
						b = []byte(strings.Replace(string(b), "true", "null", 1))
					case strings.Contains(string(b), "1"):
						b = []byte(strings.Replace(string(b), "1", "2", 1))
					}
				}
				add(string(b))
			}
			if len(first) > 4500 {
				continue
			}
			reuse := g.pct(60)
			for j := 0; j < 2*len(e.Vs)+1; j++ {
				i := j
				if j >= len(e.Vs) {
					i = g.n(len(e.Vs))
				}
				v := e.Vs[i]
				cp := make([]byte, len(v.b), len(v.b)+16)
				if reuse && len(v.b)+16 <= len(buffer) {
					cp = buffer[: len(v.b) : len(v.b)+16]
				}
				copy(cp, v.b)
				for k := range cp[len(cp):cap(cp)] {
					cp[len(v.b) : len(v.b)+16][k] = '#'
				}
				o.mark(q, string(v.b))
				v.Rs = append(v.Rs, match(m, cp))
				if string(cp) != string(v.b) || string(cp[len(cp):cap(cp)]) != "################" {
					e.Clean = false
				}
				if g.pct(20) {
					// a fresh matcher for the same query
					v.Rs = append(v.Rs, answer(q, cp))
				}
			}
			var side []map[string]any
			for _, v := range e.Vs {
				side = append(side, map[string]any{"document": strings.TrimSpace(string(v.b)), "length": len(v.b), "answers": v.Rs})
			}
			o.add(e, map[string]any{"query": q, "versions": side, "untouched": e.Clean})
		}
	}
}
