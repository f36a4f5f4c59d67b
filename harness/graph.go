//go:build graph

package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"html"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/flowchartsman/aql/aqlgraph"
	"github.com/goccy/go-graphviz"
)

// The drawing of a query, read back from the DOT text it is written as.

type gnode struct {
	ID    string  `json:"id"`
	Ty    string  `json:"ty"`
	Cells [][]int `json:"cells"`
	texts []string
}

type drawing struct {
	Nodes []*gnode    `json:"nodes"`
	Edges [][2]string `json:"edges"`
	Cap   []int       `json:"cap"` // the caption, without blanks
}

type graphEvent struct {
	K    string  `json:"k"`
	Q    []int   `json:"q"`
	R    string  `json:"r"`
	Form string  `json:"form"` // dot or svg
	G    drawing `json:"g"`
}

func noDrawing() drawing { return drawing{[]*gnode{}, [][2]string{}, []int{}} }

func init() {
	drivers["C23"] = func(g *Gen, o *Out, n int, _ string) { driveGraph(g, o, n) }
	replays["graph"] = func(o *Out, c *testCase, _ string) {
		file := o.evF.Name() + ".out"
		for _, q := range c.Qs {
			drawOnce(o, fromCodes(q), "dot", file)
			drawOnce(o, fromCodes(q), "svg", file)
		}
	}
}

func driveGraph(g *Gen, o *Out, n int) {
	dir, err := os.MkdirTemp(filepath.Dir(o.evF.Name()), "graph")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "q.out")
	for o.n < n {
		q := g.graphQuery()
		drawOnce(o, q, g.pick("dot", "dot", "svg"), file)
	}
}

func drawOnce(o *Out, q, form, file string) {
	o.mark(q)
	r, text := graphOnce(q, form, file)
	ev := graphEvent{K: "graph", Q: codes(q), R: r, Form: form, G: noDrawing()}
	side := map[string]any{"query": q, "observed": r, "form": form}
	if r == "ok" {
		var d *drawing
		if d, r = readDrawing(q, text, form); r == "ok" {
			ev.G = *d
			d.describe(side)
		}
		ev.R, side["observed"] = r, r
	}
	o.add(ev, side)
}

func (d *drawing) describe(side map[string]any) {
	var nodes []any
	for _, nd := range d.Nodes {
		nodes = append(nodes, map[string]any{"id": nd.ID, "kind": nd.Ty, "texts": nd.texts})
	}
	side["nodes"], side["edges"] = nodes, d.Edges
}

// readDrawing takes a drawing apart.  If graphviz, or the XML reader, does not
// understand it either, it is not a drawing in that form.
func readDrawing(q, text, form string) (d *drawing, r string) {
	if form == "svg" {
		d, err := readSVG(text)
		if err != nil {
			return nil, "unreadable"
		}
		return d, "ok"
	}
	d, err := readDOT(text)
	if err != nil {
		if _, gverr := graphviz.ParseBytes([]byte(text)); gverr != nil || errors.Is(err, errNotAll) {
			return nil, "unreadable"
		}
		fatal(fmt.Errorf("cannot read the DOT text of %q: %v\n%s", q, err, text))
	}
	return d, "ok"
}

func graphOnce(q, form, file string) (r, text string) {
	defer func() {
		if recover() != nil {
			r = "P"
		}
	}()
	os.Remove(file)
	gr, err := aqlgraph.QueryGraph(q)
	if err != nil {
		if gr != nil {
			return "both", ""
		}
		return "err", ""
	}
	if form == "svg" {
		err = gr.OutputSVG(file)
	} else {
		err = gr.OutputDOT(file)
	}
	if err != nil {
		return "noout", ""
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return "noout", ""
	}
	return "ok", string(b)
}

// ------------------------------------------------------------ SVG

type svgElement struct {
	XMLName xml.Name
	Class   string       `xml:"class,attr"`
	Text    string       `xml:",chardata"`
	Parts   []svgElement `xml:",any"`
}

// shown lists the texts in an element, but not those of its groups.
func (e *svgElement) shown(out []string) []string {
	for i := range e.Parts {
		switch p := &e.Parts[i]; {
		case p.XMLName.Local == "text":
			out = append(out, p.whole())
		case p.XMLName.Local != "title" && p.Class == "":
			out = p.shown(out)
		}
	}
	return out
}

func (e *svgElement) whole() string {
	t := e.Text
	for i := range e.Parts {
		t += e.Parts[i].whole()
	}
	return t
}

func (e *svgElement) title() string {
	for _, p := range e.Parts {
		if p.XMLName.Local == "title" {
			return p.Text
		}
	}
	return ""
}

func squash(s string) string {
	return strings.Map(func(r rune) rune {
		if r == 0xa0 || r == ' ' || r == '\t' || r == '\n' || r == '\r' {
			return -1
		}
		return r
	}, s)
}

func readSVG(s string) (*drawing, error) {
	dec := xml.NewDecoder(strings.NewReader(s))
	var root svgElement
	if err := dec.Decode(&root); err != nil {
		return nil, err
	}
	for {
		t, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		if _, ok := t.(xml.StartElement); ok {
			return nil, fmt.Errorf("more than one picture")
		}
	}
	if root.XMLName.Local != "svg" {
		return nil, fmt.Errorf("not a picture")
	}
	d := noDrawing()
	var walk func(e *svgElement)
	walk = func(e *svgElement) {
		switch e.Class {
		case "graph":
			d.Cap = append(d.Cap, codes(squash(strings.Join(e.shown(nil), "")))...)
		case "node":
			nd := &gnode{ID: e.title(), Ty: "cmp", Cells: [][]int{}}
			nd.texts = e.shown(nil)
			if len(nd.texts) == 0 {
				nd.Ty = "start"
			} else if len(nd.texts) == 1 {
				switch t := strings.ToUpper(strings.TrimSpace(nd.texts[0])); t {
				case "AND", "OR", "NOT":
					nd.Ty = t
				}
			}
			for _, t := range nd.texts {
				nd.Cells = append(nd.Cells, codes(squash(t)))
			}
			d.Nodes = append(d.Nodes, nd)
			return
		case "edge":
			if from, to, ok := strings.Cut(e.title(), "->"); ok {
				d.Edges = append(d.Edges, [2]string{from, to})
			}
			return
		}
		for i := range e.Parts {
			walk(&e.Parts[i])
		}
	}
	walk(&root)
	return &d, nil
}

var markupTexts = []string{"<b>", "</TD>", "&amp;", "&lt;", "a<b", "a>b", "a&b", "<<", ">>", "\"", "\\", "\\N", "\\G", "\\n", "a\\", "<TABLE>", "&#34;", "'", "{a|b}", "a;b", "[x]", "->", "a -> b", "//", "/* */", "#x", "漢字", "été", "x=y", " ", "", "%s", "{{.}}", "<I>x</I>", "&", "\x01", "a\x00b", "\ufffe", "\x1b[0m"}

func (g *Gen) graphQuery() string {
	c := g.clause([]int{1, 1, 2, 3, 4, 6, 9, 16, 30}[g.n(9)], 3)
	if g.n(60) == 0 {
		c = g.chain(g.rng(20, 80))
	}
	var made []string
	g.retext(c, func() (text string) {
		if len(made) > 0 && g.pct(15) {
			return made[g.n(len(made))]
		}
		defer func() { made = append(made, text) }()
		path := g.anyPath()
		for i := range path {
			if g.pct(12) {
				path[i] = markupTexts[g.n(len(markupTexts))]
			}
		}
		rhs := g.anyRHS()
		switch g.n(5) {
		case 4:
			if g.pct(20) {
				rhs = g.quoteAQL(strings.Repeat(g.pick("long ", "x", "&", "漢"), g.rng(20, 120)))
			}
		case 0:
			rhs = g.quoteAQL(markupTexts[g.n(len(markupTexts))])
		case 1:
			vs := []string{}
			seen := map[string]bool{}
			k := g.rng(2, 5)
			if g.pct(15) {
				k = g.rng(8, 40)
			}
			for ; k > 0; k-- {
				t := markupTexts[g.n(len(markupTexts))]
				if g.pct(30) {
					t = fmt.Sprint("v", g.n(99))
				}
				if !seen[t] {
					seen[t] = true
					vs = append(vs, g.quoteAQL(t))
				}
			}
			if g.pct(60) {
				vs = append(vs, g.pick("1", "-2.50", "true", "10.0.0.1", "10.0.0.0/8", "2020-01-01", "2020-01-01T00:00:00Z", "/<a>&b/", `/"/`, `/a\/b/`))
			}
			if len(vs) > 1 {
				g.shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
				rhs = "(" + strings.Join(vs, ",") + ")"
			}
		}
		return g.cmp(path, rhs)
	})
	q := g.ws() + g.writeClause(c, 0, []int{0, 10, 30}[g.n(3)]) + g.ws()
	if g.pct(8) {
		q = strings.ToValidUTF8(g.spoil(q), "?")
	}
	return q
}

// ------------------------------------------------------------ DOT

type dotReader struct {
	s string
	i int
}

func (d *dotReader) skip() {
	for d.i < len(d.s) && strings.IndexByte(" \t\r\n;", d.s[d.i]) >= 0 {
		d.i++
	}
}

// id reads an identifier, number, quoted or HTML text.
func (d *dotReader) id() (text string, isHTML bool, err error) {
	d.skip()
	if d.i >= len(d.s) {
		return "", false, fmt.Errorf("unexpected end")
	}
	switch d.s[d.i] {
	case '"':
		var sb strings.Builder
		for d.i++; d.i < len(d.s); d.i++ {
			switch c := d.s[d.i]; {
			case c == '"':
				d.i++
				return sb.String(), false, nil
			case c == '\\' && d.i+1 < len(d.s) && d.s[d.i+1] == '"':
				sb.WriteByte('"')
				d.i++
			case c == '\\' && d.i+1 < len(d.s) && d.s[d.i+1] == '\n':
				d.i++
			default:
				sb.WriteByte(c)
			}
		}
		return "", false, fmt.Errorf("open string")
	case '<':
		depth, start := 0, d.i
		for ; d.i < len(d.s); d.i++ {
			switch d.s[d.i] {
			case '<':
				depth++
			case '>':
				if depth--; depth == 0 {
					d.i++
					return d.s[start+1 : d.i-1], true, nil
				}
			}
		}
		return "", false, fmt.Errorf("open HTML text")
	}
	start := d.i
	for d.i < len(d.s) && strings.IndexByte(" \t\r\n;=[],{}\"<", d.s[d.i]) < 0 && !strings.HasPrefix(d.s[d.i:], "->") {
		d.i++
	}
	if d.i == start {
		return "", false, fmt.Errorf("unexpected %q", d.s[d.i])
	}
	return d.s[start:d.i], false, nil
}

type dotText struct {
	text string
	html bool
}

func (d *dotReader) attributes() (map[string]dotText, error) {
	out := map[string]dotText{}
	d.skip()
	if d.i >= len(d.s) || d.s[d.i] != '[' {
		return out, nil
	}
	d.i++
	for {
		for d.skip(); d.i < len(d.s) && d.s[d.i] == ','; d.skip() {
			d.i++
		}
		if d.i < len(d.s) && d.s[d.i] == ']' {
			d.i++
			return out, nil
		}
		k, _, err := d.id()
		if err != nil {
			return nil, err
		}
		d.skip()
		if d.i >= len(d.s) || d.s[d.i] != '=' {
			return nil, fmt.Errorf("no = after %q", k)
		}
		d.i++
		v, h, err := d.id()
		if err != nil {
			return nil, err
		}
		out[k] = dotText{v, h}
	}
}

var (
	cellRE = regexp.MustCompile(`(?is)<TD\b[^>]*>(.*?)</TD>`)
	tagRE  = regexp.MustCompile(`(?s)<[^>]*>`)
)

// unescaped is the text graphviz shows for a piece of an HTML label.
func unescaped(t string) string {
	return html.UnescapeString(strings.ReplaceAll(t, `\\`, `\`))
}

// errNotAll: a text that is not one whole drawing, whatever is in it.
var errNotAll = errors.New("not one whole graph")

func readDOT(s string) (*drawing, error) {
	d := &dotReader{s: s}
	i := strings.IndexByte(s, '{')
	if i < 0 {
		return nil, errNotAll
	}
	d.i = i + 1
	none := noDrawing()
	out := &none
	for {
		d.skip()
		if d.i >= len(s) {
			return nil, errNotAll
		}
		if s[d.i] == '}' {
			if strings.TrimSpace(s[d.i+1:]) != "" {
				return nil, errNotAll
			}
			return out, nil
		}
		name, _, err := d.id()
		if err != nil {
			return nil, err
		}
		d.skip()
		if strings.HasPrefix(s[d.i:], "->") {
			d.i += 2
			to, _, err := d.id()
			if err != nil {
				return nil, err
			}
			if _, err := d.attributes(); err != nil {
				return nil, err
			}
			out.Edges = append(out.Edges, [2]string{name, to})
			continue
		}
		at, err := d.attributes()
		if err != nil {
			return nil, err
		}
		if name == "graph" || name == "node" || name == "edge" {
			continue
		}
		nd := &gnode{ID: name, Ty: "cmp", Cells: [][]int{}}
		l := at["label"]
		switch {
		case at["shape"].text == "point":
			nd.Ty = "start"
		case l.html:
			for _, m := range cellRE.FindAllStringSubmatch(l.text, -1) {
				t := unescaped(tagRE.ReplaceAllString(strings.Trim(m[1], "\r\n\t"), ""))
				nd.texts = append(nd.texts, t)
			}
			if nd.texts == nil {
				nd.texts = []string{unescaped(tagRE.ReplaceAllString(l.text, ""))}
			}
		default:
			nd.texts = []string{strings.ReplaceAll(l.text, `\\`, `\`)}
		}
		if len(nd.texts) == 1 {
			switch t := strings.ToUpper(strings.TrimSpace(nd.texts[0])); t {
			case "AND", "OR", "NOT":
				nd.Ty = t
			}
		}
		for _, t := range nd.texts {
			nd.Cells = append(nd.Cells, codes(t))
		}
		out.Nodes = append(out.Nodes, nd)
	}
}
