package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// Doc is a JSON document as a tree. T is one of obj, arr, str, num, bool, null.
type Doc struct {
	T  string
	KV []KV
	E  []*Doc
	S  string // text of a string or number
	B  bool
}

// KV is one member of an object.
type KV struct {
	K string
	V *Doc
}

func str(s string) *Doc      { return &Doc{T: "str", S: s} }
func num(s string) *Doc      { return &Doc{T: "num", S: s} }
func boolean(b bool) *Doc    { return &Doc{T: "bool", B: b} }
func null() *Doc             { return &Doc{T: "null"} }
func arr(e ...*Doc) *Doc     { return &Doc{T: "arr", E: e} }
func obj(kv ...KV) *Doc      { return &Doc{T: "obj", KV: kv} }
func (d *Doc) scalar() bool  { return d.T != "obj" && d.T != "arr" }
func kv(k string, v *Doc) KV { return KV{k, v} }
func (d *Doc) has(k string) bool {
	for _, m := range d.KV {
		if m.K == k {
			return true
		}
	}
	return false
}

// codes is a text as the specification reads it: its Unicode code points.
func codes(s string) []int {
	out := make([]int, 0, len(s))
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

func bytesOf(b []byte) []int {
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

func fromCodes(cs []int) string {
	var sb strings.Builder
	for _, c := range cs {
		sb.WriteRune(rune(c))
	}
	return sb.String()
}

type jdoc struct {
	T  string `json:"t"`
	KV []jkv  `json:"kv,omitempty"`
	E  []jdoc `json:"e,omitempty"`
	S  []int  `json:"s,omitempty"`
	B  *bool  `json:"b,omitempty"`
}
type jkv struct {
	K []int `json:"k"`
	V jdoc  `json:"v"`
}

// MarshalJSON writes the document as the specification reads it.
func (d *Doc) MarshalJSON() ([]byte, error) {
	var m map[string]any
	switch d.T {
	case "obj":
		kvs := make([]map[string]any, len(d.KV))
		for i, e := range d.KV {
			kvs[i] = map[string]any{"k": codes(e.K), "v": e.V}
		}
		m = map[string]any{"t": "obj", "kv": kvs}
	case "arr":
		es := d.E
		if es == nil {
			es = []*Doc{}
		}
		m = map[string]any{"t": "arr", "e": es}
	case "str", "num":
		m = map[string]any{"t": d.T, "s": codes(d.S)}
	case "bool":
		m = map[string]any{"t": "bool", "b": d.B}
	default:
		m = map[string]any{"t": "null"}
	}
	return json.Marshal(m)
}

// UnmarshalJSON reads what MarshalJSON writes.
func (d *Doc) UnmarshalJSON(b []byte) error {
	var j jdoc
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*d = *j.doc()
	return nil
}

func (j jdoc) doc() *Doc {
	d := &Doc{T: j.T}
	for _, m := range j.KV {
		d.KV = append(d.KV, KV{fromCodes(m.K), m.V.doc()})
	}
	for _, e := range j.E {
		d.E = append(d.E, e.doc())
	}
	d.S = fromCodes(j.S)
	if j.B != nil {
		d.B = *j.B
	}
	return d
}

// style says how a document is written down as JSON text.
type style struct {
	g   *Gen
	ws  int // percentage of places with whitespace
	esc int // percentage of characters that are escaped needlessly
}

func (s *style) space(sb *strings.Builder) {
	if s.g == nil || s.ws == 0 {
		return
	}
	for s.g.pct(s.ws) {
		sb.WriteByte(" \t\n\r"[s.g.n(4)])
	}
}

func (s *style) quote(sb *strings.Builder, t string) {
	sb.WriteByte('"')
	for i := 0; i < len(t); {
		r, w := utf8.DecodeRuneInString(t[i:])
		i += w
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '/': `\/`}
		must := r < 0x20 || r == '"' || r == '\\'
		if must || (s.g != nil && s.g.pct(s.esc)) {
			if e, ok := short[r]; ok && (s.g == nil || s.g.pct(70)) {
				sb.WriteString(e)
				continue
			}
			if r > 0xffff {
				a, b := utf16.EncodeRune(r)
				fmt.Fprintf(sb, `\u%04x\u%04X`, a, b)
			} else if s.g != nil && s.g.pct(50) {
				fmt.Fprintf(sb, `\u%04X`, r)
			} else {
				fmt.Fprintf(sb, `\u%04x`, r)
			}
			continue
		}
		sb.WriteRune(r)
	}
	sb.WriteByte('"')
}

func (s *style) write(sb *strings.Builder, d *Doc) {
	s.space(sb)
	switch d.T {
	case "obj":
		sb.WriteByte('{')
		for i, m := range d.KV {
			if i > 0 {
				sb.WriteByte(',')
			}
			s.space(sb)
			s.quote(sb, m.K)
			s.space(sb)
			sb.WriteByte(':')
			s.write(sb, m.V)
		}
		s.space(sb)
		sb.WriteByte('}')
	case "arr":
		sb.WriteByte('[')
		for i, e := range d.E {
			if i > 0 {
				sb.WriteByte(',')
			}
			s.write(sb, e)
		}
		s.space(sb)
		sb.WriteByte(']')
	case "str":
		s.quote(sb, d.S)
	case "num":
		sb.WriteString(d.S)
	case "bool":
		fmt.Fprintf(sb, "%v", d.B)
	default:
		sb.WriteString("null")
	}
	s.space(sb)
}

// text writes the document in a random style.
func (g *Gen) text(d *Doc) string {
	s := &style{g: g}
	if g.pct(40) {
		s.ws = 30
	}
	switch g.n(4) {
	case 0:
		s.esc = 10
	case 1:
		s.esc = 100
	}
	var sb strings.Builder
	s.write(&sb, d)
	return sb.String()
}

// plain writes the document without anything superfluous.
func plain(d *Doc) string {
	var sb strings.Builder
	(&style{}).write(&sb, d)
	return sb.String()
}
