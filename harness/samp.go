package main

import (
	"fmt"
	"sort"

	"github.com/flowchartsman/aql/sampler"
)

type thrSeen struct {
	Pct  int     `json:"pct"`
	Keys [][]int `json:"keys"`
}

type sampStep struct {
	Op      string    `json:"op"`
	D       *Doc      `json:"d"`
	B       []int     `json:"b"`
	N       int       `json:"n"` // so many times in a row
	OK      bool      `json:"ok"`
	Scanned int       `json:"scanned"`
	Keys    [][]int   `json:"keys"`
	Thr     []thrSeen `json:"thr"`
}

type samplerEvent struct {
	K     string     `json:"k"`
	Max   int        `json:"max"`
	Steps []sampStep `json:"steps"`
}

func textsOf(ss []string) [][]int {
	out := make([][]int, len(ss))
	for i, s := range ss {
		out[i] = codes(s)
	}
	return out
}

// safely runs f and reports whether it panicked.
func safely(f func()) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	f()
	return
}

// look reads everything a sampler tells.
func (s *sampStep) look(sm *sampler.Sampler, pcts []int) {
	s.Keys, s.Thr, s.Scanned = [][]int{}, []thrSeen{}, -1
	if safely(func() {
		s.Scanned = sm.Scanned()
		s.Keys = textsOf(sm.Keys())
		for _, p := range pcts {
			s.Thr = append(s.Thr, thrSeen{p, textsOf(sm.KeysAtThreshold(p))})
		}
	}) {
		s.Scanned = -2
	}
}

// sampleDoc is an object or array.
func (g *Gen) sampleDoc() *Doc {
	odd := []int{0, 15, 60}[g.n(3)]
	if g.pct(3) {
		return g.grown(g.sampleDoc(), odd)
	}
	if g.pct(20) {
		d := arr()
		for k := g.n(4); k > 0; k-- {
			d.E = append(d.E, g.tree(3, odd, 15))
		}
		return d
	}
	return g.object(g.rng(1, 5), odd, 15)
}

// grown is a document with d somewhere deep in it, or late in a long list.
func (g *Gen) grown(d *Doc, odd int) *Doc {
	if g.pct(40) {
		a := arr()
		for k := g.pickInt(10, 40, 70, 110, 140, 260); k > 0; k-- {
			a.E = append(a.E, []*Doc{obj(), num("1"), arr(), obj(kv("a", null())), arr(obj(kv("x", num("1"))))}[g.n(5)])
		}
		a.E = append(a.E, d)
		if g.pct(50) {
			return obj(kv(g.key(odd), a))
		}
		return a
	}
	for k := g.rng(5, 30); k > 0; k-- {
		o := obj()
		if g.pct(20) {
			o.KV = append(o.KV, kv("first", g.scalarDoc()))
		}
		if g.pct(30) && d.T != "arr" {
			d = arr(d)
		}
		o.KV = append(o.KV, kv(g.key(odd), d))
		if g.pct(20) {
			o.KV = append(o.KV, kv("last", g.scalarDoc()))
		}
		d = o
	}
	return d
}

// bare writes a document with nothing around it.
func (g *Gen) bare(d *Doc) string {
	s := g.text(d)
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\n' || s[0] == '\t' || s[0] == '\r') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\n' || s[len(s)-1] == '\t' || s[len(s)-1] == '\r') {
		s = s[:len(s)-1]
	}
	return s
}

var badSamples = []string{"", " ", "1", "\"a\"", "null", "true", "x", "nonsense", "\n{}", "{", "[", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,\"b\":{\"c\":2}", "[{\"a\":1},", "[1,2", "{\"a\":1,\"b\"", "{\"a\":1,,}", "{\"a\":[{\"b\":1},{\"c\"}]}", "{\"a\":\"x}", "[{\"a\":1}{\"b\":2}]", "{\"z\":1} trailing", "]", "}", "-", "tru", "\x00", "{\"p\":1,\"q\":[{\"r\":tru}]}"}

func sampleOnce(sm *sampler.Sampler, text string) (ok, panicked bool) {
	panicked = safely(func() { ok = sm.Sample([]byte(text)) == nil })
	return
}

func driveSampler(g *Gen, o *Out, prop string, n int) {
	for o.n < n {
		max := []int{-1, 0, 1, 2, 3, 4, 10, 10, 10, -5, 20, -1}[g.n(12)]
		sm := sampler.New(max)
		e := samplerEvent{K: "sampler", Max: max, Steps: []sampStep{}}
		var texts []string
		docs := []*Doc{g.sampleDoc(), g.sampleDoc(), g.sampleDoc()}
		huge := false
		k := 1
		if prop == "C21" {
			k = g.rng(1, 8)
		}
		for ; k > 0; k-- {
			st := sampStep{Op: "sample", N: 1, D: obj(), B: []int{}, OK: true}
			text := ""
			switch {
			case prop == "C21" && g.pct(12):
				st.Op = "reset"
				sm.Reset()
			case prop == "C21" && g.pct(25):
				st.Op = "raw"
				text = badSamples[g.n(len(badSamples))]
				if g.pct(30) {
					t := g.bare(docs[0])
					text = t[:g.n(len(t))]
				}
				st.B = bytesOf([]byte(text))
				if len(text) > 60 {
					st.B = st.B[:60]
				}
				o.mark(text)
				var pan bool
				if st.OK, pan = sampleOnce(sm, text); pan {
					st.Scanned = -2
				}
			default:
				st.D = docs[g.n(3)]
				if g.pct(30) {
					st.D = g.sampleDoc()
				}
				text = g.bare(st.D)
				o.mark(text)
				var pan bool
				if prop == "C21" && g.pct(8) {
					st.N = []int{2, 9, 60, 99, 100, 255, 300, 1000}[g.n(8)]
					if !huge && g.pct(4) {
						huge = true
						st.N = 66000
					}
				}
				for j := 0; j < st.N && st.OK; j++ {
					if st.OK, pan = sampleOnce(sm, text); pan {
						st.OK = false
					}
				}
			}
			pan := st.Scanned == -2
			pcts := []int{100, 200, 300}
			if prop == "C21" {
				pcts = []int{[]int{0, 1, 50, 100, 33, 67, 34, 66, -5, 150}[g.n(10)], g.n(101), []int{20, 25, 40, 60, 75, 80}[g.n(6)]}
			}
			st.look(sm, pcts)
			if pan {
				st.Scanned = -2
			}
			e.Steps = append(e.Steps, st)
			texts = append(texts, fmt.Sprint(st.Op, " ", st.N, " times ", text))
		}
		o.add(e, map[string]any{"depth": max, "calls": texts, "observed": e.Steps})
	}
}

// ---------------------------------------------------------------- C22

type fieldsEvent struct {
	K    string   `json:"k"`
	D    *Doc     `json:"d"`
	Max  int      `json:"max"`
	Keys [][]int  `json:"keys"`
	Rs   []string `json:"rs"`
}

func driveFields(g *Gen, o *Out, n int) {
	for o.n < n {
		d := g.object(g.rng(1, 4), []int{20, 60, 90}[g.n(3)], 15)
		if g.pct(20) {
			d = arr(d, g.object(2, 60, 15))
		}
		if g.pct(4) {
			d = g.grown(d, 20)
		}
		max := []int{-1, 10, 1, 2, 3, 20, -1}[g.n(7)]
		sm := sampler.New(max)
		text := g.bare(d)
		o.mark(text)
		if ok, pan := sampleOnce(sm, text); !ok || pan {
			continue
		}
		e := fieldsEvent{K: "fields", D: d, Max: max, Keys: [][]int{}, Rs: []string{}}
		var keys, qs []string
		if safely(func() { keys = sm.Keys() }) {
			continue
		}
		sort.Strings(keys)
		e.Keys = textsOf(keys)
		for _, k := range keys {
			q := k + g.ws() + ":" + g.ws() + "exists"
			switch g.n(6) {
			case 0:
				q = "(" + q + ")"
			case 1:
				q = q + " AND " + k + ":exists"
			case 2:
				q = "!(NOT " + q + ")"
			}
			e.Rs = append(e.Rs, answer(q, []byte(text)))
			qs = append(qs, q)
		}
		o.add(e, map[string]any{"document": text, "depth": max, "keys": keys, "queries": qs, "observed": e.Rs})
	}
}
