package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"

	"aqlverif/sched"
)

// call is one call on a shared matcher, with what it would answer and count
// on a matcher of its own.
type call struct {
	Kind  string   `json:"kind"`
	R     string   `json:"r"`
	St    statTree `json:"st"`
	Inv   int64    `json:"inv"`
	Ret   int64    `json:"ret"`
	Alone string   `json:"alone"`
	One   statTree `json:"one"`
	text  string
}

type sharedEvent struct {
	K     string   `json:"k"`
	Zero  statTree `json:"zero"`
	Calls []*call  `json:"calls"`
	Final statTree `json:"final"`
}

// plan is what the callers of one scenario do.
type plan struct {
	q       string
	zero    statTree
	callers [][]*call
}

func (g *Gen) sharedPlan(callers, calls, size int) *plan {
	for {
		keys := g.rng(1, 3)
		c := g.clause(g.rng(1, size), keys)
		switch g.n(3) {
		case 0:
			g.retext(c, func() string { return g.plainLeaf(keys) })
		case 1:
			g.retext(c, func() string { return g.sharedLeaf(keys) })
		default:
			g.retext(c, func() string { return g.richLeaf(keys) })
		}
		p := &plan{q: g.writeClause(c, 0, 10)}
		m, err, pan := newMatcher(p.q)
		if err != nil || pan != nil {
			continue
		}
		p.zero = readStats(m)
		for i := 0; i < callers; i++ {
			var cs []*call
			for k := g.rng(1, calls); k > 0; k-- {
				if g.pct(35) {
					cs = append(cs, &call{Kind: "stats", R: "-", Alone: "-", St: noStats, One: noStats})
					continue
				}
				var d *Doc
				if g.pct(60) {
					d = g.richFlags(keys)
				} else {
					d = g.flags(keys)
				}
				text := plain(d)
				if g.pct(5) {
					text = badJSON[g.n(len(badJSON))]
				}
				own, _, _ := newMatcher(p.q)
				cl := &call{Kind: "match", text: text, St: noStats}
				cl.Alone = match(own, []byte(text))
				cl.One = readStats(own)
				cs = append(cs, cl)
			}
			p.callers = append(p.callers, cs)
		}
		return p
	}
}

// sharedLeaf is a comparison of a kind that does some work.
func (g *Gen) sharedLeaf(keys int) string {
	k := fmt.Sprintf("k%d", g.n(keys))
	return k + g.pick("", ".x", ".y") + ":" + g.pick(`"a*"`, `"漢"`, `"é"`, "/a|b/", "/^1/", "10.0.0.0/8", "2020-01-01", ">1.5", "<2020-01-02", `("a",1,true,/b/,10.0.0.1)`, "><(1,2)", "exists", "null", "true")
}

// run makes the calls on a new matcher; start is given the bodies to run.
func (p *plan) run(start func([]func())) *sharedEvent {
	m, _, _ := newMatcher(p.q)
	ev := &sharedEvent{K: "shared", Zero: p.zero, Calls: []*call{}}
	var clock atomic.Int64
	var bodies []func()
	for _, cs := range p.callers {
		mine := make([]*call, len(cs))
		for i, c := range cs {
			cp := *c
			mine[i] = &cp
			ev.Calls = append(ev.Calls, &cp)
		}
		bodies = append(bodies, func() {
			for _, c := range mine {
				c.Inv = clock.Add(1)
				if c.Kind == "match" {
					c.R = match(m, []byte(c.text))
				} else {
					c.St = readStats(m)
				}
				c.Ret = clock.Add(1)
			}
		})
	}
	start(bodies)
	ev.Final = readStats(m)
	return ev
}

type schedSummary struct {
	schedules, steps, blocked int
}

// driveConc runs scenarios under many schedules and records each different
// history once.
func driveConc(g *Gen, o *Out, n int) {
	var sum schedSummary
	for sc := 0; sc < n; sc++ {
		callers := []int{2, 2, 3}[g.n(3)]
		p := g.sharedPlan(callers, 2, 3)
		seen := map[string]bool{}
		how := func(name string, choose func(step, last int, ready []int) int) (steps int) {
			o.mark(p.q, p.callers[0][0].text)
			ev := p.run(func(bodies []func()) {
				r := sched.Run(bodies, choose)
				if r.Deadlock {
					fmt.Fprintln(os.Stderr, "deadlock in", p.q)
					os.Exit(4)
				}
				steps = r.Steps
				sum.schedules++
				sum.steps += r.Steps
				sum.blocked += r.Blocked
			})
			b, _ := json.Marshal(ev)
			if !seen[string(b)] {
				seen[string(b)] = true
				o.add(ev, ev.side(p, name))
			}
			return
		}
		// one after the other
		total := how("in turn", func(_, last int, ready []int) int {
			if last >= 0 {
				return last
			}
			return ready[0]
		})
		// every single preemption, many pairs
		preempt := func(at map[int]int) func(step, last int, ready []int) int {
			return func(step, last int, ready []int) int {
				if k, ok := at[step]; ok {
					return ready[k%len(ready)]
				}
				if last >= 0 {
					return last
				}
				return ready[0]
			}
		}
		limit := 220
		for s := 0; s <= total && limit > 0; s++ {
			for k := 0; k < callers; k++ {
				if total*callers > limit && !g.pct(100*limit/(total*callers+1)) {
					continue
				}
				how(fmt.Sprint("switch at ", s), preempt(map[int]int{s: k}))
			}
		}
		for k := 0; k < 120; k++ {
			at := map[int]int{}
			for j := g.rng(2, 4); j > 0; j-- {
				at[g.n(total+1)] = g.n(callers)
			}
			how(fmt.Sprint("switches ", at), preempt(at))
		}
		for k := 0; k < 60; k++ {
			stay := g.n(100)
			how("random", func(_, last int, ready []int) int {
				if last >= 0 && g.pct(stay) {
					return last
				}
				return ready[g.n(len(ready))]
			})
		}
		if sum.blocked > 300 {
			// the code blocks; the schedules are not ours to choose
			break
		}
	}
	fmt.Printf("SUMMARY {\"schedules\": %d, \"scheduled_steps\": %d, \"blocked\": %d}\n", sum.schedules, sum.steps, sum.blocked)
}

func (ev *sharedEvent) side(p *plan, how string) map[string]any {
	var cs []string
	for _, c := range ev.Calls {
		s := fmt.Sprintf("%d-%d %s", c.Inv, c.Ret, c.Kind)
		if c.Kind == "match" {
			s += " " + c.text + " = " + c.R
			if c.R != c.Alone {
				s += " (alone " + c.Alone + ")"
			}
		} else {
			b, _ := json.Marshal(c.St)
			s += " = " + string(b)
		}
		cs = append(cs, s)
	}
	return map[string]any{"query": p.q, "schedule": how, "calls": cs, "final": ev.Final}
}

// driveStress lets goroutines loose on one matcher.
func driveStress(g *Gen, o *Out, n int) {
	for o.n < n {
		callers := []int{2, 4, 8, 16}[g.n(4)]
		p := g.sharedPlan(callers, 6, 5)
		o.mark(p.q, "stress")
		ev := p.run(func(bodies []func()) {
			var wg sync.WaitGroup
			var gate sync.WaitGroup
			gate.Add(1)
			for _, b := range bodies {
				wg.Add(1)
				go func(b func()) {
					defer wg.Done()
					gate.Wait()
					b()
				}(b)
			}
			gate.Done()
			wg.Wait()
		})
		o.add(ev, ev.side(p, "free"))
	}
	// many rounds of the same, only totals recorded
	for k := 0; k < n/20+1; k++ {
		p := g.sharedPlan(runtime.NumCPU(), 1, 4)
		driveRounds(p, o, 300)
	}
}

// driveRounds repeats the calls of each caller and records the sums.
func driveRounds(p *plan, o *Out, rounds int) {
	m, _, _ := newMatcher(p.q)
	ev := &sharedEvent{K: "shared", Zero: p.zero, Calls: []*call{}}
	var wg sync.WaitGroup
	for _, cs := range p.callers {
		for _, c := range cs {
			if c.Kind != "match" {
				continue
			}
			cp := *c
			cp.R = cp.Alone
			cp.One = times(cp.One, rounds)
			cp.Ret = 1
			ev.Calls = append(ev.Calls, &cp)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < rounds; i++ {
					if r := match(m, []byte(cp.text)); r != cp.Alone {
						cp.R = r
					}
				}
			}()
		}
	}
	wg.Wait()
	ev.Final = readStats(m)
	o.add(ev, ev.side(p, fmt.Sprint(rounds, " rounds")))
}

func times(t statTree, k int) statTree {
	out := statTree{Nm: t.Nm, C: t.C * int64(k), M: t.M * int64(k), Ch: []statTree{}}
	for _, c := range t.Ch {
		out.Ch = append(out.Ch, times(c, k))
	}
	return out
}
