// Package sched runs goroutines one at a time and lets the caller choose, at
// every point at which one of them calls Yield, which one continues.
package sched

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type arrival struct {
	id   int
	done bool
}

type thread struct {
	id   int
	wake chan struct{}
}

var (
	active  atomic.Bool
	threads sync.Map // goroutine id -> *thread
	arrived chan arrival
)

func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// Yield is a point at which another goroutine may be chosen to continue. It
// does nothing in goroutines that are not under control.
func Yield() {
	if !active.Load() {
		return
	}
	v, ok := threads.Load(goid())
	if !ok {
		return
	}
	t := v.(*thread)
	arrived <- arrival{t.id, false}
	<-t.wake
}

// Result says how a run went.
type Result struct {
	Steps    int  // times a goroutine was let go on
	Blocked  int  // times one did not come back on its own
	Deadlock bool // nothing went on any more
}

// Run runs the bodies. choose is given the step, the one that ran last (-1 at
// the start, or if it is done or blocked) and those that can go on.
func Run(bodies []func(), choose func(step, last int, ready []int) int) (res Result) {
	arrived = make(chan arrival, len(bodies)*4+4)
	ts := make([]*thread, len(bodies))
	state := make([]int, len(bodies)) // 0 ready, 1 away, 2 done
	active.Store(true)
	defer active.Store(false)
	for i := range bodies {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		ts[i] = t
		started := make(chan struct{})
		go func(body func()) {
			g := goid()
			threads.Store(g, t)
			close(started)
			<-t.wake
			body()
			threads.Delete(g)
			arrived <- arrival{t.id, true}
		}(bodies[i])
		<-started
	}
	last, left := -1, len(bodies)
	note := func(a arrival) {
		state[a.id] = 0
		if a.done {
			state[a.id] = 2
			left--
		}
	}
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	wait := func(d time.Duration) (arrival, bool) {
		timer.Reset(d)
		select {
		case a := <-arrived:
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
			return a, true
		case <-timer.C:
			return arrival{}, false
		}
	}
	for left > 0 {
		var ready []int
		for i, s := range state {
			if s == 0 {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			a, ok := wait(20 * time.Second)
			if !ok {
				res.Deadlock = true
				return
			}
			note(a)
			continue
		}
		if last >= 0 && state[last] != 0 {
			last = -1
		}
		next := choose(res.Steps, last, ready)
		res.Steps++
		state[next] = 1
		last = next
		ts[next].wake <- struct{}{}
		for {
			d := 30 * time.Millisecond
			a, ok := wait(d)
			if !ok {
				res.Blocked++
				break
			}
			note(a)
			if a.id == next {
				break
			}
		}
	}
	return
}
