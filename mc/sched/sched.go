// Package sched is a cooperative scheduler for systematic exploration: the
// threads of a harness run one at a time, and at every scheduling point the
// explorer decides who goes on.  The instrumenter puts a point before every
// statement of the package under test; package vsync puts one at every
// synchronisation operation.
package sched

import (
	"fmt"
	"runtime/debug"
)

type thread struct {
	id      int
	resume  chan bool
	done    bool
	blocked func() bool // reports whether it can go on now
	result  string
	panic   string
}

// step is one decision with more than one possibility.
type step struct {
	enabled int  // how many could run
	cost    bool // whether choosing anybody but the first is a preemption
}

type run struct {
	threads []*thread
	cur     *thread
	prefix  []int
	choices []int
	steps   []step
	fine    bool
	end     chan string
	over    string
	points  int
	limit   int

	fairAfter int
}

var active *run

// Point is a scheduling point before a statement that the coarse mode skips.
func Point() {
	if active != nil && active.fine {
		active.yield()
	}
}

// Shared is a scheduling point before a statement near shared variables.
func Shared() {
	if active != nil {
		active.yield()
	}
}

// Wait blocks the running thread until ready reports true.
func Wait(ready func() bool) {
	r := active
	if r == nil {
		if !ready() {
			panic("waits for ever: nobody else runs")
		}
		return
	}
	t := r.cur
	for !ready() {
		t.blocked = ready
		r.yield()
		t.blocked = nil
	}
}

// Active says whether threads are being explored.
func Active() bool { return active != nil }

type stop struct{}

func (r *run) yield() {
	t := r.cur
	r.points++
	if r.points > r.limit {
		r.finish("no end after " + fmt.Sprint(r.limit) + " steps (livelock)")
		panic(stop{})
	}
	n := r.choose(t)
	if n == nil {
		r.finish("deadlock: every thread waits")
		panic(stop{})
	}
	if n == t {
		return
	}
	r.cur = n
	n.resume <- true
	if !<-t.resume {
		panic(stop{})
	}
}

func (t *thread) enabled() bool { return !t.done && (t.blocked == nil || t.blocked()) }

func (r *run) choose(t *thread) *thread {
	first := t != nil && t.enabled()
	n := 0
	if first {
		n++
	}
	for _, o := range r.threads {
		if o != t && o.enabled() {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if r.points > r.fairAfter {
		// somebody may be waiting for another in a loop: from here on by turns
		for i := 1; i <= len(r.threads); i++ {
			at := i
			if t != nil {
				at += t.id
			}
			if o := r.threads[at%len(r.threads)]; o.enabled() {
				return o
			}
		}
		return nil
	}
	k := 0
	if n > 1 {
		if i := len(r.choices); i < len(r.prefix) {
			k = r.prefix[i]
			if k >= n {
				r.finish("!diverged")
				panic(stop{})
			}
		}
		r.choices = append(r.choices, k)
		r.steps = append(r.steps, step{n, first})
	}
	if first {
		if k == 0 {
			return t
		}
		k--
	}
	for _, o := range r.threads {
		if o != t && o.enabled() {
			if k == 0 {
				return o
			}
			k--
		}
	}
	return nil
}

func (r *run) finish(why string) {
	if r.over == "" {
		r.over = why
	}
}

// Result is what one execution did.
type Result struct {
	Results []string
	Choices []int
	Bad     string // deadlock, livelock, panic
	Points  int
	steps   []step
}

// Execute runs the threads to the end under the choices of prefix, and the
// first possibility after that.
func Execute(prefix []int, fine bool, bodies []func() string) Result {
	r := &run{prefix: prefix, fine: fine, end: make(chan string, 1), limit: 8_000_000, fairAfter: 4_000_000}
	for i := range bodies {
		r.threads = append(r.threads, &thread{id: i, resume: make(chan bool, 1)})
	}
	finished := make(chan bool, len(bodies))
	for i, b := range bodies {
		t, b := r.threads[i], b
		go func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(stop); !ok {
						st := string(debug.Stack())
						if len(st) > 1500 {
							st = st[:1500]
						}
						t.panic = fmt.Sprintf("panic in thread %d: %v\n%s", t.id, p, st)
					}
				}
				t.done = true
				var n *thread
				if r.over == "" {
					func() {
						defer func() { recover() }()
						n = r.choose(t)
					}()
					if n == nil && r.over == "" {
						for _, o := range r.threads {
							if !o.done {
								r.finish("deadlock: every thread waits")
							}
						}
					}
				}
				if r.over != "" {
					n = nil
				}
				if n != nil {
					r.cur = n
					n.resume <- true
				} else {
					// everybody is done, or the execution is given up
					for _, o := range r.threads {
						if !o.done && o != t {
							o.done = true
							o.resume <- false
						}
					}
					select {
					case r.end <- "":
					default:
					}
				}
				finished <- true
			}()
			if !<-t.resume {
				panic(stop{})
			}
			t.result = b()
		}()
	}
	active = r
	func() {
		defer func() { recover() }()
		r.cur = r.choose(nil)
	}()
	if r.over == "" {
		r.cur.resume <- true
	} else {
		for _, t := range r.threads {
			t.done = true
			t.resume <- false
		}
	}
	for range bodies {
		<-finished
	}
	active = nil
	res := Result{Choices: r.choices, steps: r.steps, Bad: r.over, Points: r.points}
	for _, t := range r.threads {
		res.Results = append(res.Results, t.result)
		if t.panic != "" && res.Bad == "" {
			res.Bad = t.panic
		}
	}
	return res
}

// Explore runs every schedule with at most bound preemptions; run makes one
// execution from a fresh state, check returns what is wrong with it.
func Explore(bound, max int, run func(prefix []int) Result, check func(Result) bool) (executions int, capped bool) {
	var explore func(prefix []int) bool
	explore = func(prefix []int) bool {
		if executions >= max {
			capped = true
			return false
		}
		x := run(prefix)
		executions++
		if !check(x) {
			return false
		}
		cost := 0
		for i, s := range x.steps {
			if i >= len(prefix) {
				c := cost
				if s.cost {
					c++
				}
				if c <= bound {
					for alt := 1; alt < s.enabled; alt++ {
						p := make([]int, i+1)
						copy(p, x.Choices[:i])
						p[i] = alt
						if !explore(p) {
							return false
						}
					}
				}
			}
			if s.cost && x.Choices[i] != 0 {
				cost++
			}
		}
		return true
	}
	explore(nil)
	return
}
