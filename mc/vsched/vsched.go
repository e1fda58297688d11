// Package vsched runs functions as threads of which only one executes at a
// time. The threads call Point where another one may be scheduled; which one
// is, is decided by the caller of Run.
package vsched

import (
	"runtime/debug"
	"sync/atomic"
	"time"
)

const (
	off   = iota
	sched // one thread at a time
	free  // threads run freely: the end of a schedule that cannot be controlled
)

var (
	mode  atomic.Int32
	s     *state
	epoch atomic.Int64
)

// Dev is a decision that is not the default one: at decision At, thread To goes on
type Dev struct{ At, To int }

// Span is a run of decisions with the same alternatives
type Span struct {
	From    int // first decision
	Running int
	Enabled uint // other threads that can go on
	Forced  bool // the running thread cannot go on
	Default int  // what is done without a Dev
}

// Exec is an execution
type Exec struct {
	Decisions int
	Spans     []Span
	Switches  int
	Deadlock  bool
	Freed     bool // not controlled to the end
	Diverged  bool // a Dev could not be applied
	Panics    []any
	Stacks    []string
}

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	waiting any
}

type state struct {
	ts   []*thread
	cur  int
	devs []Dev
	di   int
	next int // index of the decision of the next Dev
	n    int
	x    *Exec
	rec  bool
	mask uint // threads that can go on
	end  chan struct{}
	left atomic.Int32
	over bool // deadlock
}

// Point is a place where another thread may be scheduled
func Point() {
	if mode.Load() == sched {
		s.point()
	}
}

func (s *state) span(forced bool, def int) {
	if !s.rec {
		return
	}
	s.x.Spans = append(s.x.Spans, Span{s.n, s.cur, s.mask &^ (1 << s.cur), forced, def})
}

func (s *state) point() {
	at := s.n
	s.n++
	if at != s.next {
		return
	}
	to := s.devs[s.di].To
	s.advance()
	if to == s.cur || s.mask&(1<<to) == 0 {
		s.x.Diverged = true
		return
	}
	s.switchTo(to, true)
}

func (s *state) advance() {
	s.di++
	if s.di < len(s.devs) {
		s.next = s.devs[s.di].At
	} else {
		s.next = -1
	}
}

// switchTo lets another thread run; the caller waits for its turn if it stays
func (s *state) switchTo(to int, stays bool) {
	me := s.ts[s.cur]
	s.cur = to
	s.x.Switches++
	s.span(false, to)
	s.ts[to].wake <- struct{}{}
	if stays {
		<-me.wake
	}
}

// forced is the decision who is next when the running thread cannot go on.
// -1: nobody can
func (s *state) forced() int {
	def := -1
	for i := range s.ts {
		if s.mask&(1<<i) != 0 {
			def = i
			break
		}
	}
	if def < 0 {
		return -1
	}
	s.span(true, def)
	at := s.n
	s.n++
	if at == s.next {
		to := s.devs[s.di].To
		s.advance()
		if s.mask&(1<<to) != 0 {
			return to
		}
		s.x.Diverged = true
	}
	return def
}

// Block stops the running thread until Unblock is called for what. False:
// threads run freely, or nobody else could go on.
func Block(what any) bool {
	if mode.Load() != sched {
		return false
	}
	me := s.ts[s.cur]
	me.waiting = what
	s.mask &^= 1 << me.id
	to := s.forced()
	if to < 0 {
		s.x.Deadlock = true
		mode.Store(free)
		close(s.end)
		select {} // the goroutine is abandoned
	}
	s.switchTo(to, true)
	return true
}

// Unblock makes the threads that wait for what go on
func Unblock(what any) {
	if mode.Load() != sched {
		return
	}
	changed := false
	for _, t := range s.ts {
		if t.waiting == what && !t.done {
			t.waiting = nil
			s.mask |= 1 << t.id
			changed = true
		}
	}
	if changed {
		s.span(false, s.cur)
	}
}

// Active tells if threads are scheduled
func Active() bool { return mode.Load() == sched }

func init() {
	go func() {
		last, same := int64(0), 0
		for {
			time.Sleep(time.Second)
			e := epoch.Load()
			if e != last || mode.Load() != sched {
				last, same = e, 0
				continue
			}
			if same++; same >= 4 && mode.CompareAndSwap(sched, free) {
				// The running thread waits for something that is not ours
				st := s
				st.x.Freed = true
				for _, t := range st.ts {
					select {
					case t.wake <- struct{}{}:
					default:
					}
				}
			}
		}
	}()
}

// Run executes the bodies as threads, with the decisions of devs
func Run(bodies []func(), devs []Dev, record bool) *Exec {
	x := &Exec{Panics: make([]any, len(bodies)), Stacks: make([]string, len(bodies))}
	st := &state{devs: devs, next: -1, x: x, rec: record, end: make(chan struct{})}
	if len(devs) > 0 {
		st.next = devs[0].At
	}
	st.left.Store(int32(len(bodies)))
	epoch.Add(1)
	for i, f := range bodies {
		t := &thread{id: i, wake: make(chan struct{}, 2)}
		st.ts = append(st.ts, t)
		st.mask |= 1 << i
		job := func() { st.thread(t, f) }
		var w chan func()
		select {
		case w = <-idle:
		default:
			w = make(chan func())
			go worker(w)
		}
		w <- job
	}
	s = st
	st.cur = 0
	first := st.forced()
	st.cur = first
	st.span(false, first)
	mode.Store(sched)
	st.ts[first].wake <- struct{}{}
	<-st.end
	mode.Store(off)
	x.Decisions = st.n
	return x
}

// Explore runs all executions with at most bound switches away from a thread
// that could go on. mine tells which of the first decisions are this
// process's. check sees every execution; it returns false to stop.
func Explore(mk func() []func(), bound int, mine func(int) bool, check func(x *Exec, devs []Dev) bool) (runs int, ok bool) {
	return ExploreWith(func(devs []Dev) *Exec { return Run(mk(), devs, true) }, bound, mine, check)
}

// ExploreWith is Explore with the executions of run
func ExploreWith(run func(devs []Dev) *Exec, bound int, mine func(int) bool, check func(x *Exec, devs []Dev) bool) (runs int, ok bool) {
	var explore func(devs []Dev, cost int) bool
	explore = func(devs []Dev, cost int) bool {
		x := run(devs)
		runs++
		if !check(x, devs) {
			return false
		}
		if x.Deadlock || x.Freed || x.Diverged {
			return true
		}
		from := 0
		if len(devs) > 0 {
			from = devs[len(devs)-1].At + 1
		}
		for si, sp := range x.Spans {
			end := x.Decisions
			if si+1 < len(x.Spans) {
				end = x.Spans[si+1].From
			}
			if sp.Forced {
				end = sp.From + 1
			}
			c := cost
			if !sp.Forced {
				c++
			}
			if c > bound || sp.Enabled == 0 && !sp.Forced {
				continue
			}
			for at := max(sp.From, from); at < end; at++ {
				if len(devs) == 0 && !mine(at) {
					continue
				}
				for t := 0; 1<<t <= sp.Enabled|1<<uint(sp.Running); t++ {
					can := sp.Enabled&(1<<t) != 0
					if !can || t == sp.Default {
						continue
					}
					if !explore(append(devs[:len(devs):len(devs)], Dev{at, t}), c) {
						return false
					}
				}
			}
		}
		return true
	}
	return runs, explore(nil, 0)
}

// idle workers; their stacks are large already
var idle = make(chan chan func(), 64)

func worker(w chan func()) {
	for {
		f := <-w
		f()
		select {
		case idle <- w:
		default:
			return
		}
	}
}

func (st *state) thread(t *thread, f func()) {
	<-t.wake
	defer func() {
		if r := recover(); r != nil {
			st.x.Panics[t.id] = r
			st.x.Stacks[t.id] = string(debug.Stack())
		}
		t.done = true
		last := st.left.Add(-1) == 0
		if mode.Load() == sched && s == st {
			st.mask &^= 1 << t.id
			if !last {
				to := st.forced()
				if to < 0 {
					st.x.Deadlock = true
					mode.Store(free)
					close(st.end)
					return
				}
				st.switchTo(to, false)
				return
			}
		}
		if last {
			close(st.end)
		}
	}()
	f()
}
