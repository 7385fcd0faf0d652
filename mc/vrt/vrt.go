// Package vrt is the controlled runtime under which the instrumented copy of
// the code under test runs: cooperative threads (one runs at a time), a virtual
// clock with virtual timers, and choice points that an explorer resolves.
package vrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
)

// Choice kinds.
const (
	KOp    = "op"    // harness: which operation/argument comes next (free)
	KSched = "sched" // which thread runs next
	KTimer = "timer" // which of several timers due at the same instant fires first
	KMap   = "map"   // iteration order of a map
	KRand  = "rand"  // value of a random draw
)

// Chooser resolves a choice among n alternatives; alternative 0 is the default.
// cost is what picking a non-default alternative costs (deviations).
type Chooser func(kind string, n int, cost int) int

type thread struct {
	id   int
	name string
	wake chan struct{}
	cond func() bool // nil: runnable
	done bool
}

// Timer is a pending virtual timer.
type Timer struct {
	at   int64
	seq  int
	fn   func()
	dead bool
	Name string
}

// At returns the deadline in Unix nanoseconds.
func (t *Timer) At() int64 { return t.at }

// Sched is one execution.
type Sched struct {
	threads  []*thread
	cur      *thread
	switchTo *thread
	yield    chan struct{}
	now      int64
	timers   []*Timer
	seq      int
	Choose   Chooser
	Fine     bool // statement-level choice points on
	MapDev   bool // map iteration order is a choice
	Steps    int
	MaxStep  int
	Aborted  bool
	Over     bool // step budget exceeded
	spin     int  // scheduling points passed by the running thread
	Panics   []string
	Points   int
	randFn   func(kind string, n int64) int64
	uuid     int
	nthreads int
}

// R is the current execution (one per process at a time).
var R *Sched

// New installs a fresh execution.
func New(start int64, ch Chooser) *Sched {
	s := &Sched{yield: make(chan struct{}), now: start, Choose: ch, MaxStep: 400000}
	R = s
	return s
}

func (s *Sched) SetRand(fn func(kind string, n int64) int64) { s.randFn = fn }

// Now is the virtual time in Unix nanoseconds.
func (s *Sched) Now() int64 { return s.now }

// Go starts a new thread.
func (s *Sched) Go(name string, fn func()) *thread {
	s.nthreads++
	t := &thread{id: s.nthreads, name: name, wake: make(chan struct{})}
	s.threads = append(s.threads, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if !s.Aborted {
					s.Panics = append(s.Panics, fmt.Sprintf("%s: panic: %v\n%s", t.name, r, trimStack(debug.Stack())))
				}
			}
			t.done = true
			s.yield <- struct{}{}
		}()
		if s.Aborted {
			return
		}
		fn()
	}()
	return t
}

func trimStack(b []byte) string {
	if len(b) > 2500 {
		b = b[:2500]
	}
	return string(b)
}

func (s *Sched) runnable() []*thread {
	var out []*thread
	for _, t := range s.threads {
		if t.done {
			continue
		}
		if t.cond == nil || t.cond() {
			out = append(out, t)
		}
	}
	return out
}

func (s *Sched) resume(t *thread) {
	s.cur = t
	s.spin = 0
	t.cond = nil
	t.wake <- struct{}{}
	<-s.yield
	s.cur = nil
}

// Run runs threads until none is runnable (time does not pass).
func (s *Sched) Run() {
	var next *thread
	for {
		s.Steps++
		if s.Steps > s.MaxStep {
			s.Over = true
			return
		}
		rs := s.runnable()
		if len(rs) == 0 {
			// compact finished threads now and then
			if len(s.threads) > 64 {
				live := s.threads[:0]
				for _, t := range s.threads {
					if !t.done {
						live = append(live, t)
					}
				}
				s.threads = live
			}
			return
		}
		next = rs[0]
		if len(rs) > 1 && s.Fine {
			next = rs[s.Choose(KSched, len(rs), 1)]
		}
		s.resume(next)
		for s.switchTo != nil {
			t := s.switchTo
			s.switchTo = nil
			s.resume(t)
		}
		if len(s.Panics) > 0 {
			return
		}
	}
}

// Live reports the names of unfinished threads.
func (s *Sched) Live() []string {
	var out []string
	for _, t := range s.threads {
		if !t.done {
			out = append(out, t.name)
		}
	}
	return out
}

// Done reports whether thread t finished.
func (t *thread) Done() bool { return t.done }

// Thread is an exported handle.
type Thread = thread

// Abort kills all unfinished threads.
func (s *Sched) Abort() {
	s.Aborted = true
	for {
		var t *thread
		for _, x := range s.threads {
			if !x.done {
				t = x
				break
			}
		}
		if t == nil {
			break
		}
		t.wake <- struct{}{}
		<-s.yield
	}
	s.timers = nil
}

func (s *Sched) park(t *thread) {
	s.yield <- struct{}{}
	<-t.wake
	if s.Aborted {
		runtime.Goexit()
	}
}

// Block parks the running thread until cond holds.
func Block(cond func() bool) {
	s := R
	if s == nil || s.Aborted {
		return
	}
	t := s.cur
	if t == nil {
		if !cond() {
			panic("vrt: harness thread would block")
		}
		return
	}
	for !cond() {
		t.cond = cond
		s.park(t)
	}
}

// Point is a scheduling point.
const spinMax = 200000

func Point() {
	s := R
	if s == nil || s.Aborted || s.cur == nil {
		return
	}
	if s.spin++; s.spin > spinMax {
		// this thread runs on and on
		s.Over = true
		Block(func() bool { return false })
		return
	}
	if !s.Fine {
		return
	}
	s.Points++
	t := s.cur
	rs := s.runnable()
	if len(rs) <= 1 {
		return
	}
	// canonical order: the running thread first, then ascending ids
	c := s.Choose(KSched, len(rs), 1)
	if c == 0 {
		return
	}
	k := 0
	var target *thread
	for _, x := range rs {
		if x == t {
			continue
		}
		k++
		if k == c {
			target = x
			break
		}
	}
	s.switchTo = target
	t.cond = nil
	s.park(t)
}

// Go is what a go statement becomes.
func Go(fn func()) {
	s := R
	if s == nil {
		panic("vrt: go outside an execution")
	}
	if s.Aborted {
		return
	}
	s.Go("go", fn)
	Point()
}

// AddTimer registers a virtual timer; fn runs in the scheduler's context and
// must only flip state or start threads.
func AddTimer(at int64, name string, fn func()) *Timer {
	s := R
	s.seq++
	t := &Timer{at: at, seq: s.seq, fn: fn, Name: name}
	if !s.Aborted {
		s.timers = append(s.timers, t)
	}
	return t
}

// StopTimer removes a timer; it reports whether it was pending.
func StopTimer(t *Timer) bool {
	s := R
	if t == nil || t.dead {
		return false
	}
	t.dead = true
	for i, x := range s.timers {
		if x == t {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			return true
		}
	}
	return false
}

// NextTimer returns the earliest deadline, or -1.
func (s *Sched) NextTimer() int64 {
	best := int64(-1)
	for _, t := range s.timers {
		if best < 0 || t.at < best {
			best = t.at
		}
	}
	return best
}

// FireOne advances the clock to the earliest deadline and fires one timer due then.
func (s *Sched) FireOne() bool {
	at := s.NextTimer()
	if at < 0 {
		return false
	}
	if at > s.now {
		s.now = at
	}
	var due []*Timer
	for _, t := range s.timers {
		if t.at <= s.now {
			due = append(due, t)
		}
	}
	sort.Slice(due, func(i, j int) bool {
		if due[i].at != due[j].at {
			return due[i].at < due[j].at
		}
		return due[i].seq < due[j].seq
	})
	i := 0
	if len(due) > 1 {
		n := 0
		for n < len(due) && due[n].at == due[0].at {
			n++
		}
		if n > 1 {
			i = s.Choose(KTimer, n, 1)
		}
	}
	t := due[i]
	StopTimer(t)
	t.fn()
	return true
}

// SetNow moves the clock without firing anything.
func (s *Sched) SetNow(at int64) {
	if at > s.now {
		s.now = at
	}
}

// NextT is the timer that FireOne would fire by default (nil: none).
func (s *Sched) NextT() *Timer {
	var b *Timer
	for _, t := range s.timers {
		if b == nil || t.at < b.at || (t.at == b.at && t.seq < b.seq) {
			b = t
		}
	}
	return b
}

// FireT fires t if it is still pending, moving the clock to its deadline.
func (s *Sched) FireT(t *Timer) bool {
	if t == nil || t.dead {
		return false
	}
	if t.at > s.now {
		s.now = t.at
	}
	StopTimer(t)
	t.fn()
	return true
}

// AdvanceTo moves the clock to at, firing every timer due on the way and
// running threads to quiescence after each.
func (s *Sched) AdvanceTo(at int64, each func()) {
	for len(s.Panics) == 0 && !s.Over {
		n := s.NextTimer()
		if n < 0 || n > at {
			break
		}
		s.FireOne()
		s.Run()
		if each != nil {
			each()
		}
	}
	if at > s.now {
		s.now = at
	}
}

// Fatal reports a harness error: the check gives no answer.
func Fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vrt: "+format+"\n", a...)
	os.Exit(3)
}

// NextName names the earliest pending timer.
func (s *Sched) NextName() string {
	var b *Timer
	for _, t := range s.timers {
		if b == nil || t.at < b.at || (t.at == b.at && t.seq < b.seq) {
			b = t
		}
	}
	if b == nil {
		return ""
	}
	return b.Name
}
