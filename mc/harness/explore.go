package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verif/vrt"
)

// Choice is one resolved choice of an execution.
type Choice struct {
	N    int
	Cost int
	C    int
}

// item is a prefix to run: the choices of a parent up to (not including)
// position len, then alternative last.
type item struct {
	parent []uint16 // shared, never mutated
	n      int      // how many choices of parent
	last   int      // alternative at position n; -1: none (root)
	level  int      // choices that differ from the default
}

// Viol is one violation.
type Viol struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Code     string   `json:"code"`
	Msg      string   `json:"message"`
	Path     []uint16 `json:"path"`
	Log      []string `json:"history,omitempty"`
	Tier     string   `json:"tier,omitempty"`
}

func (v Viol) Sig() string { return v.Prop + "/" + v.Scenario + "/" + v.Code }

// Scenario is one bounded family of executions.
type Scenario struct {
	Name   string
	Budget int // deviations from the default schedule
	MapDev bool
	Fine   bool   // informational
	Slow   bool   // executions take long: split the work early
	Weight int    // share of the time budget
	Code   string // every violation carries this code (scenarios with a known defect)
	Run    func(x *Exec)
}

// Exec is one execution of a scenario.
type Exec struct {
	Tier    string
	Prop    string
	Scen    string
	S       *vrt.Sched
	prefix  []uint16
	pos     int
	trace   []Choice
	free    int
	diverge bool
	Log     []string
	Verbose bool
	viol    *Viol
	states  map[uint64]struct{}
	steps   int
	mapDev  bool
	w       *World
}

type stopExec struct{}

func (x *Exec) choose(kind string, n, cost int) int {
	c := 0
	if x.pos < len(x.prefix) {
		c = int(x.prefix[x.pos])
		if c >= n {
			x.diverge = true
			c = 0
		}
	}
	x.pos++
	x.trace = append(x.trace, Choice{N: n, Cost: cost, C: c})
	return c
}

// Choose is a free harness choice among n alternatives.
func (x *Exec) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return x.choose(vrt.KOp, n, 0)
}

// Fail records a violation and ends the execution.
func (x *Exec) Fail(code, format string, a ...any) {
	if x.viol == nil {
		x.viol = &Viol{Prop: x.Prop, Scenario: x.Scen, Code: code, Msg: fmt.Sprintf(format, a...)}
	}
	panic(stopExec{})
}

func (x *Exec) Logf(format string, a ...any) {
	if x.Verbose {
		x.Log = append(x.Log, fmt.Sprintf(format, a...))
	}
}

// State registers the current abstract state (for the coverage count).
func (x *Exec) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	x.states[h.Sum64()] = struct{}{}
	x.steps++
}

func runOne(sc *Scenario, prop, tier string, prefix []uint16, states map[uint64]struct{}, verbose bool) (x *Exec) {
	x = &Exec{Prop: prop, Scen: sc.Name, Tier: tier, prefix: prefix, states: states, Verbose: verbose, mapDev: sc.MapDev}
	x.S = vrt.New(T0, x.choose)
	x.S.MapDev = sc.MapDev
	if old := current.Load(); old == nil {
		current.Store(x)
		defer current.Store(nil)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopExec); !ok {
					fmt.Fprintf(os.Stderr, "harness panic in %s/%s path %v: %v\n%s\n", prop, sc.Name, prefix, r, debug.Stack())
					os.Exit(3)
				}
			}
		}()
		sc.Run(x)
	}()
	if x.viol == nil && len(x.S.Panics) > 0 {
		x.viol = &Viol{Prop: prop, Scenario: sc.Name, Code: "panic:" + panicSite(x.S.Panics[0]), Msg: x.S.Panics[0]}
	}
	if x.viol == nil && x.S.Over {
		x.viol = &Viol{Prop: prop, Scenario: sc.Name, Code: "livelock", Msg: "an execution does not come to rest"}
	}
	if x.viol != nil && sc.Code != "" {
		x.viol.Msg = x.viol.Code + ": " + x.viol.Msg
		x.viol.Code = sc.Code
	}
	x.S.Abort()
	return x
}

func panicSite(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 100 {
		s = s[:100]
	}
	return strings.ReplaceAll(s, " ", "_")
}

// ScenRes is what one worker found in one scenario.
type ScenRes struct {
	Name       string
	Execs      int
	Trans      int
	Points     int
	Divergent  int
	Flaky      int
	MaxDepth   int
	Exhaustive bool
	Complete   int // non-default choices up to which everything was run
	Fine       bool
	Budget     int
	Wall       float64
	Viols      []Viol
	Sample     []uint16
}

func (it *item) path() []uint16 {
	if it.last < 0 {
		return nil
	}
	p := make([]uint16, it.n+1)
	copy(p, it.parent[:it.n])
	p[it.n] = uint16(it.last)
	return p
}

// explorer enumerates every execution of a scenario within its bounds; shard k of n.
type explorer struct {
	sc             *Scenario
	prop, tier     string
	shard, nshards int
	states         map[uint64]struct{}
	res            ScenRes
	seen           map[string]bool
	queue          []item   // the common beginning, breadth first
	levels         [][]item // after the split: by number of non-default choices
	pending        int
	expanded       int
	split          bool
}

// maxPending bounds the memory: beyond it the deepest items go first.
const maxPending = 1_500_000

func (e *explorer) push(it item) {
	if !e.split {
		e.queue = append(e.queue, it)
		return
	}
	for len(e.levels) <= it.level {
		e.levels = append(e.levels, nil)
	}
	e.levels[it.level] = append(e.levels[it.level], it)
	e.pending++
}

// next takes the item to run: least non-default choices first.
func (e *explorer) next() (item, bool) {
	if !e.split {
		if len(e.queue) == 0 {
			return item{}, false
		}
		it := e.queue[0]
		e.queue = e.queue[1:]
		return it, true
	}
	if e.pending == 0 {
		return item{}, false
	}
	k := -1
	for i, l := range e.levels {
		if len(l) > 0 {
			k = i
			if e.pending < maxPending {
				break
			}
		}
	}
	l := e.levels[k]
	it := l[len(l)-1]
	e.levels[k] = l[:len(l)-1]
	e.pending--
	return it, true
}

// complete: every execution with at most this many non-default choices was run.
func (e *explorer) complete() int {
	for i, l := range e.levels {
		if len(l) > 0 {
			return i - 1
		}
	}
	if len(e.queue) > 0 {
		m := e.queue[0].level
		for _, it := range e.queue {
			if it.level < m {
				m = it.level
			}
		}
		return m - 1
	}
	return -1
}

func newExplorer(sc *Scenario, prop, tier string, shard, nshards int, states map[uint64]struct{}) *explorer {
	return &explorer{sc: sc, prop: prop, tier: tier, shard: shard, nshards: nshards, states: states,
		res: ScenRes{Name: sc.Name, Fine: sc.Fine, Budget: sc.Budget}, seen: map[string]bool{}, queue: []item{{last: -1}}}
}

const bfsExecs = 400

// run goes on until the enumeration is complete or time is up; it reports
// completion. The breadth-first beginning is the same in every shard, so that
// all of them split the same queue.
func (e *explorer) run(until time.Time) bool {
	t0 := time.Now()
	defer func() { e.res.Wall += time.Since(t0).Seconds() }()
	res, sc := &e.res, e.sc
	for {
		if !e.split && (e.expanded >= bfsExecs || e.sc.Slow && e.expanded >= bfsExecs/5 || len(e.queue) >= 4000) {
			e.split = true
			for i, it := range e.queue {
				if i%e.nshards == e.shard {
					e.push(it)
				}
			}
			e.queue = nil
		}
		if time.Now().After(until) || e.expanded%16 == 0 && stopped() {
			res.Complete = e.complete()
			return false
		}
		it, ok := e.next()
		if !ok {
			break
		}
		prefix := it.path()
		count := e.split || e.shard == 0
		st := e.states
		if !count {
			st = map[uint64]struct{}{}
		}
		x := runOne(sc, e.prop, e.tier, prefix, st, false)
		e.expanded++
		if count {
			res.Execs++
			res.Trans += x.steps
			res.Points += x.S.Points
			if len(x.trace) > res.MaxDepth {
				res.MaxDepth = len(x.trace)
			}
		}
		if x.diverge || len(x.trace) < len(prefix) {
			if count {
				res.Divergent++
			}
			continue
		}
		full := make([]uint16, len(x.trace))
		for i, c := range x.trace {
			full[i] = uint16(c.C)
		}
		if count && e.shard == 0 && len(full) >= len(res.Sample) && x.viol == nil && res.Execs%7 == 1 {
			res.Sample = full
		}
		if x.viol != nil && x.viol.Code == "assign-loop" && strings.HasPrefix(sc.Name, "fault-") && strings.HasPrefix(e.prop, "C") && e.prop != "C32" {
			continue // C32 reports it
		}
		if x.viol != nil && count && !e.seen[x.viol.Sig()] {
			e.seen[x.viol.Sig()] = true
			v := *x.viol
			ok := true
			for k := 0; k < 3; k++ {
				y := runOne(sc, e.prop, e.tier, full, map[uint64]struct{}{}, k == 2)
				if y.viol == nil || y.viol.Sig() != v.Sig() {
					ok = false
					break
				}
				v.Log = y.Log
			}
			v.Path = full
			v.Tier = e.tier
			if ok {
				res.Viols = append(res.Viols, v)
				if stopFile != "" && v.Code != "assign-loop" {
					_ = os.WriteFile(stopFile, []byte(v.Sig()), 0o644)
				}
			} else {
				res.Flaky++
			}
		}
		// spent by the prefix
		spent, level := 0, 0
		for i := 0; i < len(x.trace); i++ {
			c := x.trace[i]
			if i >= len(prefix) {
				for a := 1; a < c.N; a++ {
					if spent+c.Cost <= sc.Budget {
						e.push(item{parent: full, n: i, last: a, level: level + 1})
					}
				}
			}
			if c.C != 0 {
				spent += c.Cost
				level++
			}
		}
	}
	res.Exhaustive = true
	return true
}

// WorkerOut is a worker's result file.
type WorkerOut struct {
	Scens []ScenRes
}

// watch ends a worker whose execution neither ends nor passes a scheduling
// point, or eats the memory: that execution is a violation.
func watch(prop, tier, out string) {
	var last *Exec
	var since time.Time
	for {
		time.Sleep(100 * time.Millisecond)
		x := current.Load()
		if x != last {
			last, since = x, time.Now()
			continue
		}
		if x == nil {
			continue
		}
		var m runtime.MemStats
		long := time.Since(since) > 40*time.Second
		if !long && time.Since(since) > time.Second {
			runtime.ReadMemStats(&m)
		}
		if !long && m.HeapAlloc < 2<<30 {
			continue
		}
		v := Viol{Prop: prop, Scenario: x.Scen, Code: "livelock", Msg: "an execution does not come to rest", Tier: tier}
		for _, c := range x.trace {
			v.Path = append(v.Path, uint16(c.C))
		}
		if out == "" {
			fmt.Fprintf(realOut, "VIOLATION property=%s\n  %s: %s\n", prop, v.Sig(), v.Msg)
			os.Exit(1)
		}
		b, _ := json.Marshal(WorkerOut{Scens: []ScenRes{{Name: x.Scen, Viols: []Viol{v}}}})
		_ = os.WriteFile(out+".states", nil, 0o644)
		_ = os.WriteFile(out, b, 0o644)
		os.Exit(0)
	}
}

// share is the scenario's part of the time; the many sweeps of settings get less.
func (s *Scenario) share() float64 {
	if strings.HasPrefix(s.Name, "sweep-") {
		return float64(s.Weight) / 5
	}
	return float64(s.Weight)
}

var current atomic.Pointer[Exec]

func worker(prop, tier string, shard, n int, dur time.Duration, out string) {
	go watch(prop, tier, out)
	p := findProp(prop)
	scens := p.Scens(tier)
	start := time.Now()
	var wo WorkerOut
	states := map[uint64]struct{}{}
	var todo []*explorer
	for _, s := range scens {
		if s.Weight == 0 {
			s.Weight = 1
		}
		todo = append(todo, newExplorer(s, prop, tier, shard, n, states))
	}
	all := todo
	// share the time by weight; what some do not need goes to the others
	for len(todo) > 0 && !stopped() && time.Since(start) < dur-dur/50 {
		total := 0.0
		for _, e := range todo {
			total += e.sc.share()
		}
		var rest []*explorer
		for _, e := range todo {
			left := time.Until(start.Add(dur))
			share := time.Duration(float64(left) * e.sc.share() / total)
			total -= e.sc.share()
			if !e.run(time.Now().Add(share)) {
				rest = append(rest, e)
			}
		}
		todo = rest
	}
	for _, e := range all {
		wo.Scens = append(wo.Scens, e.res)
	}
	b, _ := json.Marshal(wo)
	hb := make([]byte, 0, 8*len(states))
	for h := range states {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(out+".states", hb, 0o644); err != nil {
		vrt.Fatal("%v", err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		vrt.Fatal("%v", err)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
