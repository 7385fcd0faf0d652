package main

import "fmt"

// A family is a set-up followed by every sequence of operations, up to a depth,
// from an alphabet that depends on the state; then all remaining timers run.
type family struct {
	name   string
	cfg    Cfg
	setup  func(w *World)
	alpha  func(w *World) []Op
	quick  int // depth
	deep   int
	drain  int64
	budget int
	gap    int64 // time between operations
	onlyQ  bool
	weight int
	mons   []Mon
	pre    func(w *World) // before the competition's first step (stub settings)
	post   func(w *World) // after draining
}

func (f family) scen(tier string, mons ...Mon) *Scenario {
	depth := f.quick
	if tier == "thorough" {
		depth = f.deep
	}
	name := fmt.Sprintf("%s-%d", f.name, depth)
	if tier == "thorough" {
		name += "t"
	}
	return &Scenario{Name: f.name, Budget: f.budget, Weight: f.weight, Run: func(x *Exec) {
		w := newWorld(x, f.cfg, append(append([]Mon{}, f.mons...), mons...)...)
		if f.pre != nil {
			f.pre(w)
		}
		if f.setup != nil {
			f.setup(w)
		}
		for i := 0; i < depth; i++ {
			ops := f.alpha(w)
			k := x.Choose(len(ops) + 1)
			if k == 0 {
				break
			}
			if f.gap > 0 {
				w.Pass(f.gap)
				// time passed: an operation may no longer be possible
				if !w.possible(ops[k-1]) {
					continue
				}
			}
			w.Do(ops[k-1])
		}
		d := f.drain
		if d == 0 {
			d = 1500e9
		}
		w.drain(d)
		if f.post != nil {
			f.post(w)
		}
	}}
}

// possible: the precondition of an operation holds (settle needs a hand, an
// add-on a seat).
func (w *World) possible(o Op) bool {
	switch o.Kind {
	case "settle", "settlew":
		t := w.B.tables[o.T]
		return t != nil && t.playing() && len(w.open) == 0
	case "dup":
		t := w.B.tables[o.T]
		return t != nil && t.lastSet != nil && t.T.State.GameCount == t.lastSet.State.GameCount
	case "addon":
		if ended(w.last.Status) {
			return true
		}
		return w.seatedAt(pname(o.P)) == o.T
	case "quit":
		return !w.inHand(pname(o.P))
	}
	return true
}

func (w *World) seatedAt(id string) string {
	for _, t := range w.last.Back {
		if p := t.has(id); p != nil && p.Bank > 0 {
			return t.ID
		}
	}
	return ""
}

func (w *World) inHand(id string) bool {
	for _, k := range w.B.order {
		t := w.B.tables[k]
		if t.closed || t.released {
			continue
		}
		for _, i := range t.T.State.GamePlayerIndexes {
			if t.T.State.PlayerStates[i].PlayerID == id {
				return true
			}
		}
	}
	return false
}

// settles: representative endings of the running hands.
func settles(w *World, all bool) []Op {
	var o []Op
	for _, id := range w.B.order {
		t := w.B.tables[id]
		if !t.playing() {
			continue
		}
		n := len(t.T.State.GamePlayerIndexes)
		vs := []int{0, n, 2*n + n - 1}
		if all {
			vs = nil
			for i := 0; i < 3*n; i++ {
				vs = append(vs, i)
			}
		}
		if n == 2 {
			vs = []int{0, 2, 3}
		}
		for _, v := range vs {
			o = append(o, Op{Kind: "settle", T: id, Arg: int64(v)})
		}
	}
	return o
}

func tick() Op           { return Op{Kind: "tick"} }
func passMs(ms int64) Op { return Op{Kind: "pass", Arg: ms} }

// live players by id index
func (w *World) has(p int) bool { return w.last.P(pname(p)) != nil }

func addonOps(w *World, ps ...int) []Op {
	var o []Op
	for _, p := range ps {
		if id := w.seatedAt(pname(p)); id != "" {
			o = append(o, Op{Kind: "addon", P: p, T: id, Arg: 500, Unit: 1 + p})
		}
	}
	return o
}

// --- registration ---

func regAlpha(w *World) []Op {
	o := []Op{buyin(0, 1000), buyin(1, 900), buyin(2, 1100), {Kind: "buyin", P: 3, Arg: 1000, Unit: 2}, {Kind: "refund", P: 0}, {Kind: "refund", P: 1}, {Kind: "sit"}}
	switch w.Cfg.Mode {
	case Cash:
		o = append(o, Op{Kind: "cashout", P: 0})
	case MTT:
		o = append(o, Op{Kind: "start"})
	}
	return append(o, tick(), Op{Kind: "close", Arg: 1}, Op{Kind: "buyin", P: 0, Arg: 0, Unit: 1}, Op{Kind: "refund", P: 9})
}

func famReg(mode pcMode) family {
	c := baseCfg(mode)
	c.Min = 2
	if mode == Cash {
		c.Final = -2
		c.RebuyMax = 9
	}
	if mode == MTT {
		c.Min = 3
		c.Seats = 4
	}
	return family{name: "reg-" + string(mode), cfg: c, alpha: regAlpha, quick: 5, deep: 7, gap: 1e9, drain: 1500e9, weight: 2}
}

// --- playing ---

func playAlpha(w *World) []Op {
	o := settles(w, false)
	o = append(o, tick())
	id := "t0"
	if w.Cfg.Mode == MTT {
		id = ""
		for _, k := range w.B.order {
			if !w.B.tables[k].closed {
				id = k
				break
			}
		}
	}
	if t := w.B.tables[id]; t != nil && !t.playing() && !ended(w.last.Status) {
		o = append(o, Op{Kind: "hand", T: id})
		if w.possible(Op{Kind: "dup", T: id}) {
			o = append(o, Op{Kind: "dup", T: id})
		}
	}
	o = append(o, Op{Kind: "buyin", P: 3, Arg: 700, Unit: 2}, Op{Kind: "buyin", P: 0, Arg: 600, Unit: 3})
	o = append(o, addonOps(w, 0, 1)...)
	if ended(w.last.Status) {
		for p := 0; p < 2; p++ {
			if w.has(p) {
				o = append(o, Op{Kind: "addon", P: p, T: id, Arg: 500, Unit: 1})
			}
		}
	}
	o = append(o, Op{Kind: "refund", P: 1}, Op{Kind: "cashout", P: 1, T: id})
	if w.Cfg.Mode == Cash {
		o = append(o, Op{Kind: "cashout", P: 0, T: id})
	}
	if w.Cfg.Mode == CT && w.has(0) && !w.inHand(pname(0)) && w.last.B(id).has(pname(0)) != nil {
		o = append(o, Op{Kind: "quit", P: 0, T: id})
	}
	return append(o, passMs(18000), Op{Kind: "close", Arg: 0})
}

func startPlay(w *World, n int) {
	w.seed(n, 1000)
	if w.Cfg.Mode == MTT {
		w.Do(Op{Kind: "start"})
		w.joinAll()
	}
	if !w.Until(60e9, func() bool { return w.anyPlaying() != "" }) {
		w.X.Fail("no-hand", "no hand is opened although enough players are seated")
	}
}

func famPlay(mode pcMode) family {
	c := baseCfg(mode)
	c.Seats = 4
	c.Min = 3
	if mode == Cash {
		c.Final = -2
		c.RebuyMax = 9
	}
	return family{name: "play-" + string(mode), cfg: c, setup: func(w *World) { startPlay(w, 3) }, alpha: playAlpha, quick: 4, deep: 6, gap: 1e9, weight: 3}
}

// --- a player is busted ---

func famLate(mode pcMode) family {
	f := famPlay(mode)
	f.name = "late-" + string(mode)
	f.setup = func(w *World) {
		startPlay(w, 3)
		id := w.anyPlaying()
		w.Do(Op{Kind: "settle", T: id, Arg: 3})
	}
	return f
}

// --- close to the end of buying in ---

func famStop(mode pcMode) family {
	f := famPlay(mode)
	f.name = "stop-" + string(mode)
	f.cfg.Final = 0
	f.setup = func(w *World) {
		startPlay(w, 3)
		id := w.anyPlaying()
		w.Pass(80e9)
		w.Do(Op{Kind: "settle", T: id, Arg: 3})
		w.Pass(3e9)
	}
	return f
}

// modes × families
func fams(tier string, mons []Mon, fs ...family) []*Scenario {
	var o []*Scenario
	for _, f := range fs {
		o = append(o, f.scen(tier, mons...))
	}
	return o
}

func allFams() []family {
	return []family{famReg(CT), famReg(MTT), famReg(Cash), famPlay(CT), famPlay(MTT), famPlay(Cash),
		famLate(CT), famLate(MTT), famLate(Cash), famStop(CT), famStop(MTT)}
}

// every family
func everyFam() []family {
	return append(append(append(allFams(), moreFams()...), tableFams()...), sweepFams()...)
}
