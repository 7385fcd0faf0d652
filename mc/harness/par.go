package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/vrt"
)

// parFam: a set-up, then a small set of operations (and timers) at the same
// time under every interleaving within the deviation bound.
type parFam struct {
	name  string
	cfg   Cfg
	pre   func(w *World)
	setup func(w *World)
	sets  [][]Op
	quick int
	deep  int
	lin   bool // the outcome must be that of some order of the operations
	after func(w *World, res []parRes)
	drain int64
	mons  []Mon
	wt    int
	code  string
}

func fire() Op { return Op{Kind: "fire"} }

func (f parFam) prepare(w *World, ops []Op) {
	if f.pre != nil {
		f.pre(w)
	}
	if f.setup != nil {
		f.setup(w)
	}
	for _, o := range ops {
		if o.Kind == "fire" {
			// just before the next timer, in the same second
			if n := w.S.NextTimer(); n > w.S.Now()+1e6 {
				w.Pass(n - 1e6 - w.S.Now())
			}
			w.S.SetNow(w.S.NextTimer())
		}
	}
}

func (f parFam) scen(tier string, mons ...Mon) *Scenario {
	b := f.quick
	if tier == "thorough" {
		b = f.deep
	}
	name := f.name
	return &Scenario{Name: name, Budget: b, Fine: true, Weight: f.wt, Code: f.code, Run: func(x *Exec) {
		ops := f.sets[x.Choose(len(f.sets))]
		w := newWorld(x, f.cfg, append(append([]Mon{}, f.mons...), mons...)...)
		f.prepare(w, ops)
		x.Logf("at the same time: %v", ops)
		res := w.Par(ops...)
		if f.lin {
			got := w.proj(res)
			ok := false
			exp := f.sequential(ops)
			for _, e := range exp {
				ok = ok || e == got
			}
			if !ok {
				x.Fail("order:"+kinds(ops), "the outcome of %v at the same time is that of no order of them.\n got   %s\n order %s", ops, got, strings.Join(exp, "\n order "))
			}
		}
		if f.after != nil {
			f.after(w, res)
		}
		d := f.drain
		if d == 0 {
			d = 120e9
		}
		w.drain(d)
	}}
}

func kinds(ops []Op) string {
	var k []string
	for _, o := range ops {
		k = append(k, o.Kind)
	}
	return strings.Join(k, "+")
}

// proj is the observable outcome of the last step: who holds what, totals,
// what the tables look like, what they were asked, and the results.
func (w *World) proj(res []parRes) string {
	var b strings.Builder
	rs := append([]parRes{}, res...)
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].Op.String() < rs[j].Op.String() })
	var errs []string
	for _, r := range rs {
		errs = append(errs, fmt.Sprintf("%s=%v", r.Op, r.Err))
	}
	// equal operations are interchangeable
	sort.Strings(errs)
	fmt.Fprintf(&b, "%v|", errs)
	s := w.Snapshot()
	ps := append(s.Players[:0:0], s.Players...)
	sort.Slice(ps, func(i, j int) bool { return ps[i].PlayerID < ps[j].PlayerID })
	fmt.Fprintf(&b, "%s lvl=%d stat=%+v rank=%v adv=%v|", s.Status, s.Lvl, s.Stat, s.Rankings, s.Adv)
	for i := range ps {
		ps[i].CompetitionRank = 0
		fmt.Fprintf(&b, "%+v;", ps[i])
	}
	for _, t := range s.Back {
		q := append(t.Players[:0:0], t.Players...)
		sort.Slice(q, func(i, j int) bool { return q[i].ID < q[j].ID })
		fmt.Fprintf(&b, "|%s %s g%d %v", t.ID, t.Status, t.GameCount, q)
	}
	var calls []string
	st := w.Steps[len(w.Steps)-1]
	for _, e := range st.Evs {
		switch e.Kind {
		case "call":
			calls = append(calls, fmt.Sprintf("%s(%s,%s,%d,%v,%v)", e.Name, e.Table, e.Player, e.Chips, e.List, e.Leave))
		case "cashout", "rank":
			calls = append(calls, fmt.Sprintf("%s(%s,%d,%d)", e.Kind, e.Player, e.Chips, e.Rank))
		case "error":
			calls = append(calls, "error("+e.Name+")")
		}
	}
	sort.Strings(calls)
	fmt.Fprintf(&b, "|%v", calls)
	return b.String()
}

var seqMemo = map[string][]string{}

// sequential computes the outcomes of every order of ops.
func (f parFam) sequential(ops []Op) []string {
	key := fmt.Sprint(f.name, ops)
	if r, ok := seqMemo[key]; ok {
		return r
	}
	save := vrt.R
	defer func() { vrt.R = save }()
	var out []string
	seen := map[string]bool{}
	for _, ord := range perms(len(ops)) {
		sc := &Scenario{Name: f.name + "-seq", Run: func(x *Exec) {
			w := newWorld(x, f.cfg)
			f.prepare(w, ops)
			res := make([]parRes, len(ops))
			pos := w.evPos
			last := w.last
			var tm *vrt.Timer
			for _, o := range ops {
				if o.Kind == "fire" {
					tm = w.S.NextT()
				}
			}
			for _, i := range ord {
				if ops[i].Kind == "fire" {
					res[i] = parRes{Op: ops[i], Done: true}
					w.S.FireT(tm)
					w.S.Run()
					w.check()
					continue
				}
				res[i].Op = ops[i]
				p := w.launch(ops[i], &res[i].Ret, &res[i].Err)
				w.S.Run()
				w.check()
				for !p.th.Done() && w.S.FireOne() {
					w.S.Run()
					w.check()
				}
				res[i].Done = true
			}
			w.evPos, w.last = pos, last
			w.end(Op{Kind: "par"}, nil, true, "")
			p := w.proj(res)
			if !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}}
		runOne(sc, "", "", nil, map[uint64]struct{}{}, false)
	}
	seqMemo[key] = out
	return out
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for k := 0; k <= len(p); k++ {
			q := append([]int{}, p[:k]...)
			q = append(q, n-1)
			q = append(q, p[k:]...)
			out = append(out, q)
		}
	}
	return out
}
