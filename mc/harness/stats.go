package main

import (
	"reflect"
	"sort"

	pc "github.com/weedbox/pokercompetition"
	pt "github.com/weedbox/pokertable"
)

// The statistics a hand reports, by pattern: 0 nothing; 1..nFields the k-th
// field alone for the first participant and all but the k-th for the others;
// then folds by street, walks that are none or one, and combination strengths.
var nStatFields = reflect.TypeOf(pt.TablePlayerGameStatistics{}).NumField()

const nStatExtra = 14

func statPatterns() int { return nStatFields + nStatExtra + 1 }

func setField(g *pt.TablePlayerGameStatistics, k int) {
	f := reflect.ValueOf(g).Elem().Field(k)
	switch f.Kind() {
	case reflect.Bool:
		f.SetBool(true)
	case reflect.Int:
		f.SetInt(int64(k + 2))
	case reflect.String:
		f.SetString("turn")
	}
}

func (w *World) stats(t *STable, o *Outcome, k int) {
	if k == 0 {
		return
	}
	s := t.T.State
	parts := []string{}
	bb := ""
	for _, i := range s.GamePlayerIndexes {
		p := s.PlayerStates[i]
		parts = append(parts, p.PlayerID)
		if p.Seat == s.CurrentBBSeat {
			bb = p.PlayerID
		}
	}
	sort.Strings(parts)
	st := map[string]pt.TablePlayerGameStatistics{}
	o.Power, o.Type, o.Cards = map[string]int{}, map[string]string{}, map[string][]string{}
	for i, p := range parts {
		st[p] = pt.NewPlayerGameStatistics()
		o.Power[p], o.Type[p], o.Cards[p] = 5, "t"+p, []string{p, "S1"}
		if k <= nStatFields {
			g := st[p]
			for f := 0; f < nStatFields; f++ {
				if (f == k-1) == (i == 0) {
					setField(&g, f)
				}
			}
			st[p] = g
		}
	}
	upd := func(p string, fn func(g *pt.TablePlayerGameStatistics)) { g := st[p]; fn(&g); st[p] = g }
	fold := func(p, r string) {
		upd(p, func(g *pt.TablePlayerGameStatistics) { g.IsFold = true; g.FoldRound = r })
	}
	act := func(p string, n int) { upd(p, func(g *pt.TablePlayerGameStatistics) { g.ActionTimes = n }) }
	last := parts[len(parts)-1]
	switch x := k - nStatFields - 1; {
	case x < 0:
	case x < 4:
		fold(parts[0], []string{"preflop", "flop", "turn", "river"}[x])
		fold(last, []string{"turn", "preflop", "river", "flop"}[x])
	case x < 8: // everyone but the big blind folds; the big blind has acted 0, 1 or 2 times; or one folds later
		for i, p := range parts {
			if p == bb {
				continue
			}
			r := "preflop"
			if x == 7 && i == len(parts)-1 {
				r = "flop"
			}
			fold(p, r)
		}
		act(bb, []int{0, 1, 2, 0}[x-4])
	case x < 10: // everyone but the first folds
		for _, p := range parts[1:] {
			fold(p, "preflop")
		}
		act(parts[0], x-8)
	case x == 10:
		for i, p := range parts {
			o.Power[p] = 5 + i
		}
	case x == 11:
		for i, p := range parts {
			o.Power[p] = 4 - i
		}
	case x == 12:
		for i, p := range parts {
			o.Power[p] = i
		}
	default: // the same strength with other cards
		for _, p := range parts {
			o.Cards[p] = []string{p, "S2"}
		}
	}
	o.Stats = st
}

// famStats: two hands with every pattern of reported statistics.
func famStats() family {
	c := baseCfg(CT)
	c.Levels = []pc.BlindLevel{lv(1, 100000, true)}
	f := family{name: "stats-ct", cfg: c, quick: 3, deep: 5, drain: 1e9, weight: 2}
	f.setup = func(w *World) { startPlay(w, 3) }
	f.alpha = func(w *World) []Op {
		id := w.B.order[0]
		t := w.B.tables[id]
		if !t.playing() {
			if t.closed || t.released || ended(w.last.Status) {
				return nil
			}
			return []Op{{Kind: "hand", T: id}}
		}
		var o []Op
		n := len(t.T.State.GamePlayerIndexes)
		for k := 0; k < statPatterns(); k++ {
			for v := 0; v < n; v++ {
				o = append(o, Op{Kind: "settle", T: id, Arg: int64(v), Unit: k})
			}
			if k%5 == 0 {
				o = append(o, Op{Kind: "settle", T: id, Arg: int64(n + 1), Unit: k}, Op{Kind: "settle", T: id, Arg: int64(2 * n), Unit: k})
			}
		}
		return o
	}
	return f
}
