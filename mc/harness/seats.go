package main

import (
	pc "github.com/weedbox/pokercompetition"
)

// -------- C20: seats in a multi-table tournament --------

// monSeats: at rest, every player with chips sits at exactly the open table
// the competition names, or waits for one and sits nowhere; nobody sits at two
// tables or takes a seat that is taken; and nobody who waits is overlooked for
// more than two settled hands of a table that has a free seat.
func monSeats(w *World, s *Step) {
	b := s.Post
	for _, m := range w.B.BadJoin {
		w.X.Fail("join", "%v: %s", s.Op, m)
	}
	if w.Cfg.Mode != MTT || ended(b.Status) || len(w.open) > 0 || !w.activated() {
		return
	}
	at := map[string]*TSnap{}
	free := map[string]bool{}
	for i := range b.Back {
		t := &b.Back[i]
		if t.Status == "table_closed" {
			continue
		}
		seats := map[int]string{}
		for _, p := range t.Players {
			if o := at[p.ID]; o != nil && p.Bank > 0 {
				w.X.Fail("two-tables", "%v: %s sits at table %s and at table %s", s.Op, p.ID, o.ID, t.ID)
			}
			at[p.ID] = t
			if o, ok := seats[p.Seat]; ok {
				w.X.Fail("two-in-a-seat", "%v: %s and %s share seat %d of table %s", s.Op, o, p.ID, p.Seat, t.ID)
			}
			seats[p.Seat] = p.ID
		}
		if len(t.Players) > w.Cfg.Seats {
			w.X.Fail("overfull", "%v: table %s has %d players for %d seats", s.Op, t.ID, len(t.Players), w.Cfg.Seats)
		}
		free[t.ID] = len(t.Players) < w.Cfg.Seats
	}
	idle, _ := w.Memo["idle"].(map[string]map[string]int)
	next := map[string]map[string]int{}
	for i := range b.Players {
		p := &b.Players[i]
		t := at[p.PlayerID]
		if p.Chips <= 0 {
			continue
		}
		switch p.Status {
		case psPlay:
			if t == nil {
				w.X.Fail("unseated", "%v: %s is playing with %d chips but has no seat", s.Op, p.PlayerID, p.Chips)
			}
			if p.CurrentTableID != t.ID {
				w.X.Fail("table", "%v: %s sits at table %s but the competition names %q", s.Op, p.PlayerID, t.ID, p.CurrentTableID)
			}
			if x := t.has(p.PlayerID); x.Seat != p.CurrentSeat {
				w.X.Fail("seat", "%v: %s has seat %d but the competition names %d", s.Op, p.PlayerID, x.Seat, p.CurrentSeat)
			}
		case psWait:
			if t != nil {
				w.X.Fail("waiting-seated", "%v: %s is waiting for a table but sits at %s", s.Op, p.PlayerID, t.ID)
			}
			if p.CurrentTableID != "" || p.CurrentSeat != -1 {
				w.X.Fail("waiting-table", "%v: %s is waiting for a table but is listed at %q seat %d", s.Op, p.PlayerID, p.CurrentTableID, p.CurrentSeat)
			}
			n := map[string]int{}
			for id, f := range free {
				if f {
					n[id] = idle[p.PlayerID][id]
				}
			}
			if st := settledIn(w, s); st != nil && free[st.ID] {
				n[st.ID]++
				if n[st.ID] > 2 {
					w.X.Fail("overlooked", "%v: %s has been waiting for a table although table %s had a free seat after each of its last %d hands", s.Op, p.PlayerID, st.ID, n[st.ID])
				}
			}
			next[p.PlayerID] = n
		default:
			w.X.Fail("status", "%v: %s has %d chips but is %s", s.Op, p.PlayerID, p.Chips, p.Status)
		}
	}
	w.Memo["idle"] = next
}

// famTables is a tournament at several small tables.
func famTables(name string, n, seats, regMin, final int, past int64) family {
	c := baseCfg(MTT)
	c.Seats = seats
	c.Min = n
	c.RegMin = regMin
	c.Final = final
	c.Levels = []pc.BlindLevel{lv(1, 60, true), lv(2, 1000, true)}
	f := family{name: name, cfg: c, quick: 4, deep: 7, drain: 60e9, weight: 2}
	f.setup = func(w *World) {
		startPlay(w, n)
		if past > 0 {
			w.Pass(past)
		}
	}
	f.alpha = func(w *World) []Op {
		var o []Op
		for _, id := range w.B.order {
			t := w.B.tables[id]
			if t.playing() {
				k := len(t.T.State.GamePlayerIndexes)
				// one wins a little; one is out; one takes everything
				o = append(o, Op{Kind: "settle", T: id, Arg: 0}, Op{Kind: "settle", T: id, Arg: int64(k)})
				if k > 2 {
					o = append(o, Op{Kind: "settle", T: id, Arg: int64(2 * k)})
				}
			} else if !t.closed && !t.released && !ended(w.last.Status) {
				o = append(o, Op{Kind: "hand", T: id})
			}
		}
		if st := w.last.Status; st == stDelayed {
			o = append(o, buyin(30, 700))
			for p := 0; p < n; p++ {
				if q := w.last.P(pname(p)); q != nil && q.Chips == 0 && q.Status == psRebuy {
					o = append(o, buyin(p, 500))
					break
				}
			}
		}
		return append(o, Op{Kind: "sit"}, passMs(20000))
	}
	return f
}

func tableFams() []family {
	return []family{
		famTables("two-tables", 5, 3, 2, 1, 0),
		famTables("two-tables-late", 6, 4, 2, 0, 70e9),
		famTables("two-full", 6, 3, 2, 1, 0),
		famTables("full-wait", 6, 3, 3, 1, 0),
		famTables("three-tables-late", 7, 3, 2, 0, 70e9),
		famMany("many-late", 0),
	}
}
