package main

import (
	"fmt"

	pc "github.com/weedbox/pokercompetition"
	pt "github.com/weedbox/pokertable"
)

// afterEnd: a concurrent ending (C04).
func afterEnd(w *World, res []parRes) {
	closing := false
	for _, r := range res {
		closing = closing || r.Op.Kind == "close" || r.Op.Kind == "autoend" || r.Op.Kind == "closetable"
	}
	w.Pass(10e9)
	if closing && !ended(w.last.Status) {
		w.X.Fail("not-ended", "the competition was closed but its status is %s", w.last.Status)
	}
	n, _ := w.Memo["settled"].(int)
	if closing && n != 1 {
		w.X.Fail("announced", "the end was announced %d times", n)
	}
	if phase(w.Steps[0].Pre.Status) == 0 {
		return
	}
	pos := map[string]int{}
	for i, r := range w.last.Rankings {
		pos[r.PlayerID] = i + 1
	}
	for i := range w.last.Players {
		p := &w.last.Players[i]
		if p.Chips > 0 && len(w.last.Rankings) > 0 && pos[p.PlayerID] == 0 {
			w.X.Fail("unranked", "%s has chips but is missing from the final rankings %v", p.PlayerID, w.last.Rankings)
		}
	}
}

// monStart: the start happens once and in order (C05).
func monStart(w *World, s *Step) {
	c, _ := w.Memo["starts"].(map[string]int)
	if c == nil {
		c = map[string]int{}
		w.Memo["starts"] = c
	}
	for _, e := range s.Evs {
		switch {
		case e.Kind == "state" && (e.Name == pc.CompetitionStateEvent_Started || e.Name == pc.CompetitionStateEvent_BlindActivated):
			c[e.Name]++
			if c[e.Name] > 1 {
				w.X.Fail("twice:"+e.Name, "%v: %s was announced for the %dth time", s.Op, e.Name, c[e.Name])
			}
			if w.Cfg.Mode != MTT && e.Name == pc.CompetitionStateEvent_BlindActivated && c[pc.CompetitionStateEvent_Started] == 0 {
				w.X.Fail("order", "%v: the blinds began before the competition was started", s.Op)
			}
		case e.Kind == "call" && e.Name == "UpdateBlind":
			c["blind"]++
		case e.Kind == "call" && e.Name == "StartTableGame":
			c["game "+e.Table]++
			if c["game "+e.Table] > 1 {
				w.X.Fail("game-twice", "%v: the game of table %s was started for the %dth time", s.Op, e.Table, c["game "+e.Table])
			}
			if c["blind"] == 0 {
				w.X.Fail("no-blinds", "%v: table %s was started before it was given blinds", s.Op, e.Table)
			}
		case e.Kind == "call" && e.Name == "SetUpTableGame" || e.Kind == "open":
			if w.Cfg.Mode != MTT && c["game "+e.Table] == 0 {
				w.X.Fail("early-hand", "%v: a hand at %s before its game was started", s.Op, e.Table)
			}
		}
	}
	if w.Cfg.Mode == MTT {
		return
	}
	b := s.Post
	// ready: enough players in their seats and the start time reached
	in := 0
	for _, t := range b.Back {
		for _, p := range t.Players {
			if p.In && p.Bank > 0 {
				in++
			}
		}
	}
	begun := c[pc.CompetitionStateEvent_BlindActivated] > 0
	seen, _ := w.Memo["enough"].(bool)
	if in >= w.Cfg.Min {
		seen = true
		w.Memo["enough"] = true
	}
	if begun && !seen {
		w.X.Fail("early", "%v: the game began with %d players in their seats, %d are needed", s.Op, in, w.Cfg.Min)
	}
	manual, _ := w.Memo["manual"].(bool)
	if s.Op.Kind == "start" && s.Err == nil {
		manual = true
		w.Memo["manual"] = true
	}
	if s.Op.Kind == "par" {
		for _, r := range w.lastPar {
			if r.Op.Kind == "start" && r.Err == nil {
				manual = true
				w.Memo["manual"] = true
			}
		}
	}
	at := int64(0)
	if w.Cfg.StartIn != 0 && w.Cfg.Mode == CT && !manual {
		at = T0/1e9 + w.Cfg.StartIn
	}
	if begun && sec(b.Now) < at {
		w.X.Fail("before-time", "%v: the game began at %d, its start time is %d", s.Op, sec(b.Now), at)
	}
	if in >= w.Cfg.Min && b.Now > at*1e9 && !ended(b.Status) && !begun && b.Status == stReg {
		w.X.Fail("not-started", "%v: %d players are in their seats (%d needed) and the start time has come, but the game does not begin", s.Op, in, w.Cfg.Min)
	}
	if begun && !ended(b.Status) && c["game t0"] == 0 {
		w.X.Fail("no-game", "%v: the blinds run but the table's game was not started", s.Op)
	}
}

// monBegin: a multi-table tournament starts by hand or at its time, begins with
// enough players, and has no tables before (C33); monStart counts the starts.
func monBegin(w *World, s *Step) {
	monStart(w, s)
	// the first hand of a table
	if s.Op.Kind != "par" {
		for i, e := range s.Evs {
			if e.Kind != "ready" {
				continue
			}
			n := 0
			for _, g := range s.Evs[i+1:] {
				if g.Kind == "call" && g.Name == "SetUpTableGame" && g.Table == e.Table {
					n++
					if g.Rank != e.Rank || fmt.Sprint(g.List) != fmt.Sprint(e.List) {
						w.X.Fail("first-hand", "%v: table %s is ready for hand %d of %v, but hand %d of %v was set up", s.Op, e.Table, e.Rank, e.List, g.Rank, g.List)
					}
				}
			}
			if n != 1 {
				w.X.Fail("first-hand-times", "%v: table %s is ready for its first hand, which was set up %d times", s.Op, e.Table, n)
			}
		}
	}
	if w.Cfg.Mode != MTT {
		return
	}
	a, b := s.Pre, s.Post
	c := w.Memo["starts"].(map[string]int)
	now := len(s.evs("state", pc.CompetitionStateEvent_Started)) > 0
	started := c[pc.CompetitionStateEvent_Started] > 0
	begun := c[pc.CompetitionStateEvent_BlindActivated] > 0
	at := int64(-1)
	if w.Cfg.StartIn != 0 {
		at = T0/1e9 + w.Cfg.StartIn
	}
	if now && s.Op.Kind != "start" && s.Op.Kind != "par" && (at < 0 || s.T1 != at*1e9) {
		w.X.Fail("by-itself", "%v: the tournament was started at %.2f s, its start time is %d s", s.Op, float64(s.T1-T0)/1e9, w.Cfg.StartIn)
	}
	if s.Op.Kind == "start" && s.Done && (s.Err == nil) != now {
		w.X.Fail("start-result", "%v returned %v, but a start was announced: %v", s.Op, s.Err, now)
	}
	if s.Op.Kind == "start" && s.Done && s.Err != nil && a.Status == stReg && c[pc.CompetitionStateEvent_Started] == 0 {
		w.X.Fail("start-refused", "%v was refused (%v) although the tournament was not started yet", s.Op, s.Err)
	}
	if at > 0 && b.Now > at*1e9 && b.Status == stReg && !started {
		w.X.Fail("not-started", "the start time has come %d s ago but the tournament is not started", b.Now/1e9-at)
	}
	if ended(b.Status) {
		return
	}
	if !begun && started && len(b.Players) >= w.Cfg.Min {
		w.X.Fail("not-begun", "%v: the tournament is started and has %d players (%d needed), but its blinds do not run", s.Op, len(b.Players), w.Cfg.Min)
	}
	if len(s.evs("state", pc.CompetitionStateEvent_BlindActivated)) > 0 && (len(b.Players) < w.Cfg.Min || len(calls(s, "StartTableGame")) > 0) {
		w.X.Fail("early", "%v: the tournament began with %d players, %d are needed", s.Op, len(b.Players), w.Cfg.Min)
	}
	if !begun && (len(b.Back) > 0 || len(b.Tables) > 0 || b.Status != stReg) {
		w.X.Fail("before", "%v: the tournament has not begun but is %s and has %d tables", s.Op, b.Status, len(b.Back))
	}
	if begun && phase(b.Status) == 0 {
		w.X.Fail("status", "%v: the blinds run but the tournament is %s", s.Op, b.Status)
	}
	if len(calls(s, "StartTableGame")) > 0 && s.Op.Kind != "tick" {
		w.X.Fail("start-game", "%v: the tournament started a table's game by itself", s.Op)
	}
}

// monTable: a tournament that has begun has a table for its players.
func monTable(w *World, s *Step) {
	b := s.Post
	if w.Cfg.Mode == MTT && w.activated() && !ended(b.Status) && len(w.open) == 0 && b.alive() >= w.Cfg.RegMin && len(b.Back) == 0 {
		w.X.Fail("no-table", "%v: the tournament has begun and %d players have chips (%d make a table), but there is no table", s.Op, b.alive(), w.Cfg.RegMin)
	}
}

// afterStart: once started a hand comes up.
func afterStart(w *World, res []parRes) {
	in := func() int {
		n := 0
		for _, t := range w.last.Back {
			for _, p := range t.Players {
				if p.In && p.Bank > 0 {
					n++
				}
			}
		}
		return n
	}
	if w.Cfg.Mode == MTT {
		w.joinAll()
		w.Pass(30e9)
		c, _ := w.Memo["starts"].(map[string]int)
		if len(w.last.Players) >= w.Cfg.Min {
			if c[pc.CompetitionStateEvent_BlindActivated] == 0 {
				w.X.Fail("mtt-not-begun", "the tournament was started with %d players (%d needed) but does not begin", len(w.last.Players), w.Cfg.Min)
			}
			checkSeated(w)
		}
		return
	}
	w.Pass(5e9)
	if in() >= w.Cfg.Min && w.last.Status == stReg && w.Cfg.StartIn == 0 {
		w.X.Fail("not-started", "enough players are seated but the game does not begin")
	}
	if in() >= 2 && !ended(w.last.Status) && w.last.Status != stReg {
		if !w.untilPlaying("t0", 25e9) {
			w.X.Fail("no-hand", "the game was started with %d players in their seats but no hand is opened", in())
		}
	}
}

// checkSeated: every tournament player with chips sits at one table.
func checkSeated(w *World) {
	s := w.last
	for i := range s.Players {
		p := &s.Players[i]
		if p.Chips == 0 {
			continue
		}
		n := 0
		for _, t := range s.Back {
			if t.has(p.PlayerID) != nil {
				n++
				if p.CurrentTableID != t.ID {
					w.X.Fail("table", "%s sits at table %s but the competition names %q", p.PlayerID, t.ID, p.CurrentTableID)
				}
			}
		}
		if n != 1 {
			w.X.Fail("seated", "%s (%s, %d chips) sits at %d tables", p.PlayerID, p.Status, p.Chips, n)
		}
	}
}

// monOnce: every settled hand is booked once (C11).
func monOnce(w *World, s *Step) {
	monSettledTold(w, s)
	if s.Op.Kind != "par" && s.Op.Kind != "settle" && s.Op.Kind != "dup" && s.Op.Kind != "tick" && s.Op.Kind != "pass" {
		return
	}
	if len(w.open) > 0 || ended(s.Post.Status) {
		return
	}
	b := s.Post
	played := map[string]int64{}
	for _, id := range w.B.order {
		t := w.B.tables[id]
		n := len(t.Opens)
		if t.playing() {
			n--
		}
		for _, o := range t.Opens[:n] {
			for _, p := range o.Parts {
				played[p]++
			}
		}
	}
	base, _ := w.Memo["gone"].(map[string]int64)
	if base == nil {
		base = map[string]int64{}
		w.Memo["gone"] = base
	}
	for i := range b.Players {
		p := &b.Players[i]
		if p.TotalGameCounts != played[p.PlayerID]-base[p.PlayerID] {
			w.X.Fail("games", "%v: %s took part in %d settled hands but %d are booked", s.Op, p.PlayerID, played[p.PlayerID]-base[p.PlayerID], p.TotalGameCounts)
		}
		for _, t := range b.Back {
			if tp := t.has(p.PlayerID); tp != nil && tp.Bank != p.Chips {
				w.X.Fail("chips", "%v: %s holds %d chips at the table but %d in the competition", s.Op, p.PlayerID, tp.Bank, p.Chips)
			}
		}
	}
	for id := range played {
		if b.P(id) == nil {
			base[id] = played[id]
		}
	}
	seen := map[string]bool{}
	for _, r := range b.Rankings {
		if seen[r.PlayerID] {
			w.X.Fail("ranked-twice", "%v: %s is ranked twice: %v", s.Op, r.PlayerID, b.Rankings)
		}
		seen[r.PlayerID] = true
	}
	c := map[string]int{}
	for _, e := range s.Evs {
		if e.Kind == "rank" || e.Kind == "cashout" {
			k := fmt.Sprint(e.Kind, " ", e.Player)
			c[k]++
			if c[k] > 1 {
				w.X.Fail("event-twice", "%v: %s was announced twice", s.Op, k)
			}
		}
	}
	monStat(w, s)
}

var _ = pt.TableStateStatus_TablePausing

// monWaiting: a table that is paused or has not played yet, may play and has
// enough players who sit at it with chips does not stay idle. (Between hands the
// table itself goes on, or does not.)
func monWaiting(w *World, s *Step) {
	if w.Cfg.Mode == "" || w.B.real != nil {
		return
	}
	idle, _ := w.Memo["idle"].(map[string]int64)
	if idle == nil {
		idle = map[string]int64{}
		w.Memo["idle"] = idle
	}
	b := s.Post
	brk := b.Lvl < 0 || b.Lvl >= len(w.Cfg.Levels) || w.Cfg.Levels[b.Lvl].Level == -1
	for _, id := range w.B.order {
		t := w.B.tables[id]
		in := 0
		for _, p := range t.T.State.PlayerStates {
			if p.IsIn && p.Bankroll > 0 {
				in++
			}
		}
		if t.closed || t.released || t.paused || t.T.State.Status == "table_game_standby" || t.playing() || brk || !w.activated() || ended(b.Status) || in < w.Cfg.TableMin || in < 2 || len(w.open) > 0 || b.Adv.Status == pc.CompetitionAdvanceStatus_End {
			delete(idle, id)
			continue
		}
		if _, ok := idle[id]; !ok {
			idle[id] = b.Now
		}
		if d := b.Now - idle[id]; d > 15e9 {
			w.X.Fail("idle", "table %s (%s, hand %d) has %d players with chips in their seats and may play, but has been idle for %d s", id, t.T.State.Status, t.T.State.GameCount, in, d/1e9)
		}
	}
}

// famBreakTables: a second table opens in the break of a tournament.
func famBreakTables() family {
	c := baseCfg(MTT)
	c.Seats = 3
	c.Min = 3
	c.RegMin = 2
	c.Final = -2
	c.Levels = []pc.BlindLevel{lv(1, 30, true), lv(-1, 25, true), lv(2, 20, true), lv(-1, 10, false), lv(3, 1000, true)}
	f := family{name: "break-tables", cfg: c, quick: 5, deep: 7, drain: 120e9, weight: 2}
	f.setup = func(w *World) {
		startPlay(w, 3)
		w.Pass(25e9 - (w.S.Now() - T0))
	}
	f.alpha = func(w *World) []Op {
		var o []Op
		for _, id := range w.B.order {
			if w.B.tables[id].playing() {
				o = append(o, Op{Kind: "settle", T: id, Arg: 0})
			}
		}
		for p := 3; p < 6; p++ {
			if !w.has(p) {
				o = append(o, buyin(p, 700))
				break
			}
		}
		return append(o, tick(), passMs(10000), passMs(17000), Op{Kind: "sit"})
	}
	return f
}

// monSettledTold: every settled hand is announced as settled, once.
func monSettledTold(w *World, s *Step) {
	n, _ := w.Memo["told"].(int)
	n += len(s.evs("state", pc.CompetitionStateEvent_TableGameSettled))
	w.Memo["told"] = n
	hands := 0
	for _, id := range w.B.order {
		t := w.B.tables[id]
		hands += len(t.Opens)
		if t.playing() {
			hands--
		}
	}
	last, _ := w.Memo["hands"].([2]int64)
	if int64(hands) != last[0] {
		last = [2]int64{int64(hands), s.Post.Now}
		w.Memo["hands"] = last
	}
	if ended(s.Post.Status) || len(w.open) > 0 {
		return
	}
	if n > hands || n < hands && s.Post.Now-last[1] > 1e9 {
		w.X.Fail("announced", "%v: %d hands were settled, but %d were announced as settled", s.Op, hands, n)
	}
}
