package main

import (
	"fmt"
	"sort"
	"strings"

	pc "github.com/weedbox/pokercompetition"
	pt "github.com/weedbox/pokertable"
)

// -------- C02: creation --------

func createScen(mode pcMode, deep bool) *Scenario {
	return &Scenario{Name: "create-" + string(mode), Weight: 1, Run: func(x *Exec) {
		cfg := baseCfg(mode)
		cfg.Seats = 2
		w := bareWorld(x, cfg)
		w.last = w.Snapshot()
		// the moment of creation inside its second
		phases := []int64{0, 749_999_999}
		if d := phases[x.Choose(2)]; d > 0 {
			w.S.AdvanceTo(w.S.Now()+d, nil)
		}
		now := w.NowSec()
		past := func(t int64) bool { return t*1e9 < w.S.Now() } // an instant before now
		starts := []int64{-1, now - 1, now, now + 1, now + 30, 0, -2}
		disables := []int64{now + 60, now - 1, now, now + 1, 0}
		try := func(k int) bool {
			set := cfg.setting()
			set.CompetitionID = fmt.Sprintf("comp%d", k)
			set.StartAt = starts[x.Choose(len(starts))]
			set.DisableAt = disables[x.Choose(len(disables))]
			nt := x.Choose(3)
			if deep {
				set.Meta.Blind.FinalBuyInLevelIndex = []int{1, -1, -2}[x.Choose(3)]
				set.Meta.Blind.InitialLevel = []int{1, 2}[x.Choose(2)]
			}
			set.TableSettings = nil
			bad := set.StartAt != -1 && past(set.StartAt) || past(set.DisableAt)
			for i := 0; i < nt; i++ {
				ts := pc.TableSetting{TableID: fmt.Sprintf("t%d", i)}
				n := x.Choose(4)
				for j := 0; j < n; j++ {
					ts.JoinPlayers = append(ts.JoinPlayers, pt.JoinPlayer{PlayerID: fmt.Sprintf("q%d%d", i, j), RedeemChips: int64(1000 + 10*i + j), Seat: -1})
				}
				bad = bad || n > cfg.Seats
				set.TableSettings = append(set.TableSettings, ts)
			}
			evs := len(w.Evs)
			want := set.TableSettings
			var c *pc.Competition
			var err error
			w.thread("create", func() { c, err = w.CE.CreateCompetition(set) })
			what := fmt.Sprintf("mode %s, now %d, start %d, disable %d, tables %v", mode, now, set.StartAt, set.DisableAt, preset(want))
			x.State(what)
			if bad {
				if err == nil {
					x.Fail("accepted", "an invalid competition was created: %s", what)
				}
				if c != nil || w.CE.GetCompetition() != nil || len(w.Evs) != evs || len(w.B.tables) > 0 || w.S.NextTimer() >= 0 {
					x.Fail("leftover", "a refused creation left something behind: %s: competition %v, %d events, %d tables, timer %s", what, w.CE.GetCompetition() != nil, len(w.Evs)-evs, len(w.B.tables), w.S.NextName())
				}
				return false
			}
			if err != nil || c == nil {
				x.Fail("refused", "a valid competition was refused (%v): %s", err, what)
			}
			w.C = c
			if g := w.CE.GetCompetition(); g != c && (g == nil || g.ID != c.ID) {
				x.Fail("get", "the created competition is not the one reported: %s", what)
			}
			s := w.Snapshot()
			if c.ID != set.CompetitionID || s.Status != stReg || s.Lvl != -1 || len(s.Players) > 0 || len(s.Rankings) > 0 || s.Stat != (pc.Statistic{}) || s.StartAt != set.StartAt || s.EndAt != -1 || s.DisableAt != set.DisableAt || s.OpenAt != now || s.Adv.Status != pc.CompetitionAdvanceStatus_NotStart || s.Final != set.Meta.Blind.FinalBuyInLevelIndex {
				x.Fail("initial", "a new competition does not begin empty and registering: %s: %+v", what, s)
			}
			for _, e := range s.EndAts {
				if e != 0 {
					x.Fail("initial", "a new competition has level end times: %v", s.EndAts)
				}
			}
			if fmt.Sprint(c.Meta) != fmt.Sprint(set.Meta) {
				x.Fail("meta", "the competition's settings differ from the requested: %+v, %+v", c.Meta, set.Meta)
			}
			if mode == MTT {
				want = nil
			}
			if len(s.Tables) != len(want) || len(s.Back) != len(want) {
				x.Fail("tables", "%d tables listed and %d open, %d were requested: %s", len(s.Tables), len(s.Back), len(want), what)
			}
			for i, ts := range want {
				for _, t := range []*TSnap{&s.Tables[i], s.B(ts.TableID)} {
					if t == nil || t.ID != ts.TableID || len(t.Players) != len(ts.JoinPlayers) {
						x.Fail("tables", "table %s is %+v: %s", ts.TableID, t, what)
					}
					for _, p := range ts.JoinPlayers {
						if q := t.has(p.PlayerID); q == nil || q.Bank != p.RedeemChips {
							x.Fail("preset", "preset player %s of table %s is %+v", p.PlayerID, t.ID, q)
						}
					}
					if t.Blind != (pt.TableBlindState{Level: 0, Ante: -1, Dealer: -1, SB: -1, BB: -1}) {
						x.Fail("blind", "a table of a registering competition has blinds %+v", t.Blind)
					}
				}
				m := w.B.tables[ts.TableID].T.Meta
				if m.CompetitionID != set.CompetitionID || m.Mode != string(mode) || m.Rule != string(set.Meta.Rule) || m.TableMaxSeatCount != set.Meta.TableMaxSeatCount || m.TableMinPlayerCount != set.Meta.TableMinPlayerCount || m.MaxDuration != set.Meta.MaxDuration || m.ActionTime != set.Meta.ActionTime || m.MinChipUnit != set.Meta.MinChipUnit {
					x.Fail("table-meta", "table %s was created with %+v for %+v", ts.TableID, m, set.Meta)
				}
			}
			nc := 0
			for _, e := range w.Evs[evs:] {
				if e.Kind == "call" && e.Name == "CreateTable" {
					nc++
				} else if e.Kind == "call" {
					x.Fail("request", "creation made the table request %s", e.Name)
				}
				if e.Kind == "error" {
					x.Fail("error", "creation reported the error %s", e.Name)
				}
			}
			if nc != len(want) {
				x.Fail("request", "%d tables were created for %d requested", nc, len(want))
			}
			w.evPos = len(w.Evs)
			w.last = s
			return true
		}
		if !try(0) {
			return
		}
		w.drain(100e9)
	}}
}

func preset(ts []pc.TableSetting) []int {
	o := []int{}
	for _, t := range ts {
		o = append(o, len(t.JoinPlayers))
	}
	return o
}

// -------- C18: breaks --------

type brkKey struct {
	T   string
	Lvl int
}

func monBreak(w *World, s *Step) {
	if w.Cfg.Mode == "" {
		return
	}
	a, b := s.Pre, s.Post
	isBrk := func(l int) bool { return l >= 0 && l < len(w.Cfg.Levels) && w.Cfg.Levels[l].Level == -1 }
	for _, e := range s.evs("open", "") {
		if isBrk(a.Lvl) && isBrk(b.Lvl) {
			w.X.Fail("hand-in-break", "%v: hand %d was opened at table %s during a break", s.Op, e.Rank, e.Table)
		}
	}
	var got []Ev
	for _, e := range s.Evs {
		if e.Kind == "call" && (e.Name == "SetUpTableGame" || e.Name == "StartTableGame") {
			got = append(got, e)
		}
	}
	if isBrk(a.Lvl) && a.Lvl == b.Lvl && len(got) > 0 {
		w.X.Fail("set-up-in-break", "%v: %s at table %s during a break", s.Op, got[0].Name, got[0].Table)
	}
	if ended(a.Status) && len(got) > 0 {
		w.X.Fail("resumed-ended", "%v: %s at table %s after the end", s.Op, got[0].Name, got[0].Table)
	}
	done, _ := w.Memo["resumed"].(map[brkKey]int)
	if done == nil {
		done = map[brkKey]int{}
		w.Memo["resumed"] = done
	}
	inBreak, _ := w.Memo["in-break"].(map[brkKey]bool)
	if inBreak == nil {
		inBreak = map[brkKey]bool{}
		w.Memo["in-break"] = inBreak
	}
	if isBrk(b.Lvl) {
		// breaks that follow each other are one break
		for l := b.Lvl; isBrk(l); l++ {
			for _, t := range b.Tables {
				inBreak[brkKey{t.ID, l}] = true
			}
		}
	}
	// tables that were in the middle of a hand at some point of this instant:
	// the hand's settlement opens the next one, not the break
	busy, _ := w.Memo["busy"].(map[string]int64)
	if busy == nil {
		busy = map[string]int64{}
		w.Memo["busy"] = busy
	}
	inHand := func(bt *TSnap) bool {
		return bt != nil && (bt.Status == string(pt.TableStateStatus_TableGamePlaying) || bt.Status == string(pt.TableStateStatus_TableGameOpened))
	}
	for _, t := range a.Tables {
		if inHand(a.B(t.ID)) {
			busy[t.ID] = s.T1
		}
	}
	if s.Op.Kind != "tick" {
		return
	}
	for l := range w.Cfg.Levels {
		if !isBrk(l) || l >= len(a.EndAts) || a.EndAts[l] <= 0 || l < w.Cfg.Init-1 {
			continue
		}
		if s.T1 != (a.EndAts[l]+1)*1e9 {
			continue
		}
		for _, g := range got {
			if inHand(a.B(g.Table)) {
				w.X.Fail("resumed-playing", "table %s was resumed after the break at level index %d in the middle of a hand", g.Table, l)
			}
		}
		// a second after the break: what a break's own timer asks for
		started := map[string]bool{}
		for _, g := range got {
			k := brkKey{g.Table, l}
			if g.Name == "SetUpTableGame" && started[g.Table] {
				continue // the first hand of the game that was started
			}
			started[g.Table] = g.Name == "StartTableGame"
			if g.Name == "StartTableGame" || !w.pausedIn(s, g.Table) {
				done[k]++
			}
			if done[k] > 1 {
				w.X.Fail("resumed-twice", "table %s was resumed %d times after the break at level index %d", g.Table, done[k], l)
			}
		}
	}
	// the last timer of that instant
	if n := w.S.NextTimer(); n == s.T1 {
		return
	}
	for l := range w.Cfg.Levels {
		if !isBrk(l) || l >= len(a.EndAts) || a.EndAts[l] <= 0 || l < w.Cfg.Init-1 || s.T1 != (a.EndAts[l]+1)*1e9 || isBrk(l+1) || isBrk(b.Lvl) { // the last level is never over
			continue
		}
		if ended(a.Status) || ended(b.Status) {
			continue
		}
		for _, t := range a.Tables {
			bt := a.B(t.ID)
			if bt == nil || b.B(t.ID) == nil || !inBreak[brkKey{t.ID, l}] {
				continue
			}
			var alive, ready []string
			for _, p := range t.Players {
				if p.Bank > 0 {
					alive = append(alive, p.ID)
					if p.In {
						ready = append(ready, p.ID)
					}
				}
			}
			sort.Strings(ready)
			enough := len(alive) >= w.Cfg.TableMin
			if bt.GameCount == 0 {
				enough = enough && len(ready) >= w.Cfg.TableMin
			}
			n := done[brkKey{t.ID, l}]
			if busy[t.ID] == s.T1 {
				continue
			}
			if enough && n != 1 {
				w.X.Fail("not-resumed", "the break at level index %d is over but table %s (%s, hand %d, with chips %v) was resumed %d times", l, t.ID, t.Status, t.GameCount, alive, n)
			}
			if !enough && n > 0 {
				w.X.Fail("resumed-short", "table %s was resumed with only %v", t.ID, alive)
			}
			for _, g := range got {
				if g.Table != t.ID || g.Name != "SetUpTableGame" || bt.GameCount == 0 {
					continue
				}
				if g.Rank != bt.GameCount+1 {
					w.X.Fail("count", "after the break hand %d was set up at %s after hand %d", g.Rank, t.ID, bt.GameCount)
				}
				if fmt.Sprint(g.List) != fmt.Sprint(ready) {
					w.X.Fail("participants", "after the break a hand was set up at %s for %v, but %v are ready", t.ID, g.List, ready)
				}
			}
		}
	}
}

// pausedIn: the step contains a pause notification of the table.
func (w *World) pausedIn(s *Step, id string) bool {
	for _, e := range s.evs("table", string(pt.TableStateStatus_TablePausing)) {
		if e.Table == id {
			return true
		}
	}
	return false
}

// -------- C21: advancement --------

func monAdvance(w *World, s *Step) {
	a, b := s.Pre, s.Post
	adv := w.Cfg.Adv
	on := w.Cfg.Mode == MTT && (adv.Rule == pc.CompetitionAdvanceRule_PlayerCount || adv.Rule == pc.CompetitionAdvanceRule_BlindLevel)
	asked := s.evs("adv", "")
	paused := map[string]bool{}
	for _, c := range calls(s, "PauseTable") {
		if paused[c.Table] {
			w.X.Fail("paused-twice", "%v: table %s was paused twice", s.Op, c.Table)
		}
		paused[c.Table] = true
	}
	if !on || b.Adv.Status == pc.CompetitionAdvanceStatus_NotStart {
		if on && b.Adv.Status == pc.CompetitionAdvanceStatus_NotStart && b.Status == stStopped {
			w.X.Fail("not-begun", "%v: buying in is over but advancement has not begun", s.Op)
		}
		if len(paused) > 0 || len(asked) > 0 || b.Adv.Status != pc.CompetitionAdvanceStatus_NotStart {
			w.X.Fail("unasked", "%v: advancement %+v, paused %v, asked %d times although it is not due (rule %q, %s)", s.Op, b.Adv, paused, len(asked), adv.Rule, b.Status)
		}
		return
	}
	if a.Adv.Status == pc.CompetitionAdvanceStatus_NotStart {
		if phase(b.Status) < 2 {
			w.X.Fail("early", "%v: advancement began while the competition is %s", s.Op, b.Status)
		}
		if a.Status == stReg && b.Status != stStopped {
			w.X.Fail("early", "%v: advancement began before the start", s.Op)
		}
		n := 0
		if adv.Rule == pc.CompetitionAdvanceRule_PlayerCount {
			n = 1
		}
		if len(asked) != n {
			w.X.Fail("asked", "%v: the number of advancing players was asked for %d times, expected %d", s.Op, len(asked), n)
		}
		if n == 1 && asked[0].Rank != b.Stat.TotalBuyInCount {
			w.X.Fail("asked-with", "%v: the number of advancing players was asked for with %d buy-ins, there were %d", s.Op, asked[0].Rank, b.Stat.TotalBuyInCount)
		}
		if n == 1 && b.AdvPlayers != w.Cfg.AdvCount {
			w.X.Fail("count", "%v: %d players advance, %d were asked for", s.Op, b.AdvPlayers, w.Cfg.AdvCount)
		}
	} else if len(asked) > 0 {
		w.X.Fail("asked", "%v: the number of advancing players was asked for again", s.Op)
	}
	if a.Adv.Status == pc.CompetitionAdvanceStatus_End && b.Adv.Status != pc.CompetitionAdvanceStatus_End {
		w.X.Fail("back", "%v: advancement went back from the end", s.Op)
	}
	// settlements in this step
	set := settledIn(w, s)
	if set == nil {
		if len(paused) > 0 || fmt.Sprint(a.Adv.UpdatedTableIDs) != fmt.Sprint(b.Adv.UpdatedTableIDs) || a.Adv.Status == pc.CompetitionAdvanceStatus_Updating && b.Adv.Status == pc.CompetitionAdvanceStatus_End {
			w.X.Fail("no-hand", "%v: advancement moved from %+v to %+v although no hand was settled", s.Op, a.Adv, b.Adv)
		}
	} else if a.Adv.Status == pc.CompetitionAdvanceStatus_Updating && !ended(a.Status) {
		met := false
		if adv.Rule == pc.CompetitionAdvanceRule_BlindLevel {
			for i := 0; i <= b.Lvl; i++ {
				met = met || w.Cfg.Levels[i].Level >= adv.BlindLevel
			}
		} else {
			met = b.alive() < b.AdvPlayers
		}
		if paused[set.ID] != met {
			w.X.Fail("pause", "%v: the advancement rule is met: %v (%d players with chips, level index %d), but the table was paused: %v", s.Op, met, b.alive(), b.Lvl, paused[set.ID])
		}
		for id := range paused {
			if id != set.ID {
				w.X.Fail("pause-other", "%v: table %s was paused by a hand of table %s", s.Op, id, set.ID)
			}
		}
		seen := map[string]bool{}
		for _, id := range b.Adv.UpdatedTableIDs {
			if seen[id] {
				w.X.Fail("counted-twice", "%v: table %s is counted twice for advancement: %v", s.Op, id, b.Adv.UpdatedTableIDs)
			}
			seen[id] = true
		}
		if met && !seen[set.ID] {
			w.X.Fail("uncounted", "%v: table %s is not counted: %v", s.Op, set.ID, b.Adv.UpdatedTableIDs)
		}
		if b.Adv.UpdatedTables != len(b.Adv.UpdatedTableIDs) {
			w.X.Fail("counter", "%v: %d tables counted but listed are %v", s.Op, b.Adv.UpdatedTables, b.Adv.UpdatedTableIDs)
		}
		all := true
		var missing []string
		for _, t := range b.Tables {
			if !seen[t.ID] {
				all = false
				missing = append(missing, t.ID)
			}
		}
		if all && met && b.Adv.Status != pc.CompetitionAdvanceStatus_End {
			w.X.Fail("not-over", "%v: every table is counted (%v of %v) but advancement is %v", s.Op, b.Adv.UpdatedTableIDs, len(b.Tables), b.Adv.Status)
		}
		if !all && b.Adv.Status == pc.CompetitionAdvanceStatus_End {
			w.X.Fail("over-early", "%v: advancement ended while %v still play", s.Op, missing)
		}
		if b.Adv.Status == pc.CompetitionAdvanceStatus_End {
			w.Memo["advEnd"] = s.T1
		}
	}
	for _, e := range calls(s, "SetUpTableGame") {
		for _, id := range a.Adv.UpdatedTableIDs {
			if e.Table == id {
				w.X.Fail("dealt-again", "%v: table %s has played its closing hand and is set up for another", s.Op, id)
			}
		}
	}
	if at, ok := w.Memo["advEnd"].(int64); ok && !ended(b.Status) && s.T1 > at+4e9 {
		w.X.Fail("not-ended", "advancement ended %d s ago but the competition is %s", (s.T1-at)/1e9, b.Status)
	}
	if !ended(a.Status) && ended(b.Status) && s.Op.Kind == "tick" && a.Adv.Status == pc.CompetitionAdvanceStatus_Updating && len(a.Tables) > 0 && !strings.HasPrefix(s.Timer, "vtb") {
		_ = s
	}
}

// -------- C29: the end of a single-table tournament --------

func monDecided(w *World, s *Step) {
	if w.Cfg.Mode == MTT {
		monLast(w, s)
	}
	if w.Cfg.Mode == Cash {
		monCashEnd(w, s)
	}
	if w.Cfg.Mode != CT {
		return
	}
	a, b := s.Pre, s.Post
	tableStart := func(p *Snap) int64 {
		if len(p.Tables) > 0 {
			return p.Tables[0].StartAt
		}
		return -1
	}
	if t := tableStart(b); t > 0 {
		w.Memo["tstart"] = t
	}
	ts, _ := w.Memo["tstart"].(int64)
	limit := int64(-1)
	if ts > 0 {
		limit = ts + int64(w.Cfg.MaxDur)
	}
	alive := func(p *Snap) int {
		n := 0
		if len(p.Tables) > 0 {
			for _, q := range p.Tables[0].Players {
				if q.Bank > 0 {
					n++
				}
			}
		}
		return n
	}
	if set := settledIn(w, s); set != nil && !ended(a.Status) {
		n := 0
		for _, q := range set.State.PlayerStates {
			if q.Bankroll > 0 {
				n++
			}
		}
		if b.stopBuyIn() && n < w.Cfg.TableMin {
			if _, ok := w.Memo["decided"]; !ok {
				w.Memo["decided"] = s.T1
			}
		}
		if limit > 0 && w.NowSec() > limit {
			if _, ok := w.Memo["over"]; !ok {
				w.Memo["over"] = s.T1
			}
		}
	}
	for _, k := range []string{"decided", "over"} {
		if at, ok := w.Memo[k].(int64); ok && !ended(b.Status) && s.T1 > at+4e9 {
			w.X.Fail("not-ended-"+k, "%v: the tournament is %s for %d s but goes on (%s)", s.Op, k, (s.T1-at)/1e9, b.Status)
		}
	}
	// past the limit and nothing being played for a while
	playing := false
	for _, t := range w.B.tables {
		playing = playing || t.playing()
	}
	if playing || limit < 0 {
		w.Memo["idle"] = s.T1
	}
	idle, ok := w.Memo["idle"].(int64)
	if ok && limit > 0 && !ended(b.Status) && s.T1 > idle+15e9 && s.T1 > (limit+15)*1e9 {
		w.X.Fail("not-ended-limit", "%v: the time limit passed %d s ago, no hand is being played, but the tournament goes on (%s)", s.Op, s.T1/1e9-limit, b.Status)
	}
	if !ended(a.Status) && ended(b.Status) && s.Op.Kind == "tick" && phase(a.Status) > 0 {
		_, dec := w.Memo["decided"]
		over := limit > 0 && w.NowSec() >= limit
		brk := a.Lvl != b.Lvl && b.stopBuyIn() && alive(a) < 2
		switch {
		case dec || over || brk:
		default:
			w.X.Fail("ended-early", "the tournament ended by itself after %s although %d players have chips, %d s of its time are left and it is %s", s.Timer, alive(a), limit-w.NowSec(), a.Status)
		}
		if w.wasPlaying {
			w.X.Fail("ended-in-hand", "the tournament ended by itself (%s) in the middle of a hand", s.Timer)
		}
	}
	w.wasPlaying = playing
}

// monCashEnd: a cash game ends with the first hand that settles after its time.
func monCashEnd(w *World, s *Step) {
	a, b := s.Pre, s.Post
	if len(b.Tables) > 0 && b.Tables[0].StartAt > 0 {
		w.Memo["tstart"] = b.Tables[0].StartAt
	}
	ts, _ := w.Memo["tstart"].(int64)
	if ts == 0 {
		return
	}
	limit := ts + int64(w.Cfg.MaxDur)
	if settledIn(w, s) != nil && !ended(a.Status) && w.NowSec() > limit {
		if _, ok := w.Memo["over"]; !ok {
			w.Memo["over"] = s.T1
		}
	}
	at, over := w.Memo["over"].(int64)
	if over && !ended(b.Status) && s.T1 > at+4e9 {
		w.X.Fail("not-ended-over", "%v: a hand settled after the time limit %d s ago but the cash game goes on (%s)", s.Op, (s.T1-at)/1e9, b.Status)
	}
	if !over && !ended(a.Status) && ended(b.Status) && s.Op.Kind != "close" && phase(a.Status) > 0 {
		w.X.Fail("ended-early", "%v: the cash game ended by itself (%s) before a hand settled past its time limit, %d s of its time are left", s.Op, s.Timer, limit-w.NowSec())
	}
}

// monLast: a multi-table tournament that sends nobody on ends when one player is
// left with chips and nobody can buy in any more.
func monLast(w *World, s *Step) {
	if w.Cfg.Adv.Rule == pc.CompetitionAdvanceRule_PlayerCount || w.Cfg.Adv.Rule == pc.CompetitionAdvanceRule_BlindLevel {
		return
	}
	a, b := s.Pre, s.Post
	if !ended(b.Status) && b.stopBuyIn() && phase(b.Status) > 0 && b.alive() < 2 {
		if _, ok := w.Memo["last"]; !ok {
			w.Memo["last"] = s.T1
		}
	} else {
		delete(w.Memo, "last")
	}
	if at, ok := w.Memo["last"].(int64); ok && s.T1 > at+4e9 {
		w.X.Fail("not-ended-last", "%v: for %d s %d players have chips and buying in is over, but the tournament goes on (%s)", s.Op, (s.T1-at)/1e9, b.alive(), b.Status)
	}
	if !ended(a.Status) && ended(b.Status) && s.Op.Kind != "close" && phase(a.Status) > 0 {
		if n := b.alive(); n > 1 {
			w.X.Fail("ended-early", "the tournament ended by itself after %s although %d players have chips", s.Timer, n)
		}
		if !b.stopBuyIn() {
			w.X.Fail("ended-open", "the tournament ended by itself after %s although buying in is open", s.Timer)
		}
	}
}

// -------- C30: the disable time --------

func monDisable(w *World, s *Step) {
	a, b := s.Pre, s.Post
	due := a.DisableAt * 1e9
	if !ended(a.Status) && b.Status == stAuto && !(s.Op.Kind == "close" && s.Op.Arg == 2) {
		if s.T1 != due {
			w.X.Fail("when", "%v: the competition was ended automatically at %.2f s, its disable time is %.2f s", s.Op, float64(s.T1-T0)/1e9, float64(due-T0)/1e9)
		}
		if a.Status != stReg {
			w.X.Fail("started", "%v: a competition that is %s was ended at its disable time", s.Op, a.Status)
		}
		if len(a.Players) >= w.Cfg.Min {
			w.X.Fail("enough", "%v: a competition with %d of %d players was ended at its disable time", s.Op, len(a.Players), w.Cfg.Min)
		}
		if len(b.Back) > 0 {
			w.X.Fail("tables", "%v: the competition was ended automatically but %d tables are open", s.Op, len(b.Back))
		}
		if len(s.evs("state", pc.CompetitionStateEvent_Settled)) != 1 {
			w.X.Fail("announce", "%v: the automatic end was not announced once", s.Op)
		}
	}
	nt := w.S.NextTimer()
	past := s.T1 >= due && (nt < 0 || nt > due)
	if _, ok := w.Memo["late"]; past && !ok {
		w.Memo["late"] = true
		if b.Status == stReg && len(b.Players) < w.Cfg.Min {
			w.X.Fail("not-ended", "%v: the disable time has come and the competition has %d of %d players, but it is %s", s.Op, len(b.Players), w.Cfg.Min, b.Status)
		}
	}
}

// monNoError: nothing fails while the tables do what they are asked (C31).
func monNoError(w *World, s *Step) {
	for _, e := range s.Evs {
		if e.Kind == "error" {
			w.X.Fail("error", "%v: an error is announced although no request failed: %s", s.Op, e.Name)
		}
	}
}
