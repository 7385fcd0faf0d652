package main

import (
	"fmt"
	"sort"
	"strings"

	pc "github.com/weedbox/pokercompetition"
	pf "github.com/weedbox/pokerface"
	pt "github.com/weedbox/pokertable"
	"verif/vrt"
)

// -------- C24: the model of a table against the real one --------
//
// The same history is played twice: on the library's real table engine behind
// the built-in backend (instrumented, under virtual time, with players that
// make the moves of a script), and on the stub tables that the other checks
// use, which are told only how each hand of the first run ended and where its
// players were seated. What the competition shows must be the same at every
// point of the history.

// Real drives the library's tables for a World.
type Real struct {
	b     *Stub
	mgr   pt.Manager
	nb    pc.TableManagerBackend
	seats map[string][]int // table/player -> seats given, in order
	hands map[string][]Outcome
	bb    map[string][2]int
	parts map[string][]string
	stuck bool // a hand waits for a player who was taken from the table
}

func newReal(b *Stub) *Real {
	r := &Real{b: b, mgr: pt.NewManager(), seats: map[string][]int{}, hands: map[string][]Outcome{}, bb: map[string][2]int{}, parts: map[string][]string{}}
	r.nb = pc.NewNativeTableManagerBackend(r.mgr)
	r.nb.OnTableUpdated(func(t *pt.Table) {
		st := b.tables[t.ID]
		r.refresh()
		b.w.X.Logf("      table %s: %s %d at %+.2f %s", t.ID, t.State.Status, t.State.GameCount, float64(b.w.S.Now()-T0)/1e9, gameEvent(t))
		r.observe(st, t)
		if b.onUpd != nil {
			b.onUpd(t)
		}
	})
	r.nb.OnTablePlayerReserved(func(id string, p *pt.TablePlayerState) {
		if b.onRes != nil {
			b.onRes(id, p)
		}
	})
	r.nb.OnReadyOpenFirstTableGame(func(id string, n int, ps []*pt.TablePlayerState) {
		if b.onReady != nil {
			b.onReady(id, n, ps)
		}
	})
	return r
}

// key names a table by its creation order.
func (r *Real) key(id string) string { return tableKey(r.b, id) }

func tableKey(b *Stub, id string) string {
	for i, o := range b.order {
		if o == id {
			return fmt.Sprint(i)
		}
	}
	return "?"
}

func (r *Real) refresh() {
	for _, st := range r.b.tables {
		if st.eng != nil {
			st.T = st.eng.GetTable()
		}
	}
}

// observe records what the stub has to be told, and the hands.
func (r *Real) observe(st *STable, t *pt.Table) {
	k := r.key(t.ID)
	for _, p := range t.State.PlayerStates {
		sk := k + "/" + p.PlayerID
		if st.seen == nil {
			st.seen = map[string]bool{}
		}
		if !st.seen[p.PlayerID] {
			st.seen[p.PlayerID] = true
			r.seats[sk] = append(r.seats[sk], p.Seat)
		}
	}
	for id := range st.seen {
		if t.FindPlayerIdx(id) < 0 {
			delete(st.seen, id)
		}
	}
	switch t.State.Status {
	case pt.TableStateStatus_TableGameOpened:
		if n := len(st.Opens); n == 0 || st.Opens[n-1].Count < t.State.GameCount {
			o := Open{At: r.b.w.S.Now(), Count: t.State.GameCount, Bank: map[string]int64{}}
			for _, i := range t.State.GamePlayerIndexes {
				o.Parts = append(o.Parts, t.State.PlayerStates[i].PlayerID)
				o.Bank[t.State.PlayerStates[i].PlayerID] = t.State.PlayerStates[i].Bankroll
			}
			st.Opens = append(st.Opens, o)
			r.b.w.ev(Ev{Kind: "open", Table: t.ID, Rank: t.State.GameCount, List: o.Parts})
			r.parts[fmt.Sprint(k, "/", t.State.GameCount)] = o.Parts
			r.bb[fmt.Sprint(k, "/", t.State.GameCount)] = [2]int{t.State.CurrentDealerSeat, t.State.CurrentBBSeat}
		}
	case pt.TableStateStatus_TableGameSettled:
		if st.lastSet != nil && st.lastSet.State.GameCount == t.State.GameCount {
			return
		}
		st.lastSet = cloneTable(t)
		o := Outcome{Final: map[string]int64{}, Stats: map[string]pt.TablePlayerGameStatistics{}, Power: map[string]int{}, Type: map[string]string{}, Cards: map[string][]string{}, Won: map[string]int64{}}
		for gi, i := range t.State.GamePlayerIndexes {
			p := t.State.PlayerStates[i]
			o.Final[p.PlayerID] = p.Bankroll
			o.Stats[p.PlayerID] = p.GameStatistics
			if g := t.State.GameState; g != nil && g.Result != nil {
				for _, pr := range g.Result.Players {
					if pr.Idx == gi {
						o.Won[p.PlayerID] = pr.Changed
					}
				}
			}
			if g := t.State.GameState; g != nil && gi < len(g.Players) && g.Players[gi].Combination != nil {
				c := g.Players[gi].Combination
				o.Power[p.PlayerID], o.Type[p.PlayerID], o.Cards[p.PlayerID] = c.Power, c.Type, c.Cards
			}
		}
		r.hands[k] = append(r.hands[k], o)
	}
}

func (r *Real) createTable(o *pt.TableEngineOptions, set pt.TableSetting) (*pt.Table, error) {
	st := &STable{T: &pt.Table{ID: set.TableID, State: &pt.TableState{}}}
	r.b.tables[set.TableID] = st
	r.b.order = append(r.b.order, set.TableID)
	t, err := r.nb.CreateTable(o, set)
	if err != nil {
		return nil, err
	}
	st.T = t
	st.eng, err = r.mgr.GetTableEngine(set.TableID)
	if err != nil {
		vrt.Fatal("no engine for a table just created: %v", err)
	}
	st.eng.OnAutoGameOpenEnd(func(_, id string) {
		r.b.w.ev(Ev{Kind: "autoend", Table: id})
		r.b.w.CE.AutoGameOpenEnd(id)
	})
	st.eng.OnTableErrorUpdated(func(t *pt.Table, err error) { r.b.w.X.Logf("      table %s: error %v", t.ID, err) })
	r.observe(st, t)
	return t, nil
}

func (r *Real) leave(id string, ids []string) {
	st := r.b.tables[id]
	if st == nil {
		return
	}
	for _, p := range ids {
		delete(st.seen, p)
		if t := st.eng.GetTable(); t.State.GameState != nil {
			for _, i := range t.State.GamePlayerIndexes {
				if t.State.PlayerStates[i].PlayerID == p && t.State.Status == pt.TableStateStatus_TableGamePlaying {
					// the library's hand cannot go on without a player
					r.stuck = true
				}
			}
		}
	}
}

// Scripts: what a player does when it is asked.
var scripts = []string{"fold", "shove", "check", "duel"}

func move(script string, gs *pf.GameState, i int, eng pt.TableEngine, id string) (string, error) {
	has := func(a string) bool { return gs.HasAction(i, a) }
	switch {
	case has("ready"):
		return "ready", eng.PlayerReady(id)
	case has("pay"):
		switch gs.Status.CurrentEvent {
		case "AnteRequested":
			return "pay", eng.PlayerPay(id, gs.Meta.Ante)
		default:
			v := gs.Meta.Blind.Dealer
			if gs.HasPosition(i, "sb") {
				v = gs.Meta.Blind.SB
			} else if gs.HasPosition(i, "bb") {
				v = gs.Meta.Blind.BB
			}
			return "pay", eng.PlayerPay(id, v)
		}
	case has("pass"):
		return "pass", eng.PlayerPass(id)
	}
	order := map[string][]string{
		"fold":  {"fold", "check"},
		"shove": {"allin", "call", "check", "fold"},
		"check": {"check", "call", "allin", "fold"},
		"duel":  {"allin", "call", "check", "fold"},
	}[script]
	if script == "duel" {
		in := 0
		for j, p := range gs.Players {
			if j != i && !p.Fold && p.DidAction == "allin" {
				in++
			}
		}
		if in >= 1 && gs.HasAction(i, "fold") && i%3 == 2 {
			order = []string{"fold", "check"}
		}
	}
	for _, a := range order {
		if !has(a) {
			continue
		}
		switch a {
		case "fold":
			return a, eng.PlayerFold(id)
		case "check":
			return a, eng.PlayerCheck(id)
		case "call":
			return a, eng.PlayerCall(id)
		case "allin":
			return a, eng.PlayerAllin(id)
		}
	}
	return "", nil
}

// playHand makes the players' moves until the hand is settled; each move is a
// thread of its own, and everything that follows from it at that moment is done
// before the next one.
func (r *Real) playHand(st *STable, script string) {
	n := st.eng.GetTable().State.GameCount
	for step := 0; step < 60; step++ {
		t := st.eng.GetTable()
		if t.State.Status != pt.TableStateStatus_TableGamePlaying || t.State.GameCount != n || t.State.GameState == nil {
			return
		}
		gs := t.State.GameState
		did := ""
		r.b.w.S.Go("move", func() {
			for gi, pi := range t.State.GamePlayerIndexes {
				p := gs.GetPlayer(gi)
				if p == nil || len(p.AllowedActions) == 0 || pi >= len(t.State.PlayerStates) {
					continue
				}
				a, err := move(script, gs, gi, st.eng, t.State.PlayerStates[pi].PlayerID)
				if err == nil && a != "" {
					did = a
					if a != "ready" && a != "pay" {
						break
					}
				}
			}
		})
		r.b.w.S.Run()
		if did == "" {
			return
		}
		r.b.w.X.Logf("      step %d: %s (%s)", step, did, gs.Status.CurrentEvent)
	}
	r.stuck = true
}

// conformLine is what the competition shows after a slot.
func (w *World) conformLine(res string) string {
	if w.B.real != nil {
		w.B.real.refresh()
	}
	var evs []string
	for _, e := range w.Evs[w.evPos:] {
		switch e.Kind {
		case "update", "table", "ready":
			continue // how often a table announces itself is not compared
		case "open", "call":
			e.List = append([]string{}, e.List...)
			sort.Strings(e.List)
		}
		if e.Kind == "player" {
			// repeated announcements of the same player count once
			if n := len(evs); n > 0 && strings.HasSuffix(evs[n-1], e.short()[strings.Index(e.short(), " "):]) {
				continue
			}
		}
		evs = append(evs, e.short())
	}
	w.evPos = len(w.Evs)
	w.last = w.Snapshot()
	out := res + "\n  " + strings.Join(evs, "\n  ") + "\n  " + w.stateKey(w.last)
	ids, _ := w.Memo["ids"].(map[string]string)
	if ids == nil {
		ids = map[string]string{}
		w.Memo["ids"] = ids
	}
	return uuidRx.ReplaceAllStringFunc(out, func(u string) string {
		if ids[u] == "" {
			ids[u] = fmt.Sprintf("table%d", len(ids))
		}
		return ids[u]
	})
}

// conformRun plays a history; next chooses the slots as it goes.
func conformRun(x *Exec, cfg Cfg, real bool, told *Real, next func(w *World, i int) (slot, bool)) (*World, []string) {
	w := bareWorld(x, cfg)
	if real {
		w.B.real = newReal(w.B)
	}
	w.B.told = told
	var out []string
	var err error
	w.thread("create", func() { w.C, err = w.CE.CreateCompetition(cfg.setting()) })
	passTo(w, 0)
	out = append(out, w.conformLine(fmt.Sprint(err)))
	for i := 0; ; i++ {
		s, ok := next(w, i)
		if !ok {
			break
		}
		x.Logf("[%v] %v, then %d ms", real, s, s.Ms)
		var res string
		w.play(s.Op, &res)
		passTo(w, s.Ms)
		if real && w.B.real.stuck {
			if len(x.S.Panics) == 0 {
				out = append(out, w.conformLine(res))
			}
			break
		}
		if !real {
			for _, t := range w.B.tables {
				if t.retried {
					// the library's table keeps its lock while it tries again
					return w, out
				}
			}
		}
		out = append(out, w.conformLine(res))
		x.Logf("%s", out[len(out)-1])
	}
	return w, out
}

func conformScen(name string, cfg Cfg, setup []slot, alpha func() []slot, depth int) *Scenario {
	return &Scenario{Name: name, Weight: 1, Slow: true, Run: func(x *Exec) {
		var hist []slot
		w, a := conformRun(x, cfg, true, nil, func(w *World, i int) (slot, bool) {
			var s slot
			switch {
			case i < len(setup):
				s = setup[i]
			case i < len(setup)+depth:
				al := alpha()
				s = al[x.Choose(len(al))]
			default:
				return s, false
			}
			hist = append(hist, s)
			return s, true
		})
		x.State(a[len(a)-1])
		if len(x.S.Panics) > 0 || x.S.Over || x.viol != nil {
			return
		}
		save := vrt.R
		var b []string
		sc := &Scenario{Name: name, Run: func(y *Exec) {
			y.Verbose = x.Verbose
			_, b = conformRun(y, cfg, false, w.B.real, func(w *World, i int) (slot, bool) {
				if i < len(hist) {
					return hist[i], true
				}
				return slot{}, false
			})
		}}
		y := runOne(sc, x.Prop, x.Tier, nil, map[uint64]struct{}{}, x.Verbose)
		vrt.R = save
		x.Log = append(x.Log, y.Log...)
		if y.viol != nil {
			return // other properties' business
		}
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				op := "create"
				if i > 0 {
					op = hist[i-1].String()
				}
				x.Fail("conform", "after %v (%s) the competition on real tables and on modelled tables differ: %s (all: real %q, model %q)", hist[:max(i-1, 0)], op, lineDiff(a[i], b[i]), a[i], b[i])
			}
		}
	}}
}

func conformScens(tier string) []*Scenario {
	d := 2
	if tier == "thorough" {
		d = 4
	}
	var out []*Scenario
	script := func(i, ms int64) slot { return slot{0, Op{Kind: "settle", Arg: i}, ms} }
	setup := func(n int, hand bool) []slot {
		var l []slot
		for p := 0; p < n; p++ {
			l = append(l, slot{0, buyin(p, 1000), 500}, slot{0, Op{Kind: "sitall"}, 500})
		}
		l = append(l, slot{0, Op{Kind: "start"}, 1000}, slot{0, Op{Kind: "sitall"}, 3000})
		if hand {
			l = append(l, slot{0, Op{Kind: "pass"}, 20000})
		}
		return l
	}
	base := func(mode pcMode) Cfg {
		c := baseCfg(mode)
		c.Seats = 9 // the library's seat manager counts seats modulo nine
		c.Min = 2
		if mode == Cash {
			c.Final = -2
			c.RebuyMax = 9
		}
		return c
	}
	sit := slot{0, Op{Kind: "sitall"}, 20000}
	pass := slot{0, Op{Kind: "pass"}, 30000}
	addon := slot{0, Op{Kind: "addon", P: 0, Arg: 500, Unit: 1}, 1000}
	closeC := slot{0, Op{Kind: "close", Arg: 0}, 5000}
	for _, mode := range []pcMode{CT, Cash, MTT} {
		// a hand in any phase, and everything a player can do
		out = append(out, conformScen("conform-"+string(mode), base(mode), setup(3, true), func() []slot {
			return []slot{script(0, 10000), script(1, 10000), script(2, 10000), script(3, 10000), {0, buyin(3, 700), 1000}, sit, addon, {0, Op{Kind: "quit", P: 1}, 1000},
				{0, Op{Kind: "cashout", P: 1}, 1000}, {0, buyin(1, 600), 1000}, closeC, pass}
		}, d))
		// players without chips, and their re-buys
		bust := append(setup(3, true), script(1, 3000))
		out = append(out, conformScen("conform-bust-"+string(mode), base(mode), bust, func() []slot {
			return []slot{{0, buyin(0, 1000), 1000}, {0, buyin(1, 1000), 1000}, {0, buyin(2, 1000), 3000}, script(1, 8000), script(3, 3000), addon, {0, Op{Kind: "pass"}, 16000}, {0, Op{Kind: "cashout", P: 1}, 6000}, {0, Op{Kind: "cashout", P: 2}, 1000}}
		}, d+1))
		// a break between the levels, and the end of buying in
		c := base(mode)
		c.Levels = []pc.BlindLevel{lv(1, 60, true), lv(-1, 40, true), lv(2, 60, true), lv(3, 1000, true)}
		if mode != Cash {
			c.Final = 1
		}
		out = append(out, conformScen("conform-break-"+string(mode), c, setup(3, true), func() []slot {
			return []slot{script(0, 10000), script(2, 10000), script(1, 3000), {0, Op{Kind: "pass"}, 40000}, {0, buyin(3, 700), 1000}, sit, addon, {0, buyin(1, 1000), 10000}}
		}, d+1))
		// a time limit
		if mode != MTT {
			c = base(mode)
			c.MaxDur = 45
			out = append(out, conformScen("conform-limit-"+string(mode), c, setup(3, true), func() []slot {
				return []slot{script(0, 10000), script(1, 10000), script(3, 4000), {0, Op{Kind: "pass"}, 15000}, {0, buyin(1, 1000), 2000}, {0, Op{Kind: "cashout", P: 1}, 3000}}
			}, d+1))
		}
	}
	// two tables
	c := base(MTT)
	out = append(out, conformScen("conform-two", c, setup(10, true), func() []slot {
		return []slot{{0, Op{Kind: "settle", Arg: 0}, 10000}, {0, Op{Kind: "settle", Arg: 1}, 10000}, {0, Op{Kind: "settle", Arg: 3}, 500}, {0, buyin(0, 1000), 1000}, {0, buyin(11, 800), 1000}, sit, pass}
	}, d))
	return out
}

// lineDiff shows where two records part.
func lineDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) || i < len(bs); i++ {
		l := [2]string{"(nothing)", "(nothing)"}
		if i < len(as) {
			l[0] = as[i]
		}
		if i < len(bs) {
			l[1] = bs[i]
		}
		if l[0] == l[1] {
			continue
		}
		k := 0
		for k < len(l[0]) && k < len(l[1]) && l[0][k] == l[1][k] {
			k++
		}
		cut := func(s string) string {
			lo, hi := max(k-60, 0), min(k+60, len(s))
			return s[:min(40, len(s), lo)] + "..." + s[min(lo, hi):hi]
		}
		return fmt.Sprintf("real %q, model %q", cut(l[0]), cut(l[1]))
	}
	return "nothing"
}

func gameEvent(t *pt.Table) string {
	if t.State.GameState == nil {
		return ""
	}
	return t.State.GameState.Status.CurrentEvent
}
