package main

import (
	"fmt"
	"slices"
	"time"

	"github.com/weedbox/pokercompetition/actor"
	pf "github.com/weedbox/pokerface"
	pt "github.com/weedbox/pokertable"
	"verif/vrt"
)

// -------- C26: the player runner --------

type prunCfg struct {
	name   string
	seated []string
	games  [][]string // players of each hand, dealer first
	bank   map[string]int64
	ante   int64
	dealer int64
	at     int // action time, s
	thr    int // suspended after this many timeouts
	dev    int // steps other than the default one
	from   int // the first step that may be another
	till   int // and the first that may not
}

type preq struct {
	gs  *pf.GameState
	idx int
	due int64
}

// prun is the runner of player "p" at a table, and what is expected of it.
type prun struct {
	x    *Exec
	f    *felt
	c    prunCfg
	a    actor.Actor
	r    *actor.PlayerRunner
	at   map[string]int
	told []*pt.Table // delivered
	last int64
	open *preq
	susp bool
	k    int  // consecutive timeouts
	used bool // a timeout since the beginning or since resumed

	nCalls int
	wagers []string
	modes  []bool
	want   []string // wager events expected
}

const pid = "p"

func newPrun(x *Exec, c prunCfg) *prun {
	p := &prun{x: x, c: c, at: map[string]int{}}
	for i, id := range c.seated {
		p.at[id] = i
	}
	p.f = newFelt(x, c.seated, c.games[0], c.bank, c.ante, c.dealer, c.at)
	for _, id := range c.seated {
		p.f.auto[id] = id != pid
	}
	// the others' answers to what was asked before
	for _, id := range p.f.game {
		if p.f.auto[id] && p.f.asks() {
			p.f.ready[id] = true
		}
	}
	p.a = actor.NewActor()
	_ = p.a.SetAdapter(actor.NewTableEngineAdapter(p.f, p.f.clone()))
	p.r = actor.NewPlayerRunner(pid)
	p.r.SetSuspendThreshold(c.thr)
	_ = p.r.OnAutoModeUpdated(func(t string, on bool) {
		p.x.Logf("    auto mode: %v", on)
		p.modes = append(p.modes, on)
	})
	_ = p.r.OnTableGameWagerActionUpdated(func(t, g string, n int, round, action string, chips int64) {
		p.wagers = append(p.wagers, fmt.Sprintf("%s/%s/%d/%s/%s/%d", t, g, n, round, action, chips))
	})
	_ = p.a.SetRunner(p.r)
	return p
}

// since are the calls made to the table since the last look.
func (p *prun) since() []feltCall {
	l := p.f.calls[p.nCalls:]
	p.nCalls = len(p.f.calls)
	return l
}

func autos(l []feltCall) (out []feltCall) {
	for _, c := range l {
		if c.Thread != "user" && c.Thread != "other" {
			out = append(out, c)
		}
	}
	return
}

func autoKind(gs *pf.GameState, i int) string {
	for _, a := range []string{"ready", "check", "fold"} {
		if gs.HasAction(i, a) {
			return a
		}
	}
	return ""
}

// wager notes the event that a successful action of the player is to give.
func (p *prun) wager(c feltCall, amount int64) {
	if c.Err != nil || c.Kind == "ready" || c.Kind == "pay" || c.Kind == "pass" {
		return
	}
	if len(p.told) == 0 {
		return
	}
	t := p.told[len(p.told)-1]
	if t.State.GameState == nil {
		return
	}
	p.want = append(p.want, fmt.Sprintf("%s/%s/%d/%s/%s/%d", t.ID, t.State.GameState.GameID, t.State.GameCount, t.State.GameState.Status.Round, c.Kind, amount))
}

// expect compares the runner's own calls of this step with what it is to do.
func (p *prun) expect(what string, got []feltCall, kind string, amount int64) {
	if kind == "" {
		if len(got) > 0 {
			p.x.Fail("uncalled:"+got[0].Kind, "%s: the runner makes %s for its player unasked", what, got[0].Kind)
		}
		return
	}
	if len(got) == 0 {
		p.x.Fail("unanswered:"+kind, "%s: the runner does not answer with %s", what, kind)
	}
	if got[0].Kind != kind || got[0].Player != pid || got[0].Amount != amount {
		p.x.Fail("answer:"+kind, "%s: the runner answers with %s %d of %s instead of %s %d", what, got[0].Kind, got[0].Amount, got[0].Player, kind, amount)
	}
	if len(got) > 1 {
		p.x.Fail("twice:"+kind, "%s: the runner answers again with %s", what, got[1].Kind)
	}
	p.wager(got[0], 0)
}

// deliver hands a table state to the actor.
func (p *prun) deliver(t *pt.Table, what string) {
	gs := t.State.GameState
	p.x.Logf("  %s: state %d %s of the table (%s)", what, stateNo(gs), evt(gs), t.State.Status)
	p.f.s.Go("table", func() { _ = p.a.GetTable().UpdateTableState(t) })
	p.f.s.Run()
	p.told = append(p.told, t)
	got := autos(p.since())
	if gs == nil || gs.UpdatedAt <= p.last {
		p.expect("told of nothing new", got, "", 0)
		return
	}
	p.last = gs.UpdatedAt
	p.open = nil
	i := t.GamePlayerIndex(pid)
	if t.State.Status != pt.TableStateStatus_TableGamePlaying || i < 0 || len(gs.GetPlayer(i).AllowedActions) == 0 {
		p.expect("not asked", got, "", 0)
		return
	}
	switch {
	case gs.HasAction(i, "pass"):
		p.expect("asked to pass", got, "pass", 0)
	case gs.HasAction(i, "pay"):
		p.expect("asked to pay", got, "pay", dueOf(gs, i))
	case p.susp:
		p.expect("asked while suspended", got, autoKind(gs, i), 0)
	case p.c.at == 0:
		p.expect("asked without time", got, autoKind(gs, i), 0)
		p.timedOut()
	default:
		p.expect("asked", got, "", 0)
		p.open = &preq{gs: gs, idx: i, due: p.f.s.Now() + int64(p.c.at)*1e9}
	}
}

func (p *prun) timedOut() {
	p.k++
	p.used = true
	if p.susp {
		return
	}
	if slices.Contains(p.modes, true) {
		if p.k < p.c.thr {
			p.x.Fail("suspended-early", "the player is suspended after %d timeouts, not %d", p.k, p.c.thr)
		}
		p.susp = true
	} else if p.k > p.c.thr {
		p.x.Fail("not-suspended", "the player is not suspended after %d timeouts (threshold %d)", p.k, p.c.thr)
	}
}

// advance lets time pass.
func (p *prun) advance(to int64) {
	if p.open != nil && p.open.due <= to {
		p.f.s.AdvanceTo(p.open.due-1, p.f.s.Run)
		p.expect("before the time is over", autos(p.since()), "", 0)
		r := p.open
		p.open = nil
		p.f.s.AdvanceTo(r.due, p.f.s.Run)
		p.expect("the time is over", autos(p.since()), autoKind(r.gs, r.idx), 0)
		p.timedOut()
	}
	p.f.s.AdvanceTo(to, p.f.s.Run)
	p.expect("time passes", autos(p.since()), "", 0)
}

// user acts for the player.
func (p *prun) user(how string) {
	kind, amount := "check", int64(0)
	i := p.f.idx(pid)
	if i >= 0 && (p.f.turn() == pid || p.f.gs.HasAction(i, "ready") || p.f.gs.HasAction(i, "pay")) {
		kind, amount = p.f.move(pid, how)
	}
	if how == "fold" && p.f.turn() != pid {
		kind, amount = "fold", 0
	}
	chips := amount
	fresh := len(p.told) > 0 && p.told[len(p.told)-1].State.GameState != nil && stateNo(p.told[len(p.told)-1].State.GameState) == p.f.seq
	if fresh && i >= 0 {
		st := p.f.gs.Players[i]
		switch kind {
		case "call":
			chips = p.f.gs.Status.CurrentWager - st.Wager
		case "allin":
			chips = st.StackSize
		}
	}
	var err error
	p.x.Logf("  the user: %s %d", kind, amount)
	p.f.s.Go("user", func() { err = act(p.r, kind, amount) })
	p.f.s.Run()
	l := p.since()
	p.expect("the user acts", autos(l), "", 0)
	if len(l) != 1 || l[0].Kind != kind || l[0].Player != pid || l[0].Amount != amount {
		p.x.Fail("user:"+kind, "the user's %s %d reaches the table as %v", kind, amount, l)
	}
	if (err == nil) != (l[0].Err == nil) {
		p.x.Fail("user-result:"+kind, "the user's %s is answered with %v, and the table said %v", kind, err, l[0].Err)
	}
	if kind == "fold" {
		p.resumed()
	}
	if err == nil {
		p.open = nil
		p.k = 0
		if fresh {
			p.wager(l[0], chips)
		} else {
			p.wagers, p.want = nil, nil
		}
	}
}

func (p *prun) resumed() {
	if p.susp != slices.Contains(p.modes, false) && (p.susp || !p.used) {
		p.x.Fail("mode-event", "the end of the auto mode (on: %v) is announced as %v", p.susp, p.modes)
	}
	p.susp, p.k, p.used = false, 0, false
}

func act(r *actor.PlayerRunner, kind string, amount int64) error {
	switch kind {
	case "ready":
		return r.Ready()
	case "pay":
		return r.Pay(amount)
	case "pass":
		return r.Pass()
	case "check":
		return r.Check()
	case "call":
		return r.Call()
	case "fold":
		return r.Fold()
	case "allin":
		return r.Allin()
	case "bet":
		return r.Bet(amount)
	}
	return r.Raise(amount)
}

// other makes a move that does not go through the runner.
func (p *prun) other(id, how string) {
	kind, amount := p.f.move(id, how)
	p.f.s.Go("other", func() { _ = p.f.play(kind, id, amount) })
	p.f.s.Run()
	p.expect("another moves", autos(p.since()), "", 0)
}

func (p *prun) mode(on bool) {
	p.x.Logf("  auto mode switched to %v", on)
	p.f.s.Go("user", func() { _ = p.r.AutoMode(on) })
	p.f.s.Run()
	l := autos(p.since())
	if on {
		if !slices.Contains(p.modes, true) {
			p.x.Fail("mode-event", "the beginning of the auto mode is not announced")
		}
		p.susp = true
		if p.open != nil && len(l) > 0 {
			p.expect("auto mode", l, autoKind(p.open.gs, p.open.idx), 0)
			p.open = nil
			return
		}
	} else {
		p.resumed()
	}
	p.expect("auto mode", l, "", 0)
}

// asked: it is for the player to do something.
func (p *prun) asked() bool {
	i := p.f.idx(pid)
	return i >= 0 && (p.f.turn() == pid || p.f.asks() && !p.f.ready[pid] && len(p.f.gs.GetPlayer(i).AllowedActions) > 0)
}

func (p *prun) step(op string) {
	p.modes = nil
	switch op {
	case "deliver":
		t := p.f.queue[0]
		p.f.queue = p.f.queue[1:]
		p.deliver(t, "told")
	case "again":
		p.deliver(p.told[len(p.told)-1], "told again")
	case "old":
		p.deliver(p.told[len(p.told)/2], "told of the past")
	case "timeout":
		p.advance(p.open.due)
	case "wait":
		p.advance(p.f.s.Now() + int64(p.c.at)*6e8)
	case "on":
		p.mode(true)
	case "off":
		p.mode(false)
	case "others":
		p.x.Logf("  %s: passive", p.f.turn())
		p.other(p.f.turn(), "passive")
	case "others-raise":
		p.x.Logf("  %s: raise", p.f.turn())
		p.other(p.f.turn(), "raise")
	case "others-fold":
		p.x.Logf("  %s: fold", p.f.turn())
		p.other(p.f.turn(), "fold")
	case "elsewhere":
		p.x.Logf("  the player acts elsewhere")
		p.other(pid, "passive")
	default:
		p.user(op)
	}
	// every action is announced once
	if fmt.Sprint(p.wagers) != fmt.Sprint(p.want) {
		p.x.Fail("wager-event", "%s: the player's actions are announced as %v, not as %v", op, p.wagers, p.want)
	}
	p.wagers, p.want = nil, nil
	if _, on := p.r.IsAutoMode(); on != p.susp && (p.susp || !p.used) {
		p.x.Fail("is-auto", "%s: IsAutoMode is %v", op, on)
	}
	due := int64(-1)
	if p.open != nil {
		due = p.open.due - p.f.s.Now()
	}
	p.x.State(fmt.Sprint(p.f.seq, evt(p.f.gs), due, p.susp, p.k, p.used, len(p.f.queue), len(p.f.calls)))
}

func (c prunCfg) scen(weight int) *Scenario {
	return &Scenario{Name: c.name, Weight: weight, Slow: true, Run: func(x *Exec) {
		c := c
		p := newPrun(x, c)
		hand, raised := 1, false
		for n := 0; n < 200; n++ {
			if len(x.S.Panics) > 0 {
				return
			}
			var nat []string
			switch {
			case len(p.f.queue) > 0:
				nat = []string{"deliver"}
			case p.f.over():
				if hand == len(c.games) {
					p.advance(p.f.s.Now() + 100e9)
					return
				}
				p.f.tbl.State.Status = pt.TableStateStatus_TableGameStandby
				p.f.gs = nil
				p.f.publish()
				p.f.tbl.State.Status = pt.TableStateStatus_TableGamePlaying
				p.f.publish()
				p.f.game = c.games[hand]
				p.f.tbl.State.GameCount++
				p.f.deal(p.at, c.bank, c.ante, c.dealer)
				hand, raised = hand+1, false
				continue
			case p.asked():
				if p.open == nil {
					p.advance(p.f.s.Now() + 100e9)
					if p.asked() {
						x.Fail("forgotten", "the player is asked at state %d, and the runner does nothing", p.f.seq)
					}
					continue
				}
				nat = []string{"timeout", "passive", "elsewhere"}
				if p.f.turn() == pid {
					nat = append(nat, "raise", "fold")
				}
			case p.f.turn() != "":
				nat = []string{"others"}
				if !raised {
					nat = append(nat, "others-raise")
				}
				if len(p.f.game) > 2 {
					nat = append(nat, "others-fold")
				}
			default:
				x.Fail("stuck", "nothing to do at state %d (%s)", p.f.seq, evt(p.f.gs))
			}
			all := nat[:1]
			if c.dev > 0 && n >= c.from && n < c.till {
				all = append(append([]string{}, nat...), "wait", "on", "off", "old")
				if len(p.told) < 2 {
					all = all[:len(all)-1]
				} else if p.told[len(p.told)/2] != p.told[len(p.told)-1] {
					all = append(all, "again")
				}
				if !p.asked() {
					all = append(all, "passive", "fold")
				}
			}
			k := x.Choose(len(all))
			if k > 0 {
				c.dev--
			}
			if n >= c.till+15 {
				p.advance(p.f.s.Now() + 100e9)
				return
			}
			if all[k] == "others-raise" {
				raised = true
			}
			p.step(all[k])
		}
		x.Fail("endless", "the hand does not end")
	}}
}

// race lets the user act while the table goes on: from the first request of a
// given state on, deliveries, the user and time limits are threads of their own.
func (c prunCfg) race(name string, budget int, upto func(p *prun) bool, users ...string) *Scenario {
	return &Scenario{Name: c.name + name, Budget: budget, Fine: true, Weight: 1, Slow: true, Run: func(x *Exec) {
		c := c
		c.dev = 0
		how := users[x.Choose(len(users))]
		p := newPrun(x, c)
		// the user answers everything until then
		for n := 0; !upto(p); n++ {
			switch {
			case n > 100 || p.f.over():
				x.Fail("setup", "the state is not reached")
			case len(p.f.queue) > 0:
				p.step("deliver")
			case p.asked():
				p.step("passive")
			default:
				p.step("others")
			}
		}
		p.modes = nil
		x.Logf("  at the same time: the user (%s) and the table", how)
		if how == "off" {
			p.mode(true)
		}
		x.S.Fine = true
		stop, asked := false, true
		user := func() {
			kind, amount := p.f.move(pid, how)
			x.S.Go("user", func() { _ = act(p.r, kind, amount) })
		}
		switch how {
		case "at-once": // the user reacts to what is shown
			how = "passive"
			_ = p.r.OnTableStateUpdated(func(t *pt.Table) {
				if asked && stateNo(t.State.GameState) == p.f.seq && p.asked() {
					asked = false
					user()
				}
			})
		case "on", "off":
			x.S.Go("user", func() { _ = p.r.AutoMode(how == "on") })
		default:
			user()
		}
		x.S.Go("table", func() {
			for {
				vrt.Block(func() bool { return stop || len(p.f.queue) > 0 })
				if len(p.f.queue) == 0 {
					return
				}
				t := p.f.queue[0]
				p.f.queue = p.f.queue[1:]
				_ = p.a.GetTable().UpdateTableState(t)
				p.told = append(p.told, t)
			}
		})
		x.S.Run()
		stop = true
		x.S.Run()
		x.S.Fine = false
		if len(x.S.Panics) > 0 || len(x.S.Live()) > 0 {
			return
		}
		p.wagers, p.want = nil, nil
		// the runner itself has passed and paid, and nothing else unless the
		// auto mode was on for a moment
		for _, g := range autos(p.since()) {
			switch {
			case g.Kind == "pass" || g.Kind == "pay":
			case (how == "on" || how == "off") && g.Err == nil:
			default:
				x.Fail("raced:"+g.Kind, "the runner makes %s for its player before the time is over", g.Kind)
			}
		}
		t := p.told[len(p.told)-1]
		gs := t.State.GameState
		p.last = gs.UpdatedAt
		p.open = nil
		p.susp = how == "on"
		_, on := p.r.IsAutoMode()
		if on != p.susp {
			x.Fail("raced-mode", "IsAutoMode is %v after the auto mode was set to %v", on, p.susp)
		}
		if i := t.GamePlayerIndex(pid); stateNo(gs) == p.f.seq && p.asked() {
			p.open = &preq{gs: gs, idx: i, due: x.S.Now() + int64(p.c.at)*1e9}
		}
		if p.susp {
			p.used = true
		}
		x.State(fmt.Sprint(p.f.seq, evt(gs), p.open != nil, len(p.f.calls), len(p.f.queue)))
		// to the end of the hand
		for n := 0; !p.f.over(); n++ {
			switch {
			case n > 100:
				x.Fail("endless", "the hand does not end")
			case len(p.f.queue) > 0:
				p.step("deliver")
			case p.asked() && p.open != nil:
				p.step("timeout")
			case p.asked():
				x.Fail("forgotten", "the player is asked at state %d, and the runner does nothing", p.f.seq)
			default:
				p.step("others")
			}
		}
		p.advance(x.S.Now() + 100e9)
	}}
}

// at is the player's move in the given round with the state delivered or not.
func at(round string, told bool) func(p *prun) bool {
	return func(p *prun) bool {
		return p.f.turn() == pid && p.f.gs.Status.Round == round && told == (len(p.f.queue) == 0)
	}
}

func stateNo(gs *pf.GameState) int {
	if gs == nil {
		return 0
	}
	return int(gs.UpdatedAt - T0)
}

func evt(gs *pf.GameState) string {
	if gs == nil {
		return "no hand"
	}
	return gs.Status.CurrentEvent
}

// dueOf is what player i has to pay at gs.
func dueOf(gs *pf.GameState, i int) int64 {
	m := gs.Meta
	switch {
	case gs.Status.CurrentEvent == "AnteRequested":
		return m.Ante
	case gs.HasPosition(i, "sb"):
		return m.Blind.SB
	case gs.HasPosition(i, "bb"):
		return m.Blind.BB
	}
	return m.Blind.Dealer
}

func init() {
	register(&Prop{ID: "C26", Quick: 40 * time.Second, Scens: func(tier string) []*Scenario {
		d, n, b := 2, 14, 2
		if tier == "thorough" {
			d, n, b = 3, 40, 3
		}
		bank := map[string]int64{"p": 200, "q": 300, "r": 500, "w": 100}
		bb := prunCfg{name: "race", seated: []string{"q", "p"}, games: [][]string{{"q", "p"}}, bank: bank, at: 10, thr: 2}
		return []*Scenario{
			prunCfg{name: "player-bb", seated: []string{"q", "p"}, games: [][]string{{"q", "p"}, {"p", "q"}}, bank: bank, at: 10, thr: 2, dev: d, till: n}.scen(2),
			prunCfg{name: "player-bb-late", seated: []string{"q", "p"}, games: [][]string{{"q", "p"}, {"p", "q"}}, bank: bank, at: 10, thr: 6, dev: d, from: n, till: 2 * n}.scen(2),
			prunCfg{name: "player-sb-ante", seated: []string{"p", "w", "q"}, games: [][]string{{"p", "q"}, {"q", "p"}}, bank: bank, ante: 2, at: 10, thr: 1, dev: d, till: n}.scen(2),
			prunCfg{name: "player-three", seated: []string{"p", "r", "q"}, games: [][]string{{"r", "q", "p"}, {"r", "q"}, {"q", "p", "r"}}, bank: bank, at: 10, thr: 3, dev: d - 1, till: 5 * n}.scen(1),
			prunCfg{name: "player-dealer-blind", seated: []string{"p", "r", "q"}, games: [][]string{{"p", "q", "r"}}, bank: bank, dealer: 20, at: 5, thr: 0, dev: d, till: n}.scen(1),
			prunCfg{name: "player-no-time", seated: []string{"q", "p"}, games: [][]string{{"q", "p"}, {"p", "q"}, {"q", "p"}}, bank: bank, at: 0, thr: 4, dev: d - 1, till: 3 * n}.scen(1),
			bb.race("-act-preflop", b, at("preflop", true), "passive", "fold", "raise", "on"),
			bb.race("-act-flop", b, at("flop", true), "passive", "raise", "on"),
			bb.race("-seen", b, at("flop", false), "at-once", "passive", "on", "off"),
			bb.race("-seen-preflop", b, at("preflop", false), "at-once", "passive", "fold", "on"),
		}
	}})
}
