package main

import (
	"fmt"
	"slices"
	"time"

	"github.com/weedbox/pokercompetition/actor"
	pf "github.com/weedbox/pokerface"
	pt "github.com/weedbox/pokertable"
)

// -------- C27: the bot --------

type botCfg struct {
	name   string
	seated []string
	games  [][]string
	bank   map[string]int64
	ante   int64
	dealer int64
	at     int
	human  bool
	draws  int // random draws that are explored; the others are the middle
	skip   int // draws before them
	moves  int // choices of the others
	odd    int // deliveries out of order
	out    int // deliveries before the bot's seat is taken
	mapDev int
}

// thousandths that a random fraction is
var fractions = []int64{400, 0, 200, 800, 900, 999}

type brun struct {
	*prun
	joins  []string
	wagers []string
	reqs   []preq // asked and not yet answered
}

func newBrun(x *Exec, c botCfg) *brun {
	b := &brun{prun: &prun{x: x, at: map[string]int{}}}
	b.c.at = c.at
	for i, id := range c.seated {
		b.at[id] = i
	}
	b.f = newFelt(x, c.seated, c.games[0], c.bank, c.ante, c.dealer, c.at)
	for _, id := range c.seated {
		b.f.auto[id] = id != pid
	}
	for _, id := range b.f.game {
		if b.f.auto[id] && b.f.asks() {
			b.f.ready[id] = true
		}
	}
	b.f.go_()
	b.a = actor.NewActor()
	_ = b.a.SetAdapter(actor.NewTableEngineAdapter(b.f, b.f.clone()))
	r := actor.NewBotRunner(pid)
	r.Humanized(c.human)
	_ = r.OnTableAutoJoinActionRequested(func(c, t, p string) { b.joins = append(b.joins, c+"/"+t+"/"+p) })
	_ = r.OnTableGameWagerActionUpdated(func(t, g string, n int, round, action string, chips int64) {
		b.wagers = append(b.wagers, fmt.Sprintf("%s/%s/%d/%s/%s/%d", t, g, n, round, action, chips))
	})
	_ = b.a.SetRunner(r)
	return b
}

// answer checks a move of the bot against the request.
func (b *brun) answer(what string, gs *pf.GameState, i int, l []feltCall) {
	if len(l) == 0 {
		b.x.Fail("unanswered", "%s: the bot does not move at state %d although it may %v", what, stateNo(gs), gs.Players[i].AllowedActions)
	}
	if len(l) > 1 {
		b.x.Fail("twice", "%s: the bot moves twice at state %d: %s and %s", what, stateNo(gs), l[0].Kind, l[1].Kind)
	}
	c := l[0]
	pl := gs.Players[i]
	if c.Player != pid {
		b.x.Fail("who", "%s: the bot moves for %s", what, c.Player)
	}
	if !slices.Contains(pl.AllowedActions, c.Kind) {
		b.x.Fail("illegal:"+c.Kind, "%s: the bot's %s is not among %v", what, c.Kind, pl.AllowedActions)
	}
	lo, hi, chips := int64(0), int64(0), int64(0)
	switch c.Kind {
	case "pay":
		lo, hi = dueOf(gs, i), dueOf(gs, i)
	case "bet":
		lo, hi, chips = min(gs.Status.MiniBet, pl.InitialStackSize), pl.InitialStackSize, c.Amount
	case "raise":
		lo, hi, chips = min(gs.Status.CurrentWager+gs.Status.PreviousRaiseSize, pl.InitialStackSize), pl.InitialStackSize, c.Amount
	case "call":
		chips = gs.Status.CurrentWager - pl.Wager
	case "allin":
		chips = pl.StackSize
	}
	if c.Amount < lo || c.Amount > hi {
		b.x.Fail("amount:"+c.Kind, "%s: the bot's %s is %d, and the limits are %d and %d", what, c.Kind, c.Amount, lo, hi)
	}
	if c.Err != nil {
		b.x.Fail("refused:"+c.Kind, "%s: the table refuses the bot's %s %d: %v", what, c.Kind, c.Amount, c.Err)
	}
	switch c.Kind {
	case "ready", "pay", "pass":
	default:
		b.want = append(b.want, fmt.Sprintf("%s/%s/%d/%s/%s/%d", b.f.tbl.ID, gs.GameID, b.f.tbl.State.GameCount, gs.Status.Round, c.Kind, chips))
	}
}

func (b *brun) deliver(t *pt.Table, what string, c botCfg) {
	gs := t.State.GameState
	b.x.Logf("  %s: state %d %s of the table (%s)", what, stateNo(gs), evt(gs), t.State.Status)
	b.joins, b.wagers, b.want = nil, nil, nil
	b.f.s.Go("table", func() { _ = b.a.GetTable().UpdateTableState(t) })
	b.f.s.Run()
	b.told = append(b.told, t)
	l := b.since()
	in, seated := false, false
	for _, ps := range t.State.PlayerStates {
		if ps.PlayerID == pid {
			seated, in = true, ps.IsIn
		}
	}
	if w := "comp/t0/" + pid; seated && !in && (len(b.joins) != 1 || b.joins[0] != w) {
		b.x.Fail("join", "the bot's seat is reserved, and it asks to join as %v instead of %s", b.joins, w)
	}
	if (!seated || in) && len(b.joins) > 0 {
		b.x.Fail("join", "the bot asks to join %v although it is seated %v, in %v", b.joins, seated, in)
	}
	quiet := func(why string) {
		if len(l) > 0 {
			b.x.Fail("unasked", "%s: the bot makes %s %d %s", what, l[0].Kind, l[0].Amount, why)
		}
	}
	if !in {
		quiet("although it is not at the table")
		return
	}
	if gs == nil {
		quiet("although there is no hand")
		return
	}
	if gs.UpdatedAt <= b.last {
		quiet("on what it was told before")
		return
	}
	b.last = gs.UpdatedAt
	i := t.GamePlayerIndex(pid)
	if t.State.Status != pt.TableStateStatus_TableGamePlaying || i < 0 || len(gs.Players[i].AllowedActions) == 0 {
		quiet("unasked")
		return
	}
	pl := gs.Players[i]
	instant := slices.Contains(pl.AllowedActions, "ready") || slices.Contains(pl.AllowedActions, "pay") || slices.Contains(pl.AllowedActions, "pass")
	if len(l) == 0 && c.human && c.at > 0 && !instant {
		// it thinks, for less than the time it has
		end := b.f.s.Now() + int64(c.at)*1e9
		for len(l) == 0 && b.f.s.NextTimer() >= 0 && b.f.s.NextTimer() < end && len(b.f.s.Panics) == 0 {
			if c.odd > 0 && b.x.Choose(2) == 1 {
				// the table is announced again meanwhile
				b.f.s.Go("table", func() { _ = b.a.GetTable().UpdateTableState(t) })
				b.f.s.Run()
			}
			b.f.s.AdvanceTo(b.f.s.NextTimer(), b.f.s.Run)
			l = b.since()
		}
	}
	b.answer(what, gs, i, l)
	if fmt.Sprint(b.wagers) != fmt.Sprint(b.want) {
		b.x.Fail("wager-event", "%s: the bot's move is announced as %v, not as %v", what, b.wagers, b.want)
	}
}

func (c botCfg) scen(weight int) *Scenario {
	return &Scenario{Name: c.name, Weight: weight, Slow: true, Budget: c.mapDev, MapDev: c.mapDev > 0, Run: func(x *Exec) {
		c := c
		x.S.SetRand(func(kind string, n int64) int64 {
			k := 0
			if n := x.S.CurName(); n == "" || n == "other" {
				// the cards
			} else if c.skip > 0 {
				c.skip--
			} else if c.draws > 0 {
				c.draws--
				k = -1
			}
			if kind == "float" {
				if k < 0 {
					k = x.Choose(len(fractions))
				}
				return fractions[k]
			}
			l := []int64{n / 2}
			for _, v := range []int64{0, n - 1} {
				if !slices.Contains(l, v) {
					l = append(l, v)
				}
			}
			if k < 0 {
				k = x.Choose(len(l))
			}
			return l[k]
		})
		b := newBrun(x, c)
		if c.out > 0 {
			b.f.tbl.State.PlayerStates[b.at[pid]].IsIn = false
			b.f.queue = nil
			b.f.publish()
		}
		hand, raised := 1, false
		for n := 0; n < 300; n++ {
			if len(x.S.Panics) > 0 {
				return
			}
			switch {
			case len(b.f.queue) > 0:
				if c.odd > 0 && len(b.told) > 0 {
					if k := x.Choose(3); k == 1 {
						c.odd--
						b.deliver(b.told[len(b.told)-1], "told again", c)
					} else if k == 2 && b.told[len(b.told)/2].State.GameCount == b.f.tbl.State.GameCount {
						c.odd--
						b.deliver(b.told[len(b.told)/2], "told of the past", c)
					}
				}
				t := b.f.queue[0]
				b.f.queue = b.f.queue[1:]
				b.deliver(t, "told", c)
				if c.out > 0 {
					if c.out--; c.out == 0 {
						b.f.tbl.State.PlayerStates[b.at[pid]].IsIn = true
						b.f.queue = nil
						b.f.publish()
					}
				}
			case b.f.over():
				if hand == len(c.games) {
					b.f.s.AdvanceTo(b.f.s.Now()+100e9, b.f.s.Run)
					if l := b.since(); len(l) > 0 {
						x.Fail("unasked", "the bot makes %s %d after the hand", l[0].Kind, l[0].Amount)
					}
					return
				}
				b.f.tbl.State.Status = pt.TableStateStatus_TableGameStandby
				b.f.gs = nil
				b.f.publish()
				b.f.tbl.State.Status = pt.TableStateStatus_TableGamePlaying
				b.f.publish()
				b.f.game = c.games[hand]
				b.f.tbl.State.GameCount++
				b.f.deal(b.at, c.bank, c.ante, c.dealer)
				hand, raised = hand+1, false
			case b.f.turn() != "" && b.f.turn() != pid:
				hows := []string{"passive", "raise", "more", "fold", "allin"}
				if len(b.f.game) == 2 {
					hows = []string{"passive", "raise", "more", "allin"}
				}
				k := 0
				if c.moves > 0 {
					c.moves--
					k = x.Choose(len(hows))
				}
				up := hows[k] == "raise" || hows[k] == "more"
				if up && raised {
					k = 0
				}
				raised = raised || up
				id := b.f.turn()
				kind, amount := b.f.move(id, hows[k])
				b.f.s.Go("other", func() { _ = b.f.play(kind, id, amount) })
				b.f.s.Run()
				for _, g := range b.since() {
					if g.Thread != "other" {
						x.Fail("unasked", "the bot makes %s %d when another moves", g.Kind, g.Amount)
					}
				}
			default:
				x.Fail("forgotten", "the bot is asked at state %d (%s), and does nothing", b.f.seq, evt(b.f.gs))
			}
			x.State(fmt.Sprint(b.f.seq, evt(b.f.gs), toJSON(b.f.gs), len(b.f.queue)))
		}
		x.Fail("endless", "the hand does not end")
	}}
}

func init() {
	register(&Prop{ID: "C27", Quick: 40 * time.Second, Scens: func(tier string) []*Scenario {
		d, m, k, md := 3, 2, 1, 1
		if tier == "thorough" {
			d, m, k, md = 6, 3, 2, 2
		}
		big := map[string]int64{"p": 200, "q": 300, "r": 500, "w": 100}
		one := map[string]int64{"p": 10, "q": 300, "r": 20, "w": 100}
		two := map[string]int64{"p": 20, "q": 35, "r": 500, "w": 100}
		few := map[string]int64{"p": 45, "q": 40, "r": 60, "w": 100}
		bb, sb := [][]string{{"q", "p"}, {"p", "q"}}, [][]string{{"p", "q"}}
		return []*Scenario{
			botCfg{name: "bot-bb", seated: []string{"q", "p"}, games: bb[:1], bank: big, at: 10, draws: d - 1, moves: m - 1, odd: k}.scen(2),
			botCfg{name: "bot-sb", seated: []string{"w", "p", "q"}, games: sb, bank: big, ante: 2, at: 10, draws: d - 1, moves: m - 1, odd: k}.scen(2),
			botCfg{name: "bot-later", seated: []string{"q", "p"}, games: sb, bank: big, at: 10, draws: d, skip: 2, moves: m}.scen(2),
			botCfg{name: "bot-three", seated: []string{"p", "r", "q"}, games: [][]string{{"r", "q", "p"}, {"r", "q"}}, bank: few, at: 10, draws: d, moves: m + 1}.scen(2),
			botCfg{name: "bot-dealer-blind", seated: []string{"p", "r", "q"}, games: [][]string{{"p", "q", "r"}}, bank: big, dealer: 20, at: 10, draws: d, moves: m}.scen(1),
			botCfg{name: "bot-one-blind", seated: []string{"q", "p"}, games: bb, bank: one, at: 10, draws: d, moves: m}.scen(1),
			botCfg{name: "bot-two-blinds", seated: []string{"q", "p"}, games: bb, bank: two, at: 10, draws: d, moves: m}.scen(1),
			botCfg{name: "bot-short-three", seated: []string{"p", "r", "q"}, games: [][]string{{"q", "r", "p"}}, bank: one, at: 10, draws: d, moves: m}.scen(1),
			botCfg{name: "bot-order", seated: []string{"q", "p"}, games: bb[:1], bank: few, at: 10, draws: d, moves: 1, mapDev: md}.scen(1),
			botCfg{name: "bot-human-again", seated: []string{"q", "p"}, games: bb[:1], bank: few, at: 10, human: true, draws: d - 1, moves: 1, odd: k}.scen(2),
			botCfg{name: "bot-human", seated: []string{"q", "p"}, games: bb, bank: few, at: 10, human: true, draws: d + 1, moves: 1}.scen(2),
			botCfg{name: "bot-human-hurried", seated: []string{"q", "p"}, games: bb, bank: few, at: 1, human: true, draws: d, moves: 1}.scen(1),
			botCfg{name: "bot-human-no-time", seated: []string{"q", "p"}, games: bb, bank: few, at: 0, human: true, draws: d, moves: 1}.scen(1),
			botCfg{name: "bot-joins", seated: []string{"p", "r", "q"}, games: [][]string{{"r", "q"}, {"p", "r", "q"}}, bank: big, at: 10, draws: d - 2, moves: 1, odd: k - 1, out: 3}.scen(1),
		}
	}})
}
