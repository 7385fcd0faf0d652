package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	"github.com/weedbox/pokercompetition/actor"
	pf "github.com/weedbox/pokerface"
	pt "github.com/weedbox/pokertable"
	"verif/vrt"
	"verif/vrt/vsync"
)

// -------- C25, C26, C27: actors --------
//
// felt is a table with one hand on it: the library's game rules, the library's
// way to ask for ready and payments, and updates that a thread of its own hands
// to the actors. It implements the part of the table engine that the engine
// adapter of the actors uses.

type feltCall struct {
	At     int64
	Thread string
	Kind   string
	Player string
	Amount int64
	Seq    int
	Err    error
}

type felt struct {
	pt.TableEngine
	x      *Exec
	s      *vrt.Sched
	be     pt.GameBackend
	mu     vsync.Mutex
	gs     *pf.GameState
	game   []string // players of the hand, dealer first
	tbl    *pt.Table
	ready  map[string]bool
	auto   map[string]bool // players that are ready and pay by themselves
	seq    int
	queue  []*pt.Table
	past   []*pt.Table
	calls  []feltCall
	onCall func(c feltCall)
	stay   bool // a hand that is over is not announced as settled
}

var errFelt = errors.New("felt: invalid action")

// newFelt deals a hand for the players in game, of which seats gives the order
// of sitting down; bank is what each of them has.
func newFelt(x *Exec, seated, game []string, bank map[string]int64, ante, dealer int64, actionTime int) *felt {
	f := &felt{x: x, s: x.S, be: pt.NewNativeGameBackend(), game: game, auto: map[string]bool{}, ready: map[string]bool{}}
	f.tbl = &pt.Table{ID: "t0", Meta: pt.TableMeta{CompetitionID: "comp", Rule: "default", Mode: "ct", MaxDuration: 1000, TableMaxSeatCount: 9, TableMinPlayerCount: 2, MinChipUnit: 10, ActionTime: actionTime},
		State: &pt.TableState{Status: pt.TableStateStatus_TableGameOpened, StartAt: T0 / 1e9, SeatMap: []int{-1, -1, -1, -1, -1, -1, -1, -1, -1}, GameCount: 1}}
	at := map[string]int{}
	for i, id := range seated {
		f.tbl.State.PlayerStates = append(f.tbl.State.PlayerStates, &pt.TablePlayerState{PlayerID: id, Seat: i, Positions: []string{}, IsIn: true, Bankroll: bank[id]})
		f.tbl.State.SeatMap[i] = i
		at[id] = i
	}
	f.deal(at, bank, ante, dealer)
	return f
}

// deal begins a hand.
func (f *felt) deal(at map[string]int, bank map[string]int64, ante, dealer int64) {
	opts := pf.NewStardardGameOptions()
	opts.Ante = ante
	opts.Blind = pf.BlindSetting{Dealer: dealer, SB: 5, BB: 10}
	opts.Deck = pf.NewStandardDeckCards()[:20]
	f.tbl.State.GamePlayerIndexes = nil
	for i, id := range f.game {
		f.tbl.State.GamePlayerIndexes = append(f.tbl.State.GamePlayerIndexes, at[id])
		pos := [][]string{{"dealer"}, {"sb"}, {"bb"}}[i]
		if len(f.game) == 2 {
			pos = [][]string{{"dealer", "sb"}, {"bb"}}[i]
		}
		st := f.tbl.State.PlayerStates[at[id]]
		st.IsParticipated = true
		st.Positions = pos
		opts.Players = append(opts.Players, &pf.PlayerSetting{Bankroll: bank[id], Positions: pos})
	}
	gs, err := f.be.CreateGame(opts)
	if err != nil {
		vrt.Fatal("no hand: %v", err)
	}
	f.tbl.State.Status = pt.TableStateStatus_TableGamePlaying
	f.tbl.State.GameState = gs
	f.handle(gs)
}

func (f *felt) clone() *pt.Table {
	b, err := json.Marshal(f.tbl)
	if err != nil {
		vrt.Fatal("%v", err)
	}
	var t pt.Table
	if err := json.Unmarshal(b, &t); err != nil {
		vrt.Fatal("%v", err)
	}
	return &t
}

func (f *felt) publish() {
	f.tbl.State.GameState = f.gs
	f.tbl.UpdateSerial++
	t := f.clone()
	f.queue = append(f.queue, t)
	f.past = append(f.past, t)
}

func (f *felt) handle(gs *pf.GameState) {
	f.seq++
	gs.UpdatedAt = T0 + int64(f.seq)
	f.gs = gs
	f.ready = map[string]bool{}
	ask := func(action string, who func(i int) bool) {
		for i := range gs.Players {
			if who(i) {
				gs.Players[i].AllowAction(action)
			} else {
				f.ready[f.game[i]] = true
			}
		}
	}
	switch gs.Status.CurrentEvent {
	case "ReadyRequested":
		ask("ready", func(int) bool { return true })
	case "AnteRequested":
		ask("pay", func(int) bool { return true })
	case "BlindsRequested":
		ask("pay", func(i int) bool {
			b := gs.Meta.Blind
			return b.BB > 0 && gs.HasPosition(i, "bb") || b.SB > 0 && gs.HasPosition(i, "sb") || b.Dealer > 0 && gs.HasPosition(i, "dealer")
		})
	case "RoundClosed":
		f.publish()
		n, err := f.be.Next(gs)
		if err != nil {
			vrt.Fatal("next: %v", err)
		}
		f.handle(n)
		return
	case "GameClosed":
		f.publish()
		if !f.stay {
			f.tbl.State.Status = pt.TableStateStatus_TableGameSettled
			f.publish()
		}
		return
	}
	f.publish()
	for _, id := range f.game {
		if f.auto[id] && f.asks() {
			f.ready[id] = true
		}
	}
	f.go_()
}

func (f *felt) asks() bool {
	switch f.gs.Status.CurrentEvent {
	case "ReadyRequested", "AnteRequested", "BlindsRequested":
		return true
	}
	return false
}

// go_ goes on when everybody is ready or has paid.
func (f *felt) go_() {
	if !f.asks() {
		return
	}
	for _, id := range f.game {
		if !f.ready[id] {
			return
		}
	}
	var n *pf.GameState
	var err error
	switch f.gs.Status.CurrentEvent {
	case "ReadyRequested":
		n, err = f.be.ReadyForAll(f.gs)
	case "AnteRequested":
		n, err = f.be.PayAnte(f.gs)
	case "BlindsRequested":
		n, err = f.be.PayBlinds(f.gs)
	}
	if err != nil {
		vrt.Fatal("hand: %v", err)
	}
	f.handle(n)
}

func (f *felt) idx(id string) int {
	for i, p := range f.game {
		if p == id {
			return i
		}
	}
	return -1
}

// turn is the player whose move it is.
func (f *felt) turn() string {
	if f.gs.Status.CurrentEvent != "RoundStarted" || f.gs.Status.CurrentPlayer < 0 || f.gs.Status.CurrentPlayer >= len(f.game) {
		return ""
	}
	return f.game[f.gs.Status.CurrentPlayer]
}

func (f *felt) over() bool { return f.gs.Status.CurrentEvent == "GameClosed" }

func (f *felt) play(kind, id string, amount int64) (err error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	c := feltCall{At: f.s.Now(), Thread: f.s.CurName(), Kind: kind, Player: id, Amount: amount, Seq: f.seq}
	i := f.idx(id)
	var n *pf.GameState
	switch {
	case i < 0:
		err = errFelt
	case kind == "ready" || kind == "pay":
		if !f.gs.HasAction(i, kind) {
			err = errFelt
		}
	case f.turn() != id:
		err = errFelt
	default:
		switch kind {
		case "pass":
			n, err = f.be.Pass(f.gs)
		case "fold":
			n, err = f.be.Fold(f.gs)
		case "check":
			n, err = f.be.Check(f.gs)
		case "call":
			n, err = f.be.Call(f.gs)
		case "allin":
			n, err = f.be.Allin(f.gs)
		case "bet":
			n, err = f.be.Bet(f.gs, amount)
		case "raise":
			n, err = f.be.Raise(f.gs, amount)
		}
	}
	c.Err = err
	f.calls = append(f.calls, c)
	f.x.steps++
	f.x.Logf("    %+.2fs [%s] %s %s %d at state %d -> %v", float64(c.At-T0)/1e9, c.Thread, id, kind, amount, c.Seq, err)
	if f.onCall != nil {
		f.onCall(c)
	}
	if err != nil {
		return err
	}
	if kind == "ready" || kind == "pay" {
		f.ready[id] = true
		f.go_()
		return nil
	}
	f.handle(n)
	return nil
}

func (f *felt) PlayerReady(id string) error              { return f.play("ready", id, 0) }
func (f *felt) PlayerPay(id string, chips int64) error   { return f.play("pay", id, chips) }
func (f *felt) PlayerPass(id string) error               { return f.play("pass", id, 0) }
func (f *felt) PlayerFold(id string) error               { return f.play("fold", id, 0) }
func (f *felt) PlayerCheck(id string) error              { return f.play("check", id, 0) }
func (f *felt) PlayerCall(id string) error               { return f.play("call", id, 0) }
func (f *felt) PlayerAllin(id string) error              { return f.play("allin", id, 0) }
func (f *felt) PlayerBet(id string, chips int64) error   { return f.play("bet", id, chips) }
func (f *felt) PlayerRaise(id string, level int64) error { return f.play("raise", id, level) }

// move makes the move of player id: passive, fold, raise or shove.
func (f *felt) move(id, how string) (kind string, amount int64) {
	i := f.idx(id)
	has := func(a string) bool { return f.gs.HasAction(i, a) }
	p := f.gs.Players[i]
	pick := func(l ...string) string {
		for _, a := range l {
			if has(a) {
				return a
			}
		}
		return ""
	}
	switch {
	case has("pass"):
		return "pass", 0
	case has("ready"):
		return "ready", 0
	case has("pay"):
		return "pay", f.due(i)
	}
	switch how {
	case "fold":
		kind = pick("fold", "check")
	case "raise", "more":
		kind = pick("raise", "bet", "call", "check", "allin")
	case "allin":
		kind = pick("allin", "call", "check")
	default:
		kind = pick("check", "call", "allin", "fold")
	}
	switch kind {
	case "raise":
		amount = f.gs.Status.CurrentWager + f.gs.Status.PreviousRaiseSize
		if more := f.gs.Status.CurrentWager + 2*f.gs.Status.PreviousRaiseSize + 1; how == "more" && more < p.InitialStackSize {
			amount = more
		}
	case "bet":
		amount = min(f.gs.Status.MiniBet, p.InitialStackSize)
		if more := 2*f.gs.Status.MiniBet + 1; how == "more" && more < p.InitialStackSize {
			amount = more
		}
	}
	return
}

// due is what player i has to pay.
func (f *felt) due(i int) int64 {
	m := f.gs.Meta
	switch {
	case f.gs.Status.CurrentEvent == "AnteRequested":
		return m.Ante
	case f.gs.HasPosition(i, "sb"):
		return m.Blind.SB
	case f.gs.HasPosition(i, "bb"):
		return m.Blind.BB
	}
	return m.Blind.Dealer
}

// -------- C25 --------

// viewCheck compares what a player was shown with the table.
// plain is the table without what a view may hide.
func viewCheck(x *Exec, id string, orig, got, plain *pt.Table, what string) {
	if got == nil {
		x.Fail("no-view", "%s is not shown the table (%s)", id, what)
		return
	}
	og, gg := orig.State.GameState, got.State.GameState
	if (og == nil) != (gg == nil) {
		x.Fail("view-state", "%s is shown a different game state (%s)", id, what)
		return
	}
	if og != nil {
		if len(gg.Meta.Deck) > 0 || len(gg.Status.Burned) > 0 {
			x.Fail("deck", "%s sees the deck %v or the burned cards %v (%s)", id, gg.Meta.Deck, gg.Status.Burned, what)
		}
		if len(gg.Players) != len(og.Players) {
			x.Fail("view-players", "%s is shown %d of %d players (%s)", id, len(gg.Players), len(og.Players), what)
			return
		}
		for i, p := range gg.Players {
			who := orig.State.PlayerStates[orig.State.GamePlayerIndexes[i]].PlayerID
			o := og.Players[i]
			shown := og.Status.CurrentEvent == "GameClosed" && !o.Fold
			switch {
			case who == id:
				if !reflect.DeepEqual(norm(p.HoleCards), norm(o.HoleCards)) || !sameJSON(p.Combination, o.Combination) {
					x.Fail("own-cards", "%s does not see the own cards %v as they are, but %v (%s)", id, o.HoleCards, p.HoleCards, what)
				}
			case shown:
			case len(p.HoleCards) > 0:
				x.Fail("cards", "%s sees the hole cards %v of %s (%s)", id, p.HoleCards, who, what)
			case p.Combination != nil && (len(p.Combination.Cards) > 0 || p.Combination.Power != 0):
				x.Fail("strength", "%s sees the hand strength %v of %s (%s)", id, *p.Combination, who, what)
			}
		}
	}
	// everything else is shown as it is
	blank(got)
	if !reflect.DeepEqual(got, plain) {
		a, b := toJSON(plain), toJSON(got)
		k := 0
		for k < len(a) && k < len(b) && a[k] == b[k] {
			k++
		}
		x.Fail("altered", "%s is shown something else than the table's state: ...%s, instead of ...%s (%s)", id, b[max(0, k-40):min(len(b), k+40)], a[max(0, k-40):min(len(a), k+40)], what)
	}
}

func norm(s []string) []string { return append([]string{}, s...) }

func sameJSON(a, b any) bool { return toJSON(a) == toJSON(b) }

func toJSON(a any) string {
	b, _ := json.Marshal(a)
	return string(b)
}

// blank removes what a view may hide.
func blank(t *pt.Table) {
	if g := t.State.GameState; g != nil {
		g.Meta.Deck, g.Status.Burned = nil, nil
		for _, p := range g.Players {
			p.HoleCards, p.Combination = nil, nil
		}
	}
}

// table statuses under which there is a hand, and under which there is none yet
// or any more
var handStatus = []pt.TableStateStatus{pt.TableStateStatus_TableGamePlaying, pt.TableStateStatus_TableGameSettled, pt.TableStateStatus_TablePausing, pt.TableStateStatus_TableBalancing, pt.TableStateStatus_TableClosed}
var idleStatus = []pt.TableStateStatus{pt.TableStateStatus_TableCreated, pt.TableStateStatus_TablePausing, pt.TableStateStatus_TableBalancing, pt.TableStateStatus_TableClosed, pt.TableStateStatus_TableGameOpened, pt.TableStateStatus_TableGameStandby, pt.TableStateStatus_TableGamePlaying}

// viewScen shows every state of every hand of a bounded number of moves, under
// every table status, to every player and a bystander.
func viewScen(name string, seated, game []string, bank map[string]int64, depth int, direct bool) *Scenario {
	return &Scenario{Name: name, Weight: 1, Slow: true, Run: func(x *Exec) {
		f := newFelt(x, seated, game, bank, 2, 0, 10)
		for _, id := range game {
			f.auto[id] = true
		}
		f.s.Go("begin", func() {
			for _, id := range game {
				f.ready[id] = true
			}
			f.go_()
		})
		f.s.Run()
		viewers := append(append([]string{}, seated...), "stranger")
		type view struct {
			id  string
			a   actor.Actor
			got *pt.Table
			n   int
		}
		var vs []*view
		for _, id := range viewers {
			v := &view{id: id, a: actor.NewActor()}
			_ = v.a.SetAdapter(actor.NewTableEngineAdapter(nullEngine{}, f.tbl))
			r := actor.NewPlayerRunner(id)
			_ = r.OnTableStateUpdated(func(t *pt.Table) { v.got = t; v.n++ })
			_ = v.a.SetRunner(r)
			vs = append(vs, v)
		}
		// shown are the states that no other execution shows: those after the
		// last move that is not the first choice
		from := 0
		for i := 0; i < depth && !f.over() && f.turn() != ""; i++ {
			hows := []string{"passive", "fold", "raise", "allin"}
			n := len(f.past)
			k := x.Choose(len(hows))
			if k > 0 {
				from = n
			}
			id := f.turn()
			kind, amount := f.move(id, hows[k])
			f.s.Go("move", func() { _ = f.play(kind, id, amount) })
			f.s.Run()
			x.State(toJSON(f.gs.Status) + fmt.Sprint(i))
		}
		for i := 0; i < 40 && !f.over() && f.turn() != "" && len(f.s.Panics) == 0; i++ { // the rest of the hand
			id := f.turn()
			kind, amount := f.move(id, "passive")
			f.s.Go("move", func() { _ = f.play(kind, id, amount) })
			f.s.Run()
		}
		for k := from; k < len(f.past); k++ {
			for _, del := range []bool{false, true} {
				stats := handStatus
				if del {
					stats = idleStatus
				}
				if del && k > from {
					break
				}
				for _, st := range stats {
					orig := withStatus(f.past[k], st, del)
					t := withStatus(f.past[k], st, del)
					plain := withStatus(f.past[k], st, del)
					blank(plain)
					before := toJSON(t)
					ev := "no hand"
					if t.State.GameState != nil {
						ev = t.State.GameState.Status.CurrentEvent
					}
					what := fmt.Sprintf("table %s, %s, state %d", st, ev, k)
					for _, v := range vs {
						v.got, v.n = nil, 0
						f.s.Go("show", func() {
							if direct {
								_ = v.a.GetRunner().UpdateTableState(t)
							} else {
								_ = v.a.GetTable().UpdateTableState(t)
							}
						})
						f.s.Run()
						x.steps++
						if len(f.s.Panics) > 0 {
							return
						}
						if v.n != 1 {
							x.Fail("shown", "%s is shown the table %d times (%s)", v.id, v.n, what)
						}
						viewCheck(x, v.id, orig, v.got, plain, what)
						if x.viol != nil {
							return
						}
					}
					if toJSON(t) != before {
						x.Fail("shared", "showing the table to a player changes it for the others (%s)", what)
						return
					}
				}
			}
		}
	}}
}

// nullEngine accepts everything.
type nullEngine struct{ pt.TableEngine }

func (nullEngine) PlayerReady(string) error        { return nil }
func (nullEngine) PlayerPay(string, int64) error   { return nil }
func (nullEngine) PlayerPass(string) error         { return nil }
func (nullEngine) PlayerFold(string) error         { return nil }
func (nullEngine) PlayerCheck(string) error        { return nil }
func (nullEngine) PlayerCall(string) error         { return nil }
func (nullEngine) PlayerAllin(string) error        { return nil }
func (nullEngine) PlayerBet(string, int64) error   { return nil }
func (nullEngine) PlayerRaise(string, int64) error { return nil }

func withStatus(t *pt.Table, st pt.TableStateStatus, nogame bool) *pt.Table {
	var c pt.Table
	if json.Unmarshal([]byte(toJSON(t)), &c) != nil {
		vrt.Fatal("clone")
	}
	c.State.Status = st
	if nogame {
		c.State.GameState = nil
	}
	return &c
}

func init() {
	register(&Prop{ID: "C25", Scens: func(tier string) []*Scenario {
		d := 2
		if tier == "thorough" {
			d = 5
		}
		bank := map[string]int64{"a": 200, "b": 60, "c": 300, "w": 500}
		return []*Scenario{
			viewScen("view-three", []string{"w", "a", "b", "c"}, []string{"c", "a", "b"}, bank, d, false),
			viewScen("view-shared", []string{"b", "c", "w", "a"}, []string{"a", "b", "c"}, bank, d, true),
			viewScen("view-two", []string{"c", "w", "a"}, []string{"a", "c"}, bank, d+1, false),
		}
	}})
}
