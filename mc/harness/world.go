package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	pc "github.com/weedbox/pokercompetition"
	pf "github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	pt "github.com/weedbox/pokertable"
	"verif/vrt"
)

var _ = rand.Int

// T0 is the virtual instant every execution starts at (a quarter second into a
// second, so that rounding is visible).
const T0 = int64(1_700_000_000)*1e9 + 250e6

const (
	stReg     = pc.CompetitionStateStatus_Registering
	stDelayed = pc.CompetitionStateStatus_DelayedBuyIn
	stStopped = pc.CompetitionStateStatus_StoppedBuyIn
	stEnd     = pc.CompetitionStateStatus_End
	stAuto    = pc.CompetitionStateStatus_AutoEnd
	stForce   = pc.CompetitionStateStatus_ForceEnd

	psWait    = pc.CompetitionPlayerStatus_WaitingTableBalancing
	psPlay    = pc.CompetitionPlayerStatus_Playing
	psRebuy   = pc.CompetitionPlayerStatus_ReBuyWaiting
	psOut     = pc.CompetitionPlayerStatus_Knockout
	psLeaving = pc.CompetitionPlayerStatus_CashLeaving

	CT   = pc.CompetitionMode_CT
	MTT  = pc.CompetitionMode_MTT
	Cash = pc.CompetitionMode_Cash
)

func ended(s pc.CompetitionStateStatus) bool { return s == stEnd || s == stAuto || s == stForce }

// Cfg is a competition's configuration.
type Cfg struct {
	Mode       pc.CompetitionMode
	Min        int
	TableMin   int
	Seats      int
	Levels     []pc.BlindLevel
	Init       int
	Final      int
	RebuyMax   int
	RebuyWait  int
	AddonMax   int
	AddonBreak bool
	MaxDur     int
	StartIn    int64 // 0: no scheduled start
	DisableIn  int64
	RegMin     int
	Adv        pc.AdvanceSetting
	AdvCount   int
	Rule       pc.CompetitionRule
	DealerTime int
	Preset     []string
	NoTable    bool
	ID         string // competition (default comp)
	Table      string // its first table (default t0)
}

func lv(level int, dur int, addon bool) pc.BlindLevel {
	n := int64(level)
	if level < 0 {
		return pc.BlindLevel{Level: level, Duration: dur, AllowAddon: addon}
	}
	return pc.BlindLevel{Level: level, SB: 10 * n, BB: 20 * n, Ante: 3 * n, Duration: dur, AllowAddon: addon}
}

func baseCfg(mode pc.CompetitionMode) Cfg {
	return Cfg{Mode: mode, Min: 2, TableMin: 2, Seats: 3, Init: 1, Final: 1,
		Levels:   []pc.BlindLevel{lv(1, 100, true), lv(2, 100, true), lv(3, 1000, true)},
		RebuyMax: 1, RebuyWait: 15, AddonMax: 2, MaxDur: 3000, DisableIn: 5000, RegMin: 2, Rule: pc.CompetitionRule_Default}
}

func (c Cfg) setting() pc.CompetitionSetting {
	now := T0 / 1e9
	s := pc.CompetitionSetting{CompetitionID: "comp", StartAt: pc.UnsetValue, DisableAt: now + c.DisableIn,
		Meta: pc.CompetitionMeta{
			Blind:       pc.Blind{ID: "blind", InitialLevel: c.Init, FinalBuyInLevelIndex: c.Final, DealerBlindTime: c.DealerTime, Levels: append([]pc.BlindLevel{}, c.Levels...)},
			MaxDuration: c.MaxDur, MinPlayerCount: c.Min, MaxPlayerCount: 100, TableMaxSeatCount: c.Seats, TableMinPlayerCount: c.TableMin,
			RegulatorMinInitialPlayerCount: c.RegMin, Rule: c.Rule, Mode: c.Mode,
			ReBuySetting:   pc.ReBuySetting{MaxTime: c.RebuyMax, WaitingTime: c.RebuyWait},
			AddonSetting:   pc.AddonSetting{IsBreakOnly: c.AddonBreak, RedeemChips: []int64{500}, MaxTime: c.AddonMax},
			AdvanceSetting: c.Adv, ActionTime: 10, MinChipUnit: 10,
		}}
	if c.StartIn != 0 {
		s.StartAt = now + c.StartIn
	}
	if c.ID != "" {
		s.CompetitionID = c.ID
	}
	if c.Mode != MTT && !c.NoTable {
		ts := pc.TableSetting{TableID: "t0"}
		if c.Table != "" {
			ts.TableID = c.Table
		}
		for _, p := range c.Preset {
			ts.JoinPlayers = append(ts.JoinPlayers, pt.JoinPlayer{PlayerID: p, RedeemChips: 1000, Seat: -1})
		}
		s.TableSettings = []pc.TableSetting{ts}
	}
	return s
}

// Ev is something observable that happened.
type Ev struct {
	Kind   string // update, error, player, state, rank, cashout, adv, call, table, open, autoend
	Name   string
	Table  string
	Player string
	Chips  int64
	Rank   int
	List   []string
	Leave  []string
	Vals   [4]int64
	At     int64
	P      pc.CompetitionPlayer
	Status pc.CompetitionStateStatus
	Stat   pc.Statistic
	Comp   string
	Count  int
}

// TP is a player at a table.
type TP struct {
	ID   string
	Seat int
	Bank int64
	In   bool
}

// TSnap is a table as somebody sees it.
type TSnap struct {
	ID        string
	Status    string
	GameCount int
	StartAt   int64
	Players   []TP
	Blind     pt.TableBlindState
}

// Snap is a deep copy of the competition (and of the backend's tables).
type Snap struct {
	Now                               int64
	Serial, UpdateAt                  int64
	OpenAt, DisableAt, StartAt, EndAt int64
	Status                            pc.CompetitionStateStatus
	Lvl, Final                        int
	EndAts                            []int64
	Players                           []pc.CompetitionPlayer
	Tables                            []TSnap
	Rankings                          []pc.CompetitionRank
	Adv                               pc.AdvanceState
	AdvPlayers                        int
	Stat                              pc.Statistic
	Back                              []TSnap // the backend's live tables
}

func tsnap(t *pt.Table) TSnap {
	s := TSnap{ID: t.ID, Status: string(t.State.Status), GameCount: t.State.GameCount, StartAt: t.State.StartAt}
	if t.State.BlindState != nil {
		s.Blind = *t.State.BlindState
	}
	for _, p := range t.State.PlayerStates {
		s.Players = append(s.Players, TP{p.PlayerID, p.Seat, p.Bankroll, p.IsIn})
	}
	return s
}

// P finds a player.
func (s *Snap) P(id string) *pc.CompetitionPlayer {
	for i := range s.Players {
		if s.Players[i].PlayerID == id {
			return &s.Players[i]
		}
	}
	return nil
}

func (s *Snap) T(id string) *TSnap {
	for i := range s.Tables {
		if s.Tables[i].ID == id {
			return &s.Tables[i]
		}
	}
	return nil
}

func (s *Snap) B(id string) *TSnap {
	for i := range s.Back {
		if s.Back[i].ID == id {
			return &s.Back[i]
		}
	}
	return nil
}

func (t *TSnap) has(id string) *TP {
	if t == nil {
		return nil
	}
	for i := range t.Players {
		if t.Players[i].ID == id {
			return &t.Players[i]
		}
	}
	return nil
}

func (s *Snap) count(st pc.CompetitionPlayerStatus) int {
	n := 0
	for i := range s.Players {
		if s.Players[i].Status == st {
			n++
		}
	}
	return n
}

func (s *Snap) alive() int {
	n := 0
	for i := range s.Players {
		if s.Players[i].Chips > 0 {
			n++
		}
	}
	return n
}

// stopBuyIn is the documented rule on when buying in is over.
func (s *Snap) stopBuyIn() bool {
	if s.Final == pc.NoStopBuyInIndex {
		return false
	}
	if s.Final == pc.UnsetValue {
		return true
	}
	return s.Lvl > s.Final
}

// Step is one operation (or one timer firing) and everything it caused.
type Step struct {
	Op     Op
	Err    error
	Done   bool
	Pre    *Snap
	Post   *Snap
	Evs    []Ev
	T0, T1 int64
	Ret    int64
	Timer  string
}

func (s *Step) evs(kind, name string) []Ev {
	var o []Ev
	for _, e := range s.Evs {
		if e.Kind == kind && (name == "" || e.Name == name) {
			o = append(o, e)
		}
	}
	return o
}

// Op is an operation.
type Op struct {
	Kind string
	P    int
	T    string
	Arg  int64
	Unit int
}

func (o Op) String() string {
	s := o.Kind
	switch o.Kind {
	case "dupc":
		s = "redeliver " + o.T
	case "buyin", "addon":
		s += fmt.Sprintf(" %s chips=%d unit=%d", pname(o.P), o.Arg, o.Unit)
		if o.T != "" {
			s += " table " + o.T
		}
	case "refund", "cashout", "quit", "join":
		s += " " + pname(o.P)
	case "hand":
		s += " wait for the next hand at " + o.T
	case "settle", "settlew":
		s += fmt.Sprintf(" %s outcome %d", o.T, o.Arg)
		if o.Unit > 0 {
			s += fmt.Sprintf(" statistics %d", o.Unit)
		}
	case "close", "initlevel", "pass":
		s += fmt.Sprintf(" %d", o.Arg)
	}
	return s
}

func pname(i int) string { return fmt.Sprintf("p%02d", i) }

// World is one competition under test with its backend and its observers.
type World struct {
	X          *Exec
	S          *vrt.Sched
	Cfg        Cfg
	B          *Stub
	CE         pc.CompetitionEngine
	C          *pc.Competition
	Evs        []Ev
	Steps      []*Step
	Mons       []func(w *World, s *Step)
	last       *Snap
	evPos      int
	open       []*pend // threads of operations that have not returned
	inDo       bool
	Seat       bool // join seats at once after a buy-in
	Memo       map[string]any
	onEv       func(e *Ev)
	lastPar    []parRes
	wasPlaying bool
}

type pend struct {
	op Op
	th *vrt.Thread
	at int64
}

func (w *World) NowSec() int64 { return w.S.Now() / 1e9 }

func (w *World) ev(e Ev) {
	e.At = w.S.Now()
	if w.onEv != nil {
		w.onEv(&e)
	}
	w.Evs = append(w.Evs, e)
}

func copyPlayer(p *pc.CompetitionPlayer) pc.CompetitionPlayer {
	q := *p
	q.BestWinningCombo = append([]string{}, p.BestWinningCombo...)
	return q
}

func snapComp(c *pc.Competition) *Snap {
	s := &Snap{Serial: c.UpdateSerial, UpdateAt: c.UpdateAt, OpenAt: c.State.OpenAt, DisableAt: c.State.DisableAt, StartAt: c.State.StartAt, EndAt: c.State.EndAt,
		Status: c.State.Status, Lvl: c.State.BlindState.CurrentLevelIndex, Final: c.State.BlindState.FinalBuyInLevelIndex,
		EndAts: append([]int64{}, c.State.BlindState.EndAts...), Adv: *c.State.AdvanceState, Stat: *c.State.Statistic, AdvPlayers: c.Meta.AdvanceSetting.PlayerCount}
	s.Adv.UpdatedTableIDs = append([]string{}, s.Adv.UpdatedTableIDs...)
	for _, p := range c.State.Players {
		s.Players = append(s.Players, copyPlayer(p))
	}
	for _, t := range c.State.Tables {
		s.Tables = append(s.Tables, tsnap(t))
	}
	for _, r := range c.State.Rankings {
		s.Rankings = append(s.Rankings, *r)
	}
	return s
}

// Snapshot copies the current state.
func (w *World) Snapshot() *Snap {
	var s *Snap
	if w.C == nil {
		s = &Snap{}
	} else {
		s = snapComp(w.C)
	}
	s.Now = w.S.Now()
	for _, id := range w.B.order {
		t := w.B.tables[id]
		if !t.closed && !t.released {
			s.Back = append(s.Back, tsnap(t.T))
		}
	}
	return s
}

func (w *World) hook(ce pc.CompetitionEngine) {
	ce.OnCompetitionUpdated(func(c *pc.Competition) {
		w.ev(Ev{Kind: "update", Chips: c.UpdateSerial, Status: c.State.Status, Comp: c.ID, Vals: [4]int64{c.UpdateAt}})
	})
	ce.OnCompetitionErrorUpdated(func(c *pc.Competition, err error) {
		w.ev(Ev{Kind: "error", Name: fmt.Sprint(err), Comp: c.ID})
	})
	ce.OnCompetitionPlayerUpdated(func(id string, p *pc.CompetitionPlayer) {
		w.ev(Ev{Kind: "player", Player: p.PlayerID, P: copyPlayer(p), Comp: id})
	})
	ce.OnCompetitionFinalPlayerRankUpdated(func(id, p string, rank int) {
		w.ev(Ev{Kind: "rank", Player: p, Rank: rank, Comp: id})
	})
	ce.OnCompetitionStateUpdated(func(event string, c *pc.Competition) {
		w.ev(Ev{Kind: "state", Name: event, Status: c.State.Status, Stat: *c.State.Statistic, Comp: c.ID})
	})
	ce.OnCompetitionPlayerCashOut(func(id string, p *pc.CompetitionPlayer) {
		w.ev(Ev{Kind: "cashout", Player: p.PlayerID, Chips: p.Chips, P: copyPlayer(p), Comp: id})
	})
	ce.OnAdvancePlayerCountUpdated(func(id string, n int) int {
		w.ev(Ev{Kind: "adv", Rank: n, Comp: id})
		return w.Cfg.AdvCount
	})
}

// bareWorld has no competition yet.
func bareWorld(x *Exec, cfg Cfg) *World {
	w := &World{X: x, S: x.S, Cfg: cfg, Memo: map[string]any{}}
	x.w = w
	w.B = newStub(w)
	opts := pt.NewTableEngineOptions()
	opts.GameContinueInterval = 6
	w.CE = pc.NewCompetitionEngine(pc.WithTableOptions(opts), pc.WithTableManagerBackend(w.B))
	w.hook(w.CE)
	return w
}

// newWorld creates a competition.
func newWorld(x *Exec, cfg Cfg, mons ...func(w *World, s *Step)) *World {
	w := bareWorld(x, cfg)
	var err error
	w.thread("create", func() { w.C, err = w.CE.CreateCompetition(cfg.setting()) })
	if err != nil || w.C == nil {
		x.Fail("create", "creating a valid competition failed: %v", err)
	}
	w.last = w.Snapshot()
	w.evPos = len(w.Evs)
	w.Mons = mons
	return w
}

// thread runs fn to quiescence.
func (w *World) thread(name string, fn func()) *vrt.Thread {
	t := w.S.Go(name, fn)
	w.S.Run()
	w.check()
	return t
}

// check ends the execution on a panic or a livelock.
func (w *World) check() {
	if len(w.S.Panics) > 0 || w.S.Over {
		panic(stopExec{})
	}
}

// begin / end delimit a step.
func (w *World) end(op Op, err error, done bool, timer string) *Step {
	s := &Step{Op: op, Err: err, Done: done, Pre: w.last, T0: w.last.Now, T1: w.S.Now(), Timer: timer}
	s.Post = w.Snapshot()
	s.Evs = w.Evs[w.evPos:]
	w.evPos = len(w.Evs)
	w.last = s.Post
	w.Steps = append(w.Steps, s)
	if w.X.Verbose {
		w.X.Log = append(w.X.Log, w.describe(s))
	}
	w.X.State(w.stateKey(s.Post))
	for _, m := range w.Mons {
		m(w, s)
	}
	return s
}

func (w *World) describe(s *Step) string {
	var b strings.Builder
	fmt.Fprintf(&b, "+%.2fs %s", float64(s.T1-T0)/1e9, s.Op)
	if s.Timer != "" {
		fmt.Fprintf(&b, " (%s)", s.Timer)
	}
	if s.Err != nil {
		fmt.Fprintf(&b, " -> %v", s.Err)
	}
	if !s.Done {
		b.WriteString(" (not returned)")
	}
	p := s.Post
	fmt.Fprintf(&b, " | %s lvl=%d", p.Status, p.Lvl)
	for i := range p.Players {
		q := &p.Players[i]
		fmt.Fprintf(&b, " %s:%s/%d/#%d", q.PlayerID, q.Status, q.Chips, q.CompetitionRank)
	}
	for _, t := range p.Back {
		fmt.Fprintf(&b, " [%s %s g%d", t.ID, t.Status, t.GameCount)
		for _, q := range t.Players {
			fmt.Fprintf(&b, " %s=%d", q.ID, q.Bank)
		}
		b.WriteString("]")
	}
	var names []string
	for _, e := range s.Evs {
		switch e.Kind {
		case "state", "call":
			names = append(names, e.Name)
		case "rank":
			names = append(names, fmt.Sprintf("finalrank(%s,%d)", e.Player, e.Rank))
		case "cashout":
			names = append(names, fmt.Sprintf("cashout(%s,%d)", e.Player, e.Chips))
		case "error":
			names = append(names, "error("+e.Name+")")
		case "open":
			names = append(names, fmt.Sprintf("open(%s,%d,%v)", e.Table, e.Rank, e.List))
		}
	}
	if len(names) > 0 {
		fmt.Fprintf(&b, " {%s}", strings.Join(names, " "))
	}
	return b.String()
}

// stateKey is the abstraction counted as "states".
func (w *World) stateKey(s *Snap) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%s|%d|%d|%v|%v|", w.X.Scen, s.Status, s.Lvl, len(s.Rankings), s.Stat, s.Adv)
	for i := range s.Players {
		p := &s.Players[i]
		fmt.Fprintf(&b, "%s,%s,%d,%d,%d,%d,%v,%d;", p.PlayerID, p.Status, p.Chips, p.CompetitionRank, p.ReBuyTimes, p.AddonTimes, p.IsReBuying, p.CurrentSeat)
	}
	for _, t := range s.Back {
		fmt.Fprintf(&b, "%s,%d,%v;", t.Status, t.GameCount, t.Players)
	}
	fmt.Fprintf(&b, "%d", len(w.open))
	return b.String()
}

// call performs an API operation's effect inside a thread.
func (w *World) call(op Op) (func() (int64, error), bool) {
	p := pname(op.P)
	if op.T == "t0" && w.Cfg.Mode == MTT && len(w.B.order) > 0 {
		op.T = w.B.order[0]
	}
	tid := op.T
	if tid == "" {
		tid = "t0"
		if w.Cfg.Table != "" {
			tid = w.Cfg.Table
		}
	}
	switch op.Kind {
	case "buyin":
		return func() (int64, error) {
			return 0, w.CE.PlayerBuyIn(pc.JoinPlayer{PlayerID: p, RedeemChips: op.Arg, Unit: op.Unit})
		}, true
	case "addon":
		return func() (int64, error) {
			return 0, w.CE.PlayerAddon(tid, pc.JoinPlayer{PlayerID: p, RedeemChips: op.Arg, Unit: op.Unit})
		}, true
	case "refund":
		return func() (int64, error) { return 0, w.CE.PlayerRefund(p) }, true
	case "cashout":
		return func() (int64, error) { return 0, w.CE.PlayerCashOut(tid, p) }, true
	case "quit":
		return func() (int64, error) { return 0, w.CE.PlayerQuit(tid, p) }, true
	case "start":
		return func() (int64, error) { return w.CE.StartCompetition() }, true
	case "close":
		st := stEnd
		if op.Arg == 1 {
			st = stForce
		}
		if op.Arg == 2 {
			st = stAuto
		}
		return func() (int64, error) { return 0, w.CE.CloseCompetition(st) }, true
	case "initlevel":
		return func() (int64, error) { return 0, w.CE.UpdateCompetitionBlindInitialLevel(int(op.Arg)) }, true
	case "autoend":
		return func() (int64, error) { return 0, w.CE.AutoGameOpenEnd(tid) }, true
	case "join":
		return func() (int64, error) {
			for _, id := range w.B.order {
				t := w.B.tables[id]
				if !t.closed && !t.released && t.T.FindPlayerIdx(p) >= 0 {
					return 0, w.B.PlayerJoin(id, p)
				}
			}
			return 0, errNoTable
		}, true
	case "settle", "settlew":
		t := w.B.tables[op.T]
		if w.B.told != nil {
			k := tableKey(w.B, op.T)
			if l := w.B.told.hands[k]; len(l) > 0 {
				w.B.told.hands[k] = l[1:]
				return func() (int64, error) { w.B.settle(t, l[0]); return 0, nil }, true
			}
			return func() (int64, error) { return 0, nil }, true
		}
		o := w.outcome(t, int(op.Arg))
		w.stats(t, &o, op.Unit)
		return func() (int64, error) { w.B.settle(t, o); return 0, nil }, true
	case "dup":
		t := w.B.tables[op.T]
		d := cloneTable(t.lastSet)
		d.UpdateAt = w.NowSec()
		return func() (int64, error) { w.CE.UpdateTable(d); return 0, nil }, true
	case "dupc":
		// another delivery of the update of the hand being settled
		t := w.B.tables[op.T]
		n := t.T.State.GameCount
		return func() (int64, error) {
			vrt.Block(func() bool { return t.lastSet != nil && t.lastSet.State.GameCount == n })
			w.CE.UpdateTable(cloneTable(t.lastSet))
			return 0, nil
		}, true
	case "pausetable":
		t := w.B.tables[op.T]
		return func() (int64, error) { t.T.State.Status = pt.TableStateStatus_TablePausing; w.B.emit(t); return 0, nil }, true
	case "rawres":
		return func() (int64, error) {
			w.CE.UpdateReserveTablePlayerState(tid, &pt.TablePlayerState{PlayerID: p, Seat: int(op.Arg)})
			return 0, nil
		}, true
	case "rawready":
		return func() (int64, error) {
			return 0, w.CE.ReadyFirstTableGame(tid, int(op.Arg), []*pt.TablePlayerState{{PlayerID: p, Seat: 1, IsIn: true, Bankroll: 10}, {PlayerID: "p01", Seat: 2, IsIn: true, Bankroll: 10}})
		}, true
	case "rawupd":
		d := &pt.Table{ID: tid, UpdateAt: w.NowSec(), State: &pt.TableState{Status: pt.TableStateStatus_TableCreated}}
		if t := w.B.tables[tid]; t != nil {
			d = cloneTable(t.T)
		}
		return func() (int64, error) { w.CE.UpdateTable(d); return 0, nil }, true
	case "closetable":
		return func() (int64, error) { return 0, w.B.CloseTable(op.T) }, true
	}
	return nil, false
}

// outcome: 0..n-1: participant k wins 100 of each; n..2n-1: participant k-n
// loses everything to the next; 2n..3n-1: everyone loses everything to k-2n.
func (w *World) outcome(t *STable, v int) Outcome {
	last := t.Opens[len(t.Opens)-1]
	n := len(last.Parts)
	o := Outcome{Final: map[string]int64{}}
	bank := map[string]int64{}
	for _, p := range last.Parts {
		if i := t.T.FindPlayerIdx(p); i >= 0 {
			bank[p] = t.T.State.PlayerStates[i].Bankroll
		}
	}
	parts := []string{}
	for _, i := range t.T.State.GamePlayerIndexes {
		parts = append(parts, t.T.State.PlayerStates[i].PlayerID)
	}
	sort.Strings(parts)
	n = len(parts)
	if n == 0 {
		return o
	}
	k := v % n
	switch v / n {
	case 0:
		for i, p := range parts {
			if i == k {
				continue
			}
			d := int64(100)
			if bank[p] < d {
				d = bank[p]
			}
			o.Final[p] = bank[p] - d
			o.Final[parts[k]] += d
		}
		o.Final[parts[k]] += bank[parts[k]]
	case 1:
		nx := parts[(k+1)%n]
		o.Final[parts[k]] = 0
		o.Final[nx] = bank[nx] + bank[parts[k]]
	case 3:
		// everybody else is left with a single chip
		for i, p := range parts {
			if i != k && bank[p] > 1 {
				o.Final[p] = 1
				o.Final[parts[k]] += bank[p] - 1
			}
		}
		o.Final[parts[k]] += bank[parts[k]]
	default:
		for _, p := range parts {
			o.Final[p] = 0
			o.Final[parts[k]] += bank[p]
		}
		var sum int64
		for _, p := range parts {
			sum += bank[p]
		}
		o.Final[parts[k]] = sum
	}
	return o
}

// playing reports whether t is in the middle of a hand.
func (t *STable) playing() bool {
	return !t.closed && !t.released && t.T.State.Status == pt.TableStateStatus_TableGamePlaying
}

// start launches op in a thread without running it.
func (w *World) launch(op Op, ret *int64, err *error) *pend {
	fn, ok := w.call(op)
	if !ok {
		vrt.Fatal("unknown operation %v", op)
	}
	p := &pend{op: op, at: w.S.Now()}
	p.th = w.S.Go(op.Kind, func() { *ret, *err = fn() })
	return p
}

// Do performs one operation to quiescence.
func (w *World) Do(op Op) *Step {
	switch op.Kind {
	case "tick":
		return w.tick()
	case "pass":
		w.Pass(op.Arg * 1e6)
		return w.lastStep(op)
	case "sit":
		w.joinAll()
		return w.lastStep(op)
	case "hand":
		w.untilPlaying(op.T, 30e9)
		return w.lastStep(op)
	}
	var ret int64
	var err error
	p := w.launch(op, &ret, &err)
	w.S.Run()
	w.check()
	done := p.th.Done()
	if !done {
		w.open = append(w.open, p)
	}
	st := w.end(op, err, done, "")
	st.Ret = ret
	if !done && op.Kind != "settlew" {
		w.finish(p)
		if op.Kind != "settle" {
			st.Err, st.Done, st.Ret = err, true, ret
		}
	}
	if w.Seat && op.Kind == "buyin" && err == nil {
		w.joinAll()
	}
	return st
}

func (w *World) lastStep(op Op) *Step {
	if len(w.Steps) == 0 {
		return w.end(op, nil, true, "")
	}
	return w.Steps[len(w.Steps)-1]
}

// finish lets time pass until p returned (3 s at most).
func (w *World) finish(p *pend) {
	lim := w.S.Now() + 3e9
	for !p.th.Done() {
		n := w.S.NextTimer()
		if n < 0 || n > lim {
			w.X.Fail("stuck:"+p.op.Kind, "the call %v never returns; still running: %v", p.op, w.S.Live())
		}
		w.tick()
	}
	w.reap()
}

func (w *World) reap() {
	var o []*pend
	for _, q := range w.open {
		if !q.th.Done() {
			o = append(o, q)
		}
	}
	w.open = o
}

// tick advances to the next timer and fires it.
func (w *World) tick() *Step {
	name := w.S.NextName()
	w.S.FireOne()
	w.S.Run()
	w.check()
	w.reap()
	return w.end(Op{Kind: "tick"}, nil, true, name)
}

// Pass advances the clock, stopping at every timer.
func (w *World) Pass(d int64) {
	lim := w.S.Now() + d
	for {
		n := w.S.NextTimer()
		if n < 0 || n > lim {
			break
		}
		w.tick()
	}
	w.S.AdvanceTo(lim, nil)
	w.end(Op{Kind: "pass", Arg: d / 1e6}, nil, true, "")
}

// Until fires timers until cond holds; it reports success.
func (w *World) Until(max int64, cond func() bool) bool {
	lim := w.S.Now() + max
	for !cond() {
		n := w.S.NextTimer()
		if n < 0 || n > lim {
			return false
		}
		w.tick()
	}
	return true
}

// drain lets d nanoseconds pass and checks that everything returned.
func (w *World) drain(d int64) {
	w.Pass(d)
	w.reap()
	for _, p := range w.open {
		w.X.Fail("stuck:"+p.op.Kind, "the call %v never returns; still running: %v", p.op, w.S.Live())
	}
	if l := w.S.Live(); len(l) > 0 {
		w.X.Fail("stuck:thread", "threads never finish: %v", l)
	}
}

func (w *World) joinAll() {
	for _, id := range append([]string{}, w.B.order...) {
		t := w.B.tables[id]
		for _, p := range append([]*pt.TablePlayerState{}, t.T.State.PlayerStates...) {
			if !p.IsIn && !t.closed && !t.released {
				var k int
				fmt.Sscanf(p.PlayerID, "p%d", &k)
				w.Do(Op{Kind: "join", P: k})
			}
		}
	}
}

// parRes is the result of one of several concurrent operations.
type parRes struct {
	Op   Op
	Ret  int64
	Err  error
	Done bool
}

// Par runs ops concurrently, exploring interleavings of their statements. The
// order in which they start is a free choice.
func (w *World) Par(ops ...Op) []parRes {
	res := make([]parRes, len(ops))
	var ps []*pend
	idx := make([]int, len(ops))
	for i := range idx {
		idx[i] = i
	}
	var tm *vrt.Timer
	for _, o := range ops {
		if o.Kind == "fire" {
			tm = w.S.NextT()
			if tm == nil {
				vrt.Fatal("no timer to fire in %v", ops)
			}
		}
	}
	// permutation by free choices
	var order []int
	for len(idx) > 0 {
		k := w.X.Choose(len(idx))
		order = append(order, idx[k])
		idx = append(idx[:k], idx[k+1:]...)
	}
	for _, i := range order {
		res[i].Op = ops[i]
		if ops[i].Kind == "fire" {
			res[i].Done = true
			ps = append(ps, nil)
			continue
		}
		p := w.launch(ops[i], &res[i].Ret, &res[i].Err)
		ps = append(ps, p)
	}
	// timers that fire now: their work competes with the operations
	for _, i := range order {
		if ops[i].Kind == "fire" {
			w.S.FireT(tm)
		}
	}
	w.S.Fine = true
	w.S.Run()
	w.check()
	w.S.Fine = false
	lim := w.S.Now() + 3e9
	for {
		all := true
		for _, p := range ps {
			all = all && (p == nil || p.th.Done())
		}
		if all {
			break
		}
		n := w.S.NextTimer()
		if n < 0 || n > lim {
			break
		}
		w.S.Fine = true
		w.S.FireOne()
		w.S.Run()
		w.check()
		w.S.Fine = false
	}
	for k, p := range ps {
		if p == nil {
			continue
		}
		res[order[k]].Done = p.th.Done()
		if !p.th.Done() {
			w.X.Fail("stuck:"+p.op.Kind, "concurrent call %v never returns; still running: %v", p.op, w.S.Live())
		}
	}
	w.lastPar = res
	st := w.end(Op{Kind: "par"}, nil, true, fmt.Sprint(ops))
	_ = st
	return res
}

func buyin(p int, chips int64) Op { return Op{Kind: "buyin", P: p, Arg: chips, Unit: 1} }

// seed buys in n players (one second apart) who sit down at once.
func (w *World) seed(n int, chips int64) {
	for i := 0; i < n; i++ {
		w.Pass(1e9)
		w.Do(buyin(i, chips))
		w.joinAll()
	}
}

// firstHand waits for a hand at table id.
func (w *World) untilPlaying(id string, max int64) bool {
	return w.Until(max, func() bool { t := w.B.tables[id]; return t != nil && t.playing() })
}

func (w *World) mustPlay(id string) {
	if !w.untilPlaying(id, 60e9) {
		w.X.Fail("no-hand", "no hand is opened at table %s although enough players are seated", id)
	}
}

func (w *World) anyPlaying() string {
	for _, id := range w.B.order {
		if w.B.tables[id].playing() {
			return id
		}
	}
	return ""
}

func newResult() *settlement.Result { return settlement.NewResult() }

func addResult(gs *pf.GameState, idx int, final, changed int64) {
	gs.Result.Players = append(gs.Result.Players, &settlement.PlayerResult{Idx: idx, Final: final, Changed: changed})
}

// --- comparisons ---

// diffSnap compares what an operation may not change when it is rejected.
func diffSnap(a, b *Snap) string {
	x, y := *a, *b
	x.Now, y.Now = 0, 0
	if reflect.DeepEqual(x, y) {
		return ""
	}
	v, u := reflect.ValueOf(x), reflect.ValueOf(y)
	for i := 0; i < v.NumField(); i++ {
		if !reflect.DeepEqual(v.Field(i).Interface(), u.Field(i).Interface()) {
			return fmt.Sprintf("%s: %v -> %v", v.Type().Field(i).Name, v.Field(i).Interface(), u.Field(i).Interface())
		}
	}
	return "?"
}

// diffPlayer compares two players, ignoring the live ranks.
func diffPlayer(a, b pc.CompetitionPlayer) string {
	a.CompetitionRank, b.CompetitionRank = 0, 0
	if reflect.DeepEqual(a, b) {
		return ""
	}
	v, u := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < v.NumField(); i++ {
		if !reflect.DeepEqual(v.Field(i).Interface(), u.Field(i).Interface()) {
			return fmt.Sprintf("%s: %v -> %v", v.Type().Field(i).Name, v.Field(i).Interface(), u.Field(i).Interface())
		}
	}
	return "?"
}

// othersSame: every player but skip is unchanged (ranks aside) and in order.
func othersSame(a, b *Snap, skip string) string {
	var x, y []pc.CompetitionPlayer
	for _, p := range a.Players {
		if p.PlayerID != skip {
			x = append(x, p)
		}
	}
	for _, p := range b.Players {
		if p.PlayerID != skip {
			y = append(y, p)
		}
	}
	if len(x) != len(y) {
		return fmt.Sprintf("%d other players became %d", len(x), len(y))
	}
	for i := range x {
		if x[i].PlayerID != y[i].PlayerID {
			return fmt.Sprintf("player %s replaced by %s", x[i].PlayerID, y[i].PlayerID)
		}
		if d := diffPlayer(x[i], y[i]); d != "" {
			return x[i].PlayerID + " " + d
		}
	}
	return ""
}
