package pokercompetition_test

// A small table backend and helpers for the demonstrations.

import (
	"encoding/json"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	pc "github.com/weedbox/pokercompetition"
	pt "github.com/weedbox/pokertable"
)

type kit struct {
	mu     sync.Mutex
	tabs   map[string]*pt.Table
	order  []string
	calls  []string
	upd    func(*pt.Table)
	res    func(string, *pt.TablePlayerState)
	rdy    func(string, int, []*pt.TablePlayerState)
	fail   func(call string) error
	notes  []string
	ranks  map[string][]int
	errs   []string
	cashed []string
	e      pc.CompetitionEngine
}

func (k *kit) call(f string, a ...interface{}) error {
	k.mu.Lock()
	s := fmt.Sprintf(f, a...)
	k.calls = append(k.calls, s)
	fn := k.fail
	k.mu.Unlock()
	if fn != nil {
		return fn(s)
	}
	return nil
}

func (k *kit) count(call string) int {
	k.mu.Lock()
	defer k.mu.Unlock()
	n := 0
	for _, c := range k.calls {
		if len(c) >= len(call) && c[:len(call)] == call {
			n++
		}
	}
	return n
}

func (k *kit) OnTableUpdated(fn func(*pt.Table))                                  { k.upd = fn }
func (k *kit) OnTablePlayerReserved(fn func(string, *pt.TablePlayerState))        { k.res = fn }
func (k *kit) OnReadyOpenFirstTableGame(fn func(string, int, []*pt.TablePlayerState)) { k.rdy = fn }

func (k *kit) CreateTable(o *pt.TableEngineOptions, s pt.TableSetting) (*pt.Table, error) {
	if err := k.call("CreateTable %s", s.TableID); err != nil {
		return nil, err
	}
	b := s.Blind
	t := &pt.Table{ID: s.TableID, Meta: s.Meta, State: &pt.TableState{StartAt: -1, BlindState: &b, Status: pt.TableStateStatus_TableCreated,
		PlayerStates: []*pt.TablePlayerState{}, GamePlayerIndexes: []int{}, CurrentDealerSeat: -1, CurrentSBSeat: -1, CurrentBBSeat: -1}}
	if b.Level == -1 {
		t.State.Status = pt.TableStateStatus_TablePausing
	}
	k.mu.Lock()
	k.tabs[t.ID] = t
	k.order = append(k.order, t.ID)
	k.mu.Unlock()
	for _, j := range s.JoinPlayers {
		k.seat(t.ID, j)
	}
	go k.emit(t.ID)
	return k.copy(t.ID), nil
}

func (k *kit) copy(id string) *pt.Table {
	k.mu.Lock()
	defer k.mu.Unlock()
	t := k.tabs[id]
	if t == nil {
		return nil
	}
	d, _ := json.Marshal(t)
	var c pt.Table
	json.Unmarshal(d, &c)
	return &c
}

func (k *kit) emit(id string) {
	k.mu.Lock()
	if t := k.tabs[id]; t != nil {
		t.UpdateAt = time.Now().Unix()
		t.UpdateSerial++
	}
	k.mu.Unlock()
	if c := k.copy(id); c != nil && k.upd != nil {
		k.upd(c)
	}
}

func (k *kit) seat(id string, j pt.JoinPlayer) *pt.TablePlayerState {
	k.mu.Lock()
	defer k.mu.Unlock()
	t := k.tabs[id]
	for _, p := range t.State.PlayerStates {
		if p.PlayerID == j.PlayerID {
			p.Bankroll += j.RedeemChips
			q := *p
			return &q
		}
	}
	seat := 0
	for used := true; used; {
		used = false
		for _, p := range t.State.PlayerStates {
			if p.Seat == seat {
				used = true
				seat++
			}
		}
	}
	st := pt.NewPlayerGameStatistics()
	p := &pt.TablePlayerState{PlayerID: j.PlayerID, Seat: seat, Positions: []string{}, Bankroll: j.RedeemChips, IsIn: true, GameStatistics: st}
	t.State.PlayerStates = append(t.State.PlayerStates, p)
	q := *p
	return &q
}

func (k *kit) unseat(id string, ps []string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	t := k.tabs[id]
	left := []*pt.TablePlayerState{}
	for _, p := range t.State.PlayerStates {
		out := false
		for _, x := range ps {
			out = out || x == p.PlayerID
		}
		if !out {
			left = append(left, p)
		}
	}
	t.State.PlayerStates = left
}

func (k *kit) PauseTable(id string) error { return k.call("PauseTable %s", id) }
func (k *kit) CloseTable(id string) error {
	if err := k.call("CloseTable %s", id); err != nil {
		return err
	}
	k.status(id, pt.TableStateStatus_TableClosed)
	go k.emit(id)
	return nil
}
func (k *kit) StartTableGame(id string) error {
	if err := k.call("StartTableGame %s", id); err != nil {
		return err
	}
	k.mu.Lock()
	k.tabs[id].State.StartAt = time.Now().Unix()
	k.mu.Unlock()
	go k.emit(id)
	return nil
}
func (k *kit) SetUpTableGame(id string, n int, p map[string]int) error {
	return k.call("SetUpTableGame %s #%d x%d", id, n, len(p))
}
func (k *kit) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	k.mu.Lock()
	if t := k.tabs[id]; t != nil {
		t.State.BlindState = &pt.TableBlindState{Level: level, Ante: ante, Dealer: dealer, SB: sb, BB: bb}
	}
	k.mu.Unlock()
	return k.call("UpdateBlind %s level=%d ante=%d dealer=%d sb=%d bb=%d", id, level, ante, dealer, sb, bb)
}
func (k *kit) UpdateTablePlayers(id string, j []pt.JoinPlayer, l []string) (map[string]int, error) {
	if err := k.call("UpdateTablePlayers %s in=%d out=%d", id, len(j), len(l)); err != nil {
		return nil, err
	}
	k.unseat(id, l)
	m := map[string]int{}
	for _, x := range j {
		k.seat(id, x)
	}
	for _, p := range k.copy(id).State.PlayerStates {
		m[p.PlayerID] = p.Seat
	}
	go k.emit(id)
	return m, nil
}
func (k *kit) PlayerReserve(id string, j pt.JoinPlayer) error {
	if err := k.call("PlayerReserve %s %s %d", id, j.PlayerID, j.RedeemChips); err != nil {
		return err
	}
	p := k.seat(id, j)
	go func() {
		k.res(id, p)
		k.emit(id)
	}()
	return nil
}
func (k *kit) PlayerJoin(id, p string) error { return k.call("PlayerJoin %s %s", id, p) }
func (k *kit) PlayerRedeemChips(id string, j pt.JoinPlayer) error {
	if err := k.call("PlayerRedeemChips %s %s %d", id, j.PlayerID, j.RedeemChips); err != nil {
		return err
	}
	k.seat(id, j)
	return nil
}
func (k *kit) PlayersLeave(id string, ps []string) error {
	if err := k.call("PlayersLeave %s %v", id, ps); err != nil {
		return err
	}
	k.unseat(id, ps)
	go k.emit(id)
	return nil
}
func (k *kit) UpdateTable(t *pt.Table)       {}
func (k *kit) ReleaseTable(id string) error { return k.call("ReleaseTable %s", id) }

func (k *kit) status(id string, s pt.TableStateStatus) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.tabs[id].State.Status = s
}

// begin opens the next hand of a table.
func (k *kit) begin(id string) {
	k.mu.Lock()
	s := k.tabs[id].State
	s.GameCount++
	s.Status = pt.TableStateStatus_TableGameOpened
	s.GamePlayerIndexes = []int{}
	for i, p := range s.PlayerStates {
		p.IsParticipated = p.IsIn && p.Bankroll > 0
		p.GameStatistics = pt.NewPlayerGameStatistics()
		if p.IsParticipated {
			s.GamePlayerIndexes = append(s.GamePlayerIndexes, i)
		}
	}
	k.mu.Unlock()
	k.emit(id)
	k.status(id, pt.TableStateStatus_TableGamePlaying)
	k.emit(id)
}

// settle ends the hand with the given stacks; mod may set statistics.
func (k *kit) settle(id string, banks map[string]int64, mod func(p *pt.TablePlayerState)) {
	k.mu.Lock()
	s := k.tabs[id].State
	s.Status = pt.TableStateStatus_TableGameSettled
	gs := &pokerface.GameState{Result: &settlement.Result{}}
	for gi, i := range s.GamePlayerIndexes {
		p := s.PlayerStates[i]
		old := p.Bankroll
		if v, ok := banks[p.PlayerID]; ok {
			p.Bankroll = v
		}
		if mod != nil {
			mod(p)
		}
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: gi, Combination: &pokerface.CombinationInfo{}})
		gs.Result.Players = append(gs.Result.Players, &settlement.PlayerResult{Idx: gi, Final: p.Bankroll, Changed: p.Bankroll - old})
	}
	s.GameState = gs
	k.mu.Unlock()
	k.emit(id)
}

func (k *kit) hand(id string, banks map[string]int64) {
	k.begin(id)
	k.settle(id, banks, nil)
	time.Sleep(100 * time.Millisecond)
}

func newKit() *kit {
	k := &kit{tabs: map[string]*pt.Table{}, ranks: map[string][]int{}}
	o := pt.NewTableEngineOptions()
	o.GameContinueInterval = 6
	o.OpenGameTimeout = 2
	k.e = pc.NewCompetitionEngine(pc.WithTableManagerBackend(k), pc.WithTableOptions(o))
	k.e.OnCompetitionStateUpdated(func(ev string, c *pc.Competition) {
		k.mu.Lock()
		k.notes = append(k.notes, ev+" "+string(c.State.Status))
		k.mu.Unlock()
	})
	k.e.OnCompetitionErrorUpdated(func(c *pc.Competition, err error) {
		k.mu.Lock()
		k.errs = append(k.errs, err.Error())
		k.mu.Unlock()
	})
	k.e.OnCompetitionFinalPlayerRankUpdated(func(c, p string, r int) {
		k.mu.Lock()
		k.ranks[p] = append(k.ranks[p], r)
		k.mu.Unlock()
	})
	k.e.OnCompetitionPlayerCashOut(func(c string, p *pc.CompetitionPlayer) {
		k.mu.Lock()
		k.cashed = append(k.cashed, fmt.Sprintf("%s %d", p.PlayerID, p.Chips))
		k.mu.Unlock()
	})
	return k
}

func (k *kit) noted(ev string) int {
	k.mu.Lock()
	defer k.mu.Unlock()
	n := 0
	for _, x := range k.notes {
		if len(x) >= len(ev) && x[:len(ev)] == ev {
			n++
		}
	}
	return n
}

func (k *kit) player(id string) *pc.CompetitionPlayer {
	for _, p := range k.e.GetCompetition().State.Players {
		if p.PlayerID == id {
			return p
		}
	}
	return nil
}

func level(l int, d int, addon bool) pc.BlindLevel {
	return pc.BlindLevel{Level: l, SB: int64(l) * 10, BB: int64(l) * 20, Ante: int64(l) * 5, Duration: d, AllowAddon: addon}
}

// setting makes a competition setting with one table "t1".
func setting(mode pc.CompetitionMode, final int, ls ...pc.BlindLevel) pc.CompetitionSetting {
	s := pc.CompetitionSetting{
		CompetitionID: "c1",
		Meta: pc.CompetitionMeta{
			Blind: pc.Blind{ID: "b", InitialLevel: 1, FinalBuyInLevelIndex: final, Levels: ls},
			MaxDuration: 3600, MinPlayerCount: 2, MaxPlayerCount: 9, TableMaxSeatCount: 9, TableMinPlayerCount: 2,
			Rule: pc.CompetitionRule_Default, Mode: mode, ActionTime: 10, MinChipUnit: 10,
			ReBuySetting: pc.ReBuySetting{MaxTime: 3, WaitingTime: 5}, AddonSetting: pc.AddonSetting{MaxTime: 3},
			AdvanceSetting: pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_PlayerCount, PlayerCount: 0, BlindLevel: -1},
		},
		StartAt: -1, DisableAt: time.Now().Add(time.Hour).Unix(),
		TableSettings: []pc.TableSetting{{TableID: "t1"}},
	}
	if mode == pc.CompetitionMode_MTT {
		s.TableSettings = nil
	}
	return s
}

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// create makes the competition and buys the players in with 1000 each.
func (k *kit) create(t *testing.T, s pc.CompetitionSetting, ps ...string) {
	t.Helper()
	_, err := k.e.CreateCompetition(s)
	must(t, err)
	time.Sleep(50 * time.Millisecond)
	for _, p := range ps {
		must(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: p, RedeemChips: 1000, Unit: 1}))
		time.Sleep(50 * time.Millisecond)
	}
}

// wait waits until f holds.
func wait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if f() {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return f()
}

// returns reports whether f returns in time.
func returns(d time.Duration, f func()) bool {
	c := make(chan struct{})
	go func() { f(); close(c) }()
	select {
	case <-c:
		return true
	case <-time.After(d):
		return false
	}
}
