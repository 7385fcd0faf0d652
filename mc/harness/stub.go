package main

import (
	"errors"
	"fmt"
	"sort"

	pc "github.com/weedbox/pokercompetition"
	pf "github.com/weedbox/pokerface"
	pt "github.com/weedbox/pokertable"
	"verif/vrt"
	"verif/vrt/vsync"
)

// STable is one table of the stub table backend. It follows the contract of
// github.com/weedbox/pokertable's table engine at the granularity the
// competition can observe (see conform.go for the check of that claim).
type STable struct {
	T        *pt.Table
	lock     vsync.Mutex
	released bool
	closed   bool
	joinT    *vrt.Timer
	ogmT     *vrt.Timer
	retryT   *vrt.Timer
	contT    *vrt.Timer
	joining  bool
	ogmN     int // game count asked for
	ogmParts map[string]int
	retries  int
	retried  bool // ever
	dealer   int
	settling bool
	standby  bool
	lastSet  *pt.Table       // last settled table update, for redelivery
	paused   bool            // PauseTable was called
	refused  int             // requests in a row that found no seat
	broke    map[string]bool // players without chips after the last hand; chips bought in bring them back, redeemed ones do not
	eng      pt.TableEngine  // the library's table (conform.go)
	seen     map[string]bool // its players

	SetUps []SetUp
	Opens  []Open
	Starts int
}

// SetUp is a request to set up a hand.
type SetUp struct {
	At    int64
	Count int
	Parts map[string]int
}

// Open is a hand that was opened.
type Open struct {
	At    int64
	Count int
	Level int
	Parts []string
	Bank  map[string]int64
	Blind pt.TableBlindState
}

// Stub is a table manager backend.
type Stub struct {
	BadJoin  []string
	w        *World
	tables   map[string]*STable
	order    []string
	onUpd    func(*pt.Table)
	onRes    func(string, *pt.TablePlayerState)
	onReady  func(string, int, []*pt.TablePlayerState)
	Interval int64
	Fail     func(op, table, player string) error
	seatRev  bool
	real     *Real // play on the library's tables
	told     *Real // a run on the library's tables to follow
}

var errNoTable = errors.New("manager: table not found")
var errNoPlayer = errors.New("seat manager: player not found")

func newStub(w *World) *Stub {
	return &Stub{w: w, tables: map[string]*STable{}, Interval: 6}
}

func (b *Stub) OnTableUpdated(fn func(*pt.Table)) { b.onUpd = fn }
func (b *Stub) OnTablePlayerReserved(fn func(string, *pt.TablePlayerState)) {
	b.onRes = fn
}
func (b *Stub) OnReadyOpenFirstTableGame(fn func(string, int, []*pt.TablePlayerState)) {
	b.onReady = fn
}

func (b *Stub) get(id string) *STable { return b.tables[id] }

func (b *Stub) live(id string) (*STable, error) {
	t := b.tables[id]
	if t == nil || t.closed || t.released {
		return nil, errNoTable
	}
	return t, nil
}

func cloneTable(t *pt.Table) *pt.Table {
	c := *t
	s := *t.State
	c.State = &s
	if t.State.BlindState != nil {
		x := *t.State.BlindState
		s.BlindState = &x
	}
	if t.State.GameBlindState != nil {
		x := *t.State.GameBlindState
		s.GameBlindState = &x
	}
	s.SeatMap = append([]int{}, t.State.SeatMap...)
	s.PlayerStates = make([]*pt.TablePlayerState, len(t.State.PlayerStates))
	for i, p := range t.State.PlayerStates {
		q := *p
		q.Positions = append([]string{}, p.Positions...)
		s.PlayerStates[i] = &q
	}
	s.GamePlayerIndexes = append([]int{}, t.State.GamePlayerIndexes...)
	s.NextBBOrderPlayerIDs = append([]string{}, t.State.NextBBOrderPlayerIDs...)
	return &c
}

func (b *Stub) emit(t *STable) {
	t.T.UpdateAt = b.w.NowSec()
	t.T.UpdateSerial++
	c := cloneTable(t.T)
	if t.T.State.Status == pt.TableStateStatus_TableGameSettled && (t.lastSet == nil || t.lastSet.State.GameCount != t.T.State.GameCount) {
		t.lastSet = cloneTable(t.T)
	}
	ready := []string{}
	for _, p := range t.T.State.PlayerStates {
		if p.IsIn && p.Bankroll > 0 {
			ready = append(ready, p.PlayerID)
		}
	}
	sort.Strings(ready)
	b.w.ev(Ev{Kind: "table", Name: string(t.T.State.Status), Table: t.T.ID, Rank: t.T.State.GameCount, List: ready})
	if b.onUpd != nil {
		b.onUpd(c)
	}
}

func (b *Stub) call(name, table, player string, chips int64) {
	b.w.ev(Ev{Kind: "call", Name: name, Table: table, Player: player, Chips: chips})
}

func (b *Stub) fail(op, table, player string) error {
	if b.Fail != nil {
		return b.Fail(op, table, player)
	}
	return nil
}

// joins notes what is wrong with the players who are asked to sit down:
// someone twice, someone who is not in the competition, someone who still
// plays elsewhere, or other chips than the player has.
func (b *Stub) joins(id string, join []pt.JoinPlayer, leave []string) {
	bad := func(f string, a ...any) {
		b.BadJoin = append(b.BadJoin, fmt.Sprintf(f, a...))
	}
	seen := map[string]bool{}
	for _, j := range join {
		if seen[j.PlayerID] {
			bad("%s is asked to sit at table %s twice", j.PlayerID, id)
		}
		seen[j.PlayerID] = true
		if b.w.Cfg.Mode != MTT || b.w.CE == nil {
			continue
		}
		c := b.w.CE.GetCompetition()
		var p *pc.CompetitionPlayer
		for _, q := range c.State.Players {
			if q.PlayerID == j.PlayerID {
				p = q
			}
		}
		if p == nil {
			bad("%s is asked to sit at table %s but is not in the competition", j.PlayerID, id)
			continue
		}
		if p.Chips != j.RedeemChips {
			bad("%s has %d chips but is asked to sit at table %s with %d", j.PlayerID, p.Chips, id, j.RedeemChips)
		}
		for _, o := range b.order {
			t := b.tables[o]
			if o == id || t.closed || t.T.State.Status == pt.TableStateStatus_TableClosed {
				continue
			}
			if i := t.T.FindPlayerIdx(j.PlayerID); i >= 0 && t.T.State.PlayerStates[i].Bankroll > 0 {
				bad("%s is asked to sit at table %s but plays at table %s", j.PlayerID, id, o)
			}
		}
	}
}

func (b *Stub) CreateTable(o *pt.TableEngineOptions, set pt.TableSetting) (*pt.Table, error) {
	b.call("CreateTable", set.TableID, "", int64(len(set.JoinPlayers)))
	b.joins(set.TableID, set.JoinPlayers, nil)
	if err := b.fail("CreateTable", set.TableID, ""); err != nil {
		return nil, err
	}
	if b.real != nil {
		return b.real.createTable(o, set)
	}
	if o != nil {
		b.Interval = int64(o.GameContinueInterval)
	}
	if len(set.JoinPlayers) > set.Meta.TableMaxSeatCount {
		return nil, pt.ErrTableInvalidCreateSetting
	}
	st := pt.TableStateStatus_TableCreated
	if set.Blind.Level == -1 {
		st = pt.TableStateStatus_TablePausing
	}
	bl := set.Blind
	seats := make([]int, set.Meta.TableMaxSeatCount)
	for i := range seats {
		seats[i] = -1
	}
	t := &STable{dealer: -1, T: &pt.Table{ID: set.TableID, Meta: set.Meta, State: &pt.TableState{
		StartAt: -1, BlindState: &bl, CurrentDealerSeat: -1, CurrentSBSeat: -1, CurrentBBSeat: -1,
		SeatMap: seats, PlayerStates: []*pt.TablePlayerState{}, GamePlayerIndexes: []int{}, Status: st, NextBBOrderPlayerIDs: []string{},
	}}}
	b.tables[set.TableID] = t
	b.order = append(b.order, set.TableID)
	b.emit(t)
	if len(set.JoinPlayers) > 0 {
		if err := b.addPlayers(t, set.JoinPlayers); err != nil {
			return nil, err
		}
		if t.T.Meta.Mode == "mtt" && t.T.State.Status != pt.TableStateStatus_TablePausing {
			t.T.State.Status = pt.TableStateStatus_TableBalancing
		}
		b.emit(t)
	}
	return t.T, nil
}

func (b *Stub) addPlayers(t *STable, ps []pt.JoinPlayer) error {
	free := []int{}
	for i, x := range t.T.State.SeatMap {
		if x == -1 {
			free = append(free, i)
		}
	}
	if len(free) < len(ps) {
		return pt.ErrTableNoEmptySeats
	}
	if b.seatRev {
		sort.Sort(sort.Reverse(sort.IntSlice(free)))
	}
	var added []*pt.TablePlayerState
	for i, p := range ps {
		for _, q := range t.T.State.PlayerStates {
			if q.PlayerID == p.PlayerID {
				return fmt.Errorf("stub: player %s is already at the table", p.PlayerID)
			}
		}
		seat := free[i]
		if p.Seat >= 0 && p.Seat < len(t.T.State.SeatMap) && t.T.State.SeatMap[p.Seat] == -1 {
			seat = p.Seat
		}
		if b.told != nil {
			k := tableKey(b, t.T.ID) + "/" + p.PlayerID
			if l := b.told.seats[k]; len(l) > 0 {
				seat, b.told.seats[k] = l[0], l[1:]
			}
		}
		delete(t.broke, p.PlayerID)
		ps := &pt.TablePlayerState{PlayerID: p.PlayerID, Seat: seat, Positions: []string{}, Bankroll: p.RedeemChips}
		t.T.State.PlayerStates = append(t.T.State.PlayerStates, ps)
		t.T.State.SeatMap[seat] = len(t.T.State.PlayerStates) - 1
		added = append(added, ps)
	}
	// everyone is seated by force 17 s after the last arrival
	vrt.StopTimer(t.joinT)
	t.joining = true
	t.joinT = vrt.AddTimer(b.w.S.Now()+17e9, "auto-join", func() {
		vrt.R.Go("auto-join", func() { b.joinDone(t) })
	})
	for _, p := range added {
		if b.onRes != nil {
			q := *p
			b.onRes(t.T.ID, &q)
		}
	}
	return nil
}

func (b *Stub) joinDone(t *STable) {
	if !t.joining {
		return
	}
	t.joining = false
	vrt.StopTimer(t.joinT)
	if t.closed || t.released {
		return
	}
	for _, p := range append([]*pt.TablePlayerState{}, t.T.State.PlayerStates...) {
		if !p.IsIn {
			p.IsIn = true
			b.emit(t)
		}
	}
	in, alive := 0, 0
	for _, p := range t.T.State.PlayerStates {
		if p.IsIn {
			in++
		}
		if p.Bankroll > 0 {
			alive++
		}
	}
	running := false
	switch t.T.State.Status {
	case pt.TableStateStatus_TableGameOpened, pt.TableStateStatus_TableGamePlaying, pt.TableStateStatus_TableGameSettled, pt.TableStateStatus_TableGameStandby:
		running = true
	}
	if in >= 2 && alive >= 2 && !running && t.T.State.BlindState.Level > 0 && t.T.State.GameCount == 0 && t.T.Meta.Mode == "mtt" {
		b.startGame(t)
	}
}

func (b *Stub) PauseTable(id string) error {
	b.call("PauseTable", id, "", 0)
	if err := b.fail("PauseTable", id, ""); err != nil {
		return err
	}
	if b.real != nil {
		return b.real.nb.PauseTable(id)
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	t.T.State.Status = pt.TableStateStatus_TablePausing
	t.paused = true
	return nil
}

func (b *Stub) CloseTable(id string) error {
	b.call("CloseTable", id, "", 0)
	if err := b.fail("CloseTable", id, ""); err != nil {
		return err
	}
	if b.real != nil {
		err := b.real.nb.CloseTable(id)
		if t := b.tables[id]; err == nil && t != nil {
			t.closed, t.released = true, true
		}
		return err
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	t.T.State.Status = pt.TableStateStatus_TableClosed
	t.released = true
	b.emit(t)
	t.closed = true
	return nil
}

func (b *Stub) StartTableGame(id string) error {
	b.call("StartTableGame", id, "", 0)
	if err := b.fail("StartTableGame", id, ""); err != nil {
		return err
	}
	if b.real != nil {
		return b.real.nb.StartTableGame(id)
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	b.startGame(t)
	return nil
}

func (b *Stub) startGame(t *STable) {
	if t.T.State.StartAt != -1 {
		return
	}
	t.T.State.StartAt = b.w.NowSec()
	t.Starts++
	b.emit(t)
	if b.onReady != nil {
		var ps []*pt.TablePlayerState
		for _, p := range t.T.State.PlayerStates {
			q := *p
			ps = append(ps, &q)
		}
		ready := []string{}
		for _, p := range ps {
			if p.IsIn && p.Bankroll > 0 {
				ready = append(ready, p.PlayerID)
			}
		}
		sort.Strings(ready)
		b.w.ev(Ev{Kind: "ready", Table: t.T.ID, Rank: t.T.State.GameCount, List: ready})
		b.onReady(t.T.ID, t.T.State.GameCount, ps)
	}
}

func (b *Stub) SetUpTableGame(id string, n int, parts map[string]int) error {
	names := []string{}
	for k := range parts {
		names = append(names, k)
	}
	sort.Strings(names)
	b.w.ev(Ev{Kind: "call", Name: "SetUpTableGame", Table: id, Rank: n, List: names})
	if err := b.fail("SetUpTableGame", id, ""); err != nil {
		return err
	}
	if b.real != nil {
		return b.real.nb.SetUpTableGame(id, n, parts)
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	cp := map[string]int{}
	for k, v := range parts {
		cp[k] = v
	}
	t.SetUps = append(t.SetUps, SetUp{b.w.S.Now(), n, cp})
	b.setUp(t, n, parts)
	return nil
}

func (b *Stub) setUp(t *STable, n int, parts map[string]int) {
	vrt.StopTimer(t.ogmT)
	t.ogmN = n
	t.ogmParts = parts
	if len(parts) == 0 {
		return
	}
	t.ogmT = vrt.AddTimer(b.w.S.Now()+2e9, "open", func() {
		vrt.R.Go("open", func() {
			if len(parts) >= 2 {
				t.retries = 0
				b.open(t)
			}
		})
	})
}

func (b *Stub) open(t *STable) {
	if t.T.State.GameState != nil {
		return
	}
	bs := t.T.State.BlindState
	set := bs.Level != 0 && bs.Ante != -1 && bs.Dealer != -1 && bs.SB != -1 && bs.BB != -1
	if set && bs.Level == -1 {
		return
	}
	var idx []int
	takes := func(p *pt.TablePlayerState) bool {
		if !p.IsIn || p.Bankroll <= 0 || t.broke[p.PlayerID] {
			return false
		}
		if b.told != nil {
			// the library lets newcomers wait until the blinds have passed them
			l, ok := b.told.parts[fmt.Sprint(tableKey(b, t.T.ID), "/", t.T.State.GameCount+1)]
			for _, x := range l {
				if x == p.PlayerID {
					return true
				}
			}
			return !ok
		}
		return true
	}
	for i, p := range t.T.State.PlayerStates {
		if takes(p) {
			idx = append(idx, i)
		}
	}
	if !set || len(idx) < 2 {
		// the real engine retries every 3 s, ten times, holding its lock
		if t.retries < 10 {
			t.retries++
			t.retried = true
			t.retryT = vrt.AddTimer(b.w.S.Now()+3e9, "retry-open", func() {
				vrt.R.Go("retry-open", func() {
					switch t.T.State.Status {
					case pt.TableStateStatus_TableGameOpened, pt.TableStateStatus_TableGamePlaying, pt.TableStateStatus_TableGameSettled:
						return
					}
					b.open(t)
				})
			})
		}
		return
	}
	s := t.T.State
	for _, p := range s.PlayerStates {
		p.IsParticipated = takes(p)
		p.GameStatistics = pt.NewPlayerGameStatistics()
	}
	// order by seat, rotating the dealer
	sort.Slice(idx, func(i, j int) bool { return s.PlayerStates[idx[i]].Seat < s.PlayerStates[idx[j]].Seat })
	k := s.GameCount % len(idx)
	s.GamePlayerIndexes = append(append([]int{}, idx[k:]...), idx[:k]...)
	s.CurrentDealerSeat = s.PlayerStates[s.GamePlayerIndexes[0]].Seat
	n := len(s.GamePlayerIndexes)
	s.CurrentBBSeat = s.PlayerStates[s.GamePlayerIndexes[2%n]].Seat
	if n == 2 {
		s.CurrentBBSeat = s.PlayerStates[s.GamePlayerIndexes[1]].Seat
	}
	s.GameCount++
	if b.told != nil {
		if v, ok := b.told.bb[fmt.Sprint(tableKey(b, t.T.ID), "/", s.GameCount)]; ok {
			s.CurrentDealerSeat, s.CurrentBBSeat = v[0], v[1]
		}
	}
	s.Status = pt.TableStateStatus_TableGameOpened
	o := Open{At: b.w.S.Now(), Count: s.GameCount, Level: bs.Level, Bank: map[string]int64{}, Blind: *bs}
	for _, i := range s.GamePlayerIndexes {
		o.Parts = append(o.Parts, s.PlayerStates[i].PlayerID)
		o.Bank[s.PlayerStates[i].PlayerID] = s.PlayerStates[i].Bankroll
	}
	t.Opens = append(t.Opens, o)
	b.w.ev(Ev{Kind: "open", Table: t.T.ID, Rank: s.GameCount, List: o.Parts})
	b.emit(t)
	gs := &pf.GameState{GameID: fmt.Sprintf("%s-%d", t.T.ID, s.GameCount)}
	gs.Status.CurrentEvent = "ReadyRequested"
	for gi, i := range s.GamePlayerIndexes {
		gs.Players = append(gs.Players, &pf.PlayerState{Idx: gi, Bankroll: s.PlayerStates[i].Bankroll, InitialStackSize: s.PlayerStates[i].Bankroll, StackSize: s.PlayerStates[i].Bankroll, Combination: &pf.CombinationInfo{}})
	}
	s.GameState = gs
	g := *bs
	s.GameBlindState = &g
	s.Status = pt.TableStateStatus_TableGamePlaying
	b.emit(t)
}

// Outcome is how a hand ends.
type Outcome struct {
	Final map[string]int64 // chips each participant ends with (missing: unchanged)
	Stats map[string]pt.TablePlayerGameStatistics
	Power map[string]int
	Type  map[string]string
	Cards map[string][]string
	Won   map[string]int64 // what a real hand reported as won, when following one
}

// settle ends the hand of t; it must run in a thread.
func (b *Stub) settle(t *STable, o Outcome) {
	s := t.T.State
	if s.Status != pt.TableStateStatus_TableGamePlaying {
		vrt.Fatal("settle without a hand")
	}
	s.Status = pt.TableStateStatus_TableGameSettled
	gs := *s.GameState
	gs.Status.CurrentEvent = "GameClosed"
	gs.Result = newResult()
	var players []*pf.PlayerState
	for gi, i := range s.GamePlayerIndexes {
		p := s.PlayerStates[i]
		fin, ok := o.Final[p.PlayerID]
		if !ok {
			fin = p.Bankroll
		}
		won := fin - p.Bankroll
		if v, ok := o.Won[p.PlayerID]; ok {
			won = v
		}
		addResult(&gs, gi, fin, won)
		q := *gs.Players[gi]
		q.Combination = &pf.CombinationInfo{Power: o.Power[p.PlayerID], Type: o.Type[p.PlayerID], Cards: o.Cards[p.PlayerID]}
		players = append(players, &q)
		p.Bankroll = fin
		if st, ok := o.Stats[p.PlayerID]; ok {
			p.GameStatistics = st
		}
	}
	gs.Players = players
	s.GameState = &gs
	s.NextBBOrderPlayerIDs = nil
	mx := len(s.SeatMap)
	for i := s.CurrentBBSeat + 1; i <= mx+s.CurrentBBSeat; i++ {
		pi := s.SeatMap[i%mx]
		if pi >= 0 && s.PlayerStates[pi].Bankroll > 0 {
			s.NextBBOrderPlayerIDs = append(s.NextBBOrderPlayerIDs, s.PlayerStates[pi].PlayerID)
		}
	}
	var alive []string
	for _, i := range s.GamePlayerIndexes {
		if s.PlayerStates[i].Bankroll > 0 {
			alive = append(alive, s.PlayerStates[i].PlayerID)
		}
	}
	t.settling = true
	b.emit(t)
	t.settling = false
	s = t.T.State
	// next
	if s.Status != pt.TableStateStatus_TableClosed {
		s.Status = pt.TableStateStatus_TableGameStandby
	} else {
		// the real engine overwrites the status; its table is released by then
		s.Status = pt.TableStateStatus_TableGameStandby
	}
	s.GamePlayerIndexes = []int{}
	s.NextBBOrderPlayerIDs = []string{}
	s.GameState = nil
	for _, p := range s.PlayerStates {
		p.GameStatistics = pt.NewPlayerGameStatistics()
		p.IsParticipated = p.IsIn && p.Bankroll > 0
		if t.broke == nil {
			t.broke = map[string]bool{}
		}
		if t.broke[p.PlayerID] = p.Bankroll <= 0; !t.broke[p.PlayerID] {
			delete(t.broke, p.PlayerID)
		}
	}
	over := false
	if t.T.Meta.Mode == "ct" || t.T.Meta.Mode == "cash" {
		over = b.w.NowSec() > s.StartAt+int64(t.T.Meta.MaxDuration)
	}
	if over {
		t.contT = vrt.AddTimer(b.w.S.Now()+1e9, "auto-open-end", func() {
			vrt.R.Go("auto-open-end", func() {
				b.w.ev(Ev{Kind: "autoend", Table: t.T.ID})
				b.w.CE.AutoGameOpenEnd(t.T.ID)
			})
		})
		return
	}
	t.standby = true
	t.contT = vrt.AddTimer(b.w.S.Now()+b.Interval*1e9, "continue", func() {
		vrt.R.Go("continue", func() {
			t.standby = false
			if t.T.State.Status == pt.TableStateStatus_TableClosed || t.released {
				return
			}
			al := 0
			for _, p := range t.T.State.PlayerStates {
				if p.Bankroll > 0 {
					al++
				}
			}
			if t.T.State.BlindState.Level == -1 || al < t.T.Meta.TableMinPlayerCount {
				t.T.State.Status = pt.TableStateStatus_TablePausing
				b.emit(t)
				return
			}
			if t.T.State.Status == pt.TableStateStatus_TableGameStandby {
				m := map[string]int{}
				for i, a := range alive {
					m[a] = i
				}
				b.setUp(t, t.T.State.GameCount+1, m)
			}
		})
	})
}

func (b *Stub) UpdateBlind(id string, level int, ante, dealer, sb, bb int64) error {
	b.w.ev(Ev{Kind: "call", Name: "UpdateBlind", Table: id, Rank: level, Vals: [4]int64{ante, dealer, sb, bb}})
	if err := b.fail("UpdateBlind", id, ""); err != nil {
		return err
	}
	if b.real != nil {
		return b.real.nb.UpdateBlind(id, level, ante, dealer, sb, bb)
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	*t.T.State.BlindState = pt.TableBlindState{Level: level, Ante: ante, Dealer: dealer, SB: sb, BB: bb}
	return nil
}

// removePlayers takes players from a table. Like the library's it fails when one
// of them is not there, with the others already gone.
func (b *Stub) removePlayers(t *STable, ids []string) (err error) {
	s := t.T.State
	for _, p := range ids {
		if t.T.FindPlayerIdx(p) < 0 {
			err = errNoPlayer
		}
	}
	gone := map[string]bool{}
	for _, p := range ids {
		gone[p] = true
	}
	game := []string{}
	for _, i := range s.GamePlayerIndexes {
		game = append(game, s.PlayerStates[i].PlayerID)
	}
	var keep []*pt.TablePlayerState
	for _, p := range s.PlayerStates {
		if !gone[p.PlayerID] {
			keep = append(keep, p)
		}
	}
	if keep == nil {
		keep = []*pt.TablePlayerState{}
	}
	s.PlayerStates = keep
	for i := range s.SeatMap {
		s.SeatMap[i] = -1
	}
	pos := map[string]int{}
	for i, p := range keep {
		s.SeatMap[p.Seat] = i
		pos[p.PlayerID] = i
	}
	s.GamePlayerIndexes = []int{}
	for _, g := range game {
		if i, ok := pos[g]; ok {
			s.GamePlayerIndexes = append(s.GamePlayerIndexes, i)
		}
	}
	return
}

func (b *Stub) UpdateTablePlayers(id string, join []pt.JoinPlayer, leave []string) (map[string]int, error) {
	var js []string
	for _, j := range join {
		js = append(js, j.PlayerID)
	}
	b.joins(id, join, leave)
	b.w.ev(Ev{Kind: "call", Name: "UpdateTablePlayers", Table: id, List: js, Leave: append([]string{}, leave...)})
	if err := b.fail("UpdateTablePlayers", id, ""); err != nil {
		return nil, err
	}
	if b.real != nil {
		b.real.leave(id, leave)
		return b.real.nb.UpdateTablePlayers(id, join, leave)
	}
	t, err := b.live(id)
	if err != nil {
		return nil, err
	}
	t.lock.Lock()
	defer t.lock.Unlock()
	if len(leave) > 0 {
		if err := b.removePlayers(t, leave); err != nil {
			return nil, err
		}
	}
	if len(join) > 0 {
		if err := b.addPlayers(t, join); err != nil {
			if t.refused++; t.refused > 500 {
				// the same request for ever
				if b.w.X.viol == nil {
					b.w.X.viol = &Viol{Prop: b.w.X.Prop, Scenario: b.w.X.Scen, Code: "assign-loop", Msg: fmt.Sprintf("players %v are assigned to table %s, which refuses them, again and again without end", js, id)}
				}
				b.w.S.Over = true
				vrt.Block(func() bool { return false })
			}
			return nil, err
		}
	}
	t.refused = 0
	b.emit(t)
	return t.T.PlayerSeatMap(), nil
}

func (b *Stub) PlayerReserve(id string, j pt.JoinPlayer) error {
	b.call("PlayerReserve", id, j.PlayerID, j.RedeemChips)
	if err := b.fail("PlayerReserve", id, j.PlayerID); err != nil {
		return err
	}
	if b.real != nil {
		return b.real.nb.PlayerReserve(id, j)
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	t.lock.Lock()
	defer t.lock.Unlock()
	i := t.T.FindPlayerIdx(j.PlayerID)
	if i < 0 {
		if len(t.T.State.PlayerStates) == t.T.Meta.TableMaxSeatCount {
			return pt.ErrTableNoEmptySeats
		}
		if err := b.addPlayers(t, []pt.JoinPlayer{j}); err != nil {
			return err
		}
	} else {
		p := t.T.State.PlayerStates[i]
		p.Bankroll += j.RedeemChips
		delete(t.broke, p.PlayerID)
		if b.onRes != nil {
			q := *p
			b.onRes(id, &q)
		}
	}
	b.emit(t)
	return nil
}

func (b *Stub) PlayerJoin(id, player string) error {
	if b.real != nil {
		return b.real.nb.PlayerJoin(id, player)
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	i := t.T.FindPlayerIdx(player)
	if i < 0 {
		return pt.ErrTablePlayerNotFound
	}
	p := t.T.State.PlayerStates[i]
	if p.IsIn {
		return nil
	}
	p.IsIn = true
	all := true
	for _, q := range t.T.State.PlayerStates {
		all = all && q.IsIn
	}
	if all && t.joining {
		vrt.R.Go("all-joined", func() { b.joinDone(t) })
	}
	b.emit(t)
	return nil
}

func (b *Stub) PlayerRedeemChips(id string, j pt.JoinPlayer) error {
	b.call("PlayerRedeemChips", id, j.PlayerID, j.RedeemChips)
	if err := b.fail("PlayerRedeemChips", id, j.PlayerID); err != nil {
		return err
	}
	if b.real != nil {
		return b.real.nb.PlayerRedeemChips(id, j)
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	i := t.T.FindPlayerIdx(j.PlayerID)
	if i < 0 {
		return pt.ErrTablePlayerNotFound
	}
	t.T.State.PlayerStates[i].Bankroll += j.RedeemChips
	b.emit(t)
	return nil
}

func (b *Stub) PlayersLeave(id string, ids []string) error {
	b.w.ev(Ev{Kind: "call", Name: "PlayersLeave", Table: id, Leave: append([]string{}, ids...)})
	if err := b.fail("PlayersLeave", id, ""); err != nil {
		return err
	}
	if b.real != nil {
		b.real.leave(id, ids)
		return b.real.nb.PlayersLeave(id, ids)
	}
	t, err := b.live(id)
	if err != nil {
		return err
	}
	t.lock.Lock()
	defer t.lock.Unlock()
	if err := b.removePlayers(t, ids); err != nil {
		return err
	}
	b.emit(t)
	return nil
}

func (b *Stub) UpdateTable(t *pt.Table) {
	if b.onUpd != nil {
		b.onUpd(t)
	}
}

func (b *Stub) ReleaseTable(id string) error {
	b.call("ReleaseTable", id, "", 0)
	if err := b.fail("ReleaseTable", id, ""); err != nil {
		return err
	}
	if b.real != nil {
		err := b.real.nb.ReleaseTable(id)
		if t := b.tables[id]; err == nil && t != nil {
			t.released = true
		}
		return err
	}
	t := b.tables[id]
	if t == nil || t.released {
		return errNoTable
	}
	t.released = true
	return nil
}
