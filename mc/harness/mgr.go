package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	pc "github.com/weedbox/pokercompetition"
	pt "github.com/weedbox/pokertable"
	"verif/vrt"
)

// -------- C23: several competitions behind one manager --------
//
// The same history of operations is run twice: on two competitions behind one
// manager that share a table backend, and on each competition alone with an
// engine and a backend of its own. Everything observable of each competition
// must be equal at every point of the history.

// mux is one backend for several competitions' tables, with one set of
// handlers (as the native backend has).
type mux struct {
	of   map[string]*Stub // by competition
	none *Stub            // answers for tables that do not exist
}

func (m *mux) OnTableUpdated(fn func(*pt.Table)) {
	for _, s := range m.of {
		s.OnTableUpdated(fn)
	}
}
func (m *mux) OnTablePlayerReserved(fn func(string, *pt.TablePlayerState)) {
	for _, s := range m.of {
		s.OnTablePlayerReserved(fn)
	}
}
func (m *mux) OnReadyOpenFirstTableGame(fn func(string, int, []*pt.TablePlayerState)) {
	for _, s := range m.of {
		s.OnReadyOpenFirstTableGame(fn)
	}
}
func (m *mux) at(id string) *Stub {
	for _, k := range sortedKeys(m.of) {
		if m.of[k].tables[id] != nil {
			return m.of[k]
		}
	}
	return m.none
}
func (m *mux) CreateTable(o *pt.TableEngineOptions, s pt.TableSetting) (*pt.Table, error) {
	b := m.of[s.Meta.CompetitionID]
	if b == nil {
		return nil, errNoTable
	}
	return b.CreateTable(o, s)
}
func (m *mux) PauseTable(id string) error     { return m.at(id).PauseTable(id) }
func (m *mux) CloseTable(id string) error     { return m.at(id).CloseTable(id) }
func (m *mux) StartTableGame(id string) error { return m.at(id).StartTableGame(id) }
func (m *mux) SetUpTableGame(id string, n int, p map[string]int) error {
	return m.at(id).SetUpTableGame(id, n, p)
}
func (m *mux) UpdateBlind(id string, l int, a, d, s, b int64) error {
	return m.at(id).UpdateBlind(id, l, a, d, s, b)
}
func (m *mux) UpdateTablePlayers(id string, j []pt.JoinPlayer, l []string) (map[string]int, error) {
	return m.at(id).UpdateTablePlayers(id, j, l)
}
func (m *mux) PlayerReserve(id string, j pt.JoinPlayer) error { return m.at(id).PlayerReserve(id, j) }
func (m *mux) PlayerJoin(id, p string) error                  { return m.at(id).PlayerJoin(id, p) }
func (m *mux) PlayerRedeemChips(id string, j pt.JoinPlayer) error {
	return m.at(id).PlayerRedeemChips(id, j)
}
func (m *mux) PlayersLeave(id string, p []string) error { return m.at(id).PlayersLeave(id, p) }
func (m *mux) UpdateTable(t *pt.Table)                  { m.at(t.ID).UpdateTable(t) }
func (m *mux) ReleaseTable(id string) error             { return m.at(id).ReleaseTable(id) }

// viaMgr reaches one competition through the manager.
type viaMgr struct {
	pc.CompetitionEngine
	m   pc.Manager
	id  string
	err error // of operations that return none
}

func (v *viaMgr) UpdateCompetitionBlindInitialLevel(l int) error {
	return v.m.UpdateCompetitionBlindInitialLevel(v.id, l)
}
func (v *viaMgr) CloseCompetition(st pc.CompetitionStateStatus) error {
	return v.m.CloseCompetition(v.id, st)
}
func (v *viaMgr) StartCompetition() (int64, error) { return v.m.StartCompetition(v.id) }
func (v *viaMgr) UpdateTable(t *pt.Table)          { v.err = v.m.UpdateTable(v.id, t) }
func (v *viaMgr) UpdateReserveTablePlayerState(t string, p *pt.TablePlayerState) {
	v.err = v.m.UpdateReserveTablePlayerState(v.id, t, p)
}
func (v *viaMgr) AutoGameOpenEnd(t string) error { return v.m.AutoGameOpenEnd(v.id, t) }
func (v *viaMgr) ReadyFirstTableGame(t string, n int, p []*pt.TablePlayerState) error {
	return v.m.ReadyFirstTableGame(v.id, t, n, p)
}
func (v *viaMgr) PlayerBuyIn(j pc.JoinPlayer) error           { return v.m.PlayerBuyIn(v.id, j) }
func (v *viaMgr) PlayerAddon(t string, j pc.JoinPlayer) error { return v.m.PlayerAddon(v.id, t, j) }
func (v *viaMgr) PlayerRefund(p string) error                 { return v.m.PlayerRefund(v.id, p) }
func (v *viaMgr) PlayerCashOut(t, p string) error             { return v.m.PlayerCashOut(v.id, t, p) }
func (v *viaMgr) PlayerQuit(t, p string) error                { return v.m.PlayerQuit(v.id, t, p) }

// hooks collects an engine's handlers as options.
type hooks struct {
	pc.CompetitionEngine
	o *pc.CompetitionEngineOptions
}

func (h hooks) OnCompetitionUpdated(f func(*pc.Competition)) { h.o.OnCompetitionUpdated = f }
func (h hooks) OnCompetitionErrorUpdated(f func(*pc.Competition, error)) {
	h.o.OnCompetitionErrorUpdated = f
}
func (h hooks) OnCompetitionPlayerUpdated(f func(string, *pc.CompetitionPlayer)) {
	h.o.OnCompetitionPlayerUpdated = f
}
func (h hooks) OnCompetitionFinalPlayerRankUpdated(f func(string, string, int)) {
	h.o.OnCompetitionFinalPlayerRankUpdated = f
}
func (h hooks) OnCompetitionStateUpdated(f func(string, *pc.Competition)) {
	h.o.OnCompetitionStateUpdated = f
}
func (h hooks) OnAdvancePlayerCountUpdated(f func(string, int) int) {
	h.o.OnAdvancePlayerCountUpdated = f
}
func (h hooks) OnCompetitionPlayerCashOut(f func(string, *pc.CompetitionPlayer)) {
	h.o.OnCompetitionPlayerCashOut = f
}

// slot is one operation of a history and the time that passes after it.
type slot struct {
	Who int // 0, 1: a competition; 2: unknown competition; 3, 4: release; 5: reset
	Op  Op
	Ms  int64
}

func (s slot) String() string {
	switch s.Who {
	case 2:
		return "calls to an unknown competition"
	case 3, 4:
		return fmt.Sprintf("release %d", s.Who-3)
	case 5:
		return "reset"
	}
	return fmt.Sprintf("%d: %v", s.Who, s.Op)
}

var uuidRx = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}`)

// line is what one competition shows of the last slot.
func (w *World) line(res string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s\n", res)
	for _, e := range w.Evs[w.evPos:] {
		if e.Kind == "call" && e.Name != "CreateTable" && w.B.tables[e.Table] == nil {
			continue // a table that does not exist has no competition
		}
		fmt.Fprintf(&b, "  %s\n", e.short())
	}
	w.evPos = len(w.Evs)
	w.last = w.Snapshot()
	fmt.Fprintf(&b, "  %s", w.stateKey(w.last))
	ids, _ := w.Memo["ids"].(map[string]string)
	if ids == nil {
		ids = map[string]string{}
		w.Memo["ids"] = ids
	}
	return uuidRx.ReplaceAllStringFunc(b.String(), func(u string) string {
		if ids[u] == "" {
			ids[u] = fmt.Sprintf("table%d", len(ids))
		}
		return ids[u]
	})
}

// play performs an operation; the result is complete when the slot is over.
func (w *World) play(op Op, res *string) {
	if op.Kind == "pass" {
		return
	}
	if op.Kind == "sitall" {
		w.S.Go("sit", func() {
			for _, id := range w.B.order {
				t := w.B.tables[id]
				for _, p := range append([]*pt.TablePlayerState{}, t.T.State.PlayerStates...) {
					if !p.IsIn && !t.closed && !t.released {
						_ = w.B.PlayerJoin(id, p.PlayerID)
					}
				}
			}
		})
		return
	}
	if op.T == "" && op.Kind == "settle" {
		id := w.anyPlaying()
		if id == "" {
			*res = "no hand"
			return
		}
		op.T = id
	}
	if op.Kind == "settle" && w.B.real != nil {
		w.B.real.playHand(w.B.tables[op.T], scripts[int(op.Arg)])
		*res = "0 <nil>"
		return
	}
	if op.Kind == "rawupd" || op.Kind == "rawres" || op.Kind == "rawready" || op.Kind == "addon" || op.Kind == "quit" || op.Kind == "cashout" || op.Kind == "autoend" {
		if op.T == "" && w.Cfg.Mode == MTT && len(w.B.order) > 0 {
			op.T = w.B.order[0]
		}
	}
	fn, _ := w.call(op)
	*res = "never returned"
	w.S.Go(op.Kind, func() {
		r, err := fn()
		*res = fmt.Sprintf("%d %v", r, err)
	})
}

func passTo(w *World, ms int64) {
	lim := w.S.Now() + ms*1e6
	w.S.Run()
	w.check()
	for {
		n := w.S.NextTimer()
		if n < 0 || n > lim {
			break
		}
		w.S.FireOne()
		w.S.Run()
		w.check()
	}
	w.S.AdvanceTo(lim, nil)
}

var soloMemo = map[string][]string{}

// solo runs a history of one competition alone.
func solo(name string, cfg Cfg, hist []slot, who int) []string {
	key := fmt.Sprint(name, who)
	for _, s := range hist {
		if s.Who == who {
			key += "|" + s.Op.String()
		} else if s.Who == 5 {
			key += "|reset"
		} else {
			key += "|"
		}
		key += fmt.Sprint(s.Ms)
	}
	if r, ok := soloMemo[key]; ok {
		return r
	}
	save := vrt.R
	defer func() { vrt.R = save }()
	var out []string
	sc := &Scenario{Name: name, Run: func(x *Exec) {
		w := bareWorld(x, cfg)
		var err error
		w.thread("create", func() { w.C, err = w.CE.CreateCompetition(cfg.setting()) })
		out = append(out, w.line(fmt.Sprint(err)))
		for _, s := range hist {
			res := ""
			if s.Who == who {
				w.play(s.Op, &res)
			} else if s.Who == 5 {
				w.play(Op{Kind: "close", Arg: 1}, &res)
			}
			passTo(w, s.Ms)
			if s.Who == 5 {
				res = ""
			}
			out = append(out, w.line(res))
		}
	}}
	x := runOne(sc, "", "", nil, map[uint64]struct{}{}, false)
	if x.viol != nil {
		// the competition itself misbehaves; other properties say so
		out = append(out, "!")
	}
	if len(soloMemo) < 200000 {
		soloMemo[key] = out
	}
	return out
}

// mgrScen runs histories of two competitions behind a manager.
func mgrScen(name string, cfgs [2]Cfg, setup []slot, alpha func() []slot, depth int) *Scenario {
	for i := range cfgs {
		cfgs[i].ID = fmt.Sprintf("comp%d", i)
		cfgs[i].Table = fmt.Sprintf("t%d", i)
	}
	return &Scenario{Name: name, Weight: 1, Run: func(x *Exec) {
		b := &mux{of: map[string]*Stub{}, none: newStub(&World{X: x, S: x.S, Memo: map[string]any{}})}
		m := pc.NewManager(b)
		to := pt.NewTableEngineOptions()
		to.GameContinueInterval = 6
		m.SetTableEngineOptions(to)
		if m.GetTableEngineOptions() != to {
			x.Fail("options", "the manager does not return the table options it was given")
		}
		var ws [2]*World
		var vs [2]*viaMgr
		known := [2]bool{true, true}
		for i := range ws {
			w := &World{X: x, S: x.S, Cfg: cfgs[i], Memo: map[string]any{}}
			x.w = w
			w.B = newStub(w)
			b.of[cfgs[i].ID] = w.B
			ws[i] = w
		}
		var tr [2][]string
		// a competition that cannot be created is unknown
		bad := cfgs[0].setting()
		bad.CompetitionID = "bad"
		bad.DisableAt = 1
		var err error
		ws[0].thread("create", func() { _, err = m.CreateCompetition(bad, pc.NewDefaultCompetitionEngineOptions()) })
		if err == nil {
			x.Fail("create-bad", "the manager creates a competition that the engine refuses")
		}
		unknown := func(id string, when string) {
			ws[0].thread("unknown", func() {
				j := pc.JoinPlayer{PlayerID: "p00", RedeemChips: 1000, Unit: 1}
				ps := &pt.TablePlayerState{PlayerID: "p00", Seat: 2}
				errs := map[string]error{}
				_, errs["GetCompetitionEngine"] = m.GetCompetitionEngine(id)
				_, errs["StartCompetition"] = m.StartCompetition(id)
				errs["UpdateCompetitionBlindInitialLevel"] = m.UpdateCompetitionBlindInitialLevel(id, 2)
				errs["CloseCompetition"] = m.CloseCompetition(id, stForce)
				for _, tid := range []string{"t0", "t1", "none"} {
					errs["UpdateTable"] = m.UpdateTable(id, &pt.Table{ID: tid, State: &pt.TableState{Status: pt.TableStateStatus_TableClosed}})
					errs["UpdateReserveTablePlayerState"] = m.UpdateReserveTablePlayerState(id, tid, ps)
					errs["AutoGameOpenEnd"] = m.AutoGameOpenEnd(id, tid)
					errs["ReadyFirstTableGame"] = m.ReadyFirstTableGame(id, tid, 1, []*pt.TablePlayerState{ps})
					errs["PlayerAddon"] = m.PlayerAddon(id, tid, j)
					errs["PlayerCashOut"] = m.PlayerCashOut(id, tid, "p00")
					errs["PlayerQuit"] = m.PlayerQuit(id, tid, "p00")
				}
				errs["PlayerBuyIn"] = m.PlayerBuyIn(id, j)
				errs["PlayerRefund"] = m.PlayerRefund(id, "p00")
				for _, k := range sortedKeys(errs) {
					if !errors.Is(errs[k], pc.ErrManagerCompetitionNotFound) {
						x.viol = &Viol{Prop: x.Prop, Scenario: x.Scen, Code: "unknown", Msg: fmt.Sprintf("%s: %s returns %v instead of the not-found error", when, k, errs[k])}
						return
					}
				}
				if id == "nobody" {
					m.ReleaseCompetition(id)
				}
			})
			if x.viol != nil {
				panic(stopExec{})
			}
		}
		unknown("bad", "a competition that could not be created")
		for i, w := range ws {
			h := hooks{o: pc.NewDefaultCompetitionEngineOptions()}
			w.hook(h)
			v := &viaMgr{m: m, id: cfgs[i].ID}
			w.thread("create", func() { w.C, err = m.CreateCompetition(cfgs[i].setting(), h.o) })
			if err != nil || w.C == nil {
				x.Fail("create", "creating a valid competition through the manager failed: %v", err)
			}
			v.CompetitionEngine, err = m.GetCompetitionEngine(cfgs[i].ID)
			if err != nil {
				x.Fail("create", "a created competition is unknown: %v", err)
			}
			w.CE = v
			vs[i] = v
		}
		for i, w := range ws {
			tr[i] = append(tr[i], w.line("<nil>"))
		}
		var hist []slot
		do := func(s slot) {
			// operations on a competition that is unknown by now never arrive
			h := s
			var res [2]string
			switch {
			case s.Who < 2 && !known[s.Who]:
				unknown(cfgs[s.Who].ID, fmt.Sprintf("%v after it was released or closed", s.Op))
				h.Who = 2
			case s.Who < 2:
				vs[s.Who].err = nil
				ws[s.Who].play(s.Op, &res[s.Who])
			case s.Who == 2:
				unknown("nobody", "an unknown competition")
			case s.Who == 3 || s.Who == 4:
				m.ReleaseCompetition(cfgs[s.Who-3].ID)
				known[s.Who-3] = false
			case s.Who == 5:
				ws[0].thread("reset", func() { m.Reset() })
				if known != [2]bool{true, true} {
					// closes the known ones only
					vrt.Fatal("reset of a released competition")
				}
				known = [2]bool{}
			}
			x.Logf("%v", s)
			hist = append(hist, h)
			passTo(ws[0], s.Ms)
			for i, w := range ws {
				tr[i] = append(tr[i], w.line(res[i]))
				if s.Who == i {
					x.Logf("  %s %s", res[i], ws[i].last.Status)
				}
				x.State(w.stateKey(w.last))
			}
			if s.Who < 2 && vs[s.Who].err != nil {
				x.Fail("routing", "%v: the manager answers %v", s, vs[s.Who].err)
			}
			if s.Who < 2 && s.Op.Kind == "close" && strings.HasSuffix(res[s.Who], "<nil>") {
				known[s.Who] = false
			}
		}
		for _, s := range setup {
			do(s)
		}
		for k := 0; k < depth; k++ {
			var al []slot
			for _, s := range alpha() {
				if s.Who == 5 && known != [2]bool{true, true} {
					continue
				}
				al = append(al, s)
			}
			c := x.Choose(len(al) + 1)
			if c == 0 {
				break
			}
			do(al[c-1])
		}
		do(slot{Who: 2, Ms: 700000})
		for i := range ws {
			want := solo(name, cfgs[i], hist, i)
			for k := range tr[i] {
				if k >= len(want) || want[k] != tr[i][k] {
					if k < len(want) && want[k] == "!" {
						break
					}
					was := "creation"
					if k > 0 {
						was = hist[k-1].String()
					}
					x.Fail("differs", "competition %d behaves differently behind the manager after %q: %s", i, was, firstDiff(strings.Split(tr[i][k], "\n"), lines(want, k)))
				}
			}
		}
	}}
}

// short prints what is set.
func (e Ev) short() string {
	var b strings.Builder
	fmt.Fprintf(&b, "+%.2f %s", float64(e.At-T0)/1e9, e.Kind)
	for _, x := range []any{e.Name, e.Table, e.Player, string(e.Status), e.Comp} {
		if x != "" {
			fmt.Fprintf(&b, " %s", x)
		}
	}
	for _, x := range []any{e.List, e.Leave} {
		if len(x.([]string)) > 0 {
			fmt.Fprintf(&b, " %v", x)
		}
	}
	fmt.Fprintf(&b, " %d/%d/%d/%v", e.Chips, e.Rank, e.Count, e.Vals)
	if e.P.PlayerID != "" {
		fmt.Fprintf(&b, " %+v", e.P)
	}
	if e.Stat != (pc.Statistic{}) {
		fmt.Fprintf(&b, " %+v", e.Stat)
	}
	return b.String()
}

func lines(s []string, k int) []string {
	if k >= len(s) {
		return []string{"(nothing)"}
	}
	return strings.Split(s[k], "\n")
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			o := "(nothing)"
			if i < len(b) {
				o = b[i]
			}
			return fmt.Sprintf("%q; alone: %q", a[i], o)
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("(nothing); alone: %q", b[len(a)])
	}
	return "equal"
}

func mgrScens(tier string) []*Scenario {
	d := 3
	if tier == "thorough" {
		d = 5
	}
	var out []*Scenario
	for _, m := range [][2]pcMode{{CT, Cash}, {CT, MTT}, {Cash, Cash}, {MTT, MTT}} {
		var cs [2]Cfg
		for i, mode := range m {
			c := baseCfg(mode)
			c.Seats = 4
			c.Min = 2
			if mode == Cash {
				c.Final = -2
				c.RebuyMax = 9
			}
			cs[i] = c
		}
		reg := []slot{}
		for p := 0; p < 2; p++ {
			for i := 0; i < 2; i++ {
				reg = append(reg, slot{i, buyin(p, 1000), 500}, slot{i, Op{Kind: "sitall"}, 500})
			}
		}
		play := append([]slot{}, reg...)
		for i := 0; i < 2; i++ {
			play = append(play, slot{i, Op{Kind: "start"}, 1000})
		}
		play = append(play, slot{0, Op{Kind: "sitall"}, 100}, slot{1, Op{Kind: "sitall"}, 20000})
		both := func(ops ...Op) []slot {
			var o []slot
			for i := 0; i < 2; i++ {
				for _, p := range ops {
					o = append(o, slot{i, p, 10000})
				}
			}
			return append(o, slot{2, Op{}, 0}, slot{3, Op{}, 1000}, slot{4, Op{}, 1000}, slot{5, Op{}, 1000})
		}
		n := fmt.Sprintf("%s-%s", m[0], m[1])
		out = append(out,
			mgrScen("mgr-reg-"+n, cs, reg, func() []slot {
				return both(buyin(2, 700), Op{Kind: "refund", P: 1}, Op{Kind: "start"}, Op{Kind: "initlevel", Arg: 2}, Op{Kind: "close", Arg: 1}, Op{Kind: "sitall"},
					Op{Kind: "rawres", P: 0, Arg: 3}, Op{Kind: "cashout", P: 0}, Op{Kind: "rawready", P: 0, Arg: 4})
			}, d),
			mgrScen("mgr-play-"+n, cs, play, func() []slot {
				return both(buyin(2, 700), Op{Kind: "settle", Arg: 0}, Op{Kind: "settle", Arg: 2}, Op{Kind: "addon", P: 0, Arg: 500, Unit: 1}, Op{Kind: "quit", P: 1}, Op{Kind: "cashout", P: 1},
					buyin(1, 600), Op{Kind: "close", Arg: 0}, Op{Kind: "autoend"}, Op{Kind: "rawupd"}, Op{Kind: "rawready", P: 0, Arg: 9}, Op{Kind: "sitall"})
			}, d))
	}
	return out
}

func init() {
	register(&Prop{ID: "C23", Scens: mgrScens})
}
