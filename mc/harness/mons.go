package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	pc "github.com/weedbox/pokercompetition"
	pt "github.com/weedbox/pokertable"
)

type Mon = func(w *World, s *Step)

func sec(ns int64) int64 { return int64(math.Floor(float64(ns) / 1e9)) }

func sub(p *Snap, mode pc.CompetitionMode) bool { return mode == CT || mode == MTT }

// rejected: nothing changed, nothing was announced, the tables were not called.
func rejected(w *World, s *Step, code string) {
	if d := diffSnap(s.Pre, s.Post); d != "" {
		w.X.Fail(code+":changed", "%v was rejected (%v) but changed %s", s.Op, s.Err, d)
	}
	for _, e := range s.Evs {
		w.X.Fail(code+":event", "%v was rejected (%v) but caused %s %s", s.Op, s.Err, e.Kind, e.Name)
	}
}

func calls(s *Step, name string) []Ev { return s.evs("call", name) }

// -------- C16: status counts --------

func monStat(w *World, s *Step) {
	p := s.Post
	if w.settling() {
		return
	}
	chk := func(what string, got, want int) {
		if got != want {
			w.X.Fail("count:"+what, "after %v the reported number of %s players is %d, but %d players have that status", s.Op, what, got, want)
		}
	}
	chk("playing", p.Stat.PlayingPlayerCount, p.count(psPlay))
	chk("waiting", p.Stat.WaitingTableBalancingPlayerCount, p.count(psWait))
	chk("knocked-out", p.Stat.KnockoutPlayerCount, p.count(psOut))
	chk("re-buy-waiting", p.Stat.ReBuyWaitingPlayerCount, p.count(psRebuy))
}

// settling reports whether some call is still inside a settlement.
func (w *World) settling() bool { return false }

// monUnits: purchase totals equal what the accepted purchases add up to (C06..C08).
type ledger struct {
	units, addons int
	pu            map[string]int
	redeem        map[string]int64
	addon         map[string]int
	rebuy         map[string]int
}

// -------- C15: live ranks --------

func monRank(w *World, s *Step) {
	p := s.Post
	if p.Status != stReg && p.Status != stDelayed && p.Status != stStopped {
		return
	}
	outPos := map[string]int{}
	for i, r := range p.Rankings {
		outPos[r.PlayerID] = i + 1
	}
	type ent struct {
		id   string
		cls  int
		a, b int64
		rank int
	}
	var es []ent
	for i := range p.Players {
		q := &p.Players[i]
		switch {
		case q.Chips > 0:
			es = append(es, ent{q.PlayerID, 0, -q.Chips, q.JoinAt, q.CompetitionRank})
		case q.Status == psRebuy:
			es = append(es, ent{q.PlayerID, 1, -q.ReBuyWaitingAt, 0, q.CompetitionRank})
		case outPos[q.PlayerID] > 0: // out, or out and about to leave a cash game
			es = append(es, ent{q.PlayerID, 2, -int64(outPos[q.PlayerID]), 0, q.CompetitionRank})
		}
	}
	less := func(i, j ent) bool {
		if i.cls != j.cls {
			return i.cls < j.cls
		}
		if i.a != j.a {
			return i.a < j.a
		}
		return i.b < j.b
	}
	seen := map[int]string{}
	for _, e := range es {
		if e.rank < 1 || e.rank > len(es) {
			w.X.Fail("range", "after %v player %s has rank %d among %d ranked players", s.Op, e.id, e.rank, len(es))
		}
		if o, ok := seen[e.rank]; ok {
			w.X.Fail("dup", "after %v players %s and %s share rank %d", s.Op, o, e.id, e.rank)
		}
		seen[e.rank] = e.id
	}
	for _, a := range es {
		for _, b := range es {
			if less(a, b) && a.rank > b.rank {
				w.X.Fail("order", "after %v player %s is ranked %d behind %s (%d), but stands before him: chips/waiting/elimination order %v vs %v", s.Op, a.id, a.rank, b.id, b.rank, a, b)
			}
		}
	}
}

// -------- C03: lifecycle --------

func phase(s pc.CompetitionStateStatus) int {
	switch s {
	case stReg:
		return 0
	case stDelayed:
		return 1
	case stStopped:
		return 2
	}
	return 3
}

func monLife(w *World, s *Step) {
	a, b := s.Pre, s.Post
	if phase(b.Status) < phase(a.Status) {
		w.X.Fail("backwards", "%v moved the competition from %s back to %s", s.Op, a.Status, b.Status)
	}
	cur := a.Status
	for _, e := range s.Evs {
		if e.Kind == "update" || e.Kind == "state" {
			if phase(e.Status) < phase(cur) || (ended(cur) && e.Status != cur) {
				w.X.Fail("backwards-event", "during %v a notification shows status %s after %s", s.Op, e.Status, cur)
			}
			cur = e.Status
		}
	}
	if !ended(a.Status) {
		return
	}
	if a.Status != b.Status {
		w.X.Fail("ended-status", "%v changed the status of an ended competition from %s to %s", s.Op, a.Status, b.Status)
	}
	if s.Op.Kind == "buyin" || s.Op.Kind == "addon" {
		if s.Err == nil && s.Done {
			w.X.Fail("ended-purchase", "%v was accepted after the competition had ended", s.Op)
		}
	}
	if s.Op.Kind == "start" && s.Err == nil {
		w.X.Fail("ended-start", "an ended competition was started")
	}
	if a.EndAt != b.EndAt {
		w.X.Fail("ended-endat", "%v changed the end time of an ended competition", s.Op)
	}
	if a.Lvl != b.Lvl {
		w.X.Fail("ended-level", "%v: the blind level of an ended competition moved from %d to %d", s.Op, a.Lvl, b.Lvl)
	}
	if fmt.Sprint(a.Rankings) != fmt.Sprint(b.Rankings) {
		w.X.Fail("ended-rankings", "%v changed the final rankings: %v -> %v", s.Op, a.Rankings, b.Rankings)
	}
	for i := range b.Players {
		q := &b.Players[i]
		p := a.P(q.PlayerID)
		if p == nil {
			w.X.Fail("ended-player", "%v added player %s to an ended competition", s.Op, q.PlayerID)
		}
		if s.Op.Kind != "quit" && s.Op.Kind != "cashout" && s.Op.Kind != "join" && fmt.Sprintf("%+v", *p) != fmt.Sprintf("%+v", *q) {
			w.X.Fail("ended-player", "%v changed player %s of an ended competition: %d chips rank %d %s -> %d chips rank %d %s (%+v -> %+v)", s.Op, q.PlayerID, p.Chips, p.CompetitionRank, p.Status, q.Chips, q.CompetitionRank, q.Status, *p, *q)
		}
		if p.Chips != q.Chips || p.CompetitionRank != q.CompetitionRank || p.ReBuyTimes != q.ReBuyTimes || p.AddonTimes != q.AddonTimes || p.TotalGameCounts != q.TotalGameCounts || p.TotalRedeemChips != q.TotalRedeemChips {
			w.X.Fail("ended-player", "%v changed player %s of an ended competition: %d chips rank %d -> %d chips rank %d", s.Op, q.PlayerID, p.Chips, p.CompetitionRank, q.Chips, q.CompetitionRank)
		}
	}
	if s.Op.Kind != "refund" && s.Op.Kind != "cashout" {
		for i := range a.Players {
			if b.P(a.Players[i].PlayerID) == nil {
				w.X.Fail("ended-gone", "%v removed player %s from an ended competition", s.Op, a.Players[i].PlayerID)
			}
		}
	}
	if b.Stat.TotalBuyInCount > a.Stat.TotalBuyInCount || b.Stat.TotalAddonCount != a.Stat.TotalAddonCount {
		w.X.Fail("ended-stat", "%v changed the purchase totals of an ended competition", s.Op)
	}
}

// -------- C04: ends once --------

func monEndOnce(w *World, s *Step) {
	n, _ := w.Memo["settled"].(int)
	n += len(s.evs("state", pc.CompetitionStateEvent_Settled))
	w.Memo["settled"] = n
	if n > 1 {
		w.X.Fail("settled-twice", "during %v the end of the competition was announced for the %dth time", s.Op, n)
	}
	if ended(s.Post.Status) && n == 0 {
		w.X.Fail("not-announced", "%v ended the competition (%s) without announcing it", s.Op, s.Post.Status)
	}
	if !ended(s.Post.Status) && n > 0 {
		w.X.Fail("announced-early", "%v: the end was announced but the status is %s", s.Op, s.Post.Status)
	}
	rel, _ := w.Memo["rel"].(map[string]int)
	if rel == nil {
		rel = map[string]int{}
		w.Memo["rel"] = rel
	}
	for _, e := range calls(s, "ReleaseTable") {
		rel[e.Table]++
		if rel[e.Table] > 1 {
			w.X.Fail("released-twice", "table %s was released twice", e.Table)
		}
	}
	if !ended(s.Pre.Status) && ended(s.Post.Status) {
		for _, t := range s.Post.Back {
			w.X.Fail("not-released", "the competition ended (%v) but table %s was neither closed nor released", s.Op, t.ID)
		}
	}
	if !ended(s.Pre.Status) && !ended(s.Post.Status) && len(calls(s, "ReleaseTable")) > 0 {
		w.X.Fail("released-early", "%v released a table of a running competition", s.Op)
	}
	// every player's final rank is announced at most once at the end
	if n > 0 && s.evs("state", pc.CompetitionStateEvent_Settled) != nil {
		c := map[string]int{}
		for _, r := range s.Post.Rankings {
			c[r.PlayerID]++
			if c[r.PlayerID] > 1 {
				w.X.Fail("ranked-twice", "player %s appears twice in the final rankings %v", r.PlayerID, s.Post.Rankings)
			}
		}
	}
}

// -------- C22: serials --------

func monSerial(w *World, s *Step) {
	last, ok := w.Memo["serial"].(int64)
	if !ok {
		for _, e := range w.Evs[:len(w.Evs)-len(s.Evs)] {
			if e.Kind == "update" {
				if e.Chips <= last {
					w.X.Fail("serial", "serial %d after %d while creating", e.Chips, last)
				}
				last = e.Chips
			}
		}
	}
	notified := false
	for _, e := range s.Evs {
		switch e.Kind {
		case "update":
			if e.Chips <= last {
				w.X.Fail("serial", "%v: an update carries serial %d after serial %d", s.Op, e.Chips, last)
			}
			last = e.Chips
			if e.Vals[0] != sec(e.At) {
				w.X.Fail("update-time", "%v: an update at second %d carries update time %d", s.Op, sec(e.At), e.Vals[0])
			}
			if e.Comp != "comp" {
				w.X.Fail("comp", "an update names competition %q", e.Comp)
			}
			notified = true
		case "player", "state":
			notified = true
		}
	}
	w.Memo["serial"] = last
	if s.Post.Serial < last || s.Post.Serial < s.Pre.Serial {
		w.X.Fail("serial-back", "%v: the competition's serial went back to %d (last announced %d)", s.Op, s.Post.Serial, last)
	}
	if notified {
		return
	}
	a, b := s.Pre, s.Post
	if a.Status != b.Status || a.Lvl != b.Lvl || fmt.Sprint(a.Rankings) != fmt.Sprint(b.Rankings) || a.Stat != b.Stat || len(a.Players) != len(b.Players) {
		w.X.Fail("silent", "%v changed the competition without any notification", s.Op)
	}
	if d := othersSame(a, b, ""); d != "" {
		w.X.Fail("silent", "%v changed a player (%s) without any notification", s.Op, d)
	}
}

// -------- C06: buy-in --------

func monBuyIn(w *World, s *Step) {
	if s.Op.Kind != "buyin" || !s.Done {
		return
	}
	a, b := s.Pre, s.Post
	id := pname(s.Op.P)
	mode := w.Cfg.Mode
	p := a.P(id)
	want := ""
	switch {
	case s.Op.Arg <= 0:
		want = "no chips"
	case a.Status != stReg && a.Status != stDelayed:
		want = "buying in is over"
	case mode != Cash && p != nil && (p.Status != psRebuy || p.Chips > 0):
		want = "the player may not re-buy now"
	case mode != Cash && p != nil && p.ReBuyTimes >= w.Cfg.RebuyMax:
		want = "no re-buys left"
	case mode == CT && p == nil && len(a.Tables) == 0:
		want = "no table"
	case mode == Cash && p == nil && len(a.Players) >= w.Cfg.Seats:
		want = "the table is full"
	case mode == CT && p == nil && a.count(psPlay)+a.count(psRebuy) >= w.Cfg.Seats:
		want = "the table is full"
	}
	if want != "" {
		if s.Err == nil {
			w.X.Fail("accepted", "%v was accepted although %s", s.Op, want)
		}
		rejected(w, s, "reject")
		return
	}
	if s.Err != nil {
		w.X.Fail("refused", "%v was refused (%v) although every condition holds (status %s, player %+v, seats %d)", s.Op, s.Err, a.Status, p, w.Cfg.Seats)
	}
	q := b.P(id)
	if q == nil {
		w.X.Fail("lost", "%v was accepted but the player is not in the competition", s.Op)
	}
	if d := othersSame(a, b, id); d != "" && mode != MTT {
		w.X.Fail("others", "%v changed another player: %s", s.Op, d)
	}
	u := s.Op.Unit
	du := b.Stat.TotalBuyInCount - a.Stat.TotalBuyInCount
	if mode == Cash {
		u = 0
	}
	if du != u {
		w.X.Fail("total", "%v: the total number of buy-ins moved by %d, not %d", s.Op, du, u)
	}
	if b.Stat.TotalAddonCount != a.Stat.TotalAddonCount {
		w.X.Fail("addon-total", "%v changed the add-on total", s.Op)
	}
	chk := func(what string, got, want any) {
		if got != want {
			w.X.Fail("player:"+what, "%v: %s is %v, expected %v", s.Op, what, got, want)
		}
	}
	if p == nil {
		chk("chips", q.Chips, s.Op.Arg)
		chk("redeemed", q.TotalRedeemChips, s.Op.Arg)
		chk("units", q.TotalBuyInUnits, s.Op.Unit)
		chk("rebuys", q.ReBuyTimes, 0)
		chk("addons", q.AddonTimes, 0)
		chk("join time", q.JoinAt, sec(s.T0))
		chk("rebuying", q.IsReBuying, false)
		chk("knockout time", q.KnockoutAt, int64(-1))
		chk("games", q.TotalGameCounts, int64(0))
	} else {
		chk("chips", q.Chips, p.Chips+s.Op.Arg)
		chk("redeemed", q.TotalRedeemChips, p.TotalRedeemChips+s.Op.Arg)
		chk("rebuys", q.ReBuyTimes, p.ReBuyTimes+1)
		chk("units", q.TotalBuyInUnits, p.TotalBuyInUnits+u)
		chk("addons", q.AddonTimes, p.AddonTimes)
		chk("join time", q.JoinAt, p.JoinAt)
		chk("rebuying", q.IsReBuying, false)
		chk("rebuy deadline", q.ReBuyEndAt, int64(-1))
		chk("waiting since", q.ReBuyWaitingAt, int64(-1))
		chk("games", q.TotalGameCounts, p.TotalGameCounts)
	}
	if mode != MTT {
		chk("status", q.Status, psPlay)
		chk("table", q.CurrentTableID, "t0")
		rs := calls(s, "PlayerReserve")
		if len(rs) != 1 || rs[0].Player != id || rs[0].Chips != s.Op.Arg || rs[0].Table != "t0" {
			w.X.Fail("reserve", "%v: the table was asked %v instead of one seat for %s with %d chips", s.Op, rs, id, s.Op.Arg)
		}
		for _, c := range s.evs("call", "") {
			if c.Name == "PlayersLeave" || c.Name == "CloseTable" || c.Name == "PlayerRedeemChips" {
				w.X.Fail("call", "%v caused a %s", s.Op, c.Name)
			}
		}
	}
	if mode == MTT && q.Status == psWait && (q.CurrentTableID != "" || q.CurrentSeat != -1) {
		w.X.Fail("still-seated", "%v: %s waits for a table but is listed at %q seat %d", s.Op, id, q.CurrentTableID, q.CurrentSeat)
	}
	if len(s.evs("player", "")) == 0 || len(s.evs("update", "")) == 0 || len(s.evs("state", pc.CompetitionStateEvent_CompetitionStatisticUpdated)) == 0 {
		w.X.Fail("notify", "%v was not announced", s.Op)
	}
}

// -------- C07: add-on --------

func monAddon(w *World, s *Step) {
	if s.Op.Kind != "addon" || !s.Done {
		return
	}
	a, b := s.Pre, s.Post
	id := pname(s.Op.P)
	p := a.P(id)
	want := ""
	allow, brk := false, false
	if a.Lvl >= 0 && a.Lvl < len(w.Cfg.Levels) {
		allow = w.Cfg.Levels[a.Lvl].AllowAddon
		brk = w.Cfg.Levels[a.Lvl].Level == -1
	}
	switch {
	case s.Op.Arg <= 0:
		want = "no chips"
	case p == nil:
		want = "the player is not in the competition"
	case ended(a.Status):
		want = "the competition has ended"
	case w.Cfg.AddonBreak && !brk:
		want = "there is no break"
	case !allow:
		want = "the blind level does not allow it"
	case p.AddonTimes >= w.Cfg.AddonMax:
		want = "no add-ons left"
	}
	if want != "" {
		if s.Err == nil {
			w.X.Fail("accepted", "%v was accepted although %s", s.Op, want)
		}
		rejected(w, s, "reject")
		return
	}
	tid := s.Op.T
	if tid == "" {
		tid = "t0"
	}
	if s.Err != nil {
		w.X.Fail("refused", "%v was refused (%v) although every condition holds", s.Op, s.Err)
	}
	q := b.P(id)
	if q == nil {
		w.X.Fail("lost", "%v: the player is gone", s.Op)
	}
	exp := *p
	exp.Chips += s.Op.Arg
	exp.AddonTimes++
	exp.TotalRedeemChips += s.Op.Arg
	exp.CurrentTableID = tid
	if d := diffPlayer(exp, *q); d != "" {
		w.X.Fail("player", "%v: the player differs from what the add-on should have made of him: %s", s.Op, d)
	}
	if d := othersSame(a, b, id); d != "" {
		w.X.Fail("others", "%v changed another player: %s", s.Op, d)
	}
	u := s.Op.Unit
	if w.Cfg.Mode == Cash {
		u = 0
	}
	if b.Stat.TotalAddonCount-a.Stat.TotalAddonCount != u || b.Stat.TotalBuyInCount != a.Stat.TotalBuyInCount {
		w.X.Fail("total", "%v: add-on total moved by %d (expected %d), buy-in total by %d", s.Op, b.Stat.TotalAddonCount-a.Stat.TotalAddonCount, u, b.Stat.TotalBuyInCount-a.Stat.TotalBuyInCount)
	}
	rs := calls(s, "PlayerRedeemChips")
	if len(rs) != 1 || rs[0].Player != id || rs[0].Chips != s.Op.Arg || rs[0].Table != tid {
		w.X.Fail("redeem", "%v: the table was asked %v", s.Op, rs)
	}
	if len(s.evs("player", "")) == 0 || len(s.evs("update", "")) == 0 || len(s.evs("state", pc.CompetitionStateEvent_CompetitionStatisticUpdated)) == 0 {
		w.X.Fail("notify", "%v was not announced", s.Op)
	}
}

// -------- C08: refund --------

func monRefund(w *World, s *Step) {
	for _, m := range w.B.BadJoin {
		w.X.Fail("join", "%v: %s", s.Op, m)
	}
	gone, _ := w.Memo["refunded"].(map[string]bool)
	if gone == nil {
		gone = map[string]bool{}
		w.Memo["refunded"] = gone
	}
	if s.Op.Kind == "buyin" && s.Err == nil {
		delete(gone, pname(s.Op.P))
	}
	for _, e := range s.Evs {
		if e.Kind == "open" {
			for _, p := range e.List {
				if gone[p] {
					w.X.Fail("seated", "%s was refunded but plays hand %d at table %s", p, e.Rank, e.Table)
				}
			}
		}
	}
	for _, t := range s.Post.Back {
		for _, p := range t.Players {
			if gone[p.ID] {
				w.X.Fail("seated", "after %v refunded player %s has a seat at table %s", s.Op, p.ID, t.ID)
			}
		}
	}
	for id := range gone {
		if s.Post.P(id) != nil {
			w.X.Fail("back", "after %v refunded player %s is in the competition again", s.Op, id)
		}
	}
	if s.Op.Kind != "refund" || !s.Done {
		return
	}
	a, b := s.Pre, s.Post
	id := pname(s.Op.P)
	p := a.P(id)
	started := w.blindStarted()
	if p == nil || started {
		if s.Err == nil {
			w.X.Fail("accepted", "%v was accepted (in the competition: %v, blinds running: %v)", s.Op, p != nil, started)
		}
		rejected(w, s, "reject")
		return
	}
	if s.Err != nil {
		w.X.Fail("refused", "%v was refused (%v) before the blinds started", s.Op, s.Err)
	}
	if b.P(id) != nil {
		w.X.Fail("kept", "%v left the player in the competition", s.Op)
	}
	gone[id] = true
	if d := othersSame(a, b, id); d != "" {
		w.X.Fail("others", "%v changed another player: %s", s.Op, d)
	}
	u := p.TotalBuyInUnits
	if w.Cfg.Mode == Cash {
		u = 0
	}
	if a.Stat.TotalBuyInCount-b.Stat.TotalBuyInCount != u {
		w.X.Fail("total", "%v: the total number of buy-ins fell by %d, not %d", s.Op, a.Stat.TotalBuyInCount-b.Stat.TotalBuyInCount, u)
	}
	for _, t := range b.Back {
		if t.has(id) != nil {
			w.X.Fail("seat", "%v left the player's seat at table %s", s.Op, t.ID)
		}
	}
	if len(s.evs("update", "")) == 0 || len(s.evs("state", pc.CompetitionStateEvent_CompetitionStatisticUpdated)) == 0 {
		w.X.Fail("notify", "%v was not announced", s.Op)
	}
}

// blindStarted: the blind clock has been announced as running before this step.
func (w *World) blindStarted() bool {
	n := 0
	for _, st := range w.Steps[:len(w.Steps)-1] {
		n += len(st.evs("state", pc.CompetitionStateEvent_BlindActivated))
	}
	return n > 0
}

// -------- C09: cash-out --------

func monCashOut(w *World, s *Step) {
	a, b := s.Pre, s.Post
	leaving, _ := w.Memo["leaving"].(map[string]bool)
	if leaving == nil {
		leaving = map[string]bool{}
		w.Memo["leaving"] = leaving
	}
	evs := s.evs("cashout", "")
	seen := map[string]bool{}
	for _, e := range evs {
		if seen[e.Player] {
			w.X.Fail("twice", "%v: player %s was cashed out twice", s.Op, e.Player)
		}
		seen[e.Player] = true
		if w.Cfg.Mode != Cash {
			w.X.Fail("mode", "%v: a player was cashed out of a tournament", s.Op)
		}
		if b.P(e.Player) != nil {
			w.X.Fail("kept", "%v: player %s was cashed out but is still in the competition", s.Op, e.Player)
		}
		for _, t := range b.Back {
			if t.has(e.Player) != nil {
				w.X.Fail("seat", "%v: player %s was cashed out but still has a seat", s.Op, e.Player)
			}
		}
		// the chips paid out are the chips he has: at his table when it just settled
		want := int64(-1)
		if p := a.P(e.Player); p != nil {
			want = p.Chips
		}
		if t := a.B("t0").has(e.Player); t != nil {
			want = t.Bank
		}
		if s.Op.Kind == "settle" || s.Op.Kind == "settlew" {
			if f, ok := w.finalOf(s, e.Player); ok {
				want = f
			}
		}
		if e.Chips != want {
			w.X.Fail("chips", "%v: player %s was cashed out with %d chips but holds %d", s.Op, e.Player, e.Chips, want)
		}
		expired := false
		if p := a.P(e.Player); p != nil && p.Chips == 0 {
			expired = true
		}
		if !leaving[e.Player] && !(s.Op.Kind == "cashout" && pname(s.Op.P) == e.Player) && !expired {
			w.X.Fail("unasked", "%v: player %s was cashed out without asking for it", s.Op, e.Player)
		}
		delete(leaving, e.Player)
	}
	// nobody disappears silently
	if w.Cfg.Mode == Cash {
		for i := range a.Players {
			id := a.Players[i].PlayerID
			if b.P(id) == nil && !seen[id] && !(s.Op.Kind == "refund" && pname(s.Op.P) == id) {
				w.X.Fail("vanished", "%v: player %s left the competition without being cashed out", s.Op, id)
			}
		}
	}
	if s.Op.Kind == "settle" || s.Op.Kind == "settlew" {
		if !ended(a.Status) {
			for _, id := range sortedKeys(leaving) {
				if f, ok := w.finalOf(s, id); ok && f == 0 {
					// nothing to pay out: he is offered a re-buy, and leaves when
					// that window closes
					delete(leaving, id)
					continue
				}
				w.X.Fail("stays", "player %s asked to leave but was not cashed out when the hand settled", id)
			}
		}
	}
	if s.Op.Kind == "buyin" && s.Err == nil {
		delete(leaving, pname(s.Op.P)) // he pays in again: no longer leaving
	}
	if s.Op.Kind != "cashout" || !s.Done {
		return
	}
	id := pname(s.Op.P)
	p := a.P(id)
	if w.Cfg.Mode != Cash || p == nil {
		if s.Err == nil {
			w.X.Fail("accepted", "%v was accepted", s.Op)
		}
		rejected(w, s, "reject")
		return
	}
	if s.Err != nil {
		w.X.Fail("refused", "%v was refused: %v", s.Op, s.Err)
	}
	now := a.Status == stReg
	if t := a.T("t0"); t != nil && (a.Status == stDelayed || a.Status == stStopped) && t.Status == string(pt.TableStateStatus_TablePausing) {
		now = true
	}
	if ended(a.Status) {
		return
	}
	if now && !seen[id] {
		w.X.Fail("delayed", "%v: no hand is being played, but the player was not cashed out at once", s.Op)
	}
	if !now {
		if seen[id] {
			w.X.Fail("early", "%v: the player was cashed out during a hand", s.Op)
		}
		q := b.P(id)
		if q == nil || q.Status != psLeaving {
			w.X.Fail("not-leaving", "%v: the player is not marked as leaving", s.Op)
		}
		leaving[id] = true
		exp := *p
		exp.Status = psLeaving
		if d := diffPlayer(exp, *q); d != "" {
			w.X.Fail("player", "%v changed the player's %s", s.Op, d)
		}
	}
	if d := othersSame(a, b, id); d != "" {
		w.X.Fail("others", "%v changed another player: %s", s.Op, d)
	}
}

// finalOf: the chips of a participant after the hand settled in step s.
func (w *World) finalOf(s *Step, id string) (int64, bool) {
	t := w.B.tables[s.Op.T]
	if t == nil || t.lastSet == nil {
		return 0, false
	}
	for _, p := range t.lastSet.State.PlayerStates {
		if p.PlayerID == id {
			return p.Bankroll, true
		}
	}
	return 0, false
}

// settledIn returns the table settled in step s (nil if none).
func settledIn(w *World, s *Step) *pt.Table {
	if s.Op.Kind != "settle" && s.Op.Kind != "settlew" {
		return nil
	}
	return w.B.tables[s.Op.T].lastSet
}

// -------- C10: re-buy window and quitting --------

func monRebuy(w *World, s *Step) {
	a, b := s.Pre, s.Post
	mode := w.Cfg.Mode
	if t := settledIn(w, s); t != nil && !ended(a.Status) {
		for _, tp := range t.State.PlayerStates {
			p, q := a.P(tp.PlayerID), b.P(tp.PlayerID)
			if p == nil {
				continue
			}
			if tp.Bankroll > 0 {
				if q != nil && q.Status == psRebuy && p.Status != psRebuy {
					w.X.Fail("chips-waiting", "%v: %s still has %d chips but is waiting for a re-buy", s.Op, tp.PlayerID, tp.Bankroll)
				}
				continue
			}
			if q == nil {
				if mode != Cash {
					w.X.Fail("vanished", "%v: busted player %s is gone", s.Op, tp.PlayerID)
				}
				continue
			}
			may := !a.stopBuyIn() && p.ReBuyTimes < w.Cfg.RebuyMax
			if may {
				if p.IsReBuying {
					continue // he was already waiting
				}
				if p.Status == psLeaving {
					continue
				}
				if q.Status != psRebuy || !q.IsReBuying {
					w.X.Fail("no-window", "%v: %s lost all chips with re-buys left but has status %s", s.Op, tp.PlayerID, q.Status)
				}
				want := sec(s.T0 + int64(w.Cfg.RebuyWait)*1e9)
				if mode == MTT {
					want = -1
				}
				if q.ReBuyEndAt != want || q.ReBuyWaitingAt != sec(s.T0) {
					w.X.Fail("deadline", "%v: %s may re-buy until %d (since %d), expected %d (since %d)", s.Op, tp.PlayerID, q.ReBuyEndAt, q.ReBuyWaitingAt, want, sec(s.T0))
				}
				if len(calls(s, "PlayersLeave")) > 0 && mode != MTT {
					for _, c := range calls(s, "PlayersLeave") {
						for _, l := range c.Leave {
							if l == tp.PlayerID {
								w.X.Fail("seat", "%v: %s lost the seat although the re-buy window is open", s.Op, l)
							}
						}
					}
				}
			} else {
				if p.Status != psOut && q.Status != psOut && p.Status != psLeaving {
					w.X.Fail("no-knockout", "%v: %s lost all chips and may not re-buy, but has status %s", s.Op, tp.PlayerID, q.Status)
				}
			}
		}
	}
	// windows: nobody loses the seat before the deadline; two seconds after it
	// (three to be sure) the seat is free
	if mode != MTT && !ended(b.Status) {
		for i := range b.Players {
			q := &b.Players[i]
			if q.IsReBuying && q.ReBuyEndAt > 0 && sec(b.Now) > q.ReBuyEndAt+3 {
				w.X.Fail("expired", "%v: the re-buy window of %s closed at %d, it is %d and the player still holds the seat", s.Op, q.PlayerID, q.ReBuyEndAt, sec(b.Now))
			}
		}
		if s.Op.Kind == "tick" || s.Op.Kind == "pass" {
			stopped := a.Status != b.Status
			for i := range a.Players {
				p := &a.Players[i]
				q := b.P(p.PlayerID)
				over := p.IsReBuying && p.ReBuyEndAt > 0 && sec(s.T1) > p.ReBuyEndAt
				if over || stopped || w.inSettle() {
					continue
				}
				if mode == Cash && a.Status == stStopped && p.Status == psOut && q == nil {
					continue // out since buying in closed; the window that was open then is over
				}
				if q == nil {
					w.X.Fail("removed", "%v: %s was removed although no re-buy window of that player is over", s.Op, p.PlayerID)
				}
				if p.IsReBuying && !q.IsReBuying {
					w.X.Fail("early", "%v: the re-buy window of %s (until %d) was closed at %d", s.Op, p.PlayerID, p.ReBuyEndAt, sec(s.T1))
				}
				for _, c := range calls(s, "PlayersLeave") {
					for _, l := range c.Leave {
						if l == p.PlayerID {
							w.X.Fail("early-leave", "%v: %s was sent away from the table although the player's window is not over", s.Op, l)
						}
					}
				}
			}
		}
		// after the window: seat free, CT player may come back later, cash player gone
		for i := range a.Players {
			p := &a.Players[i]
			if !(p.IsReBuying && p.ReBuyEndAt > 0 && p.Chips == 0 && sec(s.T1) > p.ReBuyEndAt+2) || ended(a.Status) || s.Op.Kind == "buyin" {
				continue
			}
			q := b.P(p.PlayerID)
			if b.B("t0").has(p.PlayerID) != nil && !(q != nil && q.Chips > 0) {
				w.X.Fail("seat-kept", "%v: the window of %s is over but the player still has a seat", s.Op, p.PlayerID)
			}
			if mode == Cash && q != nil {
				w.X.Fail("cash-kept", "%v: the window of %s is over but the player is still in the cash game", s.Op, p.PlayerID)
			}
			if mode == CT && (q == nil || (q.Status != psRebuy && q.Status != psOut)) {
				w.X.Fail("ct-status", "%v: the window of %s is over and the status is %+v", s.Op, p.PlayerID, q)
			}
		}
	}
	if s.Op.Kind != "quit" || !s.Done {
		return
	}
	id := pname(s.Op.P)
	p := a.P(id)
	if mode != CT || p == nil || a.T("t0") == nil || a.stopBuyIn() {
		if s.Err == nil {
			w.X.Fail("quit-accepted", "%v was accepted", s.Op)
		}
		rejected(w, s, "quit-reject")
		return
	}
	if s.Err != nil {
		w.X.Fail("quit-refused", "%v was refused: %v", s.Op, s.Err)
	}
	q := b.P(id)
	if q == nil || q.Status != psRebuy || q.IsReBuying || q.ReBuyEndAt != -1 || q.CurrentSeat != -1 {
		w.X.Fail("quit-player", "%v: the player is %+v", s.Op, q)
	}
	if b.B("t0").has(id) != nil {
		w.X.Fail("quit-seat", "%v: the player still has the seat", s.Op)
	}
	exp := *p
	exp.Status, exp.IsReBuying, exp.ReBuyEndAt, exp.CurrentSeat = q.Status, q.IsReBuying, q.ReBuyEndAt, q.CurrentSeat
	if d := diffPlayer(exp, *q); d != "" {
		w.X.Fail("quit-player", "%v changed the player's %s", s.Op, d)
	}
	if d := othersSame(a, b, id); d != "" {
		w.X.Fail("quit-others", "%v changed another player: %s", s.Op, d)
	}
}

func (w *World) inSettle() bool { return false }

// -------- C11/C12: settlement --------

func monSettle(w *World, s *Step) {
	a, b := s.Pre, s.Post
	if s.Op.Kind == "dup" {
		if ended(a.Status) {
			return
		}
		if d := othersSame(a, b, ""); d != "" {
			w.X.Fail("dup-player", "delivering a settled hand again changed a player: %s", d)
		}
		if fmt.Sprint(a.Rankings) != fmt.Sprint(b.Rankings) || a.Stat != b.Stat || a.Status != b.Status || fmt.Sprint(a.Adv) != fmt.Sprint(b.Adv) {
			w.X.Fail("dup-comp", "delivering a settled hand again changed the competition: rankings %v -> %v, %+v -> %+v", a.Rankings, b.Rankings, a.Stat, b.Stat)
		}
		for _, e := range s.Evs {
			if e.Kind == "call" || e.Kind == "rank" || e.Kind == "cashout" {
				w.X.Fail("dup-effect", "delivering a settled hand again caused %s %s %s", e.Kind, e.Name, e.Player)
			}
		}
		return
	}
	t := settledIn(w, s)
	if t == nil {
		// outside a settlement no playing statistic moves
		for i := range b.Players {
			q := &b.Players[i]
			if p := a.P(q.PlayerID); p != nil && s.Op.Kind != "par" {
				x := *p
				x.Chips, x.Rank, x.TableRank = q.Chips, q.Rank, q.TableRank
				if playStats(x) != playStats(*q) {
					w.X.Fail("stray", "%v counted a hand for %s", s.Op, q.PlayerID)
				}
			}
		}
		return
	}
	if ended(a.Status) {
		if d := othersSame(a, b, ""); d != "" {
			w.X.Fail("ended", "a hand settled after the end changed a player: %s", d)
		}
		return
	}
	st := t.State
	out := map[string]bool{}
	for _, e := range s.evs("cashout", "") {
		out[e.Player] = true
	}
	part := map[string]bool{}
	for _, i := range st.GamePlayerIndexes {
		part[st.PlayerStates[i].PlayerID] = true
	}
	pre := 0
	for _, tp := range st.PlayerStates {
		if tp.IsParticipated && tp.GameStatistics.IsFold && tp.GameStatistics.FoldRound == pt.GameRound_Preflop {
			pre++
		}
	}
	ranks := map[int]string{}
	for _, tp := range st.PlayerStates {
		p, q := a.P(tp.PlayerID), b.P(tp.PlayerID)
		if p == nil || q == nil {
			if p != nil && !out[tp.PlayerID] {
				w.X.Fail("vanished", "%v: player %s is gone", s.Op, tp.PlayerID)
			}
			continue
		}
		exp := *p
		if tp.IsParticipated {
			applyStats(&exp, tp.GameStatistics)
		}
		for _, r := range st.GameState.Result.Players {
			if r.Changed <= 0 || st.PlayerStates[st.GamePlayerIndexes[r.Idx]].PlayerID != tp.PlayerID {
				continue
			}
			exp.TotalProfitTimes++
			if st.CurrentBBSeat == tp.Seat && tp.GameStatistics.ActionTimes == 0 && pre == len(st.GamePlayerIndexes)-1 {
				exp.TotalWalkTimes++
			}
			if r.Changed > exp.BestWinningPotChips {
				exp.BestWinningPotChips = r.Changed
			}
			cb := st.GameState.Players[r.Idx].Combination
			if cb.Power >= exp.BestWinningPower {
				exp.BestWinningPower, exp.BestWinningType = cb.Power, cb.Type
				exp.BestWinningCombo = append([]string{}, cb.Cards...)
			}
		}
		exp.Chips = tp.Bankroll
		// rank at the table
		rank, ties := 0, 0
		if part[tp.PlayerID] {
			rank = 1
			for _, i := range st.GamePlayerIndexes {
				o := st.PlayerStates[i]
				if o.Bankroll > tp.Bankroll {
					rank++
				} else if o.Bankroll == tp.Bankroll && o.PlayerID != tp.PlayerID {
					if op := a.P(o.PlayerID); op != nil && op.JoinAt < p.JoinAt {
						rank++
					} else if op != nil && op.JoinAt == p.JoinAt {
						ties++ // bought in within the same second: either may be ahead
					}
				}
			}
		}
		if ties > 0 && q.TableRank >= rank && q.TableRank <= rank+ties {
			rank = q.TableRank
		}
		if rank > 0 {
			if o := ranks[q.TableRank]; o != "" {
				w.X.Fail("rank-twice", "%v: %s and %s are both at rank %d of their table", s.Op, o, tp.PlayerID, q.TableRank)
			}
			ranks[q.TableRank] = tp.PlayerID
		}
		exp.Rank, exp.TableRank = rank, rank
		// what other parts of a settlement may change
		exp.Status, exp.KnockoutAt, exp.CurrentSeat, exp.CurrentTableID = q.Status, q.KnockoutAt, q.CurrentSeat, q.CurrentTableID
		exp.IsReBuying, exp.ReBuyEndAt, exp.ReBuyWaitingAt = q.IsReBuying, q.ReBuyEndAt, q.ReBuyWaitingAt
		if d := diffPlayer(exp, *q); d != "" {
			w.X.Fail("player:"+field(d), "%v: %s after the settlement: %s (expected -> got)", s.Op, tp.PlayerID, d)
		}
	}
	// players of other tables are untouched
	for i := range b.Players {
		q := &b.Players[i]
		p := a.P(q.PlayerID)
		if p == nil || t.FindPlayerIdx(q.PlayerID) >= 0 {
			continue
		}
		if p.Chips != q.Chips || p.TotalGameCounts != q.TotalGameCounts || p.TotalProfitTimes != q.TotalProfitTimes || p.BestWinningPotChips != q.BestWinningPotChips || p.TableRank != q.TableRank || p.TotalActionTimes != q.TotalActionTimes {
			w.X.Fail("other-table", "%v changed %s, who was not at that table", s.Op, q.PlayerID)
		}
	}
}

// playStats is the playing statistics of a player as text.
func playStats(p pc.CompetitionPlayer) string {
	v := reflect.ValueOf(p)
	s := ""
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		if strings.HasPrefix(n, "Best") || strings.HasPrefix(n, "Total") && n != "TotalRedeemChips" && n != "TotalBuyInUnits" {
			s += fmt.Sprint(v.Field(i).Interface(), ";")
		}
	}
	return s
}

func field(d string) string {
	for i := range d {
		if d[i] == ':' {
			return d[:i]
		}
	}
	return d
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// applyStats is the independent reading of a hand's statistics.
func applyStats(p *pc.CompetitionPlayer, g pt.TablePlayerGameStatistics) {
	p.TotalGameCounts++
	if g.IsFold {
		p.TotalFoldTimes++
		switch g.FoldRound {
		case "preflop":
			p.TotalPreflopFoldTimes++
		case "flop":
			p.TotalFlopFoldTimes++
		case "turn":
			p.TotalTurnFoldTimes++
		case "river":
			p.TotalRiverFoldTimes++
		}
	}
	p.TotalActionTimes += g.ActionTimes
	p.TotalRaiseTimes += g.RaiseTimes
	p.TotalCallTimes += g.CallTimes
	p.TotalCheckTimes += g.CheckTimes
	p.TotalVPIPChances += b2i(g.IsVPIPChance)
	p.TotalVPIPTimes += b2i(g.IsVPIP)
	p.TotalPFRChances += b2i(g.IsPFRChance)
	p.TotalPFRTimes += b2i(g.IsPFR)
	p.TotalATSChances += b2i(g.IsATSChance)
	p.TotalATSTimes += b2i(g.IsATS)
	p.Total3BChances += b2i(g.Is3BChance)
	p.Total3BTimes += b2i(g.Is3B)
	p.TotalFt3BChances += b2i(g.IsFt3BChance)
	p.TotalFt3BTimes += b2i(g.IsFt3B)
	p.TotalCheckRaiseChances += b2i(g.IsCheckRaiseChance)
	p.TotalCheckRaiseTimes += b2i(g.IsCheckRaise)
	p.TotalCBetChances += b2i(g.IsCBetChance)
	p.TotalCBetTimes += b2i(g.IsCBet)
	p.TotalFtCBChances += b2i(g.IsFtCBChance)
	p.TotalFtCBTimes += b2i(g.IsFtCB)
	p.TotalShowdownWinningChances += b2i(g.ShowdownWinningChance)
	p.TotalShowdownWinningTimes += b2i(g.IsShowdownWinning)
}

// -------- C13: end of buying in --------

func monStopBuyIn(w *World, s *Step) {
	a, b := s.Pre, s.Post
	// the status follows the level
	if !ended(b.Status) && w.activated() {
		stop := b.stopBuyIn()
		if stop && b.Status != stStopped {
			w.X.Fail("late", "%v: blind level index %d is past the last buy-in level %d but the status is %s", s.Op, b.Lvl, b.Final, b.Status)
		}
		if !stop && b.Status != stDelayed {
			w.X.Fail("soon", "%v: blind level index %d is not past the last buy-in level %d but the status is %s", s.Op, b.Lvl, b.Final, b.Status)
		}
	}
	if a.Status != stDelayed || phase(b.Status) < 2 || a.Lvl == b.Lvl {
		return
	}
	if !b.stopBuyIn() {
		return
	}
	var out []pc.CompetitionPlayer
	for _, p := range a.Players {
		if p.Chips == 0 && p.Status == psRebuy {
			out = append(out, p)
		}
	}
	for _, p := range out {
		q := b.P(p.PlayerID)
		if q == nil || q.Status != psOut || q.KnockoutAt != sec(s.T1) || q.IsReBuying || q.ReBuyEndAt != -1 || q.CurrentSeat != -1 {
			w.X.Fail("not-out", "buying in is over but %s, who had no chips, is %+v", p.PlayerID, q)
		}
		for _, t := range b.Back {
			if w.Cfg.Mode != Cash && t.has(p.PlayerID) != nil { // in a cash game until cashing out
				w.X.Fail("seat", "buying in is over but knocked-out %s still has a seat at %s", p.PlayerID, t.ID)
			}
		}
		n := 0
		for _, r := range b.Rankings {
			if r.PlayerID == p.PlayerID {
				n++
				if r.FinalChips != 0 {
					w.X.Fail("final-chips", "%s was knocked out with %d chips", p.PlayerID, r.FinalChips)
				}
			}
		}
		if n != 1 {
			w.X.Fail("ranking", "knocked-out %s appears %d times in the rankings", p.PlayerID, n)
		}
		m := 0
		for _, e := range s.evs("rank", "") {
			if e.Player == p.PlayerID {
				m++
				// later joiners rank behind earlier ones
				want := a.alive() + 1
				tie := 0
				for _, o := range out {
					if o.JoinAt < p.JoinAt {
						want++
					} else if o.JoinAt == p.JoinAt && o.PlayerID != p.PlayerID {
						tie++
					}
				}
				if e.Rank < want || e.Rank > want+tie {
					w.X.Fail("rank", "%s was knocked out when buying in closed: final rank %d announced, expected %d", p.PlayerID, e.Rank, want)
				}
			}
		}
		if m != 1 {
			w.X.Fail("rank-event", "the final rank of %s was announced %d times", p.PlayerID, m)
		}
	}
	for _, p := range a.Players {
		isOut := false
		for _, o := range out {
			isOut = isOut || o.PlayerID == p.PlayerID
		}
		if isOut {
			continue
		}
		q := b.P(p.PlayerID)
		if q == nil {
			w.X.Fail("lost", "player %s vanished when buying in closed", p.PlayerID)
		}
		if d := diffPlayer(p, *q); d != "" && w.Cfg.Mode != MTT {
			w.X.Fail("others", "the end of buying in changed %s, who may go on playing: %s", p.PlayerID, d)
		}
	}
	if len(s.evs("state", pc.CompetitionStateEvent_KnockoutPlayers)) == 0 || len(s.evs("update", "")) == 0 {
		w.X.Fail("notify", "the end of buying in was not announced")
	}
	mode := w.Cfg.Mode
	idle := len(a.Tables) == 0
	if len(a.Tables) == 1 {
		n := 0
		for _, p := range a.Tables[0].Players {
			if p.Bank > 0 {
				n++
			}
		}
		idle = n < 2
	}
	if mode != Cash && idle && !ended(b.Status) {
		w.X.Fail("not-ended", "buying in closed with no table left to play but the competition goes on")
	}
	if !idle && ended(b.Status) && s.Op.Kind == "tick" {
		w.X.Fail("ended", "the end of buying in ended a competition that can go on")
	}
	if mode == Cash && ended(b.Status) {
		w.X.Fail("cash-ended", "the end of buying in ended a cash game")
	}
}

func (w *World) activated() bool {
	for _, st := range w.Steps {
		if len(st.evs("state", pc.CompetitionStateEvent_BlindActivated)) > 0 {
			return true
		}
	}
	return false
}

// -------- C14: final rankings --------

func monFinal(w *World, s *Step) {
	a, b := s.Pre, s.Post
	outStep, _ := w.Memo["outStep"].(map[string]int)
	if outStep == nil {
		outStep = map[string]int{}
		w.Memo["outStep"] = outStep
	}
	for i := range b.Players {
		q := &b.Players[i]
		if p := a.P(q.PlayerID); q.Status == psOut && (p == nil || p.Status != psOut) {
			outStep[q.PlayerID] = len(w.Steps)
		}
	}
	final, _ := w.Memo["final"].(map[string]int)
	if final == nil {
		final = map[string]int{}
		w.Memo["final"] = final
	}
	stopped := a.Status == stStopped || (a.Status == stDelayed && b.Status == stStopped)
	for _, e := range s.evs("rank", "") {
		if stopped || ended(b.Status) {
			if r, ok := final[e.Player]; ok {
				w.X.Fail("event-twice", "%v: the final rank of %s was announced as %d and again as %d", s.Op, e.Player, r, e.Rank)
			}
			final[e.Player] = e.Rank
		}
	}
	if len(s.evs("cashout", "")) > 0 {
		w.Memo["left"] = true // who is paid out is no longer counted
	}
	if ended(a.Status) || !ended(b.Status) {
		return
	}
	if phase(a.Status) == 0 {
		if len(b.Rankings) != 0 {
			w.X.Fail("unstarted", "a competition that never started ended with rankings %v", b.Rankings)
		}
		return
	}
	n := 0
	for i := range b.Players {
		if b.Players[i].Chips > 0 {
			n++
		}
	}
	if len(b.Rankings) < n {
		w.X.Fail("missing", "%d players have chips but the final rankings are %v", n, b.Rankings)
	}
	pos := map[string]int{}
	for i, r := range b.Rankings {
		if _, ok := pos[r.PlayerID]; ok {
			w.X.Fail("twice", "%s is ranked twice: %v", r.PlayerID, b.Rankings)
		}
		pos[r.PlayerID] = i + 1
		p := b.P(r.PlayerID)
		if p == nil {
			continue
		}
		if (i < n) != (p.Chips > 0) {
			w.X.Fail("alive-first", "the final rankings %v do not place the %d players with chips first", b.Rankings, n)
		}
		if r.FinalChips != p.Chips {
			w.X.Fail("chips", "%s is ranked with %d chips but has %d", r.PlayerID, r.FinalChips, p.Chips)
		}
		if p.CompetitionRank != i+1 {
			w.X.Fail("rank", "%s is number %d of the final rankings but has rank %d", r.PlayerID, i+1, p.CompetitionRank)
		}
	}
	for i := 1; i < n; i++ {
		x, y := b.P(b.Rankings[i-1].PlayerID), b.P(b.Rankings[i].PlayerID)
		if x == nil || y == nil {
			continue
		}
		if x.Chips < y.Chips || (x.Chips == y.Chips && x.JoinAt > y.JoinAt) {
			w.X.Fail("order", "the final rankings put %s (%d chips) before %s (%d chips)", x.PlayerID, x.Chips, y.PlayerID, y.Chips)
		}
	}
	// eliminated players: the later out, the better
	for i := n + 1; i < len(b.Rankings); i++ {
		x, y := b.P(b.Rankings[i-1].PlayerID), b.P(b.Rankings[i].PlayerID)
		if x != nil && y != nil && x.KnockoutAt < y.KnockoutAt {
			w.X.Fail("out-order", "the final rankings put %s (out at %d) before %s (out at %d)", x.PlayerID, x.KnockoutAt, y.PlayerID, y.KnockoutAt)
		}
		if x != nil && y != nil && outStep[x.PlayerID] == outStep[y.PlayerID] && x.JoinAt > y.JoinAt && sameTable(w, x, y) {
			w.X.Fail("out-join", "%s and %s went out together, but the later joiner %s is ranked first", x.PlayerID, y.PlayerID, x.PlayerID)
		}
	}
	for i := range b.Players {
		p := &b.Players[i]
		if (p.Chips > 0 || p.Status == psOut) && pos[p.PlayerID] == 0 {
			w.X.Fail("unranked", "%s (%s, %d chips) is missing from the final rankings %v", p.PlayerID, p.Status, p.Chips, b.Rankings)
		}
	}
	for id, r := range final {
		if pos[id] != r && pos[id] != 0 && w.Memo["left"] == nil {
			w.X.Fail("event", "the final rank of %s was announced as %d, but the final rankings say %d", id, r, pos[id])
		}
	}
	for i := 0; i < n; i++ {
		if _, ok := final[b.Rankings[i].PlayerID]; !ok {
			w.X.Fail("no-event", "no final rank was announced for %s", b.Rankings[i].PlayerID)
		}
	}
}

// sameTable: they were knocked out at one table (always true in CT/cash).
func sameTable(w *World, x, y *pc.CompetitionPlayer) bool { return w.Cfg.Mode != MTT }

// -------- C17: blinds at the tables --------

func (w *World) blindAt(idx int) pt.TableBlindState {
	if idx < 0 {
		return pt.TableBlindState{Level: 0, Ante: -1, Dealer: -1, SB: -1, BB: -1}
	}
	l := w.Cfg.Levels[idx]
	d := int64(0)
	if w.Cfg.DealerTime > 0 {
		d = l.Ante * int64(w.Cfg.DealerTime-1)
	}
	return pt.TableBlindState{Level: l.Level, Ante: l.Ante, Dealer: d, SB: l.SB, BB: l.BB}
}

func monTableBlind(w *World, s *Step) {
	b := s.Post
	for _, e := range s.Evs {
		if e.Kind == "open" {
			// a hand is opened with the blinds of the level in force
			t := w.B.tables[e.Table]
			for _, o := range t.Opens {
				if o.Count == e.Rank {
					if o.Blind.Level == 0 || o.Blind.Ante == -1 {
						w.X.Fail("unset", "hand %d at %s was opened before the blinds were set", e.Rank, e.Table)
					}
					if o.Blind != w.blindAt(s.Pre.Lvl) && o.Blind != w.blindAt(b.Lvl) {
						w.X.Fail("hand", "hand %d at %s was opened with blinds %+v, the level in force is %+v", e.Rank, e.Table, o.Blind, w.blindAt(b.Lvl))
					}
				}
			}
		}
	}
	if ended(b.Status) || b.Status == stReg {
		return
	}
	for _, t := range b.Back {
		if t.Blind != w.blindAt(b.Lvl) {
			w.X.Fail("table", "%v: the blind level in force is %+v but table %s has %+v", s.Op, w.blindAt(b.Lvl), t.ID, t.Blind)
		}
	}
}

// monClock: the competition's level follows the clock (C01 on the engine).
func monClock(w *World, s *Step) {
	b := s.Post
	act, ok := w.Memo["act"].(int64)
	for _, e := range s.evs("state", pc.CompetitionStateEvent_BlindActivated) {
		if ok {
			w.X.Fail("twice", "the blind clock was started twice")
		}
		act, ok = e.At, true
		w.Memo["act"] = act
	}
	if !ok {
		if b.Lvl != -1 {
			w.X.Fail("unstarted", "the blind level is %d before the blinds are active", b.Lvl)
		}
		return
	}
	init := w.Cfg.Init
	if v, ok := w.Memo["init"].(int); ok {
		init = v
	}
	idx := 0
	for i, l := range w.Cfg.Levels {
		if l.Level == init {
			idx = i
		}
	}
	end := sec(act)
	exp := make([]int64, len(w.Cfg.Levels))
	cur := idx
	for i := idx; i < len(w.Cfg.Levels); i++ {
		if w.Cfg.Levels[i].Duration == -1 {
			break
		}
		end += int64(w.Cfg.Levels[i].Duration)
		exp[i] = end
		if b.Now >= end*1e9 && i+1 < len(w.Cfg.Levels) {
			cur = i + 1
		}
		if b.EndAts[i] != end {
			w.X.Fail("endat", "%v: level %d is announced to end at %d, expected %d", s.Op, i, b.EndAts[i], end)
		}
	}
	if !ended(b.Status) && b.Lvl != cur {
		w.X.Fail("level", "%v: %.2f s after the start the blind level index is %d, expected %d", s.Op, float64(b.Now-act)/1e9, b.Lvl, cur)
	}
	if s.Op.Kind != "par" {
		n := len(s.evs("state", pc.CompetitionStateEvent_BlindUpdated))
		if b.Lvl != s.Pre.Lvl && s.Pre.Lvl != -1 && n == 0 {
			w.X.Fail("silent", "%v: the level changed without an announcement", s.Op)
		}
	}
}

// -------- C19: hands re-open after a pause --------

func monPause(w *World, s *Step) {
	if s.Op.Kind == "par" {
		return
	}
	a, b := s.Pre, s.Post
	if a.Status != b.Status || a.Lvl != b.Lvl || ended(a.Status) {
		return
	}
	brk := b.Lvl >= 0 && w.Cfg.Levels[b.Lvl].Level == -1
	for i, e := range s.Evs {
		if e.Kind != "table" || e.Name != string(pt.TableStateStatus_TablePausing) {
			continue
		}
		must := len(e.List) >= w.Cfg.TableMin && !brk && a.T(e.Table) != nil
		for _, id := range a.Adv.UpdatedTableIDs {
			must = must && id != e.Table // it waits for the advancement
		}
		if w.Cfg.Mode == CT && b.Status != stDelayed && b.Status != stStopped {
			must = false
		}
		n := 0
		for _, g := range s.Evs[i+1:] {
			if g.Kind == "table" && g.Table == e.Table {
				break
			}
			if g.Kind != "call" || g.Name != "SetUpTableGame" || g.Table != e.Table {
				continue
			}
			n++
			if g.Rank != e.Rank+1 {
				w.X.Fail("count", "%v: hand %d was set up after hand %d", s.Op, g.Rank, e.Rank)
			}
			if must && fmt.Sprint(g.List) != fmt.Sprint(e.List) {
				w.X.Fail("participants", "%v: a hand was set up for %v, but %v are ready", s.Op, g.List, e.List)
			}
			if !must && s.Op.Kind != "tick" {
				w.X.Fail("reopened", "%v: table %s is paused (%d ready, break %v, %s) but a hand was set up", s.Op, e.Table, len(e.List), brk, b.Status)
			}
		}
		if must && n == 0 && b.B(e.Table) != nil {
			w.X.Fail("not-reopened", "%v: table %s is paused with %d players ready but no hand was set up", s.Op, e.Table, len(e.List))
		}
	}
}

// -------- chip conservation (C20 and others) --------

// monChips: while no hand is running, the chips in play are exactly the chips bought.
func monChips(w *World, s *Step) {
	b := s.Post
	var bought, have int64
	bought, _ = w.Memo["bought"].(int64)
	switch {
	case (s.Op.Kind == "buyin" || s.Op.Kind == "addon") && s.Err == nil && s.Done:
		bought += s.Op.Arg
	case s.Op.Kind == "refund" && s.Err == nil:
		if p := s.Pre.P(pname(s.Op.P)); p != nil {
			bought -= p.Chips
		}
	}
	for _, e := range s.evs("cashout", "") {
		bought -= e.Chips
	}
	w.Memo["bought"] = bought
	if ended(b.Status) || len(w.open) > 0 {
		return
	}
	for i := range b.Players {
		have += b.Players[i].Chips
	}
	if have != bought {
		w.X.Fail("conserve", "%v: players hold %d chips in total but %d were bought", s.Op, have, bought)
	}
	for _, t := range b.Back {
		for _, tp := range t.Players {
			p := b.P(tp.ID)
			if p != nil && p.Chips != tp.Bank {
				w.X.Fail("mismatch", "%v: %s holds %d chips at table %s but %d in the competition", s.Op, tp.ID, tp.Bank, t.ID, p.Chips)
			}
		}
	}
}
