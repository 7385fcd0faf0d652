package main

import (
	"errors"
	"fmt"

	pc "github.com/weedbox/pokercompetition"
)

// -------- C32: a failing table backend --------

var errFault = errors.New("backend: injected failure")

var statusOrder = map[pc.CompetitionStateStatus]int{stReg: 0, stDelayed: 1, stStopped: 2, stEnd: 3, stAuto: 3, stForce: 3}

// monFault: whatever the backend does, the status moves forward, the end is
// announced once, counts are those of the players, and chips are not invented.
func monFault(w *World, s *Step) {
	if a, b := statusOrder[s.Pre.Status], statusOrder[s.Post.Status]; b < a || a == 3 && s.Pre.Status != s.Post.Status {
		w.X.Fail("backward", "%v: the status goes from %s to %s", s.Op, s.Pre.Status, s.Post.Status)
	}
	n, _ := w.Memo["settled"].(int)
	n += len(s.evs("state", pc.CompetitionStateEvent_Settled))
	w.Memo["settled"] = n
	if n > 1 {
		w.X.Fail("settled-twice", "%v: the end is announced %d times", s.Op, n)
	}
	if (n == 1) != ended(s.Post.Status) && len(w.open) == 0 {
		w.X.Fail("settled", "%v: the competition is %s but its end was announced %d times", s.Op, s.Post.Status, n)
	}
	paid, _ := w.Memo["paid"].(int64)
	gone, _ := w.Memo["gone"].(int64)
	if (s.Op.Kind == "buyin" || s.Op.Kind == "addon") && s.Op.Arg > 0 {
		paid += s.Op.Arg
	}
	if s.Op.Kind == "refund" && s.Err == nil && s.Done {
		if p := s.Pre.P(pname(s.Op.P)); p != nil {
			gone += p.Chips
		}
	}
	for _, e := range s.evs("cashout", "") {
		gone += e.Chips
	}
	w.Memo["paid"], w.Memo["gone"] = paid, gone
	if len(w.open) > 0 {
		return
	}
	left := func(id, how string) {
		if ended(s.Post.Status) {
			return // its tables were given up when it ended
		}
		for _, t := range s.Post.Back {
			if t.Status != "table_closed" && t.has(id) != nil {
				w.X.Fail("ghost", "%v: %s %s but still sits at table %s", s.Op, id, how, t.ID)
			}
		}
	}
	if s.Op.Kind == "refund" && s.Done {
		if d := diffSnap(s.Pre, s.Post); s.Err != nil && d != "" {
			w.X.Fail("refund-half", "%v was refused (%v) but changed %s", s.Op, s.Err, d)
		}
		if s.Err == nil {
			left(pname(s.Op.P), "was refunded")
		}
	}
	for _, e := range s.evs("cashout", "") {
		left(e.Player, "was paid out")
	}
	seen := map[string]bool{}
	var sum, bought int64
	for i := range s.Post.Players {
		p := &s.Post.Players[i]
		if seen[p.PlayerID] {
			w.X.Fail("listed-twice", "%v: %s is listed twice", s.Op, p.PlayerID)
		}
		seen[p.PlayerID] = true
		if p.Chips < 0 {
			w.X.Fail("negative", "%v: %s holds %d chips", s.Op, p.PlayerID, p.Chips)
		}
		sum += p.Chips
		bought += p.TotalRedeemChips
	}
	if sum+gone > paid {
		w.X.Fail("invented", "%v: players hold %d chips and took %d away but only %d were asked for", s.Op, sum, gone, paid)
	}
	monStat(w, s)
}

// faults lets one request to the backend fail: the one a choice says.
func faults(w *World) {
	done := false
	w.B.Fail = func(op, table, player string) error {
		if done {
			return nil
		}
		if w.X.Choose(2) == 0 {
			return nil
		}
		done = true
		w.Memo["fault"] = op
		w.ev(Ev{Kind: "fault", Name: op, Table: table, Player: player})
		w.X.Logf("    !! %s fails", op)
		return fmt.Errorf("%w (%s)", errFault, op)
	}
}

// closable: after everything, the competition can be closed.
func closable(w *World) {
	w.B.Fail = nil
	if !ended(w.last.Status) {
		st := w.Do(Op{Kind: "close", Arg: 1})
		if st.Err != nil || !ended(st.Post.Status) {
			w.X.Fail("close", "the competition cannot be closed: %v, %s", st.Err, st.Post.Status)
		}
	}
	w.drain(60e9)
}

func faultFams() []family {
	var out []family
	add := func(f family, quick, deep int) {
		f.name = "fault-" + f.name
		su := f.setup
		f.setup = func(w *World) {
			if su != nil {
				su(w)
			}
			faults(w)
		}
		f.post = closable
		f.quick, f.deep, f.weight = quick, deep, 1
		f.mons = nil
		out = append(out, f)
	}
	for _, m := range []pcMode{CT, Cash, MTT} {
		m := m
		// from the beginning
		f := famPlay(m)
		f.name = "fault-start-" + string(m)
		f.setup = func(w *World) {
			faults(w)
			w.seed(3, 1000)
			if m == MTT {
				w.Do(Op{Kind: "start"})
				w.joinAll()
			}
			w.Until(60e9, func() bool { return w.anyPlaying() != "" })
		}
		f.post = closable
		f.quick, f.deep, f.weight, f.mons = 2, 3, 1, nil
		out = append(out, f)
		add(famReg(m), 3, 4)
		add(famPlay(m), 2, 4)
		add(famLate(m), 2, 3)
		add(famStop(m), 2, 3)
		add(famBreak(m, 3), 2, 3)
		add(famDisable(m), 2, 3)
	}
	add(famEnd("end-open", -2, 3), 2, 4)
	add(famEnd("end-stop", 0, 3), 2, 4)
	for _, f := range advFams() {
		add(f, 2, 4)
	}
	for _, f := range tableFams() {
		add(f, 3, 4)
	}
	return out
}

func init() {
	std("C32", "", monFault, faultFams)
}
