package main

import (
	pc "github.com/weedbox/pokercompetition"
	pt "github.com/weedbox/pokertable"
)

func addon(p int, t string) Op      { return Op{Kind: "addon", P: p, T: t, Arg: 500, Unit: 1} }
func refund(p int) Op               { return Op{Kind: "refund", P: p} }
func cashout(p int) Op              { return Op{Kind: "cashout", P: p, T: "t0"} }
func quit(p int) Op                 { return Op{Kind: "quit", P: p, T: "t0"} }
func closeOp(a int64) Op            { return Op{Kind: "close", Arg: a} }
func joinOp(p int) Op               { return Op{Kind: "join", P: p} }
func settleOp(t string, v int64) Op { return Op{Kind: "settle", T: t, Arg: v} }
func startOp() Op                   { return Op{Kind: "start"} }

func cashCfg() Cfg {
	c := baseCfg(Cash)
	c.Final = -2
	c.RebuyMax = 9
	return c
}

// toPause plays until the running hand is over and the table pauses.
func (w *World) untilPaused(id string, max int64) bool {
	return w.Until(max, func() bool { return w.B.tables[id].T.State.Status == pt.TableStateStatus_TablePausing })
}

// playerOps: the phases and combinations C28 explores.
func playerParFams(deep bool) []parFam {
	ct := baseCfg(CT)
	ct.Min, ct.Seats = 3, 3
	ctReg := parFam{name: "ct-reg", cfg: ct, setup: func(w *World) { w.seed(2, 1000) }, quick: 2, deep: 4, lin: true,
		sets: [][]Op{{buyin(2, 1000), buyin(3, 900)}, {buyin(2, 1000), buyin(2, 900)}, {buyin(2, 1000), refund(0)}, {refund(0), refund(0)}, {refund(0), refund(1)},
			{refund(0), buyin(0, 700)}, {buyin(2, 1000), quit(0)}, {quit(0), refund(0)}}}
	// one player is out of chips and may re-buy; another sits between hands
	c2 := baseCfg(CT)
	c2.Seats, c2.Min, c2.AddonMax = 4, 3, 1
	ctBust := parFam{name: "ct-rebuy", cfg: c2, setup: func(w *World) {
		startPlay(w, 3)
		w.Do(settleOp("t0", 3))
		w.Pass(1e9)
	}, quick: 2, deep: 4, lin: true,
		sets: [][]Op{{buyin(0, 700), buyin(0, 600)}, {buyin(0, 700), quit(0)}, {addon(1, "t0"), addon(1, "t0")}, {addon(1, "t0"), quit(1)}, {quit(1), quit(1)}, {quit(1), quit(2)},
			{buyin(0, 700), buyin(3, 800)}, {buyin(3, 800), buyin(4, 800)}, {addon(1, "t0"), buyin(3, 800)}, {buyin(3, 800), quit(1)}, {buyin(0, 700), addon(1, "t0")}}}
	ctTimer := ctBust
	ctTimer.name = "ct-window"
	ctTimer.setup = func(w *World) {
		startPlay(w, 3)
		w.Do(settleOp("t0", 3))
		w.untilPlaying("t0", 30e9)
		w.Pass(7500e6)
	}
	ctTimer.sets = [][]Op{{buyin(0, 700), fire()}, {quit(0), fire()}, {buyin(3, 700), fire()}, {addon(1, "t0"), fire()}}
	ca := cashCfg()
	ca.Seats = 4
	cashReg := parFam{name: "cash-reg", cfg: func() Cfg { c := ca; c.Min = 3; return c }(), setup: func(w *World) { w.seed(2, 1000) }, quick: 2, deep: 4, lin: true,
		sets: [][]Op{{cashout(0), cashout(0)}, {cashout(0), refund(0)}, {cashout(0), buyin(0, 500)}, {cashout(0), cashout(1)}, {buyin(2, 500), cashout(0)}, {buyin(2, 500), buyin(2, 600)},
			{buyin(2, 500), buyin(3, 600)}, {refund(0), refund(1)}, {refund(0), buyin(0, 500)}, {buyin(0, 500), buyin(0, 600)}}}
	cashPlay := parFam{name: "cash-play", cfg: ca, setup: func(w *World) { startPlay(w, 3) }, quick: 2, deep: 4, lin: true,
		sets: [][]Op{{cashout(0), cashout(0)}, {cashout(0), cashout(1)}, {addon(0, "t0"), cashout(0)}, {addon(0, "t0"), addon(0, "t0")}, {buyin(3, 500), cashout(0)}, {buyin(3, 500), buyin(3, 500)}}}
	cashPause := parFam{name: "cash-pause", cfg: ca, setup: func(w *World) {
		startPlay(w, 2)
		w.Do(settleOp("t0", 2))
		w.Until(60e9, func() bool { return w.B.tables["t0"].T.State.Status == pt.TableStateStatus_TablePausing })
	}, quick: 2, deep: 4, lin: true,
		sets: [][]Op{{cashout(1), cashout(1)}, {cashout(0), cashout(1)}, {cashout(1), addon(1, "t0")}, {cashout(0), buyin(0, 500)}, {cashout(1), buyin(2, 700)}}}
	m := baseCfg(MTT)
	m.Min, m.Seats = 3, 4
	mttReg := parFam{name: "mtt-reg", cfg: m, setup: func(w *World) {
		for i := 0; i < 2; i++ {
			w.Pass(1e9)
			w.Do(buyin(i, 1000))
		}
	}, quick: 2, deep: 4, lin: true,
		sets: [][]Op{{buyin(2, 900), buyin(3, 800)}, {buyin(2, 900), buyin(2, 800)}, {buyin(2, 900), refund(0)}, {refund(0), refund(0)}, {refund(0), refund(1)}, {refund(0), buyin(0, 500)}}}
	mttPlay := parFam{name: "mtt-play", cfg: m, setup: func(w *World) {
		startPlay(w, 3)
		w.Do(settleOp(w.anyPlaying(), 3))
		w.Pass(1e9)
	}, quick: 2, deep: 4, lin: true,
		sets: [][]Op{{buyin(0, 900), buyin(0, 800)}, {buyin(3, 900), buyin(4, 800)}, {buyin(0, 900), buyin(3, 900)}}}
	fs := []parFam{ctReg, ctBust, ctTimer, cashReg, cashPlay, cashPause, mttReg, mttPlay}
	// triples
	tri := ctReg
	tri.name = "ct-reg3"
	tri.sets = [][]Op{{buyin(2, 1000), buyin(3, 900), refund(0)}, {refund(0), refund(0), buyin(0, 500)}}
	tri2 := ctBust
	tri2.name = "ct-rebuy3"
	tri2.sets = [][]Op{{buyin(0, 700), buyin(3, 800), quit(1)}, {buyin(0, 700), buyin(0, 600), quit(0)}}
	tri3 := cashPlay
	tri3.name = "cash-play3"
	tri3.sets = [][]Op{{cashout(0), addon(0, "t0"), cashout(1)}, {buyin(3, 500), buyin(3, 500), cashout(0)}}
	for _, t := range []parFam{tri, tri2, tri3} {
		t.quick = 1
		t.deep = 3
		fs = append(fs, t)
	}
	return fs
}

// endingFams: two causes of an ending at the same time.
func endingFams() []parFam {
	var fs []parFam
	for _, mode := range []pcMode{CT, MTT, Cash} {
		c := baseCfg(mode)
		c.Seats, c.Min = 4, 3
		if mode == Cash {
			c.Final, c.RebuyMax = -2, 9
		}
		tid := "t0"
		fs = append(fs, parFam{name: "end-play-" + string(mode), cfg: c, setup: func(w *World) { startPlay(w, 3) }, quick: 2, deep: 3,
			sets: [][]Op{{closeOp(0), closeOp(1)}, {closeOp(0), closeOp(0)}, {closeOp(0), closeOp(1), closeOp(2)}}})
		if mode != MTT {
			fs = append(fs, parFam{name: "end-close-" + string(mode), cfg: c, setup: func(w *World) { startPlay(w, 3) }, quick: 2, deep: 3,
				sets: [][]Op{{closeOp(0), {Kind: "closetable", T: tid}}, {closeOp(1), settleOp(tid, 0)}, {closeOp(1), settleOp(tid, 3)}}})
		}
		fs = append(fs, parFam{name: "end-reg-" + string(mode), cfg: func() Cfg { c := c; c.DisableIn = 100; return c }(), setup: func(w *World) {
			w.seed(2, 1000)
			w.Pass(70e9)
		}, quick: 2, deep: 3, sets: [][]Op{{closeOp(0), closeOp(1)}, {closeOp(1), fire()}}})
	}
	// buying in is over and the last hand is decided
	c := baseCfg(CT)
	c.Seats, c.Min, c.Final = 4, 3, 0
	dec := func(w *World) {
		startPlay(w, 3)
		w.Do(settleOp("t0", 0))
		w.Pass(110e9)
		w.mustPlay("t0")
		w.Do(settleOp("t0", 6)) // one player has everything: closes in 3 s
		w.Pass(2400e6)
	}
	fs = append(fs, parFam{name: "end-decided", cfg: c, setup: dec, quick: 2, deep: 3,
		sets: [][]Op{{closeOp(0), fire()}, {closeOp(1), {Kind: "autoend"}}, {{Kind: "autoend"}, {Kind: "autoend"}}, {{Kind: "autoend"}, fire()}, {{Kind: "closetable", T: "t0"}, fire()}}})
	// the end of buying in ends the competition
	c4 := baseCfg(CT)
	c4.Seats, c4.Min, c4.Final, c4.RebuyWait = 4, 3, 0, 300
	fs = append(fs, parFam{name: "end-stop", cfg: c4, setup: func(w *World) {
		startPlay(w, 3)
		w.Do(settleOp("t0", 6))
		w.untilPaused("t0", 60e9)
		w.Until(100e9, func() bool { n := w.S.NextTimer(); return n > 0 && n >= int64(w.C.State.BlindState.EndAts[0])*1e9 })
	}, quick: 2, deep: 3, sets: [][]Op{{closeOp(0), fire()}, {{Kind: "closetable", T: "t0"}, fire()}}})
	return fs
}

// startFams: several things that may start a single table at once.
func startFams() []parFam {
	var fs []parFam
	for _, mode := range []pcMode{CT, Cash} {
		c := baseCfg(mode)
		c.Seats, c.Min = 4, 2
		if mode == Cash {
			c.Final, c.RebuyMax = -2, 9
		}
		fs = append(fs, parFam{name: "start-" + string(mode), cfg: c, setup: func(w *World) {
			for i := 0; i < 3; i++ {
				w.Pass(1e9)
				w.Do(buyin(i, 1000))
			}
		}, quick: 2, deep: 3, sets: [][]Op{{joinOp(0), joinOp(1)}, {joinOp(0), joinOp(1), joinOp(2)}, {joinOp(0), joinOp(1), startOp()}, {startOp(), startOp()}}})
		fs = append(fs, parFam{name: "start1-" + string(mode), cfg: c, setup: func(w *World) {
			for i := 0; i < 2; i++ {
				w.Pass(1e9)
				w.Do(buyin(i, 1000))
			}
			w.Do(joinOp(0))
		}, quick: 2, deep: 3, sets: [][]Op{{joinOp(1), startOp()}, {joinOp(1), buyin(2, 900)}, {joinOp(1), refund(0)}}})
		c.StartIn = 40
		fs = append(fs, parFam{name: "start-at-" + string(mode), cfg: c, setup: func(w *World) {
			for i := 0; i < 3; i++ {
				w.Pass(1e9)
				w.Do(buyin(i, 1000))
			}
			w.Do(joinOp(0))
			if mode == CT {
				w.Do(joinOp(1))
			}
			w.Until(60e9, func() bool { n := w.S.NextTimer(); return n < 0 || n >= int64(w.C.State.StartAt)*1e9 })
		}, quick: 2, deep: 3, sets: [][]Op{{joinOp(2), fire()}, {startOp(), fire()}, {joinOp(1), joinOp(2), fire()}}})
	}
	m := baseCfg(MTT)
	m.Min, m.Seats = 3, 4
	fs = append(fs, parFam{name: "start-mtt", cfg: m, setup: func(w *World) {
		for i := 0; i < 2; i++ {
			w.Pass(1e9)
			w.Do(buyin(i, 1000))
		}
	}, quick: 2, deep: 3, sets: [][]Op{{startOp(), buyin(2, 900)}, {startOp(), startOp()}, {startOp(), buyin(2, 900), buyin(3, 900)}, {startOp(), refund(0)}}})
	m.StartIn = 40
	fs = append(fs, parFam{name: "start-at-mtt", cfg: m, setup: func(w *World) {
		for i := 0; i < 2; i++ {
			w.Pass(1e9)
			w.Do(buyin(i, 1000))
		}
		w.Until(60e9, func() bool { n := w.S.NextTimer(); return n < 0 || n >= int64(w.C.State.StartAt)*1e9 })
	}, quick: 2, deep: 3, sets: [][]Op{{buyin(2, 900), fire()}, {startOp(), fire()}, {buyin(2, 900), buyin(3, 900), fire()}, {refund(0), fire()}}})
	for i := range fs {
		fs[i].wt = 3
	}
	return fs
}

// settleFams: a settlement, its duplicates and player operations.
func settleFams() []parFam {
	var fs []parFam
	for _, mode := range []pcMode{CT, Cash, MTT} {
		c := baseCfg(mode)
		c.Seats, c.Min = 5, 3
		if mode == Cash {
			c.Final, c.RebuyMax = -2, 9
		}
		dup := Op{Kind: "dupc", T: "t0"}
		var sets, ops [][]Op
		for _, v := range []int64{0, 3, 6} {
			s := settleOp("t0", v)
			sets = append(sets, []Op{s, dup}, []Op{s, dup, dup})
			ops = append(ops, []Op{s, buyin(3, 700)}, []Op{s, addon(1, "t0")})
			if mode == Cash {
				ops = append(ops, []Op{s, cashout(0)}, []Op{s, cashout(1)})
			}
		}
		fs = append(fs, parFam{name: "settle-" + string(mode), cfg: c, setup: func(w *World) { startPlay(w, 3) }, quick: 1, deep: 3, sets: sets})
		// the settlement does not exclude player operations: a known defect
		fs = append(fs, parFam{name: "settle-ops-" + string(mode), cfg: c, setup: func(w *World) { startPlay(w, 3) }, quick: 1, deep: 2, sets: ops, code: "unsynchronised"})
	}
	return fs
}

var _ = pc.CompetitionMode_CT
