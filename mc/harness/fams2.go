package main

import (
	pc "github.com/weedbox/pokercompetition"
)

// --- around the disable time (C30) ---

func famDisable(mode pcMode) family {
	c := baseCfg(mode)
	c.DisableIn = 4
	c.Min = 2
	if mode == Cash {
		c.Final = -2
	}
	f := family{name: "disable-" + string(mode), cfg: c, quick: 4, deep: 6, gap: 1e9, drain: 100e9}
	f.alpha = func(w *World) []Op {
		o := []Op{buyin(0, 1000), {Kind: "buyin", P: 1, Arg: 1000, Unit: 2}, {Kind: "refund", P: 0}, {Kind: "sit"}, {Kind: "start"}, passMs(1000), {Kind: "close", Arg: 0}, {Kind: "close", Arg: 1}}
		if mode == Cash {
			o = append(o, Op{Kind: "cashout", P: 0})
		}
		return o
	}
	return f
}

func famDisableStart(mode pcMode, in int64) family {
	f := famDisable(mode)
	f.name = "disable-start-" + string(mode)
	f.cfg.StartIn = in
	return f
}

// --- the end of a single-table tournament (C29) ---

func famEnd(name string, final int, n int) family {
	c := baseCfg(CT)
	c.Seats = 4
	c.Min = n
	c.MaxDur = 40
	c.Final = final
	c.Levels = []pc.BlindLevel{lv(1, 25, true), lv(2, 1000, true)}
	c.RebuyMax = 1
	c.RebuyWait = 8
	f := family{name: name, cfg: c, quick: 5, deep: 8, drain: 200e9, weight: 2}
	f.setup = func(w *World) { startPlay(w, n) }
	f.alpha = func(w *World) []Op {
		o := settles(w, false)
		if t := w.B.tables["t0"]; !t.playing() && !ended(w.last.Status) {
			o = append(o, Op{Kind: "hand", T: "t0"})
		}
		for i := 0; i < n && i < 2; i++ {
			if p := w.last.P(pname(i)); p != nil && p.Status == psRebuy {
				o = append(o, buyin(i, 600))
			}
		}
		return append(o, tick(), passMs(1000), passMs(7000), passMs(20000))
	}
	return f
}

// --- breaks (C18) ---

func famBreak(mode pcMode, n int) family {
	c := baseCfg(mode)
	c.Seats = 4
	c.Min = n
	if mode == MTT {
		c.Seats = 9
		c.RegMin = 2
	}
	c.Final = -2
	c.RebuyMax = 9
	c.RebuyWait = 20
	c.Levels = []pc.BlindLevel{lv(1, 30, true), lv(-1, 15, true), lv(2, 20, true), lv(-1, 10, false), lv(3, 1000, true)}
	f := family{name: "break-" + string(mode), cfg: c, quick: 5, deep: 7, drain: 300e9, weight: 2}
	if n > 4 {
		f.name += "-many"
		f.quick = 4
	}
	f.setup = func(w *World) {
		startPlay(w, n)
	}
	f.alpha = breakAlpha
	return f
}

// famBreakAdj: two breaks that follow each other, and a break at the end.
func famBreakAdj(mode pcMode) family {
	f := famBreak(mode, 3)
	f.name = "break-adjacent-" + string(mode)
	f.cfg.Levels = []pc.BlindLevel{lv(1, 30, true), lv(-1, 5, true), lv(-1, 10, false), lv(2, 20, true), lv(-1, 10, true)}
	f.quick, f.deep, f.weight = 4, 6, 1
	return f
}

func breakAlpha(w *World) []Op {
	var o []Op
	for _, s := range settles(w, false) {
		o = append(o, s)
	}
	for _, id := range w.B.order {
		t := w.B.tables[id]
		if t.closed || t.released {
			continue
		}
		if !t.playing() && t.T.State.Status == "table_pausing" {
			o = append(o, Op{Kind: "pausetable", T: id})
		}
		if !t.playing() && !ended(w.last.Status) {
			o = append(o, Op{Kind: "hand", T: id})
		}
		if w.possible(Op{Kind: "dup", T: id}) {
			o = append(o, Op{Kind: "dup", T: id})
		}
	}
	if w.Cfg.Mode != MTT {
		o = append(o, buyin(3, 700))
	} else {
		o = append(o, buyin(30, 700))
	}
	for p := 0; p < 2; p++ {
		if q := w.last.P(pname(p)); q != nil && q.Chips == 0 {
			o = append(o, buyin(p, 600))
		}
	}
	return append(o, tick(), passMs(5000), passMs(13000), Op{Kind: "close"})
}

// --- advancement (C21) ---

func famAdv(rule pc.CompetitionAdvanceRule, n, count, level int, name string) family {
	c := baseCfg(MTT)
	c.Seats = 9
	c.Min = n
	c.RegMin = 2
	c.Final = 0
	c.Levels = []pc.BlindLevel{lv(1, 15, true), lv(2, 15, true), lv(3, 1000, true)}
	c.Adv = pc.AdvanceSetting{Rule: rule, BlindLevel: level, PlayerCount: 0}
	c.AdvCount = count
	f := family{name: "adv-" + name, cfg: c, quick: 5, deep: 8, drain: 300e9, weight: 1}
	f.setup = func(w *World) { startPlay(w, n) }
	f.alpha = func(w *World) []Op {
		o := settles(w, false)
		for _, id := range w.B.order {
			t := w.B.tables[id]
			if !t.closed && !t.released && !t.playing() && !ended(w.last.Status) {
				o = append(o, Op{Kind: "hand", T: id})
			}
			if w.possible(Op{Kind: "dup", T: id}) {
				o = append(o, Op{Kind: "dup", T: id})
			}
		}
		if w.has(0) && w.last.P(pname(0)).Chips == 0 {
			o = append(o, buyin(0, 700))
		}
		return append(o, tick(), passMs(14000))
	}
	return f
}

func advFams() []family {
	fs := []family{
		famAdv(pc.CompetitionAdvanceRule_PlayerCount, 4, 3, 0, "count3"),
		famAdv(pc.CompetitionAdvanceRule_PlayerCount, 3, 4, 0, "count4of3"),
		famAdv(pc.CompetitionAdvanceRule_BlindLevel, 3, 0, 3, "level3"),
		famAdv(pc.CompetitionAdvanceRule_BlindLevel, 3, 0, 2, "level2"),
		famAdv("", 3, 2, 2, "none"),
	}
	two := famAdv(pc.CompetitionAdvanceRule_PlayerCount, 12, 12, 0, "two-tables")
	two.quick = 5
	lvl := famAdv(pc.CompetitionAdvanceRule_BlindLevel, 12, 0, 2, "two-tables-level")
	closed := famAdv(pc.CompetitionAdvanceRule_PlayerCount, 4, 3, 0, "closed")
	closed.cfg.Final = -1
	late := famAdv(pc.CompetitionAdvanceRule_BlindLevel, 3, 0, 3, "init-late")
	late.cfg.Init = 2
	brk := func(rule pc.CompetitionAdvanceRule, count, level, from int, name string) family {
		f := famAdv(rule, 12, count, level, name)
		f.cfg.Levels = []pc.BlindLevel{lv(1, 15, true), lv(2, 15, true), lv(-1, 10, true), lv(3, 1000, true)}
		f.quick = 4
		f.setup = func(w *World) {
			startPlay(w, 12)
			w.Pass(int64(from) * 1e9)
		}
		return f
	}
	join := famAdv(pc.CompetitionAdvanceRule_BlindLevel, 4, 0, 2, "join-late")
	join.quick = 4
	join.setup = func(w *World) {
		startPlay(w, 4)
		w.Do(Op{Kind: "settle", T: w.anyPlaying(), Arg: 4})
		w.Pass(1e9)
		w.Do(buyin(0, 700))
		w.Pass(16.7e9)
	}
	fs = append(fs, join,
		brk(pc.CompetitionAdvanceRule_BlindLevel, 0, 2, 18, "break-level"),
		brk(pc.CompetitionAdvanceRule_BlindLevel, 0, 3, 18, "break-level-after"),
		brk(pc.CompetitionAdvanceRule_PlayerCount, 13, 0, 18, "break-count"))
	return append(fs, two, lvl, closed, late, famAdvSmall("small-tables", pc.CompetitionAdvanceRule_PlayerCount, 5, 0), famAdvSmall("small-tables-level", pc.CompetitionAdvanceRule_BlindLevel, 0, 2))
}

// famAdvSmall: two tables of three, of which one empties.
func famAdvSmall(name string, rule pc.CompetitionAdvanceRule, count, level int) family {
	f := famTables("adv-"+name, 6, 4, 2, 0, 70e9)
	f.cfg.Adv = pc.AdvanceSetting{Rule: rule, BlindLevel: level}
	f.cfg.AdvCount = count
	f.cfg.Levels = []pc.BlindLevel{lv(1, 60, true), lv(2, 1000, true)}
	f.quick = 5
	f.weight = 1
	return f
}

// --- further configurations, for every sequential property ---

func famVar(name string, mode pcMode, n int, change func(c *Cfg)) family {
	f := famPlay(mode)
	f.name = name
	f.cfg.Min = n
	change(&f.cfg)
	f.setup = func(w *World) { startPlay(w, n) }
	f.weight = 1
	return f
}

// famMany: a tournament on two tables.
func famMany(name string, final int) family {
	c := baseCfg(MTT)
	c.Seats = 9
	c.Min = 12
	c.RegMin = 2
	c.Final = final
	c.Levels = []pc.BlindLevel{lv(1, 40, true), lv(2, 100, true), lv(3, 1000, true)}
	f := family{name: name, cfg: c, quick: 4, deep: 7, drain: 600e9, weight: 1}
	f.setup = func(w *World) { startPlay(w, 12) }
	f.alpha = func(w *World) []Op {
		var o []Op
		for _, id := range w.B.order {
			t := w.B.tables[id]
			if t.playing() {
				n := len(t.T.State.GamePlayerIndexes)
				// one wins a little; one is out; one wins everything
				for _, v := range []int{0, n + 1, 2 * n} {
					o = append(o, Op{Kind: "settle", T: id, Arg: int64(v)})
				}
			} else if !t.closed && !t.released && !ended(w.last.Status) {
				o = append(o, Op{Kind: "hand", T: id})
			}
		}
		if !ended(w.last.Status) {
			o = append(o, buyin(30, 700), buyin(31, 600))
			for p := 0; p < 3; p++ {
				if q := w.last.P(pname(p)); q != nil && q.Chips == 0 {
					o = append(o, buyin(p, 500))
					break
				}
			}
		}
		return append(o, Op{Kind: "sit"}, tick(), passMs(20000))
	}
	return f
}

func famSched(mode pcMode) family {
	f := famReg(mode)
	f.name = "sched-" + string(mode)
	f.cfg.StartIn = 3
	f.cfg.Min = 2
	f.weight = 1
	return f
}

func famLimitCash() family {
	return famVar("limit-cash", Cash, 2, func(c *Cfg) { c.RebuyMax = 1; c.AddonMax = 1; c.MaxDur = 60; c.Final = -2 })
}

func moreFams() []family {
	brk := func(mode pcMode, only bool) family {
		f := famBreak(mode, 3)
		f.weight = 1
		f.cfg.AddonBreak = only
		old := f.alpha
		f.alpha = func(w *World) []Op { return append(old(w), addonOps(w, 0, 1)...) }
		return f
	}
	end := func(f family) family {
		f.weight = 1
		return f
	}
	return []family{
		brk(CT, true), brk(Cash, false), brk(MTT, true),
		end(famEnd("end-open", -2, 3)), end(famEnd("end-stop", 0, 3)),
		famMany("many", 0),
		famVar("nostop-ct", CT, 3, func(c *Cfg) { c.Final = -2; c.RebuyMax = 2 }),
		famVar("closed-ct", CT, 3, func(c *Cfg) { c.Final = -1 }),
		famVar("closed-mtt", MTT, 3, func(c *Cfg) { c.Final = -1 }),
		famVar("init-late-mtt", MTT, 3, func(c *Cfg) { c.Final = 0; c.Init = 2 }),
		famVar("init2-ct", CT, 2, func(c *Cfg) { c.Init = 2; c.DealerTime = 3; c.Rule = pc.CompetitionRule_ShortDeck; c.AddonMax = 1 }),
		famVar("norebuy-mtt", MTT, 3, func(c *Cfg) { c.RebuyMax = 0; c.DealerTime = 2 }),
		famLimitCash(),
		famVar("init2-break-ct", CT, 2, func(c *Cfg) {
			c.Init = 2
			c.Levels = []pc.BlindLevel{lv(1, 10, true), lv(-1, 5, true), lv(2, 6, true), lv(3, 1000, true)}
		}),
		famSched(CT), famSched(MTT), famQueue(), famChip(CT), famChip(Cash), famChip(MTT),
		famThree(CT), famThree(Cash), famThree(MTT),
		famBreakAdj(CT), famBreakAdj(MTT),
		famOut("out-cash", -2), famOut("out-closing-cash", 0),
	}
}

// famQueue: players who wait for the start of a tournament, refund and return.
func famQueue() family {
	f := famReg(MTT)
	f.name = "queue-mtt"
	f.weight = 1
	f.setup = func(w *World) {
		for i := 0; i < 3; i++ {
			w.Do(buyin(i, 1000))
		}
	}
	f.alpha = func(w *World) []Op {
		return []Op{{Kind: "refund", P: 0}, {Kind: "refund", P: 1}, buyin(0, 900), buyin(3, 1100), {Kind: "start"}, {Kind: "sit"}, tick()}
	}
	f.drain = 20e9
	// whoever waits gets a seat in the course of a few hands
	f.post = func(w *World) {
		if !w.activated() || ended(w.last.Status) {
			return
		}
		w.joinAll()
		for i := 0; i < 4; i++ {
			w.Pass(12e9)
			for _, id := range append([]string{}, w.B.order...) {
				if w.B.tables[id].playing() {
					w.Do(Op{Kind: "settle", T: id, Arg: 0})
				}
			}
		}
	}
	return f
}

// famChip: everybody but one is left with a single chip, and plays on.
func famChip(mode pcMode) family {
	f := famPlay(mode)
	f.name = "chip-" + string(mode)
	f.weight = 1
	f.setup = func(w *World) {
		startPlay(w, 3)
		id := w.B.order[0]
		w.Do(Op{Kind: "settle", T: id, Arg: 9})
		w.mustPlay(id)
	}
	alpha := f.alpha
	f.alpha = func(w *World) []Op {
		o := alpha(w)
		for _, id := range w.B.order {
			if t := w.B.tables[id]; t.playing() {
				n := int64(len(t.T.State.GamePlayerIndexes))
				o = append(o, Op{Kind: "settle", T: id, Arg: 4*n - 1})
			}
		}
		return o
	}
	return f
}

// famThree: a table needs three players.
func famThree(mode pcMode) family {
	f := famVar("three-"+string(mode), mode, 3, func(c *Cfg) {
		c.TableMin, c.RegMin = 3, 3
		c.Levels = []pc.BlindLevel{lv(1, 20, true), lv(2, 20, true), lv(-1, 10, true), lv(3, 1000, true)}
		c.Final = 0
		if mode == Cash {
			c.Final = -2
		}
	})
	f.drain = 60e9
	return f
}

// famOut: cash players who are out of re-buys and still there: they stay, leave,
// come back, while buying in is open (final -2) or closed.
func famOut(name string, final int) family {
	f := famVar(name, Cash, 3, func(c *Cfg) { c.RebuyMax = 0; c.Final = final; c.Seats = 4; c.Min = 2 })
	f.setup = func(w *World) {
		startPlay(w, 3)
		id := w.anyPlaying()
		if final == 0 {
			w.Pass(80e9)
		}
		w.Do(Op{Kind: "settle", T: id, Arg: 8})
		w.Pass(3e9)
	}
	return f
}
