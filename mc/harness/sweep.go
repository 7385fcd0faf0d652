package main

import pc "github.com/weedbox/pokercompetition"

// Settings that are valid but unusual, each with a short history alphabet.
func sweepFams() []family {
	short := func(f family, n int) family {
		f.name = "sweep-" + f.name + "-" + string(f.cfg.Mode)
		f.quick, f.deep, f.weight = 2, 4, 1
		return f
	}
	var out []family
	for _, m := range []pcMode{CT, Cash, MTT} {
		v := func(name string, n int, ch func(c *Cfg)) { out = append(out, short(famVar(name, m, n, ch), n)) }
		v("rebuy-wait-0", 3, func(c *Cfg) { c.RebuyWait = 0; c.RebuyMax = 3 })
		v("rebuy-wait-1", 3, func(c *Cfg) { c.RebuyWait = 1; c.RebuyMax = 3 })
		v("final-break", 3, func(c *Cfg) {
			c.Levels = []pc.BlindLevel{lv(1, 20, true), lv(-1, 10, true), lv(2, 20, false), lv(3, 1000, true)}
			c.RebuyMax = 3
		})
		v("one-level", 2, func(c *Cfg) { c.Levels = []pc.BlindLevel{lv(1, 30, true)}; c.Final = 0 })
		v("one-level-endless", 2, func(c *Cfg) { c.Levels = []pc.BlindLevel{lv(1, -1, true)}; c.Final = 0 })
		v("final-past-the-list", 3, func(c *Cfg) { c.Final = 9; c.Levels = []pc.BlindLevel{lv(1, 20, true), lv(2, 20, false)} })
		v("endless-then-more", 3, func(c *Cfg) { c.Levels = []pc.BlindLevel{lv(1, 20, true), lv(2, -1, false), lv(3, 10, true)} })
		v("start-in-break", 3, func(c *Cfg) {
			c.Levels = []pc.BlindLevel{lv(-1, 10, true), lv(1, 20, true), lv(2, 1000, false)}
			c.Init = 1
		})
		v("short-limit", 3, func(c *Cfg) { c.MaxDur = 20 })
		v("limit-in-break", 3, func(c *Cfg) {
			c.MaxDur = 25
			c.Levels = []pc.BlindLevel{lv(1, 20, true), lv(-1, 15, true), lv(2, 1000, false)}
		})
		v("closes-in-a-second", 3, func(c *Cfg) {
			c.Final = 0
			c.Levels = []pc.BlindLevel{lv(1, 1, true), lv(2, 1, true), lv(3, 1000, true)}
		})
		v("dealer-time-1", 2, func(c *Cfg) { c.DealerTime = 1 })
		v("unlimited-addons", 2, func(c *Cfg) { c.AddonMax = 100; c.AddonBreak = true })
		v("one-seat-free", 2, func(c *Cfg) { c.Seats = 2; c.RebuyMax = 2; c.Final = -2 })
		v("every-second", 3, func(c *Cfg) {
			c.Levels = []pc.BlindLevel{lv(1, 1, true), lv(2, 1, true), lv(-1, 1, true), lv(3, 1, true), lv(4, 1, true), lv(-1, 1, true), lv(5, 20, true)}
			c.Final = 4
		})
		v("break-before-the-first-hand", 3, func(c *Cfg) {
			c.Levels = []pc.BlindLevel{lv(1, 1, true), lv(-1, 10, true), lv(2, 20, true), lv(3, 1000, true)}
			c.Final = 2
		})
		v("rebuy-wait-200", 3, func(c *Cfg) { c.RebuyWait = 200; c.RebuyMax = 2 })
		v("no-rebuys-addons", 3, func(c *Cfg) { c.RebuyMax = 0; c.AddonMax = 0 })
		v("table-min-3", 3, func(c *Cfg) { c.TableMin = 3; c.RebuyMax = 3 })
		v("final-last", 3, func(c *Cfg) { c.Final = 2 })
		v("big-table", 3, func(c *Cfg) { c.Seats = 9; c.RebuyMax = 3 })
		if m == MTT {
			v("reg-min-3", 3, func(c *Cfg) { c.RegMin = 3; c.Seats = 3 })
			v("min-1", 3, func(c *Cfg) { c.Min = 1; c.RebuyMax = 3 })
		}
		if m == CT {
			v("two-tournaments-worth", 3, func(c *Cfg) { c.Min = 3; c.Seats = 3; c.Rule = pc.CompetitionRule_ShortDeck })
		}
		r := func(name string, ch func(c *Cfg)) {
			f := famReg(m)
			f.name = name
			ch(&f.cfg)
			f = short(f, 0)
			f.quick, f.deep = 3, 5
			out = append(out, f)
		}
		r("disable-first", func(c *Cfg) { c.StartIn = 5; c.DisableIn = 3 })
		r("disable-with-start", func(c *Cfg) { c.StartIn = 3; c.DisableIn = 3 })
		r("disable-1", func(c *Cfg) { c.DisableIn = 1 })
		r("start-1", func(c *Cfg) { c.StartIn = 1 })
		r("closed-at-once", func(c *Cfg) { c.Final = -1 })
		r("one-short-level", func(c *Cfg) { c.Levels = []pc.BlindLevel{lv(1, 1, true)} })
	}
	return out
}
