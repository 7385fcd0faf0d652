package main

import (
	"strings"
	"time"

	pc "github.com/weedbox/pokercompetition"
)

type pcMode = pc.CompetitionMode

func std(id string, notes string, mon Mon, fs func() []family) {
	register(&Prop{ID: id, Notes: notes, Scens: func(tier string) []*Scenario { return fams(tier, []Mon{mon}, fs()...) }})
}

func pars(tier string, mons []Mon, after func(w *World, res []parRes), fs ...parFam) []*Scenario {
	var o []*Scenario
	for _, f := range fs {
		if after != nil {
			f.after = after
		}
		if f.wt == 0 {
			f.wt = 1
		}
		o = append(o, f.scen(tier, mons...))
	}
	return o
}

// light gives families a smaller share of the time.
func light(w int, fs ...family) []family {
	for i := range fs {
		fs[i].weight = w
	}
	return fs
}

func init() {
	register(&Prop{ID: "C28", Quick: 40 * time.Second, Scens: func(tier string) []*Scenario {
		return pars(tier, []Mon{monStat}, nil, playerParFams(tier == "thorough")...)
	}})
	register(&Prop{ID: "C04", Quick: 40 * time.Second, Scens: func(tier string) []*Scenario {
		return append(fams(tier, []Mon{monEndOnce}, everyFam()...), pars(tier, []Mon{monEndOnce}, afterEnd, endingFams()...)...)
	}})
	register(&Prop{ID: "C05", Quick: 40 * time.Second, Scens: func(tier string) []*Scenario {
		return append(pars(tier, []Mon{monStart}, afterStart, startFams()...), fams(tier, []Mon{monStart}, light(1, famReg(CT), famReg(Cash), famSched(CT), famPlay(CT), famPlay(Cash), famBreak(CT, 3))...)...)
	}})
	register(&Prop{ID: "C33", Quick: 30 * time.Second, Scens: func(tier string) []*Scenario {
		var ps []parFam
		for _, f := range startFams() {
			if f.cfg.Mode == MTT {
				ps = append(ps, f)
			}
		}
		fs := []family{famReg(MTT), famSched(MTT), famQueue(), famDisable(MTT), famDisableStart(MTT, 3), famPlay(MTT), famReg(CT), famSched(CT), famReg(Cash), famBreakTables()}
		return append(fams(tier, []Mon{monBegin, monSeats, monTable, monWaiting}, light(1, append(fs, tableFams()...)...)...), pars(tier, []Mon{monBegin}, afterStart, ps...)...)
	}})
	register(&Prop{ID: "C11", Quick: 40 * time.Second, Scens: func(tier string) []*Scenario {
		return append(fams(tier, []Mon{monOnce}, everyFam()...), pars(tier, []Mon{monOnce}, nil, settleFams()...)...)
	}})
	std("C03", "", monLife, everyFam)
	std("C06", "", monBuyIn, everyFam)
	std("C07", "", monAddon, everyFam)
	register(&Prop{ID: "C08", Scens: func(tier string) []*Scenario {
		return fams(tier, []Mon{monRefund, monSeats, monTable}, everyFam()...)
	}})
	std("C09", "", monCashOut, everyFam)
	std("C10", "", monRebuy, everyFam)
	std("C12", "", monSettle, func() []family { return append(everyFam(), famStats()) })
	std("C13", "", monStopBuyIn, everyFam)
	std("C14", "", monFinal, everyFam)
	std("C15", "", monRank, everyFam)
	std("C16", "", monStat, func() []family {
		fs := everyFam()
		for _, f := range faultFams() {
			if strings.Contains(f.name, "two-") || strings.Contains(f.name, "three-") {
				fs = append(fs, f)
			}
		}
		return fs
	})
	std("C17", "", monTableBlind, everyFam)
	std("C19", "", monPause, everyFam)
	register(&Prop{ID: "C20", Scens: func(tier string) []*Scenario {
		return fams(tier, []Mon{monChips, monSeats, monTable}, everyFam()...)
	}})
	std("C22", "", monSerial, everyFam)
	register(&Prop{ID: "C01", Scens: func(tier string) []*Scenario {
		n, m := 4, 2
		if tier == "thorough" {
			n, m = 5, 3
		}
		return append(fams(tier, []Mon{monClock}, everyFam()...),
			clockScen("clock", n, []int{1, 2, 3, -1}, false), clockScen("clock-ended", m, []int{1, 3, -1}, true))
	}})
}

func init() {
	register(&Prop{ID: "C02", Scens: func(tier string) []*Scenario {
		deep := tier == "thorough"
		return []*Scenario{createScen(CT, deep), createScen(Cash, deep), createScen(MTT, deep)}
	}})
	register(&Prop{ID: "C18", Scens: func(tier string) []*Scenario {
		return fams(tier, []Mon{monBreak, monWaiting, monBegin}, famBreak(CT, 3), famBreak(Cash, 3), famBreak(MTT, 3), famBreak(MTT, 12), famBreakTables(), famThree(CT), famThree(Cash), famThree(MTT), famBreakAdj(CT), famBreakAdj(Cash), famBreakAdj(MTT))
	}})
	std("C21", "", monAdvance, func() []family { return append(advFams(), famPlay(MTT), famStop(MTT)) })
	std("C29", "", monDecided, func() []family {
		return append([]family{famEnd("end-open", -2, 3), famEnd("end-stop", 0, 3), famEnd("end-two", 0, 2), famEnd("end-closed", -1, 3)}, append([]family{famPlay(CT), famLate(CT), famStop(CT), famStop(MTT), famVar("closed-mtt", MTT, 3, func(c *Cfg) { c.Final = -1 }), famPlay(MTT), famLimitCash(), famPlay(Cash), famThree(CT), famThree(MTT)}, tableFams()...)...)
	})
	std("C30", "", monDisable, func() []family {
		return []family{famDisable(CT), famDisable(MTT), famDisable(Cash), famDisableStart(CT, 3), famDisableStart(MTT, 3), famPlay(CT), famPlay(MTT), famPlay(Cash)}
	})
	register(&Prop{ID: "C31", Scens: func(tier string) []*Scenario {
		return append(fams(tier, []Mon{monNoError}, everyFam()...), fams(tier, nil, oddFams()...)...)
	}})
}
