package main

import "os"

// Several properties at once, to try the checks on changed code (development).

func init() {
	seq := []Mon{monLife, monBuyIn, monAddon, monRefund, monCashOut, monRebuy, monSettle, monStopBuyIn, monFinal, monRank, monStat, monTableBlind, monPause, monChips, monSeats, monTable, monSettledTold, monWaiting, monNoError, monSerial, monClock, monEndOnce}
	register(&Prop{ID: "ALL1", Scens: func(tier string) []*Scenario {
		return fams(tier, seq, append(everyFam(), famStats())...)
	}})
	cat := func(ids ...string) func(string) []*Scenario {
		return func(tier string) (o []*Scenario) {
			for _, id := range ids {
				for _, s := range findProp(id).Scens(tier) {
					if id == "C31" && len(o) > 0 && !oddName(s.Name) || s.Code != "" {
						continue
					}
					s.Name = id + "/" + s.Name
					o = append(o, s)
				}
			}
			return
		}
	}
	register(&Prop{ID: "ALL5", Scens: func(tier string) []*Scenario {
		return fams(tier, append(seq[:len(seq):len(seq)], monBreak, monBegin), sweepFams()...)
	}})
	register(&Prop{ID: "ALL2", Scens: cat("C02", "C18", "C21", "C29", "C30", "C31", "C33")})
	register(&Prop{ID: "ALL3", Scens: cat("C28", "C05", "C11", "C32")})
	register(&Prop{ID: "ALL4", Scens: cat("C25", "C26", "C27")})
}

func oddName(n string) bool {
	for _, f := range oddFams() {
		if f.name == n {
			return true
		}
	}
	return false
}

// stopFile ends the exploration at the first violation found by any worker.
var stopFile = os.Getenv("MC_FIRST")

func stopped() bool {
	if stopFile == "" {
		return false
	}
	_, err := os.Stat(stopFile)
	return err == nil
}
