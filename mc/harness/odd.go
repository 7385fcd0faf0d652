package main

// -------- C31: odd calls in every phase --------

func oddAlpha(w *World) []Op {
	id := "t0"
	if w.Cfg.Mode == MTT && len(w.B.order) > 0 {
		id = w.B.order[0]
	}
	o := settles(w, false)
	for _, s := range settles(w, false) {
		s.Kind = "settlew"
		o = append(o, s)
	}
	if t := w.B.tables[id]; t != nil && !t.playing() && !t.closed && !t.released {
		o = append(o, Op{Kind: "hand", T: id})
	}
	for _, p := range []int{0, 3, 77} {
		o = append(o, Op{Kind: "refund", P: p})
		for _, u := range []int{1, 0, -2} {
			o = append(o, Op{Kind: "buyin", P: p, Arg: 700, Unit: u})
		}
		for _, a := range []int64{0, -700, 1 << 62} {
			o = append(o, Op{Kind: "buyin", P: p, Arg: a, Unit: 1})
		}
		for _, t := range []string{id, "nowhere", " "} {
			o = append(o, Op{Kind: "cashout", P: p, T: t}, Op{Kind: "quit", P: p, T: t}, Op{Kind: "addon", P: p, T: t, Arg: 500, Unit: 1},
				Op{Kind: "rawres", P: p, T: t, Arg: 5}, Op{Kind: "rawready", P: p, T: t, Arg: 3})
			if p == 0 {
				o = append(o, Op{Kind: "autoend", T: t}, Op{Kind: "rawupd", T: t}, Op{Kind: "addon", P: p, T: t, Arg: -500, Unit: 1},
					Op{Kind: "addon", P: p, T: t, Arg: 0, Unit: 0})
			}
		}
	}
	for _, l := range []int64{-2, -1, 0, 1, 2, 99} {
		o = append(o, Op{Kind: "initlevel", Arg: l})
	}
	return append(o, Op{Kind: "start"}, Op{Kind: "close"}, Op{Kind: "close", Arg: 1}, Op{Kind: "sit"}, tick(), passMs(200), passMs(20000))
}

func oddFams() []family {
	var out []family
	for _, mode := range []pcMode{CT, Cash, MTT} {
		mode := mode
		mk := func(phase string, f family, after func(w *World)) {
			su := f.setup
			f.name = "odd-" + phase + "-" + string(mode)
			f.setup = func(w *World) {
				if su != nil {
					su(w)
				}
				if after != nil {
					after(w)
				}
			}
			f.alpha, f.gap, f.quick, f.deep, f.weight = oddAlpha, 0, 2, 3, 1
			out = append(out, f)
		}
		mk("new", famReg(mode), nil)
		mk("reg", famReg(mode), func(w *World) { w.seed(2, 1000) })
		mk("play", famPlay(mode), nil)
		mk("window", famPlay(mode), func(w *World) {
			w.Do(Op{Kind: "settlew", T: w.anyPlaying(), Arg: 3})
		})
		mk("stop", famStop(mode), func(w *World) { w.Pass(60e9) })
		mk("ended", famPlay(mode), func(w *World) { w.Do(Op{Kind: "close"}) })
		mk("break", famBreak(mode, 3), nil)
	}
	return out
}
