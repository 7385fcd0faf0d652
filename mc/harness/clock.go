package main

import (
	"fmt"

	pb "github.com/weedbox/pokercompetition/blind"
)

// -------- C01: the blind clock on its own --------

// clockScen runs the clock over every small level structure.
func clockScen(name string, maxLevels int, durs []int, ops bool) *Scenario {
	return &Scenario{Name: name, Weight: 1, Run: func(x *Exec) {
		s := x.S
		n := 1 + x.Choose(maxLevels)
		brk := -1
		if n > 1 {
			brk = x.Choose(n) // 0: none
		}
		var lv []pb.BlindLevel
		var real []int
		for i := 0; i < n; i++ {
			ds := durs
			if n == 1 { // a level without duration stands alone
				ds = append(append([]int{}, durs...), 0)
			}
			l := pb.BlindLevel{Level: len(real) + 1, Duration: ds[x.Choose(len(ds))]}
			if i == brk && brk > 0 {
				l.Level = -1
			} else {
				real = append(real, i)
			}
			lv = append(lv, l)
		}
		first := real[x.Choose(len(real))]
		phase := []int64{0, 1, 500e6, 999999999}[x.Choose(4)]
		s.SetNow((s.Now()/1e9+1)*1e9 + phase)
		c := pb.NewBlind()
		type up struct {
			at  int64
			idx int
		}
		var ups []up
		var errs []error
		c.OnBlindStateUpdated(func(bs *pb.BlindState) { ups = append(ups, up{s.Now(), bs.Status.CurrentLevelIndex}) })
		c.OnErrorUpdated(func(bs *pb.BlindState, err error) { errs = append(errs, err) })
		run := func(fn func()) {
			s.Go("call", fn)
			s.Run()
		}
		if x.Choose(2) == 1 {
			var err error
			run(func() { _, err = c.Start() })
			if err == nil && len(s.Panics) == 0 {
				x.Fail("no-options", "a clock without levels is started")
			}
			if len(s.Panics) > 0 {
				return
			}
		}
		o := &pb.BlindOptions{ID: "b", InitialLevel: lv[first].Level, FinalBuyInLevelIndex: -1, Levels: lv}
		if k := x.Choose(2); k == 1 { // set later
			o.InitialLevel = 1
			c.ApplyOptions(o)
			if err := c.UpdateInitialLevel(lv[first].Level); err != nil {
				x.Fail("set", "the initial level cannot be set: %v", err)
			}
		} else {
			c.ApplyOptions(o)
		}
		if c.IsStarted() || c.GetState().Status.CurrentLevelIndex != -1 {
			x.Fail("started", "the clock runs before it is started (level %d)", c.GetState().Status.CurrentLevelIndex)
		}
		// time before the start does not count
		if x.Choose(2) == 1 {
			s.AdvanceTo(s.Now()+3e9, s.Run)
		}
		start := s.Now()
		var err error
		run(func() { _, err = c.Start() })
		if len(s.Panics) > 0 {
			return
		}
		if err != nil {
			x.Fail("start", "the clock does not start: %v", err)
		}
		x.Logf("  levels %v from %d, started %.3f s into the second", lv, first, float64(start%1e9)/1e9)
		// when each level ends
		ends := make([]int64, n)
		last := n - 1
		at := start / 1e9
		for i := first; i < n; i++ {
			if lv[i].Duration == -1 {
				last = i
				ends[i] = -1
				break
			}
			at += int64(lv[i].Duration)
			ends[i] = at
		}
		endAt, again := int64(-1), int64(-1)
		if ops {
			// ended, and started again, at any half second
			total := 1
			for _, l := range lv {
				total += 2 * max(l.Duration, 1)
			}
			if k := x.Choose(total + 1); k > 0 {
				endAt = start - phase%1e9 + int64(k-1)*5e8
			}
			if k := x.Choose(3); k > 0 {
				again = start + int64(k)*13e8
			}
		}
		var exp []up
		cur, over := first, false
		if lv[0].Duration == 0 {
			exp = append(exp, up{start, 0})
		}
		look := func() {
			st := c.GetState()
			if !c.IsStarted() || st.StartedAt != start/1e9 {
				x.Fail("started-at", "the clock, started at %d, says %d", start/1e9, st.StartedAt)
			}
			if st.Status.CurrentLevelIndex != cur {
				x.Fail("level", "%.3f s after the start the level is %d, expected %d", float64(s.Now()-start)/1e9, st.Status.CurrentLevelIndex, cur)
			}
			for i := first; i <= last; i++ {
				if st.Status.LevelEndAts[i] != ends[i] {
					x.Fail("endat", "level %d is announced to end at %d, expected %d", i, st.Status.LevelEndAts[i], ends[i])
				}
			}
			if fmt.Sprint(ups) != fmt.Sprint(exp) {
				x.Fail("announced", "%.3f s after the start the changes announced are %v, expected %v", float64(s.Now()-start)/1e9, ups, exp)
			}
			if len(errs) > 0 {
				x.Fail("error", "the clock announces an error: %v", errs[0])
			}
			x.State(fmt.Sprint(lv, first, s.Now()-start, phase, cur, over))
		}
		look()
		horizon := start + 12e9
		for t := start; t < horizon; {
			// the next instant at which something is to happen
			next := horizon
			for i := first; i <= last; i++ {
				if e := ends[i] * 1e9; e > t && e < next {
					next = e
				}
			}
			if endAt > t && endAt < next {
				next = endAt
			}
			if again > t && again < next {
				next = again
			}
			s.AdvanceTo(next-1, s.Run)
			if len(s.Panics) > 0 {
				return
			}
			look()
			if next == endAt && !over && x.Choose(2) == 0 { // before the level changes
				over = true
				run(c.End)
			}
			s.AdvanceTo(next, s.Run)
			for i := first; i < last; i++ {
				if ends[i]*1e9 == next && !over {
					cur = i + 1
					exp = append(exp, up{next, cur})
				}
			}
			if next == endAt && !over {
				over = true
				run(c.End)
			}
			if next == again {
				run(func() { _, err = c.Start() })
				if err == nil {
					x.Fail("second-start", "the clock is started a second time")
				}
			}
			if len(s.Panics) > 0 {
				return
			}
			look()
			t = next
		}
	}}
}
