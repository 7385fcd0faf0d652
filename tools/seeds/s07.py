id="walk-after-action"; property="C12"
needs="a hand in which everybody folds before the flop to a big blind who has acted"
breaks="the big blind's win is counted as a walk although it is none"
edits=[("competition_engine_internal.go"," && tablePlayer.GameStatistics.ActionTimes == 0 &&"," &&")]
demo='''package pokercompetition_test
import ("testing"; "time"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")
var _ = time.Second
var _ = pt.UnsetValue
var _ = pc.UnsetValue

func TestDemo(t *testing.T) {
	k := newKit()
	k.create(t, setting(pc.CompetitionMode_CT, 0, level(1, 600, true)), "a", "b")
	if !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("no start") }
	play := func(acts int) {
		k.begin("t1")
		k.mu.Lock()
		k.tabs["t1"].State.CurrentBBSeat = 0
		k.mu.Unlock()
		k.settle("t1", map[string]int64{"a": k.player("a").Chips + 20, "b": k.player("b").Chips - 20}, func(p *pt.TablePlayerState) {
			if p.PlayerID == "a" { p.GameStatistics.ActionTimes = acts } else { p.GameStatistics.IsFold = true; p.GameStatistics.FoldRound = pt.GameRound_Preflop }
		})
		time.Sleep(200 * time.Millisecond)
	}
	play(0)
	if n := k.player("a").TotalWalkTimes; n != 1 { t.Fatalf("walks %d, want 1", n) }
	play(1)
	if n := k.player("a").TotalWalkTimes; n != 1 { t.Fatalf("walks %d, want 1", n) }
}
'''
