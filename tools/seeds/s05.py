id="participants-not-in"; property="C19"
needs="a table pauses while a player has reserved a seat but has not sat down yet"
breaks="the next hand is set up for a player who is not in the seat"
edits=[("competition_engine_internal.go","if p.Bankroll > 0 && p.IsIn {\n			aliveParticipants","if p.Bankroll > 0 {\n			aliveParticipants")]
demo='''package pokercompetition_test
import ("testing"; "time"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")
var _ = time.Second
var _ = pt.UnsetValue
var _ = pc.UnsetValue

func TestDemo(t *testing.T) {
	k := newKit()
	k.create(t, setting(pc.CompetitionMode_Cash, 0, level(1, 600, true)), "a", "b", "c")
	if !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("no start") }
	k.hand("t1", map[string]int64{"a": 1100, "b": 900})
	k.mu.Lock()
	k.tabs["t1"].State.PlayerStates[2].IsIn = false
	k.tabs["t1"].State.Status = pt.TableStateStatus_TablePausing
	k.mu.Unlock()
	k.emit("t1")
	time.Sleep(500 * time.Millisecond)
	if k.count("SetUpTableGame t1 #2 x2") != 1 { t.Fatal("expected a hand for two players:", k.calls) }
}
'''
