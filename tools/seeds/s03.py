id="stop-buyin-keeps-seat"; property="C13"
needs="a single-table player is inside the re-buy window at the moment buying in closes"
breaks="the player is knocked out but never sent away from the table"
edits=[("competition_engine_internal.go","""					// 找出 CT 還在考慮 Re Buy 的玩家
					isCTReBuying := false
					if ce.competition.Meta.Mode == CompetitionMode_CT && (cp.IsReBuying && cp.ReBuyEndAt != UnsetValue) {
						isCTReBuying = true
					}

""",""),("competition_engine_internal.go","""					cp.CurrentSeat = UnsetValue
					ce.emitPlayerEvent("Stopped BuyIn Knockout Players", cp)
""","""
					// 找出 CT 還在考慮 Re Buy 的玩家
					isCTReBuying := false
					if ce.competition.Meta.Mode == CompetitionMode_CT && (cp.IsReBuying || cp.ReBuyEndAt != UnsetValue) {
						isCTReBuying = true
					}
					cp.CurrentSeat = UnsetValue
					ce.emitPlayerEvent("Stopped BuyIn Knockout Players", cp)
""")]
demo='''package pokercompetition_test
import ("testing"; "time"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")
var _ = time.Second
var _ = pt.UnsetValue
var _ = pc.UnsetValue

func TestDemo(t *testing.T) {
	k := newKit()
	s := setting(pc.CompetitionMode_CT, 0, level(1, 4, true), level(2, 600, true))
	s.Meta.ReBuySetting.WaitingTime = 20
	k.create(t, s, "a", "b", "c")
	if !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("no start") }
	k.hand("t1", map[string]int64{"a": 2000, "b": 0})
	if !wait(8*time.Second, func() bool { return k.player("b").Status == pc.CompetitionPlayerStatus_Knockout }) { t.Fatal("not knocked out") }
	time.Sleep(200 * time.Millisecond)
	if k.count("PlayersLeave t1 [b]") != 1 { t.Fatalf("b left the table %d times", k.count("PlayersLeave t1 [b]")) }
}
'''
