id="stop-buyin-rank-order"; property="C13"
needs="buying in closes while two players wait to re-buy, of whom the earlier joiner busted first"
breaks="the two are ranked by when they busted instead of by when they joined"
edits=[("rank.go","		return sortedKnockoutPlayers[i].JoinAt > sortedKnockoutPlayers[j].JoinAt\n","		return sortedKnockoutPlayers[i].ReBuyWaitingAt < sortedKnockoutPlayers[j].ReBuyWaitingAt\n")]
demo='''package pokercompetition_test
import ("testing"; "time"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")
var _ = time.Second
var _ = pt.UnsetValue
var _ = pc.UnsetValue

func TestDemo(t *testing.T) {
	k := newKit()
	s := setting(pc.CompetitionMode_CT, 0, level(1, 8, true), level(2, 600, true))
	s.Meta.ReBuySetting.WaitingTime = 20
	s.Meta.MinPlayerCount = 4
	k.create(t, s, "a")
	for _, p := range []string{"b", "c", "d"} {
		time.Sleep(1050 * time.Millisecond)
		must(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: p, RedeemChips: 1000, Unit: 1}))
	}
	if !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("no start") }
	k.hand("t1", map[string]int64{"a": 0, "d": 2000})
	time.Sleep(1100 * time.Millisecond)
	k.hand("t1", map[string]int64{"b": 0, "d": 3000})
	if !wait(12*time.Second, func() bool { return k.player("b").Status == pc.CompetitionPlayerStatus_Knockout && len(k.ranks["b"]) > 0 && len(k.ranks["a"]) > 0 }) { t.Fatal("not knocked out") }
	if k.ranks["a"][0] != 3 || k.ranks["b"][0] != 4 { t.Fatalf("ranks %v", k.ranks) }
}
'''
