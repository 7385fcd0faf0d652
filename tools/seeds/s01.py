id="rebuy-second-window"; property="C10"
needs="a single-table player busts, re-buys at once and busts again before the first re-buy window's timer has fired"
breaks="the timer of the first window closes the second window early and the player loses the seat"
edits=[("competition_engine_internal.go","""				if time.Now().Unix() <= cp.ReBuyEndAt {
					continue
				}

""","")]
demo='''package pokercompetition_test
import ("testing"; "time"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")
var _ = time.Second
var _ = pt.UnsetValue
var _ = pc.UnsetValue

func TestDemo(t *testing.T) {
	k := newKit()
	s := setting(pc.CompetitionMode_CT, 0, level(1, 600, true))
	k.create(t, s, "a", "b", "c")
	if !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("no start") }
	k.hand("t1", map[string]int64{"a": 2000, "b": 0})
	time.Sleep(3 * time.Second)
	must(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "b", RedeemChips: 1000, Unit: 1}))
	time.Sleep(100 * time.Millisecond)
	k.hand("t1", map[string]int64{"a": 3000, "b": 0})
	end := k.player("b").ReBuyEndAt
	for time.Now().Unix() < end {
		if k.count("PlayersLeave t1 [b]") > 0 { t.Fatal("the seat was taken away before the window closed") }
		time.Sleep(50 * time.Millisecond)
	}
	if !wait(5*time.Second, func() bool { return k.count("PlayersLeave t1 [b]") > 0 }) { t.Fatal("the seat was kept") }
}
'''
