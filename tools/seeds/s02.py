id="cashout-two-leavers"; property="C09"
needs="two players of a cash game ask to leave during the same hand"
breaks="the player list is compacted while the leavers are being paid, so the second leaver's payout goes by a stale index"
edits=[("competition_engine_internal.go","""	// Cash Out
	for _, leavePlayerID := range leavePlayerIDs {
		if playerIdx, exist := leavePlayerIndexes[leavePlayerID]; exist {
			ce.onCompetitionPlayerCashOut(ce.competition.ID, ce.competition.State.Players[playerIdx])
		}
	}

	// keep players that are cashing out
	newPlayers := make([]*CompetitionPlayer, 0)
	for _, cp := range ce.competition.State.Players {
		if _, exist := leavePlayerIndexes[cp.PlayerID]; !exist {
			newPlayers = append(newPlayers, cp)
		}
	}
	ce.competition.State.Players = newPlayers
""","""	// Cash Out
	for _, leavePlayerID := range leavePlayerIDs {
		playerIdx, exist := leavePlayerIndexes[leavePlayerID]
		if !exist || playerIdx >= len(ce.competition.State.Players) {
			continue
		}
		ce.onCompetitionPlayerCashOut(ce.competition.ID, ce.competition.State.Players[playerIdx])

		// keep players that are not cashing out
		newPlayers := make([]*CompetitionPlayer, 0)
		for _, cp := range ce.competition.State.Players {
			if cp.PlayerID != leavePlayerID {
				newPlayers = append(newPlayers, cp)
			}
		}
		ce.competition.State.Players = newPlayers
	}
""")]
demo='''package pokercompetition_test
import ("testing"; "time"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")
var _ = time.Second
var _ = pt.UnsetValue
var _ = pc.UnsetValue

func TestDemo(t *testing.T) {
	k := newKit()
	k.create(t, setting(pc.CompetitionMode_Cash, 0, level(1, 600, true)), "a", "b", "c", "d")
	if !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("no start") }
	k.begin("t1")
	must(t, k.e.PlayerCashOut("t1", "a"))
	must(t, k.e.PlayerCashOut("t1", "b"))
	k.settle("t1", map[string]int64{"a": 1500, "b": 700, "c": 800}, nil)
	time.Sleep(300 * time.Millisecond)
	got := map[string]bool{}
	for _, c := range k.cashed { got[c] = true }
	if len(k.cashed) != 2 || !got["a 1500"] || !got["b 700"] { t.Fatalf("paid %v", k.cashed) }
	if k.player("a") != nil || k.player("b") != nil { t.Fatal("a leaver is still listed") }
}
'''
