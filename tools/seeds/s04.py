id="moved-player-chips"; property="C20"
needs="a multi-table tournament in which a player who has won or lost chips is moved to another table that is in play"
breaks="the player sits down at the other table with the chips bought instead of the chips held"
edits=[("regulator.go","""			RedeemChips: chips,
			Seat:        UnsetValue,""","""			RedeemChips: ce.competition.State.Players[playerIdx].TotalRedeemChips,
			Seat:        UnsetValue,""")]
demo='''package pokercompetition_test
import ("testing"; "time"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")
var _ = time.Second
var _ = pt.UnsetValue
var _ = pc.UnsetValue

func TestDemo(t *testing.T) {
	k := newKit()
	s := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))
	s.Meta.MinPlayerCount = 4
	s.Meta.MaxPlayerCount = 100
	s.Meta.TableMaxSeatCount = 3
	s.Meta.RegulatorMinInitialPlayerCount = 2
	ps := []string{}
	for i := 0; i < 6; i++ { ps = append(ps, string(rune('a'+i))) }
	k.create(t, s, ps...)
	_, err := k.e.StartCompetition()
	must(t, err)
	if !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 2 }) { t.Skip("no second table") }
	time.Sleep(300 * time.Millisecond)
	// play: at each table one player takes 10 from every other player, half of the players bust at the first table
	check := func() {
		var sum int64
		for _, id := range k.order {
			for _, p := range k.copy(id).State.PlayerStates { sum += p.Bankroll }
		}
		if sum != 6000 { t.Fatalf("%d of 6000 chips are at the tables; %v", sum, k.calls) }
	}
	for r := 0; r < 6; r++ {
		for ti, id := range append([]string{}, k.order...) {
			c := k.copy(id)
			if c.State.Status == pt.TableStateStatus_TableClosed || len(c.State.PlayerStates) < 2 { continue }
			k.mu.Lock()
			tb := k.tabs[id]
			tb.State.NextBBOrderPlayerIDs = nil
			for _, p := range tb.State.PlayerStates { tb.State.NextBBOrderPlayerIDs = append(tb.State.NextBBOrderPlayerIDs, p.PlayerID) }
			k.mu.Unlock()
			m := map[string]int64{}
			var won int64
			for i, p := range c.State.PlayerStates {
				if i == 0 { continue }
				x := int64(10)
				if ti == 0 && r == 0 { x = p.Bankroll }
				m[p.PlayerID] = p.Bankroll - x
				won += x
			}
			m[c.State.PlayerStates[0].PlayerID] = c.State.PlayerStates[0].Bankroll + won
			k.hand(id, m)
			time.Sleep(100 * time.Millisecond)
			check()
		}
	}
}
'''
