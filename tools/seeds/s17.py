id='knockout-rank-skips-waiting'
property='C14'
needs='a player busts for good while others are in the waiting room between tables'
breaks='the announced final rank of a knocked-out player does not count the players in the waiting room'
edits=[('competition_engine_internal.go', '\t\trank := ce.competition.PlayingPlayerCount() + (len(knockoutPlayerRankings) - idx)\n\t\tce.emitCompetitionStateFinalPlayerRankEvent(knockoutPlayerID, rank)\n\t}\n\n\treturn knockoutPlayerIDs', '\t\trank := ce.competition.GetPlayerCountByStatus(CompetitionPlayerStatus_Playing) + (len(knockoutPlayerRankings) - idx)\n\t\tce.emitCompetitionStateFinalPlayerRankEvent(knockoutPlayerID, rank)\n\t}\n\n\treturn knockoutPlayerIDs')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 0, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 4\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.TableMaxSeatCount = 4\n\ts.Meta.ReBuySetting.MaxTime = 0\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c", "d")\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\tif !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 1 }) { t.Fatal("no table") }\n\ttime.Sleep(300 * time.Millisecond)\n\tid := k.order[0]\n\tl := k.copy(id).State.PlayerStates\n\tfor _, p := range l { q := *p; k.res(id, &q) }\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "e", RedeemChips: 1000, Unit: 1}))\n\ttime.Sleep(300 * time.Millisecond)\n\tif k.player("e").Status != pc.CompetitionPlayerStatus_WaitingTableBalancing { t.Skip("e is seated") }\n\tk.hand(id, map[string]int64{l[0].PlayerID: 2000, l[1].PlayerID: 0})\n\ttime.Sleep(300 * time.Millisecond)\n\tif r := k.ranks[l[1].PlayerID]; len(r) != 1 || r[0] != 5 { t.Fatalf("rank %v of the first of 5 players to go", r) }\n}\n'
