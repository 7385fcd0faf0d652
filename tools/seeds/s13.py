id='counts-before-balancing'
property='C16'
needs='players are moved to the waiting room when a hand of a multi-table tournament is settled'
breaks='the reported counts do not show the players that a settlement moved to the waiting room'
edits=[('competition_engine_internal.go', '\t// 處理淘汰玩家\n\tknockoutPlayerIDs := ce.handleTableKnockoutPlayers(table)\n', '\t// 處理淘汰玩家\n\tknockoutPlayerIDs := ce.handleTableKnockoutPlayers(table)\n\tce.refreshPlayerStatusStatistics()\n'), ('competition_engine_internal.go', '\tce.handleBreaking(table.ID)\n\n\tce.refreshPlayerStatusStatistics()\n\tce.refreshPlayerCompetitionRanks()\n', '\tce.handleBreaking(table.ID)\n\n\tce.refreshPlayerCompetitionRanks()\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 4\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.TableMaxSeatCount = 3\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c", "d", "e", "f")\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\tif !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 2 }) { t.Skip("no second table") }\n\ttime.Sleep(300 * time.Millisecond)\n\tfor _, id := range k.order {\n\t\tfor _, p := range k.copy(id).State.PlayerStates { q := *p; k.res(id, &q) }\n\t}\n\tmoved := false\n\tfor r := 0; r < 4; r++ {\n\t\tfor ti, id := range append([]string{}, k.order...) {\n\t\t\tc := k.copy(id)\n\t\t\tif c.State.Status == pt.TableStateStatus_TableClosed || len(c.State.PlayerStates) < 2 { continue }\n\t\t\tk.mu.Lock()\n\t\t\ttb := k.tabs[id]\n\t\t\ttb.State.NextBBOrderPlayerIDs = nil\n\t\t\tfor _, p := range tb.State.PlayerStates { tb.State.NextBBOrderPlayerIDs = append(tb.State.NextBBOrderPlayerIDs, p.PlayerID) }\n\t\t\tk.mu.Unlock()\n\t\t\tl := c.State.PlayerStates\n\t\t\tm := map[string]int64{}\n\t\t\tif ti == 0 && len(l) > 1 { m[l[0].PlayerID] = l[0].Bankroll + l[1].Bankroll; m[l[1].PlayerID] = 0 }\n\t\t\tk.hand(id, m)\n\t\t\ttime.Sleep(600 * time.Millisecond)\n\t\t\tst := k.e.GetCompetition().State\n\t\t\tw, p := 0, 0\n\t\t\tfor _, x := range st.Players {\n\t\t\t\tif x.Status == pc.CompetitionPlayerStatus_WaitingTableBalancing { w++ }\n\t\t\t\tif x.Status == pc.CompetitionPlayerStatus_Playing { p++ }\n\t\t\t}\n\t\t\tmoved = moved || w > 0\n\t\t\tif w != st.Statistic.WaitingTableBalancingPlayerCount || p != st.Statistic.PlayingPlayerCount {\n\t\t\t\tt.Fatalf("%d wait and %d play, but reported are %+v", w, p, *st.Statistic)\n\t\t\t}\n\t\t}\n\t}\n\tfmt.Println("moved:", moved)\n}\n'
