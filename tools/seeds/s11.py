id='advance-needs-closed-tables'
property='C21'
needs='a table is merged away between the end of the buy-in and the advancement'
breaks='the tournament never stops, because it waits for a table that was closed'
edits=[('competition_engine_internal.go', '\t\tce.competition.State.AdvanceState.TotalTables = len(ce.competition.State.Tables)\n\t\tshouldAdvancePauseTableGame := false', '\t\tshouldAdvancePauseTableGame := false')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 0, level(1, 4, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 4\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.TableMaxSeatCount = 3\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\ts.Meta.ReBuySetting.MaxTime = 0\n\tk.e.OnAdvancePlayerCountUpdated(func(string, int) int { return 3 })\n\tps := []string{}\n\tfor i := 0; i < 6; i++ { ps = append(ps, string(rune(\'a\'+i))) }\n\tk.create(t, s, ps...)\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\tif !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 2 }) { t.Skip("no second table") }\n\tif !wait(8*time.Second, func() bool { return k.e.GetCompetition().State.Status == pc.CompetitionStateStatus_StoppedBuyIn }) { t.Fatal("buy-in not stopped") }\n\tplay := func(id string) {\n\t\tc := k.copy(id)\n\t\tif c.State.Status == pt.TableStateStatus_TableClosed || len(c.State.PlayerStates) < 2 { return }\n\t\tk.mu.Lock()\n\t\ttb := k.tabs[id]\n\t\ttb.State.NextBBOrderPlayerIDs = nil\n\t\tfor _, p := range tb.State.PlayerStates { tb.State.NextBBOrderPlayerIDs = append(tb.State.NextBBOrderPlayerIDs, p.PlayerID) }\n\t\tk.mu.Unlock()\n\t\tl := c.State.PlayerStates\n\t\tm := map[string]int64{l[0].PlayerID: l[0].Bankroll + l[1].Bankroll, l[1].PlayerID: 0}\n\t\tk.hand(id, m)\n\t\ttime.Sleep(200 * time.Millisecond)\n\t}\n\tfor r := 0; r < 6 && k.noted("Settled") == 0; r++ {\n\t\tfor _, id := range append([]string{}, k.order...) { play(id); wait(4*time.Second, func() bool { return k.count("PauseTable") == 0 || k.noted("Settled") > 0 }) }\n\t}\n\tif !wait(5*time.Second, func() bool { return k.noted("Settled") > 0 }) { t.Fatalf("never ends: %+v %v", *k.e.GetCompetition().State.AdvanceState, k.calls) }\n}\n'
