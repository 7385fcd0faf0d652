id='paused-table-old-blinds'
property='C17'
needs='a table is paused for lack of players when the blind level changes'
breaks='a table that was paused at the level change plays on with the old blinds'
edits=[('competition_engine_internal.go', '\t\tfor _, table := range ce.competition.State.Tables {\n\t\t\tce.updateTableBlind(table.ID)\n\t\t\tce.handleBreaking(table.ID)\n\t\t}\n', '\t\tfor _, table := range ce.competition.State.Tables {\n\t\t\tif table.State.Status != pokertable.TableStateStatus_TablePausing || ce.competition.IsBreaking() {\n\t\t\t\tce.updateTableBlind(table.ID)\n\t\t\t}\n\t\t\tce.handleBreaking(table.ID)\n\t\t}\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\tk.create(t, setting(pc.CompetitionMode_CT, 1, level(1, 3, true), level(2, 600, true)), "a", "b")\n\tif !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("not started") }\n\tk.hand("t1", map[string]int64{"a": 2000, "b": 0})\n\tk.status("t1", pt.TableStateStatus_TablePausing)\n\tk.emit("t1")\n\tif !wait(6*time.Second, func() bool { return k.e.GetCompetition().State.BlindState.CurrentLevelIndex == 1 }) { t.Fatal("no level change") }\n\ttime.Sleep(300 * time.Millisecond)\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "b", RedeemChips: 1000, Unit: 1}))\n\tif !wait(3*time.Second, func() bool { return k.count("SetUpTableGame t1 #2") > 0 }) { t.Fatal("no next game") }\n\tif l := k.copy("t1").State.BlindState.Level; l != 2 { t.Fatalf("the table plays level %d", l) }\n}\n'
