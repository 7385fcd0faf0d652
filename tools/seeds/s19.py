id='failed-balancing-empties-seats'
property='C32'
needs='the table backend refuses to change the players of a table at a settlement'
breaks='players are taken to the waiting room although the table refused to let them go'
edits=[('competition_engine_internal.go', '\t\tif tablePlayerSeatMap, err := ce.tableManagerBackend.UpdateTablePlayers(table.ID, newJoinPlayers, leavePlayerIDs); err != nil {\n\t\t\tce.emitErrorEvent(fmt.Sprintf("[%s][%d] UpdateTablePlayers", table.ID, table.State.GameCount), "", err)\n\t\t} else {\n\t\t\tcurrentTablePlayerCount = len(tablePlayerSeatMap)\n', '\t\ttablePlayerSeatMap, err := ce.tableManagerBackend.UpdateTablePlayers(table.ID, newJoinPlayers, leavePlayerIDs)\n\t\tif err != nil {\n\t\t\tce.emitErrorEvent(fmt.Sprintf("[%s][%d] UpdateTablePlayers", table.ID, table.State.GameCount), "", err)\n\t\t}\n\t\tif err == nil || len(releasePlayerIDs) == 0 {\n\t\t\tcurrentTablePlayerCount = len(tablePlayerSeatMap)\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 4\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.TableMaxSeatCount = 4\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c", "d")\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\tif !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 1 }) { t.Fatal("no table") }\n\ttime.Sleep(300 * time.Millisecond)\n\tid := k.order[0]\n\tl := k.copy(id).State.PlayerStates\n\tfor _, p := range l { q := *p; k.res(id, &q) }\n\tk.fail = func(c string) error { if len(c) > 18 && c[:18] == "UpdateTablePlayers" { return fmt.Errorf("refused") }; return nil }\n\tk.hand(id, map[string]int64{l[0].PlayerID: 2000, l[1].PlayerID: 0})\n\ttime.Sleep(300 * time.Millisecond)\n\tif k.count("CloseTable") > 0 { t.Fatal("a table with players is closed") }\n\tif len(k.errs) == 0 { t.Fatal("the error is not announced") }\n}\n'
