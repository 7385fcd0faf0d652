id='settled-hands-keyed-by-number'
property='C11'
needs='two tables settle hands with the same number'
breaks='a hand of one table is not booked, because another table settled a hand with the same number'
edits=[('competition_engine_internal.go', '\tgameSettledRecordID := fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)', '\tgameSettledRecordID := fmt.Sprintf("%s.%d", ce.competition.ID, table.State.GameCount)')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 4\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.TableMaxSeatCount = 3\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c", "d", "e", "f")\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\tif !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 2 }) { t.Skip("no second table") }\n\ttime.Sleep(300 * time.Millisecond)\n\tfor _, id := range append([]string{}, k.order...) {\n\t\tc := k.copy(id)\n\t\tl := c.State.PlayerStates\n\t\tk.hand(id, map[string]int64{l[0].PlayerID: 1500, l[1].PlayerID: 500})\n\t\tif x := k.player(l[0].PlayerID); x.Chips != 1500 || x.TotalGameCounts != 1 { t.Fatalf("%s has %d chips after %d hands", x.PlayerID, x.Chips, x.TotalGameCounts) }\n\t}\n}\n'
