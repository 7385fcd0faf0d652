id='break-table-needs-all-players'
property='C18'
needs='a second table of a tournament opens during a break, for fewer players than the tournament needs to begin'
breaks='the new table never starts playing after the break'
edits=[('competition_engine_internal.go', '\t\t\t\tif len(participants) >= ce.competition.Meta.TableMinPlayerCount {\n\t\t\t\t\tif err := ce.tableManagerBackend.StartTableGame', '\t\t\t\tif len(participants) >= ce.competition.Meta.MinPlayerCount {\n\t\t\t\t\tif err := ce.tableManagerBackend.StartTableGame')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 4, level(1, 2, true), pc.BlindLevel{Level: -1, Duration: 3, AllowAddon: true}, level(2, 600, true), level(3, 600, true))\n\ts.Meta.MinPlayerCount = 3\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.TableMaxSeatCount = 3\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c")\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\tif !wait(5*time.Second, func() bool { return k.e.GetCompetition().State.BlindState.CurrentLevelIndex == 1 }) { t.Fatal("no break") }\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "d", RedeemChips: 1000, Unit: 1}))\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "e", RedeemChips: 1000, Unit: 1}))\n\tif !wait(2*time.Second, func() bool { return k.count("CreateTable") >= 2 }) { t.Fatal("no second table") }\n\tid := k.order[1]\n\tif !wait(7*time.Second, func() bool { return k.count("StartTableGame " + id) >= 1 }) { t.Fatalf("the second table is never started: %v", k.calls) }\n}\n'
