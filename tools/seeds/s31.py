id='scheduled-start-needs-players'
property='C33'
needs='the start time of a tournament comes before enough players have bought in; the rest buy in later'
breaks='the tournament never begins, although it has a start time that has passed and enough players'
edits=[('competition_engine.go', '\t\t\tif ce.competition.State.Status == CompetitionStateStatus_Registering {\n\t\t\t\tce.StartCompetition()\n', '\t\t\tif ce.competition.State.Status == CompetitionStateStatus_Registering && len(ce.competition.State.Players) >= ce.competition.Meta.MinPlayerCount {\n\t\t\t\tce.StartCompetition()\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 3\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\ts.StartAt = time.Now().Unix() + 1\n\tk.create(t, s, "a", "b")\n\ttime.Sleep(2500 * time.Millisecond)\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "c", RedeemChips: 1000, Unit: 1}))\n\tif !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 1 }) { t.Fatal("the tournament does not begin") }\n}\n'
