id='disable-counts-units'
property='C30'
needs='a buy-in of several units'
breaks='a competition that too few players joined is not ended at its disable time, when they bought several units'
edits=[('competition_engine.go', '\t\t\tif len(ce.competition.State.Players) < ce.competition.Meta.MinPlayerCount {\n\t\t\t\tce.CloseCompetition(CompetitionStateStatus_AutoEnd)', '\t\t\tif len(ce.competition.State.Players) < ce.competition.Meta.MinPlayerCount && ce.competition.State.Statistic.TotalBuyInCount < ce.competition.Meta.MinPlayerCount {\n\t\t\t\tce.CloseCompetition(CompetitionStateStatus_AutoEnd)')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_CT, 0, level(1, 600, true), level(2, 600, true))\n\ts.DisableAt = time.Now().Unix() + 2\n\tk.create(t, s)\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "a", RedeemChips: 2000, Unit: 2}))\n\tif !wait(6*time.Second, func() bool { return k.e.GetCompetition().State.Status == pc.CompetitionStateStatus_AutoEnd }) { t.Fatal("never ended") }\n}\n'
