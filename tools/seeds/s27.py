id='addon-counts-once'
property='C07'
needs='an add-on of several units'
breaks='the add-on statistics count purchases and not units'
edits=[('competition_engine.go', 'ce.competition.State.Statistic.TotalAddonCount += joinPlayer.Unit', 'ce.competition.State.Statistic.TotalAddonCount++')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\tk.create(t, setting(pc.CompetitionMode_CT, 1, level(1, 600, true), level(2, 600, true)), "a", "b")\n\tif !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("not started") }\n\tmust(t, k.e.PlayerAddon("t1", pc.JoinPlayer{PlayerID: "a", RedeemChips: 2000, Unit: 2}))\n\tif n := k.e.GetCompetition().State.Statistic.TotalAddonCount; n != 2 { t.Fatalf("%d add-ons counted of 2", n) }\n}\n'
