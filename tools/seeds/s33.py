id='decided-needs-one-player'
property='C29'
needs='a single table that needs three players to play has two left after buying in is over'
breaks='the tournament does not end although it cannot go on'
edits=[('competition_engine_internal.go', 'tableAlivePlayerCount < ce.competition.Meta.TableMinPlayerCount)', 'tableAlivePlayerCount <= 1)')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_CT, -1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 3\n\ts.Meta.TableMinPlayerCount = 3\n\tk.create(t, s, "a", "b", "c")\n\tif !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("not started") }\n\tk.hand("t1", map[string]int64{"a": 0, "b": 2000})\n\tif !wait(7*time.Second, func() bool { return k.e.GetCompetition().State.Status == pc.CompetitionStateStatus_End }) { t.Fatal("the tournament does not end") }\n}\n'
