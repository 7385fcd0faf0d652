id='unplayed-tables-not-released'
property='C04'
needs='a competition that is closed while a table has not played a hand yet'
breaks='that table is never released'
edits=[('competition_engine.go', '\t\t_ = ce.tableManagerBackend.ReleaseTable(table.ID)\n', '\t\tif table.State.GameCount > 0 {\n\t\t\t_ = ce.tableManagerBackend.ReleaseTable(table.ID)\n\t\t}\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\tk.create(t, setting(pc.CompetitionMode_CT, 1, level(1, 600, true), level(2, 600, true)), "a")\n\tmust(t, k.e.CloseCompetition(pc.CompetitionStateStatus_ForceEnd))\n\tif !wait(3*time.Second, func() bool { return k.count("ReleaseTable t1") == 1 }) { t.Fatal("the table is not released") }\n}\n'
