id='initial-level-counts-breaks'
property='C01'
needs='the blind structure has a break before the initial level'
breaks='the clock starts at the wrong entry of the structure when there is a break before the initial level'
edits=[('blind/blind.go', '\tfor idx, bl := range b.bs.Meta.Levels {\n\t\tif bl.Level == b.bs.Meta.InitialLevel {\n\t\t\tb.bs.Status.CurrentLevelIndex = idx\n\t\t}\n\t}\n', '\tfor _, bl := range b.bs.Meta.Levels {\n\t\tif bl.Level == b.bs.Meta.InitialLevel {\n\t\t\tb.bs.Status.CurrentLevelIndex = bl.Level - 1\n\t\t}\n\t}\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_CT, 3, level(1, 600, true), pc.BlindLevel{Level: -1, Duration: 60}, level(2, 600, true), level(3, 600, true))\n\ts.Meta.Blind.InitialLevel = 2\n\tk.create(t, s, "a", "b")\n\tif !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("not started") }\n\tif i := k.e.GetCompetition().State.BlindState.CurrentLevelIndex; i != 2 { t.Fatalf("starts at index %d", i) }\n}\n'
