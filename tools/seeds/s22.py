id='reset-stops-at-the-first'
property='C23'
needs='the manager is reset while it has several competitions'
breaks='a reset closes only one of the competitions'
edits=[('manager.go', '\t\t\t_ = ce.CloseCompetition(CompetitionStateStatus_ForceEnd)\n\t\t}\n\t\treturn true', '\t\t\treturn ce.CloseCompetition(CompetitionStateStatus_ForceEnd) != nil\n\t\t}\n\t\treturn true')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\tm := pc.NewManager(k)\n\tcs := []*pc.Competition{}\n\tfor i := 0; i < 3; i++ {\n\t\ts := setting(pc.CompetitionMode_CT, 0, level(1, 600, true), level(2, 600, true))\n\t\ts.CompetitionID = fmt.Sprintf("c%d", i)\n\t\ts.TableSettings[0].TableID = fmt.Sprintf("t%d", i)\n\t\tc, err := m.CreateCompetition(s, pc.NewDefaultCompetitionEngineOptions())\n\t\tmust(t, err)\n\t\tcs = append(cs, c)\n\t}\n\tm.Reset()\n\tfor _, c := range cs {\n\t\tif c.State.Status != pc.CompetitionStateStatus_ForceEnd { t.Fatalf("%s is %s after the reset", c.ID, c.State.Status) }\n\t}\n}\n'
