id='second-break-never-resumes'
property='C18'
needs='the blind structure has two breaks and the table goes through both of them'
breaks='a table does not go on after the second break'
edits=[('competition_engine_internal.go', '\tif _, exist := ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex]; !exist {\n\t\tce', '\tif len(ce.breakingPauseResumeStates[tableID]) == 0 {\n\t\tce')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\tbr := pc.BlindLevel{Level: -1, Duration: 1}\n\tk.create(t, setting(pc.CompetitionMode_CT, 4, level(1, 2, true), br, level(2, 2, true), br, level(3, 600, true)), "a", "b")\n\tif !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("not started") }\n\tfor g := 1; g <= 2; g++ {\n\t\tk.hand("t1", nil)\n\t\tk.status("t1", pt.TableStateStatus_TablePausing)\n\t\tn := k.count(fmt.Sprintf("SetUpTableGame t1 #%d", g+1))\n\t\tidx := g*2 - 1\n\t\tif !wait(6*time.Second, func() bool { return k.e.GetCompetition().State.BlindState.CurrentLevelIndex == idx }) { t.Fatal("no break") }\n\t\tk.emit("t1")\n\t\tif !wait(6*time.Second, func() bool { return k.count(fmt.Sprintf("SetUpTableGame t1 #%d", g+1)) > n }) { t.Fatalf("game %d is never set up: %v", g+1, k.calls) }\n\t}\n}\n'
