id='auto-end-is-no-end'
property='C03'
needs='a tournament that ends by itself at its disable time for lack of players, and is started by hand afterwards'
breaks='the ended tournament is started'
edits=[('competition_engine_internal.go', '\t\tCompetitionStateStatus_AutoEnd,\n', '')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 3\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\ts.DisableAt = time.Now().Add(2 * time.Second).Unix()\n\tk.create(t, s, "a", "b")\n\tended := func() bool { return k.e.GetCompetition().State.Status == pc.CompetitionStateStatus_AutoEnd }\n\tif !wait(6*time.Second, ended) { t.Fatal("not ended") }\n\ttime.Sleep(300 * time.Millisecond)\n\tif _, err := k.e.StartCompetition(); err == nil { t.Fatal("started after the end") }\n\ttime.Sleep(300 * time.Millisecond)\n\tif !ended() { t.Fatalf("status %s after the end", k.e.GetCompetition().State.Status) }\n}\n'
