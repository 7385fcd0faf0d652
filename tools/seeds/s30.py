id='refund-drops-the-queue'
property='C08'
needs='several players wait for a tournament to start and one who is not the last of them takes a refund'
breaks='the players behind the refunded one are dropped from the queue: they paid but are never seated'
edits=[('competition_engine.go', '\t\tif playerID == waitingPlayerID {\n\t\t\tcontinue\n\t\t}\n', '\t\tif playerID == waitingPlayerID {\n\t\t\tbreak\n\t\t}\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 4\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c", "d", "e")\n\tmust(t, k.e.PlayerRefund("c"))\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\twait(5*time.Second, func() bool { return k.count("CreateTable") >= 1 })\n\ttime.Sleep(300 * time.Millisecond)\n\tn := 0\n\tfor _, id := range k.order { n += len(k.copy(id).State.PlayerStates) }\n\tif n != 4 { t.Fatalf("%d of 4 players have a seat", n) }\n}\n'
