id='refund-stays-in-the-queue'
property='C08'
needs='a player refunds a tournament that has not started, and buys in again before the start'
breaks='a player who refunds and buys in again is given to the table balancer twice'
edits=[('competition_engine.go', '\t\tif playerID == waitingPlayerID {\n\t\t\tcontinue\n\t\t}\n\t\twaitingPlayers = append(waitingPlayers, waitingPlayerID)\n\t}\n\tce.waitingPlayers = waitingPlayers', '\t\tif playerID == waitingPlayerID && ce.isStarted {\n\t\t\tcontinue\n\t\t}\n\t\twaitingPlayers = append(waitingPlayers, waitingPlayerID)\n\t}\n\tce.waitingPlayers = waitingPlayers')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 4\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c", "d")\n\tmust(t, k.e.PlayerRefund("b"))\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "b", RedeemChips: 1000, Unit: 1}))\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\tif !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 1 }) { t.Fatal("no table") }\n\ttime.Sleep(300 * time.Millisecond)\n\tvar sum int64\n\tfor _, id := range k.order {\n\t\tfor _, p := range k.copy(id).State.PlayerStates { sum += p.Bankroll }\n\t}\n\tif sum != 4000 { t.Fatalf("%d of 4000 chips are at the tables", sum) }\n}\n'
