id='rebuy-wait-order'
property='C15'
needs='two players bust at different times and wait for their re-buys'
breaks='of two players waiting for their re-buys, the one who busted first is ranked higher'
edits=[('competition_engine_internal.go', '\t\t\treturn reBuyWaitingPlayers[i].ReBuyWaitingAt > reBuyWaitingPlayers[j].ReBuyWaitingAt', '\t\t\treturn reBuyWaitingPlayers[i].ReBuyEndAt < reBuyWaitingPlayers[j].ReBuyEndAt')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_CT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.ReBuySetting.WaitingTime = 30\n\tk.create(t, s, "a")\n\tk.mu.Lock()\n\tk.mu.Unlock()\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "b", RedeemChips: 1000, Unit: 1}))\n\tif !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("not started") }\n\tfor _, p := range []string{"c", "d"} { must(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: p, RedeemChips: 1000, Unit: 1})); time.Sleep(100 * time.Millisecond) }\n\tk.hand("t1", map[string]int64{"a": 2000, "b": 0})\n\ttime.Sleep(1500 * time.Millisecond)\n\tk.hand("t1", map[string]int64{"a": 3000, "c": 0})\n\ttime.Sleep(700 * time.Millisecond)\n\tif b, c := k.player("b").CompetitionRank, k.player("c").CompetitionRank; b != 4 || c != 3 { t.Fatalf("b busted first and is ranked %d, c %d", b, c) }\n}\n'
