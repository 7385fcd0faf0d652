id='rebuy-keeps-old-table'
property='C06'
needs='a player of a multi-table tournament busts, buys in again, and waits for a seat'
breaks='a player who bought in again is still listed at the old table'
edits=[('competition_engine.go', '\t\t\tcp.CurrentTableID = "" // re-buy 時要清空 CurrentTableID 等待重新配桌\n', '')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 4\n\ts.Meta.MaxPlayerCount = 100\n\ts.Meta.TableMaxSeatCount = 4\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c", "d")\n\t_, err := k.e.StartCompetition()\n\tmust(t, err)\n\tif !wait(5*time.Second, func() bool { return k.count("CreateTable") >= 1 }) { t.Fatal("no table") }\n\ttime.Sleep(300 * time.Millisecond)\n\tid := k.order[0]\n\tl := k.copy(id).State.PlayerStates\n\tfor _, p := range l { q := *p; k.res(id, &q) }\n\tk.hand(id, map[string]int64{l[0].PlayerID: 2000, l[1].PlayerID: 0})\n\ttime.Sleep(300 * time.Millisecond)\n\tmust(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: l[1].PlayerID, RedeemChips: 1000, Unit: 1}))\n\tx := k.player(l[1].PlayerID)\n\tif x.Status == pc.CompetitionPlayerStatus_WaitingTableBalancing && x.CurrentTableID != "" { t.Fatal("waiting for a table, and listed at one") }\n}\n'
