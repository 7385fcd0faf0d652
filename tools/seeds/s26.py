id='view-hides-at-play-only'
property='C25'
needs='a player who holds no cards in the hand looks at the table while it is played'
breaks="a player who sits the hand out sees everybody's cards"
edits=[('actor/player_runner.go', '\t\tgpIdx := table.GamePlayerIndex(pr.playerID)\n\t\tcloneTable.State.GameState.AsPlayer(gpIdx)', '\t\tif gpIdx := table.GamePlayerIndex(pr.playerID); gpIdx >= 0 {\n\t\t\tcloneTable.State.GameState.AsPlayer(gpIdx)\n\t\t}')]
pkg='actor'
reps=2
demo='package actor\nimport ("testing"; "time"; "fmt"; "github.com/weedbox/pokerface"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = fmt.Sprint\nvar _ pokerface.GameState\n\nfunc gstate(at int64, ev string, cur int, acts ...string) *pt.Table {\n\tg := &pokerface.GameState{GameID: "g1", UpdatedAt: at, Status: pokerface.Status{CurrentEvent: ev, MiniBet: 20, Round: "flop"}}\n\ttb := &pt.Table{ID: "t1", Meta: pt.TableMeta{ActionTime: 1}, State: &pt.TableState{Status: pt.TableStateStatus_TableGamePlaying, GameCount: 1, GameState: g, GamePlayerIndexes: []int{0, 1}}}\n\tfor i, p := range []string{"a", "b"} {\n\t\tps := &pokerface.PlayerState{Idx: i, InitialStackSize: 1000, StackSize: 1000, Bankroll: 1000, HoleCards: []string{"S" + p, "H" + p}}\n\t\tif i == cur { ps.AllowedActions = acts }\n\t\tg.Players = append(g.Players, ps)\n\t\ttb.State.PlayerStates = append(tb.State.PlayerStates, &pt.TablePlayerState{PlayerID: p, IsIn: true, Bankroll: 1000})\n\t}\n\treturn tb\n}\n\ntype felt struct { calls chan string; table *pt.Table; a Actor }\nfunc (f *felt) do(s string) error { f.calls <- s; return nil }\nfunc (f *felt) SetActor(a Actor) { f.a = a }\nfunc (f *felt) UpdateTableState(x *pt.Table) error { f.table = x; return f.a.UpdateTableState(x) }\nfunc (f *felt) GetGameState() *pokerface.GameState { return f.table.State.GameState }\nfunc (f *felt) GetTableState() *pt.Table { return f.table }\nfunc (f *felt) GetGamePlayerIndex(p string) int { return f.table.GamePlayerIndex(p) }\nfunc (f *felt) Pass(p string) error { return f.do("pass") }\nfunc (f *felt) Ready(p string) error { return f.do("ready") }\nfunc (f *felt) Pay(p string, c int64) error { return f.do(fmt.Sprint("pay ", c)) }\nfunc (f *felt) Check(p string) error { return f.do("check") }\nfunc (f *felt) Bet(p string, c int64) error { return f.do(fmt.Sprint("bet ", c)) }\nfunc (f *felt) Call(p string) error { return f.do("call") }\nfunc (f *felt) Fold(p string) error { return f.do("fold") }\nfunc (f *felt) Allin(p string) error { return f.do("allin") }\nfunc (f *felt) Raise(p string, c int64) error { return f.do(fmt.Sprint("raise ", c)) }\nfunc (f *felt) ShowCard(p string, c []string) error { return nil }\nfunc (f *felt) AutoMode(p string, on bool) error { return nil }\nfunc newFelt() *felt { return &felt{calls: make(chan string, 1000)} }\n\nfunc TestDemo(t *testing.T) {\n\tf := newFelt()\n\ta := NewActor()\n\tpr := NewPlayerRunner("c")\n\tpr.SetEventSubscribed(true)\n\tvar seen *pt.Table\n\tpr.OnTableStateUpdated(func(x *pt.Table) { seen = x })\n\ta.SetAdapter(f)\n\ta.SetRunner(pr)\n\tf.UpdateTableState(gstate(1, "RoundStarted", 0, "fold", "call", "raise"))\n\tif seen == nil { t.Fatal("not announced") }\n\tfor _, p := range seen.State.GameState.Players {\n\t\tif len(p.HoleCards) > 0 { t.Fatalf("player %d\'s cards are shown: %v", p.Idx, p.HoleCards) }\n\t}\n}\n'
