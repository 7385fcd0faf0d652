id='pause-after-close-stays'
property='C19'
needs='a table of a multi-table tournament that was paused for lack of players gets players from another table after buying in has closed'
breaks='the table never deals again'
edits=[('competition_engine_internal.go', '\tcase CompetitionMode_MTT:\n\t\tshouldReOpenGame = readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount\n', '\tcase CompetitionMode_MTT:\n\t\tshouldReOpenGame = ce.competition.State.Status == CompetitionStateStatus_DelayedBuyIn && readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_MTT, 0, level(1, 2, true), level(2, 600, true))\n\ts.Meta.MinPlayerCount = 3\n\ts.Meta.RegulatorMinInitialPlayerCount = 2\n\tk.create(t, s, "a", "b", "c")\n\tk.e.StartCompetition()\n\tif !wait(5*time.Second, func() bool { return len(k.order) == 1 && len(k.copy(k.order[0]).State.PlayerStates) == 3 }) { t.Fatal("no table") }\n\tid := k.order[0]\n\tif !wait(5*time.Second, func() bool { return k.e.GetCompetition().State.Status == pc.CompetitionStateStatus_StoppedBuyIn }) { t.Fatal("buying in is open") }\n\tn := k.count("SetUpTableGame " + id)\n\tk.status(id, pt.TableStateStatus_TablePausing)\n\tk.emit(id)\n\tif !wait(3*time.Second, func() bool { return k.count("SetUpTableGame "+id) > n }) { t.Fatal("the table deals no more") }\n}\n'
