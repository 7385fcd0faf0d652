id='native-shared-clone'
property='C24'
needs='two updates of a table, the first one being kept by its receiver'
breaks='the native backend changes a table it has delivered before'
edits=[('native_table_manager_backend.go', '\tcallbacks.OnTableUpdated = func(t *pokertable.Table) {\n\t\tdata, err := json.Marshal(t)\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t\tvar cloneTable pokertable.Table\n\t\terr', '\tvar cloneTable pokertable.Table\n\tcallbacks.OnTableUpdated = func(t *pokertable.Table) {\n\t\tdata, err := json.Marshal(t)\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t\terr')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tb := pc.NewNativeTableManagerBackend(pt.NewManager())\n\tgot := make(chan *pt.Table, 100)\n\tb.OnTableUpdated(func(x *pt.Table) { got <- x })\n\to := pt.NewTableEngineOptions()\n\t_, err := b.CreateTable(o, pt.TableSetting{TableID: "t1", Meta: pt.TableMeta{CompetitionID: "c1", Rule: "default", Mode: "ct", MaxDuration: 60, TableMaxSeatCount: 9, TableMinPlayerCount: 2, MinChipUnit: 10, ActionTime: 10}})\n\tmust(t, err)\n\tmust(t, b.PlayerReserve("t1", pt.JoinPlayer{PlayerID: "a", RedeemChips: 100, Seat: 1}))\n\ttime.Sleep(300 * time.Millisecond)\n\tfirst := <-got\n\tn := first.UpdateSerial\n\tmust(t, b.PlayerReserve("t1", pt.JoinPlayer{PlayerID: "b", RedeemChips: 100, Seat: 2}))\n\ttime.Sleep(300 * time.Millisecond)\n\tif first.UpdateSerial != n { t.Fatal("a delivered table is changed later") }\n\tif len(got) == 0 { t.Fatal("not announced") }\n}\n'
