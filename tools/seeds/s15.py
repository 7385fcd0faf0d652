id='serial-per-second'
property='C22'
needs='two announcements within one second'
breaks='several announcements within one second carry the same serial number'
edits=[('event.go', '\tce.competition.UpdateAt = time.Now().Unix()\n\tce.competition.UpdateSerial++\n', '\tif now := time.Now().Unix(); now != ce.competition.UpdateAt {\n\t\tce.competition.UpdateAt = now\n\t\tce.competition.UpdateSerial++\n\t}\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\tlast, n := int64(0), 0\n\tbad := ""\n\tk.e.OnCompetitionUpdated(func(c *pc.Competition) {\n\t\tk.mu.Lock()\n\t\tif n > 0 && c.UpdateSerial <= last { bad = fmt.Sprintf("serial %d after %d", c.UpdateSerial, last) }\n\t\tlast = c.UpdateSerial\n\t\tn++\n\t\tk.mu.Unlock()\n\t})\n\tk.create(t, setting(pc.CompetitionMode_CT, 1, level(1, 600, true), level(2, 600, true)), "a")\n\tmust(t, k.e.PlayerRefund("a"))\n\ttime.Sleep(200 * time.Millisecond)\n\tif bad != "" { t.Fatal(bad) }\n\tif n < 3 { t.Fatal("not announced") }\n}\n'
