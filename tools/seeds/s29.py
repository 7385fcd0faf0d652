id='only-first-table-validated'
property='C02'
needs='a competition with two tables, of which the second has too many players'
breaks='a competition with too many players at its second table is created'
edits=[('competition_engine.go', '\tfor _, tableSetting := range competitionSetting.TableSettings {\n\t\tif len(tableSetting.JoinPlayers) > competitionSetting.Meta.TableMaxSeatCount {\n\t\t\treturn nil, ErrCompetitionInvalidCreateSetting\n\t\t}\n\t}\n', '\tif tss := competitionSetting.TableSettings; len(tss) > 0 && len(tss[0].JoinPlayers) > competitionSetting.Meta.TableMaxSeatCount {\n\t\treturn nil, ErrCompetitionInvalidCreateSetting\n\t}\n')]
pkg=''
reps=2
demo='package pokercompetition_test\nimport ("testing"; "time"; "fmt"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")\nvar _ = time.Second\nvar _ = pt.UnsetValue\nvar _ = pc.UnsetValue\nvar _ = fmt.Sprint\n\nfunc TestDemo(t *testing.T) {\n\tk := newKit()\n\ts := setting(pc.CompetitionMode_CT, 1, level(1, 600, true), level(2, 600, true))\n\ts.Meta.TableMaxSeatCount = 2\n\tjs := []pt.JoinPlayer{}\n\tfor i := 0; i < 3; i++ { js = append(js, pt.JoinPlayer{PlayerID: fmt.Sprint(i), RedeemChips: 100, Seat: -1}) }\n\ts.TableSettings = append(s.TableSettings, pc.TableSetting{TableID: "t2", JoinPlayers: js})\n\tif _, err := k.e.CreateCompetition(s); err == nil { t.Fatal("created") }\n}\n'
