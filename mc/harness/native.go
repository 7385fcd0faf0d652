package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	pc "github.com/weedbox/pokercompetition"
	pt "github.com/weedbox/pokertable"
)

// -------- C24: the built-in table backend --------
//
// A recording table manager stands in for the library's. Every request of the
// backend is made with every result, and every notification of every table is
// raised; what the manager was asked and what the handlers got must be exactly
// what went in.

type nativeCall struct {
	Name string
	Args []any
}

// recMgr records requests and answers with prepared results.
type recMgr struct {
	pt.Manager // requests the backend does not make: nil, a panic is a violation
	calls      []nativeCall
	table      *pt.Table
	seats      map[string]int
	err        error
	cbs        []*pt.TableEngineCallbacks
}

func (m *recMgr) rec(name string, args ...any) error {
	m.calls = append(m.calls, nativeCall{name, args})
	return m.err
}
func (m *recMgr) CreateTable(o *pt.TableEngineOptions, c *pt.TableEngineCallbacks, s pt.TableSetting) (*pt.Table, error) {
	m.cbs = append(m.cbs, c)
	err := m.rec("CreateTable", o, s)
	return m.table, err
}
func (m *recMgr) PauseTable(id string) error     { return m.rec("PauseTable", id) }
func (m *recMgr) CloseTable(id string) error     { return m.rec("CloseTable", id) }
func (m *recMgr) StartTableGame(id string) error { return m.rec("StartTableGame", id) }
func (m *recMgr) SetUpTableGame(id string, n int, p map[string]int) error {
	return m.rec("SetUpTableGame", id, n, p)
}
func (m *recMgr) UpdateBlind(id string, l int, a, d, s, b int64) error {
	return m.rec("UpdateBlind", id, l, a, d, s, b)
}
func (m *recMgr) UpdateTablePlayers(id string, j []pt.JoinPlayer, l []string) (map[string]int, error) {
	err := m.rec("UpdateTablePlayers", id, j, l)
	return m.seats, err
}
func (m *recMgr) PlayerReserve(id string, j pt.JoinPlayer) error {
	return m.rec("PlayerReserve", id, j)
}
func (m *recMgr) PlayerJoin(id, p string) error { return m.rec("PlayerJoin", id, p) }
func (m *recMgr) PlayerRedeemChips(id string, j pt.JoinPlayer) error {
	return m.rec("PlayerRedeemChips", id, j)
}
func (m *recMgr) PlayersLeave(id string, p []string) error { return m.rec("PlayersLeave", id, p) }
func (m *recMgr) ReleaseTable(id string) error             { return m.rec("ReleaseTable", id) }

// fill gives every field a value of its own.
func fill(v reflect.Value, n *int64, depth int) {
	*n++
	switch v.Kind() {
	case reflect.Ptr:
		if depth > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem(), n, depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i), n, depth)
			}
		}
	case reflect.Slice:
		if depth > 0 {
			v.Set(reflect.MakeSlice(v.Type(), 2, 2))
			for i := 0; i < 2; i++ {
				fill(v.Index(i), n, depth-1)
			}
		}
	case reflect.Map:
		if depth > 0 {
			v.Set(reflect.MakeMap(v.Type()))
			for i := 0; i < 2; i++ {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				fill(k, n, depth-1)
				fill(e, n, depth-1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", *n))
	case reflect.Bool:
		v.SetBool(*n%2 == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(*n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(*n))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(*n) / 2)
	}
}

func filled(v any, n int64) { fill(reflect.ValueOf(v).Elem(), &n, 7) }

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

// nativeOp is one request and what the manager must be asked.
type nativeOp struct {
	name string
	args []any
	do   func(b pc.TableManagerBackend, args []any) []any
}

func nativeOps(v int64) []nativeOp {
	var set pt.TableSetting
	var opt pt.TableEngineOptions
	var j, j2 pt.JoinPlayer
	filled(&set, v)
	filled(&opt, v+50)
	filled(&j, v+60)
	filled(&j2, v+70)
	id := fmt.Sprintf("table-%d", v)
	var joins []pt.JoinPlayer
	var leaves []string
	var parts map[string]int
	switch v % 3 {
	case 0:
		joins, leaves, parts = []pt.JoinPlayer{j, j2}, []string{"b", "a"}, map[string]int{"a": 1, "b": 0}
	case 1:
		joins, leaves, parts = []pt.JoinPlayer{j}, []string{}, map[string]int{}
	}
	none := func(e error) []any { return []any{e} }
	return []nativeOp{
		{"CreateTable", []any{&opt, set}, func(b pc.TableManagerBackend, a []any) []any {
			t, e := b.CreateTable(a[0].(*pt.TableEngineOptions), a[1].(pt.TableSetting))
			return []any{t, e}
		}},
		{"PauseTable", []any{id}, func(b pc.TableManagerBackend, a []any) []any { return none(b.PauseTable(a[0].(string))) }},
		{"CloseTable", []any{id}, func(b pc.TableManagerBackend, a []any) []any { return none(b.CloseTable(a[0].(string))) }},
		{"StartTableGame", []any{id}, func(b pc.TableManagerBackend, a []any) []any { return none(b.StartTableGame(a[0].(string))) }},
		{"SetUpTableGame", []any{id, int(v + 3), parts}, func(b pc.TableManagerBackend, a []any) []any {
			return none(b.SetUpTableGame(a[0].(string), a[1].(int), a[2].(map[string]int)))
		}},
		{"UpdateBlind", []any{id, int(v) - 1, v + 2, v + 3, v + 4, v + 5}, func(b pc.TableManagerBackend, a []any) []any {
			return none(b.UpdateBlind(a[0].(string), a[1].(int), a[2].(int64), a[3].(int64), a[4].(int64), a[5].(int64)))
		}},
		{"UpdateTablePlayers", []any{id, joins, leaves}, func(b pc.TableManagerBackend, a []any) []any {
			m, e := b.UpdateTablePlayers(a[0].(string), a[1].([]pt.JoinPlayer), a[2].([]string))
			return []any{m, e}
		}},
		{"PlayerReserve", []any{id, j}, func(b pc.TableManagerBackend, a []any) []any {
			return none(b.PlayerReserve(a[0].(string), a[1].(pt.JoinPlayer)))
		}},
		{"PlayerJoin", []any{id, "p" + id}, func(b pc.TableManagerBackend, a []any) []any {
			return none(b.PlayerJoin(a[0].(string), a[1].(string)))
		}},
		{"PlayerRedeemChips", []any{id, j2}, func(b pc.TableManagerBackend, a []any) []any {
			return none(b.PlayerRedeemChips(a[0].(string), a[1].(pt.JoinPlayer)))
		}},
		{"PlayersLeave", []any{id, leaves}, func(b pc.TableManagerBackend, a []any) []any {
			return none(b.PlayersLeave(a[0].(string), a[1].([]string)))
		}},
		{"ReleaseTable", []any{id}, func(b pc.TableManagerBackend, a []any) []any { return none(b.ReleaseTable(a[0].(string))) }},
	}
}

// nativeForward: histories of requests.
func nativeForward(depth int) *Scenario {
	return &Scenario{Name: "native-requests", Weight: 1, Run: func(x *Exec) {
		m := &recMgr{}
		b := pc.NewNativeTableManagerBackend(m)
		var log []string
		for i := 0; i < depth; i++ {
			ops := nativeOps(int64(x.Choose(3)))
			k := x.Choose(len(ops))
			op := ops[k]
			m.err = nil
			if x.Choose(2) == 1 {
				m.err = errors.New("refused")
			}
			m.table = &pt.Table{ID: fmt.Sprint("made-", i)}
			m.seats = map[string]int{"a": i, "b": i + 1}
			want := js(op.args)
			m.calls = nil
			var got []any
			x.S.Go(op.name, func() { got = op.do(b, op.args) })
			x.S.Run()
			if len(x.S.Panics) > 0 {
				return
			}
			log = append(log, op.name)
			x.Logf("%s(%s) -> %v", op.name, want, got)
			if len(m.calls) != 1 || m.calls[0].Name != op.name {
				x.Fail("forward:"+op.name, "%s: the table manager was asked %+v instead of once for %s", op.name, m.calls, op.name)
			}
			if g := js(m.calls[0].Args); g != want {
				x.Fail("arguments:"+op.name, "%s was asked for with %s and forwarded with %s", op.name, want, g)
			}
			if e := got[len(got)-1]; m.err == nil && e != nil && e.(error) != nil || m.err != nil && e != m.err {
				x.Fail("error:"+op.name, "%s: the table manager returned error %v, the backend %v", op.name, m.err, e)
			}
			if len(got) == 2 && m.err == nil {
				var w any = m.table
				if op.name == "UpdateTablePlayers" {
					w = m.seats
				}
				if js(w) != js(got[0]) {
					x.Fail("result:"+op.name, "%s: the table manager returned %s, the backend %s", op.name, js(w), js(got[0]))
				}
			}
			x.State(fmt.Sprint(log, m.err != nil))
		}
	}}
}

// nativeNotify: histories of notifications of several tables.
func nativeNotify(depth int) *Scenario {
	return &Scenario{Name: "native-notifications", Weight: 1, Run: func(x *Exec) {
		m := &recMgr{}
		b := pc.NewNativeTableManagerBackend(m)
		var got []string
		var keep []func() // changes what was delivered
		handlers := func(tag string) {
			b.OnTableUpdated(func(t *pt.Table) {
				got = append(got, tag+"updated "+js(t))
				keep = append(keep, func() {
					if t.State != nil {
						t.State.GameCount++
						for _, p := range t.State.PlayerStates {
							p.Bankroll++
						}
						if t.State.GameState != nil {
							t.State.GameState.GameID += "!"
						}
						if t.State.BlindState != nil {
							t.State.BlindState.Level++
						}
					}
					t.ID += "!"
				})
			})
			b.OnTablePlayerReserved(func(id string, p *pt.TablePlayerState) {
				got = append(got, tag+"reserved "+id+" "+js(p))
				keep = append(keep, func() { p.Seat++; p.PlayerID += "!" })
			})
			b.OnReadyOpenFirstTableGame(func(id string, n int, ps []*pt.TablePlayerState) {
				got = append(got, fmt.Sprint(tag, "ready ", id, " ", n, " ", js(ps)))
				keep = append(keep, func() {
					for _, p := range ps {
						p.Seat++
					}
				})
			})
		}
		// no handlers yet: nothing may break
		early := x.Choose(2) == 0
		if early {
			handlers("1:")
		}
		create := func(i int) {
			m.table = &pt.Table{ID: fmt.Sprint("table-", i)}
			if _, err := b.CreateTable(&pt.TableEngineOptions{}, pt.TableSetting{TableID: fmt.Sprint("table-", i)}); err != nil {
				x.Fail("create", "CreateTable fails: %v", err)
			}
		}
		x.S.Go("notify", func() {
			create(0)
			if !early {
				handlers("1:")
			}
			create(1)
			if x.Choose(2) == 1 {
				create(2)
			}
			tag := "1:"
			for i := 0; i < depth; i++ {
				k := x.Choose(8)
				if k == 7 {
					tag = fmt.Sprint(i+2, ":")
					handlers(tag)
					continue
				}
				c := m.cbs[x.Choose(len(m.cbs))]
				var t pt.Table
				seed := int64(i*1000 + k*100)
				got, keep = nil, nil
				var want string
				var src func() string
				switch k {
				case 0, 1, 2:
					filled(&t, seed)
					if k == 1 {
						t.State.GameState = nil
						t.State.Status = pt.TableStateStatus_TableGameSettled
					}
					if k == 2 {
						t.State = &pt.TableState{Status: pt.TableStateStatus_TableClosed, PlayerStates: []*pt.TablePlayerState{}}
					}
					want = tag + "updated " + js(&t)
					src = func() string { return js(&t) }
					s := src()
					c.OnTableUpdated(&t)
					if src() != s {
						x.Fail("source", "a table is changed by announcing its update")
					}
				case 3, 4:
					var p pt.TablePlayerState
					filled(&p, seed)
					if k == 4 {
						p = pt.TablePlayerState{PlayerID: "p", Seat: -1}
					}
					want = tag + "reserved T " + js(&p)
					src = func() string { return js(&p) }
					c.OnTablePlayerReserved("C", "T", &p)
				case 5, 6:
					ps := make([]*pt.TablePlayerState, 2)
					for j := range ps {
						ps[j] = new(pt.TablePlayerState)
						filled(ps[j], seed+int64(j)*40)
					}
					n := 7
					if k == 6 {
						ps, n = []*pt.TablePlayerState{}, 0
					}
					want = fmt.Sprint(tag, "ready T ", n, " ", js(ps))
					src = func() string { return js(ps) }
					c.OnReadyOpenFirstTableGame("C", "T", n, ps)
				}
				names := []string{"updated", "updated", "updated", "reserved", "reserved", "ready", "ready"}
				if len(got) != 1 || got[0] != want {
					x.Fail("notify:"+names[k], "notification %s: the handlers got %.800v", want, got)
				}
				before := src()
				for _, f := range keep {
					f()
				}
				if src() != before {
					x.Fail("shared:"+names[k], "changing what a handler got changes the table: %s became %s", before, src())
				}
				x.State(fmt.Sprint(i, k, tag))
			}
		})
		x.S.Run()
		// the backend announces a table itself
		got = nil
		var t pt.Table
		filled(&t, 5)
		x.S.Go("update", func() { b.UpdateTable(&t) })
		x.S.Run()
		if len(x.S.Panics) == 0 && len(got) != 1 {
			x.Fail("update-table", "UpdateTable delivers %d notifications", len(got))
		}
	}}
}

func init() {
	register(&Prop{ID: "C24", Notes: "recording table manager", Scens: func(tier string) []*Scenario {
		if tier == "thorough" {
			return append(conformScens(tier), nativeForward(3), nativeNotify(4))
		}
		return append(conformScens(tier), nativeForward(2), nativeNotify(3))
	}})
}
