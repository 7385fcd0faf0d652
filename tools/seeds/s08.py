id="start-counts-reserved"; property="C05"
needs="players reserve their seats but sit down later"
breaks="a cash game starts before enough players have taken their seats"
edits=[("competition_engine_internal.go","""func (ce *competitionEngine) canStartCash() bool {
	if ce.competition.State.Status != CompetitionStateStatus_Registering {
		return false
	}

	currentPlayerCount := 0
	for _, table := range ce.competition.State.Tables {
		for _, player := range table.State.PlayerStates {
			if player.IsIn && player.Bankroll > 0 {""","""func (ce *competitionEngine) canStartCash() bool {
	if ce.competition.State.Status != CompetitionStateStatus_Registering {
		return false
	}

	currentPlayerCount := 0
	for _, table := range ce.competition.State.Tables {
		for _, player := range table.State.PlayerStates {
			if player.Bankroll > 0 {""")]
demo='''package pokercompetition_test
import ("testing"; "time"; pc "github.com/weedbox/pokercompetition"; pt "github.com/weedbox/pokertable")
var _ = time.Second
var _ = pt.UnsetValue
var _ = pc.UnsetValue

func TestDemo(t *testing.T) {
	k := newKit()
	k.create(t, setting(pc.CompetitionMode_Cash, 0, level(1, 600, true)), "a")
	k.mu.Lock()
	k.tabs["t1"].State.PlayerStates[0].IsIn = false
	k.mu.Unlock()
	must(t, k.e.PlayerBuyIn(pc.JoinPlayer{PlayerID: "b", RedeemChips: 1000, Unit: 1}))
	time.Sleep(time.Second)
	if k.count("StartTableGame") > 0 || k.noted("Started") > 0 { t.Fatal("started with one player in the seats") }
	k.mu.Lock()
	k.tabs["t1"].State.PlayerStates[0].IsIn = true
	k.mu.Unlock()
	k.emit("t1")
	if !wait(3*time.Second, func() bool { return k.count("StartTableGame") > 0 }) { t.Fatal("never started") }
}
'''
