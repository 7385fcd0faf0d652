From bf5a40d8feb0bb2894d280bb764f2bd9cc1cc586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 01/48] fix: buying in while a hand settles deadlocks the
 competition

PlayerBuyIn, PlayerAddon and PlayerRefund hold ce.mu while they call the
table backend. While the table is settling, the backend answers with another
TableGameSettled update on the same goroutine, and settleCompetitionTable
waited for ce.mu to look the hand up. The record is a sync.Map: test and set
it atomically instead.
---
 competition_engine_internal.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cf1d2f8..3aac572 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -223,13 +223,9 @@ settleCompetitionTable 桌次結算
 */
 func (ce *competitionEngine) settleCompetitionTable(table pokertable.Table, tableIdx int) {
 	gameSettledRecordID := fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)
-	ce.mu.Lock()
-	if isGameSettled, ok := ce.gameSettledRecords.Load(gameSettledRecordID); ok && isGameSettled.(bool) {
-		ce.mu.Unlock()
+	if _, settled := ce.gameSettledRecords.LoadOrStore(gameSettledRecordID, true); settled {
 		return
 	}
-	ce.gameSettledRecords.Store(gameSettledRecordID, true)
-	ce.mu.Unlock()
 
 	// 更新玩家相關賽事數據
 	ce.updatePlayerCompetitionTableRecords(table)
-- 
2.43.0


From 85f3432934693f4b3ccef85ec43f7eebcdedeb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 02/48] fix: player operations check and act under different
 locks

PlayerBuyIn, PlayerAddon, PlayerRefund, PlayerCashOut and PlayerQuit looked the
player up and checked the limits before taking ce.mu. Two at a time could buy
one player in twice, exceed the re-buy or add-on limit or the seats, or delete
another player by a stale index. Take the lock first.
---
 competition_engine.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index a0bd264..a074d02 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -397,6 +397,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		return ErrCompetitionNoRedeemChips
 	}
 
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
@@ -463,7 +466,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	var competitionPlayer *CompetitionPlayer
 
 	// do logic
-	ce.mu.Lock()
 	if isBuyIn {
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
 		ce.competition.State.Players = append(ce.competition.State.Players, &player)
@@ -498,7 +500,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		ce.refreshPlayerCompetitionRanks()
 		competitionPlayer = cp
 	}
-	defer ce.mu.Unlock()
 
 	if isBuyIn {
 		ce.emitEvent(fmt.Sprintf("PlayerBuyIn -> %s Buy In", joinPlayer.PlayerID), joinPlayer.PlayerID)
@@ -544,6 +545,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionNoRedeemChips
 	}
 
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
@@ -566,7 +570,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 
 	// do logic
-	ce.mu.Lock()
 	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
 	cp.AddonTimes++
@@ -575,7 +578,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		ce.competition.State.Statistic.TotalAddonCount += joinPlayer.Unit
 	}
 	ce.refreshPlayerCompetitionRanks()
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerAddon", joinPlayer.PlayerID)
@@ -596,6 +598,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 }
 
 func (ce *competitionEngine) PlayerRefund(playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate refund conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
@@ -618,13 +623,11 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	}
 
 	// refund logic
-	ce.mu.Lock()
 	if ce.competition.IsModeCTorMTT() {
 		ce.competition.State.Statistic.TotalBuyInCount -= player.TotalBuyInUnits
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
@@ -650,6 +653,9 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 }
 
 func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate leave conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
@@ -688,6 +694,9 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 }
 
 func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate quit conditions
 	// CT Only
 	if ce.competition.Meta.Mode != CompetitionMode_CT {
@@ -717,13 +726,11 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		fmt.Printf("[DEBUG#PlayerQuit] PlayersLeave Error: %+v. CompetitionID: %s, TableID: %s, PlayerID: %s", err, ce.competition.ID, tableID, playerID)
 		// ce.emitErrorEvent("Player Quit Knockout Players -> PlayersLeave", playerID, err)
 	} else {
-		ce.mu.Lock()
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = CompetitionPlayerStatus_ReBuyWaiting
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.CurrentSeat = UnsetValue
-		ce.mu.Unlock()
 
 		ce.emitPlayerEvent("quit knockout", cp)
 		ce.emitEvent("Player Quit", "")
-- 
2.43.0


From bad8e13f9dada73b129bb034063925d63608ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 03/48] fix: player counts and live ranks go stale when a
 player leaves

Refunds, cash-outs, quitting and being seated changed the players but not the
counts by status and the live ranks. A CT table whose last seat had been
refunded refused the next buy-in.
---
 competition_engine.go          | 7 +++++++
 competition_engine_internal.go | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index a074d02..e6aecf0 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -628,6 +628,8 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
+	ce.refreshPlayerStatusStatistics()
+	ce.refreshPlayerCompetitionRanks()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
@@ -671,6 +673,8 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	// update player status
 	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
+	ce.refreshPlayerStatusStatistics()
+	ce.refreshPlayerCompetitionRanks()
 	ce.emitPlayerEvent("PlayerCashOut -> Cash Leaving", cp)
 
 	// 尚未開賽時 or 已經開賽但是賽事只剩一人，則直接結算，玩家直接離桌結算
@@ -731,6 +735,8 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.CurrentSeat = UnsetValue
+		ce.refreshPlayerStatusStatistics()
+		ce.refreshPlayerCompetitionRanks()
 
 		ce.emitPlayerEvent("quit knockout", cp)
 		ce.emitEvent("Player Quit", "")
@@ -751,6 +757,7 @@ func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playe
 	cp.CurrentSeat = playerState.Seat
 	cp.CurrentTableID = tableID
 	cp.Status = CompetitionPlayerStatus_Playing
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("[UpdateReserveTablePlayerState] player table seat updated", cp)
 	ce.emitEvent(fmt.Sprintf("[UpdateReserveTablePlayerState] player (%s) is reserved to table (%s) at seat (%d)", cp.PlayerID, cp.CurrentTableID, cp.CurrentSeat), cp.PlayerID)
 }
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 3aac572..7ef88cc 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -541,6 +541,8 @@ func (ce *competitionEngine) handleCashOut(tableID string, leavePlayerIndexes ma
 		}
 	}
 	ce.competition.State.Players = newPlayers
+	ce.refreshPlayerStatusStatistics()
+	ce.refreshPlayerCompetitionRanks()
 
 	// Emit Event
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CashOutPlayers)
-- 
2.43.0


From 862ebad8be22436ae95e463eeae1ce62e8a75dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 04/48] fix: a cash player who tops up loses the chips he
 already had

The table adds the chips to the player's stack, the competition replaced it.
---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index e6aecf0..5d96ebf 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -480,7 +480,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = playerStatus
 		cp.ReBuyWaitingAt = UnsetValue
-		cp.Chips = joinPlayer.RedeemChips
+		cp.Chips += joinPlayer.RedeemChips
 		cp.ReBuyTimes++
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
-- 
2.43.0


From 51313cffdcba2afbd48df94712f95ff0af1c4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 05/48] fix: a refunded cash player keeps the seat at the table

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 5d96ebf..15278e2 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -618,7 +618,7 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	player := ce.competition.State.Players[playerIdx]
 
 	playerTableID := ""
-	if ce.competition.Meta.Mode == CompetitionMode_CT {
+	if ce.competition.Meta.Mode == CompetitionMode_CT || ce.competition.Meta.Mode == CompetitionMode_Cash {
 		playerTableID = player.CurrentTableID
 	}
 
-- 
2.43.0


From a3da084321033dbe87812ef2ed2c7294f5cf1eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:27 +0000
Subject: [PATCH 06/48] fix: an ended competition accepts a start and add-ons

---
 competition_engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 15278e2..8b1643b 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -331,7 +331,7 @@ StartCompetition 開賽
   - 適用時機: MTT 手動開賽、MTT 自動開賽、CT 開賽
 */
 func (ce *competitionEngine) StartCompetition() (int64, error) {
-	if ce.isStarted {
+	if ce.isStarted || ce.isEndStatus() {
 		return ce.competition.State.StartAt, ErrCompetitionStartRejected
 	}
 
@@ -555,6 +555,11 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionAddonRejected
 	}
 
+	// validate competition status
+	if ce.isEndStatus() {
+		return ErrCompetitionAddonRejected
+	}
+
 	// validate Addon times
 	if ce.competition.Meta.AddonSetting.IsBreakOnly && !ce.competition.IsBreaking() {
 		return ErrCompetitionAddonRejected
-- 
2.43.0


From ebd826ded4465dd75104461d7428f101d02d5447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 07/48] fix: two endings at once settle the competition twice

---
 competition_engine.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 8b1643b..b220115 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/thoas/go-funk"
@@ -87,6 +88,7 @@ type competitionEngine struct {
 	regulator                           regulator.Regulator
 	isStarted                           bool
 	isRegulatorStarted                  bool
+	isClosed                            int32 // 賽事只能結算一次 (0: 尚未結算, 1: 已結算)
 	waitingPlayers                      []string
 
 	// TODO: Test Only
@@ -321,6 +323,11 @@ func (ce *competitionEngine) CloseCompetition(endStatus CompetitionStateStatus)
 		return nil
 	}
 
+	// 多個結束條件可能同時達成，只有第一個會結算賽事
+	if !atomic.CompareAndSwapInt32(&ce.isClosed, 0, 1) {
+		return nil
+	}
+
 	ce.settleCompetition(endStatus)
 	_ = ce.ReleaseTables()
 	return nil
-- 
2.43.0


From f7712344986bf26900f18653500afe1e24cb8e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 08/48] fix: a single-table competition starts twice, or never
 when started early

---
 competition_engine.go          | 24 ++++++++++++++++++++++++
 competition_engine_internal.go | 19 +++++++++++++++----
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index b220115..11d0dd4 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -89,6 +89,9 @@ type competitionEngine struct {
 	isStarted                           bool
 	isRegulatorStarted                  bool
 	isClosed                            int32 // 賽事只能結算一次 (0: 尚未結算, 1: 已結算)
+	isTableGameActivated                int32 // CT/Cash 只能啟動一次桌次遊戲 (0: 尚未啟動, 1: 已啟動)
+	isStartAnnounced                    bool  // 開賽事件發送後才能啟動盲注與桌次遊戲
+	startMu                             sync.Mutex
 	waitingPlayers                      []string
 
 	// TODO: Test Only
@@ -338,13 +341,33 @@ StartCompetition 開賽
   - 適用時機: MTT 手動開賽、MTT 自動開賽、CT 開賽
 */
 func (ce *competitionEngine) StartCompetition() (int64, error) {
+	startAt, err := ce.startCompetition()
+	if err != nil {
+		return startAt, err
+	}
+
+	// CT/Cash 開賽時玩家可能已經全部入座，不會再有桌次更新觸發自動開打
+	if ce.competition.Meta.Mode == CompetitionMode_CT || ce.competition.Meta.Mode == CompetitionMode_Cash {
+		for idx, table := range ce.competition.State.Tables {
+			if table.State.Status == pokertable.TableStateStatus_TableCreated {
+				ce.handleCompetitionTableCreated(*table, idx)
+			}
+		}
+	}
+	return startAt, nil
+}
+
+func (ce *competitionEngine) startCompetition() (int64, error) {
+	ce.startMu.Lock()
 	if ce.isStarted || ce.isEndStatus() {
+		ce.startMu.Unlock()
 		return ce.competition.State.StartAt, ErrCompetitionStartRejected
 	}
 
 	// update start & end at
 	ce.competition.State.StartAt = time.Now().Unix()
 	ce.isStarted = true
+	ce.startMu.Unlock()
 
 	if ce.competition.Meta.Mode == CompetitionMode_CT {
 		ce.competition.State.EndAt = ce.competition.State.StartAt + int64((time.Duration(ce.competition.Meta.MaxDuration) * time.Second).Seconds())
@@ -395,6 +418,7 @@ func (ce *competitionEngine) StartCompetition() (int64, error) {
 
 	ce.emitEvent("StartCompetition", "")
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_Started)
+	ce.isStartAnnounced = true
 	return ce.competition.State.StartAt, nil
 }
 
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 7ef88cc..f79992b 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -5,6 +5,7 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/thoas/go-funk"
@@ -68,8 +69,13 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 		}
 
 		// auto start game if condition is reached
-		if _, err := ce.StartCompetition(); err != nil {
-			ce.emitErrorEvent("CT Auto StartCompetition", "", err)
+		if !ce.isStarted {
+			if _, err := ce.startCompetition(); err != nil {
+				ce.emitErrorEvent("CT Auto StartCompetition", "", err)
+				return
+			}
+		}
+		if !ce.isStartAnnounced || !atomic.CompareAndSwapInt32(&ce.isTableGameActivated, 0, 1) {
 			return
 		}
 
@@ -93,8 +99,13 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 		}
 
 		// auto start game if condition is reached
-		if _, err := ce.StartCompetition(); err != nil {
-			ce.emitErrorEvent("Cash Auto StartCompetition", "", err)
+		if !ce.isStarted {
+			if _, err := ce.startCompetition(); err != nil {
+				ce.emitErrorEvent("Cash Auto StartCompetition", "", err)
+				return
+			}
+		}
+		if !ce.isStartAnnounced || !atomic.CompareAndSwapInt32(&ce.isTableGameActivated, 0, 1) {
 			return
 		}
 
-- 
2.43.0


From 07f8656d643dfe64b552e6d3250e84df94a7f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 09/48] fix: the player who completes a started tournament is
 never seated

---
 competition_engine.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 11d0dd4..6f24509 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -411,9 +411,11 @@ func (ce *competitionEngine) startCompetition() (int64, error) {
 		}
 	case CompetitionMode_MTT:
 		// 更新拆併桌監管器狀態
+		ce.mu.Lock()
 		if ce.shouldActivateRegulator() {
 			ce.activateRegulator()
 		}
+		ce.mu.Unlock()
 	}
 
 	ce.emitEvent("StartCompetition", "")
@@ -558,11 +560,10 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
 			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
 		} else {
+			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
+			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			if ce.shouldActivateRegulator() {
 				ce.activateRegulator()
-			} else {
-				// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
-				ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			}
 		}
 	}
-- 
2.43.0


From 190d0e3906a76e9c4db54ab13a2a76fb0f7c6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 10/48] fix: an older table update overwrites a newer one

---
 competition_engine.go          | 15 ++++++++++++++-
 competition_engine_internal.go | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 6f24509..5977a1d 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -92,6 +92,7 @@ type competitionEngine struct {
 	isTableGameActivated                int32 // CT/Cash 只能啟動一次桌次遊戲 (0: 尚未啟動, 1: 已啟動)
 	isStartAnnounced                    bool  // 開賽事件發送後才能啟動盲注與桌次遊戲
 	startMu                             sync.Mutex
+	tablesMu                            sync.Mutex // 保護 competition.State.Tables
 	waitingPlayers                      []string
 
 	// TODO: Test Only
@@ -842,7 +843,19 @@ func (ce *competitionEngine) UpdateTable(table *pokertable.Table) {
 	} else {
 		cloneTable = *table
 	}
-	ce.competition.State.Tables[tableIdx] = &cloneTable
+	// 較舊的更新不可以覆蓋較新的桌次資料
+	ce.tablesMu.Lock()
+	tableIdx = ce.competition.FindTableIdx(func(t *pokertable.Table) bool {
+		return table.ID == t.ID
+	})
+	if tableIdx == UnsetValue {
+		ce.tablesMu.Unlock()
+		return
+	}
+	if cloneTable.UpdateSerial >= ce.competition.State.Tables[tableIdx].UpdateSerial {
+		ce.competition.State.Tables[tableIdx] = &cloneTable
+	}
+	ce.tablesMu.Unlock()
 
 	// 處理因 table status 產生的變化
 	tableStatusHandlerMap := map[pokertable.TableStateStatus]func(pokertable.Table, int){
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index f79992b..19e3238 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -167,7 +167,9 @@ func (ce *competitionEngine) addCompetitionTable(tableSetting TableSetting, blin
 	}
 
 	// add table
+	ce.tablesMu.Lock()
 	ce.competition.State.Tables = append(ce.competition.State.Tables, table)
+	ce.tablesMu.Unlock()
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)
 	ce.emitEvent("[addCompetitionTable]", "")
 
@@ -202,8 +204,17 @@ func (ce *competitionEngine) settleCompetition(endCompetitionStatus CompetitionS
 	ce.gameSettledRecords = sync.Map{}
 }
 
-func (ce *competitionEngine) deleteTable(tableIdx int) {
-	ce.competition.State.Tables = append(ce.competition.State.Tables[:tableIdx], ce.competition.State.Tables[tableIdx+1:]...)
+func (ce *competitionEngine) deleteTable(tableID string) {
+	ce.tablesMu.Lock()
+	defer ce.tablesMu.Unlock()
+
+	tables := make([]*pokertable.Table, 0)
+	for _, t := range ce.competition.State.Tables {
+		if t.ID != tableID {
+			tables = append(tables, t)
+		}
+	}
+	ce.competition.State.Tables = tables
 }
 
 func (ce *competitionEngine) deletePlayer(playerIdx int) {
@@ -219,7 +230,7 @@ func (ce *competitionEngine) closeCompetitionTable(table pokertable.Table, table
 	delete(ce.breakingPauseResumeStates, table.ID)
 
 	// competition close table
-	ce.deleteTable(tableIdx)
+	ce.deleteTable(table.ID)
 	ce.emitEvent("closeCompetitionTable", "")
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_TableUpdated)
 
-- 
2.43.0


From ad0b86c6ec875c168f5e0ae3eeedeb044bd91eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 11/48] fix: an ended competition's status is overwritten by a
 concurrent blind change

---
 competition_engine.go          |  1 +
 competition_engine_internal.go | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 5977a1d..9d7fca4 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -92,6 +92,7 @@ type competitionEngine struct {
 	isTableGameActivated                int32 // CT/Cash 只能啟動一次桌次遊戲 (0: 尚未啟動, 1: 已啟動)
 	isStartAnnounced                    bool  // 開賽事件發送後才能啟動盲注與桌次遊戲
 	startMu                             sync.Mutex
+	statusMu                            sync.Mutex
 	tablesMu                            sync.Mutex // 保護 competition.State.Tables
 	waitingPlayers                      []string
 
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 19e3238..df7ff17 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -188,7 +188,7 @@ func (ce *competitionEngine) settleCompetition(endCompetitionStatus CompetitionS
 	ce.updatePlayerFinalRankings()
 
 	// close competition
-	ce.competition.State.Status = endCompetitionStatus
+	ce.updateStatus(endCompetitionStatus)
 	if ce.competition.Meta.Mode == CompetitionMode_MTT {
 		ce.competition.State.EndAt = time.Now().Unix()
 	}
@@ -1020,6 +1020,18 @@ func (ce *competitionEngine) isEndStatus() bool {
 	return funk.Contains(endStatuses, ce.competition.State.Status)
 }
 
+// updateStatus 更新賽事狀態 (賽事結束後不可再更新)
+func (ce *competitionEngine) updateStatus(status CompetitionStateStatus) bool {
+	ce.statusMu.Lock()
+	defer ce.statusMu.Unlock()
+
+	if ce.isEndStatus() {
+		return false
+	}
+	ce.competition.State.Status = status
+	return true
+}
+
 func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 	options := &pokerblind.BlindOptions{
 		ID:                   meta.Blind.ID,
@@ -1064,7 +1076,9 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 				// 處理晉級
 				ce.initAdvancement()
 
-				ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
+				if !ce.updateStatus(CompetitionStateStatus_StoppedBuyIn) {
+					return
+				}
 
 				// MTT 在停止買入階段，更新拆併桌監管器狀態
 				if ce.competition.Meta.Mode == CompetitionMode_MTT {
@@ -1149,9 +1163,9 @@ func (ce *competitionEngine) activateBlind() error {
 	}
 
 	if ce.competition.Meta.Blind.FinalBuyInLevelIndex == UnsetValue || ce.competition.Meta.Blind.FinalBuyInLevelIndex < NoStopBuyInIndex {
-		ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
+		ce.updateStatus(CompetitionStateStatus_StoppedBuyIn)
 	} else {
-		ce.competition.State.Status = CompetitionStateStatus_DelayedBuyIn
+		ce.updateStatus(CompetitionStateStatus_DelayedBuyIn)
 	}
 
 	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
-- 
2.43.0


From 44a30afdff28d03745113bd670af2b41c3fa903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:36 +0000
Subject: [PATCH 12/48] fix: a timer panics when the table is closed meanwhile

---
 competition_engine.go          | 6 +++---
 competition_engine_internal.go | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 9d7fca4..b554053 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -391,7 +391,7 @@ func (ce *competitionEngine) startCompetition() (int64, error) {
 				return
 			}
 
-			if len(ce.competition.State.Tables) > 0 {
+			if tables := ce.competition.State.Tables; len(tables) > 0 {
 				noneCloseTableStatuses := []pokertable.TableStateStatus{
 					// playing
 					pokertable.TableStateStatus_TableGameOpened,
@@ -402,8 +402,8 @@ func (ce *competitionEngine) startCompetition() (int64, error) {
 					pokertable.TableStateStatus_TableClosed,
 				}
 				// 桌次尚未結束，處理關桌
-				if !funk.Contains(noneCloseTableStatuses, ce.competition.State.Tables[0].State.Status) {
-					if err := ce.tableManagerBackend.CloseTable(ce.competition.State.Tables[0].ID); err != nil {
+				if !funk.Contains(noneCloseTableStatuses, tables[0].State.Status) {
+					if err := ce.tableManagerBackend.CloseTable(tables[0].ID); err != nil {
 						ce.emitErrorEvent("end time auto close -> CloseTable", "", err)
 					}
 				}
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index df7ff17..fa383df 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1110,8 +1110,8 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 					ce.emitPlayerEvent("Stopped BuyIn Knockout Players", cp)
 
 					// 玩家離座 (CT only), 因為 MTT 在結算沒籌碼時就已經離開該桌次了
-					if isCTReBuying && len(ce.competition.State.Tables) > 0 {
-						if err := ce.tableManagerBackend.PlayersLeave(ce.competition.State.Tables[0].ID, []string{knockoutPlayerID}); err != nil {
+					if tables := ce.competition.State.Tables; isCTReBuying && len(tables) > 0 {
+						if err := ce.tableManagerBackend.PlayersLeave(tables[0].ID, []string{knockoutPlayerID}); err != nil {
 							ce.emitErrorEvent("Stopped BuyIn Knockout Players -> PlayersLeave", knockoutPlayerID, err)
 						}
 					}
@@ -1133,7 +1133,8 @@ func (ce *competitionEngine) initBlind(meta CompetitionMeta) {
 				ce.emitCompetitionStateEvent(CompetitionStateEvent_BlindUpdated) // change Status
 
 				// 處理結束賽事
-				tableEndConditions := len(ce.competition.State.Tables) == 0 || (len(ce.competition.State.Tables) == 1 && len(ce.competition.State.Tables[0].AlivePlayers()) < 2)
+				tables := ce.competition.State.Tables
+				tableEndConditions := len(tables) == 0 || (len(tables) == 1 && len(tables[0].AlivePlayers()) < 2)
 				shouldCloseCompetition := !ce.isEndStatus() && tableEndConditions
 				autoCloseModes := []CompetitionMode{
 					CompetitionMode_CT,
-- 
2.43.0


From 66b78cf14ff30a2449b574683fc88438663e192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 13/48] fix: a player re-buying as the window closes is sent
 away

---
 competition_engine_internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index fa383df..3c85069 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -737,6 +737,9 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 				return
 			}
 
+			ce.mu.Lock()
+			defer ce.mu.Unlock()
+
 			leavePlayerIDs := make([]string, 0)
 			leavePlayerIndexes := make(map[string]int)
 			for _, reBuyPlayerID := range reBuyPlayerIDs {
-- 
2.43.0


From f02ae51be72c8d7b3a7f8ea40ceb92cd724b01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:28 +0000
Subject: [PATCH 14/48] fix: a single-table tournament idle at its end time
 never ends

---
 competition_engine.go          |  2 ++
 competition_engine_internal.go | 25 ++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index b554053..4c308dd 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -406,6 +406,8 @@ func (ce *competitionEngine) startCompetition() (int64, error) {
 					if err := ce.tableManagerBackend.CloseTable(tables[0].ID); err != nil {
 						ce.emitErrorEvent("end time auto close -> CloseTable", "", err)
 					}
+				} else if tables[0].State.Status == pokertable.TableStateStatus_TableGameSettled {
+					ce.closeIdleTableAfterEndTime(tables[0].ID, tables[0].State.GameCount)
 				}
 			}
 		}); err != nil {
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 3c85069..449ceb4 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -991,7 +991,30 @@ func (ce *competitionEngine) shouldCloseCTCompetition(tableStartAt int64, tableA
 	}
 
 	tableEndAt := time.Unix(tableStartAt, 0).Add(time.Second * time.Duration(ce.competition.Meta.MaxDuration)).Unix()
-	return time.Now().Unix() > tableEndAt || (ce.competition.State.BlindState.IsStopBuyIn() && tableAlivePlayerCount < ce.competition.Meta.TableMinPlayerCount)
+	return time.Now().Unix() >= tableEndAt || (ce.competition.State.BlindState.IsStopBuyIn() && tableAlivePlayerCount < ce.competition.Meta.TableMinPlayerCount)
+}
+
+/*
+closeIdleTableAfterEndTime CT 結束時間前剛結算完的桌次，等待後若沒有下一手則關閉桌次
+*/
+func (ce *competitionEngine) closeIdleTableAfterEndTime(tableID string, gameCount int) {
+	interval := 1
+	if ce.tableOptions != nil {
+		interval += ce.tableOptions.GameContinueInterval + ce.tableOptions.OpenGameTimeout
+	}
+	if err := timebank.NewTimeBank().NewTask(time.Second*time.Duration(interval), func(isCancelled bool) {
+		if isCancelled || ce.isEndStatus() {
+			return
+		}
+
+		if tables := ce.competition.State.Tables; len(tables) > 0 && tables[0].State.GameCount == gameCount {
+			if err := ce.tableManagerBackend.CloseTable(tableID); err != nil {
+				ce.emitErrorEvent("end time auto close idle table -> CloseTable", "", err)
+			}
+		}
+	}); err != nil {
+		ce.emitErrorEvent("end time auto close idle table", "", err)
+	}
 }
 
 /*
-- 
2.43.0


From d5f4d6080b677b8b50dbfa494423cc1da7655b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 15/48] fix: a competition due in the current second is left
 half created

---
 competition_engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 4c308dd..528ef62 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -189,11 +189,11 @@ func (ce *competitionEngine) GetCompetition() *Competition {
 func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSetting) (*Competition, error) {
 	// validate competitionSetting
 	now := time.Now()
-	if competitionSetting.StartAt != UnsetValue && competitionSetting.StartAt < now.Unix() {
+	if competitionSetting.StartAt != UnsetValue && time.Unix(competitionSetting.StartAt, 0).Before(now) {
 		return nil, ErrCompetitionInvalidCreateSetting
 	}
 
-	if competitionSetting.DisableAt < now.Unix() {
+	if time.Unix(competitionSetting.DisableAt, 0).Before(now) {
 		return nil, ErrCompetitionInvalidCreateSetting
 	}
 
-- 
2.43.0


From e362db5b1825afe98d41c468ecfa2b3c5ccf9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 16/48] fix: advancement counts one table twice and ends while
 another plays

---
 competition_engine_internal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 449ceb4..a790226 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -362,8 +362,10 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 			if err := ce.tableManagerBackend.PauseTable(table.ID); err != nil {
 				ce.emitErrorEvent(fmt.Sprintf("[%s][%d] Advance Pause Table", table.ID, table.State.GameCount), "", err)
 			} else {
-				ce.competition.State.AdvanceState.UpdatedTables++
-				ce.competition.State.AdvanceState.UpdatedTableIDs = append(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID)
+				if !funk.ContainsString(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID) {
+					ce.competition.State.AdvanceState.UpdatedTables++
+					ce.competition.State.AdvanceState.UpdatedTableIDs = append(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID)
+				}
 
 				// 晉級條件達成: 結束賽事
 				if ce.competition.State.AdvanceState.TotalTables == ce.competition.State.AdvanceState.UpdatedTables {
-- 
2.43.0


From 9282b7afe6b9c6720187d8afb3bec6dd34e5c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:53 +0000
Subject: [PATCH 17/48] fix: a knocked-out cash player who buys in again stays
 ranked as out

---
 competition_engine.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 528ef62..cedeccb 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -515,6 +515,17 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	} else {
 		// ReBuy logic
 		cp := ce.competition.State.Players[playerIdx]
+		if cp.Status == CompetitionPlayerStatus_Knockout {
+			// 現金桌淘汰玩家重新買入，不再列於淘汰排名
+			rankings := make([]*CompetitionRank, 0)
+			for _, ranking := range ce.competition.State.Rankings {
+				if ranking.PlayerID != cp.PlayerID {
+					rankings = append(rankings, ranking)
+				}
+			}
+			ce.competition.State.Rankings = rankings
+			cp.KnockoutAt = UnsetValue
+		}
 		cp.Status = playerStatus
 		cp.ReBuyWaitingAt = UnsetValue
 		cp.Chips += joinPlayer.RedeemChips
-- 
2.43.0


From 8e4ac061cd108d7a666ed487ce87d2ca22466c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 18/48] fix: showdown statistics are never counted

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index a790226..00c3352 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -885,6 +885,12 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 		if player.GameStatistics.IsFtCB {
 			cp.TotalFtCBTimes++
 		}
+		if player.GameStatistics.ShowdownWinningChance {
+			cp.TotalShowdownWinningChances++
+		}
+		if player.GameStatistics.IsShowdownWinning {
+			cp.TotalShowdownWinningTimes++
+		}
 	}
 
 	// 更新贏家統計數據
-- 
2.43.0


From e8838d8c79ee507908c0c4e8525e57a8102ae58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 19/48] fix: multi-table tournaments ignore TableMaxSeatCount

The regulator always balanced for nine players a table. With a smaller
TableMaxSeatCount it asked for tables which the table backend refuses, so no
player was ever seated.
---
 competition_engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine.go b/competition_engine.go
index cedeccb..6737070 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -258,6 +258,7 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 		// 初始化拆併桌監管器
 		if ce.regulator == nil {
 			ce.regulator = regulator.NewRegulator(
+				regulator.MaxPlayersPerTable(competitionSetting.Meta.TableMaxSeatCount),
 				regulator.MinInitialPlayers(competitionSetting.Meta.RegulatorMinInitialPlayerCount),
 				regulator.WithRequestTableFn(func(playerIDs []string) (string, error) {
 					return ce.regulatorCreateAndDistributePlayers(playerIDs)
-- 
2.43.0


From bb64a709f8f75c90e779b105fb09fd345e581c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:38 +0000
Subject: [PATCH 20/48] fix: table notifications reach only the competition
 created last

---
 manager.go | 63 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/manager.go b/manager.go
index d44aa34..7c63311 100644
--- a/manager.go
+++ b/manager.go
@@ -44,6 +44,7 @@ type manager struct {
 	tableOptions        *pokertable.TableEngineOptions
 	competitionEngines  sync.Map
 	tableManagerBackend TableManagerBackend
+	tableOwners         sync.Map // key: tableID, value: *competitionTableBackend
 }
 
 func NewManager(tableManagerBackend TableManagerBackend) Manager {
@@ -83,7 +84,7 @@ func (m *manager) GetCompetitionEngine(competitionID string) (CompetitionEngine,
 
 func (m *manager) CreateCompetition(competitionSetting CompetitionSetting, options *CompetitionEngineOptions) (*Competition, error) {
 	competitionEngine := NewCompetitionEngine(
-		WithTableManagerBackend(m.tableManagerBackend),
+		WithTableManagerBackend(m.newCompetitionTableBackend()),
 		WithTableOptions(m.tableOptions),
 	)
 	competitionEngine.OnCompetitionUpdated(options.OnCompetitionUpdated)
@@ -223,3 +224,63 @@ func (m *manager) PlayerQuit(competitionID string, tableID, playerID string) err
 
 	return competitionEngine.PlayerQuit(tableID, playerID)
 }
+
+/*
+competitionTableBackend 讓多個賽事共用同一個桌次後端
+- 桌次後端只能註冊一組事件處理函式，因此依桌次所屬賽事轉送事件
+*/
+type competitionTableBackend struct {
+	TableManagerBackend
+	manager                   *manager
+	onTableUpdated            func(table *pokertable.Table)
+	onTablePlayerReserved     func(tableID string, playerState *pokertable.TablePlayerState)
+	onReadyOpenFirstTableGame func(tableID string, gameCount int, playerStates []*pokertable.TablePlayerState)
+}
+
+func (m *manager) newCompetitionTableBackend() *competitionTableBackend {
+	m.tableManagerBackend.OnTableUpdated(func(table *pokertable.Table) {
+		if owner, exist := m.tableOwners.Load(table.ID); exist {
+			owner.(*competitionTableBackend).onTableUpdated(table)
+		}
+	})
+	m.tableManagerBackend.OnTablePlayerReserved(func(tableID string, playerState *pokertable.TablePlayerState) {
+		if owner, exist := m.tableOwners.Load(tableID); exist {
+			owner.(*competitionTableBackend).onTablePlayerReserved(tableID, playerState)
+		}
+	})
+	m.tableManagerBackend.OnReadyOpenFirstTableGame(func(tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		if owner, exist := m.tableOwners.Load(tableID); exist {
+			owner.(*competitionTableBackend).onReadyOpenFirstTableGame(tableID, gameCount, playerStates)
+		}
+	})
+
+	return &competitionTableBackend{
+		TableManagerBackend: m.tableManagerBackend,
+		manager:             m,
+	}
+}
+
+func (ctb *competitionTableBackend) OnTableUpdated(fn func(table *pokertable.Table)) {
+	ctb.onTableUpdated = fn
+}
+
+func (ctb *competitionTableBackend) OnTablePlayerReserved(fn func(tableID string, playerState *pokertable.TablePlayerState)) {
+	ctb.onTablePlayerReserved = fn
+}
+
+func (ctb *competitionTableBackend) OnReadyOpenFirstTableGame(fn func(tableID string, gameCount int, playerStates []*pokertable.TablePlayerState)) {
+	ctb.onReadyOpenFirstTableGame = fn
+}
+
+func (ctb *competitionTableBackend) CreateTable(options *pokertable.TableEngineOptions, setting pokertable.TableSetting) (*pokertable.Table, error) {
+	ctb.manager.tableOwners.Store(setting.TableID, ctb)
+	return ctb.TableManagerBackend.CreateTable(options, setting)
+}
+
+func (ctb *competitionTableBackend) ReleaseTable(tableID string) error {
+	err := ctb.TableManagerBackend.ReleaseTable(tableID)
+	if owner, exist := ctb.manager.tableOwners.Load(tableID); exist && owner == ctb {
+		ctb.manager.tableOwners.Delete(tableID)
+	}
+	return err
+}
-- 
2.43.0


From 5f8e69cf31ff1be139432de5f3188154c79d104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:38 +0000
Subject: [PATCH 21/48] fix: the native table backend never announces that a
 table is ready for its first game

---
 native_table_manager_backend.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 87669c0..2c519c5 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -91,6 +91,20 @@ func (ntmb *nativeTableManagerBackend) CreateTable(options *pokertable.TableEngi
 
 		ntmb.onTablePlayerReserved(tableID, &clonePlayerState)
 	}
+	callbacks.OnReadyOpenFirstTableGame = func(competitionID, tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		data, err := json.Marshal(playerStates)
+		if err != nil {
+			return
+		}
+
+		var clonePlayerStates []*pokertable.TablePlayerState
+		err = json.Unmarshal([]byte(data), &clonePlayerStates)
+		if err != nil {
+			return
+		}
+
+		ntmb.onReadyOpenFirstTableGame(tableID, gameCount, clonePlayerStates)
+	}
 
 	table, err := ntmb.manager.CreateTable(options, callbacks, setting)
 	if err != nil {
-- 
2.43.0


From 4a5b76a20f343950993c3d65235274c2c6f7b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:49 +0000
Subject: [PATCH 22/48] fix: a player is shown everybody's cards when the table
 is paused or closed during a hand

---
 actor/player_runner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 66a6bb9..f6f1b0d 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -75,8 +75,8 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 	} else {
 		cloneTable = *table
 	}
-	// hide certain game state fields for player when table game is playing
-	if cloneTable.State.Status == pokertable.TableStateStatus_TableGamePlaying || cloneTable.State.Status == pokertable.TableStateStatus_TableGameSettled {
+	// hide certain game state fields for player whenever there is a game, whatever the table status is
+	if cloneTable.State.GameState != nil {
 		gpIdx := table.GamePlayerIndex(pr.playerID)
 		cloneTable.State.GameState.AsPlayer(gpIdx)
 	}
@@ -128,7 +128,7 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 
 		// Somehow, this player is not in the game.
 		// It probably has no chips already.
-		if gamePlayerIdx == -1 {
+		if gamePlayerIdx == -1 || gs == nil {
 			fmt.Printf("[DEBUG#PlayerRunner#UpdateTableState] [3] No reaction required since player (%s) gamePlayerIdx is -1 at table (%s) when table status is %s.\n", pr.playerID, table.ID, pokertable.TableStateStatus_TableGamePlaying)
 			return nil
 		}
-- 
2.43.0


From ca3ddd031073cfba5eebb7dfb7347c58affeda36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:49 +0000
Subject: [PATCH 23/48] fix: a timeout ends the auto mode that the player has
 switched on

---
 actor/player_runner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index f6f1b0d..71e853c 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -205,8 +205,10 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 			return
 		}
 
-		// Stay idle already
-		pr.Idle()
+		// Stay idle already, unless the player was suspended in the meantime
+		if pr.status != PlayerStatus_Suspend {
+			pr.Idle()
+		}
 
 		// Do default actions if player has no response
 		pr.automate(gs, playerIdx)
-- 
2.43.0


From c632f9ac5a1aa7b79663751da482a9f9d5a2830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:21 +0000
Subject: [PATCH 24/48] fix: a player's request is answered at its time limit
 although the game has gone on

---
 actor/player_runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 71e853c..880b018 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -101,6 +101,9 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 		}
 
 		pr.lastGameStateTime = gs.UpdatedAt
+
+		// The game went on, so that nothing is left to do about an earlier request
+		pr.timebank.Cancel()
 	}
 
 	// Check if you have been eliminated
-- 
2.43.0


From 73aa0e660ccafb55448898df6f339d335664c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:09 +0000
Subject: [PATCH 25/48] fix: a player's action cancels the time limit of the
 next request

---
 actor/player_runner.go | 61 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 880b018..8331b1f 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -3,6 +3,7 @@ package actor
 import (
 	"encoding/json"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/weedbox/pokerface"
@@ -32,6 +33,10 @@ type PlayerRunner struct {
 	onTableGameWagerActionUpdated TableGameWagerActionUpdatedFunc
 	isEventSubscribed             bool
 
+	// request counts the game states, each of which may bring a request of its own
+	mu      sync.Mutex
+	request int
+
 	// status
 	status           PlayerStatus
 	idleCount        int
@@ -103,7 +108,7 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 		pr.lastGameStateTime = gs.UpdatedAt
 
 		// The game went on, so that nothing is left to do about an earlier request
-		pr.timebank.Cancel()
+		pr.nextRequest()
 	}
 
 	// Check if you have been eliminated
@@ -218,6 +223,33 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 	})
 }
 
+// nextRequest ends the time limit of the current request, since the game went on
+func (pr *PlayerRunner) nextRequest() {
+	pr.mu.Lock()
+	defer pr.mu.Unlock()
+
+	pr.request++
+	pr.timebank.Cancel()
+}
+
+func (pr *PlayerRunner) currentRequest() int {
+	pr.mu.Lock()
+	defer pr.mu.Unlock()
+
+	return pr.request
+}
+
+// answered ends the time limit of the request that was answered. The next request
+// may have come already while it was being answered, and keeps its time limit.
+func (pr *PlayerRunner) answered(request int) {
+	pr.mu.Lock()
+	defer pr.mu.Unlock()
+
+	if pr.request == request {
+		pr.timebank.Cancel()
+	}
+}
+
 func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 
 	// Default actions for automation when player has no response
@@ -295,45 +327,49 @@ func (pr *PlayerRunner) Suspend() error {
 
 func (pr *PlayerRunner) Pass() error {
 
+	request := pr.currentRequest()
 	err := pr.actions.Pass()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Ready() error {
 
+	request := pr.currentRequest()
 	err := pr.actions.Ready()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Pay(chips int64) error {
 
+	request := pr.currentRequest()
 	err := pr.actions.Pay(chips)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Check() error {
 
+	request := pr.currentRequest()
 	err := pr.actions.Check()
 	if err != nil {
 		return err
@@ -341,13 +377,14 @@ func (pr *PlayerRunner) Check() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Check, 0)
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Bet(chips int64) error {
 
+	request := pr.currentRequest()
 	err := pr.actions.Bet(chips)
 	if err != nil {
 		return err
@@ -355,7 +392,7 @@ func (pr *PlayerRunner) Bet(chips int64) error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Bet, chips)
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
@@ -369,6 +406,7 @@ func (pr *PlayerRunner) Call() error {
 		wager = pr.tableInfo.State.GameState.Status.CurrentWager - pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
 	}
 
+	request := pr.currentRequest()
 	err := pr.actions.Call()
 	if err != nil {
 		return err
@@ -376,20 +414,21 @@ func (pr *PlayerRunner) Call() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Call, wager)
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Fold() error {
 	pr.Resume()
+	request := pr.currentRequest()
 	err := pr.actions.Fold()
 	if err != nil {
 		return err
 	}
 
 	pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
@@ -402,6 +441,7 @@ func (pr *PlayerRunner) Allin() error {
 		wager = pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize
 	}
 
+	request := pr.currentRequest()
 	err := pr.actions.Allin()
 	if err != nil {
 		return err
@@ -409,13 +449,14 @@ func (pr *PlayerRunner) Allin() error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_AllIn, wager)
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
+	request := pr.currentRequest()
 	err := pr.actions.Raise(chipLevel)
 	if err != nil {
 		return err
@@ -423,7 +464,7 @@ func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
 	pr.idleCount = 0
 	pr.updateWagerAction(pokertable.WagerAction_Raise, chipLevel)
-	pr.timebank.Cancel()
+	pr.answered(request)
 
 	return nil
 }
-- 
2.43.0


From daa519cacd889e85c55c84922e7160c64e0d31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:16 +0000
Subject: [PATCH 26/48] fix: a bot's bet of all its chips is not announced

---
 actor/bot_runner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 9dbff43..2f3ee27 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -295,7 +295,13 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 		minBet := gs.Status.MiniBet
 
 		if player.InitialStackSize <= minBet {
-			return br.actions.Bet(player.InitialStackSize)
+			err := br.actions.Bet(player.InitialStackSize)
+			if err != nil {
+				return err
+			}
+
+			br.updateWagerAction(pokertable.WagerAction_Bet, player.InitialStackSize)
+			return nil
 		}
 
 		chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
-- 
2.43.0


From 5226580e1aaade033b8d7abac78342878fcbbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:35 +0000
Subject: [PATCH 27/48] fix: a bot panics when its table is playing but the
 first game state is still to come

---
 actor/bot_runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 2f3ee27..23e1387 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -134,7 +134,8 @@ func (br *botRunner) UpdateTableState(table *pokertable.Table) error {
 
 	// Somehow, this player is not in the game.
 	// It probably has no chips already or just sat down and have not participated in the game yet
-	if gamePlayerIdx == -1 {
+	// The first state of a game may come later than the status
+	if gamePlayerIdx == -1 || gs == nil {
 		// fmt.Printf("[DEBUG#botRunner#UpdateTableState] [3] No reaction required since bot (%s) gamePlayerIdx is -1 at table (%s) when table status is %s.\n", br.playerID, table.ID, pokertable.TableStateStatus_TableGamePlaying)
 		return nil
 	}
-- 
2.43.0


From ece46410c9f7efce79f3bac7f9bc43ffb08808e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:46 +0000
Subject: [PATCH 28/48] fix: the blind clock announces an error for a level
 after one of unlimited duration

---
 blind/blind.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blind/blind.go b/blind/blind.go
index 9d3eb2c..4055cf2 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -133,6 +133,9 @@ func (b *blind) Start() (*BlindState, error) {
 		if b.bs.Meta.Levels[i].Duration == -1 {
 			// unlimited duration
 			b.bs.Status.LevelEndAts[i] = int64(b.bs.Meta.Levels[i].Duration)
+
+			// levels after it are never reached
+			break
 		} else if b.bs.Meta.Levels[i].Duration > 0 {
 			blindPassedSeconds := int64(b.bs.Meta.Levels[i].Duration)
 			b.bs.Status.LevelEndAts[i] += blindPassedSeconds
-- 
2.43.0


From 0c5b2fa802d75eeee98ab525b49323d63898cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:46 +0000
Subject: [PATCH 29/48] fix: a blind clock without options panics when it is
 started

---
 blind/blind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blind/blind.go b/blind/blind.go
index 4055cf2..d545276 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -156,7 +156,7 @@ func (b *blind) End() {
 }
 
 func (b *blind) IsStarted() bool {
-	return b.bs.IsActive()
+	return b.bs != nil && b.bs.IsActive()
 }
 
 func (b *blind) updateLevel(endAt int64) {
-- 
2.43.0


From e9443b34078cbf8bd39793c0d5029f39e2f0c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:32 +0000
Subject: [PATCH 30/48] fix: a cash player is accepted at a full table and
 never seated

---
 competition_engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 6737070..344594a 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -488,6 +488,11 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 				}
 			}
 		}
+	} else if isBuyIn && len(ce.competition.State.Tables) > 0 {
+		// check cash buy in conditions: every player of a cash game keeps a seat until cashing out
+		if len(ce.competition.State.Players) >= ce.competition.State.Tables[0].Meta.TableMaxSeatCount {
+			return ErrCompetitionBuyInRejected
+		}
 	}
 
 	tableID := ""
-- 
2.43.0


From d5981d45eb2765de6c75f8f3dafffe7224460648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:33 +0000
Subject: [PATCH 31/48] fix: a knocked-out cash player who asks to leave and
 buys in again stays ranked as out

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 344594a..9976671 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -521,7 +521,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	} else {
 		// ReBuy logic
 		cp := ce.competition.State.Players[playerIdx]
-		if cp.Status == CompetitionPlayerStatus_Knockout {
+		if cp.KnockoutAt != UnsetValue {
 			// 現金桌淘汰玩家重新買入，不再列於淘汰排名
 			rankings := make([]*CompetitionRank, 0)
 			for _, ranking := range ce.competition.State.Rankings {
-- 
2.43.0


From f6e09d9e827065f9afb90513a91da2a9afb018d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:45 +0000
Subject: [PATCH 32/48] fix: a competition whose buying in is over at its start
 stays open or never begins advancement

---
 competition_engine_internal.go | 11 ++++++-----
 regulator.go                   |  3 +++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 00c3352..5ca2923 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1197,16 +1197,17 @@ func (ce *competitionEngine) activateBlind() error {
 		return err
 	}
 
-	if ce.competition.Meta.Blind.FinalBuyInLevelIndex == UnsetValue || ce.competition.Meta.Blind.FinalBuyInLevelIndex < NoStopBuyInIndex {
+	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
+	ce.competition.State.BlindState.FinalBuyInLevelIndex = bs.Status.FinalBuyInLevelIndex
+	copy(ce.competition.State.BlindState.EndAts, bs.Status.LevelEndAts)
+
+	if ce.competition.State.BlindState.IsStopBuyIn() {
+		ce.initAdvancement()
 		ce.updateStatus(CompetitionStateStatus_StoppedBuyIn)
 	} else {
 		ce.updateStatus(CompetitionStateStatus_DelayedBuyIn)
 	}
 
-	ce.competition.State.BlindState.CurrentLevelIndex = bs.Status.CurrentLevelIndex
-	ce.competition.State.BlindState.FinalBuyInLevelIndex = bs.Status.FinalBuyInLevelIndex
-	copy(ce.competition.State.BlindState.EndAts, bs.Status.LevelEndAts)
-
 	ce.emitEvent("ActivateBlind", "")
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_BlindActivated)
 	return nil
diff --git a/regulator.go b/regulator.go
index 34e1e79..d0c218a 100644
--- a/regulator.go
+++ b/regulator.go
@@ -117,6 +117,9 @@ func (ce *competitionEngine) activateRegulator() {
 
 	// 啟動拆併桌程式
 	ce.regulator.SetStatus(regulator.CompetitionStatus_Normal)
+	if ce.competition.State.BlindState.IsStopBuyIn() {
+		ce.regulator.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
+	}
 	ce.isRegulatorStarted = true
 }
 
-- 
2.43.0


From 1b287e22d5619ab00abe2a177335725cf8501b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:45 +0000
Subject: [PATCH 33/48] fix: a cash player whom the table does not let go is
 paid out and plays on

---
 competition_engine_internal.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 5ca2923..c7f9f50 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -548,6 +548,16 @@ func (ce *competitionEngine) handleCashOut(tableID string, leavePlayerIndexes ma
 	// TableEngine Player Leave
 	if err := ce.tableManagerBackend.PlayersLeave(tableID, leavePlayerIDs); err != nil {
 		ce.emitErrorEvent("handleCashOut -> PlayersLeave", strings.Join(leavePlayerIDs, ","), err)
+
+		// 仍在桌上的玩家不能結算，等下次結算時再離開
+		for _, leavePlayerID := range leavePlayerIDs {
+			if ce.isPlayerAtTable(tableID, leavePlayerID) {
+				delete(leavePlayerIndexes, leavePlayerID)
+			}
+		}
+		if len(leavePlayerIndexes) == 0 {
+			return
+		}
 	}
 
 	// Cash Out
@@ -572,6 +582,15 @@ func (ce *competitionEngine) handleCashOut(tableID string, leavePlayerIndexes ma
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CashOutPlayers)
 }
 
+func (ce *competitionEngine) isPlayerAtTable(tableID, playerID string) bool {
+	for _, table := range ce.competition.State.Tables {
+		if table.ID == tableID && table.FindPlayerIdx(playerID) != UnsetValue {
+			return true
+		}
+	}
+	return false
+}
+
 func (ce *competitionEngine) handleBreaking(tableID string) {
 	if !ce.competition.IsBreaking() {
 		fmt.Println("[DEBUG#handleBreaking] is not breaking. TableID:", tableID)
-- 
2.43.0


From 5976251e19c910d092b0b6977ce103bc248a8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:45 +0000
Subject: [PATCH 34/48] fix: a refund that the table refuses is half done

---
 competition_engine.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 9976671..48c0c33 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -680,6 +680,18 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		playerTableID = player.CurrentTableID
 	}
 
+	// call tableEngine
+	if playerTableID != "" {
+		if err := ce.tableManagerBackend.PlayersLeave(playerTableID, []string{playerID}); err != nil {
+			ce.emitErrorEvent("PlayerRefund -> PlayersLeave", playerID, err)
+
+			// 仍在桌上的玩家不能退賽
+			if ce.isPlayerAtTable(playerTableID, playerID) {
+				return err
+			}
+		}
+	}
+
 	// refund logic
 	if ce.competition.IsModeCTorMTT() {
 		ce.competition.State.Statistic.TotalBuyInCount -= player.TotalBuyInUnits
@@ -702,13 +714,6 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	}
 	ce.waitingPlayers = waitingPlayers
 
-	// call tableEngine
-	if playerTableID != "" {
-		if err := ce.tableManagerBackend.PlayersLeave(playerTableID, []string{playerID}); err != nil {
-			return err
-		}
-	}
-
 	return nil
 }
 
-- 
2.43.0


From cc7c0344566f5f1d5c9368ec0fe173a31f7b6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:54 +0000
Subject: [PATCH 35/48] fix: a multi-table tournament ends while several
 players have chips

The end was decided by the table whose hand settled: one player left at it and
one table left. When that table was the one just merged away, the tournament
ended although the other table still played.
---
 competition_engine_internal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index c7f9f50..74c35b6 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -382,7 +382,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 		ce.handleMTTTableSettlementNextStep(table, alivePlayerIDs, zeroChipPlayerIDs)
 
 		// 判斷是否要關閉賽事
-		shouldCloseCompetition = !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1
+		shouldCloseCompetition = !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && ce.competition.PlayingPlayerCount() == 1
 	}
 
 	return shouldCloseCompetition
-- 
2.43.0


From 2ebe8efc7776ea2dba9fe6149c487ad51012d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:45 +0000
Subject: [PATCH 36/48] fix: the re-buy timer sends players away after the
 competition has ended

---
 competition_engine_internal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 74c35b6..f382db7 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -761,6 +761,11 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 			ce.mu.Lock()
 			defer ce.mu.Unlock()
 
+			// 賽事已結束，不再處理
+			if ce.isEndStatus() {
+				return
+			}
+
 			leavePlayerIDs := make([]string, 0)
 			leavePlayerIndexes := make(map[string]int)
 			for _, reBuyPlayerID := range reBuyPlayerIDs {
-- 
2.43.0


From 6a1d6c7d490d404de0758643b3904ca578959aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:45 +0000
Subject: [PATCH 37/48] fix: a player of a competition that was closed before
 it began cannot be refunded

---
 competition_engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 48c0c33..5309622 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -682,7 +682,8 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 
 	// call tableEngine
 	if playerTableID != "" {
-		if err := ce.tableManagerBackend.PlayersLeave(playerTableID, []string{playerID}); err != nil {
+		// 賽事結束後桌次已釋放，離桌失敗不影響退賽
+		if err := ce.tableManagerBackend.PlayersLeave(playerTableID, []string{playerID}); err != nil && !ce.isEndStatus() {
 			ce.emitErrorEvent("PlayerRefund -> PlayersLeave", playerID, err)
 
 			// 仍在桌上的玩家不能退賽
-- 
2.43.0


From 86a389279a4e89fddf66627839258364bee9efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:45 +0000
Subject: [PATCH 38/48] fix: a table whose first hand was due when a break
 began never plays

---
 competition_engine_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index f382db7..d2dd973 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -644,7 +644,8 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 				return
 			}
 
-			if t.State.GameCount > 0 {
+			// 已開局的桌次 (包含尚未打第一手) 設定下一手
+			if t.State.GameCount > 0 || t.State.StartAt != UnsetValue {
 				nextGameCount := t.State.GameCount + 1
 				participants := ce.generateAliveParticipants(t.State.PlayerStates)
 				ce.tableManagerBackend.SetUpTableGame(tableID, nextGameCount, participants)
-- 
2.43.0


From b9afe53c31ff82e46400cc0a8e9a917b049cbb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:31 +0000
Subject: [PATCH 39/48] fix: a break that ends while a hand is still being
 played sets up the next hand in the middle of it

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index d2dd973..e306e20 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -638,6 +638,12 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 		if len(ce.competition.State.Tables) > tableIdx && tableIdx >= 0 {
 			t := ce.competition.State.Tables[tableIdx]
 
+			// 該手仍在進行中，結算後桌次會自動開下一手
+			if t.State.Status == pokertable.TableStateStatus_TableGameOpened || t.State.Status == pokertable.TableStateStatus_TableGamePlaying {
+				fmt.Println("[DEBUG#handleBreaking] table is still playing. TableID:", tableID)
+				return
+			}
+
 			autoOpenGame := len(t.AlivePlayers()) >= t.Meta.TableMinPlayerCount
 			if !autoOpenGame {
 				fmt.Println("[DEBUG#handleBreaking] not auto reopen table from breaking. TableID:", tableID, " Alive Players:", len(t.AlivePlayers()))
-- 
2.43.0


From e53f3190005bca65c099cfd97f081e20b6f9d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:30 +0000
Subject: [PATCH 40/48] fix: a table is resumed during a second break that
 follows the first, and never after it

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index e306e20..c5a1068 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -627,6 +627,12 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
+		// 下一個盲注等級也是中場休息，等到它結束後再繼續
+		if ce.competition.IsBreaking() {
+			ce.handleBreaking(tableID)
+			return
+		}
+
 		if ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] {
 			fmt.Println("[DEBUG#handleBreaking] 2 already resume table games from breaking. TableID:", tableID)
 			return
-- 
2.43.0


From f3fcce0050d670af934651a187d5f3acbd3f0dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:38 +0000
Subject: [PATCH 41/48] fix: a single-table tournament that was paused when
 buying in closed never goes on

---
 competition_engine_internal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index c5a1068..cf4ecdb 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -137,7 +137,9 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 
 	switch ce.competition.Meta.Mode {
 	case CompetitionMode_CT:
-		shouldReOpenGame = ce.competition.State.Status == CompetitionStateStatus_DelayedBuyIn && readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
+		// 停止買入前就暫停的桌次，停止買入後人數足夠時也要繼續
+		isPlaying := ce.competition.State.Status == CompetitionStateStatus_DelayedBuyIn || ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn
+		shouldReOpenGame = isPlaying && readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
 
 	case CompetitionMode_Cash:
 		shouldReOpenGame = readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
-- 
2.43.0


From b6cd314745f656564bc9411b45e72f8483835e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:48 +0000
Subject: [PATCH 42/48] fix: a knocked-out cash player who asks to leave is
 knocked out again instead of leaving

---
 rank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rank.go b/rank.go
index ce38b3e..b7ce35a 100644
--- a/rank.go
+++ b/rank.go
@@ -89,7 +89,7 @@ func (ce *competitionEngine) GetSortedTableSettlementKnockoutPlayerRankings(tabl
 		if playerIdx, exist := playerIndexMap[p.PlayerID]; exist {
 			player := ce.competition.State.Players[playerIdx]
 			allowToReBuy = player.ReBuyTimes < ce.competition.Meta.ReBuySetting.MaxTime
-			isAlreadyKnockout = player.Status == CompetitionPlayerStatus_Knockout
+			isAlreadyKnockout = player.KnockoutAt != UnsetValue // 淘汰後要求離開的現金桌玩家也算
 		}
 		if !ce.competition.State.BlindState.IsStopBuyIn() && allowToReBuy {
 			continue
-- 
2.43.0


From 0ebd842c9f9db1590b7311b702832b280bfe1088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:23 +0000
Subject: [PATCH 43/48] fix: a cash player cannot leave a paused table once
 buying in is closed

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 5309622..1281661 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -744,7 +744,7 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	// 尚未開賽時 or 已經開賽但是賽事只剩一人，則直接結算，玩家直接離桌結算
 	competitionNotStart := ce.competition.State.Status == CompetitionStateStatus_Registering
 	pauseCompetition := false
-	if ce.competition.State.Status == CompetitionStateStatus_DelayedBuyIn && len(ce.competition.State.Tables) > 0 {
+	if !competitionNotStart && !ce.isEndStatus() && len(ce.competition.State.Tables) > 0 {
 		if ce.competition.State.Tables[0].State.Status == pokertable.TableStateStatus_TablePausing {
 			pauseCompetition = true
 		}
-- 
2.43.0


From 501c25c6642efe2ad11c95c32d889857d2052568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:43 +0000
Subject: [PATCH 44/48] fix: a knocked-out cash player who left and buys in
 again is ranked twice

---
 competition_engine.go          | 10 +++-------
 competition_engine_internal.go | 10 ++++++++++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 1281661..34ab993 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -510,6 +510,8 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 
 	// do logic
 	if isBuyIn {
+		// 現金桌淘汰玩家離開後重新買入，不再列於淘汰排名
+		ce.deleteRanking(joinPlayer.PlayerID)
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
 		ce.competition.State.Players = append(ce.competition.State.Players, &player)
 		if ce.competition.IsModeCTorMTT() {
@@ -523,13 +525,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		cp := ce.competition.State.Players[playerIdx]
 		if cp.KnockoutAt != UnsetValue {
 			// 現金桌淘汰玩家重新買入，不再列於淘汰排名
-			rankings := make([]*CompetitionRank, 0)
-			for _, ranking := range ce.competition.State.Rankings {
-				if ranking.PlayerID != cp.PlayerID {
-					rankings = append(rankings, ranking)
-				}
-			}
-			ce.competition.State.Rankings = rankings
+			ce.deleteRanking(cp.PlayerID)
 			cp.KnockoutAt = UnsetValue
 		}
 		cp.Status = playerStatus
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cf4ecdb..4156d78 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -223,6 +223,16 @@ func (ce *competitionEngine) deletePlayer(playerIdx int) {
 	ce.competition.State.Players = append(ce.competition.State.Players[:playerIdx], ce.competition.State.Players[playerIdx+1:]...)
 }
 
+func (ce *competitionEngine) deleteRanking(playerID string) {
+	rankings := make([]*CompetitionRank, 0)
+	for _, ranking := range ce.competition.State.Rankings {
+		if ranking.PlayerID != playerID {
+			rankings = append(rankings, ranking)
+		}
+	}
+	ce.competition.State.Rankings = rankings
+}
+
 /*
 closeCompetitionTable 桌次關閉
   - 適用時機: 桌次結束已發生
-- 
2.43.0


From 279903e88e07b1456d5d0c4cbfcbf3b725f54bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:25 +0000
Subject: [PATCH 45/48] fix: a table that has played its closing hand before
 the advancement deals again after a break

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 4156d78..257d7ef 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -639,6 +639,12 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
+		// 已打完最後一手等待晉級的桌次，不再繼續
+		if funk.ContainsString(ce.competition.State.AdvanceState.UpdatedTableIDs, tableID) {
+			fmt.Println("[DEBUG#handleBreaking] not reopen since table is waiting for advancement. TableID:", tableID)
+			return
+		}
+
 		// 下一個盲注等級也是中場休息，等到它結束後再繼續
 		if ce.competition.IsBreaking() {
 			ce.handleBreaking(tableID)
-- 
2.43.0


From ed413dc26f350ea92ded9ce2637936cc2df6dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:01 +0000
Subject: [PATCH 46/48] fix: a break after the level of the advancement
 suspends the advancement

---
 competition.go                 | 10 ++++++++++
 competition_engine_internal.go |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/competition.go b/competition.go
index cd8eb6d..51045cf 100644
--- a/competition.go
+++ b/competition.go
@@ -279,6 +279,16 @@ func (c Competition) CurrentBlindLevel() BlindLevel {
 	return c.Meta.Blind.Levels[c.State.BlindState.CurrentLevelIndex]
 }
 
+// ReachedBlindLevel 目前已達到的盲注等級 (中場休息時為休息前的等級)
+func (c Competition) ReachedBlindLevel() int {
+	for idx := c.State.BlindState.CurrentLevelIndex; idx >= 0; idx-- {
+		if level := c.Meta.Blind.Levels[idx].Level; level != -1 {
+			return level
+		}
+	}
+	return c.CurrentBlindLevel().Level
+}
+
 func (c Competition) CurrentBlindData() (int, int64, int64, int64, int64) {
 	bl := c.CurrentBlindLevel()
 	dealer := int64(0)
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 257d7ef..78ab256 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -357,7 +357,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 
 		switch ce.competition.Meta.AdvanceSetting.Rule {
 		case CompetitionAdvanceRule_BlindLevel:
-			if ce.competition.CurrentBlindLevel().Level >= ce.competition.Meta.AdvanceSetting.BlindLevel {
+			if ce.competition.ReachedBlindLevel() >= ce.competition.Meta.AdvanceSetting.BlindLevel {
 				shouldAdvancePauseTableGame = true
 			}
 		case CompetitionAdvanceRule_PlayerCount:
-- 
2.43.0


From 4bcae28f9dd6df74785abc4b8b726b69f70b39f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:03 +0000
Subject: [PATCH 47/48] fix: an initial blind level that does not exist makes
 the start panic

---
 blind/blind.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blind/blind.go b/blind/blind.go
index d545276..1526401 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -13,6 +13,7 @@ var (
 	ErrBlindNoOptions      = errors.New("blind: options not available")
 	ErrBlindNoState        = errors.New("blind: state not available")
 	ErrBlindAlreadyStarted = errors.New("blind: already started")
+	ErrBlindLevelNotFound  = errors.New("blind: level not found")
 )
 
 type Blind interface {
@@ -100,8 +101,13 @@ func (b *blind) UpdateInitialLevel(level int) error {
 		return ErrBlindNoState
 	}
 
-	b.bs.Meta.InitialLevel = level
-	return nil
+	for _, bl := range b.bs.Meta.Levels {
+		if bl.Level == level {
+			b.bs.Meta.InitialLevel = level
+			return nil
+		}
+	}
+	return ErrBlindLevelNotFound
 }
 
 func (b *blind) Start() (*BlindState, error) {
-- 
2.43.0


From e330ed1b634f247b2130a8c6545ef44487107369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:03 +0000
Subject: [PATCH 48/48] fix: a player who joins a table that waits for the
 advancement makes it deal again

---
 competition_engine_internal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 78ab256..b6ff5d0 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -148,6 +148,11 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 		shouldReOpenGame = readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
 	}
 
+	// 已打完最後一手等待晉級的桌次，不再繼續
+	if funk.ContainsString(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID) {
+		shouldReOpenGame = false
+	}
+
 	// re-open game
 	if shouldReOpenGame && !ce.competition.IsBreaking() {
 		nextGameCount := table.State.GameCount + 1
-- 
2.43.0

