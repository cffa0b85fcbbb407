From cd5c760d0085445fa8b27c43e0f39702ba5d25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 01/31] fix: validate player operations under the lock that
 applies them

PlayerBuyIn, PlayerAddon, PlayerRefund and PlayerQuit checked their conditions
before taking ce.mu, so two concurrent calls could both pass a limit.
---
 competition_engine.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index a0bd264..5b90f60 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -397,6 +397,9 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		return ErrCompetitionNoRedeemChips
 	}
 
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
@@ -463,7 +466,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 	var competitionPlayer *CompetitionPlayer
 
 	// do logic
-	ce.mu.Lock()
 	if isBuyIn {
 		player := ce.newDefaultCompetitionPlayerData(tableID, joinPlayer.PlayerID, joinPlayer.RedeemChips, playerStatus, joinPlayer.Unit)
 		ce.competition.State.Players = append(ce.competition.State.Players, &player)
@@ -498,7 +500,6 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		ce.refreshPlayerCompetitionRanks()
 		competitionPlayer = cp
 	}
-	defer ce.mu.Unlock()
 
 	if isBuyIn {
 		ce.emitEvent(fmt.Sprintf("PlayerBuyIn -> %s Buy In", joinPlayer.PlayerID), joinPlayer.PlayerID)
@@ -544,6 +545,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		return ErrCompetitionNoRedeemChips
 	}
 
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == joinPlayer.PlayerID
 	})
@@ -566,7 +570,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 
 	// do logic
-	ce.mu.Lock()
 	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
 	cp.AddonTimes++
@@ -575,7 +578,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		ce.competition.State.Statistic.TotalAddonCount += joinPlayer.Unit
 	}
 	ce.refreshPlayerCompetitionRanks()
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerAddon", joinPlayer.PlayerID)
@@ -596,6 +598,9 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 }
 
 func (ce *competitionEngine) PlayerRefund(playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate refund conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
@@ -618,13 +623,11 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 	}
 
 	// refund logic
-	ce.mu.Lock()
 	if ce.competition.IsModeCTorMTT() {
 		ce.competition.State.Statistic.TotalBuyInCount -= player.TotalBuyInUnits
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
-	defer ce.mu.Unlock()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
@@ -688,6 +691,9 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 }
 
 func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate quit conditions
 	// CT Only
 	if ce.competition.Meta.Mode != CompetitionMode_CT {
@@ -717,13 +723,11 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		fmt.Printf("[DEBUG#PlayerQuit] PlayersLeave Error: %+v. CompetitionID: %s, TableID: %s, PlayerID: %s", err, ce.competition.ID, tableID, playerID)
 		// ce.emitErrorEvent("Player Quit Knockout Players -> PlayersLeave", playerID, err)
 	} else {
-		ce.mu.Lock()
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = CompetitionPlayerStatus_ReBuyWaiting
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.CurrentSeat = UnsetValue
-		ce.mu.Unlock()
 
 		ce.emitPlayerEvent("quit knockout", cp)
 		ce.emitEvent("Player Quit", "")
-- 
2.43.0


From 62abccfeb88e5e80f141393f3e8a7254998424f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 02/31] fix: settling a table must not take ce.mu

A table manager that reports a settled hand from inside PlayerReserve or
PlayerRedeemChips deadlocked, as those are called with ce.mu held.
---
 competition_engine_internal.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index cf1d2f8..3aac572 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -223,13 +223,9 @@ settleCompetitionTable 桌次結算
 */
 func (ce *competitionEngine) settleCompetitionTable(table pokertable.Table, tableIdx int) {
 	gameSettledRecordID := fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)
-	ce.mu.Lock()
-	if isGameSettled, ok := ce.gameSettledRecords.Load(gameSettledRecordID); ok && isGameSettled.(bool) {
-		ce.mu.Unlock()
+	if _, settled := ce.gameSettledRecords.LoadOrStore(gameSettledRecordID, true); settled {
 		return
 	}
-	ce.gameSettledRecords.Store(gameSettledRecordID, true)
-	ce.mu.Unlock()
 
 	// 更新玩家相關賽事數據
 	ce.updatePlayerCompetitionTableRecords(table)
-- 
2.43.0


From de934302d8de8688ae95de004093620d694bef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 03/31] fix: a cash top-up adds to the player's chips

A further buy-in of a cash player with chips replaced the chips he held.
---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index 5b90f60..aad14c0 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -480,7 +480,7 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 		cp := ce.competition.State.Players[playerIdx]
 		cp.Status = playerStatus
 		cp.ReBuyWaitingAt = UnsetValue
-		cp.Chips = joinPlayer.RedeemChips
+		cp.Chips += joinPlayer.RedeemChips
 		cp.ReBuyTimes++
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
-- 
2.43.0


From 5964dee699ead742f9f4c2cbdeafecc23e80475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 04/31] fix: an ended competition cannot be started

---
 competition_engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/competition_engine.go b/competition_engine.go
index aad14c0..a0b35d1 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -331,7 +331,7 @@ StartCompetition 開賽
   - 適用時機: MTT 手動開賽、MTT 自動開賽、CT 開賽
 */
 func (ce *competitionEngine) StartCompetition() (int64, error) {
-	if ce.isStarted {
+	if ce.isStarted || ce.isEndStatus() {
 		return ce.competition.State.StartAt, ErrCompetitionStartRejected
 	}
 
-- 
2.43.0


From 2b70c802c0ccf1d0d4f1491bd55fc6d9089e348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 05/31] fix: seat MTT players by the configured table size

The regulator kept its default of nine players per table.
---
 competition_engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine.go b/competition_engine.go
index a0b35d1..4bbe234 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -251,6 +251,7 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 		// 初始化拆併桌監管器
 		if ce.regulator == nil {
 			ce.regulator = regulator.NewRegulator(
+				regulator.MaxPlayersPerTable(competitionSetting.Meta.TableMaxSeatCount),
 				regulator.MinInitialPlayers(competitionSetting.Meta.RegulatorMinInitialPlayerCount),
 				regulator.WithRequestTableFn(func(playerIDs []string) (string, error) {
 					return ce.regulatorCreateAndDistributePlayers(playerIDs)
-- 
2.43.0


From ff4b9264f2e89dd1ce45b7c6c54c71be1db421d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 06/31] fix: keep player counters and ranks in step when
 players leave or change status

After a refund, cash-out, quit or table assignment the statistics kept counting
the player in his old status: a CT at its seat limit refused a new player after
a refund.
---
 competition_engine.go          | 5 +++++
 competition_engine_internal.go | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 4bbe234..4411aa7 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -629,6 +629,8 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 		ce.competition.State.Players[playerIdx].TotalBuyInUnits = 0
 	}
 	ce.deletePlayer(playerIdx)
+	ce.refreshPlayerStatusStatistics()
+	ce.refreshPlayerCompetitionRanks()
 
 	// emit events
 	ce.emitEvent("PlayerRefund", playerID)
@@ -669,6 +671,7 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 	// update player status
 	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("PlayerCashOut -> Cash Leaving", cp)
 
 	// 尚未開賽時 or 已經開賽但是賽事只剩一人，則直接結算，玩家直接離桌結算
@@ -729,6 +732,7 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		cp.IsReBuying = false
 		cp.ReBuyEndAt = UnsetValue
 		cp.CurrentSeat = UnsetValue
+		ce.refreshPlayerStatusStatistics()
 
 		ce.emitPlayerEvent("quit knockout", cp)
 		ce.emitEvent("Player Quit", "")
@@ -749,6 +753,7 @@ func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playe
 	cp.CurrentSeat = playerState.Seat
 	cp.CurrentTableID = tableID
 	cp.Status = CompetitionPlayerStatus_Playing
+	ce.refreshPlayerStatusStatistics()
 	ce.emitPlayerEvent("[UpdateReserveTablePlayerState] player table seat updated", cp)
 	ce.emitEvent(fmt.Sprintf("[UpdateReserveTablePlayerState] player (%s) is reserved to table (%s) at seat (%d)", cp.PlayerID, cp.CurrentTableID, cp.CurrentSeat), cp.PlayerID)
 }
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 3aac572..7ef88cc 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -541,6 +541,8 @@ func (ce *competitionEngine) handleCashOut(tableID string, leavePlayerIndexes ma
 		}
 	}
 	ce.competition.State.Players = newPlayers
+	ce.refreshPlayerStatusStatistics()
+	ce.refreshPlayerCompetitionRanks()
 
 	// Emit Event
 	ce.emitCompetitionStateEvent(CompetitionStateEvent_CashOutPlayers)
-- 
2.43.0


From 1b80d801b00673a2f3f9941210e53281cfcafcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 07/31] fix: a knocked-out player cannot quit

Quitting moved him back to waiting for a re-buy, so he was knocked out and
ranked a second time when the buy-in stopped.
---
 competition_engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 4411aa7..91c1239 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -718,6 +718,11 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		return ErrCompetitionQuitRejected
 	}
 
+	// 已淘汰玩家不能再棄賽
+	if ce.competition.State.Players[playerIdx].Status == CompetitionPlayerStatus_Knockout {
+		return ErrCompetitionQuitRejected
+	}
+
 	// 停止買入時會自動淘汰沒籌碼玩家，不讓玩家主動棄賽
 	if ce.competition.State.BlindState.IsStopBuyIn() {
 		return ErrCompetitionQuitRejected
-- 
2.43.0


From 363ec77203ef51513939873f1a820dbebfb4478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 08/31] fix: no add-on for a player without a stack or after
 the end

A knocked-out player, or one waiting for a re-buy, got chips by an add-on.
---
 competition_engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 91c1239..f99ff7f 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -566,6 +566,10 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 
 	cp := ce.competition.State.Players[playerIdx]
+	if ce.isEndStatus() || cp.Status == CompetitionPlayerStatus_Knockout || cp.Status == CompetitionPlayerStatus_ReBuyWaiting {
+		return ErrCompetitionAddonRejected
+	}
+
 	if cp.AddonTimes >= ce.competition.Meta.AddonSetting.MaxTime {
 		return ErrCompetitionExceedAddonLimit
 	}
-- 
2.43.0


From 6ff4c8ef56cc3d40fc5abc7205cdfdeab002dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 09/31] fix: an add-on refused by the table must not count

PlayerAddon returned the table's error but kept the chips and the add-on.
---
 competition_engine.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index f99ff7f..eb9806c 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -575,6 +575,7 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 
 	// do logic
+	previousTableID := cp.CurrentTableID
 	cp.CurrentTableID = tableID
 	cp.Chips += joinPlayer.RedeemChips
 	cp.AddonTimes++
@@ -584,11 +585,6 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 	}
 	ce.refreshPlayerCompetitionRanks()
 
-	// emit events
-	ce.emitEvent("PlayerAddon", joinPlayer.PlayerID)
-	ce.emitPlayerEvent("PlayerAddon", cp)
-	ce.emitCompetitionStateEvent(CompetitionStateEvent_CompetitionStatisticUpdated)
-
 	// call tableEngine
 	jp := pokertable.JoinPlayer{
 		PlayerID:    joinPlayer.PlayerID,
@@ -596,9 +592,23 @@ func (ce *competitionEngine) PlayerAddon(tableID string, joinPlayer JoinPlayer)
 		Seat:        pokertable.UnsetValue,
 	}
 	if err := ce.tableManagerBackend.PlayerRedeemChips(tableID, jp); err != nil {
+		// the table did not hand out the chips: take the add-on back
+		cp.CurrentTableID = previousTableID
+		cp.Chips -= joinPlayer.RedeemChips
+		cp.AddonTimes--
+		cp.TotalRedeemChips -= joinPlayer.RedeemChips
+		if ce.competition.IsModeCTorMTT() {
+			ce.competition.State.Statistic.TotalAddonCount -= joinPlayer.Unit
+		}
+		ce.refreshPlayerCompetitionRanks()
 		return err
 	}
 
+	// emit events
+	ce.emitEvent("PlayerAddon", joinPlayer.PlayerID)
+	ce.emitPlayerEvent("PlayerAddon", cp)
+	ce.emitCompetitionStateEvent(CompetitionStateEvent_CompetitionStatisticUpdated)
+
 	return nil
 }
 
-- 
2.43.0


From 2c7b33a5c53264f8d602babbbb91b3f7e12069c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 10/31] fix: blind.Start reports a missing schedule or initial
 level

It panicked with a nil state or an index of -1.
---
 blind/blind.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/blind/blind.go b/blind/blind.go
index 9d3eb2c..9c8daf1 100644
--- a/blind/blind.go
+++ b/blind/blind.go
@@ -13,6 +13,7 @@ var (
 	ErrBlindNoOptions      = errors.New("blind: options not available")
 	ErrBlindNoState        = errors.New("blind: state not available")
 	ErrBlindAlreadyStarted = errors.New("blind: already started")
+	ErrBlindInvalidLevel   = errors.New("blind: initial level not available")
 )
 
 type Blind interface {
@@ -113,15 +114,21 @@ func (b *blind) Start() (*BlindState, error) {
 		return nil, ErrBlindNoOptions
 	}
 
-	startAt := time.Now()
-	b.bs.StartedAt = startAt.Unix()
-	b.isEnd = false
-
+	initialLevelIndex := UnsetValue
 	for idx, bl := range b.bs.Meta.Levels {
 		if bl.Level == b.bs.Meta.InitialLevel {
-			b.bs.Status.CurrentLevelIndex = idx
+			initialLevelIndex = idx
 		}
 	}
+	if initialLevelIndex == UnsetValue {
+		return nil, ErrBlindInvalidLevel
+	}
+
+	startAt := time.Now()
+	b.bs.StartedAt = startAt.Unix()
+	b.isEnd = false
+
+	b.bs.Status.CurrentLevelIndex = initialLevelIndex
 
 	for i := (b.bs.Status.CurrentLevelIndex); i < len(b.bs.Meta.Levels); i++ {
 		if i == b.bs.Status.CurrentLevelIndex {
@@ -153,7 +160,7 @@ func (b *blind) End() {
 }
 
 func (b *blind) IsStarted() bool {
-	return b.bs.IsActive()
+	return b.bs != nil && b.bs.IsActive()
 }
 
 func (b *blind) updateLevel(endAt int64) {
-- 
2.43.0


From eee81fe18c98a686a4b01cc8cdf81c67f67162f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 11/31] fix: start the advancement of an MTT without late
 buy-in

Its status is stopped-buy-in from the start, so the transition that initialises
the advancement never ran.
---
 competition_engine_internal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 7ef88cc..25205d5 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -1127,6 +1127,7 @@ func (ce *competitionEngine) activateBlind() error {
 	}
 
 	if ce.competition.Meta.Blind.FinalBuyInLevelIndex == UnsetValue || ce.competition.Meta.Blind.FinalBuyInLevelIndex < NoStopBuyInIndex {
+		ce.initAdvancement()
 		ce.competition.State.Status = CompetitionStateStatus_StoppedBuyIn
 	} else {
 		ce.competition.State.Status = CompetitionStateStatus_DelayedBuyIn
-- 
2.43.0


From ca154cf57532cd219894f42916f0514664eeb68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 12/31] fix: do not resume tables between two consecutive
 breaks

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 25205d5..5a1e222 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -572,6 +572,7 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 	}
 
 	// reopen table game
+	breakLevelIdx := ce.competition.State.BlindState.CurrentLevelIndex
 	endAt := ce.competition.State.BlindState.EndAts[ce.competition.State.BlindState.CurrentLevelIndex] + 1
 	if err := timebank.NewTimeBank().NewTaskWithDeadline(time.Unix(endAt, 0), func(isCancelled bool) {
 		if isCancelled {
@@ -584,6 +585,11 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
+		// another break follows: its own timer resumes the table
+		if ce.competition.State.BlindState.CurrentLevelIndex != breakLevelIdx && ce.competition.IsBreaking() {
+			return
+		}
+
 		if ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex] {
 			fmt.Println("[DEBUG#handleBreaking] 2 already resume table games from breaking. TableID:", tableID)
 			return
-- 
2.43.0


From cdcf9db5451e4155abb72718cb75a63b28e878a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:59 +0000
Subject: [PATCH 13/31] fix: seat the MTT player whose buy-in reaches the
 minimum

The buy-in that activated the regulator of a started MTT was not queued, so its
player was never seated.
---
 competition_engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index eb9806c..d591207 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -528,11 +528,10 @@ func (ce *competitionEngine) PlayerBuyIn(joinPlayer JoinPlayer) error {
 			// 開賽後且達到開賽最低人數之後，丟到拆併桌程式
 			ce.regulatorAddPlayers([]string{joinPlayer.PlayerID})
 		} else {
+			// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
+			ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			if ce.shouldActivateRegulator() {
 				ce.activateRegulator()
-			} else {
-				// 開賽前 or 開賽後且尚未達到開賽最低人數之前，都把玩家放到等待佇列
-				ce.waitingPlayers = append(ce.waitingPlayers, joinPlayer.PlayerID)
 			}
 		}
 	}
-- 
2.43.0


From b608345a144cec0a55902ffc977fadafe225ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:43 +0000
Subject: [PATCH 14/31] fix: count showdown winning chances and wins

---
 competition_engine_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 5a1e222..1138d1d 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -864,6 +864,12 @@ func (ce *competitionEngine) updatePlayerCompetitionTableRecords(table pokertabl
 		if player.GameStatistics.IsFtCB {
 			cp.TotalFtCBTimes++
 		}
+		if player.GameStatistics.ShowdownWinningChance {
+			cp.TotalShowdownWinningChances++
+		}
+		if player.GameStatistics.IsShowdownWinning {
+			cp.TotalShowdownWinningTimes++
+		}
 	}
 
 	// 更新贏家統計數據
-- 
2.43.0


From 46bcedda08f3dcadd0e1ff4491883157102b911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 15/31] fix: an ended competition takes no more quits,
 cash-outs or window expiries

---
 competition_engine.go          | 10 ++++++++++
 competition_engine_internal.go |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index d591207..005aba6 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -681,6 +681,11 @@ func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
 		return ErrCompetitionLeaveRejected
 	}
 
+	// 賽事結束後不再結算
+	if ce.isEndStatus() {
+		return ErrCompetitionLeaveRejected
+	}
+
 	// update player status
 	cp := ce.competition.State.Players[playerIdx]
 	cp.Status = CompetitionPlayerStatus_CashLeaving
@@ -717,6 +722,11 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 		return ErrCompetitionQuitRejected
 	}
 
+	// 賽事結束後不能再棄賽
+	if ce.isEndStatus() {
+		return ErrCompetitionQuitRejected
+	}
+
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
 	})
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 1138d1d..2b1da18 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -721,6 +721,11 @@ func (ce *competitionEngine) handleReBuy(table pokertable.Table) {
 				return
 			}
 
+			// 賽事已結算，不再處理
+			if ce.isEndStatus() {
+				return
+			}
+
 			leavePlayerIDs := make([]string, 0)
 			leavePlayerIndexes := make(map[string]int)
 			for _, reBuyPlayerID := range reBuyPlayerIDs {
-- 
2.43.0


From b5013ca08f99c58f2da5e6327b69d5f012f8a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 16/31] fix: a scheduled or manually started CT or cash game
 starts its blinds and table

---
 competition_engine.go          | 10 +++++++++-
 competition_engine_internal.go | 20 ++++++++++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index 005aba6..c108f54 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -273,7 +273,15 @@ func (ce *competitionEngine) CreateCompetition(competitionSetting CompetitionSet
 			}
 
 			if ce.competition.State.Status == CompetitionStateStatus_Registering {
-				ce.StartCompetition()
+				switch ce.competition.Meta.Mode {
+				case CompetitionMode_CT, CompetitionMode_Cash:
+					// starts as soon as the table has enough players
+					if len(ce.competition.State.Tables) > 0 {
+						ce.handleCompetitionTableCreated(*ce.competition.State.Tables[0], 0)
+					}
+				default:
+					ce.StartCompetition()
+				}
 			}
 		}); err != nil {
 			return nil, err
diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 2b1da18..0caa4dc 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -67,10 +67,12 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 			return
 		}
 
-		// auto start game if condition is reached
-		if _, err := ce.StartCompetition(); err != nil {
-			ce.emitErrorEvent("CT Auto StartCompetition", "", err)
-			return
+		// auto start game if condition is reached (unless it was started by hand)
+		if !ce.isStarted {
+			if _, err := ce.StartCompetition(); err != nil {
+				ce.emitErrorEvent("CT Auto StartCompetition", "", err)
+				return
+			}
 		}
 
 		// 啟動盲注系統
@@ -92,10 +94,12 @@ func (ce *competitionEngine) handleCompetitionTableCreated(table pokertable.Tabl
 			return
 		}
 
-		// auto start game if condition is reached
-		if _, err := ce.StartCompetition(); err != nil {
-			ce.emitErrorEvent("Cash Auto StartCompetition", "", err)
-			return
+		// auto start game if condition is reached (unless it was started by hand)
+		if !ce.isStarted {
+			if _, err := ce.StartCompetition(); err != nil {
+				ce.emitErrorEvent("Cash Auto StartCompetition", "", err)
+				return
+			}
 		}
 
 		// 啟動盲注系統
-- 
2.43.0


From ca99d8cc5a2bd48cb186f228365cb43a7bc7c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:23 +0000
Subject: [PATCH 17/31] fix: an MTT that awaits its advancement ends when one
 player is left

---
 competition_engine_internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 0caa4dc..733e198 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -355,6 +355,9 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 			}
 		} else {
 			ce.handleMTTTableSettlementNextStep(table, alivePlayerIDs, zeroChipPlayerIDs)
+
+			// 晉級條件達成前只剩一人，也要關閉賽事
+			shouldCloseCompetition = !ce.isEndStatus() && len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1
 		}
 	} else {
 		// 無晉級計算
-- 
2.43.0


From 5608105b316fdc0444434a8030a297b9d766ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 18/31] fix: a table paused for the advancement is not dealt
 again

---
 competition_engine_internal.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 733e198..c01b15a 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -139,6 +139,11 @@ func (ce *competitionEngine) updatePauseCompetition(table pokertable.Table, tabl
 		shouldReOpenGame = readyPlayersCount >= ce.competition.Meta.TableMinPlayerCount
 	}
 
+	// 已因晉級暫停的桌次不再開局
+	if ce.isAdvancedTable(table.ID) {
+		shouldReOpenGame = false
+	}
+
 	// re-open game
 	if shouldReOpenGame && !ce.competition.IsBreaking() {
 		nextGameCount := table.State.GameCount + 1
@@ -602,6 +607,11 @@ func (ce *competitionEngine) handleBreaking(tableID string) {
 			return
 		}
 
+		// 已因晉級暫停的桌次不再開局
+		if ce.isAdvancedTable(tableID) {
+			return
+		}
+
 		tableIdx := ce.competition.FindTableIdx(func(t *pokertable.Table) bool {
 			return t.ID == tableID
 		})
@@ -1240,6 +1250,13 @@ func (ce *competitionEngine) initAdvancement() {
 	ce.competition.State.AdvanceState.UpdatedTables = 0
 }
 
+/*
+isAdvancedTable 桌次是否已因達成晉級條件而暫停
+*/
+func (ce *competitionEngine) isAdvancedTable(tableID string) bool {
+	return funk.Contains(ce.competition.State.AdvanceState.UpdatedTableIDs, tableID)
+}
+
 func (ce *competitionEngine) refreshPlayerStatusStatistics() {
 	ce.competition.State.Statistic.PlayingPlayerCount = ce.competition.GetPlayerCountByStatus(CompetitionPlayerStatus_Playing)
 	ce.competition.State.Statistic.WaitingTableBalancingPlayerCount = ce.competition.GetPlayerCountByStatus(CompetitionPlayerStatus_WaitingTableBalancing)
-- 
2.43.0


From 0f2caa05a0de4dd3c30f25dbcc16b5a119fb55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 19/31] fix: a hand that ends in a break counts for the blind
 level reached before it

---
 competition_engine_internal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index c01b15a..f7ba09c 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -332,7 +332,12 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 
 		switch ce.competition.Meta.AdvanceSetting.Rule {
 		case CompetitionAdvanceRule_BlindLevel:
-			if ce.competition.CurrentBlindLevel().Level >= ce.competition.Meta.AdvanceSetting.BlindLevel {
+			// 中場休息時以休息前的等級為準
+			levelIdx := ce.competition.State.BlindState.CurrentLevelIndex
+			for levelIdx > 0 && ce.competition.Meta.Blind.Levels[levelIdx].Level == -1 {
+				levelIdx--
+			}
+			if levelIdx >= 0 && ce.competition.Meta.Blind.Levels[levelIdx].Level >= ce.competition.Meta.AdvanceSetting.BlindLevel {
 				shouldAdvancePauseTableGame = true
 			}
 		case CompetitionAdvanceRule_PlayerCount:
-- 
2.43.0


From 83da37e86213e9d446f902f475e625247aa25877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:44 +0000
Subject: [PATCH 20/31] fix: a table counts once for the advancement

---
 competition_engine_internal.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index f7ba09c..4edb7be 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -354,8 +354,11 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 			if err := ce.tableManagerBackend.PauseTable(table.ID); err != nil {
 				ce.emitErrorEvent(fmt.Sprintf("[%s][%d] Advance Pause Table", table.ID, table.State.GameCount), "", err)
 			} else {
-				ce.competition.State.AdvanceState.UpdatedTables++
-				ce.competition.State.AdvanceState.UpdatedTableIDs = append(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID)
+				// 同一桌只計算一次
+				if !ce.isAdvancedTable(table.ID) {
+					ce.competition.State.AdvanceState.UpdatedTables++
+					ce.competition.State.AdvanceState.UpdatedTableIDs = append(ce.competition.State.AdvanceState.UpdatedTableIDs, table.ID)
+				}
 
 				// 晉級條件達成: 結束賽事
 				if ce.competition.State.AdvanceState.TotalTables == ce.competition.State.AdvanceState.UpdatedTables {
-- 
2.43.0


From 83cf212ec720c4ef9bb03ec58a1e2c59ee984655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 21/31] fix: the native table backend passes on that a first
 hand is ready to open

---
 native_table_manager_backend.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 87669c0..2c519c5 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -91,6 +91,20 @@ func (ntmb *nativeTableManagerBackend) CreateTable(options *pokertable.TableEngi
 
 		ntmb.onTablePlayerReserved(tableID, &clonePlayerState)
 	}
+	callbacks.OnReadyOpenFirstTableGame = func(competitionID, tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		data, err := json.Marshal(playerStates)
+		if err != nil {
+			return
+		}
+
+		var clonePlayerStates []*pokertable.TablePlayerState
+		err = json.Unmarshal([]byte(data), &clonePlayerStates)
+		if err != nil {
+			return
+		}
+
+		ntmb.onReadyOpenFirstTableGame(tableID, gameCount, clonePlayerStates)
+	}
 
 	table, err := ntmb.manager.CreateTable(options, callbacks, setting)
 	if err != nil {
-- 
2.43.0


From 2c3b55bf12e3aeb25b06e855c46641857fcc61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:02 +0000
Subject: [PATCH 22/31] fix: competitions sharing a native table backend each
 hear of their own tables

---
 competition_engine.go           | 28 +++++++++++++++++++---------
 native_table_manager_backend.go |  6 ++++++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/competition_engine.go b/competition_engine.go
index c108f54..de164a7 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -130,18 +130,28 @@ func WithTableOptions(opts *pokertable.TableEngineOptions) CompetitionEngineOpt
 func WithTableManagerBackend(tmb TableManagerBackend) CompetitionEngineOpt {
 	return func(ce *competitionEngine) {
 		ce.tableManagerBackend = tmb
-		ce.tableManagerBackend.OnTableUpdated(func(table *pokertable.Table) {
-			ce.UpdateTable(table)
-		})
-		ce.tableManagerBackend.OnTablePlayerReserved(func(tableID string, playerState *pokertable.TablePlayerState) {
-			ce.UpdateReserveTablePlayerState(tableID, playerState)
-		})
-		ce.tableManagerBackend.OnReadyOpenFirstTableGame(func(tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
-			ce.ReadyFirstTableGame(tableID, gameCount, playerStates)
-		})
+		ce.listenTableManagerBackend(tmb)
+
+		// a native backend is shared by competitions: each one hears of the tables it creates only
+		if ntmb, ok := tmb.(*nativeTableManagerBackend); ok {
+			ce.tableManagerBackend = ntmb.forCompetition()
+			ce.listenTableManagerBackend(ce.tableManagerBackend)
+		}
 	}
 }
 
+func (ce *competitionEngine) listenTableManagerBackend(tmb TableManagerBackend) {
+	tmb.OnTableUpdated(func(table *pokertable.Table) {
+		ce.UpdateTable(table)
+	})
+	tmb.OnTablePlayerReserved(func(tableID string, playerState *pokertable.TablePlayerState) {
+		ce.UpdateReserveTablePlayerState(tableID, playerState)
+	})
+	tmb.OnReadyOpenFirstTableGame(func(tableID string, gameCount int, playerStates []*pokertable.TablePlayerState) {
+		ce.ReadyFirstTableGame(tableID, gameCount, playerStates)
+	})
+}
+
 func (ce *competitionEngine) OnCompetitionUpdated(fn func(competition *Competition)) {
 	ce.onCompetitionUpdated = fn
 }
diff --git a/native_table_manager_backend.go b/native_table_manager_backend.go
index 2c519c5..cd21ea4 100644
--- a/native_table_manager_backend.go
+++ b/native_table_manager_backend.go
@@ -49,6 +49,12 @@ type nativeTableManagerBackend struct {
 	onReadyOpenFirstTableGame func(tableID string, ganeCoubt int, players []*pokertable.TablePlayerState)
 }
 
+// forCompetition returns a backend on the same tables that reports only the tables it creates to its handlers,
+// so that each competition hears of its own tables
+func (ntmb *nativeTableManagerBackend) forCompetition() TableManagerBackend {
+	return NewNativeTableManagerBackend(ntmb.manager)
+}
+
 func (ntmb *nativeTableManagerBackend) OnTableUpdated(fn func(table *pokertable.Table)) {
 	ntmb.onTableUpdated = fn
 }
-- 
2.43.0


From 8787b8ab012de3d235e7fed48260b466e718e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:36 +0000
Subject: [PATCH 23/31] fix: a cash-out waits for the player requests under way

---
 competition_engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index de164a7..6d4aad9 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -687,6 +687,9 @@ func (ce *competitionEngine) PlayerRefund(playerID string) error {
 }
 
 func (ce *competitionEngine) PlayerCashOut(tableID, playerID string) error {
+	ce.mu.Lock()
+	defer ce.mu.Unlock()
+
 	// validate leave conditions
 	playerIdx := ce.competition.FindPlayerIdx(func(player *CompetitionPlayer) bool {
 		return player.PlayerID == playerID
-- 
2.43.0


From c4319094966c47b08b0caa0475d755e175a072c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 24/31] fix: a bot reports the bet of its whole stack

---
 actor/bot_runner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/actor/bot_runner.go b/actor/bot_runner.go
index 9dbff43..2f3ee27 100644
--- a/actor/bot_runner.go
+++ b/actor/bot_runner.go
@@ -295,7 +295,13 @@ func (br *botRunner) requestAI(gs *pokerface.GameState, playerIdx int) error {
 		minBet := gs.Status.MiniBet
 
 		if player.InitialStackSize <= minBet {
-			return br.actions.Bet(player.InitialStackSize)
+			err := br.actions.Bet(player.InitialStackSize)
+			if err != nil {
+				return err
+			}
+
+			br.updateWagerAction(pokertable.WagerAction_Bet, player.InitialStackSize)
+			return nil
 		}
 
 		chips = rand.Int63n(player.InitialStackSize-minBet) + minBet
-- 
2.43.0


From 27c79872065966d4986bb72ee602774e47a502ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:06 +0000
Subject: [PATCH 25/31] fix: a player runner hides the deck and other players'
 cards in every table status

---
 actor/player_runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 66a6bb9..8b8d978 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -75,8 +75,8 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 	} else {
 		cloneTable = *table
 	}
-	// hide certain game state fields for player when table game is playing
-	if cloneTable.State.Status == pokertable.TableStateStatus_TableGamePlaying || cloneTable.State.Status == pokertable.TableStateStatus_TableGameSettled {
+	// hide certain game state fields for player as long as there is a game, whatever the table status is
+	if cloneTable.State.GameState != nil {
 		gpIdx := table.GamePlayerIndex(pr.playerID)
 		cloneTable.State.GameState.AsPlayer(gpIdx)
 	}
-- 
2.43.0


From 092eeafb05fa73e6c03ba0cf0a9e90685dee60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:29 +0000
Subject: [PATCH 26/31] fix: a player runner that has seen no table yet can
 call and go all in without a crash

---
 actor/player_runner.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index 8b8d978..f0664cc 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -359,8 +359,11 @@ func (pr *PlayerRunner) Call() error {
 	// calc chips when action is call
 	// TODO: should move logic to pokertable
 	wager := int64(0)
-	gamePlayerIdx := pr.tableInfo.FindGamePlayerIdx(pr.playerID)
-	if gamePlayerIdx >= 0 && pr.tableInfo != nil && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
+	gamePlayerIdx := pokertable.UnsetValue
+	if pr.tableInfo != nil {
+		gamePlayerIdx = pr.tableInfo.FindGamePlayerIdx(pr.playerID)
+	}
+	if gamePlayerIdx >= 0 && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
 		wager = pr.tableInfo.State.GameState.Status.CurrentWager - pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
 	}
 
@@ -392,8 +395,11 @@ func (pr *PlayerRunner) Fold() error {
 func (pr *PlayerRunner) Allin() error {
 	// TODO: should move logic to pokertable
 	wager := int64(0)
-	gamePlayerIdx := pr.tableInfo.FindGamePlayerIdx(pr.playerID)
-	if gamePlayerIdx >= 0 && pr.tableInfo != nil && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
+	gamePlayerIdx := pokertable.UnsetValue
+	if pr.tableInfo != nil {
+		gamePlayerIdx = pr.tableInfo.FindGamePlayerIdx(pr.playerID)
+	}
+	if gamePlayerIdx >= 0 && pr.tableInfo.State.GameState != nil && gamePlayerIdx < len(pr.tableInfo.State.GameState.Players) {
 		wager = pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize
 	}
 
-- 
2.43.0


From 19effb429c84afa6ff16d684f964c555a2e73e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:34 +0000
Subject: [PATCH 27/31] fix: a player's move neither cancels the wait for his
 next one nor is reported for the next round

---
 actor/player_runner.go | 95 +++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 30 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index f0664cc..df82a9e 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -3,6 +3,7 @@ package actor
 import (
 	"encoding/json"
 	"fmt"
+	"sync/atomic"
 	"time"
 
 	"github.com/weedbox/pokerface"
@@ -19,6 +20,14 @@ const (
 	PlayerStatus_Suspend
 )
 
+type playerMove struct {
+	serial    int64
+	tableID   string
+	gameID    string
+	gameCount int
+	round     string
+}
+
 type PlayerRunner struct {
 	actor                         Actor
 	actions                       Actions
@@ -31,6 +40,7 @@ type PlayerRunner struct {
 	onTableStateUpdated           func(*pokertable.Table)
 	onTableGameWagerActionUpdated TableGameWagerActionUpdatedFunc
 	isEventSubscribed             bool
+	moveSerial                    int64 // counts the moves this player has been asked for
 
 	// status
 	status           PlayerStatus
@@ -198,6 +208,7 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 	}
 
 	// Setup timebank to wait for player
+	atomic.AddInt64(&pr.moveSerial, 1)
 	thinkingTime := time.Duration(pr.tableInfo.Meta.ActionTime) * time.Second
 	return pr.timebank.NewTask(thinkingTime, func(isCancelled bool) {
 
@@ -225,22 +236,24 @@ func (pr *PlayerRunner) automate(gs *pokerface.GameState, playerIdx int) error {
 		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO READY\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
 		return nil
 	} else if gs.HasAction(playerIdx, "check") {
+		move := pr.startMove()
 		err := pr.actions.Check()
 		if err != nil {
 			return err
 		}
 
 		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO CHECK\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
-		pr.updateWagerAction(pokertable.WagerAction_Check, 0)
+		pr.updateWagerAction(move, pokertable.WagerAction_Check, 0)
 		return nil
 	} else if gs.HasAction(playerIdx, "fold") {
+		move := pr.startMove()
 		err := pr.actions.Fold()
 		if err != nil {
 			return err
 		}
 
 		fmt.Printf("[%s#%d][%d][%s][%s][%+v] AUTO FOLD\n", pr.tableInfo.ID, pr.tableInfo.UpdateSerial, pr.tableInfo.State.GameCount, pr.playerID, pr.tableInfo.State.GameState.Status.Round, pr.status)
-		pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
+		pr.updateWagerAction(move, pokertable.WagerAction_Fold, 0)
 		return nil
 	}
 
@@ -290,67 +303,72 @@ func (pr *PlayerRunner) Suspend() error {
 
 func (pr *PlayerRunner) Pass() error {
 
+	move := pr.startMove()
 	err := pr.actions.Pass()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pr.finishMove(move)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Ready() error {
 
+	move := pr.startMove()
 	err := pr.actions.Ready()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pr.finishMove(move)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Pay(chips int64) error {
 
+	move := pr.startMove()
 	err := pr.actions.Pay(chips)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.timebank.Cancel()
+	pr.finishMove(move)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Check() error {
 
+	move := pr.startMove()
 	err := pr.actions.Check()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_Check, 0)
-	pr.timebank.Cancel()
+	pr.updateWagerAction(move, pokertable.WagerAction_Check, 0)
+	pr.finishMove(move)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Bet(chips int64) error {
 
+	move := pr.startMove()
 	err := pr.actions.Bet(chips)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_Bet, chips)
-	pr.timebank.Cancel()
+	pr.updateWagerAction(move, pokertable.WagerAction_Bet, chips)
+	pr.finishMove(move)
 
 	return nil
 }
@@ -367,27 +385,29 @@ func (pr *PlayerRunner) Call() error {
 		wager = pr.tableInfo.State.GameState.Status.CurrentWager - pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).Wager
 	}
 
+	move := pr.startMove()
 	err := pr.actions.Call()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_Call, wager)
-	pr.timebank.Cancel()
+	pr.updateWagerAction(move, pokertable.WagerAction_Call, wager)
+	pr.finishMove(move)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Fold() error {
 	pr.Resume()
+	move := pr.startMove()
 	err := pr.actions.Fold()
 	if err != nil {
 		return err
 	}
 
-	pr.updateWagerAction(pokertable.WagerAction_Fold, 0)
-	pr.timebank.Cancel()
+	pr.updateWagerAction(move, pokertable.WagerAction_Fold, 0)
+	pr.finishMove(move)
 
 	return nil
 }
@@ -403,32 +423,58 @@ func (pr *PlayerRunner) Allin() error {
 		wager = pr.tableInfo.State.GameState.GetPlayer(gamePlayerIdx).StackSize
 	}
 
+	move := pr.startMove()
 	err := pr.actions.Allin()
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_AllIn, wager)
-	pr.timebank.Cancel()
+	pr.updateWagerAction(move, pokertable.WagerAction_AllIn, wager)
+	pr.finishMove(move)
 
 	return nil
 }
 
 func (pr *PlayerRunner) Raise(chipLevel int64) error {
 
+	move := pr.startMove()
 	err := pr.actions.Raise(chipLevel)
 	if err != nil {
 		return err
 	}
 
 	pr.idleCount = 0
-	pr.updateWagerAction(pokertable.WagerAction_Raise, chipLevel)
-	pr.timebank.Cancel()
+	pr.updateWagerAction(move, pokertable.WagerAction_Raise, chipLevel)
+	pr.finishMove(move)
 
 	return nil
 }
 
+// startMove notes what the player is about to answer, since the table may go on before the answer is handled
+func (pr *PlayerRunner) startMove() playerMove {
+	move := playerMove{
+		serial: atomic.LoadInt64(&pr.moveSerial),
+		gameID: pr.curGameID,
+	}
+	if pr.tableInfo != nil {
+		move.tableID = pr.tableInfo.ID
+		move.gameCount = pr.tableInfo.State.GameCount
+
+		if pr.tableInfo.State.GameState != nil {
+			move.round = pr.tableInfo.State.GameState.Status.Round
+		}
+	}
+	return move
+}
+
+// finishMove stops waiting for a move, unless the table has asked for the next one meanwhile
+func (pr *PlayerRunner) finishMove(move playerMove) {
+	if atomic.LoadInt64(&pr.moveSerial) == move.serial {
+		pr.timebank.Cancel()
+	}
+}
+
 func (pr *PlayerRunner) AutoMode(isOn bool) error {
 	if isOn {
 		return pr.Suspend()
@@ -448,19 +494,8 @@ func (pr *PlayerRunner) IsAutoMode() (string, bool) {
 	return tableID, isOn
 }
 
-func (pr *PlayerRunner) updateWagerAction(action string, chips int64) {
-	tableID := ""
-	gameCount := 0
-	round := ""
-	if pr.tableInfo != nil {
-		tableID = pr.tableInfo.ID
-		gameCount = pr.tableInfo.State.GameCount
-
-		if pr.tableInfo.State.GameState != nil {
-			round = pr.tableInfo.State.GameState.Status.Round
-		}
-	}
-	pr.onTableGameWagerActionUpdated(tableID, pr.curGameID, gameCount, round, action, chips)
+func (pr *PlayerRunner) updateWagerAction(move playerMove, action string, chips int64) {
+	pr.onTableGameWagerActionUpdated(move.tableID, move.gameID, move.gameCount, move.round, action, chips)
 }
 
 func (pr *PlayerRunner) updateAutoMode(isOn bool) {
-- 
2.43.0


From 5f5e5afb45d463637670f72112b23b575c803efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:32 +0000
Subject: [PATCH 28/31] fix: a player runner stops waiting when the table goes
 on, and stays in auto mode

---
 actor/player_runner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/actor/player_runner.go b/actor/player_runner.go
index df82a9e..79d1b3a 100644
--- a/actor/player_runner.go
+++ b/actor/player_runner.go
@@ -113,6 +113,9 @@ func (pr *PlayerRunner) UpdateTableState(table *pokertable.Table) error {
 		pr.lastGameStateTime = gs.UpdatedAt
 	}
 
+	// The table has gone on, there is nothing to wait for unless it asks for a move again
+	pr.timebank.Cancel()
+
 	// Check if you have been eliminated
 	isEliminated := true
 	for _, ps := range table.State.PlayerStates {
@@ -216,8 +219,10 @@ func (pr *PlayerRunner) requestMove(gs *pokerface.GameState, playerIdx int) erro
 			return
 		}
 
-		// Stay idle already
-		pr.Idle()
+		// Stay idle already, a suspended player stays suspended
+		if pr.status != PlayerStatus_Suspend {
+			pr.Idle()
+		}
 
 		// Do default actions if player has no response
 		pr.automate(gs, playerIdx)
-- 
2.43.0


From 478bc539c243b933b347642735a9796dd36333ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:38 +0000
Subject: [PATCH 29/31] fix: a seat reservation that arrives after the end
 changes no player

---
 competition_engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/competition_engine.go b/competition_engine.go
index 6d4aad9..ce84dc0 100644
--- a/competition_engine.go
+++ b/competition_engine.go
@@ -792,6 +792,11 @@ func (ce *competitionEngine) PlayerQuit(tableID, playerID string) error {
 }
 
 func (ce *competitionEngine) UpdateReserveTablePlayerState(tableID string, playerState *pokertable.TablePlayerState) {
+	// 賽事已結束，不再更新玩家狀態
+	if ce.isEndStatus() {
+		return
+	}
+
 	// 更新玩家狀態
 	playerIdx, exist := ce.competition.GetPlayerIndexMap()[playerState.PlayerID]
 	if !exist {
-- 
2.43.0


From 3b533985a0aea577a158003e882ea0d5c62d2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:38 +0000
Subject: [PATCH 30/31] fix: an MTT goes on while a player with chips waits for
 a seat

---
 competition_engine_internal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/competition_engine_internal.go b/competition_engine_internal.go
index 4edb7be..884e480 100644
--- a/competition_engine_internal.go
+++ b/competition_engine_internal.go
@@ -370,7 +370,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 			ce.handleMTTTableSettlementNextStep(table, alivePlayerIDs, zeroChipPlayerIDs)
 
 			// 晉級條件達成前只剩一人，也要關閉賽事
-			shouldCloseCompetition = !ce.isEndStatus() && len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1
+			shouldCloseCompetition = !ce.isEndStatus() && ce.competition.PlayingPlayerCount() == 1 && len(ce.competition.State.Tables) == 1
 		}
 	} else {
 		// 無晉級計算
@@ -378,7 +378,7 @@ func (ce *competitionEngine) handleMTTTableSettlement(table pokertable.Table) bo
 		ce.handleMTTTableSettlementNextStep(table, alivePlayerIDs, zeroChipPlayerIDs)
 
 		// 判斷是否要關閉賽事
-		shouldCloseCompetition = !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && len(alivePlayerIDs) == 1 && len(ce.competition.State.Tables) == 1
+		shouldCloseCompetition = !ce.isEndStatus() && ce.competition.State.BlindState.IsStopBuyIn() && ce.competition.PlayingPlayerCount() == 1 && len(ce.competition.State.Tables) == 1
 	}
 
 	return shouldCloseCompetition
-- 
2.43.0


From ab1ffcd30bf3ba0c01bf4fb7988f77026846ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:29 +0000
Subject: [PATCH 31/31] fix: an MTT table that cannot be created is reported

---
 regulator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regulator.go b/regulator.go
index 34e1e79..f3a197f 100644
--- a/regulator.go
+++ b/regulator.go
@@ -49,6 +49,7 @@ func (ce *competitionEngine) regulatorCreateAndDistributePlayers(playerIDs []str
 	}
 	tableID, err := ce.addCompetitionTable(tableSetting, blind)
 	if err != nil {
+		ce.emitErrorEvent("MTT Regulator Create Table", strings.Join(playerIDs, ","), err)
 		return "", err
 	}
 
-- 
2.43.0

