SEEDS = []
E_, I_, R_, B_ = "competition_engine.go", "competition_engine_internal.go", "rank.go", "blind/blind.go"
HEAD = '''package pokercompetition_test

import (
	"testing"
	"time"

	pc "github.com/weedbox/pokercompetition"
)

var _ = time.Now

func far() int64 { return time.Now().Unix() + 100000 }

// running starts a CT or cash competition with the given players.
func running(t *testing.T, f *fake, m pc.CompetitionMeta, seats ...seat) (pc.CompetitionEngine, *pc.Competition) {
	ce, c := newComp(f, m, far())
	for _, s := range seats {
		if err := buy(ce, s.id, s.chips); err != nil {
			t.Fatal(err)
		}
	}
	ce.UpdateTable(tableOf(c, "t1", created, 0, seats...))
	if c.State.Status != pc.CompetitionStateStatus_DelayedBuyIn {
		t.Fatal("not started", c.State.Status)
	}
	return ce, c
}

'''


def seed(id, prop, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=(kw.pop("head", HEAD)) + demo, **kw))


seed("b01-capacity-ignores-waiting", "C01", "a full CT table at which one player is broke and waits for a re-buy while somebody new buys in",
     "the seat of the waiting player is given away: a new buy-in is accepted although playing and re-buy-waiting players fill the table",
     [(E_, "				if competitionPlayerCount+reBuyPlayerCount >= ", "				if reBuyPlayerCount < competitionPlayerCount && competitionPlayerCount >= ")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_CT)
	m.TableMaxSeatCount = 3
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	ce, c := running(t, f, m, seats...)
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 200}, seat{"b", 100}, seat{"c", 0}))
	if err := buy(ce, "d", 100); err == nil {
		t.Fatal("a fourth player was admitted at a table of three")
	}
}
''')

seed("b02-rebuy-after-quit-not-counted", "C02", "a player who quits his table and then re-buys",
     "the re-buy of a player who quit (no open window) does not count towards his re-buy limit",
     [(E_, "		cp.ReBuyTimes++\n		cp.IsReBuying = false\n", "		if cp.IsReBuying {\n			cp.ReBuyTimes++\n		}\n		cp.IsReBuying = false\n")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	ce, c := running(t, f, meta(pc.CompetitionMode_CT), seats...)
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 200}, seat{"b", 100}, seat{"c", 0}))
	if err := ce.PlayerQuit("t1", "c"); err != nil {
		t.Fatal(err)
	}
	if err := buy(ce, "c", 100); err != nil {
		t.Fatal(err)
	}
	if n := player(c, "c").ReBuyTimes; n != 1 {
		t.Fatal("re-buys:", n)
	}
}
''')

seed("b03-addon-count-ignores-units", "C03", "an add-on of more than one unit",
     "the tournament's add-on units grow by one per add-on instead of by the units bought",
     [(E_, "		ce.competition.State.Statistic.TotalAddonCount += joinPlayer.Unit", "		ce.competition.State.Statistic.TotalAddonCount++")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	seats := []seat{{"a", 100}, {"b", 100}}
	ce, c := running(t, f, meta(pc.CompetitionMode_CT), seats...)
	if err := ce.PlayerAddon("t1", pc.JoinPlayer{PlayerID: "a", RedeemChips: 50, Unit: 2}); err != nil {
		t.Fatal(err)
	}
	if n := c.State.Statistic.TotalAddonCount; n != 2 {
		t.Fatal("add-on units:", n)
	}
}
''')

seed("b06-window-cashes-out-rebuyer", "C06", "a cash player who goes broke, re-buys within his window, and then the window expires",
     "the window timer no longer looks at the chips: a cash player who re-bought in time is cashed out and removed anyway",
     [(I_, "				if cp.Chips > 0 {\n					// fmt.Printf(\"[handleReBuy#after] player (%s) is already re buy (%d) chips\\n\", reBuyPlayerID, cp.Chips)\n					continue\n				}\n\n", "")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_Cash)
	m.ReBuySetting.WaitingTime = 1
	m.Blind.FinalBuyInLevelIndex = pc.NoStopBuyInIndex
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	ce, c := running(t, f, m, seats...)
	cashed := 0
	ce.OnCompetitionPlayerCashOut(func(string, *pc.CompetitionPlayer) { cashed++ })
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 200}, seat{"b", 100}, seat{"c", 0}))
	if err := buy(ce, "c", 70); err != nil {
		t.Fatal(err)
	}
	time.Sleep(5 * time.Second)
	if player(c, "c") == nil || cashed != 0 {
		t.Fatal("a player with chips was cashed out by the re-buy window")
	}
}
''')

seed("b07-hand-record-without-table", "C07", "two MTT tables that settle hands with the same number",
     "settled hands are remembered by hand number only, so the second table's hand of that number is dropped",
     [(I_, 'fmt.Sprintf("%s.%d", table.ID, table.State.GameCount)\n	if _, settled', 'fmt.Sprintf("%s.%d", table.Meta.CompetitionID, table.State.GameCount)\n	if _, settled')],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_MTT)
	m.TableMaxSeatCount = 2
	m.MinPlayerCount, m.RegulatorMinInitialPlayerCount = 4, 2
	ce, c := newComp(f, m, far())
	for _, id := range []string{"a", "b", "d", "e"} {
		if err := buy(ce, id, 100); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := ce.StartCompetition(); err != nil {
		t.Fatal(err)
	}
	if len(f.created) != 2 {
		t.Fatal("tables:", len(f.created))
	}
	for _, s := range f.created {
		x, y := s.JoinPlayers[0].PlayerID, s.JoinPlayers[1].PlayerID
		ce.UpdateTable(tableOf(c, s.TableID, settled, 1, seat{x, 130}, seat{y, 70}))
	}
	for _, p := range c.State.Players {
		if p.TotalGameCounts != 1 || p.Chips == 100 {
			t.Fatal(p.PlayerID, "hands", p.TotalGameCounts, "chips", p.Chips)
		}
	}
}
''')

seed("b08-best-hand-of-wrong-player", "C08", "a won hand in which a player with a lower seat index sits out",
     "the best winning combination is read with the table index instead of the hand index, i.e. from another player's hand",
     [(I_, "gsPlayer := gs.GetPlayer(winnerGameIdx)", "gsPlayer := gs.GetPlayer(tablePlayerIdx)\n		if gsPlayer == nil {\n			gsPlayer = gs.GetPlayer(winnerGameIdx)\n		}")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	ce, c := running(t, f, meta(pc.CompetitionMode_CT), seats...)
	u := tableOf(c, "t1", settled, 1, seat{"a", 100}, seat{"b", 150}, seat{"c", 50})
	u.State.PlayerStates[0].IsParticipated = false
	u.State.GamePlayerIndexes = []int{1, 2}
	u.State.GameState.Players = u.State.GameState.Players[:2]
	u.State.GameState.Result.Players = u.State.GameState.Result.Players[:2]
	u.State.GameState.Result.Players[0].Changed = 50
	u.State.GameState.Result.Players[1].Changed = -50
	u.State.GameState.Players[0].Combination.Power = 7
	u.State.GameState.Players[1].Combination.Power = 3
	ce.UpdateTable(u)
	if p := player(c, "b").BestWinningPower; p != 7 {
		t.Fatal("best winning power:", p)
	}
}
''')

seed("b09-knockout-announced-again", "C09", "a knocked-out player whose table reports another hand before he has left",
     "a player already knocked out is knocked out and announced again and enters the ranking twice",
     [(R_, "			isAlreadyKnockout = player.Status == CompetitionPlayerStatus_Knockout\n", "			isAlreadyKnockout = player.Status == CompetitionPlayerStatus_Knockout && player.CurrentSeat != UnsetValue\n")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_CT)
	m.ReBuySetting.MaxTime = 0
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	ce, c := running(t, f, m, seats...)
	n := 0
	ce.OnCompetitionFinalPlayerRankUpdated(func(cid, pid string, rank int) { n++ })
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 200}, seat{"b", 100}, seat{"c", 0}))
	ce.UpdateTable(tableOf(c, "t1", settled, 2, seat{"a", 150}, seat{"b", 150}, seat{"c", 0}))
	if n != 1 || len(c.State.Rankings) != 1 {
		t.Fatal("announced", n, "ranked", len(c.State.Rankings))
	}
}
''')

seed("b10-waiting-order", "C10", "two players waiting for a re-buy who went broke at different times",
     "players waiting for a re-buy are ranked by joining time instead of the time they went broke",
     [(I_, "return reBuyWaitingPlayers[i].ReBuyWaitingAt > reBuyWaitingPlayers[j].ReBuyWaitingAt", "return reBuyWaitingPlayers[i].JoinAt < reBuyWaitingPlayers[j].JoinAt")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	ce, c := newComp(f, meta(pc.CompetitionMode_CT), far())
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	for _, s := range seats {
		if err := buy(ce, s.id, s.chips); err != nil {
			t.Fatal(err)
		}
		time.Sleep(1100 * time.Millisecond)
	}
	ce.UpdateTable(tableOf(c, "t1", created, 0, seats...))
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 0}, seat{"b", 100}, seat{"c", 200}))
	time.Sleep(1100 * time.Millisecond)
	ce.UpdateTable(tableOf(c, "t1", settled, 2, seat{"a", 0}, seat{"b", 0}, seat{"c", 300}))
	if a, b := player(c, "a").CompetitionRank, player(c, "b").CompetitionRank; b != 2 || a != 3 {
		t.Fatal("ranks", a, b)
	}
}
''')

G_, C_, M_, BOT_, PL_ = "regulator.go", "competition.go", "manager.go", "actor/bot_runner.go", "actor/player_runner.go"

seed("b04-refund-cuts-queue", "C04", "an MTT in which a player refunds while others registered after him are queued",
     "a refund drops everybody queued behind the refunding player: they stay registered but never get a table",
     [(E_, "		if playerID == waitingPlayerID {\n			continue", "		if playerID == waitingPlayerID {\n			break")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_MTT)
	ce, _ := newComp(f, m, far())
	for _, id := range []string{"a", "b", "d"} {
		if err := buy(ce, id, 100); err != nil {
			t.Fatal(err)
		}
	}
	if err := ce.PlayerRefund("a"); err != nil {
		t.Fatal(err)
	}
	if _, err := ce.StartCompetition(); err != nil {
		t.Fatal(err)
	}
	if len(f.created) != 1 || len(f.created[0].JoinPlayers) != 2 {
		t.Fatal("tables:", f.created)
	}
}
''')

seed("b05-cash-out-of-neighbour", "C05", "two players who cash out during the same hand",
     "when two players leave with the same hand, the second payout is made for another player",
     [(I_, "			leavePlayerIndexes[cp.PlayerID] = idx\n		}\n	}\n\n	if len(leavePlayerIDs) > 0 {\n		ce.handleCashOut(table.ID, leavePlayerIndexes", "			leavePlayerIndexes[cp.PlayerID] = idx - len(leavePlayerIDs) + 1\n		}\n	}\n\n	if len(leavePlayerIDs) > 0 {\n		ce.handleCashOut(table.ID, leavePlayerIndexes")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_Cash)
	m.Blind.FinalBuyInLevelIndex = pc.NoStopBuyInIndex
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}, {"d", 100}}
	ce, c := running(t, f, m, seats...)
	got := map[string]int{}
	ce.OnCompetitionPlayerCashOut(func(_ string, p *pc.CompetitionPlayer) { got[p.PlayerID]++ })
	ce.UpdateTable(tableOf(c, "t1", playing, 1, seats...))
	for _, id := range []string{"b", "d"} {
		if err := ce.PlayerCashOut("t1", id); err != nil {
			t.Fatal(err)
		}
	}
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seats...))
	if got["b"] != 1 || got["d"] != 1 || len(got) != 2 {
		t.Fatal("cashed out:", got)
	}
}
''')

seed("b11-early-knockouts-misplaced", "C11", "four or more knock-outs and a single player with chips at the end",
     "the final list turns the knock-outs around only as far as there are players with chips, so early knock-outs end above later ones",
     [(I_, "for i, j := 0, len(ce.competition.State.Rankings)-1; i < j; i, j = i+1, j-1 {", "for i, j := 0, len(ce.competition.State.Rankings)-1; i < j && i < len(finalRankings); i, j = i+1, j-1 {")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_CT)
	m.ReBuySetting.MaxTime = 0
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}, {"d", 100}, {"e", 100}}
	ce, c := running(t, f, m, seats...)
	for i := 4; i > 0; i-- {
		seats[i].chips = 0
		seats[0].chips += 100
		ce.UpdateTable(tableOf(c, "t1", settled, 5-i, seats[:i+1]...))
	}
	if err := ce.CloseCompetition(pc.CompetitionStateStatus_End); err != nil {
		t.Fatal(err)
	}
	s := ""
	for _, r := range c.State.Rankings {
		s += r.PlayerID
	}
	if s != "abcde" {
		t.Fatal("final ranking:", s)
	}
}
''')

seed("b12-settled-again-after-end", "C12", "a table that reports 'no next game' after the tournament was force-ended past its late buy-in",
     "an ended tournament is settled a second time and its end status and ranking change",
     [(E_, "ce.competition.State.Tables[tableIdx].Meta.Mode == string(CompetitionMode_CT) && ce.competition.State.Status == CompetitionStateStatus_StoppedBuyIn {\n		_ = ce.CloseCompetition(CompetitionStateStatus_End)", "ce.competition.State.Tables[tableIdx].Meta.Mode == string(CompetitionMode_CT) && ce.competition.State.BlindState.IsStopBuyIn() {\n		ce.settleCompetition(CompetitionStateStatus_End)\n		_ = ce.ReleaseTables()")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_CT)
	m.Blind.FinalBuyInLevelIndex = pc.UnsetValue
	ce, c := newComp(f, m, far())
	seats := []seat{{"a", 100}, {"b", 100}}
	for _, s := range seats {
		if err := buy(ce, s.id, s.chips); err != nil {
			t.Fatal(err)
		}
	}
	ce.UpdateTable(tableOf(c, "t1", created, 0, seats...))
	if err := ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd); err != nil {
		t.Fatal(err)
	}
	n := len(c.State.Rankings)
	_ = ce.AutoGameOpenEnd("t1")
	if c.State.Status != pc.CompetitionStateStatus_ForceEnd || len(c.State.Rankings) != n {
		t.Fatal("status", c.State.Status, "ranked", len(c.State.Rankings), "before", n)
	}
}
''')

seed("b13-one-waiter-keeps-seat", "C13", "two CT players waiting for a re-buy when the late buy-in closes",
     "only the last of the waiting players is taken off the table when the late buy-in closes",
     [(I_, "isCTReBuying && len(ce.competition.State.Tables) > 0 {", "isCTReBuying && idx == len(knockoutPlayerRankings)-1 && len(ce.competition.State.Tables) > 0 {")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_CT)
	m.Blind.FinalBuyInLevelIndex = 0
	m.Blind.Levels[0].Duration = 2
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}, {"d", 100}}
	ce, c := running(t, f, m, seats...)
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 200}, seat{"b", 200}, seat{"c", 0}, seat{"d", 0}))
	time.Sleep(5 * time.Second)
	f.mu.Lock()
	defer f.mu.Unlock()
	n := map[string]bool{}
	for _, id := range f.left {
		n[id] = true
	}
	if !n["c"] || !n["d"] {
		t.Fatal("taken off the table:", f.left)
	}
}
''')

seed("b14-units-per-rebuy", "C14", "a re-buy of a different number of units than the buy-in",
     "a player's bought units are computed from his last purchase instead of being added up",
     [(E_, "			cp.TotalBuyInUnits += joinPlayer.Unit\n", "			cp.TotalBuyInUnits = joinPlayer.Unit * (cp.ReBuyTimes + 1)\n")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	ce, c := newComp(f, meta(pc.CompetitionMode_CT), far())
	for _, id := range []string{"a", "b", "c"} {
		if err := ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: id, RedeemChips: 200, Unit: 2}); err != nil {
			t.Fatal(err)
		}
	}
	ce.UpdateTable(tableOf(c, "t1", created, 0, seat{"a", 200}, seat{"b", 200}, seat{"c", 200}))
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 400}, seat{"b", 200}, seat{"c", 0}))
	if err := buy(ce, "c", 100); err != nil {
		t.Fatal(err)
	}
	sum := 0
	for _, p := range c.State.Players {
		sum += p.TotalBuyInUnits
	}
	if u := player(c, "c").TotalBuyInUnits; u != 3 || sum != c.State.Statistic.TotalBuyInCount {
		t.Fatal("units", u, "sum", sum, "total", c.State.Statistic.TotalBuyInCount)
	}
}
''')

seed("b15-long-level", "C15", "a blind level longer than 18 hours",
     "the end time of a level longer than 65535 seconds is computed from the low 16 bits of its duration",
     [(B_, "			blindPassedSeconds := int64(b.bs.Meta.Levels[i].Duration)\n", "			blindPassedSeconds := int64(uint16(b.bs.Meta.Levels[i].Duration))\n")],
     '''package pokerblind_test

import (
	"testing"
	"time"

	pb "github.com/weedbox/pokercompetition/blind"
)

func TestDemo(t *testing.T) {
	b := pb.NewBlind()
	b.ApplyOptions(&pb.BlindOptions{ID: "x", InitialLevel: 1, FinalBuyInLevelIndex: 0, Levels: []pb.BlindLevel{{Level: 1, Duration: 86400}, {Level: 2, Duration: 60}}})
	now := time.Now().Unix()
	s, err := b.Start()
	if err != nil {
		t.Fatal(err)
	}
	b.End()
	if d := s.Status.LevelEndAts[0] - now; d < 86399 || d > 86410 {
		t.Fatal("level ends in", d, "seconds")
	}
}
''', head="", pkg="blind")

seed("b16-second-break", "C16", "a table that plays on into a second break",
     "a table is resumed only after the first break it pauses in",
     [(I_, "	if _, exist := ce.breakingPauseResumeStates[tableID][ce.competition.State.BlindState.CurrentLevelIndex]; !exist {", "	if len(ce.breakingPauseResumeStates[tableID]) == 0 {")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_CT)
	m.Blind.FinalBuyInLevelIndex = 4
	m.Blind.Levels = []pc.BlindLevel{{Level: 1, Duration: 2}, {Level: -1, Duration: 2}, {Level: 2, Duration: 4}, {Level: -1, Duration: 2}, {Level: 3, Duration: 600}}
	seats := []seat{{"a", 100}, {"b", 100}}
	ce, c := running(t, f, m, seats...)
	ce.UpdateTable(tableOf(c, "t1", playing, 1, seats...))
	time.Sleep(3 * time.Second)
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seats...))
	time.Sleep(4 * time.Second)
	ce.UpdateTable(tableOf(c, "t1", playing, 2, seats...))
	time.Sleep(2 * time.Second)
	ce.UpdateTable(tableOf(c, "t1", settled, 2, seats...))
	time.Sleep(5 * time.Second)
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.setups) != 2 {
		t.Fatal("hands set up after the two breaks:", len(f.setups))
	}
}
''')

seed("b17-units-start-the-tournament", "C17", "an MTT whose players buy in with more than one unit",
     "the minimum number of players is compared with the units bought: the tournament seats people before enough players are there",
     [(G_, "len(ce.competition.State.Players) >= ce.competition.Meta.MinPlayerCount", "ce.competition.State.Statistic.TotalBuyInCount >= ce.competition.Meta.MinPlayerCount")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_MTT)
	m.MinPlayerCount = 3
	ce, _ := newComp(f, m, far())
	for _, id := range []string{"a", "b"} {
		if err := ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: id, RedeemChips: 200, Unit: 2}); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := ce.StartCompetition(); err != nil {
		t.Fatal(err)
	}
	if len(f.created) != 0 {
		t.Fatal("tables with two of three players:", len(f.created))
	}
}
''')

seed("b18-closed-between-hands", "C18", "a CT table that is between two hands when the tournament's time is up",
     "the time limit closes a table that has just settled a hand and goes on to the next",
     [(E_, "					pokertable.TableStateStatus_TableGameSettled,\n", "")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_CT)
	m.MaxDuration = 2
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	ce, c := running(t, f, m, seats...)
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seats...))
	time.Sleep(5 * time.Second)
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.closed) != 0 {
		t.Fatal("closed:", f.closed)
	}
}
''')

seed("b19-cash-table-overfull", "C19", "a cash competition created with more players than its table has seats",
     "only CT is checked against the number of seats; a cash competition is created with players who have no seat",
     [(E_, "if len(tableSetting.JoinPlayers) > competitionSetting.Meta.TableMaxSeatCount {", "if competitionSetting.Meta.Mode == CompetitionMode_CT && len(tableSetting.JoinPlayers) > competitionSetting.Meta.TableMaxSeatCount {")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_Cash)
	m.TableMaxSeatCount = 2
	ce := pc.NewCompetitionEngine(pc.WithTableManagerBackend(f), pc.WithTableOptions(nil))
	s := pc.CompetitionSetting{CompetitionID: "c1", Meta: m, StartAt: pc.UnsetValue, DisableAt: far()}
	s.TableSettings = []pc.TableSetting{{TableID: "t1"}}
	for _, id := range []string{"a", "b", "c"} {
		s.TableSettings[0].JoinPlayers = append(s.TableSettings[0].JoinPlayers, pokertable.JoinPlayer{PlayerID: id, RedeemChips: 100, Seat: -1})
	}
	if _, err := ce.CreateCompetition(s); err == nil {
		t.Fatal("three players at a table of two")
	}
}
''', head=HEAD.replace('pokercompetition"\n)', 'pokercompetition"\n	"github.com/weedbox/pokertable"\n)'))

seed("b22-manager-keeps-old-engine", "C22", "a competition id that is created a second time",
     "the manager keeps handing out the engine of an earlier competition with the same id",
     [(M_, "	m.competitionEngines.Store(competition.ID, competitionEngine)", "	m.competitionEngines.LoadOrStore(competition.ID, competitionEngine)")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	mg := pc.NewManager(f)
	var last *pc.Competition
	for i := 0; i < 2; i++ {
		s := pc.CompetitionSetting{CompetitionID: "c1", Meta: meta(pc.CompetitionMode_CT), StartAt: pc.UnsetValue, DisableAt: far(), TableSettings: []pc.TableSetting{{TableID: "t1"}}}
		c, err := mg.CreateCompetition(s, pc.NewDefaultCompetitionEngineOptions())
		if err != nil {
			t.Fatal(err)
		}
		last = c
	}
	if err := mg.PlayerBuyIn("c1", pc.JoinPlayer{PlayerID: "a", RedeemChips: 100, Unit: 1}); err != nil {
		t.Fatal(err)
	}
	if player(last, "a") == nil {
		t.Fatal("the buy-in went to another competition")
	}
}
''')

seed("b23-participant-positions", "C23", "a paused table whose first seated player has no chips",
     "the positions handed to the table for the next hand skip players without chips, so everybody after such a player gets another player's place",
     [(I_, "aliveParticipants[p.PlayerID] = idx", "aliveParticipants[p.PlayerID] = len(aliveParticipants)\n			_ = idx")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	ce, c := running(t, f, meta(pc.CompetitionMode_CT), seats...)
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 0}, seat{"b", 100}, seat{"c", 200}))
	ce.UpdateTable(tableOf(c, "t1", pausing, 1, seat{"a", 0}, seat{"b", 100}, seat{"c", 200}))
	if len(f.setups) != 1 {
		t.Fatal("setups", f.setups)
	}
	p := f.setups[0]
	if len(p) != 2 || p["b"] != 1 || p["c"] != 2 {
		t.Fatal("participants", p)
	}
}
''')

seed("b28-quiet-quit", "C28", "a listener for player updates and a player who quits",
     "the update of a quitting player is not published",
     [(E_, "		ce.emitPlayerEvent(\"quit knockout\", cp)\n		ce.emitEvent(\"Player Quit\", \"\")\n", "		ce.emitEvent(\"Player Quit\", \"\")\n")],
     '''func TestDemo(t *testing.T) {
	f := newFake()
	seats := []seat{{"a", 100}, {"b", 100}, {"c", 100}}
	ce, c := running(t, f, meta(pc.CompetitionMode_CT), seats...)
	ce.UpdateTable(tableOf(c, "t1", settled, 1, seat{"a", 200}, seat{"b", 100}, seat{"c", 0}))
	var last string
	ce.OnCompetitionPlayerUpdated(func(_ string, p *pc.CompetitionPlayer) {
		if p.PlayerID == "c" {
			last = string(p.Status)
		}
	})
	if err := ce.PlayerQuit("t1", "c"); err != nil {
		t.Fatal(err)
	}
	if last != string(player(c, "c").Status) {
		t.Fatal("published:", last, "is:", player(c, "c").Status)
	}
}
''')

AHEAD = """package actor_test

import (
	"testing"
	"time"

	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
)

var _ = time.Now

// table is an adapter that records what the runner does.
type table struct {
	actor.Adapter
	did   []string
	chips []int64
}

func (x *table) SetActor(actor.Actor)                  {}
func (x *table) note(s string, n int64) error          { x.did = append(x.did, s); x.chips = append(x.chips, n); return nil }
func (x *table) Pass(string) error                     { return x.note("pass", 0) }
func (x *table) Ready(string) error                    { return x.note("ready", 0) }
func (x *table) Pay(_ string, n int64) error           { return x.note("pay", n) }
func (x *table) Check(string) error                    { return x.note("check", 0) }
func (x *table) Bet(_ string, n int64) error           { return x.note("bet", n) }
func (x *table) Call(string) error                     { return x.note("call", 0) }
func (x *table) Fold(string) error                     { return x.note("fold", 0) }
func (x *table) Allin(string) error                    { return x.note("allin", 0) }
func (x *table) Raise(_ string, n int64) error         { return x.note("raise", n) }
func (x *table) AutoMode(_ string, on bool) error      { return x.note("auto", 0) }

// hand is a table of p (first in the hand) and q.
func hand(at int64, actions ...string) *pokertable.Table {
	t := &pokertable.Table{ID: "t1", Meta: pokertable.TableMeta{ActionTime: 1}, State: &pokertable.TableState{
		Status: pokertable.TableStateStatus_TableGamePlaying, GameCount: 1, GamePlayerIndexes: []int{0, 1},
		PlayerStates: []*pokertable.TablePlayerState{{PlayerID: "p", IsIn: true, Bankroll: 100, IsParticipated: true}, {PlayerID: "q", Seat: 1, IsIn: true, Bankroll: 100, IsParticipated: true}},
		GameState: &pokerface.GameState{GameID: "g1", UpdatedAt: at, Status: pokerface.Status{Round: "flop", CurrentEvent: "RoundStarted", MiniBet: 10},
			Players: []*pokerface.PlayerState{
				{Idx: 0, AllowedActions: actions, HoleCards: []string{"SA", "SK"}, InitialStackSize: 100, StackSize: 100, Bankroll: 100},
				{Idx: 1, HoleCards: []string{"H2", "H3"}, InitialStackSize: 100, StackSize: 100, Bankroll: 100},
			}},
	}}
	return t
}

"""

seed("b25-raise-below-minimum", "C25", "a bot that picks a raise while the current wager is larger than the last raise",
     "the bot's raise can be smaller than the current wager plus the previous raise",
     [(BOT_, "gs.Status.CurrentWager + gs.Status.PreviousRaiseSize", "gs.Status.PreviousRaiseSize")],
     """func TestDemo(t *testing.T) {
	for i := int64(1); i < 60; i++ {
		x := &table{}
		a := actor.NewActor()
		b := actor.NewBotRunner("p")
		a.SetAdapter(x)
		a.SetRunner(b)
		h := hand(i, "raise")
		h.State.GameState.Status.CurrentWager, h.State.GameState.Status.PreviousRaiseSize = 60, 20
		if err := a.UpdateTableState(h); err != nil {
			t.Fatal(err)
		}
		if len(x.did) != 1 || x.did[0] != "raise" || x.chips[0] < 80 || x.chips[0] > 100 {
			t.Fatal(x.did, x.chips)
		}
	}
}
""", head=AHEAD, pkg="actor")

seed("b26-folded-player-blind", "C26", "a player who has folded and looks at the rest of the hand",
     "a player who folded no longer sees his own cards",
     [(PL_, "func (pr *PlayerRunner) OnAutoModeUpdated(", """// seenBy is the player whose cards are shown.
func seenBy(t *pokertable.Table, idx int) int {
	if idx >= 0 && t.State.GameState.Players[idx].Fold {
		return -1
	}
	return idx
}

func (pr *PlayerRunner) OnAutoModeUpdated("""), (PL_, "		cloneTable.State.GameState.AsPlayer(gpIdx)\n", "		cloneTable.State.GameState.AsPlayer(seenBy(&cloneTable, gpIdx))\n")],
     """func TestDemo(t *testing.T) {
	x := &table{}
	a := actor.NewActor()
	p := actor.NewPlayerRunner("p")
	a.SetAdapter(x)
	a.SetRunner(p)
	own, other := 0, 0
	p.OnTableStateUpdated(func(s *pokertable.Table) {
		own, other = len(s.State.GameState.Players[0].HoleCards), len(s.State.GameState.Players[1].HoleCards)
	})
	h := hand(1)
	h.State.GameState.Players[0].Fold = true
	if err := a.UpdateTableState(h); err != nil {
		t.Fatal(err)
	}
	if own != 2 || other != 0 {
		t.Fatal("own cards", own, "other cards", other)
	}
}
""", head=AHEAD, pkg="actor")

seed("b27-suspended-too-early", "C27", "a player who answers neither of two moves in a row",
     "a player is put on auto play one missed move before the configured number",
     [(PL_, "	if pr.idleCount == pr.suspendThreshold {", "	if pr.idleCount > 0 && pr.idleCount+1 >= pr.suspendThreshold {")],
     """func TestDemo(t *testing.T) {
	x := &table{}
	a := actor.NewActor()
	p := actor.NewPlayerRunner("p")
	a.SetAdapter(x)
	a.SetRunner(p)
	auto := false
	p.OnAutoModeUpdated(func(_ string, on bool) { auto = on })
	p.SetSuspendThreshold(2)
	for i := int64(1); i < 3; i++ {
		if err := a.UpdateTableState(hand(i, "check")); err != nil {
			t.Fatal(err)
		}
		time.Sleep(1500 * time.Millisecond)
	}
	if len(x.did) != 2 || auto {
		t.Fatal("did", x.did, "auto", auto)
	}
}
""", head=AHEAD, pkg="actor")

seed("b24-reserve-outside-lock", "C24", "a refund that arrives while the same player's seat is being reserved",
     "the buy-in lets other requests in while it reserves the seat: a refund takes the player off the table before the seat is reserved, and the seat stays taken",
     [(E_, "		if err := ce.tableManagerBackend.PlayerReserve(tableID, jp); err != nil {\n", "		ce.mu.Unlock()\n		err := ce.tableManagerBackend.PlayerReserve(tableID, jp)\n		ce.mu.Lock()\n		if err != nil {\n")],
     """type slow struct {
	*fake
	asked chan bool
	goOn  chan bool
	log   []string
}

func (s *slow) PlayerReserve(t string, j pokertable.JoinPlayer) error {
	s.asked <- true
	<-s.goOn
	s.log = append(s.log, "reserve "+j.PlayerID)
	return nil
}

func (s *slow) PlayersLeave(t string, p []string) error {
	s.log = append(s.log, "leave "+p[0])
	return nil
}

func TestDemo(t *testing.T) {
	s := &slow{fake: newFake(), asked: make(chan bool), goOn: make(chan bool)}
	ce := pc.NewCompetitionEngine(pc.WithTableManagerBackend(s), pc.WithTableOptions(pokertable.NewTableEngineOptions()))
	if _, err := ce.CreateCompetition(pc.CompetitionSetting{CompetitionID: "c1", Meta: meta(pc.CompetitionMode_CT), StartAt: pc.UnsetValue, DisableAt: far(), TableSettings: []pc.TableSetting{{TableID: "t1"}}}); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool, 2)
	go func() { _ = buy(ce, "a", 100); done <- true }()
	<-s.asked
	go func() { _ = ce.PlayerRefund("a"); done <- true }()
	time.Sleep(300 * time.Millisecond)
	s.goOn <- true
	<-done
	<-done
	if len(s.log) != 2 || s.log[0] != "reserve a" {
		t.Fatal("asked of the table:", s.log)
	}
}
""", head=HEAD.replace('pokercompetition"\n)', 'pokercompetition"\n	"github.com/weedbox/pokertable"\n)'))

seed("b20-released-in-seat-order", "C20", "a table that must give up a player and whose blind order differs from its seat order",
     "the player moved to another table is the first by seat, not the one the blind order asks for",
     [(I_, "		for idx, playerID := range table.State.NextBBOrderPlayerIDs {\n			if idx < releaseCount {", "		for idx, playerID := range alivePlayerIDs {\n			if idx < releaseCount {")],
     """func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_MTT)
	m.TableMaxSeatCount = 3
	m.MinPlayerCount, m.RegulatorMinInitialPlayerCount = 6, 2
	m.ReBuySetting.MaxTime = 0
	m.Blind.FinalBuyInLevelIndex = pc.UnsetValue
	ce, c := newComp(f, m, far())
	for _, id := range []string{"a", "b", "c", "d", "e", "g"} {
		if err := buy(ce, id, 100); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := ce.StartCompetition(); err != nil {
		t.Fatal(err)
	}
	if len(f.created) != 2 {
		t.Fatal("tables:", len(f.created))
	}
	ids := func(i int) (r []string) {
		for _, j := range f.created[i].JoinPlayers {
			r = append(r, j.PlayerID)
		}
		return
	}
	x, y := ids(0), ids(1)
	ce.UpdateTable(tableOf(c, f.created[1].TableID, settled, 1, seat{y[0], 300}, seat{y[1], 0}, seat{y[2], 0}))
	u := tableOf(c, f.created[0].TableID, settled, 1, seat{x[0], 100}, seat{x[1], 100}, seat{x[2], 100})
	u.State.NextBBOrderPlayerIDs = []string{x[2], x[0], x[1]}
	ce.UpdateTable(u)
	r := f.removed[f.created[0].TableID]
	if len(r) != 1 || r[0] != x[2] {
		t.Fatal("released", r, "expected", x[2])
	}
}
""")

seed("b21-advance-waits-for-closed-table", "C21", "an MTT with an advancement rule in which a table closes before the others pause",
     "the number of tables is not brought up to date, so the end condition waits for a table that was closed",
     [(I_, "		// 晉級計算\n		ce.competition.State.AdvanceState.TotalTables = len(ce.competition.State.Tables)\n", "		// 晉級計算\n")],
     """func TestDemo(t *testing.T) {
	f := newFake()
	m := meta(pc.CompetitionMode_MTT)
	m.TableMaxSeatCount = 3
	m.MinPlayerCount, m.RegulatorMinInitialPlayerCount = 6, 2
	m.ReBuySetting.MaxTime = 0
	m.Blind.FinalBuyInLevelIndex = 0
	m.Blind.Levels[0].Duration = 2
	m.AdvanceSetting = pc.AdvanceSetting{Rule: pc.CompetitionAdvanceRule_PlayerCount, PlayerCount: 3}
	ce, c := newComp(f, m, far())
	ce.OnAdvancePlayerCountUpdated(func(string, int) int { return 3 })
	for _, id := range []string{"a", "b", "c", "d", "e", "g"} {
		if err := buy(ce, id, 100); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := ce.StartCompetition(); err != nil {
		t.Fatal(err)
	}
	if len(f.created) != 2 {
		t.Fatal("tables:", len(f.created))
	}
	time.Sleep(4 * time.Second)
	var ids [2][]string
	for i := range ids {
		for _, j := range f.created[i].JoinPlayers {
			ids[i] = append(ids[i], j.PlayerID)
		}
	}
	x, y := ids[0], ids[1]
	t0, t1 := f.created[0].TableID, f.created[1].TableID
	ce.UpdateTable(tableOf(c, t0, settled, 1, seat{x[0], 200}, seat{x[1], 100}, seat{x[2], 0}))
	ce.UpdateTable(tableOf(c, t1, settled, 1, seat{y[0], 300}, seat{y[1], 0}, seat{y[2], 0}))
	ce.UpdateTable(tableOf(c, t1, pokertable.TableStateStatus_TableClosed, 1))
	ce.UpdateTable(tableOf(c, t0, settled, 2, seat{x[0], 300}, seat{x[1], 0}, seat{y[0], 300}))
	time.Sleep(5 * time.Second)
	if c.State.AdvanceState.Status != pc.CompetitionAdvanceStatus_End {
		t.Fatal(c.State.AdvanceState.Status, c.State.AdvanceState.TotalTables, c.State.AdvanceState.UpdatedTables, c.PlayingPlayerCount(), f.paused)
	}
}
""", head=HEAD.replace('pokercompetition"\n)', 'pokercompetition"\n	"github.com/weedbox/pokertable"\n)'))
