package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C19: competitions of any mode with 0..2 table settings of 0..3 players each, 1..4 seats, with and without listeners, a backend that refuses the first or the second table
// BOUND C19: symbolic: start and closing times, minimum player counts, add-on, re-buy and advancement settings, table meta data, chips and seats of the players of a table setting
// OUTSIDE C19: a start or closing time in the second of the creation; a schedule that is not valid (C15)

func C19_create() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	now := base + sym.Int64Range("now", 0, 1000)
	startAt := sym.Int64Range("startAt", -5, base+2000)
	disableAt := sym.Int64Range("disableAt", -5, base+2000)
	seats := sym.IntRange("seats", 1, 4)
	w := bare(3)
	if sym.Choose("silent", 2) == 1 {
		w.ce = pc.NewCompetitionEngine(pc.WithTableManagerBackend(w.b))
	}
	vtime.SetNow(now)
	w.b.createErr = sym.Bool("createErr")
	w.b.createOK = sym.Choose("createOK", 2) // so many tables are created before the backend refuses one
	fi := []int{pc.UnsetValue, pc.NoStopBuyInIndex, 1}[sym.Choose("final", 3)]
	m := setting(Cfg{mode: mode, finalIdx: fi}).Meta
	m.TableMaxSeatCount = seats
	m.MinPlayerCount = sym.IntRange("minPlayer", 0, 100)
	m.MaxDuration = sym.IntRange("duration", 0, 100000)
	m.TableMinPlayerCount = sym.IntRange("tableMin", 0, 10)
	m.MinChipUnit = sym.Int64Range("unit", 1, 1000)
	m.ActionTime = sym.IntRange("actionTime", 1, 1000)
	m.ReBuySetting.MaxTime = sym.IntRange("maxReBuy", 0, 10)
	m.AddonSetting.MaxTime = sym.IntRange("maxAddon", 0, 10)
	m.AdvanceSetting.PlayerCount = sym.IntRange("advance", 0, 10)
	s := pc.CompetitionSetting{CompetitionID: "c1", Meta: m, StartAt: startAt, DisableAt: disableAt}
	nt := sym.Choose("tables", 3)
	fits := true
	for k := 0; k < nt; k++ {
		ts := pc.TableSetting{TableID: []string{"t1", "t2"}[k]}
		np := sym.Choose("joins", 4)
		for i := 0; i < np; i++ {
			ts.JoinPlayers = append(ts.JoinPlayers, pokertable.JoinPlayer{PlayerID: ids[i], RedeemChips: sym.Int64Range("chips", 1, big), Seat: sym.IntRange("seat", -1, 8)})
		}
		fits = sym.And(fits, np <= seats)
		s.TableSettings = append(s.TableSettings, ts)
	}
	sym.Assume(sym.And(startAt != now, disableAt != now)) // this very second may be too late
	valid := sym.And(fits, disableAt >= now, sym.Or(startAt == pc.UnsetValue, startAt >= now))
	asks := mode != pc.CompetitionMode_MTT && nt > w.b.createOK
	c, err := w.ce.CreateCompetition(s)
	sym.Assert(sym.Iff(err == nil, sym.And(valid, !sym.And(asks, w.b.createErr))), "a competition is created exactly when its times lie ahead, its tables hold their players and the tables can be created")
	if err != nil {
		sym.Assert(sym.Implies(!valid, w.b.createN == 0), "an invalid competition creates no table")
		sym.Assert(c == nil, "a competition that cannot be created is not returned")
		sym.Assert(len(vtime.PendingTimers()) == 0, "a competition that cannot be created is neither started nor ended later")
		return
	}
	sym.Assert(w.ce.GetCompetition() == c, "the engine shows the created competition")
	st := c.State
	sym.Assert(sym.And(c.ID == "c1", st.Status == pc.CompetitionStateStatus_Registering), "a new competition is registering")
	sym.Assert(sym.And(st.OpenAt == now, st.StartAt == startAt, st.DisableAt == disableAt, st.EndAt == pc.UnsetValue), "a new competition keeps its times")
	g := c.Meta
	sym.Assert(sym.And(g.Mode == mode, g.TableMaxSeatCount == seats, g.MinPlayerCount == m.MinPlayerCount, g.MaxDuration == m.MaxDuration, g.TableMinPlayerCount == m.TableMinPlayerCount,
		g.MinChipUnit == m.MinChipUnit, g.ActionTime == m.ActionTime, g.ReBuySetting.MaxTime == m.ReBuySetting.MaxTime, g.ReBuySetting.WaitingTime == m.ReBuySetting.WaitingTime,
		g.AddonSetting.MaxTime == m.AddonSetting.MaxTime, g.AdvanceSetting.PlayerCount == m.AdvanceSetting.PlayerCount), "a new competition keeps its settings")
	sym.Assert(sym.And(len(st.Players) == 0, len(st.Rankings) == 0), "a new competition has no players and no ranking")
	sy := st.Statistic
	sym.Assert(sym.And(sy.TotalBuyInCount == 0, sy.TotalAddonCount == 0, sy.PlayingPlayerCount == 0, sy.WaitingTableBalancingPlayerCount == 0, sy.KnockoutPlayerCount == 0, sy.ReBuyWaitingPlayerCount == 0),
		"a new competition has counted nothing")
	sym.Assert(sym.And(st.BlindState.CurrentLevelIndex == pc.UnsetValue, st.BlindState.FinalBuyInLevelIndex == fi, len(st.BlindState.EndAts) == len(m.Blind.Levels)), "the blinds of a new competition do not run")
	sym.Assert(sym.And(st.AdvanceState.Status == pc.CompetitionAdvanceStatus_NotStart, len(st.AdvanceState.UpdatedTableIDs) == 0), "the advancement of a new competition has not started")
	want := nt
	if mode == pc.CompetitionMode_MTT {
		want = 0
	}
	sym.Assert(sym.And(len(st.Tables) == want, w.b.createN == want), "a CT or cash game creates exactly its tables, an MTT none yet")
	for k := 0; k < want; k++ {
		ts, o := w.b.settings[k], s.TableSettings[k]
		sym.Assert(sym.And(st.Tables[k].ID == o.TableID, ts.TableID == o.TableID, len(ts.JoinPlayers) == len(o.JoinPlayers)), "every table is the one asked for")
		for i, j := range ts.JoinPlayers {
			sym.Assert(sym.And(j.PlayerID == o.JoinPlayers[i].PlayerID, j.RedeemChips == o.JoinPlayers[i].RedeemChips, j.Seat == o.JoinPlayers[i].Seat), "every table seats the players asked for")
		}
		sym.Assert(sym.And(ts.Meta.CompetitionID == "c1", ts.Meta.Mode == string(mode), ts.Meta.Rule == string(m.Rule), ts.Meta.TableMaxSeatCount == seats, ts.Meta.TableMinPlayerCount == m.TableMinPlayerCount,
			ts.Meta.MinChipUnit == m.MinChipUnit, ts.Meta.ActionTime == m.ActionTime, ts.Meta.MaxDuration == m.MaxDuration), "every table plays by the rules of the competition")
		sym.Assert(sym.And(ts.Blind.Level == 0, ts.Blind.Ante == -1, ts.Blind.Dealer == -1, ts.Blind.SB == -1, ts.Blind.BB == -1), "a table has no blinds before the start")
	}
	sym.Assert(w.b.gameCalls()+w.b.playerCalls() == want, "nothing else is asked of the tables")
	err = w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[0], RedeemChips: 100, Unit: 1})
	sym.Assert(sym.Iff(err == nil, mode != pc.CompetitionMode_CT || nt > 0), "a new competition takes buy-ins")
}
