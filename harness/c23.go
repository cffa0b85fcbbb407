package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C23: one pause report, or one table that is ready for its first hand, with 0..4 players (thorough: 0..6) in any mode and status, during a level or a break; two tables in an MTT
// BOUND C23: symbolic: who is in, every stack, the minimum number of players, the number of hands played
// OUTSIDE C23: tables paused for the advancement (C21); the end of a break (C16)

func c23players(t *pokertable.Table, n int) (parts [10]bool, ready int) {
	t.State.PlayerStates = nil
	for i := 0; i < n; i++ {
		ps := &pokertable.TablePlayerState{PlayerID: ids[i], Seat: i, IsIn: sym.Bool("in"), Bankroll: sym.Int64Range("bank", 0, big), IsParticipated: sym.Bool("played")}
		t.State.PlayerStates = append(t.State.PlayerStates, ps)
		parts[i] = sym.And(ps.IsIn, ps.Bankroll > 0)
		ready += sym.B2I(parts[i])
	}
	return
}

// exactly: the set-up names exactly the ready players, each with his place in the table's list
func exactly(b *Backend, parts [10]bool, n, ready int) bool {
	ok := b.setupLen == ready
	for i := 0; i < n; i++ {
		ok = sym.And(ok, sym.Implies(parts[i], b.setupIdx[i] == i), sym.Implies(!parts[i], b.setupIdx[i] == -1))
	}
	return ok
}

func c23pause(mode pc.CompetitionMode) {
	fi := 0
	levels := []pc.BlindLevel{{Level: 1, SB: 10, BB: 20, Duration: 100}, {Level: -1, Duration: 100}, {Level: 2, SB: 20, BB: 40, Duration: 100}}
	status := pc.CompetitionStateStatus_DelayedBuyIn
	cur := sym.Choose("level", 3)
	switch sym.Choose("late", 3) {
	case 0:
		fi = pc.NoStopBuyInIndex
	case 1:
		fi = pc.UnsetValue
		status = pc.CompetitionStateStatus_StoppedBuyIn
	case 2:
		if cur > 0 {
			status = pc.CompetitionStateStatus_StoppedBuyIn
		}
	}
	n := 3 + 2*sym.Tier()
	k := Cfg{mode: mode, n: 3, finalIdx: fi, levels: levels, duration: 1000000, tableMin: 2, maxReBuy: 1}
	two := mode == pc.CompetitionMode_MTT && sym.Choose("two", 2) == 1
	if two {
		k.n, k.seats = 4, 2
	}
	w := started(k)
	w.b.n = 10
	tid := w.c.State.Tables[0].ID
	if two {
		tid = w.c.State.Tables[1].ID
	} else {
		n = sym.Choose("players", n+1)
	}
	w.ce.UpdateTable(func() *pokertable.Table {
		t := w.table(pokertable.TableStateStatus_TableGamePlaying, 1)
		t.ID = tid
		return t
	}())
	w.level(cur)
	if isEnd(w.c.State.Status) {
		sym.Stop()
	}
	sym.Assert(w.c.State.Status == status, "set-up: late buy-in")
	min := sym.IntRange("min", 0, 6)
	w.c.Meta.TableMinPlayerCount = min
	w.c.Meta.MinChipUnit = sym.Int64Range("chipUnit", 1, big)
	gc := sym.IntRange("games", 0, smallN)
	t := w.table(pokertable.TableStateStatus_TablePausing, gc)
	t.ID = tid
	t.Meta.TableMinPlayerCount = min
	parts, ready := c23players(t, n)
	switch sym.Choose("hand", 3) { // the hand the table shows
	case 1:
		t.State.GameState = &pokerface.GameState{}
	case 2:
		t.State.GameState = &pokerface.GameState{Result: &settlement.Result{}}
	}
	ended := sym.Choose("ended", 2) == 1
	if ended {
		w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
		w.b.reset()
	}
	w.b.setupErr = sym.Choose("refuses", 2) == 1
	tables := len(w.c.State.Tables)
	s := w.snap()
	vtime.SetNow(vtime.NowUnix() + 10)
	w.ce.UpdateTable(t)
	open := sym.And(!ended, ready >= min, cur != 1)
	if mode == pc.CompetitionMode_CT {
		open = sym.And(open, status == pc.CompetitionStateStatus_DelayedBuyIn)
	}
	sym.Assert(sym.Iff(w.b.setupN == 1, open), "a paused table is dealt again exactly when enough players are ready, outside breaks, and in a CT while late buy-in is open")
	sym.Assert(w.b.setupN <= 1, "a pause is answered once")
	if w.b.setupN == 1 {
		sym.Assert(sym.And(w.b.setupTbl == tid, w.b.setupGC == gc+1), "it is the next hand of the paused table")
		sym.Assert(exactly(w.b, parts, n, ready), "exactly the players who are in and have chips are dealt in")
	}
	sym.Assert(sym.And(w.b.startN == 0, w.b.pauseN == 0, w.b.closeN == 0, w.b.playerCalls() == 0), "a pause asks nothing else of the table")
	s.pcalls = w.b.playerCalls()
	w.unchanged(s, "a pause")
	sym.Assert(len(w.c.State.Tables) == tables, "a pause keeps the tables")
	sym.Assert(sym.Implies(!ended, w.c.State.Tables[tables-1].State.Status == pokertable.TableStateStatus_TablePausing), "the paused table is shown as paused")
	sym.ReachIf(w.b.setupN == 1, "dealt")
	sym.ReachIf(w.b.setupN == 0, "not dealt")
}

func C23_ct()   { c23pause(pc.CompetitionMode_CT) }
func C23_mtt()  { c23pause(pc.CompetitionMode_MTT) }
func C23_cash() { c23pause(pc.CompetitionMode_Cash) }

// C23_first: the first hand
func C23_first() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	w := started(Cfg{mode: mode, n: 3, finalIdx: 1, duration: 1000000})
	w.b.n = 10
	n := sym.Choose("players", 4+2*sym.Tier()+1)
	t := w.table(pokertable.TableStateStatus_TableCreated, 0)
	parts, ready := c23players(t, n)
	w.b.setupErr = sym.Choose("refuses", 2) == 1
	gc := sym.IntRange("game", 0, smallN)
	tid := w.c.State.Tables[0].ID
	s := w.snap()
	var err error
	if sym.Choose("how", 2) == 0 {
		err = w.ce.ReadyFirstTableGame(tid, gc, t.State.PlayerStates)
		sym.Assert(err == fail(w.b.setupErr), "the answer of the table is passed on")
	} else {
		w.b.cbReady(tid, gc, t.State.PlayerStates)
	}
	sym.Assert(sym.And(w.b.setupN == 1, w.b.setupTbl == tid, w.b.setupGC == gc), "a table that is ready for its first hand gets it once")
	sym.Assert(exactly(w.b, parts, n, ready), "exactly the players who are in and have chips are dealt in")
	w.unchanged(s, "the first hand")
}
