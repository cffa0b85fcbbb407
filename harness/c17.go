package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C17: CT and cash games with three registered players (thorough: four), any of them seated, in or broke; minimum player count 1..5, start time unset, zero or scheduled, and the table reported before, at or after it, twice; the scheduled time reached with any of them ready; started by hand or not
// BOUND C17: MTTs with up to four buy-ins (thorough: five) and one refund before and after a manual or scheduled start, minimum player count 1..4, buy-ins of 0..3 units
// BOUND C17: with and without late buy-in; an initial level that exists or not; a table that refuses to start
// OUTSIDE C17: competitions whose table is missing

func (w *World) runs(finalIdx int, now int64, label string) {
	want := pc.CompetitionStateStatus_DelayedBuyIn
	if finalIdx == pc.UnsetValue {
		want = pc.CompetitionStateStatus_StoppedBuyIn
	}
	sym.Assert(w.c.State.Status == want, label+": late buy-in is open exactly when there is one")
	bs := w.c.State.BlindState
	sym.Assert(sym.And(bs.CurrentLevelIndex == 0, bs.EndAts[0] == now+600), label+": the blinds run from now on")
}

func c17gate(mode pc.CompetitionMode) {
	n := 3 + sym.Tier()
	startAt := []int64{pc.UnsetValue, base + 1000}[sym.Choose("startAt", 2)]
	fi := []int{pc.UnsetValue, 1}[sym.Choose("final", 2)]
	min := sym.IntRange("min", 1, 5)
	byHand := sym.Choose("byHand", 2) == 1
	k := Cfg{mode: mode, n: n, finalIdx: fi, minPlayer: min, startAt: startAt, duration: 5000, disableAt: base + 1000000}
	bad := sym.Choose("badLevel", 2) == 1
	if bad {
		k.initial = 77
	}
	w := create(k)
	if startAt == pc.UnsetValue && sym.Choose("zero", 2) == 1 {
		w.c.State.StartAt = 0
	}
	now := base + sym.Int64Range("now", 500, 1500)
	vtime.SetNow(now)
	if byHand {
		_, err := w.ce.StartCompetition()
		sym.Assert(sym.And(err == nil, w.c.State.StartAt == now), "a registering competition can be started by hand")
		_, err = w.ce.StartCompetition()
		sym.Assert(err != nil, "a competition starts once")
		sym.Assert(sym.And(w.c.State.Status == pc.CompetitionStateStatus_Registering, w.b.startN == 0), "starting by hand does not start the table before its players are ready")
	}
	w.b.startErr = sym.Bool("startErr")
	w.b.reset()
	was := w.c.State.StartAt
	errs := w.errN
	t := w.table(pokertable.TableStateStatus_TableCreated, 0)
	ready := 0
	for _, p := range t.State.PlayerStates {
		p.IsIn = sym.Bool("in")
		p.Bankroll = sym.Int64Range("bank", 0, big)
		ready += sym.B2I(sym.And(p.IsIn, p.Bankroll > 0))
	}
	w.b.onBlind = func(string, int, int64, int64, int64, int64) {
		sym.Assert(w.b.startN == 0, "the table knows its blinds before it starts")
	}
	w.ce.UpdateTable(t)
	cond := ready >= min
	if mode == pc.CompetitionMode_CT {
		cond = sym.And(cond, sym.Or(was <= 0, now >= was))
	}
	goes := sym.And(cond, !bad)
	sym.Assert(sym.Iff(w.b.startN == 1, goes), "the table is started exactly when enough players are ready and the start time has come")
	sym.Assert(w.b.startN <= 1, "the table is started once")
	sym.Assert(sym.Iff(w.c.State.Status != pc.CompetitionStateStatus_Registering, goes), "the competition runs exactly then")
	sym.Assert(sym.Iff(w.errN > errs, sym.And(cond, sym.Or(bad, w.b.startErr))), "a start that fails is reported")
	if goes {
		sym.Reach("started")
		w.runs(fi, now, "a competition that starts")
		sym.Assert(sym.And(w.c.State.StartAt == now, w.b.startTbl == tableID, w.b.blindPer[0] == 1), "the competition starts now and its table gets the blinds once")
		if mode == pc.CompetitionMode_CT {
			sym.Assert(w.c.State.EndAt == now+5000, "a CT ends after its duration")
		}
	} else if !byHand && !bad {
		sym.Reach("waits")
		sym.Assert(sym.And(w.c.State.StartAt == was, w.b.blindN == 0, w.c.State.BlindState.CurrentLevelIndex == -1), "a competition that does not start stays as it is")
	}
	// the same again
	started := w.b.startN
	st := w.c.State.StartAt
	vtime.SetNow(now + 1)
	if goes {
		w.ce.UpdateTable(t)
		sym.Assert(sym.And(w.b.startN == started, w.c.State.StartAt == st), "a running competition is not started again")
		_, err := w.ce.StartCompetition()
		sym.Assert(err != nil, "a competition starts once")
	}
}

func C17_ct()   { c17gate(pc.CompetitionMode_CT) }
func C17_cash() { c17gate(pc.CompetitionMode_Cash) }

// C17_schedule: what happens at the scheduled time
func C17_schedule() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_Cash}[sym.Choose("mode", 2)]
	n := 3
	at := base + sym.Int64Range("at", 100, 100000)
	min := sym.IntRange("min", 1, 4)
	w := create(Cfg{mode: mode, n: n, finalIdx: 1, minPlayer: min, startAt: at, duration: 5000, disableAt: base + 1000000})
	vtime.SetNow(base + 50)
	t := w.table(pokertable.TableStateStatus_TableCreated, 0)
	ready := 0
	for _, p := range t.State.PlayerStates {
		p.IsIn = sym.Bool("in")
		ready += sym.B2I(p.IsIn)
	}
	w.ce.UpdateTable(t)
	vtime.RunTasks()
	early := sym.And(mode == pc.CompetitionMode_Cash, ready >= min)
	sym.Assert(sym.Iff(w.b.startN == 1, early), "a scheduled CT does not start early, a cash game starts when enough players are ready")
	due(at, "the start is scheduled")
	cond := ready >= min
	sym.Assert(sym.Iff(w.b.startN == 1, cond), "at the scheduled time the table starts exactly when enough players are ready")
	sym.Assert(sym.Iff(w.c.State.Status == pc.CompetitionStateStatus_DelayedBuyIn, cond), "at the scheduled time the competition runs exactly when enough players are ready")
	if !early && cond {
		sym.Reach("on time")
		w.runs(1, at, "a scheduled competition")
		sym.Assert(w.c.State.StartAt == at, "a scheduled competition starts on time")
	}
	if !cond {
		// the missing players come later
		vtime.SetNow(at + 30)
		for _, p := range t.State.PlayerStates {
			p.IsIn = true
		}
		w.ce.UpdateTable(t)
		sym.Assert(sym.Iff(w.b.startN == 1, n >= min), "a competition whose players come late starts when enough of them are ready")
		if w.b.startN == 1 {
			sym.Reach("late")
			w.runs(1, at+30, "a competition that starts late")
		}
	}
	sym.Assert(w.b.startN <= 1, "the table is started once")
	sym.Assert(w.errN == 0, "nothing fails")
}

// C17_mtt: an MTT runs once it has been started and has enough players
func C17_mtt() {
	total := 4 + sym.Tier()
	min := 1 + sym.Choose("min", 4)
	sched := sym.Choose("sched", 2) == 1
	at := int64(pc.UnsetValue)
	if sched {
		at = base + 1000
	}
	fi := []int{pc.UnsetValue, 1}[sym.Choose("final", 2)]
	w := create(Cfg{mode: pc.CompetitionMode_MTT, n: 0, finalIdx: fi, minPlayer: min, startAt: at, disableAt: base + 1000000})
	before := sym.Choose("before", total+1)
	back := sym.Choose("refund", total+1) // after which buy-in the first player is refunded; total: never
	was := w.c.State.StartAt
	start := func() {
		if sched {
			due(at, "the start is scheduled")
		} else {
			_, err := w.ce.StartCompetition()
			sym.Assert(err == nil, "a registering competition can be started")
		}
		sym.Assert(sym.And(w.c.State.StartAt == vtime.NowUnix(), w.c.State.EndAt == pc.UnsetValue), "the start is recorded")
		_, err := w.ce.StartCompetition()
		sym.Assert(err != nil, "a competition starts once")
		was = w.c.State.StartAt
	}
	regs, started, running := 0, false, int64(0)
	check := func() {
		if started && regs >= min && running == 0 {
			running = vtime.NowUnix()
		}
		if running > 0 {
			sym.Reach("runs")
			w.runs(fi, running, "an MTT that runs")
		} else {
			sym.Assert(sym.And(w.c.State.Status == pc.CompetitionStateStatus_Registering, w.b.createN == 0, w.c.State.BlindState.CurrentLevelIndex == -1), "an MTT without enough players or not started deals nobody in")
		}
		sym.Assert(sym.And(w.c.State.StartAt == was, w.errN == 0), "the start time stays")
	}
	for i := 0; i < total; i++ {
		if i == before {
			start()
			started = true
			check()
		}
		if !sched || started {
			vtime.SetNow(vtime.NowUnix() + 10)
		}
		err := w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 1000, Unit: sym.IntRange("unit", 0, 3)})
		open := running == 0 || fi != pc.UnsetValue
		sym.Assert(sym.Iff(err == nil, open), "players can buy in before the blinds run and during late buy-in")
		if open {
			regs++
		}
		check()
		if i == back {
			err := w.ce.PlayerRefund(ids[0])
			sym.Assert(sym.Iff(err == nil, running == 0), "players can be refunded until the blinds run")
			if running == 0 {
				regs--
			}
			check()
		}
	}
	if !started {
		start()
		started = true
		check()
	}
}

// C17_table: a table that is not being created never starts a competition
func C17_table() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_Cash}[sym.Choose("mode", 2)]
	w := create(Cfg{mode: mode, n: 3, finalIdx: 1})
	vtime.SetNow(base + 50)
	t := w.table(pokertable.TableStateStatus(sym.StrOf("status", "table_restoring", "table_game_opened", "table_game_playing", "table_balancing", "table_game_standby")), 0)
	t.ID = sym.StrOf("tbl", tableID, "t2")
	s := w.snap()
	w.ce.UpdateTable(t)
	sym.Assert(sym.And(w.c.State.Status == pc.CompetitionStateStatus_Registering, w.b.startN == 0), "only a table that has been set up starts a competition")
	w.unchanged(s, "a report of a table that is not being set up")
	t2 := w.table(pokertable.TableStateStatus_TableCreated, 0)
	t2.ID = "t2"
	w.ce.UpdateTable(t2)
	sym.Assert(sym.And(w.c.State.Status == pc.CompetitionStateStatus_Registering, w.b.startN == 0), "a foreign table starts nothing")
}
