package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C18: the closing time of a competition of any mode with 0..3 registered players, registering, running or ended, symbolic minimum player count
// BOUND C18: one settled hand of three players (thorough: four) with any number of survivors, before or after late buy-in, at any time relative to the start of the table, symbolic duration; in an MTT with one or two tables
// BOUND C18: the end time of a CT with its table in any status; the report of a closed table with one or two tables; the end of automatic opening in any mode and status
// OUTSIDE C18: a table that fails to close

func C18_disable() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	phase := sym.Choose("phase", 5)
	n := sym.Choose("players", 4)
	min := sym.IntRange("min", 1, 5)
	at := base + 500
	k := Cfg{mode: mode, n: n, finalIdx: 1, minPlayer: min, disableAt: at}
	var w *World
	status := pc.CompetitionStateStatus_Registering
	switch phase {
	case 0:
		w = create(k)
	case 1:
		if n < 2 {
			sym.Stop()
		}
		k.minPlayer = 2
		w = started(k)
		w.c.Meta.MinPlayerCount = min
		status = pc.CompetitionStateStatus_DelayedBuyIn
	case 2:
		w = create(k)
		w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
		status = pc.CompetitionStateStatus_ForceEnd
	case 4: // started by hand, but it cannot get going
		w = create(k)
		if mode == pc.CompetitionMode_MTT {
			sym.Assume(n < min)
		}
		if _, err := w.ce.StartCompetition(); err != nil {
			sym.Assert(false, "a registering competition can be started by hand")
		}
	case 3: // one more player arrives after another was refunded
		w = create(k)
		if n > 0 {
			sym.Assert(w.ce.PlayerRefund(ids[0]) == nil, "a registered player can be refunded")
		}
		n--
		if n < 0 {
			n = 0
		}
	}
	vtime.RunTasks()
	var x *vtime.Timer
	for _, t := range vtime.PendingTimers() {
		if t.Due.Unix() == at && t.Due.Nanosecond() == 0 {
			x = t
		}
	}
	if x == nil {
		sym.Assert(false, "the closing time is watched")
		sym.Stop()
	}
	vtime.SetNow(at)
	x.Fire()
	auto := sym.And(sym.Or(phase == 0, phase > 2), n < min)
	sym.Assert(sym.Iff(w.c.State.Status == pc.CompetitionStateStatus_AutoEnd, auto), "at the closing time a competition without enough players ends by itself")
	sym.Assert(sym.Implies(!auto, w.c.State.Status == status), "at the closing time any other competition goes on")
	sym.Assert(w.setN == sym.B2I(sym.Or(auto, phase == 2)), "it is settled once when it ends")
	sym.ReachIf(phase == 0 && n < 2, "auto end")
}

func c18hand(mode pc.CompetitionMode) {
	n := 3 + sym.Tier()
	stop := sym.Choose("stopped", 2) == 1
	fi := 3
	if stop {
		fi = pc.UnsetValue
	}
	duration := sym.IntRange("duration", 1, 100000)
	tmin := 2 + sym.Choose("tmin", 2)
	k := Cfg{mode: mode, n: n, finalIdx: fi, tableMin: tmin, duration: duration, maxReBuy: 1, waiting: 100000, disableAt: base + 10000000,
		levels: []pc.BlindLevel{{Level: 1, SB: 10, BB: 20, Duration: 5000000}}}
	two := mode == pc.CompetitionMode_MTT && sym.Choose("tables", 2) == 1
	if two {
		n = 4
		k.n, k.seats = 4, 2
	}
	w := started(k)
	tid := w.b.tables[0]
	now := base + sym.Int64Range("now", 100, 200000)
	vtime.SetNow(now)
	alive := sym.Choose("alive", n+1)
	seated := n
	if two {
		seated = 2
		if alive > 2 {
			sym.Stop()
		}
	}
	t := settled(w, 1)
	t.ID = tid
	t.Meta = w.b.settings[0].Meta
	t.State.PlayerStates = t.State.PlayerStates[:seated]
	t.State.GamePlayerIndexes = t.State.GamePlayerIndexes[:seated]
	t.State.NextBBOrderPlayerIDs = t.State.NextBBOrderPlayerIDs[:seated]
	t.State.GameState.Players, t.State.GameState.Result.Players = t.State.GameState.Players[:seated], t.State.GameState.Result.Players[:seated]
	for i, p := range t.State.PlayerStates {
		p.Bankroll = 0
		if i < alive {
			p.Bankroll = int64(1000 * (n - i))
		}
	}
	startAt := base + sym.Int64Range("tableStart", 0, 100)
	t.State.StartAt = startAt
	w.b.onUpdate = func(tbl string, join []pokertable.JoinPlayer, leave []string) map[string]int {
		m := map[string]int{}
		for i := 0; i < alive; i++ {
			m[ids[i]] = i
		}
		return m
	}
	vtime.RunTasks()
	before := len(vtime.Timers())
	nt := len(w.c.State.Tables)
	w.ce.UpdateTable(t)
	timeUp := now > startAt+int64(duration)
	var close bool
	switch mode {
	case pc.CompetitionMode_CT:
		close = sym.Or(timeUp, sym.And(stop, alive < tmin))
	case pc.CompetitionMode_Cash:
		close = timeUp
	case pc.CompetitionMode_MTT:
		close = stop && alive == 1 && nt == 1
	}
	sym.Assert(sym.And(w.c.State.Status != pc.CompetitionStateStatus_End, w.setN == 0), "a competition does not end before the players have seen the last hand")
	// exactly three seconds later
	vtime.RunTasks()
	fired := 0
	for _, x := range vtime.TimersFrom(before) {
		if x.Pending() && x.Due.Unix() == now+3 {
			vtime.SetNow(now + 3)
			x.Fire()
			fired++
		}
	}
	sym.Assert(sym.Iff(w.c.State.Status == pc.CompetitionStateStatus_End, close), "a competition ends after a hand exactly when its end condition holds")
	sym.Assert(w.setN == sym.B2I(close), "it is settled once")
	sym.ReachIf(close, "ends")
	sym.ReachIf(!close, "goes on")
}

func C18_handct()   { c18hand(pc.CompetitionMode_CT) }
func C18_handmtt()  { c18hand(pc.CompetitionMode_MTT) }
func C18_handcash() { c18hand(pc.CompetitionMode_Cash) }

// C18_time: the end time of a CT
func C18_time() {
	duration := sym.IntRange("duration", 1, 1000000)
	// a status may be reported right before the end time
	w := started(Cfg{mode: pc.CompetitionMode_CT, n: 2, finalIdx: 1, duration: duration, disableAt: base + 100000000, levels: []pc.BlindLevel{{Level: 1, SB: 10, BB: 20, Duration: 50000000}}})
	st := []string{"table_created", "table_pausing", "table_restoring", "table_balancing", "table_game_standby", "table_game_opened", "table_game_playing", "table_game_settled", "table_closed"}[sym.Choose("status", 9)]
	gc := sym.IntRange("games", 0, smallN)
	t := w.table(pokertable.TableStateStatus(st), 1)
	if st != "table_game_settled" {
		t.State.GameCount = gc
	}
	running := sym.Or(st == "table_game_opened", st == "table_game_playing", st == "table_game_settled")
	vtime.SetNow(base + 10)
	if st == "table_game_settled" {
		x := settled(w, 1)
		x.State.StartAt = base + 5000000
		t = x
	}
	w.ce.UpdateTable(t)
	ended := sym.Choose("ended", 2) == 1
	if ended {
		w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
	}
	w.b.closeErr = sym.Bool("closeErr")
	w.b.reset()
	e := w.errN
	if w.c.State.EndAt < 0 {
		sym.Assert(false, "a running CT has an end time")
		sym.Stop()
	}
	sym.Assert(w.c.State.EndAt == base+10+int64(duration), "a CT ends after its duration")
	due(w.c.State.EndAt, "the end time is watched")
	closes := sym.And(!ended, !running, st != "table_closed")
	sym.Assert(w.b.closeN == sym.B2I(closes), "at the end time the table is closed, unless a hand is running")
	sym.Assert(sym.Implies(closes, w.b.closeTbl == tableID), "at the end time its own table is closed")
	sym.Assert(sym.Iff(w.errN > e, sym.And(closes, w.b.closeErr)), "a table that fails to close is reported")
	sym.Assert(sym.And(w.b.startN == 0, w.b.setupN == 0, w.b.playerCalls() == 0), "nothing else happens at the end time")
}

// C18_closed: the report of a closed table
func C18_closed() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	running := sym.Choose("running", 2) == 1
	k := Cfg{mode: mode, n: 2, finalIdx: []int{pc.UnsetValue, 1}[sym.Choose("final", 2)]}
	two := mode == pc.CompetitionMode_MTT && sym.Choose("tables", 2) == 1
	if two {
		k.n, k.seats = 4, 2
	}
	var w *World
	if running {
		w = started(k)
	} else {
		if mode == pc.CompetitionMode_MTT {
			sym.Stop()
		}
		w = create(k)
	}
	nt := len(w.c.State.Tables)
	which := 0
	if two {
		which = sym.Choose("which", 2)
	}
	t := w.table(pokertable.TableStateStatus_TableClosed, 1)
	t.ID = w.b.tables[which]
	if mode == pc.CompetitionMode_MTT {
		t.Meta = w.b.settings[which].Meta
	}
	stranger := sym.Choose("stranger", 2) == 1
	if stranger {
		t.ID = "tx"
	}
	for _, p := range w.c.State.Players {
		p.Chips = sym.Int64Range("chips", 0, big)
		p.Status = playerStatus(sym.StrOf("status", string(stPlaying), string(stReBuy)))
		sym.Assume(sym.Iff(p.Status == stReBuy, p.Chips == 0))
	}
	w.fixStats()
	was := w.c.State.Status
	s := w.snap()
	w.ce.UpdateTable(t)
	if stranger {
		sym.Assert(sym.And(w.c.State.Status == was, len(w.c.State.Tables) == nt, w.setN == 0), "a foreign table closes nothing")
		return
	}
	sym.Assert(len(w.c.State.Tables) == nt-1, "a closed table is removed")
	for _, x := range w.c.State.Tables {
		sym.Assert(x.ID != t.ID, "exactly the closed table is removed")
	}
	if two {
		sym.Assert(sym.And(w.c.State.Status == was, w.setN == 0), "a competition with another table goes on")
		t.ID = w.b.tables[1-which]
		t.Meta = w.b.settings[1-which].Meta
		w.ce.UpdateTable(t)
	}
	sym.Assert(sym.And(w.c.State.Status == pc.CompetitionStateStatus_End, w.setN == 1, len(w.c.State.Tables) == 0), "a competition ends with its last table")
	for i, p := range w.c.State.Players {
		sym.Assert(sameMoney(p, &s.players[i]), "closing a table moves no chips")
	}
	w.ce.UpdateTable(t)
	sym.Assert(w.setN == 1, "it ends once")
	sym.Reach("ended")
}

// C18_open: the table reports that it opens no more hands by itself
func C18_open() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	fi := []int{pc.UnsetValue, 1}[sym.Choose("final", 2)]
	running := sym.Choose("running", 2) == 1
	var w *World
	if running {
		w = started(Cfg{mode: mode, n: 3, finalIdx: fi})
	} else {
		w = create(Cfg{mode: mode, n: 3, finalIdx: fi})
	}
	for _, p := range w.c.State.Players {
		p.Chips = sym.Int64Range("chips", 0, big)
		p.Status = playerStatus(sym.StrOf("status", string(stPlaying), string(stReBuy)))
		sym.Assume(sym.Iff(p.Status == stReBuy, p.Chips == 0))
	}
	w.fixStats()
	tid := "tx"
	if sym.Choose("known", 2) == 1 {
		if len(w.b.tables) == 0 {
			sym.Stop()
		}
		tid = w.b.tables[0]
	}
	was := w.c.State.Status
	err := w.ce.AutoGameOpenEnd(tid)
	sym.Assert(sym.Iff(err == nil, tid != "tx"), "only a table of the competition can report")
	closes := err == nil && mode == pc.CompetitionMode_CT && running && fi == pc.UnsetValue
	want := was
	if closes {
		want = pc.CompetitionStateStatus_End
		sym.Reach("ended")
	}
	sym.Assert(sym.And(w.c.State.Status == want, w.setN == sym.B2I(closes)), "a CT after late buy-in ends when its table opens no more hands, anything else goes on")
	w.ce.AutoGameOpenEnd(tid)
	sym.Assert(w.setN == sym.B2I(closes), "it ends once")
}
