package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C16: schedules of up to five levels with no, one, two consecutive or two separate breaks; a CT or cash table, one or two MTT tables; tables that need two or three live players; every level expires in turn; MTT players who join during any level
// BOUND C16: symbolic: antes and blinds of every level; concrete lengths; a table that refuses new blinds
// BOUND C16: during a break each table reports nothing, a settled hand or a pause, before or after its first hand, with any of its players broke or sitting out
// BOUND C16: dealer blinds of 0 to 10 units; tables that are created during a break, the first one or a later one
// OUTSIDE C16: hands that are still running when a break ends

func schedules() ([]pc.BlindLevel, int) {
	k := sym.Choose("schedule", 4)
	lv := [][]int{{1, 2, 3}, {1, -1, 2}, {1, -1, -1, 2}, {1, -1, 2, -1, 3}}[k]
	r := []pc.BlindLevel{}
	for _, l := range lv {
		r = append(r, pc.BlindLevel{Level: l, SB: sym.Int64Range("sb", 0, big), BB: sym.Int64Range("bb", 0, big), Ante: sym.Int64Range("ante", 0, big), Duration: 100})
	}
	return r, k
}

func c16world(mode pc.CompetitionMode, levels []pc.BlindLevel) *World {
	k := Cfg{mode: mode, n: 3, finalIdx: pc.NoStopBuyInIndex, levels: levels, duration: 1000000, tableMin: 2 + sym.Choose("tableMin", 2)}
	if mode == pc.CompetitionMode_MTT {
		if sym.Choose("tables", 2) == 1 {
			k.n, k.seats = 4, 2
		}
	}
	if sym.Choose("shortdeck", 2) == 1 {
		k.rule = pc.CompetitionRule_ShortDeck
	}
	k.meta = func(m *pc.CompetitionMeta) { m.Blind.DealerBlindTime = sym.IntRange("dealerBlinds", 0, 10) }
	return started(k)
}

// dealerAnte: what the dealer pays on top of his ante
func (w *World) dealerAnte(l pc.BlindLevel) int64 {
	k := w.c.Meta.Blind.DealerBlindTime
	return sym.IteInt64(k > 0, l.Ante*int64(k-1), 0)
}

func c16levels(mode pc.CompetitionMode) {
	levels, _ := schedules()
	cur := 0
	ok := true
	late := false
	w := c16world(mode, levels)
	w.b.onBlind = func(t string, level int, ante, dealer, sb, bb int64) {
		l := levels[cur]
		ok = sym.And(ok, level == l.Level, ante == l.Ante, sb == l.SB, bb == l.BB, dealer == w.dealerAnte(l))
	}
	w.b.blindErr = sym.Bool("blindErr")
	nt := len(w.c.State.Tables)
	if mode == pc.CompetitionMode_MTT {
		for _, s := range w.b.settings {
			sym.Assert(sym.And(s.Blind.Level == levels[0].Level, s.Blind.Ante == levels[0].Ante, s.Blind.SB == levels[0].SB, s.Blind.BB == levels[0].BB, s.Blind.Dealer == w.dealerAnte(levels[0])), "a new table starts with the blinds of the running level")
		}
	}
	join := sym.Choose("join", len(levels)) // players arrive in this level
	// whatever a table last reported
	last := pokertable.TableStateStatus(sym.StrOf("tableStatus", "table_created", "table_pausing", "table_balancing", "table_game_standby", "table_game_playing", "table_game_settled"))
	for _, t := range w.c.State.Tables {
		t.State.Status = last
	}
	for i := 0; i < len(levels); i++ {
		if mode == pc.CompetitionMode_MTT && i == join {
			was := len(w.b.settings)
			for k := 0; k < w.c.Meta.TableMaxSeatCount; k++ {
				w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: "late" + ids[k], RedeemChips: 500, Unit: 1})
			}
			for _, s := range w.b.settings[was:] {
				l := levels[i]
				sym.Assert(sym.And(s.Blind.Level == l.Level, s.Blind.Ante == l.Ante, s.Blind.SB == l.SB, s.Blind.BB == l.BB, s.Blind.Dealer == w.dealerAnte(l)), "a new table starts with the blinds of the running level")
				late = true
			}
			nt = len(w.c.State.Tables)
		}
		w.b.reset()
		if i == len(levels)-1 {
			due(w.c.State.BlindState.EndAts[i], "every level ends")
			sym.Assert(w.b.blindN == 0, "the last level stays")
			break
		}
		cur = i + 1
		due(w.c.State.BlindState.EndAts[i], "every level ends")
		sym.Assert(sym.And(w.b.blindN == nt, ok), "every table gets exactly the blinds of the new level")
		for k := 0; k < nt; k++ {
			sym.Assert(w.b.blindPer[k] == 1, "every table gets the new blinds exactly once")
		}
	}
	sym.Assert(sym.Iff(w.errN > 0, w.b.blindErr), "a table that refuses the new blinds is reported")
	if mode == pc.CompetitionMode_MTT {
		sym.ReachIf(late, "late table")
	}
}

func C16_ct()   { c16levels(pc.CompetitionMode_CT) }
func C16_mtt()  { c16levels(pc.CompetitionMode_MTT) }
func C16_cash() { c16levels(pc.CompetitionMode_Cash) }

// C16_first: a CT or cash table has its blinds before its first hand
func C16_first() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_Cash}[sym.Choose("mode", 2)]
	levels, _ := schedules()
	w := create(Cfg{mode: mode, n: 2, finalIdx: 1, levels: levels, duration: 1000000})
	order := 0
	w.b.onBlind = func(t string, level int, ante, dealer, sb, bb int64) {
		l := levels[0]
		sym.Assert(sym.And(w.b.startN == 0, t == tableID, level == l.Level, ante == l.Ante, sb == l.SB, bb == l.BB), "the table gets the blinds of the initial level before it starts")
		order++
	}
	w.ce.UpdateTable(w.table(pokertable.TableStateStatus_TableCreated, 0))
	sym.Assert(sym.And(w.b.startN == 1, order == 1, w.b.startTbl == tableID), "the table is started once, with blinds")
}

// C16_newbreak: a table created in a break rests until the break is over
func C16_newbreak() {
	first := sym.Choose("first", 2) == 1 // the first table is created in the break
	levels := []pc.BlindLevel{{Level: 1, SB: 10, BB: 20, Duration: 100}, {Level: -1, Duration: 100}, {Level: 2, SB: 20, BB: 40, Duration: 100}}
	k := Cfg{mode: pc.CompetitionMode_MTT, n: 2, finalIdx: pc.NoStopBuyInIndex, levels: levels, seats: 2, duration: 1000000, minPlayer: 2}
	reg := 2
	if first {
		reg, k.seats = 3, 4
	}
	k.meta = func(m *pc.CompetitionMeta) { m.RegulatorMinInitialPlayerCount = reg }
	w := started(k)
	old := len(w.b.settings)
	sym.Assert(sym.Iff(first, old == 0), "set-up: a table is created when enough players are there")
	due(w.c.State.BlindState.EndAts[0], "every level ends")
	w.n = 4
	w.b.createStatus = pokertable.TableStateStatus_TablePausing
	for i := 2; i < 4; i++ {
		sym.Assert(w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 500, Unit: 1}) == nil, "set-up: players join in a break")
	}
	if len(w.b.settings) == old {
		sym.Stop()
	}
	sym.Assert(w.b.startN+w.b.setupN == 0, "nothing is dealt while the break lasts")
	live := [10]bool{}
	for j, t := range w.b.created {
		n := 0
		for _, p := range t.State.PlayerStates {
			p.IsIn = sym.Choose("in", 2) == 1
			n += sym.B2I(p.IsIn)
		}
		live[j] = n >= 2
		t.State.Status = pokertable.TableStateStatus_TablePausing
		w.ce.UpdateTable(t)
	}
	w.b.reset()
	end := w.c.State.BlindState.EndAts[1]
	due(end, "every level ends")
	sym.Assert(w.b.startN+w.b.setupN == 0, "tables go on one second after the break")
	vtime.SetNow(end + 1)
	for _, x := range vtime.PendingTimers() {
		if x.Due.Unix() == end+1 {
			x.Fire()
		}
	}
	for j := range w.b.created {
		sym.Assert(w.b.startPer[j] == sym.B2I(live[j]), "a table created in a break is started after it, once, when enough players are in")
	}
	sym.Assert(w.b.setupN == 0, "a table that has not played yet is started")
	sym.ReachIf(first, "first table")
	sym.ReachIf(!first, "another table")
}

func c16break(mode pc.CompetitionMode) {
	levels, kind := schedules()
	if kind == 0 {
		sym.Stop()
	}
	w := c16world(mode, levels)
	nt := len(w.c.State.Tables)
	bs := w.c.State.BlindState
	// before the break
	type plan struct {
		games, alive int
		parts        [10]bool
		tbl          *pokertable.Table
	}
	plans := []*plan{}
	for k := 0; k < nt; k++ {
		pl := &plan{games: 3 * sym.Choose("played", 2)}
		full := w.table(pokertable.TableStateStatus_TableGamePlaying, pl.games)
		full.ID = w.b.tables[k]
		full.Meta = w.b.settings[k].Meta
		if nt > 1 {
			var own []*pokertable.TablePlayerState
			for _, jp := range w.b.settings[k].JoinPlayers {
				for _, ps := range full.State.PlayerStates {
					if ps.PlayerID == jp.PlayerID {
						own = append(own, ps)
					}
				}
			}
			full.State.PlayerStates = own
		}
		for i, ps := range full.State.PlayerStates {
			switch {
			case i == 0 && sym.Choose("broke", 2) == 1:
				ps.Bankroll = 0
			case i == 1 && sym.Choose("out", 2) == 1:
				ps.IsIn = false
			}
			for q := 0; q < w.n; q++ {
				if ids[q] == ps.PlayerID {
					pl.parts[q] = ps.Bankroll > 0 && ps.IsIn
				}
			}
			pl.alive += sym.B2I(ps.Bankroll > 0)
		}
		pl.tbl = full
		w.ce.UpdateTable(full)
		plans = append(plans, pl)
	}
	due(bs.EndAts[0], "every level ends")
	sym.Assert(w.c.IsBreaking(), "the break begins")
	w.b.reset()
	// during the break
	report := sym.Choose("report", 5)
	for k, pl := range plans {
		switch report {
		case 4: // the table reports something else
			pl.tbl.State.Status = pokertable.TableStateStatus(sym.StrOf("tableStatus", "table_game_standby", "table_balancing", "table_game_playing"))
			w.ce.UpdateTable(pl.tbl)
		case 1: // the table pauses
			pl.tbl.State.Status = pokertable.TableStateStatus_TablePausing
			w.ce.UpdateTable(pl.tbl)
		case 2: // the last hand settles
			if pl.games == 0 {
				sym.Stop()
			}
			x := settled(w, pl.games)
			x.ID = pl.tbl.ID
			x.Meta = pl.tbl.Meta
			x.State.PlayerStates, x.State.GamePlayerIndexes, x.State.NextBBOrderPlayerIDs = pl.tbl.State.PlayerStates, nil, nil
			for i := range x.State.PlayerStates {
				x.State.GamePlayerIndexes = append(x.State.GamePlayerIndexes, i)
			}
			x.State.GameState.Players = x.State.GameState.Players[:len(x.State.PlayerStates)]
			x.State.GameState.Result.Players = x.State.GameState.Result.Players[:len(x.State.PlayerStates)]
			if nt > 1 {
				sym.Stop() // the regulator may break up tables
			}
			w.ce.UpdateTable(x)
		case 3: // one table is closed
			if k == 0 && nt > 1 {
				pl.tbl.State.Status = pokertable.TableStateStatus_TableClosed
				w.ce.UpdateTable(pl.tbl)
			} else if nt == 1 {
				sym.Stop()
			}
		}
	}
	if isEnd(w.c.State.Status) {
		sym.Stop()
	}
	sym.Assert(w.b.setupN+w.b.startN == 0, "nothing is dealt while the break lasts")
	w.b.startErr = sym.Bool("refuses")
	errs := w.errN
	last := 1 // last level of the break
	if kind == 2 {
		last = 2
		due(bs.EndAts[1], "every level ends")
		for _, x := range vtime.PendingTimers() {
			if x.Due.Unix() == bs.EndAts[1]+1 {
				vtime.SetNow(bs.EndAts[1] + 1)
				x.Fire()
			}
		}
		sym.Assert(w.b.setupN+w.b.startN == 0, "a break that follows a break keeps the tables paused")
	}
	due(bs.EndAts[last], "every level ends")
	sym.Assert(w.b.setupN+w.b.startN == 0, "tables go on one second after the break")
	for _, x := range vtime.PendingTimers() {
		if x.Due.Unix() == bs.EndAts[last]+1 {
			vtime.SetNow(bs.EndAts[last] + 1)
			x.Fire()
		}
	}
	total, starts := 0, 0
	for k, pl := range plans {
		parts := 0
		for i := 0; i < w.n; i++ {
			parts += sym.B2I(pl.parts[i])
		}
		closed := report == 3 && k == 0
		resume := pl.alive >= w.c.Meta.TableMinPlayerCount && !closed && (pl.games > 0 || parts >= w.c.Meta.TableMinPlayerCount)
		total += sym.B2I(resume)
		starts += sym.B2I(resume && pl.games == 0)
		sym.Assert(w.b.setupPer[k] == sym.B2I(resume && pl.games > 0), "after a break every table with enough live players is set up for its next hand, once")
		sym.Assert(w.b.startPer[k] == sym.B2I(resume && pl.games == 0), "after a break a table that has not played yet is started, once")
		if resume && pl.games > 0 {
			sym.Assert(w.b.setupCount[k] == pl.games+1, "the table goes on with its next hand")
			for i := 0; i < w.n; i++ {
				sym.Assert(w.b.setupParts[k][i] == pl.parts[i], "those with chips who are in take part")
			}
		}
	}
	sym.Assert(w.b.setupN+w.b.startN == total, "no other table is set up")
	sym.Assert(sym.Iff(w.errN > errs, sym.And(w.b.startErr, starts > 0)), "a table that does not start after a break is reported")
	sym.ReachIf(total > 0, "resumed")
	// what comes later
	w.b.reset()
	if kind == 3 {
		due(bs.EndAts[2], "every level ends")
		due(bs.EndAts[3], "every level ends")
		for _, x := range vtime.PendingTimers() {
			if x.Due.Unix() == bs.EndAts[3]+1 {
				vtime.SetNow(bs.EndAts[3] + 1)
				x.Fire()
			}
		}
		sym.Assert(w.b.setupN+w.b.startN == total, "a later break ends in the same way")
	}
	now := vtime.NowUnix()
	w.b.reset()
	for _, x := range vtime.PendingTimers() {
		if x.Due.Unix() > now && x.Due.Unix() < base+5000 {
			vtime.SetNow(x.Due.Unix())
			x.Fire()
		}
	}
	sym.Assert(w.b.setupN+w.b.startN == 0, "a table is resumed once per break")
}

func C16_breakct()   { c16break(pc.CompetitionMode_CT) }
func C16_breakmtt()  { c16break(pc.CompetitionMode_MTT) }
func C16_breakcash() { c16break(pc.CompetitionMode_Cash) }
