package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface/regulator"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C21: MTTs of 4 players (thorough: 4 or 5) at one or two tables of 3 seats with the real regulator, without an advancement, with one by the number of players left or by blind level, late buy-in never open or ending with a break
// BOUND C21: two events without an advancement, three with one (thorough: three and four, three for 5 players), each a settled hand of any table with any of its players broke, a table that refuses to pause, the pause report of any table, or the next level; symbolic: the stacks of the survivors, the number or level asked for
// OUTSIDE C21: more tables; hands that settle with another bust on a table after it was paused for the advancement

func c21(rule pc.CompetitionAdvanceRule, watched bool) {
	want := 0
	fi := pc.UnsetValue
	if sym.Choose("late", 2) == 1 {
		fi = 1
	}
	n := 4 + sym.Choose("players", 1+sym.Tier())
	switch rule {
	case pc.CompetitionAdvanceRule_PlayerCount:
		want = sym.IntRange("want", 0, 6)
	case pc.CompetitionAdvanceRule_BlindLevel:
		want = sym.IntRange("want", 1, 4)
	}
	seats := 3
	w := create(Cfg{mode: pc.CompetitionMode_MTT, n: n, seats: seats, finalIdx: fi, maxReBuy: 0, minPlayer: 2, meta: func(m *pc.CompetitionMeta) {
		m.RegulatorMinInitialPlayerCount = 2
		m.AdvanceSetting.Rule = rule
		if rule == pc.CompetitionAdvanceRule_BlindLevel {
			m.AdvanceSetting.BlindLevel = want
		} else {
			m.AdvanceSetting.PlayerCount = 99 // the host decides when late buy-in has ended
		}
	}})
	w.advance = want
	extra := sym.IntRange("units", 0, smallN) // some bought several units
	w.c.State.Players[0].TotalBuyInUnits += extra
	w.c.State.Statistic.TotalBuyInCount += extra
	asked := 0
	h := newHall(w, seats)
	if watched {
		h.view = follow(w)
	}
	h.twin(2)
	_ = h.reg.AddPlayers(ids[:n])
	for i := 0; i < n; i++ {
		h.chips[i] = 1000
	}
	cur := 0
	reached := false // decided before every hand
	h.stops = func() bool { return reached }
	vtime.SetNow(base + 20)
	_, err := w.ce.StartCompetition()
	h.must(err == nil, "set-up: a registering competition starts")
	vtime.RunTasks()
	h.reg.SetStatus(regulator.CompetitionStatus_Normal)
	h.confirm()
	stopped := fi == pc.UnsetValue
	paused := map[string]bool{}
	count := 0
	levels := stdLevels()
	check := func(label string) {
		if watched {
			h.check(label)
			return
		}
		on := stopped && rule != ""
		asked = sym.B2I(on && rule == pc.CompetitionAdvanceRule_PlayerCount)
		h.must(sym.And(w.advanceN == asked, sym.Implies(asked == 1, w.advanceArg == n+extra)), label+": the host is asked for the number of players to advance exactly once, when late buy-in is over")
		a := w.c.State.AdvanceState
		open := 0
		for _, t := range h.tabs {
			open += sym.B2I(!t.gone)
		}
		if on {
			h.must(sym.And(a.UpdatedTables == count, len(a.UpdatedTableIDs) == count), label+": every table paused for the advancement is counted once")
			h.must(sym.Implies(count > 0, a.TotalTables == open), label+": the advancement counts the open tables")
			h.must(sym.Iff(a.Status == pc.CompetitionAdvanceStatus_End, count > 0 && count == open), label+": the advancement is over when every open table is paused")
			h.must(sym.Implies(a.Status != pc.CompetitionAdvanceStatus_End, a.Status == pc.CompetitionAdvanceStatus_Updating), label+": the advancement runs once late buy-in is over")
		} else {
			h.must(sym.And(a.Status == pc.CompetitionAdvanceStatus_NotStart, a.UpdatedTables <= 0, len(a.UpdatedTableIDs) == 0), label+": no advancement before late buy-in is over, or without a rule")
		}
		money := true
		for i, p := range w.c.State.Players {
			money = sym.And(money, p.Chips == h.chips[i])
		}
		h.must(sym.And(h.ok, h.carried()), label+": the regulator's decisions are carried out exactly")
		h.must(money, label+": nobody's chips change")
		h.must(len(w.c.State.Tables) == open, label+": the competition lists exactly the open tables")
	}
	check("after the start")
	next := func() {
		at := w.c.State.BlindState.EndAts[cur]
		w.b.reset()
		cur++
		if cur == 2 && fi == 1 {
			stopped = true
			h.reg.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
		}
		due(at, "every level ends")
		open := 0
		for _, t := range h.tabs {
			open += sym.B2I(!t.gone)
		}
		if isEnd(w.c.State.Status) {
			h.must(open == 0 || open == 1 && stopped, "a level ends no MTT that still has two tables")
			sym.Stop()
		}
		if cur == 3 { // the break is over
			for _, x := range vtime.PendingTimers() {
				if x.Due.Unix() == at+1 {
					vtime.SetNow(at + 1)
					x.Fire()
				}
			}
			vtime.RunTasks()
			for k, t := range h.tabs {
				h.must(sym.Implies(paused[t.id], sym.And(w.b.setupPer[k] == 0, w.b.startPer[k] == 0)), "a table paused for the advancement does not resume after a break")
			}
		}
		h.confirm()
		check("after a level")
	}
	if fi == 1 && sym.Choose("skip", 2) == 1 {
		next()
		next()
	}
	events := 3
	if watched || rule == "" || sym.Tier() == 1 && n == 5 {
		events = 2
	}
	if !watched {
		events += sym.Tier()
	}
	for e := 0; e < events; e++ {
		var live []*tab
		for _, t := range h.tabs {
			if !t.gone {
				live = append(live, t)
			}
		}
		op := sym.Choose("op", 2*len(live)+1)
		switch {
		case op < len(live):
			t := live[op]
			if len(t.who) < 2 {
				sym.Stop()
			}
			again := paused[t.id] // its last hand had not been over when it was paused
			broke := make([]bool, len(t.who))
			mask := sym.Choose("broke", 1<<len(t.who)-1)
			survivors := 0
			left := 0
			if again && mask != 0 {
				sym.Stop()
			}
			for i := range broke {
				broke[i] = mask>>i&1 == 1 || h.dead[t.who[i]]
				survivors += sym.B2I(!broke[i])
				left -= sym.B2I(broke[i] && !h.dead[t.who[i]])
			}
			if survivors == 0 {
				sym.Stop()
			}
			for i := 0; i < n; i++ {
				left += sym.B2I(!h.dead[i])
			}
			left = sym.Pin(left)
			lvl := levels[cur].Level
			if lvl == -1 {
				lvl = levels[cur-1].Level
			}
			reached = stopped && (rule == pc.CompetitionAdvanceRule_PlayerCount && left < want || rule == pc.CompetitionAdvanceRule_BlindLevel && lvl >= want)
			w.b.pauseErr = reached && !again && sym.Choose("refuses", 2) == 1
			w.b.reset()
			errs := w.errN
			vtime.SetNow(vtime.NowUnix() + 10)
			now := vtime.NowUnix()
			h.hand(t, broke)
			over := false
			if reached {
				h.must(sym.And(w.b.pauseN == 1 || again && w.b.pauseN == 0, w.b.pauseTbl == t.id), "a table whose hand finds the advancement reached is paused once")
				h.must(sym.And(w.b.updN == 0, w.b.setupN == 0, w.b.startN == 0, w.b.closeN == 0), "a table paused for the advancement is not balanced, closed or dealt")
				h.must(again || sym.Iff(w.errN == errs+1, w.b.pauseErr), "a table that does not pause is reported")
				if !w.b.pauseErr && !again {
					paused[t.id] = true
					count++
					over = count == len(live)
				}
			} else {
				h.must(w.b.pauseN == 0, "no table is paused before the advancement is reached")
				h.must(w.errN == errs, "nothing fails")
				over = stopped && survivors == 1 && len(live) == 1
			}
			h.must(!isEnd(w.c.State.Status), "a hand does not end the competition at once")
			ends := false
			for _, x := range vtime.PendingTimers() {
				ends = ends || x.Due.Unix() == now+3
			}
			h.must(ends == over, "a competition is about to end exactly when every open table is paused for the advancement, or one player is left at its only table")
			if over {
				check("after the last hand")
				for _, x := range vtime.PendingTimers() {
					if x.Due.Unix() == now+3 {
						vtime.SetNow(now + 3)
						x.Fire()
					}
				}
				vtime.RunTasks()
				h.must(sym.And(w.c.State.Status == pc.CompetitionStateStatus_End, w.setN == 1), "the competition ends when the advancement is over")
				h.must(rule == "" || w.c.State.AdvanceState.UpdatedTables == count, "the end leaves the advancement as it is")
				sym.ReachIf(rule == "" || reached, "ends")
				sym.Stop()
			}
			h.confirm()
			if isEnd(w.c.State.Status) {
				sym.Stop()
			}
			check("after a hand")
		case op < 2*len(live):
			t := live[op-len(live)]
			if t.gc == 0 {
				sym.Stop()
			}
			x := newTable(t.id, pokertable.TableSetting{TableID: t.id})
			x.Meta = w.b.settings[0].Meta
			x.State.Status = pokertable.TableStateStatus_TablePausing
			x.State.GameCount = t.gc
			ready := 0
			for i, p := range t.who {
				ready += sym.B2I(h.chips[p] > 0)
				x.State.PlayerStates = append(x.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: ids[p], Seat: i, Bankroll: h.chips[p], IsIn: true})
			}
			w.b.reset()
			w.ce.UpdateTable(x)
			h.must(sym.And(sym.Implies(paused[t.id], w.b.setupN == 0), w.b.startN == 0, w.b.pauseN == 0, w.b.closeN == 0), "a table paused for the advancement is not dealt again")
			h.must(sym.Implies(!paused[t.id], sym.Iff(w.b.setupN == 1, levels[cur].Level != -1 && sym.Pin(ready) >= 2)), "a table paused for another reason is dealt again")
			check("after a pause")
		default:
			if cur == 3 {
				sym.Stop()
			}
			next()
		}
	}
}

// C21_breaks: in a break the level before it counts
func C21_breaks() {
	levels := []pc.BlindLevel{{Level: 3, SB: 10, BB: 20, Duration: 100}, {Level: -1, Duration: 100}, {Level: -1, Duration: 100}, {Level: 5, SB: 10, BB: 20, Duration: 100}}
	want := sym.IntRange("want", 1, 7)
	w := started(Cfg{mode: pc.CompetitionMode_MTT, n: 4, finalIdx: pc.UnsetValue, levels: levels, initial: 3, maxReBuy: 0, minPlayer: 2, meta: func(m *pc.CompetitionMeta) {
		m.AdvanceSetting.Rule, m.AdvanceSetting.BlindLevel = pc.CompetitionAdvanceRule_BlindLevel, want
	}})
	k := sym.Choose("level", 4)
	for i := 0; i < k; i++ {
		due(w.c.State.BlindState.EndAts[i], "every level ends")
	}
	lvl := 3
	if k == 3 {
		lvl = 5
	}
	w.b.reset()
	t := settled(w, 1)
	t.ID = w.b.tables[0]
	w.ce.UpdateTable(t)
	sym.Assert(sym.Iff(w.b.pauseN == 1, lvl >= want), "a table is paused exactly when the running level, in a break the level before it, is the one asked for")
	sym.Assert(w.b.pauseN <= 1, "it is paused once")
	sym.ReachIf(lvl >= want, "reached")
}

func C21_none()  { c21("", false) }
func C21_count() { c21(pc.CompetitionAdvanceRule_PlayerCount, false) }
func C21_level() { c21(pc.CompetitionAdvanceRule_BlindLevel, false) }
