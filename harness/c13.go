package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C13: competitions of any mode with three players (thorough: four), late buy-in ending after any of the first three levels (one of them a break) or never; each player with chips (playing, waiting for a table or leaving), waiting for a re-buy (with or without a window, open or just ended) or knocked out; one table with any players broke, or two tables (MTT), or no table; then all levels expire one after the other
// BOUND C13: symbolic: chips, joining times, re-buy counts; the table may refuse to let a player leave
// OUTSIDE C13: schedules without late buy-in (they start in the stopped state, see C17 and C21)

func c13(mode pc.CompetitionMode) {
	n := 3 + sym.Tier()
	final := sym.Choose("final", 4) - 1
	fi := final
	if final < 0 {
		fi = pc.NoStopBuyInIndex
	}
	k := Cfg{mode: mode, n: n, finalIdx: fi, maxReBuy: smallN, waiting: 1000000, duration: 1000000}
	two := false
	if mode == pc.CompetitionMode_MTT && sym.Choose("tables", 2) == 1 {
		two = true
		k.seats = 2
		if n == 3 {
			k.n = 4
		}
	}
	n = k.n
	w := started(k)
	if two {
		sym.Assert(len(w.c.State.Tables) == 2, "set-up: four players fill two tables of two")
	}
	w.b.leaveErr = sym.Bool("leaveErr")
	if final > 0 {
		w.level(final)
	}
	vtime.SetNow(vtime.NowUnix() + 50)
	// the table as last reported
	alive := 0
	if !two {
		t := w.table(pokertable.TableStateStatus_TableGamePlaying, 3)
		t.ID = w.b.tables[0]
		live := sym.Choose("live", 4) // the last live players of the table
		for i, p := range t.State.PlayerStates {
			if i+live < n {
				p.Bankroll = 0
			} else {
				alive++
			}
		}
		w.ce.UpdateTable(t)
	}
	chips, wait, out := w.classes(true)
	window := [10]bool{}
	for _, i := range wait {
		window[i] = sym.Choose("window", 2) == 1
		p := w.c.State.Players[i]
		p.IsReBuying = window[i]
		if !window[i] || mode == pc.CompetitionMode_MTT {
			p.ReBuyEndAt = pc.UnsetValue
		} else { // it may have ended just now
			p.ReBuyEndAt = sym.Int64Range("windowEnd", base, base+100000)
		}
	}
	w.c.Meta.TableMinPlayerCount = sym.IntRange("tableMin", 1, 4)
	for _, i := range chips {
		w.c.State.Players[i].Status = playerStatus(sym.StrOf("in", string(stPlaying), string(stWaiting), string(stLeaving)))
	}
	w.fixStats()
	order(chips, func(i int) int64 { return w.c.State.Players[i].Chips }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	for a := 0; a < len(wait); a++ {
		for b := 0; b < a; b++ {
			sym.Assume(w.c.State.Players[wait[a]].JoinAt != w.c.State.Players[wait[b]].JoinAt)
		}
	}
	s := w.snap()
	w.b.reset()
	cnt := w.finalCnt
	sym.Assert(w.c.State.Status == pc.CompetitionStateStatus_DelayedBuyIn, "late buy-in is open until its last level has ended")
	expire := func(i int) {
		for _, x := range vtime.Timers() {
			if x.Pending() && x.Due.Unix() == w.c.State.BlindState.EndAts[i] && x.Due.Nanosecond() == 0 {
				vtime.SetNow(w.c.State.BlindState.EndAts[i])
				x.Fire()
				return
			}
		}
		sym.Assert(false, "every timed level ends")
	}
	if final < 0 {
		for i := 0; i < 3; i++ {
			expire(i)
		}
		sym.Assert(sym.And(w.c.State.Status == pc.CompetitionStateStatus_DelayedBuyIn, w.finalN == s.finalN, len(w.c.State.Rankings) == s.rankings), "without a last level late buy-in never ends")
		for i, p := range w.c.State.Players {
			sym.Assert(same(p, &s.players[i]), "without a last level nobody is knocked out")
		}
		sym.Reach("never")
		return
	}
	expire(final)
	now := vtime.NowUnix()
	closes := !two && alive < 2 && mode != pc.CompetitionMode_Cash
	if closes {
		sym.Assert(w.c.State.Status == pc.CompetitionStateStatus_End, "a tournament without two live players at its only table ends with late buy-in")
		sym.Reach("closed")
	} else {
		sym.Assert(w.c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn, "late buy-in ends when its last level has ended")
	}
	sym.Assert(w.c.State.BlindState.CurrentLevelIndex == final+1, "the blinds move to the next level")
	inWait := [10]bool{}
	leave := 0
	for _, i := range wait {
		inWait[i] = true
		p := w.c.State.Players[i]
		o := &s.players[i]
		sym.Assert(sym.And(p.Status == stKnockout, p.KnockoutAt == now, !p.IsReBuying, p.ReBuyEndAt == pc.UnsetValue, p.CurrentSeat == pc.UnsetValue), "who still waits for a re-buy is knocked out")
		sym.Assert(sym.And(sameMoney(p, o), sameStats(p, o), p.JoinAt == o.JoinAt), "being knocked out costs nothing else")
		sym.Assert(w.finalCnt[i] == cnt[i]+1, "his final rank is announced once")
		sym.Assert(w.entries(p.PlayerID) == 1, "he enters the ranking once")
		better := 0
		for _, j := range wait {
			better += sym.B2I(w.c.State.Players[j].JoinAt < p.JoinAt)
		}
		sym.Assert(w.finalRank[i] == len(chips)+better+1, "he ranks behind the players with chips and those who joined earlier")
		sit := window[i] && mode == pc.CompetitionMode_CT
		leave += sym.B2I(sit)
		sym.Assert(w.b.left[i] == sym.B2I(sit), "he leaves the table he still sat at exactly once")
	}
	sym.Assert(w.b.leaveTot == leave, "nobody else leaves")
	for i, p := range w.c.State.Players {
		if inWait[i] {
			continue
		}
		sym.Assert(same(p, &s.players[i]), "everybody else stays as he is")
		add := 0
		if closes {
			for _, j := range chips {
				add += sym.B2I(j == i)
			}
		}
		sym.Assert(w.finalCnt[i] == cnt[i]+add, "nobody else is announced")
	}
	sym.Assert(w.statsFit(), "the player counters fit the players after late buy-in")
	total := len(wait) + len(out)
	if closes {
		total += len(chips)
	}
	sym.Assert(len(w.c.State.Rankings) == total, "exactly those knocked out are ranked")
	sym.ReachIf(len(wait) > 1, "several out")
	// later levels
	s2 := w.snap()
	for i := final + 1; i < 3; i++ {
		expire(i)
		sym.Assert(sym.Implies(closes, w.c.State.BlindState.CurrentLevelIndex == final+1), "the blinds of an ended competition stand still")
	}
	w.unchanged(s2, "a later level")
	sym.Assert(w.setN == sym.B2I(closes), "the competition is settled at most once")
}

func C13_ct()   { c13(pc.CompetitionMode_CT) }
func C13_mtt()  { c13(pc.CompetitionMode_MTT) }
func C13_cash() { c13(pc.CompetitionMode_Cash) }

// C13_notable: the only table was closed before late buy-in ended
func C13_notable() {
	w := create(Cfg{mode: pc.CompetitionMode_MTT, n: 2, finalIdx: 1, duration: 1000000})
	_, err := w.ce.StartCompetition()
	sym.Assert(err == nil, "set-up: a registering competition starts")
	vtime.RunTasks()
	// no table yet closed; the competition loses its table list
	w.c.State.Tables = w.c.State.Tables[:0]
	w.level(2)
	sym.Assert(w.c.State.Status == pc.CompetitionStateStatus_End, "a tournament without a table ends with late buy-in")
}
