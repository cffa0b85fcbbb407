package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C09: one settled hand of three seated players (thorough: four) and one player elsewhere, in every mode, before and after late buy-in closes; any of them broke, one of the broke ones possibly waiting in his window or knocked out before
// BOUND C09: symbolic: re-buy counts and limit 0..1000, window 0..600 s, joining times, clock
// OUTSIDE C09: players at a table who never bought in; ranks among players knocked out together who joined in the same second

func c09(mode pc.CompetitionMode) {
	n := 3
	if sym.Tier() == 1 && mode != pc.CompetitionMode_MTT {
		n = 4
	}
	lvl := 2 * sym.Choose("closed", 2)
	max := sym.IntRange("maxReBuy", 0, smallN)
	waiting := sym.IntRange("window", 0, 600)
	w := started(Cfg{mode: mode, n: n + 1, finalIdx: 1, maxReBuy: max, waiting: waiting, duration: 1000000})
	w.level(lvl)
	stop := lvl > 1
	now := vtime.NowUnix() + 50
	vtime.SetNow(now)
	broke, prior := [10]bool{}, [10]int{}
	nb := 0
	for i := 0; i < n; i++ {
		broke[i] = sym.Choose("broke", 2) == 1
		if broke[i] {
			nb++
			if nb == 1 {
				prior[i] = sym.Choose("prior", 3)
			}
		}
	}
	for i, p := range w.c.State.Players {
		p.ReBuyTimes = 0
		if i < n && broke[i] {
			p.ReBuyTimes = sym.IntRange("rebuys", 0, smallN)
		}
		p.JoinAt = sym.Int64Range("join", base-1000, base)
		switch prior[i] {
		case 1: // in the window of an earlier hand
			if stop {
				sym.Stop()
			}
			sym.Assume(p.ReBuyTimes < max)
			p.Chips, p.Status, p.IsReBuying, p.ReBuyWaitingAt, p.ReBuyEndAt = 0, stReBuy, true, now-5, now+3
		case 2: // knocked out before, but still reported by the table
			p.Chips, p.Status, p.KnockoutAt, p.CurrentSeat = 0, stKnockout, now-5, pc.UnsetValue
			sym.Assume(sym.Or(p.ReBuyTimes >= max, stop))
			w.c.State.Rankings = append(w.c.State.Rankings, &pc.CompetitionRank{PlayerID: p.PlayerID, FinalChips: 0})
		}
	}
	w.fixStats()
	w.n = n
	t := settled(w, 1)
	w.n = n + 1
	t.ID = w.b.tables[0]
	gi := []int{}
	for i, p := range t.State.PlayerStates {
		if broke[i] {
			p.Bankroll = 0
		} else {
			p.Bankroll = int64(500 * (i + 1))
		}
		if prior[i] == 0 {
			gi = append(gi, i)
		} else {
			p.IsParticipated = false
		}
	}
	t.State.GamePlayerIndexes = gi
	t.State.GameState.Players = t.State.GameState.Players[:len(gi)]
	t.State.GameState.Result.Players = t.State.GameState.Result.Players[:len(gi)]
	arranged(n, func(i int) int64 { return t.State.PlayerStates[i].Bankroll }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	w.b.onUpdate = func(id string, join []pokertable.JoinPlayer, leave []string) map[string]int {
		r := map[string]int{}
		for i := 0; i < n; i++ {
			in := true
			for _, l := range leave {
				if l == ids[i] {
					in = false
				}
			}
			if in {
				r[ids[i]] = i
			}
		}
		return r
	}
	w.b.reset()
	vtime.RunTasks()
	nr := len(w.c.State.Rankings)
	s := w.snap()
	w.ce.UpdateTable(t)

	if len(w.c.State.Players) != n+1 {
		sym.Assert(false, "a settled hand removes no player who is broke")
		sym.Stop()
	}
	alive, out := 1, 0
	ko := [10]bool{}
	for i := 0; i < n; i++ {
		o := &s.players[i]
		alive += sym.B2I(!broke[i])
		ko[i] = sym.And(broke[i], prior[i] != 2, sym.Or(stop, o.ReBuyTimes >= max))
		out += sym.B2I(ko[i])
	}
	for i := 0; i < n; i++ {
		o, p := &s.players[i], w.c.State.Players[i]
		wait := sym.And(broke[i], prior[i] != 2, !ko[i])
		if !broke[i] {
			sym.Assert(sym.Or(p.Status == stPlaying, sym.And(mode == pc.CompetitionMode_MTT, p.Status == stWaiting)), "who has chips is neither knocked out nor waiting for a re-buy")
			sym.Assert(sym.And(!p.IsReBuying, p.KnockoutAt == pc.UnsetValue), "who has chips is neither knocked out nor waiting for a re-buy")
		}
		sym.Assert(sym.Implies(wait, sym.And(p.Status == stReBuy, p.IsReBuying, p.KnockoutAt == pc.UnsetValue)), "a broke player who may re-buy waits for it")
		if prior[i] == 0 {
			sym.Assert(sym.Implies(wait, p.ReBuyWaitingAt == now), "he waits from now on")
			if mode == pc.CompetitionMode_MTT {
				sym.Assert(sym.Implies(wait, sym.And(p.ReBuyEndAt == pc.UnsetValue, p.CurrentSeat == pc.UnsetValue)), "an MTT player waits without a seat and without a deadline")
			} else {
				sym.Assert(sym.Implies(wait, sym.And(p.ReBuyEndAt == now+int64(waiting), p.CurrentSeat == o.CurrentSeat)), "he keeps his seat for the waiting time")
			}
		} else if prior[i] == 1 {
			sym.Assert(sym.Implies(wait, sym.And(p.ReBuyWaitingAt == o.ReBuyWaitingAt, p.ReBuyEndAt == o.ReBuyEndAt)), "a running window is not extended by a further hand")
		} else {
			sym.Assert(sym.And(p.Status == stKnockout, p.KnockoutAt == o.KnockoutAt), "a knocked-out player stays knocked out")
		}
		sym.Assert(sym.Implies(ko[i], sym.And(p.Status == stKnockout, p.KnockoutAt == now, p.CurrentSeat == pc.UnsetValue)), "a broke player who cannot re-buy is knocked out")
		// announcements
		sym.Assert(w.finalCnt[i] == sym.B2I(ko[i]), "a final rank is announced exactly once, for exactly those knocked out")
		pos, tie := 1, false
		for j := 0; j < n; j++ {
			if j != i {
				pos += sym.B2I(sym.And(ko[j], s.players[j].JoinAt < o.JoinAt))
				tie = sym.Or(tie, sym.And(ko[j], s.players[j].JoinAt == o.JoinAt))
			}
		}
		sym.Assert(sym.Implies(sym.And(ko[i], !tie), w.finalRank[i] == alive+pos), "the announced rank counts the players with chips and those knocked out together who joined earlier")
		sym.Assert(sym.Implies(ko[i], sym.And(w.finalRank[i] > alive, w.finalRank[i] <= alive+out)), "players knocked out together share the ranks behind those with chips")
		// the list of ranks
		cnt := 0
		for k, r := range w.c.State.Rankings {
			if k >= nr {
				cnt += sym.B2I(r.PlayerID == p.PlayerID)
				sym.Assert(r.FinalChips == 0, "a knocked-out player leaves without chips")
			}
		}
		sym.Assert(cnt == sym.B2I(ko[i]), "exactly those knocked out enter the ranking")
		if mode == pc.CompetitionMode_CT {
			sym.Assert(w.b.left[i] == sym.B2I(ko[i]), "the table lets exactly those knocked out leave")
		}
		if mode == pc.CompetitionMode_MTT {
			sym.Assert(sym.Implies(broke[i], w.b.updLeave[i] == 1), "an MTT table lets everybody without chips leave")
		}
		sym.ReachIf(sym.And(wait, prior[i] == 0), "waits")
		sym.ReachIf(sym.And(ko[i], !stop), "knocked out by the re-buy limit")
		sym.ReachIf(sym.And(ko[i], stop), "knocked out after late buy-in")
	}
	for k := nr; k+1 < len(w.c.State.Rankings); k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				a, b := w.c.State.Rankings[k], w.c.State.Rankings[k+1]
				sym.Assert(sym.Implies(sym.And(a.PlayerID == ids[i], b.PlayerID == ids[j]), w.finalRank[i] > w.finalRank[j]), "the ranking lists the worse of two knocked-out players first")
			}
		}
	}
	if prior[0] == 0 && prior[1] == 0 && prior[2] == 0 {
		sym.Assert(same(w.c.State.Players[n], &s.players[n]), "players elsewhere are not affected")
	}
	sym.Assert(w.statsFit(), "the player counters fit the players after a hand")
}

func C09_ct()   { c09(pc.CompetitionMode_CT) }
func C09_mtt()  { c09(pc.CompetitionMode_MTT) }
func C09_cash() { c09(pc.CompetitionMode_Cash) }
