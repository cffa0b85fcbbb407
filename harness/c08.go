package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C08: one settled hand of three participants (thorough: four, in every mode) and one seated player who sits out, reported twice
// BOUND C08: symbolic: every statistics flag of every player, action counts 0..1000, the fold round, prior totals, the change of stack of each participant (-2^40..2^40), combination power 0..1000 with a known best, the seat of the big blind
// OUTSIDE C08: the correctness of the flags the table reports

type statRec struct {
	g pokertable.TablePlayerGameStatistics
}

func symStats() pokertable.TablePlayerGameStatistics {
	return pokertable.TablePlayerGameStatistics{
		ActionTimes: sym.IntRange("actions", 0, smallN), RaiseTimes: sym.IntRange("raises", 0, smallN),
		CallTimes: sym.IntRange("calls", 0, smallN), CheckTimes: sym.IntRange("checks", 0, smallN),
		IsFold: sym.Bool("fold"), FoldRound: sym.StrOf("foldRound", "", pokertable.GameRound_Preflop, pokertable.GameRound_Flop, pokertable.GameRound_Turn, pokertable.GameRound_River),
		IsVPIPChance: sym.Bool("vpipC"), IsVPIP: sym.Bool("vpip"),
		IsPFRChance: sym.Bool("pfrC"), IsPFR: sym.Bool("pfr"),
		IsATSChance: sym.Bool("atsC"), IsATS: sym.Bool("ats"),
		Is3BChance: sym.Bool("3bC"), Is3B: sym.Bool("3b"),
		IsFt3BChance: sym.Bool("ft3bC"), IsFt3B: sym.Bool("ft3b"),
		IsCheckRaiseChance: sym.Bool("crC"), IsCheckRaise: sym.Bool("cr"),
		IsCBetChance: sym.Bool("cbC"), IsCBet: sym.Bool("cb"),
		IsFtCBChance: sym.Bool("ftcbC"), IsFtCB: sym.Bool("ftcb"),
		ShowdownWinningChance: sym.Bool("sdC"), IsShowdownWinning: sym.Bool("sd"),
	}
}

func inc(b bool) int { return sym.B2I(b) }

func C08_hand() {
	n := 3
	mode := pc.CompetitionMode_CT
	if sym.Tier() == 1 {
		n = 4
		mode = []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_Cash, pc.CompetitionMode_MTT}[sym.Choose("mode", 3)]
	}
	// the player that sits out is one of the table's seats
	w := started(Cfg{mode: mode, n: n + 1, finalIdx: 1, maxReBuy: 1, duration: 1000000})
	out := sym.Choose("out", n+1)
	tid := w.b.tables[0]
	vtime.SetNow(base + 60)
	for i, p := range w.c.State.Players {
		p.BestWinningPotChips = sym.Int64Range("bestPot", 0, big)
		p.BestWinningPower = sym.IntRange("bestPower", 0, smallN)
		p.BestWinningType = "old"
		p.TotalFoldTimes = sym.IntRange("folds", 0, smallN)
		p.TotalRiverFoldTimes = i
		p.TotalGameCounts = sym.Int64Range("games", 0, big)
		p.TotalProfitTimes = sym.IntRange("profits", 0, smallN)
		p.TotalVPIPTimes = 3
	}
	t := settled(w, 1)
	t.ID = tid
	st := t.State
	gi := []int{}
	for i, p := range st.PlayerStates {
		p.GameStatistics = symStats()
		p.Bankroll = int64(1000 + i)
		if i == out {
			p.IsParticipated = false
		} else {
			gi = append(gi, i)
		}
	}
	st.GamePlayerIndexes = gi
	st.GameState.Players = st.GameState.Players[:n]
	st.GameState.Result.Players = st.GameState.Result.Players[:n]
	st.CurrentBBSeat = sym.IntRange("bb", -1, n)
	changed := [10]int64{}
	power := [10]int{}
	for g := 0; g < n; g++ {
		changed[g] = sym.Int64Range("changed", -big, big)
		power[g] = sym.IntRange("power", 0, smallN)
		st.GameState.Result.Players[g].Changed = changed[g]
		st.GameState.Players[g].Combination.Power = power[g]
		st.GameState.Players[g].Combination.Type = "new"
	}
	preFolds := 0
	for g := 0; g < n; g++ {
		s := &st.PlayerStates[gi[g]].GameStatistics
		preFolds += inc(sym.And(s.IsFold, s.FoldRound == pokertable.GameRound_Preflop))
	}
	s := w.snap()
	w.ce.UpdateTable(t)
	w.ce.UpdateTable(t)
	if len(w.c.State.Players) != n+1 {
		sym.Assert(false, "a hand without broke players removes nobody")
		sym.Stop()
	}
	sym.Assert(sameStats(w.c.State.Players[out], &s.players[out]), "a player who sat out has played no hand")
	for g := 0; g < n; g++ {
		i := gi[g]
		p, o := w.c.State.Players[i], &s.players[i]
		x := &st.PlayerStates[i].GameStatistics
		f := x.IsFold
		sym.Assert(p.TotalGameCounts == o.TotalGameCounts+1, "a participant has played exactly one more hand")
		sym.Assert(p.TotalFoldTimes == o.TotalFoldTimes+inc(f), "folds are counted once")
		sym.Assert(p.TotalPreflopFoldTimes == o.TotalPreflopFoldTimes+inc(sym.And(f, x.FoldRound == "preflop")), "preflop folds are counted once")
		sym.Assert(p.TotalFlopFoldTimes == o.TotalFlopFoldTimes+inc(sym.And(f, x.FoldRound == "flop")), "flop folds are counted once")
		sym.Assert(p.TotalTurnFoldTimes == o.TotalTurnFoldTimes+inc(sym.And(f, x.FoldRound == "turn")), "turn folds are counted once")
		sym.Assert(p.TotalRiverFoldTimes == o.TotalRiverFoldTimes+inc(sym.And(f, x.FoldRound == "river")), "river folds are counted once")
		sym.Assert(p.TotalActionTimes == o.TotalActionTimes+x.ActionTimes, "actions add up")
		sym.Assert(p.TotalRaiseTimes == o.TotalRaiseTimes+x.RaiseTimes, "raises add up")
		sym.Assert(p.TotalCallTimes == o.TotalCallTimes+x.CallTimes, "calls add up")
		sym.Assert(p.TotalCheckTimes == o.TotalCheckTimes+x.CheckTimes, "checks add up")
		sym.Assert(sym.And(p.TotalVPIPChances == o.TotalVPIPChances+inc(x.IsVPIPChance), p.TotalVPIPTimes == o.TotalVPIPTimes+inc(x.IsVPIP)), "VPIP adds up")
		sym.Assert(sym.And(p.TotalPFRChances == o.TotalPFRChances+inc(x.IsPFRChance), p.TotalPFRTimes == o.TotalPFRTimes+inc(x.IsPFR)), "PFR adds up")
		sym.Assert(sym.And(p.TotalATSChances == o.TotalATSChances+inc(x.IsATSChance), p.TotalATSTimes == o.TotalATSTimes+inc(x.IsATS)), "ATS adds up")
		sym.Assert(sym.And(p.Total3BChances == o.Total3BChances+inc(x.Is3BChance), p.Total3BTimes == o.Total3BTimes+inc(x.Is3B)), "3-bets add up")
		sym.Assert(sym.And(p.TotalFt3BChances == o.TotalFt3BChances+inc(x.IsFt3BChance), p.TotalFt3BTimes == o.TotalFt3BTimes+inc(x.IsFt3B)), "folds to 3-bets add up")
		sym.Assert(sym.And(p.TotalCheckRaiseChances == o.TotalCheckRaiseChances+inc(x.IsCheckRaiseChance), p.TotalCheckRaiseTimes == o.TotalCheckRaiseTimes+inc(x.IsCheckRaise)), "check-raises add up")
		sym.Assert(sym.And(p.TotalCBetChances == o.TotalCBetChances+inc(x.IsCBetChance), p.TotalCBetTimes == o.TotalCBetTimes+inc(x.IsCBet)), "continuation bets add up")
		sym.Assert(sym.And(p.TotalFtCBChances == o.TotalFtCBChances+inc(x.IsFtCBChance), p.TotalFtCBTimes == o.TotalFtCBTimes+inc(x.IsFtCB)), "folds to continuation bets add up")
		sym.Assert(sym.And(p.TotalShowdownWinningChances == o.TotalShowdownWinningChances+inc(x.ShowdownWinningChance), p.TotalShowdownWinningTimes == o.TotalShowdownWinningTimes+inc(x.IsShowdownWinning)), "showdown wins add up")
		win := changed[g] > 0
		sym.Assert(p.TotalProfitTimes == o.TotalProfitTimes+inc(win), "a won hand is counted for exactly the winners")
		walk := sym.And(win, st.CurrentBBSeat == i, x.ActionTimes == 0, preFolds == n-1)
		sym.Assert(p.TotalWalkTimes == o.TotalWalkTimes+int64(inc(walk)), "a walk is counted for the big blind everybody folded to")
		sym.Assert(p.BestWinningPotChips == sym.IteInt64(sym.And(win, changed[g] > o.BestWinningPotChips), changed[g], o.BestWinningPotChips), "the best pot is the largest one won")
		better := sym.And(win, power[g] >= o.BestWinningPower)
		sym.Assert(p.BestWinningPower == sym.IteInt(better, power[g], o.BestWinningPower), "the best combination is the strongest one that won")
		sym.Assert(sym.Implies(sym.And(win, power[g] > o.BestWinningPower), p.BestWinningType == "new"), "the best combination is the strongest one that won")
		sym.Assert(sym.Implies(sym.Or(!win, power[g] < o.BestWinningPower), p.BestWinningType == "old"), "the best combination is the strongest one that won")
		sym.ReachIf(walk, "walk")
		sym.ReachIf(sym.And(win, !better), "weaker win")
	}
}
