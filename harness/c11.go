package main

import (
	pc "github.com/weedbox/pokercompetition"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C11: one close of a running competition of any mode with three players (thorough: four), each with chips (playing, waiting for a table or leaving), waiting for a re-buy or knocked out in any order, with any end status; chips and joining times symbolic
// BOUND C11: tournaments of three players (thorough: four) without late buy-in: two hands (thorough: three), any players going broke in each, then the end
// OUTSIDE C11: the position of players who still wait for a re-buy when the competition is closed early; players who tie in chips and in joining time

// place is the index of a player in the final ranking, -1 if he is not in it.
func (w *World) place(pid string) int {
	r := -1
	for k, x := range w.c.State.Rankings {
		r = sym.IteInt(x.PlayerID == pid, k, r)
	}
	return r
}

func (w *World) entries(pid string) int {
	n := 0
	for _, x := range w.c.State.Rankings {
		n += sym.B2I(x.PlayerID == pid)
	}
	return n
}

func C11_close() {
	n := 3 + sym.Tier()
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	stopped := mode != pc.CompetitionMode_Cash && sym.Choose("stopped", 2) == 1
	fi := 2
	if stopped {
		fi = pc.UnsetValue
	}
	w := started(Cfg{mode: mode, n: n, finalIdx: fi, maxReBuy: 3, waiting: 100, duration: 1000000})
	vtime.SetNow(base + 100)
	chips, wait, out := w.classes(mode != pc.CompetitionMode_Cash)
	if stopped && len(wait) > 0 {
		sym.Stop()
	}
	for _, i := range chips { // who has chips may also wait for a table or want to leave
		w.c.State.Players[i].Status = playerStatus(sym.StrOf("in", string(stPlaying), string(stWaiting), string(stLeaving)))
	}
	w.fixStats()
	order(chips, func(i int) int64 { return w.c.State.Players[i].Chips }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	s := w.snap()
	cnt := w.finalCnt
	status := pc.CompetitionStateStatus(sym.StrOf("end", "end", "auto_end", "force_end"))
	err := w.ce.CloseCompetition(status)
	sym.Assert(sym.And(err == nil, w.c.State.Status == status), "a running competition can be closed with any end status")
	if len(w.c.State.Rankings) != len(chips)+len(out) {
		sym.Assert(false, "the final ranking lists the players with chips and those knocked out")
		sym.Stop()
	}
	sym.Assert(w.finalN == s.finalN+len(chips), "only players with chips are announced at the end")
	isIn := [10]bool{}
	for _, i := range chips {
		isIn[i] = true
		p := w.c.State.Players[i]
		k := w.place(p.PlayerID)
		sym.Assert(sym.And(w.entries(p.PlayerID) == 1, k >= 0, k < len(chips)), "players with chips take the first places")
		sym.Assert(sym.And(w.finalCnt[i] == cnt[i]+1, w.finalRank[i] == k+1), "every player with chips is announced once, with his place")
		sym.Assert(p.CompetitionRank == k+1, "a player's rank is his place")
		for _, j := range chips {
			q := w.c.State.Players[j]
			sym.Assert(sym.Implies(sym.Or(p.Chips > q.Chips, sym.And(p.Chips == q.Chips, p.JoinAt < q.JoinAt)), k < w.place(q.PlayerID)), "more chips, then an earlier joining time, make the better place")
		}
	}
	for a, i := range out { // in the order they were knocked out
		isIn[i] = true
		p := w.c.State.Players[i]
		k := len(chips) + len(out) - a // rank
		sym.Assert(w.place(p.PlayerID) == k-1, "who was knocked out later takes the better place")
		sym.Assert(p.CompetitionRank == k, "a player's rank is his place")
		sym.Assert(w.finalCnt[i] == cnt[i], "a knocked-out player is not announced again")
	}
	for _, r := range w.c.State.Rankings {
		for _, p := range w.c.State.Players {
			sym.Assert(sym.Implies(r.PlayerID == p.PlayerID, r.FinalChips == p.Chips), "the final ranking states the final chips")
		}
	}
	for i, p := range w.c.State.Players {
		o := &s.players[i]
		sym.Assert(same(p, o), "closing changes no player")
		sym.Assert(sym.Implies(!isIn[i], w.finalCnt[i] == cnt[i]), "nobody else is announced")
	}
	sym.ReachIf(len(chips) > 1 && len(out) > 0, "ranked")
}

func C11_registering() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	w := create(Cfg{mode: mode, n: 3})
	for _, p := range w.c.State.Players {
		p.Chips = sym.Int64Range("chips", 0, big)
	}
	status := pc.CompetitionStateStatus(sym.StrOf("end", "end", "auto_end", "force_end"))
	err := w.ce.CloseCompetition(status)
	sym.Assert(sym.And(err == nil, w.c.State.Status == status, w.finalN == 0, len(w.c.State.Rankings) == 0), "a competition that never ran has no final ranking")
}

func c11history(mode pc.CompetitionMode) {
	n := 3 + sym.Tier()
	hands := 2 + sym.Tier()
	w := started(Cfg{mode: mode, n: n, finalIdx: pc.UnsetValue, duration: 1000000})
	tid := w.b.tables[0]
	alive := []int{}
	for i := 0; i < n; i++ {
		alive = append(alive, i)
		w.c.State.Players[i].JoinAt = sym.Int64Range("join", base-1000, base)
	}
	now := base + 100
	for h := 1; h <= hands && len(alive) > 1; h++ {
		now += 60
		vtime.SetNow(now)
		t := settled(w, h)
		t.ID = tid
		// only those still in the game sit at the table
		t.State.PlayerStates, t.State.GamePlayerIndexes, t.State.NextBBOrderPlayerIDs = nil, nil, nil
		t.State.GameState.Players, t.State.GameState.Result.Players = t.State.GameState.Players[:len(alive)], t.State.GameState.Result.Players[:len(alive)]
		rest, broke := []int{}, []int{}
		full := w.table("table_game_settled", h)
		for k, i := range alive {
			ps := full.State.PlayerStates[i]
			ps.Bankroll = 0
			last := k == len(alive)-1 && len(rest) == 0
			if last || sym.Choose("broke", 2) == 0 {
				ps.Bankroll = sym.Int64Range("bank", 1, big)
				rest = append(rest, i)
			} else {
				broke = append(broke, i)
			}
			t.State.PlayerStates = append(t.State.PlayerStates, ps)
			t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, k)
			t.State.NextBBOrderPlayerIDs = append(t.State.NextBBOrderPlayerIDs, ids[i])
		}
		bank := func(i int) int64 {
			for _, ps := range t.State.PlayerStates {
				if ps.PlayerID == ids[i] {
					return ps.Bankroll
				}
			}
			return 0
		}
		join := func(i int) int64 { return w.c.State.Players[i].JoinAt }
		order(rest, bank, join)
		order(broke, bank, join)
		for a := 1; a < len(broke); a++ {
			for b := 0; b < a; b++ {
				sym.Assume(join(broke[a]) != join(broke[b]))
			}
		}
		w.ce.UpdateTable(t)
		alive = rest
	}
	vtime.RunTasks()
	if mode == pc.CompetitionMode_CT {
		// nothing more happens at the table
		for _, x := range vtime.Timers() {
			if x.Pending() && x.Due.Unix() <= now+5 {
				vtime.SetNow(x.Due.Unix())
				x.Fire()
			}
		}
	}
	auto := isEnd(w.c.State.Status)
	sym.Assert(sym.Implies(len(alive) == 1 && mode == pc.CompetitionMode_CT, auto), "a tournament with one player left ends")
	if err := w.ce.CloseCompetition(pc.CompetitionStateStatus_End); err != nil {
		sym.Assert(false, "closing succeeds")
	}
	if len(w.c.State.Rankings) != n {
		sym.Assert(false, "the final ranking lists every player once")
		sym.Stop()
	}
	for i, p := range w.c.State.Players {
		sym.Assert(w.entries(p.PlayerID) == 1, "the final ranking lists every player once")
		sym.Assert(w.finalCnt[i] == 1, "every player's final rank is announced exactly once")
		sym.Assert(sym.And(w.finalRank[i] == w.place(p.PlayerID)+1, p.CompetitionRank == w.finalRank[i]), "the rank announced is the final place")
	}
	sym.ReachIf(len(alive) == 1, "played out")
	sym.ReachIf(len(alive) > 1, "closed early")
}

func C11_historyct()  { c11history(pc.CompetitionMode_CT) }
func C11_historymtt() { c11history(pc.CompetitionMode_MTT) }
