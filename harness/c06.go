package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C06: CT with three players (thorough: four): one quit request naming any player or a stranger and any table, before, during and after late buy-in
// BOUND C06: re-buy windows: one settled hand in CT and cash games in which any players go broke, with symbolic re-buy counts and limits, window 0..600 s; during the window any one player re-buys, quits, cashes out, another player of a cash game cashes out, or another hand is settled; then the window expires; and windows of a player who goes broke again after a re-buy
// OUTSIDE C06: more than two overlapping windows of the same player

func C06_quit() {
	n := 3 + sym.Tier()
	l := sym.Choose("level", 5) - 1
	k := Cfg{mode: pc.CompetitionMode_CT, n: n, finalIdx: 1, maxReBuy: 2}
	var w *World
	if l < 0 {
		w = create(k)
	} else {
		w = started(k)
		w.level(l)
	}
	w.symPlayers(stPlaying, stReBuy, stKnockout)
	w.b.leaveErr = sym.Bool("leaveErr")
	w.b.reset()
	s := w.snap()
	pid := sym.StrOf("pid", w.playersOr("px")...)
	tbl := sym.StrOf("tbl", tableID, "t2")
	err := w.ce.PlayerQuit(tbl, pid)
	known, out := false, false
	for i := range s.players {
		is := s.players[i].PlayerID == pid
		known = sym.Or(known, is)
		out = sym.Or(out, sym.And(is, s.players[i].Status == stKnockout))
	}
	accept := sym.And(known, !out, tbl == tableID, l <= 1)
	sym.Assert(sym.Iff(err == nil, accept), "a quit is accepted exactly when every condition holds")
	if err != nil {
		sym.Reach("rejected")
		w.unchanged(s, "a rejected quit")
		return
	}
	sym.Reach("accepted")
	sym.Assert(len(w.c.State.Players) == n, "a quitting player stays registered")
	sym.Assert(sym.And(w.b.leaveN == 1, w.b.leaveTot == 1, w.b.leaveTbl == tableID, w.b.playerCalls() == 1), "the table is asked once to let one player leave")
	for i, p := range w.c.State.Players {
		o := s.players[i]
		is := o.PlayerID == pid
		sym.Assert(sym.Iff(is, w.b.left[i] == 1), "the table is asked to let the quitting player leave")
		sym.Assert(sym.Implies(sym.Or(!is, w.b.leaveErr), same(p, &o)), "a quit changes nobody else, and nothing if the table refuses")
		sym.Assert(sym.Implies(sym.And(is, !w.b.leaveErr), sym.And(p.Status == stReBuy, !p.IsReBuying, p.ReBuyEndAt == pc.UnsetValue, p.CurrentSeat == pc.UnsetValue)), "a player who quits leaves his seat and waits without a window")
		sym.Assert(sym.Implies(is, sym.And(sameMoney(p, &o), sameStats(p, &o), p.JoinAt == o.JoinAt)), "a quit moves no chips")
	}
	sym.Assert(w.statsFit(), "the player counters fit the players after a quit")
	sym.Assert(sym.And(w.c.State.Status == s.status, len(w.c.State.Rankings) == s.rankings), "a quit does not move the competition")
}

func c06other(mode pc.CompetitionMode) {
	w := started(Cfg{mode: mode, n: 3, finalIdx: 2})
	w.b.reset()
	s := w.snap()
	tbl := tableID
	if len(w.b.tables) > 0 {
		tbl = w.b.tables[0]
	}
	err := w.ce.PlayerQuit(tbl, sym.StrOf("pid", w.playersOr("px")...))
	sym.Assert(err != nil, "only CT players can quit")
	w.unchanged(s, "a rejected quit")
}

func C06_quitmtt()  { c06other(pc.CompetitionMode_MTT) }
func C06_quitcash() { c06other(pc.CompetitionMode_Cash) }

func c06window(mode pc.CompetitionMode) {
	n := 3 + sym.Tier()
	waiting := sym.IntRange("window", 0, 600)
	max := sym.IntRange("maxReBuy", 0, smallN)
	w := started(Cfg{mode: mode, n: n, finalIdx: pc.NoStopBuyInIndex, maxReBuy: max, waiting: waiting, duration: 1000000})
	for _, p := range w.c.State.Players {
		p.ReBuyTimes = sym.IntRange("rebuys", 0, smallN)
	}
	now := base + 100
	vtime.SetNow(now)
	t := settled(w, 1)
	broke := [10]bool{}
	for i, p := range t.State.PlayerStates {
		broke[i] = sym.Choose("broke", 2) == 1
		if broke[i] {
			p.Bankroll = 0
			p.IsIn = sym.Bool("in")
		} else {
			p.Bankroll = int64(500 * (i + 1))
		}
	}
	vtime.RunTasks()
	k := len(vtime.Timers())
	w.ce.UpdateTable(t)
	win := [10]bool{} // has a window
	end := now + int64(waiting)
	any := false
	for i, p := range w.c.State.Players {
		can := sym.And(broke[i], p.ReBuyTimes < max)
		win[i] = can
		any = sym.Or(any, can)
		sym.Assert(sym.Iff(can, p.Status == stReBuy), "a broke player who may re-buy waits for it")
		sym.Assert(sym.Implies(can, sym.And(p.IsReBuying, p.ReBuyEndAt == end, p.ReBuyWaitingAt == now)), "his window ends when it should")
	}
	// something may happen within the window
	w.b.reset()
	w.cashN, w.cashCnt = 0, [10]int{}
	who, outs := -1, -1
	acts := 4
	if mode == pc.CompetitionMode_Cash {
		acts = 5
	}
	act := sym.Choose("act", acts)
	if act == 3 {
		// another hand while the windows are open, or have ended but have not been checked yet
		later := sym.Int64Range("hand2", now, now+602)
		sym.Assume(later <= end+2)
		vtime.SetNow(later)
		t2 := settled(w, 2)
		ps := []*pokertable.TablePlayerState{}
		for i, p := range t2.State.PlayerStates {
			if broke[i] {
				p.Bankroll, p.IsParticipated, p.IsIn = 0, false, true
				if !win[i] {
					continue
				}
			} else {
				p.Bankroll = int64(500 * (i + 1))
			}
			ps = append(ps, p)
		}
		t2.State.PlayerStates = ps
		gi := []int{}
		for i, p := range ps {
			if p.Bankroll > 0 {
				gi = append(gi, i)
			}
		}
		t2.State.GamePlayerIndexes = gi
		t2.State.GameState.Result.Players = t2.State.GameState.Result.Players[:len(gi)]
		t2.State.GameState.Players = t2.State.GameState.Players[:len(gi)]
		o := w.snap()
		if any && !isEnd(w.c.State.Status) {
			w.ce.UpdateTable(t2)
			sym.Reach("another hand")
		}
		for i, p := range w.c.State.Players {
			sym.Assert(sym.Implies(win[i], sameLife(p, &o.players[i])), "another hand does not touch an open window")
		}
	} else if act == 4 {
		// while the table pauses another player leaves at once
		o := sym.Choose("other", n)
		sym.Assume(!win[o])
		sym.Assume(!isEnd(w.c.State.Status))
		w.c.State.Tables[0].State.Status = pokertable.TableStateStatus_TablePausing
		for _, p := range w.c.State.Tables[0].State.PlayerStates {
			p.IsIn = false
		}
		sym.Assert(w.ce.PlayerCashOut(tableID, ids[o]) == nil, "a player of a cash game can cash out")
		sym.Assert(len(w.c.State.Players) == n-1, "who cashes out between hands leaves at once")
		outs = o
	} else if act > 0 {
		who = sym.Choose("who", n)
		sym.Assume(win[who])
		if act == 2 && mode == pc.CompetitionMode_Cash {
			sym.Assert(w.ce.PlayerCashOut(tableID, ids[who]) == nil, "he can cash out within his window")
			sym.Assert(w.b.leaveN == 0, "who cashes out during a hand stays until it ends")
			who = -1
		} else if act == 1 {
			sym.Assert(w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[who], RedeemChips: 700, Unit: 1}) == nil, "he can re-buy within his window")
		} else {
			sym.Assert(w.ce.PlayerQuit(tableID, ids[who]) == nil, "he can quit within his window")
		}
	}
	s := w.snap()
	w.b.reset()
	w.cashN, w.cashCnt = 0, [10]int{}
	// expiry
	ts := vtime.TimersFrom(k)
	fired := 0
	for _, x := range ts {
		if x.Pending() {
			sym.Assert(sym.And(x.Due.Unix() >= end, x.Due.Unix() <= end+5), "the window is checked when it has ended")
			vtime.SetNow(x.Due.Unix())
			x.Fire()
			fired++
		}
	}
	sym.Assert(sym.Iff(any, fired > 0), "a window that opens also expires")
	sym.Assert(fired <= 1, "the windows of one hand expire together")
	gone := 0
	for i, k := 0, 0; i < n; i++ {
		if i == outs {
			continue
		}
		o := &s.players[k]
		k++
		pos := w.c.FindPlayerIdx(func(p *pc.CompetitionPlayer) bool { return p.PlayerID == ids[i] })
		exp := sym.And(win[i], i != who)
		if mode == pc.CompetitionMode_Cash {
			gone += sym.B2I(exp)
			sym.Assert(sym.Iff(exp, pos < 0), "a cash player whose window expired is gone")
			sym.Assert(w.cashCnt[i] == sym.B2I(exp), "he is cashed out exactly once")
			sym.Assert(w.b.left[i] == sym.B2I(exp), "he leaves the table exactly once")
			if pos >= 0 {
				sym.Assert(same(w.c.State.Players[pos], o), "the others stay as they are")
			}
			continue
		}
		if pos < 0 {
			sym.Assert(false, "a CT player stays registered")
			sym.Stop()
		}
		p := w.c.State.Players[pos]
		gone += sym.B2I(exp)
		sym.Assert(w.b.left[i] == sym.B2I(exp), "a CT player whose window expired leaves the table exactly once")
		sym.Assert(sym.Implies(exp, sym.And(p.Status == stReBuy, !p.IsReBuying, p.ReBuyEndAt == pc.UnsetValue, p.CurrentSeat == pc.UnsetValue, sameMoney(p, o))), "he keeps waiting without a seat")
		sym.Assert(sym.Implies(!exp, same(p, o)), "the others stay as they are")
	}
	sym.Assert(w.b.leaveTot == gone, "nobody else leaves")
	sym.Assert(w.statsFit(), "the player counters fit the players after an expired window")
	sym.ReachIf(gone > 0, "expired")
	sym.ReachIf(act == 1, "re-bought in time")
	if mode == pc.CompetitionMode_CT {
		sym.ReachIf(act == 2, "quit in time")
	}
}

func C06_windowct()   { c06window(pc.CompetitionMode_CT) }
func C06_windowcash() { c06window(pc.CompetitionMode_Cash) }

// c06again: a player re-buys within his window and goes broke again: only his last window counts.
func c06again(mode pc.CompetitionMode) {
	waiting := sym.IntRange("window", 1, 600)
	w := started(Cfg{mode: mode, n: 3, finalIdx: pc.NoStopBuyInIndex, maxReBuy: 2, waiting: waiting, duration: 1000000})
	now := base + 100
	hand := func(gc int, bank int64) {
		t := settled(w, gc)
		t.State.PlayerStates[1].Bankroll = bank
		w.ce.UpdateTable(t)
	}
	vtime.RunTasks()
	k := len(vtime.Timers())
	vtime.SetNow(now)
	hand(1, 0)
	end := now + int64(waiting)
	at := sym.Int64Range("rebuyAt", now, now+600)
	vtime.SetNow(at)
	sym.Assert(w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[1], RedeemChips: 700, Unit: 1}) == nil, "he can re-buy within his window")
	at2 := sym.Int64Range("hand2", now, now+600)
	sym.Assume(sym.And(at <= at2, at2 <= end))
	vtime.SetNow(at2)
	hand(2, 0)
	p := w.c.State.Players[1]
	sym.Assert(sym.And(p.Status == stReBuy, p.IsReBuying, p.ReBuyEndAt == at2+int64(waiting), p.ReBuyWaitingAt == at2), "a second window opens in full")
	third := sym.Choose("rebuyAgain", 2) == 1
	w.b.reset()
	w.cashCnt = [10]int{}
	for step := 0; step < 2; step++ {
		var next *vtime.Timer
		for _, x := range vtime.TimersFrom(k) {
			if x.Pending() && (next == nil || x.Due.Before(next.Due)) {
				next = x
			}
		}
		if next == nil {
			break
		}
		if step == 1 && third && w.b.leaveN == 0 {
			sym.Assert(w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[1], RedeemChips: 900, Unit: 1}) == nil, "he can re-buy within his second window")
		}
		if next.Due.Unix() > vtime.NowUnix() {
			vtime.SetNow(next.Due.Unix())
		}
		before := w.b.leaveTot
		next.Fire()
		sym.Assert(sym.Implies(w.b.leaveTot > before, vtime.NowUnix() >= at2+int64(waiting)), "he leaves only when his last window has ended")
	}
	stays := third && w.b.leaveTot == 0
	sym.Assert(sym.Or(stays, w.b.leaveTot == 1 && w.b.left[1] == 1), "he leaves exactly once")
	pos := w.c.FindPlayerIdx(func(p *pc.CompetitionPlayer) bool { return p.PlayerID == ids[1] })
	if mode == pc.CompetitionMode_Cash {
		sym.Assert(sym.And(sym.Iff(stays, pos >= 0), w.cashCnt[1] == sym.B2I(!stays)), "a cash player is cashed out when he leaves")
	} else {
		sym.Assert(pos >= 0, "a CT player stays registered")
		sym.Assert(sym.Implies(!stays, sym.And(p.Status == stReBuy, !p.IsReBuying, p.CurrentSeat == pc.UnsetValue)), "a CT player keeps waiting without a seat")
	}
	sym.ReachIf(stays, "re-bought twice")
	sym.ReachIf(!stays, "second window expired")
}

func C06_againct()   { c06again(pc.CompetitionMode_CT) }
func C06_againcash() { c06again(pc.CompetitionMode_Cash) }

// ---- settlement of a hand ----

// BOUND C07: one hand of three seated players (thorough: four) plus one player elsewhere and one stranger at the table, in every mode; any bankroll -1..2^40, participation and prior record; the same hand reported again, then the next hand
// OUTSIDE C07: results whose players are not the participants of the hand

type handW struct {
	w      *World
	t      *pokertable.Table
	s      *Snap
	n      int // seated players; player n is registered but not seated at t1
	mode   pc.CompetitionMode
	stop   bool
	max    int
	now    int64
	before int // timers
}

func handWorld(mode pc.CompetitionMode, level int, stranger, plain bool) *handW {
	n := 3
	if sym.Tier() == 1 && mode != pc.CompetitionMode_MTT {
		n = 4
	}
	max := sym.IntRange("maxReBuy", 0, smallN)
	w := started(Cfg{mode: mode, n: n + 1, finalIdx: 1, maxReBuy: max, waiting: 15, duration: 1000000})
	w.level(level)
	h := &handW{w: w, n: n, mode: mode, stop: level > 1, max: max}
	for _, p := range w.c.State.Players {
		p.ReBuyTimes = sym.IntRange("rebuys", 0, smallN)
		p.JoinAt = sym.Int64Range("join", base-1000, base)
	}
	tid := tableID
	if mode == pc.CompetitionMode_MTT {
		tid = w.b.tables[0]
	}
	h.now = vtime.NowUnix() + []int64{50, 2000000}[sym.Choose("timeUp", 2)]
	vtime.SetNow(h.now)
	// player n sits elsewhere
	w.n = n
	t := settled(w, 1)
	w.n = n + 1
	t.ID = tid
	for i, p := range t.State.PlayerStates {
		if plain {
			p.Bankroll = int64(1000 * (i + 1))
		} else if sym.Choose("broke", 2) == 1 {
			p.Bankroll = sym.Int64Range("bank", -1, 0)
			p.IsIn = sym.Bool("in")
		} else {
			p.Bankroll = sym.Int64Range("bank", 1, big)
		}
	}
	if stranger {
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: "px", Seat: 8, Bankroll: sym.Int64Range("bankx", 0, big), IsIn: true})
	}
	if !plain {
		arranged(n, func(i int) int64 { return t.State.PlayerStates[i].Bankroll }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	}
	h.t = t
	vtime.RunTasks()
	return h
}

func (h *handW) settle() {
	h.w.b.reset()
	h.s = h.w.snap()
	h.before = len(vtime.Timers())
	h.w.ce.UpdateTable(h.t)
}

func c07(mode pc.CompetitionMode) {
	// a seated player who did not take part in this hand, or nobody
	out := sym.Choose("satOut", 4)
	h := handWorld(mode, 0, out == 3, out < 3)
	w := h.w
	if out == 3 {
		out = h.n
	}
	if out < h.n {
		h.t.State.PlayerStates[out].IsParticipated = false
		h.t.State.PlayerStates[out].IsIn = sym.Bool("in")
		gi := []int{}
		for i := 0; i < h.n; i++ {
			if i != out {
				gi = append(gi, i)
			}
		}
		h.t.State.GamePlayerIndexes = gi
		h.t.State.GameState.Result.Players = h.t.State.GameState.Result.Players[:len(gi)]
		h.t.State.GameState.Players = h.t.State.GameState.Players[:len(gi)]
	}
	h.settle()
	sym.Assert(len(w.c.State.Players) == h.n+1, "a settled hand adds or removes no tournament player and no stranger")
	if len(w.c.State.Players) != h.n+1 {
		sym.Stop()
	}
	for i := 0; i < h.n; i++ {
		p, o := w.c.State.Players[i], &h.s.players[i]
		sym.Assert(p.Chips == h.t.State.PlayerStates[i].Bankroll, "after a hand every seated player has the chips of his table")
		games := o.TotalGameCounts
		if i != out {
			games++
		}
		sym.Assert(p.TotalGameCounts == games, "every participant has played one more hand")
		sym.Assert(sym.And(p.TotalRedeemChips == o.TotalRedeemChips, p.ReBuyTimes == o.ReBuyTimes, p.AddonTimes == o.AddonTimes, p.TotalBuyInUnits == o.TotalBuyInUnits), "a hand buys nothing")
		sym.ObserveInt64("chips", p.Chips)
	}
	sym.Assert(same(w.c.State.Players[h.n], &h.s.players[h.n]), "a hand leaves the players of other tables alone")
	sym.Assert(sym.And(w.c.State.Statistic.TotalBuyInCount == h.s.stat.TotalBuyInCount, w.c.State.Statistic.TotalAddonCount == h.s.stat.TotalAddonCount), "a hand buys nothing")
	// table ranks
	for i := 0; i < h.n; i++ {
		for j := 0; j < h.n; j++ {
			if i == j || i == out || j == out {
				continue
			}
			p, q := w.c.State.Players[i], w.c.State.Players[j]
			sym.Assert(sym.Implies(p.Chips > q.Chips, p.TableRank < q.TableRank), "table ranks follow the stacks")
			sym.Assert(sym.Implies(sym.And(p.Chips == q.Chips, p.JoinAt < q.JoinAt), p.TableRank < q.TableRank), "equal stacks rank by joining time")
		}
		if i == out {
			sym.Assert(w.c.State.Players[i].TableRank == 0, "who sat out has no table rank")
		} else {
			m := h.n
			if out < h.n {
				m--
			}
			sym.Assert(sym.And(w.c.State.Players[i].TableRank >= 1, w.c.State.Players[i].TableRank <= m), "table ranks count the participants")
		}
	}
	// the same report again
	s := w.snap()
	nt := len(vtime.PendingTimers())
	h.t.UpdateSerial++
	w.ce.UpdateTable(h.t)
	w.unchanged(s, "a repeated report of a settled hand")
	sym.Assert(sym.And(len(vtime.PendingTimers()) == nt, w.b.gameCalls() == s.gcalls), "a repeated report of a settled hand starts nothing")
}

func C07_ct()   { c07(pc.CompetitionMode_CT) }
func C07_mtt()  { c07(pc.CompetitionMode_MTT) }
func C07_cash() { c07(pc.CompetitionMode_Cash) }

// C07_next: the following hand of the same table, and a hand of the same number at another table, count again.
func C07_next() {
	w := started(Cfg{mode: pc.CompetitionMode_CT, n: 2, finalIdx: 1, maxReBuy: 1, duration: 1000000})
	vtime.SetNow(base + 60)
	d := []int{0, 1, 2, 10, 100, 256, 1000, 65536}[sym.Choose("next", 8)]
	t := settled(w, 1)
	t.State.GameCount = 1 + sym.Choose("hand", 3)
	w.ce.UpdateTable(t)
	t2 := settled(w, 1)
	t2.State.GameCount = t.State.GameCount + d
	b0, b1 := sym.Int64Range("bank", 1, big), sym.Int64Range("bank", 1, big)
	t2.State.PlayerStates[0].Bankroll, t2.State.PlayerStates[1].Bankroll = b0, b1
	w.ce.UpdateTable(t2)
	same := t2.State.GameCount == t.State.GameCount
	old := settled(w, 1)
	old.State.GameCount = t.State.GameCount
	w.ce.UpdateTable(old) // an old report comes late
	want := int64(2)
	if same {
		want, b0, b1 = 1, 1000, 1000
	}
	sym.ReachIf(same, "same hand")
	sym.ReachIf(!same, "next hand")
	sym.Assert(w.c.State.Players[0].TotalGameCounts == want, "every hand counts exactly once")
	sym.Assert(sym.And(w.c.State.Players[0].Chips == b0, w.c.State.Players[1].Chips == b1), "only a hand not settled before moves chips")
}

// C07_two: a competition with two tables whose ids and hand numbers could be confused
func C07_two() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_Cash}[sym.Choose("mode", 2)]
	w := bare(4)
	st := setting(Cfg{mode: mode, n: 4, finalIdx: pc.NoStopBuyInIndex, maxReBuy: 1, duration: 1000000})
	second := []string{"t2", "t11", "t", "t1."}[sym.Choose("second", 4)]
	st.TableSettings = append(st.TableSettings, pc.TableSetting{TableID: second})
	c, err := w.ce.CreateCompetition(st)
	if err != nil {
		sym.Stop()
	}
	w.c = c
	for i := 0; i < 4; i++ {
		sym.Assert(w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 1000, Unit: 1}) == nil, "set-up: a buy-in is accepted")
	}
	_, err = w.ce.StartCompetition()
	sym.Assert(err == nil, "set-up: the competition starts")
	vtime.SetNow(base + 60)
	hands := []int{1, 11, 111}
	n1, n2 := hands[sym.Choose("hand", 3)], hands[sym.Choose("hand", 3)]
	bank := [4]int64{}
	for i := range bank {
		bank[i] = sym.Int64Range("bank", 1, big)
	}
	sym.Assume(sym.And(bank[0] > bank[1], bank[1] > bank[2], bank[2] > bank[3]))
	report := func(id string, off, hand int, b []int64) {
		w.n = 2
		t := settled(w, hand)
		w.n = 4
		t.ID = id
		for i, p := range t.State.PlayerStates {
			p.PlayerID, p.Bankroll = ids[off+i], b[i]
		}
		w.ce.UpdateTable(t)
	}
	report(tableID, 0, n1, bank[:2])
	report(second, 2, n2, bank[2:])
	report(tableID, 0, n1, []int64{7, 8})
	for i, p := range w.c.State.Players {
		sym.Assert(sym.And(p.Chips == bank[i], p.TotalGameCounts == 1), "every hand of every table counts exactly once")
	}
}

// C07_tables: hands are told apart by table and number
func C07_tables() {
	w := create(Cfg{mode: pc.CompetitionMode_MTT, n: 4, finalIdx: 1, seats: 2, minPlayer: 4, duration: 1000000, meta: func(m *pc.CompetitionMeta) { m.RegulatorMinInitialPlayerCount = 2 }})
	_, err := w.ce.StartCompetition()
	sym.Assert(err == nil, "set-up: a registering competition starts")
	w.seat()
	sym.Assert(len(w.b.settings) == 2, "set-up: four players fill two tables of two")
	if len(w.b.settings) != 2 {
		sym.Stop()
	}
	vtime.SetNow(base + 60)
	hands := []int{1, 2, 11, 12}
	n1, n2 := sym.Choose("hand", 4), sym.Choose("hand", 4)
	bank := [2][2]int64{}
	report := func(k, hand int, b [2]int64) {
		s := w.b.settings[k]
		t := newTable(s.TableID, s)
		t.State.Status, t.State.GameCount, t.State.StartAt = pokertable.TableStateStatus_TableGameSettled, hand, base+10
		gs := &pokerface.GameState{Result: &settlement.Result{}}
		for i, p := range t.State.PlayerStates {
			p.IsIn, p.IsParticipated, p.Bankroll = true, true, b[i]
			t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
			gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: i, Combination: &pokerface.CombinationInfo{Cards: []string{}}})
			gs.Result.Players = append(gs.Result.Players, &settlement.PlayerResult{Idx: i})
		}
		t.State.GameState = gs
		w.ce.UpdateTable(t)
	}
	for k := 0; k < 2; k++ {
		// the first stack of a table is the bigger one
		bank[k] = [2]int64{sym.Int64Range("bank", 1001, 2000), sym.Int64Range("bank", 1, 999)}
	}
	sym.Assume(sym.And(bank[0][0] > bank[1][0], bank[0][1] > bank[1][1]))
	report(0, hands[n1], bank[0])
	report(1, hands[n2], bank[1])
	report(0, hands[n1], [2]int64{1, 1})
	for k, s := range w.b.settings {
		for i, jp := range s.JoinPlayers {
			for _, p := range w.c.State.Players {
				if p.PlayerID == jp.PlayerID {
					sym.Assert(sym.And(p.Chips == bank[k][i], p.TotalGameCounts == 1), "every hand of every table counts exactly once")
				}
			}
		}
	}
}

// C07_stranger: a table report with somebody who is not in the competition (any more)
func C07_stranger() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	w := started(Cfg{mode: mode, n: 2, finalIdx: 1, maxReBuy: 1, waiting: 15, duration: 1000000})
	closed := mode != pc.CompetitionMode_Cash && sym.Choose("closed", 2) == 1
	if closed {
		w.level(2)
	}
	vtime.SetNow(vtime.NowUnix() + 50)
	w.n = 3
	t := settled(w, 1)
	w.n = 2
	t.ID = w.c.State.Tables[0].ID
	at := sym.Choose("at", 3)
	st := t.State.PlayerStates[2]
	st.PlayerID = "px"
	rest := t.State.PlayerStates[:2]
	l := append([]*pokertable.TablePlayerState{}, rest[:at]...)
	l = append(append(l, st), rest[at:]...)
	t.State.PlayerStates = l
	for i := range t.State.NextBBOrderPlayerIDs {
		t.State.NextBBOrderPlayerIDs[i] = l[i].PlayerID
	}
	broke := sym.Choose("broke", 4) // three: nobody
	for i, p := range l {
		p.Bankroll = int64(3-i)*10000 + sym.Int64Range("bank", 0, 9999)
		if i == broke {
			p.Bankroll = 0
		}
		p.GameStatistics.IsFold = sym.Bool("folds")
		t.State.GameState.Result.Players[i].Changed = sym.Int64Range("changed", -big, big)
	}
	s := w.snap()
	errs := w.errN
	w.ce.UpdateTable(t)
	sym.Assert(len(w.c.State.Players) == 2, "a settled hand adds or removes no tournament player and no stranger")
	if len(w.c.State.Players) != 2 {
		sym.Stop()
	}
	sym.Assert(w.errN == errs, "a stranger at the table is no error")
	for i, p := range l {
		k := who(p.PlayerID)
		if k < 0 {
			continue
		}
		q, o := w.c.State.Players[k], &s.players[k]
		won := t.State.GameState.Result.Players[i].Changed
		sym.Assert(q.Chips == p.Bankroll, "after a hand every seated player has the chips of his table")
		sym.Assert(sym.And(q.TotalGameCounts == o.TotalGameCounts+1, q.TotalFoldTimes == o.TotalFoldTimes+sym.B2I(p.GameStatistics.IsFold)), "every participant has played one more hand")
		sym.Assert(sym.And(q.TotalProfitTimes == o.TotalProfitTimes+sym.B2I(won > 0), q.BestWinningPotChips == sym.IteInt64(won > 0, won, 0)), "every winner has won one more hand")
		switch {
		case i != broke:
			sym.Assert(q.Status == o.Status, "who has chips stays")
		case closed:
			sym.Assert(q.Status == stKnockout, "who is broke after late buy-in is out")
		default:
			sym.Assert(q.Status == stReBuy, "who is broke may re-buy")
		}
	}
	sym.Reach("settled")
}
