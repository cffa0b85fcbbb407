package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C03: two players (thorough: three), every mode, every level of a four-level schedule with a break and the time before the start, running or closed competition
// BOUND C03: symbolic: add-on permission per level, break-only flag, limits and counts 0..1000, player status and chips, redeemed chips (-10..2^40), units, the table's answer

func c03(mode pc.CompetitionMode) {
	n := 2 + sym.Tier()
	max := sym.IntRange("maxAddon", 0, smallN)
	brk := sym.Bool("breakOnly")
	lv := stdLevels()
	for i := range lv {
		lv[i].AllowAddon = sym.Bool("allow")
	}
	k := Cfg{mode: mode, n: n, finalIdx: 2, maxReBuy: 1, levels: lv, meta: func(m *pc.CompetitionMeta) {
		m.AddonSetting.MaxTime = max
		m.AddonSetting.IsBreakOnly = brk
	}}
	var w *World
	l := sym.Choose("level", 5) - 1
	ended := false
	if l < 0 {
		w = create(k)
	} else {
		w = started(k)
		w.level(l)
		if sym.Choose("ended", 2) == 1 {
			w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
			ended = true
		}
	}
	switch mode {
	case pc.CompetitionMode_MTT:
		w.symPlayers(stPlaying, stWaiting, stReBuy, stKnockout)
	case pc.CompetitionMode_CT:
		w.symPlayers(stPlaying, stReBuy, stKnockout)
	default:
		w.symPlayers(stPlaying, stReBuy, stLeaving)
	}
	vtime.SetNow(vtime.NowUnix() + sym.Int64Range("dt", 0, 1000))
	w.b.redeemErr = sym.Bool("redeemErr")
	w.b.reset()
	jp := pc.JoinPlayer{PlayerID: sym.StrOf("pid", w.playersOr("px")...), RedeemChips: sym.Int64Range("redeem", -10, big), Unit: sym.IntRange("unit", 0, smallN)}
	s := w.snap()
	err := w.ce.PlayerAddon("t9", jp)

	accept := sym.And(jp.RedeemChips > 0, !ended, l >= 0)
	if l >= 0 {
		accept = sym.And(accept, lv[l].AllowAddon, sym.Implies(brk, lv[l].Level == -1))
	}
	known := false
	for i := range s.players {
		p := &s.players[i]
		is := p.PlayerID == jp.PlayerID
		known = sym.Or(known, is)
		accept = sym.And(accept, sym.Implies(is, sym.And(p.AddonTimes < max, p.Status != stReBuy, p.Status != stKnockout)))
	}
	accept = sym.And(accept, known)
	sym.Assert(sym.Implies(err == nil, accept), "an add-on is accepted only when every condition holds")
	sym.Assert(sym.Implies(sym.And(accept, !w.b.redeemErr), err == nil), "an add-on is accepted whenever every condition holds")
	sym.Assert(sym.Implies(w.b.redeemErr, err != nil), "an add-on the table refuses fails")
	sym.Assert(len(w.c.State.Players) == n, "an add-on adds or removes no player")
	if err != nil {
		sym.Reach("rejected")
		for i, p := range w.c.State.Players {
			sym.Assert(same(p, &s.players[i]), "a rejected add-on changes no player")
		}
		sym.Assert(sameStatistic(w.c.State.Statistic, &s.stat), "a rejected add-on changes no counter")
		sym.Assert(sym.Implies(!accept, w.b.playerCalls() == 0), "a rejected add-on requests nothing from the tables")
	} else {
		sym.Reach("accepted")
		for i, p := range w.c.State.Players {
			o := &s.players[i]
			is := o.PlayerID == jp.PlayerID
			sym.Assert(sym.Implies(!is, same(p, o)), "an add-on touches only its player")
			sym.Assert(sym.Implies(is, sym.And(p.Chips == o.Chips+jp.RedeemChips, p.TotalRedeemChips == o.TotalRedeemChips+jp.RedeemChips, p.AddonTimes == o.AddonTimes+1,
				p.ReBuyTimes == o.ReBuyTimes, p.TotalBuyInUnits == o.TotalBuyInUnits)), "an add-on is booked exactly once")
			sym.Assert(sym.Implies(is, sym.And(sameLife(p, o), sameStats(p, o), p.PlayerID == o.PlayerID, p.CurrentSeat == o.CurrentSeat)), "an add-on changes nothing but the stack")
		}
		add := jp.Unit
		if mode == pc.CompetitionMode_Cash {
			add = 0
		}
		st := s.stat
		st.TotalAddonCount += add
		sym.Assert(sameStatistic(w.c.State.Statistic, &st), "the add-on units are counted once")
		sym.Assert(sym.And(w.b.redeemN == 1, w.b.playerCalls() == 1), "the table is asked exactly once to hand out the chips")
		sym.Assert(sym.And(w.b.redeemTbl == "t9", w.b.redeemPid == jp.PlayerID, w.b.redeemChip == jp.RedeemChips), "the table hands out exactly the chips redeemed")
	}
	sym.Assert(sym.And(w.c.State.Status == s.status, len(w.c.State.Rankings) == s.rankings), "an add-on does not move the competition")
	sym.ObserveBool("err", err != nil)
	sym.ObserveInt64("chips0", w.c.State.Players[0].Chips)
}

func C03_ct()   { c03(pc.CompetitionMode_CT) }
func C03_mtt()  { c03(pc.CompetitionMode_MTT) }
func C03_cash() { c03(pc.CompetitionMode_Cash) }

// BOUND C04: one to three players (thorough: four), every mode, before the blinds run or after, or an MTT started without enough players, one refund of any of them or a stranger, then one buy-in of a new player, and the start of an MTT
// BOUND C04: symbolic: units, chips, redeemed totals of every player, the table's answer, the clock

func c04(mode pc.CompetitionMode) {
	n := 1 + sym.Choose("players", 3+sym.Tier())
	k := Cfg{mode: mode, n: n, finalIdx: 2, maxReBuy: 1, seats: n}
	if n < 2 {
		k.minPlayer = 1
	}
	phase := sym.Choose("phase", 3) // 0 registering, 1 the blinds run, 2 an MTT was started but lacks players
	run := phase == 1
	if mode == pc.CompetitionMode_MTT {
		k.seats = n + 1
	}
	var w *World
	switch phase {
	case 0:
		w = create(k)
	case 1:
		w = started(k)
	case 2:
		if mode != pc.CompetitionMode_MTT {
			sym.Stop()
		}
		k.minPlayer = n + 1
		w = create(k)
		_, err := w.ce.StartCompetition()
		sym.Assert(err == nil, "a registering competition can be started")
	}
	units := 0
	for _, p := range w.c.State.Players {
		p.TotalBuyInUnits = sym.IntRange("units", 0, smallN)
		p.Chips = sym.Int64Range("chips", 1, big)
		p.TotalRedeemChips = p.Chips
		units += p.TotalBuyInUnits
	}
	w.c.State.Statistic.TotalBuyInCount = units
	if mode == pc.CompetitionMode_Cash {
		w.c.State.Statistic.TotalBuyInCount = 0
	}
	vtime.SetNow(vtime.NowUnix() + sym.Int64Range("dt", 0, 1000))
	w.b.leaveErr = sym.Bool("leaveErr")
	w.b.reset()
	s := w.snap()
	who := sym.Choose("who", n+1)
	pid := "px"
	if who < n {
		pid = ids[who]
	}
	err := w.ce.PlayerRefund(pid)
	if run || who == n {
		sym.Assert(err != nil, "no refund for a stranger or once the blinds run")
		w.unchanged(s, "a rejected refund")
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	ct := mode == pc.CompetitionMode_CT
	sym.Assert(sym.Iff(err != nil, sym.And(ct, w.b.leaveErr)), "a refund before the start succeeds unless the table refuses it")
	sym.Assert(len(w.c.State.Players) == n-1, "a refunded player is gone")
	j := 0
	for i := range s.players {
		if i == who {
			continue
		}
		if j < len(w.c.State.Players) {
			sym.Assert(same(w.c.State.Players[j], &s.players[i]), "a refund leaves the other players alone")
		}
		j++
	}
	want := s.stat.TotalBuyInCount
	if mode != pc.CompetitionMode_Cash {
		want -= s.players[who].TotalBuyInUnits
	}
	sym.Assert(w.c.State.Statistic.TotalBuyInCount == want, "a refund takes exactly the player's units back")
	sym.Assert(w.statsFit(), "the player counters fit the players after a refund")
	if ct {
		sym.Assert(sym.And(w.b.leaveN == 1, w.b.leaveTot == 1, w.b.left[who] == 1, w.b.leaveTbl == tableID, w.b.playerCalls() == 1), "the table is told that exactly this player leaves")
	} else {
		sym.Assert(sym.Or(w.b.playerCalls() == 0, mode == pc.CompetitionMode_Cash), "no table holds a player who has not been seated")
	}
	// the place is free again, also for the refunded player himself
	w.b.leaveErr = false
	w.b.reset()
	back := pid
	if sym.Choose("back", 2) == 0 {
		back = "new"
	}
	chips := sym.Int64Range("again", 1, big)
	err = w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: back, RedeemChips: chips, Unit: 1})
	sym.Assert(err == nil, "a refund frees the place for a new player")
	if err == nil {
		p := w.c.State.Players[len(w.c.State.Players)-1]
		sym.Assert(sym.And(p.PlayerID == back, p.Chips == chips, p.TotalBuyInUnits == 1, p.ReBuyTimes == 0, p.TotalRedeemChips == chips), "a refunded player starts afresh")
	}
	if mode != pc.CompetitionMode_MTT {
		return
	}
	// the players who stayed wait for a table as before
	if phase == 0 {
		_, err := w.ce.StartCompetition()
		sym.Assert(err == nil, "a registering competition can be started")
	} else {
		err := w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: "last", RedeemChips: 5, Unit: 1})
		sym.Assert(err == nil, "an MTT that lacks players takes more")
	}
	for i := 0; i < n; i++ {
		want := sym.B2I(i != who || back == pid)
		got := 0
		for _, st := range w.b.settings {
			for _, jp := range st.JoinPlayers {
				if jp.PlayerID == ids[i] {
					got++
				}
			}
		}
		sym.Assert(got == want, "exactly the players who have not been refunded are dealt in")
	}
	sym.Assert(w.errN == 0, "nothing fails")
}

func C04_ct()   { c04(pc.CompetitionMode_CT) }
func C04_mtt()  { c04(pc.CompetitionMode_MTT) }
func C04_cash() { c04(pc.CompetitionMode_Cash) }

// BOUND C05: three players (thorough: four) in cash games before the start, with a table in any status, pausing and at the settlement of a hand, players with or without a seat; one cash-out request of any of them or a stranger
// BOUND C05: symbolic: chips and bankrolls (0..2^40), status of every player, the table's answers; CT and MTT competitions reject every request

func cashWorld() (*World, int) {
	n := 3 + sym.Tier()
	k := Cfg{mode: pc.CompetitionMode_Cash, n: n, finalIdx: pc.NoStopBuyInIndex, maxReBuy: 3, waiting: 15, duration: 3600}
	ph := sym.Choose("phase", 4) // 0 registering, 1 a hand is played, 2 the table pauses, 3 the table is between two hands
	var w *World
	if ph == 0 {
		w = create(k)
	} else {
		w = started(k)
		if ph == 3 {
			st := sym.StrOf("tableStatus", "table_balancing", "table_restoring", "table_game_opened", "table_game_playing", "table_game_settled", "table_game_standby")
			w.c.State.Tables[0].State.Status = pokertable.TableStateStatus(st)
			ph = 1
		}
		if ph == 2 {
			t := w.table(pokertable.TableStateStatus_TablePausing, 1)
			for _, p := range t.State.PlayerStates[1:] {
				p.IsIn = false
			}
			w.ce.UpdateTable(t)
		}
	}
	return w, ph
}

func C05_request() {
	w, ph := cashWorld()
	n := w.n
	w.symPlayers(stPlaying, stReBuy, stLeaving)
	w.b.leaveErr = sym.Bool("leaveErr")
	w.b.reset()
	w.cashN = 0
	s := w.snap()
	who := sym.Choose("who", n+1)
	pid := "px"
	if who < n {
		pid = ids[who]
	}
	err := w.ce.PlayerCashOut(tableID, pid)
	if who == n {
		sym.Assert(err != nil, "no cash-out for a stranger")
		w.unchanged(s, "a rejected cash-out")
		return
	}
	sym.Assert(err == nil, "a player of a cash game can cash out")
	if ph == 1 {
		sym.Reach("deferred")
		sym.Assert(len(w.c.State.Players) == n, "a player in a running hand stays until it is settled")
		sym.Assert(sym.And(w.cashN == 0, w.b.playerCalls() == 0), "nothing is paid out during a hand")
		for i, p := range w.c.State.Players {
			o := s.players[i]
			if i == who {
				o.Status = stLeaving
			}
			sym.Assert(same(p, &o), "a cash-out request only marks its player as leaving")
		}
	} else {
		sym.Reach("immediate")
		sym.Assert(len(w.c.State.Players) == n-1, "a player between hands leaves at once")
		sym.Assert(sym.And(w.cashN == 1, w.cashCnt[who] == 1, w.cashChips[who] == s.players[who].Chips), "he is paid exactly his chips, once")
		sym.Assert(sym.And(w.b.leaveN == 1, w.b.leaveTot == 1, w.b.left[who] == 1, w.b.leaveTbl == tableID), "he leaves his table, once")
		j := 0
		for i := range s.players {
			if i == who {
				continue
			}
			if j < len(w.c.State.Players) {
				sym.Assert(same(w.c.State.Players[j], &s.players[i]), "the others stay as they are")
			}
			j++
		}
	}
	sym.Assert(w.statsFit(), "the player counters fit the players after a cash-out")
	sym.Assert(w.c.State.Status == s.status, "a cash-out does not move the competition")
}

func C05_settle() {
	n := 3 + sym.Tier()
	w := started(Cfg{mode: pc.CompetitionMode_Cash, n: n, finalIdx: pc.NoStopBuyInIndex, maxReBuy: 3, waiting: 15, duration: 100000})
	for i, p := range w.c.State.Players {
		_ = i
		p.Chips = sym.Int64Range("chips", 1, big)
	}
	for _, p := range w.c.State.Players {
		p.CurrentSeat = sym.IntRange("seat", pc.UnsetValue, n-1)
	}
	leave := [10]bool{}
	for i := 0; i < n; i++ {
		if sym.Choose("leave", 2) == 1 {
			leave[i] = true
			sym.Assert(w.ce.PlayerCashOut(tableID, ids[i]) == nil, "a player of a cash game can cash out")
		}
	}
	w.b.reset()
	w.cashN = 0
	w.b.leaveErr = sym.Bool("leaveErr")
	vtime.SetNow(base + sym.Int64Range("now", 50, 200000)) // the time may be up
	t := settled(w, 1)
	bank := [10]int64{}
	for i, p := range t.State.PlayerStates {
		p.Bankroll = sym.Int64Range("bank", 1, big)
		bank[i] = p.Bankroll
	}
	w.ce.UpdateTable(t)
	left := 0
	for i := 0; i < n; i++ {
		idx := w.c.FindPlayerIdx(func(p *pc.CompetitionPlayer) bool { return p.PlayerID == ids[i] })
		if leave[i] {
			left++
			sym.Assert(idx == -1, "a leaving player is gone after the hand")
			sym.Assert(sym.And(w.cashCnt[i] == 1, w.cashChips[i] == bank[i], w.b.left[i] == 1), "he is paid exactly the chips of the settled hand, once")
		} else {
			sym.Assert(sym.And(idx >= 0, w.cashCnt[i] == 0, w.b.left[i] == 0), "the others stay")
		}
	}
	sym.Assert(sym.And(w.cashN == left, w.b.leaveTot == left, len(w.c.State.Players) == n-left), "exactly the leaving players leave")
	sym.Assert(w.statsFit(), "the player counters fit the players after a cash-out")
	sym.ReachIf(left > 0, "leaving")
}

func c05other(mode pc.CompetitionMode) {
	var w *World
	if sym.Choose("running", 2) == 1 {
		w = started(Cfg{mode: mode, n: 3, finalIdx: 2})
	} else {
		w = create(Cfg{mode: mode, n: 3, finalIdx: 2})
	}
	if mode == pc.CompetitionMode_MTT {
		w.symPlayers(stPlaying, stWaiting, stReBuy, stKnockout)
	} else {
		w.symPlayers(stPlaying, stReBuy, stKnockout)
	}
	w.b.reset()
	s := w.snap()
	err := w.ce.PlayerCashOut(tableID, sym.StrOf("pid", w.playersOr("px")...))
	sym.Assert(err != nil, "tournament chips cannot be cashed out")
	w.unchanged(s, "a rejected cash-out")
}

func C05_ct()  { c05other(pc.CompetitionMode_CT) }
func C05_mtt() { c05other(pc.CompetitionMode_MTT) }
