package main

import (
	pc "github.com/weedbox/pokercompetition"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C01: competitions of three players (thorough: four) in every mode, one buy-in or re-buy by any of them or a stranger
// BOUND C01: symbolic: competition status, every player's status, chips (0..2^40), re-buy count (0..1000), re-buy limit, table seats (1..n+2), smallest and largest number of players, seats of the players, redeemed chips (-10..2^40), units, clock, table's answer
// OUTSIDE C01: player records in which a player without chips is neither waiting for a re-buy, knocked out nor playing

// BOUND C02: as C01, for accepted buy-ins; MTT buy-ins both before the competition runs and after its regulator has started
// OUTSIDE C02: the seat chosen by the table

func buyInWorld(mode pc.CompetitionMode) (*World, pc.JoinPlayer) {
	n := 3 + sym.Tier()
	seats := sym.IntRange("seats", 1, n+2)
	maxRe := sym.IntRange("maxReBuy", 0, smallN)
	w := create(Cfg{mode: mode, n: n, finalIdx: 2, maxReBuy: maxRe, meta: func(m *pc.CompetitionMeta) {
		m.MinPlayerCount, m.MaxPlayerCount = sym.IntRange("minPlayer", 1, n), sym.IntRange("maxPlayer", n, n+2)
	}})
	w.c.Meta.TableMaxSeatCount = seats
	for _, t := range w.c.State.Tables {
		t.Meta.TableMaxSeatCount = seats
	}
	if mode != pc.CompetitionMode_MTT && sym.Choose("tables", 2) == 1 {
		t := newTable("t2", w.b.settings[0])
		t.Meta.TableMaxSeatCount = seats
		w.c.State.Tables = append(w.c.State.Tables, t)
	}
	switch mode {
	case pc.CompetitionMode_MTT:
		w.symPlayers(stPlaying, stWaiting, stReBuy, stKnockout)
	case pc.CompetitionMode_CT:
		w.symPlayers(stPlaying, stReBuy, stKnockout)
	default:
		w.symPlayers(stPlaying, stReBuy, stLeaving)
	}
	w.c.State.BlindState.CurrentLevelIndex = []int{-1, 0, 2, 3}[sym.Choose("level", 4)]
	vtime.SetNow(sym.Int64Range("now", base+100, base+100000))
	w.b.reserveErr = sym.Bool("reserveErr")
	jp := pc.JoinPlayer{PlayerID: sym.StrOf("pid", w.playersOr("px")...), RedeemChips: sym.Int64Range("redeem", -10, big), Unit: sym.IntRange("unit", 0, smallN)}
	w.b.reset()
	return w, jp
}

// levelFits: the blinds are where the status says they are.
func (w *World) levelFits() {
	st, l := w.c.State.Status, w.c.State.BlindState.CurrentLevelIndex
	sym.Assume(sym.Implies(sym.Or(st == pc.CompetitionStateStatus_PreRegistering, st == pc.CompetitionStateStatus_Registering), l == -1))
	sym.Assume(sym.Implies(st == pc.CompetitionStateStatus_DelayedBuyIn, sym.And(l >= 0, l <= 2)))
	sym.Assume(sym.Implies(st == pc.CompetitionStateStatus_StoppedBuyIn, l == 3))
}

func (w *World) accepts(s *Snap, jp pc.JoinPlayer) (accept, known bool) {
	mode := w.c.Meta.Mode
	open := sym.Or(s.status == pc.CompetitionStateStatus_Registering, s.status == pc.CompetitionStateStatus_DelayedBuyIn)
	okPlayer := true
	for i := range s.players {
		p := &s.players[i]
		is := p.PlayerID == jp.PlayerID
		known = sym.Or(known, is)
		if mode != pc.CompetitionMode_Cash {
			okPlayer = sym.And(okPlayer, sym.Implies(is, sym.And(p.Status == stReBuy, p.Chips <= 0, p.ReBuyTimes < w.c.Meta.ReBuySetting.MaxTime)))
		}
	}
	room := true
	if mode == pc.CompetitionMode_CT {
		occ := 0
		for i := range s.players {
			occ += sym.B2I(sym.Or(s.players[i].Status == stPlaying, s.players[i].Status == stReBuy))
		}
		room = sym.Or(known, occ < w.c.Meta.TableMaxSeatCount)
	}
	return sym.And(jp.RedeemChips > 0, open, okPlayer, room), known
}

func c01(mode pc.CompetitionMode) {
	w, jp := buyInWorld(mode)
	w.c.State.Status = allStatuses()
	w.levelFits()
	s := w.snap()
	err := w.ce.PlayerBuyIn(jp)

	accept, _ := w.accepts(s, jp)
	sym.Assert(sym.Implies(err == nil, accept), "a buy-in is accepted only when every condition holds")
	sym.Assert(sym.Implies(accept, err == nil), "a buy-in is accepted whenever every condition holds")
	if err != nil {
		sym.Reach("rejected")
		w.unchanged(s, "a rejected buy-in")
	} else {
		sym.Reach("accepted")
	}
	sym.ObserveBool("err", err != nil)
	sym.ObserveInt("players", len(w.c.State.Players))
}

func C01_ct()   { c01(pc.CompetitionMode_CT) }
func C01_mtt()  { c01(pc.CompetitionMode_MTT) }
func C01_cash() { c01(pc.CompetitionMode_Cash) }

func c02(mode pc.CompetitionMode) {
	w, jp := buyInWorld(mode)
	w.c.State.Status = pc.CompetitionStateStatus(sym.StrOf("compStatus", "registering", "delayed_buy_in"))
	w.levelFits()
	s := w.snap()
	accept, known := w.accepts(s, jp)
	sym.Assume(accept)
	if w.ce.PlayerBuyIn(jp) != nil {
		sym.Stop() // decided by C01
	}
	c02effects(w, s, jp, known, mode)
}

func c02effects(w *World, s *Snap, jp pc.JoinPlayer, known bool, mode pc.CompetitionMode) {
	cash := mode == pc.CompetitionMode_Cash
	n := len(s.players)
	grown := len(w.c.State.Players) == n+1
	sym.Assert(sym.Iff(known, !grown), "only a new player gets a new record")
	sym.Assert(len(w.c.State.Players) >= n, "no record disappears")
	sym.ReachIf(known, "re-buy")
	sym.ReachIf(!known, "new player")
	want := stPlaying
	if mode == pc.CompetitionMode_MTT {
		want = stWaiting
	}
	at := func(t string) bool {
		if mode == pc.CompetitionMode_MTT {
			return t == ""
		}
		return sym.Or(t == tableID, sym.And(t == "t2", len(w.c.State.Tables) > 1))
	}
	shown := true
	now := vtime.NowUnix()
	for i := range s.players {
		o, p := &s.players[i], w.c.State.Players[i]
		is := o.PlayerID == jp.PlayerID
		sym.Assert(sym.Implies(!is, same(o, p)), "other players are untouched")
		units := o.TotalBuyInUnits
		if !cash {
			units += jp.Unit
		}
		sym.Assert(sym.Implies(is, sym.And(p.PlayerID == o.PlayerID, p.Chips == o.Chips+jp.RedeemChips, p.TotalRedeemChips == o.TotalRedeemChips+jp.RedeemChips,
			p.ReBuyTimes == o.ReBuyTimes+1, p.TotalBuyInUnits == units, p.AddonTimes == o.AddonTimes)), "a re-buy is booked exactly once")
		sym.Assert(sym.Implies(is, sym.And(p.Status == want, !p.IsReBuying, p.ReBuyEndAt == pc.UnsetValue, p.ReBuyWaitingAt == pc.UnsetValue, at(p.CurrentTableID))), "a re-buyer is back in the competition")
		shown = sym.And(shown, sym.Implies(is, w.b.reserveTbl == p.CurrentTableID))
		if mode == pc.CompetitionMode_MTT {
			sym.Assert(sym.Implies(is, p.CurrentSeat == pc.UnsetValue), "an MTT re-buyer has no seat until he is placed")
		}
		sym.Assert(sym.Implies(is, sym.And(sameStats(o, p), p.JoinAt == o.JoinAt)), "a re-buy keeps the player's history")
	}
	if grown {
		p := w.c.State.Players[n]
		sym.Assert(sym.And(p.PlayerID == jp.PlayerID, p.Chips == jp.RedeemChips, p.TotalRedeemChips == jp.RedeemChips, p.ReBuyTimes == 0, p.AddonTimes == 0,
			p.TotalBuyInUnits == jp.Unit), "a buy-in is booked exactly once")
		sym.Assert(sym.And(p.Status == want, at(p.CurrentTableID), p.CurrentSeat == pc.UnsetValue, p.JoinAt == now, !p.IsReBuying, p.ReBuyEndAt == pc.UnsetValue,
			p.KnockoutAt == pc.UnsetValue, p.ReBuyWaitingAt == pc.UnsetValue), "a new player starts with a fresh record")
		shown = w.b.reserveTbl == p.CurrentTableID
		zero := pc.CompetitionPlayer{}
		sym.Assert(sameStats(p, &zero), "a new player starts without statistics")
	}
	add := jp.Unit
	if cash {
		add = 0
	}
	sym.Assert(w.c.State.Statistic.TotalBuyInCount == s.stat.TotalBuyInCount+add, "the units bought are counted once")
	sym.Assert(w.c.State.Statistic.TotalAddonCount == s.stat.TotalAddonCount, "a buy-in is no add-on")
	sym.Assert(w.statsFit(), "the player counters fit the players")
	sym.Assert(sym.And(w.c.State.Status == s.status, len(w.c.State.Rankings) == s.rankings), "a buy-in does not move the competition")
	if mode != pc.CompetitionMode_MTT {
		sym.Assert(w.b.reserveN == 1 && w.b.playerCalls() == 1, "the table is asked exactly once to reserve a seat")
		sym.Assert(sym.And(shown, w.b.reservePid == jp.PlayerID, w.b.reserveChip == jp.RedeemChips, w.b.reserveSeat == -1), "the table gets exactly the chips redeemed")
		sym.Assert(sym.Iff(w.b.reserveErr, w.errN > 0), "a refused reservation is reported")
	}
	sym.ObserveInt64("redeemed", w.c.State.Players[0].TotalRedeemChips)
	sym.ObserveInt("buyins", w.c.State.Statistic.TotalBuyInCount)
}

func C02_ct()   { c02(pc.CompetitionMode_CT) }
func C02_mtt()  { c02(pc.CompetitionMode_MTT) }
func C02_cash() { c02(pc.CompetitionMode_Cash) }

// C02_queue: before an MTT starts the bought-in players queue up, and its start hands every
// one of them, with the chips he holds, to the tables exactly once.
func C02_queue() {
	n := 3 + sym.Tier()
	w := bare(n + 1)
	min := 2 + sym.Choose("minPlayer", n-1)
	c, err := w.ce.CreateCompetition(setting(Cfg{mode: pc.CompetitionMode_MTT, n: n, finalIdx: 2, maxReBuy: 2, minPlayer: min}))
	if err != nil {
		sym.Stop()
	}
	w.c = c
	var chips [10]int64
	startAfter := sym.Choose("startAfter", n+1) // number of buy-ins before the start
	refund := -1
	for i := 0; i <= n; i++ {
		if i == startAfter {
			if sym.Choose("refund", 2) == 1 && i > 0 {
				refund = sym.Choose("refunded", i)
				err := w.ce.PlayerRefund(ids[refund])
				sym.Assert(err == nil, "a queued player can be refunded")
			}
			_, err := w.ce.StartCompetition()
			sym.Assert(err == nil, "a registering MTT starts")
		}
		if i == n && refund < 0 {
			break
		}
		chips[i] = sym.Int64Range("chips", 1, big)
		err := w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[i], RedeemChips: chips[i], Unit: 1})
		sym.Assert(err == nil, "an open MTT accepts a buy-in")
	}
	got := [10]int{}
	for _, s := range w.b.settings {
		for _, jp := range s.JoinPlayers {
			for i := 0; i <= n; i++ {
				m := jp.PlayerID == ids[i]
				got[i] += sym.B2I(m)
				sym.Assert(sym.Implies(m, jp.RedeemChips == chips[i]), "a queued player is seated with the chips he bought")
			}
		}
	}
	for i := 0; i <= n; i++ {
		got[i] += w.b.updJoin[i]
		sym.Assert(sym.Or(w.b.updJoin[i] == 0, w.b.updChips[i] == chips[i]), "a late player is seated with the chips he bought")
		want := 1
		if i == refund || (i == n && refund < 0) {
			want = 0
		}
		sym.Assert(got[i] == want, "every queued player is seated exactly once when the MTT gets going")
	}
	sym.Assert(w.c.State.Status == pc.CompetitionStateStatus_DelayedBuyIn, "an MTT with enough players gets going")
	sym.ReachIf(refund >= 0, "refund before start")
	sym.ObserveInt("tables", len(w.b.settings))
}
