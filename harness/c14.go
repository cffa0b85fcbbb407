package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C14: competitions of any mode, registering or running, with three players each with chips, waiting for a re-buy or knocked out; any two operations in a row (thorough: a third one that is a purchase, a settled hand or an expired window) out of buy-in, re-buy, add-on, refund, quit, cash-out, seat reservation, settled hand with any player going broke, the next blind level and an expired re-buy window
// BOUND C14: symbolic: units bought before and by each operation, re-buy and add-on counts, the answers of the table; stacks are concrete
// OUTSIDE C14: the order of the players with chips (C10)

func c14(mode pc.CompetitionMode) {
	n := 3
	running := sym.Choose("running", 2) == 1
	fi := 0
	if mode == pc.CompetitionMode_Cash {
		fi = pc.NoStopBuyInIndex
	}
	k := Cfg{mode: mode, n: n, finalIdx: fi, maxReBuy: 2, waiting: 15, duration: 1000000, meta: func(m *pc.CompetitionMeta) { m.AddonSetting.MaxTime = 2 }}
	var w *World
	tournament := mode != pc.CompetitionMode_Cash
	if running {
		w = started(k)
	} else {
		w = create(k)
	}
	vtime.SetNow(base + 100)
	units := 0
	for i, p := range w.c.State.Players {
		p.Chips = int64(1000 * (i + 1))
		p.ReBuyTimes = sym.IntRange("rebuys", 0, 3)
		p.AddonTimes = sym.IntRange("addons", 0, 3)
		p.TotalBuyInUnits = sym.IntRange("units", 0, smallN)
		units += p.TotalBuyInUnits
		c := 1
		if running && i > 0 {
			c = 3 - sym.B2I(!tournament)
		}
		switch sym.Choose("class", c) {
		case 1:
			p.Chips, p.Status, p.IsReBuying, p.ReBuyEndAt, p.ReBuyWaitingAt = 0, stReBuy, true, base+1000, base+int64(i)
		case 2:
			p.Chips, p.Status, p.KnockoutAt, p.CurrentSeat = 0, stKnockout, base+50, pc.UnsetValue
			w.c.State.Rankings = append(w.c.State.Rankings, &pc.CompetitionRank{PlayerID: p.PlayerID})
		}
	}
	st := w.c.State.Statistic
	if tournament {
		st.TotalBuyInCount = units
	}
	addons := sym.IntRange("addonUnits", 0, smallN)
	st.TotalAddonCount = addons
	w.fixStats()
	tbl := tableID
	if len(w.b.tables) > 0 {
		tbl = w.b.tables[0]
	}
	w.b.leaveErr = sym.Choose("refuses", 2) == 1
	w.b.reserveErr = w.b.leaveErr
	w.b.redeemErr = w.b.leaveErr
	hand := 1
	for step := 0; step < 2+sym.Tier(); step++ {
		op := 0
		if step < 2 {
			op = sym.Choose("op", 9)
		} else {
			op = []int{0, 6, 8}[sym.Choose("op", 3)]
		}
		who := "new"
		if op < 6 {
			if i := sym.Choose("who", n+1); i < n {
				who = ids[i]
			}
		}
		u := sym.IntRange("unit", 0, smallN)
		jp := pc.JoinPlayer{PlayerID: who, RedeemChips: int64(700 + 10*step), Unit: u}
		vtime.SetNow(vtime.NowUnix() + 3)
		if operate(w, op, n, running, tbl, who, jp, &hand) && op == 1 && tournament {
			addons += u
		}
		sym.Assert(w.statsFit(), "the counters per status equal the number of players in that status")
		sum := 0
		for _, p := range w.c.State.Players {
			sum += p.TotalBuyInUnits
		}
		if tournament {
			sym.Assert(st.TotalBuyInCount == sum, "the units bought are those of the registered players")
		} else {
			sym.Assert(st.TotalBuyInCount == 0, "cash games count no units")
		}
		sym.Assert(st.TotalAddonCount == addons, "the add-on units are those of the accepted add-ons")
		for i, p := range w.c.State.Players {
			for j := 0; j < i; j++ {
				sym.Assert(p.PlayerID != w.c.State.Players[j].PlayerID, "no player is registered twice")
			}
		}
	}
	sym.Reach("done")
}

// operate performs one operation; ok tells whether it was accepted.
func operate(w *World, op, n int, running bool, tbl, who string, jp pc.JoinPlayer, hand *int) (ok bool) {
	switch op {
	case 0:
		ok = w.ce.PlayerBuyIn(jp) == nil
	case 1:
		ok = w.ce.PlayerAddon(tbl, jp) == nil
	case 2:
		ok = w.ce.PlayerRefund(who) == nil
	case 3:
		ok = w.ce.PlayerQuit(tbl, who) == nil
	case 4:
		ok = w.ce.PlayerCashOut(tbl, who) == nil
	case 5:
		w.ce.UpdateReserveTablePlayerState(tbl, &pokertable.TablePlayerState{PlayerID: who, Seat: 5, Bankroll: 700})
	case 6:
		if !running {
			sym.Stop()
		}
		t := settled(w, *hand)
		t.ID = tbl
		*hand++
		broke := sym.Choose("broke", n+1)
		for i, p := range t.State.PlayerStates {
			p.Bankroll = int64(500 * (i + 1))
			if i == broke {
				p.Bankroll = 0
			}
			for _, cp := range w.c.State.Players {
				if cp.PlayerID == p.PlayerID && cp.Chips == 0 {
					p.Bankroll = 0
				}
			}
		}
		w.ce.UpdateTable(t)
	case 7:
		if !running || w.c.State.BlindState.CurrentLevelIndex > 0 {
			sym.Stop()
		}
		for _, x := range vtime.Timers() {
			if x.Pending() && x.Due.Unix() == w.c.State.BlindState.EndAts[0] && x.Due.Nanosecond() == 0 {
				vtime.SetNow(w.c.State.BlindState.EndAts[0])
				x.Fire()
				break
			}
		}
	case 8: // windows that have been opened end
		due := vtime.NowUnix() + 30
		for _, x := range vtime.PendingTimers() {
			if x.Due.Unix() <= due {
				vtime.SetNow(x.Due.Unix())
				x.Fire()
			}
		}
	}
	return ok
}

func C14_ct()   { c14(pc.CompetitionMode_CT) }
func C14_mtt()  { c14(pc.CompetitionMode_MTT) }
func C14_cash() { c14(pc.CompetitionMode_Cash) }
