package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C10: three players (thorough: four), each with chips, waiting for a re-buy or knocked out in any order; then one buy-in, re-buy, add-on, quit, refund, cash-out, expired window, settled hand or end of late buy-in
// BOUND C10: symbolic: chips 0..2^40, joining times, waiting times, amounts
// OUTSIDE C10: the ranks of players without chips who are neither waiting nor knocked out; players waiting since the same second

// ranksFit: the live ranks order everybody who has a rank.
func (w *World) ranksFit(label string) {
	ps := w.c.State.Players
	n := len(ps)
	pos := make([]int, n) // position in the list of those out, -1 if absent
	total := 0
	has, wait := make([]bool, n), make([]bool, n)
	for i, p := range ps {
		pos[i] = -1
		for k, r := range w.c.State.Rankings {
			pos[i] = sym.IteInt(r.PlayerID == p.PlayerID, k, pos[i])
		}
		has[i] = p.Chips > 0
		wait[i] = sym.And(!has[i], p.Status == stReBuy)
		total += sym.B2I(sym.Or(has[i], wait[i], pos[i] >= 0))
	}
	for i, p := range ps {
		out := sym.And(!has[i], !wait[i], pos[i] >= 0)
		sym.Assert(sym.Implies(sym.Or(has[i], wait[i], out), sym.And(p.CompetitionRank >= 1, p.CompetitionRank <= total)), label+": ranks count the players")
		for j, q := range ps {
			if i == j {
				continue
			}
			outj := sym.And(!has[j], !wait[j], pos[j] >= 0)
			lt := p.CompetitionRank < q.CompetitionRank
			sym.Assert(sym.Implies(sym.And(has[i], has[j], sym.Or(p.Chips > q.Chips, sym.And(p.Chips == q.Chips, p.JoinAt < q.JoinAt))), lt), label+": players with chips rank by chips, then by joining time")
			sym.Assert(sym.Implies(sym.And(has[i], sym.Or(wait[j], outj)), lt), label+": players with chips rank before those without")
			sym.Assert(sym.Implies(sym.And(wait[i], wait[j], p.ReBuyWaitingAt > q.ReBuyWaitingAt), lt), label+": who went broke later ranks before who has been waiting longer")
			sym.Assert(sym.Implies(sym.And(wait[i], outj), lt), label+": who may still re-buy ranks before those knocked out")
			sym.Assert(sym.Implies(sym.And(out, outj, pos[i] > pos[j]), lt), label+": who was knocked out later ranks better")
			sym.Assert(sym.Implies(sym.And(sym.Or(has[i], wait[i], out), sym.Or(has[j], wait[j], outj)), p.CompetitionRank != q.CompetitionRank), label+": no two players share a rank")
		}
	}
}

// classes puts every player of a running competition into one of the three groups.
func (w *World) classes(koOK bool) (chips, wait, out []int) {
	now := vtime.NowUnix()
	for i, p := range w.c.State.Players {
		p.JoinAt = sym.Int64Range("join", base-1000, base)
		k := 2
		if koOK {
			k = 3
		}
		switch sym.Choose("class", k) {
		case 0:
			p.Chips = sym.Int64Range("chips", 1, big)
			chips = append(chips, i)
		case 1:
			p.Chips, p.Status, p.IsReBuying = 0, stReBuy, sym.Bool("window") // his window may be over
			p.ReBuyEndAt = sym.IteInt64(sym.And(p.IsReBuying, w.c.Meta.Mode != pc.CompetitionMode_MTT), now+1000, pc.UnsetValue)
			p.ReBuyWaitingAt = sym.Int64Range("wait", base, now)
			wait = append(wait, i)
		case 2:
			p.Chips, p.Status, p.KnockoutAt, p.CurrentSeat, p.ReBuyTimes = 0, stKnockout, now-5, pc.UnsetValue, smallN
			out = append(out, i)
		}
	}
	if len(out) > 1 && sym.Choose("outOrder", 2) == 1 {
		for a, b := 0, len(out)-1; a < b; a, b = a+1, b-1 {
			out[a], out[b] = out[b], out[a]
		}
	}
	for _, i := range out {
		w.c.State.Rankings = append(w.c.State.Rankings, &pc.CompetitionRank{PlayerID: w.c.State.Players[i].PlayerID})
	}
	for a := 1; a < len(wait); a++ {
		sym.Assume(w.c.State.Players[wait[a]].ReBuyWaitingAt != w.c.State.Players[wait[a-1]].ReBuyWaitingAt)
	}
	w.fixStats()
	return
}

// order splits the cases by the order in which players with chips come out.
func order(idx []int, chips func(i int) int64, at func(i int) int64) {
	arranged(len(idx), func(k int) int64 { return chips(idx[k]) }, func(k int) int64 { return at(idx[k]) })
}

func C10_ops() {
	n := 3 + sym.Tier()
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_Cash}[sym.Choose("mode", 2)]
	w := started(Cfg{mode: mode, n: n, finalIdx: 2, maxReBuy: 3, waiting: 100, duration: 1000000, meta: func(m *pc.CompetitionMeta) { m.AddonSetting.MaxTime = 5 }})
	vtime.SetNow(base + 100)
	chips, wait, _ := w.classes(mode == pc.CompetitionMode_CT)
	amount := sym.Int64Range("amount", 1, big)
	delta := [10]int64{}
	op := sym.Choose("op", 5)
	who := "new"
	set := chips
	switch op {
	case 1: // re-buy
		if len(wait) == 0 {
			sym.Stop()
		}
		i := wait[sym.Choose("who", len(wait))]
		who = ids[i]
		delta[i] = amount
		set = append(append([]int{}, chips...), i)
	case 2: // add-on
		if len(chips) == 0 {
			sym.Stop()
		}
		i := chips[sym.Choose("who", len(chips))]
		who = ids[i]
		delta[i] = amount
	case 3: // quit
		if mode == pc.CompetitionMode_Cash {
			sym.Stop()
		}
		i := sym.Choose("who", n)
		who = ids[i]
		if w.c.State.Players[i].Status == stKnockout {
			sym.Stop()
		}
		sym.Assume(w.c.State.Players[i].Chips == 0)
	}
	order(set, func(i int) int64 { return w.c.State.Players[i].Chips + delta[i] }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	var err error
	switch op {
	case 0, 1:
		err = w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: who, RedeemChips: amount, Unit: 1})
	case 2:
		err = w.ce.PlayerAddon(tableID, pc.JoinPlayer{PlayerID: who, RedeemChips: amount, Unit: 1})
	case 3:
		err = w.ce.PlayerQuit(tableID, who)
	case 4: // refused add-on
		if len(chips) == 0 {
			sym.Stop()
		}
		w.b.redeemErr = true
		err = w.ce.PlayerAddon(tableID, pc.JoinPlayer{PlayerID: ids[chips[0]], RedeemChips: amount, Unit: 1})
		sym.Assert(err != nil, "an add-on the table refuses fails")
		err = nil
	}
	if err != nil {
		sym.Stop() // decided elsewhere
	}
	if op < 3 {
		w.ranksFit("after a purchase")
	} else if op == 3 && w.c.State.Players[0].CompetitionRank > 0 {
		// a quit of a waiting player changes no order
		sym.Reach("quit")
	}
	sym.Reach("op")
}

// C10_again: who goes broke again counts from his last bust
func C10_again() {
	w := started(Cfg{mode: pc.CompetitionMode_CT, n: 3, finalIdx: pc.NoStopBuyInIndex, maxReBuy: 3, waiting: 1000, duration: 1000000})
	at := base + 100
	hand := func(gc int, b0, b1, b2 int64) {
		at += sym.Int64Range("dt", 1, 100)
		vtime.SetNow(at)
		t := settled(w, gc)
		for i, b := range []int64{b0, b1, b2} {
			t.State.PlayerStates[i].Bankroll = b
		}
		w.ce.UpdateTable(t)
	}
	hand(1, 2000, 0, 1000)
	hand(2, 3000, 0, 0)
	who := 1 + sym.Choose("who", 2)
	sym.Assert(w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[who], RedeemChips: 700, Unit: 1}) == nil, "he can re-buy within his window")
	w.ranksFit("after a re-buy")
	hand(3, 3700, 0, 0)
	w.ranksFit("after a second bust")
	sym.Assert(w.c.State.Players[who].CompetitionRank == 2, "who went broke later ranks before who has been waiting longer")
}

func C10_refund() {
	n := 3 + sym.Tier()
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	w := create(Cfg{mode: mode, n: n, finalIdx: 2})
	all := []int{}
	who := sym.Choose("who", n)
	for i, p := range w.c.State.Players {
		p.Chips = sym.Int64Range("chips", 1, big)
		p.JoinAt = sym.Int64Range("join", base-1000, base)
		if i != who {
			all = append(all, i)
		}
	}
	order(all, func(i int) int64 { return w.c.State.Players[i].Chips }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	if w.ce.PlayerRefund(ids[who]) != nil {
		sym.Stop()
	}
	w.ranksFit("after a refund")
}

func C10_cash() {
	n := 2 + sym.Choose("players", 2+sym.Tier())
	w := started(Cfg{mode: pc.CompetitionMode_Cash, n: n, finalIdx: pc.NoStopBuyInIndex, maxReBuy: 3, waiting: 15, duration: 1000000})
	vtime.SetNow(base + 100)
	t := w.table(pokertable.TableStateStatus_TablePausing, 1)
	for _, p := range t.State.PlayerStates[1:] {
		p.IsIn = false
	}
	w.ce.UpdateTable(t)
	chips, _, _ := w.classes(false)
	for _, i := range chips {
		if w.c.State.Players[i].Status = stPlaying; sym.Bool("leaving") {
			w.c.State.Players[i].Status = stLeaving
		}
	}
	who := sym.Choose("who", n)
	rest := []int{}
	for _, i := range chips {
		if i != who {
			rest = append(rest, i)
		}
	}
	order(rest, func(i int) int64 { return w.c.State.Players[i].Chips }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	if w.ce.PlayerCashOut(tableID, ids[who]) != nil {
		sym.Stop()
	}
	w.ranksFit("after a cash-out")
}

func c10settle(mode pc.CompetitionMode) {
	lvl := 2 * sym.Choose("closed", 2)
	h := handWorld(mode, lvl, false, false)
	w := h.w
	// the player who is not at the table is ranked with everybody else
	w.c.State.Players[h.n].Chips = sym.Int64Range("elsewhere", 1, big)
	h.settle()
	w.ranksFit("after a hand")
}

func C10_settlect()   { c10settle(pc.CompetitionMode_CT) }
func C10_settlemtt()  { c10settle(pc.CompetitionMode_MTT) }
func C10_settlecash() { c10settle(pc.CompetitionMode_Cash) }

// C10_window: the ranks when the windows of broke players expire
func C10_window() {
	n := 3 + sym.Tier()
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_Cash}[sym.Choose("mode", 2)]
	w := started(Cfg{mode: mode, n: n, finalIdx: pc.NoStopBuyInIndex, maxReBuy: 3, waiting: 15, duration: 1000000})
	vtime.SetNow(base + 100)
	t := settled(w, 1)
	left := []int{}
	for i, p := range t.State.PlayerStates {
		p.Bankroll = 0
		w.c.State.Players[i].JoinAt = sym.Int64Range("join", base-1000, base)
		if sym.Choose("broke", 2) == 0 {
			p.Bankroll = sym.Int64Range("bank", 1, big)
			left = append(left, i)
		}
	}
	if len(left) == n {
		sym.Stop()
	}
	order(left, func(i int) int64 { return t.State.PlayerStates[i].Bankroll }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	vtime.RunTasks()
	k := len(vtime.Timers())
	w.ce.UpdateTable(t)
	for _, x := range vtime.TimersFrom(k) {
		if x.Pending() {
			vtime.SetNow(x.Due.Unix())
			x.Fire()
		}
	}
	w.ranksFit("after an expired window")
	sym.Reach("expired")
}

func c10stop(mode pc.CompetitionMode) {
	n := 3 + sym.Tier()
	w := started(Cfg{mode: mode, n: n, finalIdx: 0, maxReBuy: 3, waiting: 100, duration: 1000000})
	vtime.SetNow(base + 100)
	if mode == pc.CompetitionMode_CT {
		w.ce.UpdateTable(w.table(pokertable.TableStateStatus_TableGamePlaying, 1))
	}
	chips, wait, out := w.classes(true)
	order(chips, func(i int) int64 { return w.c.State.Players[i].Chips }, func(i int) int64 { return w.c.State.Players[i].JoinAt })
	for a := 1; a < len(wait); a++ {
		// the order of joining decides who is ranked first
		sym.Assume(w.c.State.Players[wait[a]].JoinAt != w.c.State.Players[wait[0]].JoinAt)
	}
	w.level(1)
	sym.Assert(len(w.c.State.Rankings) == len(wait)+len(out), "the end of late buy-in ranks everybody who can no longer re-buy")
	w.ranksFit("after late buy-in closes")
	sym.ReachIf(len(wait) > 0, "waiting players are out")
}

func C10_stopct()  { c10stop(pc.CompetitionMode_CT) }
func C10_stopmtt() { c10stop(pc.CompetitionMode_MTT) }
