package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vsync"
	"verif.local/sym/vtime"
)

// POINTS C24
// BOUND C24: every pair of requests of different or the same players, one of them running as a whole before any statement of the other (or waiting there for a lock), in a registering or running competition of any mode with three players
// BOUND C24: symbolic: the amounts 1..999, the units, the chips of every player (20001..39999 in a fixed order)
// OUTSIDE C24: a table that reports the end of a hand while it is asked to take or let go players for the balancing or a cash-out; three requests at once; two requests that each interrupt the other; a request that overlaps a table report, a timer or the administrator

// outcome is everything a user can see of a competition.
type outcome struct {
	w    *World
	errs [2]error
}

func sameErr(a, b error) bool { return a == b }

func (o *outcome) as(p *outcome) bool {
	a, b := o.w, p.w
	if !sameErr(o.errs[0], p.errs[0]) || !sameErr(o.errs[1], p.errs[1]) {
		return false
	}
	if len(a.c.State.Players) != len(b.c.State.Players) || len(a.c.State.Rankings) != len(b.c.State.Rankings) || len(a.c.State.Tables) != len(b.c.State.Tables) {
		return false
	}
	if len(a.b.seq) != len(b.b.seq) { // what the tables are asked, in order
		return false
	}
	for i := range a.b.seq {
		if a.b.seq[i] != b.b.seq[i] {
			return false
		}
	}
	ok := sym.And(a.c.State.Status == b.c.State.Status, sameStatistic(a.c.State.Statistic, b.c.State.Statistic),
		a.finalN == b.finalN, a.cashN == b.cashN, a.setN == b.setN, a.errN == b.errN,
		a.b.reserveN == b.b.reserveN, a.b.redeemN == b.b.redeemN, a.b.leaveN == b.b.leaveN, a.b.leaveTot == b.b.leaveTot,
		a.b.updN == b.b.updN, a.b.createN == b.b.createN, a.b.closeN == b.b.closeN, a.b.releaseN == b.b.releaseN, a.b.pauseN == b.b.pauseN)
	for i := 0; i < a.b.n; i++ {
		ok = sym.And(ok, a.b.left[i] == b.b.left[i], a.b.updJoin[i] == b.b.updJoin[i], a.b.updLeave[i] == b.b.updLeave[i],
			a.cashCnt[i] == b.cashCnt[i], a.cashChips[i] == b.cashChips[i])
	}
	// the list of players may come in either order
	for _, x := range a.c.State.Players {
		one := false
		for _, y := range b.c.State.Players {
			if x.PlayerID == y.PlayerID {
				one = true
				ok = sym.And(ok, sameMoney(x, y), sameLife(x, y), sameStats(x, y), x.CompetitionRank == y.CompetitionRank,
					x.CurrentSeat == y.CurrentSeat, a.tableNo(x) == b.tableNo(y))
			}
		}
		if !one {
			return false
		}
	}
	return ok
}

// tableNo numbers the tables in the order they were made.
func (w *World) tableNo(p *pc.CompetitionPlayer) int {
	r := -1
	for i, t := range w.c.State.Tables {
		r = sym.IteInt(p.CurrentTableID == t.ID, i, r)
	}
	return sym.IteInt(p.CurrentTableID == "", -2, r)
}

type request func(w *World) error

// overlap: two requests at once have the outcome of one after the other.
func overlap(build func() *World, a, b request) {
	ab := &outcome{w: build()}
	ab.errs[0] = a(ab.w)
	n, nw := vsync.Took[0], vsync.TookW[0]
	ab.errs[1] = b(ab.w)
	locks, excl := vsync.Took[0] > n, vsync.TookW[0] > nw
	// waits: it has to wait for the lock the other one holds
	waits := func() bool { return locks && (vsync.HeldW[1] > 0 || excl && vsync.Held[1] > 0) }
	o := &outcome{w: build()}
	done := false
	vtime.Thread = 1
	vsync.At = func() {
		if done || vtime.Thread != 1 || waits() {
			return
		}
		if sym.Choose("here", 2) == 0 {
			return
		}
		done = true
		vtime.Thread = 2
		o.errs[1] = b(o.w)
		vtime.Thread = 1
	}
	o.errs[0] = a(o.w)
	vsync.At = nil
	vtime.Thread = 0
	if !done {
		sym.Stop()
	}
	ba := &outcome{w: build()}
	ba.errs[1] = b(ba.w)
	ba.errs[0] = a(ba.w)
	sym.Reach("a request ran while another was under way")
	sym.Assert(o.w.statsFit(), "two requests at once: the counters match the players")
	sym.Assert(sym.Or(o.as(ab), o.as(ba)), "two requests at once have the outcome of one after the other")
}

func (w *World) request(op int, who string, tid string, amount int64, unit int) error {
	switch op {
	case 0:
		return w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: who, RedeemChips: amount, Unit: unit})
	case 1:
		return w.ce.PlayerAddon(tid, pc.JoinPlayer{PlayerID: who, RedeemChips: amount, Unit: unit})
	case 2:
		return w.ce.PlayerRefund(who)
	case 3:
		return w.ce.PlayerCashOut(tid, who)
	}
	return w.ce.PlayerQuit(tid, who)
}

func c24(k Cfg, run bool, prep func(w *World), ops []int) {
	mk := func() *World {
		w := (*World)(nil)
		if run {
			w = started(k)
		} else {
			w = create(k)
		}
		w.b.reset()
		w.b.n = 5
		w.n = 5
		return w
	}
	chips := []int64{}
	for i := 0; i < k.n; i++ {
		chips = append(chips, int64(3-i)*10000+sym.Int64Range("chips", 1, 999))
	}
	build := func() *World {
		w := mk()
		for i, p := range w.c.State.Players {
			p.Chips = chips[i]
			p.TotalRedeemChips = chips[i]
		}
		if prep != nil {
			prep(w)
		}
		return w
	}
	var rs [2]request
	whos := [2][]string{{ids[0], ids[2], ids[3]}, ids[:5]}
	if sym.Tier() == 1 {
		whos[0] = ids[:5]
	}
	for i := range rs {
		op := ops[sym.Choose("op", len(ops))]
		who := whos[i][sym.Choose("who", len(whos[i]))]
		amount := sym.Int64Range("amount", 1, 999)
		unit := sym.IntRange("unit", 1, smallN)
		rs[i] = func(w *World) error {
			tid := "none"
			if len(w.c.State.Tables) > 0 {
				tid = w.c.State.Tables[0].ID
			}
			return w.request(op, who, tid, amount, unit)
		}
	}
	overlap(build, rs[0], rs[1])
}

func c24meta(m *pc.CompetitionMeta) { m.AddonSetting.MaxTime = 1 }

func C24_ct() {
	run := sym.Choose("running", 2) == 1
	prep := func(w *World) {
		if run {
			p := w.c.State.Players[2]
			p.Chips, p.Status, p.IsReBuying, p.ReBuyEndAt, p.ReBuyWaitingAt = 0, stReBuy, true, base+1000, base
			w.fixStats()
		}
	}
	c24(Cfg{mode: pc.CompetitionMode_CT, n: 3, finalIdx: 2, maxReBuy: 1, waiting: 100, seats: 4, duration: 1000000, meta: c24meta}, run, prep,
		[]int{0, 1, 2, 4})
}

func C24_cash() {
	run := sym.Choose("running", 2) == 1
	paused := run && sym.Choose("paused", 2) == 1
	prep := func(w *World) {
		if paused {
			w.c.State.Tables[0].State.Status = pokertable.TableStateStatus_TablePausing
		}
	}
	c24(Cfg{mode: pc.CompetitionMode_Cash, n: 3, finalIdx: pc.NoStopBuyInIndex, tableMin: 2, duration: 1000000, meta: c24meta}, run, prep,
		[]int{0, 1, 2, 3})
}

func C24_mtt() {
	run := sym.Choose("running", 2) == 1
	prep := func(w *World) {
		if run {
			p := w.c.State.Players[2]
			p.Chips, p.Status, p.IsReBuying, p.ReBuyEndAt, p.ReBuyWaitingAt = 0, stReBuy, true, base+1000, base
			w.fixStats()
		}
	}
	c24(Cfg{mode: pc.CompetitionMode_MTT, n: 3, finalIdx: 2, maxReBuy: 1, waiting: 100, seats: 4, duration: 1000000, meta: c24meta}, run, prep,
		[]int{0, 1, 2})
}

// A table may report back while it is being asked: the request still returns.
func c24answers(mode pc.CompetitionMode) {
	run := sym.Choose("running", 2) == 1
	k := Cfg{mode: mode, n: 3, finalIdx: 2, maxReBuy: 1, waiting: 100, seats: 4, duration: 1000000, meta: c24meta}
	ops := []int{0, 1, 2, 4}
	switch mode {
	case pc.CompetitionMode_Cash:
		k.finalIdx = pc.NoStopBuyInIndex
		ops = []int{0, 1, 2, 3}
	case pc.CompetitionMode_MTT:
		ops = []int{0, 1, 2}
	}
	w := (*World)(nil)
	if run {
		w = started(k)
	} else {
		w = create(k)
	}
	w.b.reset()
	w.n, w.b.n = 4, 4
	if run && mode == pc.CompetitionMode_Cash && sym.Choose("paused", 2) == 1 {
		w.c.State.Tables[0].State.Status = pokertable.TableStateStatus_TablePausing
	}
	report := sym.Choose("report", 4)
	n := 0
	w.b.onCall = func(kind string) {
		if n > 0 || report == 1 && kind != "reserve" && kind != "redeem" {
			return
		}
		n++
		tid := tableID
		if len(w.c.State.Tables) > 0 {
			tid = w.c.State.Tables[0].ID
		}
		switch report {
		case 0:
			w.ce.UpdateReserveTablePlayerState(tid, &pokertable.TablePlayerState{PlayerID: ids[sym.Choose("whom", 4)], Seat: 3, Bankroll: 500})
		default:
			w.n = 3
			var t *pokertable.Table
			switch report {
			case 1:
				t = settled(w, 1)
			case 2:
				t = w.table(pokertable.TableStateStatus_TablePausing, 1)
			case 3:
				t = w.table(pokertable.TableStateStatus_TableGamePlaying, 1)
			}
			w.n = 4
			t.ID = tid
			w.ce.UpdateTable(t)
		}
	}
	op := ops[sym.Choose("op", len(ops))]
	err := w.request(op, ids[[]int{0, 2, 3}[sym.Choose("who", 3)]], tableID, sym.Int64Range("amount", 1, 999), 1)
	sym.ReachIf(n > 0, "a table reports while it is being asked")
	sym.ReachIf(err == nil, "a request is accepted")
	sym.Assert(w.statsFit(), "a request during which its table reports: the counters match the players")
}

func C24_answers_ct()   { c24answers(pc.CompetitionMode_CT) }
func C24_answers_cash() { c24answers(pc.CompetitionMode_Cash) }
func C24_answers_mtt()  { c24answers(pc.CompetitionMode_MTT) }
