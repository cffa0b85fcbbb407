package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C28: competitions of any mode, registering or running, with three players with chips or (when running) waiting for a re-buy, one operation (thorough: two) as in C14; the life of a competition of any mode from its creation: three buy-ins and three events (thorough: four), each a timer, a start, any table report, a settled hand with up to two players broke, a closed table or a close, with any late buy-in and a start by hand or by plan
// BOUND C28: the MTTs of C20 with tables of two and three seats and three events, and the advancing MTTs of C21 with two events
// BOUND C28: symbolic: units, re-buy and add-on counts, the answers of the table, the duration, the lengths of the levels, the stacks of the survivors
// OUTSIDE C28: the per-status counters (a cash-out in the middle of a hand is told by a player event only); the table records inside the competition; events that reach several listeners in parallel

// view is what a listener knows that keeps the last state it was told.
type view struct {
	w         *World
	n         int
	id        string
	status    pc.CompetitionStateStatus
	openAt    int64
	disableAt int64
	startAt   int64
	endAt     int64
	players   []pc.CompetitionPlayer
	stat      pc.Statistic
	rankings  []pc.CompetitionRank
	tables    []string
	levelIdx  int
	endAts    []int64
	adv       pc.AdvanceState
	serial    int64
	serialOK  bool
	single    []pc.CompetitionPlayer // every player as the player events alone tell
}

// whole: the listener is shown the whole competition.
func (v *view) whole(c *pc.Competition) {
	v.n++
	s := c.State
	v.id, v.status, v.openAt, v.disableAt, v.startAt, v.endAt = c.ID, s.Status, s.OpenAt, s.DisableAt, s.StartAt, s.EndAt
	v.players = nil
	for _, p := range s.Players {
		v.players = append(v.players, *p)
	}
	v.stat = *s.Statistic
	v.rankings = nil
	for _, r := range s.Rankings {
		x := pc.CompetitionRank{PlayerID: ""}
		if r != nil {
			x = *r
		}
		v.rankings = append(v.rankings, x)
	}
	v.tables = nil
	for _, t := range s.Tables {
		v.tables = append(v.tables, t.ID)
	}
	v.levelIdx = s.BlindState.CurrentLevelIndex
	v.endAts = append([]int64{}, s.BlindState.EndAts...)
	v.adv = *s.AdvanceState
}

// ranks: the listener is told the ranks.
func (v *view) ranks(c *pc.Competition) {
	for _, p := range c.State.Players {
		for i := range v.players {
			q := &v.players[i]
			if q.PlayerID == p.PlayerID {
				q.Rank, q.TableRank, q.CompetitionRank = p.Rank, p.TableRank, p.CompetitionRank
			}
		}
	}
}

// one: the listener is shown one player.
func (v *view) one(p *pc.CompetitionPlayer) {
	v.players = put(v.players, p)
	v.single = put(v.single, p)
}

func put(l []pc.CompetitionPlayer, p *pc.CompetitionPlayer) []pc.CompetitionPlayer {
	for i := range l {
		if l[i].PlayerID == p.PlayerID {
			l[i] = *p
			return l
		}
	}
	return append(l, *p)
}

// watch lets a new listener watch an engine from its first event on.
func watch(w *World) *view {
	v := &view{w: w, serialOK: true}
	o := w.options()
	w.ce.OnCompetitionUpdated(func(c *pc.Competition) {
		v.serialOK = sym.And(v.serialOK, c.UpdateSerial == v.serial+1)
		v.serial = c.UpdateSerial
		v.whole(c)
		o.OnCompetitionUpdated(c)
	})
	w.ce.OnCompetitionStateUpdated(func(e string, c *pc.Competition) {
		switch e {
		case pc.CompetitionStateEvent_CashOutPlayers:
			v.whole(c)
		case pc.CompetitionStateEvent_PlayerRankUpdated:
			v.ranks(c)
		}
		o.OnCompetitionStateUpdated(e, c)
	})
	w.ce.OnCompetitionPlayerUpdated(func(id string, p *pc.CompetitionPlayer) { v.one(p); o.OnCompetitionPlayerUpdated(id, p) })
	return v
}

// follow lets a new listener watch the competition, which it has just read.
func follow(w *World) *view {
	v := watch(w)
	v.whole(w.c)
	v.single = append([]pc.CompetitionPlayer{}, v.players...)
	v.serial = w.c.UpdateSerial
	return v
}

// knows: the listener knows the competition as it is.
func (v *view) knows(label string) {
	c := v.w.c
	s := c.State
	sym.Assert(v.serialOK, "every update has the next serial number")
	sym.Assert(v.serial == c.UpdateSerial, "the last serial number is that of the competition")
	sym.Assert(sym.And(v.id == c.ID, v.status == s.Status, v.openAt == s.OpenAt, v.disableAt == s.DisableAt, v.startAt == s.StartAt, v.endAt == s.EndAt), label+": the status and times are known")
	sym.Assert(len(v.players) == len(s.Players), label+": the players are known")
	if len(v.players) == len(s.Players) {
		for i, p := range s.Players {
			q := &v.players[i]
			sym.Assert(samePlace(q, p), label+": every player's place is known")
			sym.Assert(sameMoney(q, p), label+": every player's chips are known")
			sym.Assert(sameLife(q, p), label+": every player's status is known")
			sym.Assert(sameStats(q, p), label+": every player's statistics are known")
			sym.Assert(sym.And(q.Rank == p.Rank, q.TableRank == p.TableRank, q.CompetitionRank == p.CompetitionRank), label+": every player's ranks are known")
		}
	}
	for _, p := range s.Players {
		told := false
		for i := range v.single {
			q := &v.single[i]
			if q.PlayerID == p.PlayerID {
				told = true
				sym.Assert(sym.And(samePlace(q, p), sameMoney(q, p), sameLife(q, p), sameStats(q, p)), label+": the player events alone tell every player's record")
			}
		}
		sym.Assert(told, label+": every player has been announced")
	}
	sym.Assert(sym.And(v.stat.TotalBuyInCount == s.Statistic.TotalBuyInCount, v.stat.TotalAddonCount == s.Statistic.TotalAddonCount), label+": the units are known")
	sym.Assert(len(v.rankings) == len(s.Rankings), label+": the final ranking is known")
	if len(v.rankings) == len(s.Rankings) {
		for i, r := range s.Rankings {
			if r != nil {
				sym.Assert(sym.And(v.rankings[i].PlayerID == r.PlayerID, v.rankings[i].FinalChips == r.FinalChips), label+": every final place is known")
			}
		}
	}
	sym.Assert(len(v.tables) == len(s.Tables), label+": the tables are known")
	sym.Assert(v.levelIdx == s.BlindState.CurrentLevelIndex && len(v.endAts) == len(s.BlindState.EndAts), label+": the blind level is known")
	for i, e := range s.BlindState.EndAts {
		if i < len(v.endAts) {
			sym.Assert(v.endAts[i] == e, label+": the ends of the levels are known")
		}
	}
	sym.Assert(sym.And(v.adv.Status == s.AdvanceState.Status, v.adv.TotalTables == s.AdvanceState.TotalTables, v.adv.UpdatedTables == s.AdvanceState.UpdatedTables), label+": the advancement is known")
}

var opNames = []string{"buy-in", "add-on", "refund", "quit", "cash-out", "seat", "hand", "level", "window"}

func c28(mode pc.CompetitionMode) {
	n := 3
	running := sym.Choose("running", 2) == 1
	fi := 0
	if mode == pc.CompetitionMode_Cash {
		fi = pc.NoStopBuyInIndex
	}
	k := Cfg{mode: mode, n: n, finalIdx: fi, maxReBuy: 2, waiting: 15, duration: 1000000, meta: func(m *pc.CompetitionMeta) { m.AddonSetting.MaxTime = 2 }}
	var w *World
	if running {
		w = started(k)
	} else {
		w = create(k)
	}
	vtime.SetNow(base + 100)
	for i, p := range w.c.State.Players {
		p.Chips = int64(1000 * (i + 1))
		p.ReBuyTimes = sym.IntRange("rebuys", 0, 3)
		p.AddonTimes = sym.IntRange("addons", 0, 3)
		p.TotalBuyInUnits = sym.IntRange("units", 0, smallN)
		if running && sym.Choose("waits", 2) == 1 {
			p.Chips, p.Status, p.IsReBuying, p.ReBuyEndAt, p.ReBuyWaitingAt = 0, stReBuy, true, base+1000, base+int64(i)
		}
	}
	w.fixStats()
	tbl := tableID
	if len(w.b.tables) > 0 {
		tbl = w.b.tables[0]
	}
	w.b.leaveErr = sym.Bool("refuses")
	w.b.reserveErr = w.b.leaveErr
	w.b.redeemErr = w.b.leaveErr
	v := follow(w)
	hand := 1
	for step := 0; step < 1+sym.Tier(); step++ {
		op := sym.Choose("op", 9)
		who := "new"
		if op < 6 {
			if i := sym.Choose("who", n+1); i < n {
				who = ids[i]
			}
		}
		u := sym.IntRange("unit", 0, smallN)
		jp := pc.JoinPlayer{PlayerID: who, RedeemChips: int64(700 + 10*step), Unit: u}
		vtime.SetNow(vtime.NowUnix() + 3)
		operate(w, op, n, running, tbl, who, jp, &hand)
		vtime.RunTasks()
		v.knows(opNames[op])
		if op == 6 {
			for _, x := range vtime.PendingTimers() {
				if x.Due.Unix() <= vtime.NowUnix()+5 {
					vtime.SetNow(x.Due.Unix())
					x.Fire()
				}
			}
			vtime.RunTasks()
			v.knows("after the hand")
		}
	}
}

// several tables
func C28_two()   { c20(2, true) }
func C28_three() { c20(3, true) }
func C28_count() { c21(pc.CompetitionAdvanceRule_PlayerCount, true) }
func C28_level() { c21(pc.CompetitionAdvanceRule_BlindLevel, true) }

func C28_ct()   { c28(pc.CompetitionMode_CT) }
func C28_mtt()  { c28(pc.CompetitionMode_MTT) }
func C28_cash() { c28(pc.CompetitionMode_Cash) }

// next lets the timer that is due first expire.
func next() bool {
	var first *vtime.Timer
	for _, x := range vtime.PendingTimers() {
		if first == nil || x.Due.Before(first.Due) {
			first = x
		}
	}
	if first == nil {
		return false
	}
	if t := first.Due.Unix(); t > vtime.NowUnix() {
		vtime.SetNow(t)
	}
	first.Fire()
	vtime.RunTasks()
	return true
}

// c28life: from the creation to the end
func c28life(mode pc.CompetitionMode) {
	n := 3
	w := bare(n)
	v := watch(w)
	k := Cfg{mode: mode, n: n, finalIdx: []int{pc.UnsetValue, 0, pc.NoStopBuyInIndex}[sym.Choose("late", 3)], maxReBuy: 1, waiting: 15, duration: sym.IntRange("duration", 1, 100000)}
	if sym.Choose("planned", 2) == 1 {
		k.startAt = base + 50
	}
	k.disableAt = base + 5000
	k.levels = stdLevels()
	for i := range k.levels {
		k.levels[i].Duration = sym.IntRange("length", 1, 100000)
	}
	var err error
	w.c, err = w.ce.CreateCompetition(setting(k))
	sym.Assert(err == nil, "set-up: a valid competition is created")
	vtime.RunTasks()
	v.knows("creation")
	for i := 0; i < n; i++ {
		vtime.SetNow(base + int64(i) + 1)
		err := w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 1000, Unit: 1 + sym.IntRange("unit", 0, smallN)})
		sym.Assert(err == nil, "set-up: a registering competition accepts a buy-in")
	}
	v.knows("buy-in")
	hand := 1
	for e := 0; e < 3+sym.Tier(); e++ {
		op := sym.Choose("event", 6)
		label := []string{"a timer", "a start", "a table report", "a hand", "a closed table", "a close"}[op]
		switch op {
		case 0:
			if !next() {
				sym.Stop()
			}
		case 1:
			if mode == pc.CompetitionMode_MTT {
				_, _ = w.ce.StartCompetition()
				vtime.RunTasks()
				w.seat()
			} else {
				if len(w.c.State.Tables) == 0 || hand > 1 {
					sym.Stop()
				}
				for i := 0; i < n; i++ {
					w.ce.UpdateReserveTablePlayerState(tableID, &pokertable.TablePlayerState{PlayerID: ids[i], Seat: i, Bankroll: 1000})
				}
				w.ce.UpdateTable(w.table(pokertable.TableStateStatus_TableCreated, 0))
			}
		case 2, 3, 4:
			if len(w.c.State.Tables) == 0 {
				sym.Stop()
			}
			t := settled(w, hand)
			t.ID = w.c.State.Tables[0].ID
			switch op {
			case 2:
				t.State.Status = []pokertable.TableStateStatus{pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableBalancing, pokertable.TableStateStatus_TableGamePlaying}[sym.Choose("status", 3)]
			case 3:
				if !v.started() {
					sym.Stop()
				}
				hand++
				broke := sym.Choose("broke", n+1)
				for i, p := range t.State.PlayerStates {
					p.Bankroll = int64(500*(i+1)) + sym.Int64Range("won", 0, 400)
					if i < broke && i < n-1 {
						p.Bankroll = 0
					}
				}
			case 4:
				t.State.Status = pokertable.TableStateStatus_TableClosed
			}
			w.ce.UpdateTable(t)
		case 5:
			_ = w.ce.CloseCompetition(pc.CompetitionStateStatus_ForceEnd)
		}
		vtime.RunTasks()
		v.knows(label)
	}
}

func (v *view) started() bool {
	s := v.w.c.State.Status
	return s == pc.CompetitionStateStatus_DelayedBuyIn || s == pc.CompetitionStateStatus_StoppedBuyIn
}

func C28_lifect()   { c28life(pc.CompetitionMode_CT) }
func C28_lifemtt()  { c28life(pc.CompetitionMode_MTT) }
func C28_lifecash() { c28life(pc.CompetitionMode_Cash) }
