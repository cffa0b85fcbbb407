package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/regulator"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C20: MTTs of 2..5 players (thorough: 2..7) at tables of 2 to 4 seats with the real regulator, three events (thorough: four for up to 3 seats) after the start, each a settled hand of any table with any of its players broke, a buy-in, a re-buy or the end of late buy-in; tables listed in two orders
// BOUND C20: symbolic: the stacks of the survivors of every hand
// BOUND C20: a table that refuses to be balanced after the first hand, and tables that cannot be created, with 2..5 players
// OUTSIDE C20: larger tables; initial players per table above two thirds of the seats (the regulator's library overfills tables); a table that refuses players who have just bought in (the regulator's library asks again for ever); the fairness of the regulator's choices, which belong to its library

type tab struct {
	id     string
	who    []int
	closed int
	gone   bool
	gc     int
	since  int // hands since late buy-in ended with few players left
}

// hall plays the tables of an MTT: who sits where follows only from the requests of the competition.
type hall struct {
	w     *World
	tabs  []*tab
	chips [10]int64 // stack of every player as the tables know it
	seats int
	ok    bool // every request made sense
	reg   regulator.Regulator
	plan  [][]int // who the regulator wants at every table
	dead  [10]bool
	view  *view       // a listener to be judged instead of the tables
	stops func() bool // the table of the settled hand is to be paused instead of balanced
}

func (h *hall) twin(min int) {
	h.reg = regulator.NewRegulator(regulator.MaxPlayersPerTable(h.seats), regulator.MinInitialPlayers(min),
		regulator.WithRequestTableFn(func(ps []string) (string, error) {
			k := len(h.plan)
			if k >= len(h.tabs) {
				h.ok = false
				return "none", nil
			}
			h.plan = append(h.plan, nil)
			h.plan[k] = seat(nil, ps)
			return h.tabs[k].id, nil
		}),
		regulator.WithAssignPlayersFn(func(id string, ps []string) error {
			for k, t := range h.tabs {
				if t.id == id && k < len(h.plan) {
					h.plan[k] = seat(h.plan[k], ps)
				}
			}
			return nil
		}))
	h.reg.SetStatus(regulator.CompetitionStatus_Pending)
}

func seat(l []int, ps []string) []int {
	for _, p := range ps {
		l = append(l, who(p))
	}
	return l
}

func drop(l []int, p int) []int {
	r := []int{}
	for _, x := range l {
		if x != p {
			r = append(r, x)
		}
	}
	return r
}

// settled tells the regulator what a hand of table k left behind and carries out its answer.
func (h *hall) settled(k int, id string, broke []int, order []string) {
	n, join, _ := h.reg.SyncState(id, len(broke))
	for _, p := range broke {
		h.plan[k] = drop(h.plan[k], p)
	}
	out := order
	if n < len(out) {
		out = out[:n]
	}
	for _, p := range out {
		h.plan[k] = drop(h.plan[k], who(p))
	}
	h.plan[k] = seat(h.plan[k], join)
	if len(out) > 0 {
		_ = h.reg.ReleasePlayers(id, out)
	}
}

// carried: the players sit where the regulator wants them.
func (h *hall) carried() bool {
	if len(h.plan) != len(h.tabs) {
		return false
	}
	for k, t := range h.tabs {
		if len(t.who) != len(h.plan[k]) {
			return false
		}
		for _, p := range h.plan[k] {
			if len(drop(t.who, p)) == len(t.who) {
				return false
			}
		}
	}
	return true
}

func who(pid string) int {
	for i, x := range ids {
		if x == pid {
			return i
		}
	}
	return -1
}

func (h *hall) find(id string) *tab {
	for _, t := range h.tabs {
		if t.id == id && !t.gone {
			return t
		}
	}
	return nil
}

func (h *hall) at(p int) (n int, id string) {
	for _, t := range h.tabs {
		if t.gone {
			continue
		}
		for _, x := range t.who {
			if x == p {
				n++
				id = t.id
			}
		}
	}
	return
}

func (h *hall) join(t *tab, js []pokertable.JoinPlayer) {
	for _, j := range js {
		p := who(j.PlayerID)
		n, _ := h.at(p)
		h.ok = sym.And(h.ok, n == 0, j.RedeemChips == h.chips[p], j.RedeemChips > 0, j.Seat == -1)
		for _, q := range h.w.c.State.Players {
			if q.PlayerID == j.PlayerID { // who left a table is not shown there any more
				h.ok = sym.And(h.ok, sym.Or(q.CurrentTableID == "", q.CurrentTableID == t.id))
			}
		}
		t.who = append(t.who, p)
	}
}

// must decides what C20 and C21 claim.
func (h *hall) must(ok bool, label string) {
	if h.view == nil {
		sym.Assert(ok, label)
	}
}

func newHall(w *World, seats int) *hall {
	h := &hall{w: w, seats: seats, ok: true}
	w.b.onCreate = func(s pokertable.TableSetting) {
		t := &tab{id: s.TableID}
		for _, o := range h.tabs {
			h.ok = sym.And(h.ok, o.id != s.TableID)
		}
		h.tabs = append(h.tabs, t)
		h.join(t, s.JoinPlayers)
		h.ok = sym.And(h.ok, s.Meta.TableMaxSeatCount == h.seats)
	}
	w.b.onUpdate = func(id string, join []pokertable.JoinPlayer, leave []string) map[string]int {
		t := h.find(id)
		r := map[string]int{}
		if t == nil {
			h.ok = false
			return r
		}
		for _, l := range leave {
			k := -1
			for i, x := range t.who {
				if ids[x] == l {
					k = i
				}
			}
			if k < 0 {
				h.ok = false
				continue
			}
			t.who = append(append([]int{}, t.who[:k]...), t.who[k+1:]...)
		}
		h.join(t, join)
		for i, x := range t.who {
			r[ids[x]] = i
		}
		return r
	}
	return h
}

// confirm reports the reservations the tables made and the tables they closed.
func (h *hall) confirm() {
	for _, t := range h.tabs {
		if t.gone {
			continue
		}
		for i, p := range t.who {
			h.w.ce.UpdateReserveTablePlayerState(t.id, &pokertable.TablePlayerState{PlayerID: ids[p], Seat: i, Bankroll: h.chips[p]})
		}
	}
	for _, t := range h.tabs {
		if t.gone || t.closed == 0 {
			continue
		}
		t.gone = true
		x := newTable(t.id, pokertable.TableSetting{TableID: t.id})
		x.State.Status = pokertable.TableStateStatus_TableClosed
		x.State.GameCount = t.gc
		h.w.ce.UpdateTable(x)
	}
}

// hand settles a hand of table t with the given players broke.
func (h *hall) hand(t *tab, broke []bool) {
	t.gc++
	w := h.w
	x := newTable(t.id, pokertable.TableSetting{TableID: t.id})
	x.Meta = w.b.settings[0].Meta
	x.State.Status = pokertable.TableStateStatus_TableGameSettled
	x.State.GameCount = t.gc
	x.State.StartAt = base + 10
	for i, p := range t.who {
		bank := int64(0)
		if !broke[i] {
			bank = int64(p+1)*10000 + sym.Int64Range("stack", 1, 9999)
			x.State.NextBBOrderPlayerIDs = append([]string{ids[p]}, x.State.NextBBOrderPlayerIDs...) // not the order of the seats
		}
		h.chips[p] = bank
		x.State.PlayerStates = append(x.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: ids[p], Seat: i, Bankroll: bank, IsIn: (p+t.gc)%3 != 0, IsParticipated: !h.dead[p]})
	}
	gs := &pokerface.GameState{Result: &settlement.Result{}}
	for j, p := range t.who {
		if h.dead[p] {
			continue
		}
		h.dead[p] = broke[j]
		i := len(gs.Players)
		x.State.GamePlayerIndexes = append(x.State.GamePlayerIndexes, j)
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: i, Combination: &pokerface.CombinationInfo{Cards: []string{}}})
		gs.Result.Players = append(gs.Result.Players, &settlement.PlayerResult{Idx: i})
	}
	x.State.GameState = gs
	was := t.who
	stay := 0
	for _, b := range broke {
		stay += sym.B2I(!b)
	}
	closes := w.b.closeN
	vtime.RunTasks()
	timers := len(vtime.Timers())
	w.ce.UpdateTable(x)
	vtime.RunTasks()
	rich := 0
	for _, p := range w.c.State.Players {
		rich += sym.B2I(p.Chips > 0)
	}
	for _, y := range vtime.TimersFrom(timers) {
		if y.Pending() && y.Due.Unix() == vtime.NowUnix()+3 {
			h.must(rich < 2 || w.c.Meta.AdvanceSetting.Rule != "", "an MTT does not go to its end while two players have chips")
		}
	}
	if h.stops != nil && h.stops() {
		return
	}
	var lost []int
	for i, p := range was {
		if broke[i] {
			lost = append(lost, p)
		}
	}
	for k, o := range h.tabs {
		if o == t {
			h.settled(k, t.id, lost, x.State.NextBBOrderPlayerIDs)
		}
	}
	for i, p := range t.who {
		q := w.c.State.Players[p]
		h.must(sym.And(q.Status == stPlaying, q.CurrentTableID == t.id, q.CurrentSeat == i || i < stay), "who is moved to a table is shown there")
	}
	if w.b.closeN > closes {
		h.ok = sym.And(h.ok, w.b.closeN == closes+1, w.b.closeTbl == t.id)
		t.closed++
	}
}

func (h *hall) check(label string) {
	w := h.w
	if h.view != nil {
		vtime.RunTasks()
		h.view.knows(label)
		if isEnd(w.c.State.Status) {
			sym.Stop()
		}
		return
	}
	if isEnd(w.c.State.Status) {
		live := 0
		for _, t := range h.tabs {
			if !t.gone {
				live++
			}
		}
		h.must(live == 0, label+": an MTT does not end while players sit at its tables")
		sym.Stop()
	}
	h.must(h.ok, label+": only players without a table are seated, with exactly their chips, and only players at a table are moved away")
	h.must(h.carried(), label+": the regulator's decisions are carried out exactly")
	seated := 0
	fits, placed, money := true, true, true
	for _, t := range h.tabs {
		if t.gone {
			continue
		}
		fits = sym.And(fits, len(t.who) <= h.seats, len(t.who) > 0)
		seated += len(t.who)
	}
	h.must(fits, label+": no table holds more players than it has seats, and no table stays open without players")
	for _, p := range w.c.State.Players {
		i := who(p.PlayerID)
		n, id := h.at(i)
		money = sym.And(money, p.Chips == h.chips[i])
		live := p.Chips > 0
		placed = sym.And(placed, n <= 1,
			sym.Implies(sym.And(live, n == 1), sym.And(p.Status == stPlaying, p.CurrentTableID == id)),
			sym.Implies(sym.And(live, n == 0), sym.And(p.Status == stWaiting, p.CurrentTableID == "", p.CurrentSeat == pc.UnsetValue)),
			sym.Implies(!live, sym.And(n == 0, p.CurrentSeat == pc.UnsetValue, sym.Or(p.Status == stReBuy, p.Status == stKnockout))))
	}
	h.must(placed, label+": every player with chips plays at exactly one table, the one he is shown at, or waits for one; a broke player has no table")
	h.must(money, label+": moving between tables costs no chips")
	open := 0
	known := true
	for _, t := range h.tabs {
		if !t.gone {
			open++
			known = sym.And(known, w.c.IsTableExist(t.id))
		}
	}
	h.must(sym.And(known, len(w.c.State.Tables) == open), label+": the competition lists exactly the open tables")
	h.must(w.errN == 0, label+": nothing fails")
	left := 0
	for _, p := range w.c.State.Players {
		left += sym.B2I(p.Chips > 0)
	}
	if w.c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn && sym.Pin(left) <= h.seats {
		all := open > 1
		for _, t := range h.tabs {
			all = all && (t.gone || t.since > 0)
		}
		h.must(!all, label+": after late buy-in players who fit at one table end up there once every table has finished a hand")
	}
}

func c20(seats int, watched bool) {
	n := 4
	if seats == 4 {
		n = 4 + sym.Choose("players", 2+2*sym.Tier())
	} else {
		n = 2 + sym.Choose("players", 4+sym.Tier())
	}
	w := create(Cfg{mode: pc.CompetitionMode_MTT, n: n, seats: seats, finalIdx: 1, maxReBuy: 3, minPlayer: 2, meta: func(m *pc.CompetitionMeta) {
		m.RegulatorMinInitialPlayerCount = (2*seats + 1) / 3 // with more the regulator's library overfills tables
	}})
	w.n = 10
	w.b.n = 10
	h := newHall(w, seats)
	if watched {
		h.view = follow(w)
	}
	h.twin((2*seats + 1) / 3)
	_ = h.reg.AddPlayers(ids[:n])
	for i := 0; i < n; i++ {
		h.chips[i] = 1000
	}
	vtime.SetNow(base + 20)
	_, err := w.ce.StartCompetition()
	h.must(err == nil, "set-up: a registering competition starts")
	vtime.RunTasks()
	h.reg.SetStatus(regulator.CompetitionStatus_Normal)
	h.confirm()
	h.check("after the start")
	h.must((len(h.tabs) > 0) == (n >= (2*seats+1)/3), "with enough players there is a table")
	open := true
	events := 3
	if seats < 4 && !watched {
		events += sym.Tier()
	}
	w.hook = func(kind string) {
		for _, p := range w.c.State.Players {
			h.ok = sym.And(h.ok, sym.Implies(p.Status == stWaiting, sym.And(p.CurrentTableID == "", p.CurrentSeat == pc.UnsetValue)))
		}
	}
	for e := 0; e < events; e++ {
		var live []*tab
		for _, t := range h.tabs {
			if !t.gone {
				live = append(live, t)
			}
		}
		op := sym.Choose("op", len(live)+3)
		switch {
		case op < len(live):
			t := live[op]
			if len(t.who) < 2 {
				sym.Stop()
			}
			broke := make([]bool, len(t.who))
			mask := sym.Choose("broke", 1<<len(t.who)-1) // somebody wins
			for i := range broke {
				broke[i] = mask>>i&1 == 1
			}
			vtime.SetNow(vtime.NowUnix() + 10)
			h.hand(t, broke)
			t.since += sym.B2I(w.c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn)
			h.confirm()
			h.check("after a hand")
		case op == len(live):
			p := len(w.c.State.Players)
			h.chips[p] = 1000
			err := w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[p], RedeemChips: 1000, Unit: 1})
			h.must(sym.Iff(err == nil, open), "players can buy in until late buy-in ends")
			if open {
				_ = h.reg.AddPlayers(ids[p : p+1])
			}
			h.confirm()
			h.check("after a buy-in")
		case op == len(live)+1:
			k := -1
			for i, p := range w.c.State.Players {
				if p.Status == stReBuy {
					k = i
				}
			}
			if k < 0 {
				sym.Stop()
			}
			h.chips[k] = 777
			h.dead[k] = false
			err := w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[k], RedeemChips: 777, Unit: 1})
			h.must(err == nil, "a broke player can re-buy until late buy-in ends")
			_ = h.reg.AddPlayers(ids[k : k+1])
			h.confirm()
			h.check("after a re-buy")
		default:
			if !open {
				sym.Stop()
			}
			open = false
			h.reg.SetStatus(regulator.CompetitionStatus_AfterRegDeadline)
			w.level(2)
			if w.c.State.Status == pc.CompetitionStateStatus_End {
				return
			}
			h.confirm()
			h.check("after late buy-in")
		}
	}
}

func C20_two()   { c20(2, false) }
func C20_three() { c20(3, false) }
func C20_four()  { c20(4, false) }

// C20_refused: a table that refuses to be balanced
func C20_refused() {
	seats := 2 + sym.Choose("seats", 2)
	n := 2 + sym.Choose("players", 4)
	w := create(Cfg{mode: pc.CompetitionMode_MTT, n: n, seats: seats, finalIdx: 1, maxReBuy: 3, minPlayer: 2, meta: func(m *pc.CompetitionMeta) {
		m.RegulatorMinInitialPlayerCount = (2*seats + 1) / 3
	}})
	w.n, w.b.n = 10, 10
	h := newHall(w, seats)
	h.stops = func() bool { return true }
	for i := 0; i < n; i++ {
		h.chips[i] = 1000
	}
	vtime.SetNow(base + 20)
	_, err := w.ce.StartCompetition()
	sym.Assert(err == nil, "set-up: a registering competition starts")
	vtime.RunTasks()
	h.confirm()
	if len(h.tabs) == 0 {
		sym.Stop()
	}
	if sym.Choose("closed", 2) == 1 {
		w.level(2)
		if isEnd(w.c.State.Status) {
			sym.Stop()
		}
	}
	t := h.tabs[sym.Choose("table", len(h.tabs))]
	if len(t.who) < 2 {
		sym.Stop()
	}
	broke := make([]bool, len(t.who))
	mask := sym.Choose("broke", 1<<len(t.who)-1)
	for i := range broke {
		broke[i] = mask>>i&1 == 1
	}
	w.b.reset()
	w.b.updErr = true
	errs := w.errN
	s := w.snap()
	vtime.SetNow(vtime.NowUnix() + 10)
	h.hand(t, broke)
	sym.Assert(w.errN == errs+w.b.updN, "a table that refuses to be balanced is reported")
	for i, p := range w.c.State.Players {
		q := &s.players[i]
		sym.Assert(p.Chips == h.chips[i], "a refused balancing costs no chips")
		if h.chips[i] > 0 && w.b.updN > 0 {
			sym.Assert(sym.And(p.Status == q.Status, p.CurrentTableID == q.CurrentTableID, p.CurrentSeat == q.CurrentSeat), "nobody is shown as moved by a table that refused")
		}
	}
	sym.Assert(sym.And(w.b.closeN == 0, w.b.createN == 0), "a refused balancing closes and creates no table")
	sym.ReachIf(w.b.updN > 0, "refused")
}

// C20_uncreated: a table that cannot be created
func C20_uncreated() {
	n := 2 + sym.Choose("players", 4)
	k := sym.Choose("tables", 2) // tables that can be created
	w := create(Cfg{mode: pc.CompetitionMode_MTT, n: n, seats: 2, finalIdx: 1, maxReBuy: 3, minPlayer: 2, meta: func(m *pc.CompetitionMeta) { m.RegulatorMinInitialPlayerCount = 2 }})
	w.n, w.b.n = 10, 10
	w.b.createErr, w.b.createOK = true, k
	for _, p := range w.c.State.Players {
		p.Chips = int64(n-who(p.PlayerID))*10000 + sym.Int64Range("chips", 1, 9999)
	}
	s := w.snap()
	vtime.SetNow(base + 20)
	_, err := w.ce.StartCompetition()
	vtime.RunTasks()
	for i := n; i < n+2; i++ { // more players come
		if w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 1000, Unit: 1}) != nil {
			sym.Stop()
		}
	}
	sym.Assert(err == nil, "an MTT starts although a table cannot be created")
	tried := len(w.b.settings)
	made := len(w.b.tables)
	sym.Assert(sym.Iff(w.errN > 0, tried > made), "a table that cannot be created is reported")
	sym.Assert(len(w.c.State.Tables) == made, "only created tables are listed")
	for i, p := range w.c.State.Players {
		if i < n {
			sym.Assert(p.Chips == s.players[i].Chips, "a table that cannot be created costs no chips")
		}
		sym.Assert(sym.And(p.Status == stWaiting, p.CurrentTableID == ""), "nobody is shown at a table before he has a seat there")
	}
	sym.ReachIf(tried > made, "refused")
	sym.ReachIf(made > 0, "created")
}
