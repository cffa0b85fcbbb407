package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C22: two competitions of one manager and a twin run directly, of any mode, registering or running with two players; one request or report of every kind to either or to an unknown competition, with every table answer
// BOUND C22: symbolic: chips, units, seats, times
// BOUND C22: the native table backend in front of a recording table manager: every request with symbolic amounts and every answer, every event with a table that is changed afterwards
// OUTSIDE C22: simultaneous calls (C24)

func setting2(mode pc.CompetitionMode, id, table string) pc.CompetitionSetting {
	s := setting(Cfg{mode: mode, finalIdx: 1, maxReBuy: 1, waiting: 30})
	s.CompetitionID = id
	for i := range s.TableSettings {
		s.TableSettings[i].TableID = table
	}
	return s
}

func watched(b *Backend, id string) *World {
	return &World{b: b, n: 2, serialOK: true, own: id}
}

type front struct { // how the harness reaches a competition
	w   *World
	m   pc.Manager // nil: directly
	id  string
	tbl string
	two bool
}

func (f *front) buyIn(j pc.JoinPlayer) error {
	if f.m != nil {
		return f.m.PlayerBuyIn(f.id, j)
	}
	return f.w.ce.PlayerBuyIn(j)
}

func (f *front) reserve(p *pokertable.TablePlayerState) error {
	if f.m != nil {
		return f.m.UpdateReserveTablePlayerState(f.id, f.tbl, p)
	}
	f.w.ce.UpdateReserveTablePlayerState(f.tbl, p)
	return nil
}

func (f *front) update(t *pokertable.Table) error {
	if f.m != nil {
		return f.m.UpdateTable(f.id, t)
	}
	f.w.ce.UpdateTable(t)
	return nil
}

func (f *front) table(status pokertable.TableStateStatus, gc int, bank int64) *pokertable.Table {
	t := settled(f.w, gc)
	t.ID = f.tbl
	t.State.Status = status
	t.State.PlayerStates[0].Bankroll = bank
	return t
}

func (f *front) setup(running bool, mode pc.CompetitionMode) {
	for i := 0; i < 2; i++ {
		vtime.SetNow(base + int64(i) + 1)
		sym.Assert(f.buyIn(pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 1000, Unit: 1}) == nil, "set-up: a registering competition accepts a buy-in")
		if mode != pc.CompetitionMode_MTT {
			f.reserve(&pokertable.TablePlayerState{PlayerID: ids[i], Seat: i, Bankroll: 1000})
		}
	}
	if !running {
		return
	}
	vtime.SetNow(base + 10)
	if mode == pc.CompetitionMode_MTT {
		var err error
		if f.m != nil {
			_, err = f.m.StartCompetition(f.id)
		} else {
			_, err = f.w.ce.StartCompetition()
		}
		sym.Assert(err == nil, "set-up: a registering competition starts")
		vtime.RunTasks()
		if len(f.w.c.State.Tables) == 1 {
			f.tbl = f.w.c.State.Tables[0].ID
		}
		for i := 0; i < 2; i++ {
			f.reserve(&pokertable.TablePlayerState{PlayerID: ids[i], Seat: i, Bankroll: 1000})
		}
	} else {
		f.update(f.table(pokertable.TableStateStatus_TableCreated, 0, 1000))
		vtime.RunTasks()
		f.update(f.table(pokertable.TableStateStatus_TableGamePlaying, 1, 1000))
	}
	sym.Assert(f.w.c.State.Status == pc.CompetitionStateStatus_DelayedBuyIn, "set-up: the competition starts when its conditions are met")
}

func (w *World) events() []int {
	return []int{w.updN, w.errN, w.playerN, w.cashN, w.stateN, w.setN, w.finalN, w.advanceN, w.finalCnt[0], w.finalCnt[1], w.cashCnt[0], w.cashCnt[1]}
}

func (b *Backend) log() []int {
	return []int{b.reserveN, b.redeemN, b.leaveN, b.leaveTot, b.startN, b.setupN, b.blindN, b.pauseN, b.closeN, b.createN, b.releaseN, b.updN, b.left[0], b.left[1], b.updLeave[0], b.updLeave[1], b.updJoin[0], b.updJoin[1]}
}

func eq(a, b []int) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

func sameComp(a, b *pc.Competition) bool {
	ok := sym.And(a.State.Status == b.State.Status, a.State.StartAt == b.State.StartAt, a.State.EndAt == b.State.EndAt,
		len(a.State.Rankings) == len(b.State.Rankings), len(a.State.Tables) == len(b.State.Tables), len(a.State.Players) == len(b.State.Players),
		a.State.BlindState.CurrentLevelIndex == b.State.BlindState.CurrentLevelIndex, a.UpdateSerial == b.UpdateSerial,
		sameStatistic(a.State.Statistic, b.State.Statistic))
	if len(a.State.Players) == len(b.State.Players) {
		for i, p := range a.State.Players {
			q := b.State.Players[i]
			ok = sym.And(ok, p.PlayerID == q.PlayerID, p.CurrentSeat == q.CurrentSeat, (p.CurrentTableID == "") == (q.CurrentTableID == ""), sameMoney(p, q), sameLife(p, q), sameStats(p, q), p.CompetitionRank == q.CompetitionRank)
		}
	}
	return ok
}

func c22(mode pc.CompetitionMode) {
	vtime.SetNow(base)
	b, bt := &Backend{n: 2}, &Backend{n: 2}
	m := pc.NewManager(b)
	to := pokertable.NewTableEngineOptions()
	m.SetTableEngineOptions(to)
	sym.Assert(m.GetTableEngineOptions() == to, "the manager keeps the table options it is given")
	a, o, tw := watched(b, "c1"), watched(b, "c2"), watched(bt, "c1")
	var err error
	if a.c, err = m.CreateCompetition(setting2(mode, "c1", "t1"), a.options()); err != nil {
		sym.Assert(false, "set-up: a valid competition is created")
		sym.Stop()
	}
	o.c, _ = m.CreateCompetition(setting2(mode, "c2", "t2"), o.options())
	if mode != pc.CompetitionMode_MTT {
		sym.Assert(b.opts == to, "tables are created with the manager's table options")
	}
	tw.ce = pc.NewCompetitionEngine(pc.WithTableManagerBackend(bt), pc.WithTableOptions(to))
	tw.listen()
	tw.c, _ = tw.ce.CreateCompetition(setting2(mode, "c1", "t1"))
	a.ce, err = m.GetCompetitionEngine("c1")
	sym.Assert(err == nil && a.ce.GetCompetition() == a.c, "a created competition is found by its id")
	o.ce, err = m.GetCompetitionEngine("c2")
	sym.Assert(err == nil && o.ce.GetCompetition() == o.c && o.c != a.c, "a created competition is found by its id")
	fa, fo, ft := &front{w: a, m: m, id: "c1", tbl: "t1"}, &front{w: o, m: m, id: "c2", tbl: "t2"}, &front{w: tw, id: "c1", tbl: "t1"}
	running := sym.Choose("running", 2) == 1
	fa.setup(running, mode)
	fo.setup(running, mode)
	ft.setup(running, mode)
	sym.Assert(sameComp(a.c, tw.c), "a competition does through the manager what it does by itself")
	sym.Assert(eq(a.events(), tw.events()), "the owner of a competition hears every event")
	b.reset()
	bt.reset()
	s := o.snap()
	ev := o.events()
	name := "c1"
	unknown := sym.Choose("unknown", 2) == 1
	if unknown {
		name = []string{"c3", "", "t1"}[sym.Choose("name", 3)]
	}
	sa, eva := a.snap(), a.events()
	chips := sym.Int64Range("chips", -5, big)
	unit := sym.IntRange("unit", 0, smallN)
	pid := ids[sym.Choose("who", 3)]
	fail := sym.Choose("refuses", 2) == 1
	for _, x := range []*Backend{b, bt} {
		x.reserveErr, x.redeemErr, x.leaveErr, x.startErr, x.setupErr, x.closeErr = fail, fail, fail, fail, fail, fail
	}
	vtime.SetNow(base + sym.Int64Range("wait", 20, 500))
	j := pc.JoinPlayer{PlayerID: pid, RedeemChips: chips, Unit: unit}
	gone := false
	var e1, e2 error
	op := sym.Choose("op", 12)
	t1, t2 := fa.tbl, ft.tbl
	if !unknown && (op == 1 || op == 3 || op == 4 || op == 9 || op == 10) {
		switch sym.Choose("table", 3) { // the competition judges it, not the manager
		case 1:
			t1, t2 = "", ""
		case 2:
			t1, t2 = "nowhere", "nowhere"
		}
	}
	fa.tbl, ft.tbl = t1, t2
	switch op {
	case 0:
		e1, e2 = m.PlayerBuyIn(name, j), tw.ce.PlayerBuyIn(j)
	case 1:
		e1, e2 = m.PlayerAddon(name, fa.tbl, j), tw.ce.PlayerAddon(ft.tbl, j)
	case 2:
		e1, e2 = m.PlayerRefund(name, pid), tw.ce.PlayerRefund(pid)
	case 3:
		e1, e2 = m.PlayerCashOut(name, fa.tbl, pid), tw.ce.PlayerCashOut(ft.tbl, pid)
	case 4:
		e1, e2 = m.PlayerQuit(name, fa.tbl, pid), tw.ce.PlayerQuit(ft.tbl, pid)
	case 5:
		var t1, t2 int64
		t1, e1 = m.StartCompetition(name)
		t2, e2 = tw.ce.StartCompetition()
		sym.Assert(sym.Implies(!unknown, t1 == t2), "the manager passes the start time on")
	case 6:
		st := pc.CompetitionStateStatus(sym.StrOf("end", "end", "auto_end", "force_end"))
		e1, e2 = m.CloseCompetition(name, st), tw.ce.CloseCompetition(st)
		gone = !unknown
	case 7:
		l := 1 + sym.Choose("level", 4)
		e1, e2 = m.UpdateCompetitionBlindInitialLevel(name, l), tw.ce.UpdateCompetitionBlindInitialLevel(l)
	case 8:
		st := []pokertable.TableStateStatus{pokertable.TableStateStatus_TableCreated, pokertable.TableStateStatus_TablePausing, pokertable.TableStateStatus_TableClosed, pokertable.TableStateStatus_TableGameSettled}[sym.Choose("status", 4)]
		bank := int64(1000 * sym.Choose("bank", 2))
		e1 = m.UpdateTable(name, fa.table(st, 2, bank))
		tw.ce.UpdateTable(ft.table(st, 2, bank))
	case 9:
		seat := sym.IntRange("seat", 0, 8)
		p := &pokertable.TablePlayerState{PlayerID: pid, Seat: seat, Bankroll: chips}
		e1 = m.UpdateReserveTablePlayerState(name, fa.tbl, p)
		tw.ce.UpdateReserveTablePlayerState(ft.tbl, p)
	case 10:
		e1, e2 = m.AutoGameOpenEnd(name, fa.tbl), tw.ce.AutoGameOpenEnd(ft.tbl)
	case 11:
		ps := fa.table(pokertable.TableStateStatus_TableCreated, 0, chips).State.PlayerStates
		gc := sym.IntRange("games", 0, smallN)
		e1, e2 = m.ReadyFirstTableGame(name, fa.tbl, gc, ps), tw.ce.ReadyFirstTableGame(ft.tbl, gc, ps)
		if !unknown {
			sym.Assert(sym.And(b.setupTbl == fa.tbl, b.setupGC == gc, b.setupGC == bt.setupGC, b.setupLen == bt.setupLen, b.setupIdx[0] == bt.setupIdx[0], b.setupIdx[1] == bt.setupIdx[1]), "the manager passes the first hand on")
		}
	}
	vtime.RunTasks()
	if unknown {
		sym.Assert(e1 == pc.ErrManagerCompetitionNotFound, "a request to an unknown competition is refused as unknown")
		sym.Assert(eq(b.log(), (&Backend{}).log()), "a request to an unknown competition asks nothing of the tables")
		a.unchanged(sa, "a request to an unknown competition")
		sym.Assert(eq(a.events(), eva), "a request to an unknown competition raises no event")
	} else {
		sym.Assert(e1 == e2, "the manager passes the answer on")
		sym.Assert(sameComp(a.c, tw.c), "a competition does through the manager what it does by itself")
		sym.Assert(eq(a.events(), tw.events()), "the owner of a competition hears every event")
		sym.Assert(sym.And(eq(b.log(), bt.log()), b.reserveChip == bt.reserveChip, b.redeemChip == bt.redeemChip), "the tables get the same requests through the manager")
	}
	s.pcalls = b.playerCalls() // the backend is shared
	o.unchanged(s, "a request to another competition")
	sym.Assert(eq(o.events(), ev), "a request to another competition raises no event")
	sym.Assert(sym.And(!a.foreign, !o.foreign, !tw.foreign), "every event names its competition")
	_, err = m.GetCompetitionEngine("c1")
	sym.Assert(sym.Iff(err == pc.ErrManagerCompetitionNotFound, gone), "a closed competition is forgotten, any other is kept")
	_, err = m.GetCompetitionEngine("c2")
	sym.Assert(err == nil, "the other competition is kept")
	sym.ReachIf(gone, "closed")
	sym.ReachIf(e1 != nil && !unknown, "refused")
	sym.ReachIf(e1 == nil, "accepted")
}

func C22_ct()   { c22(pc.CompetitionMode_CT) }
func C22_mtt()  { c22(pc.CompetitionMode_MTT) }
func C22_cash() { c22(pc.CompetitionMode_Cash) }

// C22_life: how competitions come to and go from a manager
func C22_life() {
	vtime.SetNow(base)
	b := &Backend{n: 2}
	m := pc.NewManager(b)
	sym.Assert(m.GetTableEngineOptions() != nil, "a manager has table options")
	_, err := m.GetCompetitionEngine("c1")
	sym.Assert(err == pc.ErrManagerCompetitionNotFound, "a new manager has no competitions")
	modes := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}
	x, y := watched(b, "c1"), watched(b, "c2")
	s := setting2(modes[sym.Choose("mode", 3)], "c1", "t1")
	s.DisableAt = base + sym.Int64Range("closing", -10, 10)
	sym.Assume(s.DisableAt != base) // C19
	b.createErr = sym.Choose("refuses", 2) == 1
	made := sym.And(s.DisableAt >= base, sym.Or(!b.createErr, s.Meta.Mode == pc.CompetitionMode_MTT))
	x.c, err = m.CreateCompetition(s, x.options())
	sym.Assert(sym.And(sym.Iff(err == nil, made), sym.Iff(x.c != nil, made)), "a manager creates what can be created")
	b.createErr = false
	y.c, err = m.CreateCompetition(setting2(modes[sym.Choose("mode2", 3)], "c2", "t2"), y.options())
	sym.Assert(err == nil, "a failed creation does not disturb the next")
	ce, err := m.GetCompetitionEngine("c1")
	sym.Assert(sym.Iff(err == nil, made), "exactly what was created is found")
	if err != nil {
		sym.Assert(sym.And(err == pc.ErrManagerCompetitionNotFound, x.updN == 0), "what could not be created is unknown")
		sym.Stop()
	}
	sym.Assert(ce.GetCompetition() == x.c, "a created competition is found by its id")
	end := pc.CompetitionStateStatus(sym.StrOf("end", "end", "auto_end", "force_end"))
	b.reset()
	switch sym.Choose("op", 4) {
	case 0:
		m.ReleaseCompetition("c1")
		sym.Assert(sym.And(x.c.State.Status == pc.CompetitionStateStatus_Registering, x.setN == 0, b.releaseN == 0), "a released competition is not ended")
		_, err = m.GetCompetitionEngine("c1")
		sym.Assert(err == pc.ErrManagerCompetitionNotFound, "a released competition is forgotten")
	case 1:
		sym.Assert(m.CloseCompetition("c1", end) == nil, "a competition can be closed")
		sym.Assert(sym.And(x.c.State.Status == end, x.setN == 1), "a closed competition is settled once, with the given status")
		sym.Assert(m.CloseCompetition("c1", end) == pc.ErrManagerCompetitionNotFound, "a closed competition is forgotten")
		sym.Assert(x.setN == 1, "a closed competition is settled once")
	case 2:
		m.ReleaseCompetition("c3")
		ce2, err := m.GetCompetitionEngine("c1")
		sym.Assert(err == nil && ce2 == ce, "releasing an unknown competition changes nothing")
		sym.Assert(sym.And(x.setN == 0, x.c.State.Status == pc.CompetitionStateStatus_Registering), "releasing an unknown competition changes nothing")
	case 3:
		if sym.Choose("before", 2) == 1 {
			ce.CloseCompetition(end) // it stays what it ended as
		} else {
			end = pc.CompetitionStateStatus_ForceEnd
		}
		m.Reset()
		sym.Assert(sym.And(x.c.State.Status == end, y.c.State.Status == pc.CompetitionStateStatus_ForceEnd, x.setN == 1, y.setN == 1), "a reset ends every competition once")
		_, err = m.GetCompetitionEngine("c1")
		sym.Assert(err == pc.ErrManagerCompetitionNotFound, "a reset forgets every competition")
		_, err = m.GetCompetitionEngine("c2")
		sym.Assert(err == pc.ErrManagerCompetitionNotFound, "a reset forgets every competition")
		sym.Stop()
	}
	if sym.Choose("again", 2) == 1 { // the id is used once more
		was := x.c.State.Status
		n := x.updN
		z := watched(b, "c1")
		z.c, err = m.CreateCompetition(setting2(pc.CompetitionMode_CT, "c1", "t3"), z.options())
		sym.Assert(err == nil && z.c != nil, "an id can be used again")
		ce, err = m.GetCompetitionEngine("c1")
		sym.Assert(err == nil && ce.GetCompetition() == z.c, "an id stands for the competition created last under it")
		sym.Assert(m.PlayerBuyIn("c1", pc.JoinPlayer{PlayerID: "p0", RedeemChips: 1000, Unit: 1}) == nil, "an id stands for the competition created last under it")
		sym.Assert(sym.And(len(z.c.State.Players) == 1, len(x.c.State.Players) == 0, x.c.State.Status == was, x.updN == n, z.updN > 0), "an id stands for the competition created last under it")
	}
	ce, err = m.GetCompetitionEngine("c2")
	sym.Assert(err == nil && ce.GetCompetition() == y.c, "the other competition is kept")
	sym.Assert(sym.And(y.setN == 0, y.c.State.Status == pc.CompetitionStateStatus_Registering, !x.foreign, !y.foreign), "the other competition is not touched")
}

// C22_events: the events that need a special competition reach its owner too
func C22_events() {
	vtime.SetNow(base)
	b := &Backend{n: 2}
	m := pc.NewManager(b)
	x := watched(b, "c1")
	x.advance = sym.IntRange("advance", 0, 5)
	k := Cfg{mode: pc.CompetitionMode_MTT, n: 2, finalIdx: pc.UnsetValue, meta: func(mt *pc.CompetitionMeta) { mt.AdvanceSetting.Rule = pc.CompetitionAdvanceRule_PlayerCount }}
	c, err := m.CreateCompetition(setting(k), x.options())
	sym.Assert(err == nil, "set-up: a valid competition is created")
	for i := 0; i < 2; i++ {
		sym.Assert(m.PlayerBuyIn("c1", pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 1000, Unit: 1}) == nil, "set-up: a registering competition accepts a buy-in")
	}
	vtime.SetNow(base + 10)
	_, err = m.StartCompetition("c1")
	sym.Assert(err == nil, "set-up: a registering competition starts")
	sym.Assert(sym.And(x.advanceN == 1, x.advanceArg == 2, c.Meta.AdvanceSetting.PlayerCount == x.advance), "the host's answer on the advancement is taken")
	def := pc.NewDefaultCompetitionEngineOptions()
	s := setting(k)
	s.CompetitionID = "c2"
	_, err = m.CreateCompetition(s, def)
	sym.Assert(err == nil, "a competition whose owner does not listen is created all the same")
	for i := 0; i < 2; i++ {
		m.PlayerBuyIn("c2", pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 1000, Unit: 1})
	}
	_, err = m.StartCompetition("c2")
	sym.Assert(err == nil, "a competition whose owner does not listen runs all the same")
	sym.Assert(x.advanceN == 1 && !x.foreign, "events of one competition do not reach the owner of another")
	sym.Assert(m.CloseCompetition("c2", pc.CompetitionStateStatus_End) == nil, "a competition whose owner does not listen ends all the same")
}

// tables stands for the native table manager
type tables struct {
	pokertable.Manager
	last  string
	id    string
	n     [5]int64
	parts map[string]int
	join  []pokertable.JoinPlayer
	leave []string
	jp    pokertable.JoinPlayer
	err   error
	seats map[string]int
	calls int
	opts  *pokertable.TableEngineOptions
	cb    map[string]*pokertable.TableEngineCallbacks
	set   pokertable.TableSetting
	made  *pokertable.Table
}

func (m *tables) did(what, id string) error { m.calls++; m.last, m.id = what, id; return m.err }

func (m *tables) CreateTable(o *pokertable.TableEngineOptions, c *pokertable.TableEngineCallbacks, s pokertable.TableSetting) (*pokertable.Table, error) {
	if err := m.did("create", s.TableID); err != nil {
		return nil, err
	}
	m.opts, m.cb[s.TableID], m.set = o, c, s
	m.made = newTable(s.TableID, s)
	return m.made, nil
}
func (m *tables) PauseTable(id string) error     { return m.did("pause", id) }
func (m *tables) CloseTable(id string) error     { return m.did("close", id) }
func (m *tables) ReleaseTable(id string) error   { return m.did("release", id) }
func (m *tables) StartTableGame(id string) error { return m.did("start", id) }
func (m *tables) SetUpTableGame(id string, gc int, p map[string]int) error {
	m.n[0], m.parts = int64(gc), p
	return m.did("setup", id)
}
func (m *tables) UpdateBlind(id string, l int, ante, dealer, sb, bb int64) error {
	m.n = [5]int64{int64(l), ante, dealer, sb, bb}
	return m.did("blind", id)
}
func (m *tables) UpdateTablePlayers(id string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	m.join, m.leave = j, l
	return m.seats, m.did("players", id)
}
func (m *tables) PlayerReserve(id string, j pokertable.JoinPlayer) error {
	m.jp = j
	return m.did("reserve", id)
}
func (m *tables) PlayerJoin(id, p string) error { m.jp.PlayerID = p; return m.did("join", id) }
func (m *tables) PlayerRedeemChips(id string, j pokertable.JoinPlayer) error {
	m.jp = j
	return m.did("redeem", id)
}
func (m *tables) PlayersLeave(id string, ps []string) error { m.leave = ps; return m.did("leave", id) }

func C22_requests() {
	t := &tables{cb: map[string]*pokertable.TableEngineCallbacks{}}
	b := pc.NewNativeTableManagerBackend(t)
	if sym.Choose("refuses", 2) == 1 {
		t.err = errBackend
	}
	id := []string{"t1", "t2"}[sym.Choose("table", 2)]
	v := [5]int64{}
	for i := range v {
		v[i] = sym.Int64Range("v", -10, big)
	}
	jp := pokertable.JoinPlayer{PlayerID: "p1", RedeemChips: v[0], Seat: sym.IntRange("seat", -1, 8)}
	want := ""
	var err error
	switch sym.Choose("op", 12) {
	case 0:
		want, err = "pause", b.PauseTable(id)
	case 1:
		want, err = "close", b.CloseTable(id)
	case 2:
		want, err = "start", b.StartTableGame(id)
	case 3:
		p := map[string]int{"p0": 0, "p1": 1}
		want, err = "setup", b.SetUpTableGame(id, int(v[0]), p)
		sym.Assert(sym.And(t.n[0] == v[0], len(t.parts) == 2, t.parts["p0"] == 0, t.parts["p1"] == 1), "a hand is set up as asked for")
	case 4:
		want, err = "blind", b.UpdateBlind(id, int(v[0]), v[1], v[2], v[3], v[4])
		sym.Assert(sym.And(t.n[0] == v[0], t.n[1] == v[1], t.n[2] == v[2], t.n[3] == v[3], t.n[4] == v[4]), "the blinds arrive as asked for")
	case 5:
		t.seats = map[string]int{"p1": int(v[1])}
		var r map[string]int
		r, err = b.UpdateTablePlayers(id, []pokertable.JoinPlayer{jp}, []string{"p0", "p2"})
		want = "players"
		sym.Assert(sym.And(len(t.join) == 1, len(t.leave) == 2), "the players change as asked for")
		if len(t.join) == 1 && len(t.leave) == 2 {
			sym.Assert(sym.And(t.join[0] == jp, t.leave[0] == "p0", t.leave[1] == "p2"), "the players change as asked for")
		}
		if err == nil {
			sym.Assert(sym.And(len(r) == 1, int64(r["p1"]) == v[1]), "the seats are passed on")
		}
	case 6:
		want, err = "reserve", b.PlayerReserve(id, jp)
		sym.Assert(t.jp == jp, "a seat is reserved as asked for")
	case 7:
		want, err = "join", b.PlayerJoin(id, "p3")
		sym.Assert(t.jp.PlayerID == "p3", "the player joins as asked for")
	case 8:
		want, err = "redeem", b.PlayerRedeemChips(id, jp)
		sym.Assert(t.jp == jp, "chips are brought as asked for")
	case 9:
		want, err = "leave", b.PlayersLeave(id, []string{"p2", "p0"})
		sym.Assert(sym.And(len(t.leave) == 2, t.leave[0] == "p2", t.leave[1] == "p0"), "the players leave as asked for")
	case 10:
		want, err = "release", b.ReleaseTable(id)
	case 11:
		want = "create"
		o := pokertable.NewTableEngineOptions()
		s := pokertable.TableSetting{TableID: id, JoinPlayers: []pokertable.JoinPlayer{jp}, Blind: pokertable.TableBlindState{Level: 1, BB: v[1]}}
		s.Meta.CompetitionID = "c1"
		var x *pokertable.Table
		x, err = b.CreateTable(o, s)
		if err == nil {
			sym.Assert(sym.And(x == t.made, t.opts == o, t.set.TableID == id, t.set.Meta == s.Meta, t.set.Blind == s.Blind, len(t.set.JoinPlayers) == 1), "a table is created as asked for")
		} else {
			sym.Assert(x == nil, "no table without success")
		}
	}
	sym.Assert(sym.And(t.calls == 1, t.last == want, t.id == id, err == t.err), "each request reaches the table once and its answer is passed on")
}

func C22_reports() {
	vtime.SetNow(base)
	t := &tables{cb: map[string]*pokertable.TableEngineCallbacks{}}
	b := pc.NewNativeTableManagerBackend(t)
	if sym.Choose("late", 2) == 0 { // nobody listens
		x, err := b.CreateTable(pokertable.NewTableEngineOptions(), pokertable.TableSetting{TableID: "t1"})
		sym.Assert(err == nil, "a table can be created before anybody listens")
		t.cb["t1"].OnTableUpdated(x)
		t.cb["t1"].OnTablePlayerReserved("c1", "t1", &pokertable.TablePlayerState{PlayerID: "p0"})
		t.cb["t1"].OnReadyOpenFirstTableGame("c1", "t1", 1, nil)
		b.UpdateTable(x)
		sym.Stop()
	}
	var got *pokertable.Table
	var ps *pokertable.TablePlayerState
	var first []*pokertable.TablePlayerState
	tn, pn, fn, games := 0, 0, 0, 0
	var where, where2 string
	b.OnTableUpdated(func(x *pokertable.Table) { got = x; tn++ })
	b.OnTablePlayerReserved(func(id string, p *pokertable.TablePlayerState) { ps = p; where = id; pn++ })
	b.OnReadyOpenFirstTableGame(func(id string, gc int, p []*pokertable.TablePlayerState) { first = p; games = gc; where2 = id; fn++ })
	_, err := b.CreateTable(pokertable.NewTableEngineOptions(), pokertable.TableSetting{TableID: "t1"})
	sym.Assert(err == nil, "set-up: the table is created")
	cb := t.cb["t1"]
	v := [3]int64{}
	for i := range v {
		v[i] = sym.Int64Range("v", -10, big)
	}
	switch sym.Choose("event", 4) {
	case 0:
		x := newTable("t1", pokertable.TableSetting{TableID: "t1"})
		x.State.GameCount = int(v[0])
		x.State.PlayerStates = []*pokertable.TablePlayerState{{PlayerID: "p0", Bankroll: v[1], Seat: 3, IsIn: true}}
		x.UpdateSerial = v[2]
		cb.OnTableUpdated(x)
		sym.Assert(sym.And(tn == 1, pn == 0, fn == 0), "every report of a table is passed on once")
		x.State.GameCount++
		x.State.PlayerStates[0].Bankroll++
		x.UpdateSerial++
		x.State.PlayerStates = append(x.State.PlayerStates, &pokertable.TablePlayerState{})
		sym.Assert(sym.And(got.ID == "t1", int64(got.State.GameCount) == v[0], got.UpdateSerial == v[2], len(got.State.PlayerStates) == 1, got.State.PlayerStates[0].PlayerID == "p0", got.State.PlayerStates[0].Bankroll == v[1], got.State.PlayerStates[0].Seat == 3, got.State.PlayerStates[0].IsIn),
			"a report is a copy that the table changes no more")
	case 1:
		p := &pokertable.TablePlayerState{PlayerID: "p1", Bankroll: v[0], Seat: int(v[1])}
		cb.OnTablePlayerReserved("c1", "t1", p)
		sym.Assert(sym.And(tn == 0, pn == 1, fn == 0, where == "t1"), "every reserved seat is passed on once")
		p.Bankroll++
		p.Seat++
		sym.Assert(sym.And(ps.PlayerID == "p1", ps.Bankroll == v[0], int64(ps.Seat) == v[1]), "a report is a copy that the table changes no more")
	case 2:
		p := []*pokertable.TablePlayerState{{PlayerID: "p1", Bankroll: v[0], Seat: 2, IsIn: true}, {PlayerID: "p0", Bankroll: v[1]}}
		cb.OnReadyOpenFirstTableGame("c1", "t1", int(v[2]), p)
		sym.Assert(sym.And(tn == 0, pn == 0, fn == 1, where2 == "t1", int64(games) == v[2], len(first) == 2), "a table that is ready for its first hand is passed on once")
		if len(first) == 2 {
			sym.Assert(sym.And(first[0].PlayerID == "p1", first[0].Bankroll == v[0], first[0].IsIn, first[1].PlayerID == "p0", first[1].Bankroll == v[1]), "a table that is ready for its first hand is passed on with its players")
			p[0].Bankroll++
			p[1].IsIn, p[1].Seat = true, 7
			sym.Assert(sym.And(first[0].Bankroll == v[0], !first[1].IsIn, first[1].Seat == 0), "a report is a copy that the table changes no more")
		}
	case 3:
		x := newTable("t1", pokertable.TableSetting{TableID: "t1"})
		b.UpdateTable(x)
		sym.Assert(sym.And(tn == 1, got == x), "a table can be reported by hand")
	}
}

// C22_shared: a native backend serves several competitions
func C22_shared() {
	vtime.SetNow(base)
	t := &tables{cb: map[string]*pokertable.TableEngineCallbacks{}}
	m := pc.NewManager(pc.NewNativeTableManagerBackend(t))
	x, y := watched(&Backend{}, "c1"), watched(&Backend{}, "c2")
	x.c, _ = m.CreateCompetition(setting2(pc.CompetitionMode_CT, "c1", "t1"), x.options())
	two := sym.Choose("two", 2) == 1
	if two {
		y.c, _ = m.CreateCompetition(setting2(pc.CompetitionMode_CT, "c2", "t2"), y.options())
	}
	sym.Assert(m.PlayerBuyIn("c1", pc.JoinPlayer{PlayerID: "p0", RedeemChips: 1000, Unit: 1}) == nil, "set-up: a registering competition accepts a buy-in")
	seat := sym.IntRange("seat", 0, 8)
	t.cb["t1"].OnTablePlayerReserved("c1", "t1", &pokertable.TablePlayerState{PlayerID: "p0", Seat: seat, Bankroll: 1000})
	sym.Assert(x.c.State.Players[0].CurrentSeat == seat, "with the native backend every competition hears of the seats its tables reserve")
	x.updN = 0
	t.cb["t1"].OnTableUpdated(newTable("t1", pokertable.TableSetting{TableID: "t1", JoinPlayers: []pokertable.JoinPlayer{{PlayerID: "p0"}}}))
	sym.Assert(len(x.c.State.Tables[0].State.PlayerStates) == 1, "with the native backend every competition hears of its tables")
	t.calls = 0
	t.cb["t1"].OnReadyOpenFirstTableGame("c1", "t1", 1, []*pokertable.TablePlayerState{{PlayerID: "p0", Bankroll: 5, IsIn: true}})
	sym.Assert(sym.And(t.calls == 1, t.last == "setup", t.id == "t1", len(t.parts) == 1), "with the native backend the first hand of a table is set up once")
	if two {
		sym.Assert(m.PlayerBuyIn("c2", pc.JoinPlayer{PlayerID: "p0", RedeemChips: 1000, Unit: 1}) == nil, "set-up: a registering competition accepts a buy-in")
		t.cb["t2"].OnTablePlayerReserved("c2", "t2", &pokertable.TablePlayerState{PlayerID: "p0", Seat: seat, Bankroll: 1000})
		sym.Assert(sym.And(y.c.State.Players[0].CurrentSeat == seat, y.c.State.Players[0].CurrentTableID == "t2", x.c.State.Players[0].CurrentTableID == "t1"), "with the native backend every competition hears of the seats its tables reserve")
	}
}
