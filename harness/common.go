package main

import (
	"errors"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

const (
	base    = int64(1_700_000_000) // wall clock at creation (Unix seconds)
	big     = int64(1) << 40       // bound on chip amounts
	smallN  = 1000                 // bound on counters
	tableID = "t1"
)

var ids = []string{"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9"}

var errBackend = errors.New("backend: refused")

type playerStatus = pc.CompetitionPlayerStatus

const (
	stPlaying  = pc.CompetitionPlayerStatus_Playing
	stWaiting  = pc.CompetitionPlayerStatus_WaitingTableBalancing
	stReBuy    = pc.CompetitionPlayerStatus_ReBuyWaiting
	stKnockout = pc.CompetitionPlayerStatus_Knockout
	stLeaving  = pc.CompetitionPlayerStatus_CashLeaving
)

// Backend is the environment's table manager: it records every request and may refuse any.
type Backend struct {
	n int // ids[:n] are tracked

	reserveN    int
	reserveTbl  string
	reservePid  string
	reserveChip int64
	reserveSeat int
	reserveErr  bool

	redeemN    int
	redeemTbl  string
	redeemPid  string
	redeemChip int64
	redeemErr  bool

	leaveN   int // calls
	leaveTot int // players asked to leave in total
	leaveTbl string
	left     [10]int // per player
	leaveErr bool

	startN   int
	startTbl string
	startErr bool

	setupN   int
	setupTbl string
	setupGC  int
	setupLen int
	setupIdx [10]int // index given to a participant, -1 if absent
	setupErr bool

	blindN                 int
	blindTbl               string
	blindLevel             int
	blindAnte, blindDealer int64
	blindSB, blindBB       int64
	blindErr               bool
	blindPer               [10]int // calls per tracked table
	onBlind                func(t string, level int, ante, dealer, sb, bb int64)
	setupPer, startPer     [10]int
	setupCount             [10]int // last game count per table
	setupParts             [10][10]bool
	tables                 []string
	opts                   *pokertable.TableEngineOptions
	pauseN                 int
	pauseTbl               string
	pauseErr               bool
	closeN                 int
	closeTbl               string
	closeErr               bool
	createN                int
	createErr              bool
	createOK               int // tables created before a refusal
	releaseN               int
	releaseTbl             string
	updN                   int
	updErr                 bool
	updLeave, updJoin      [10]int // per player
	updChips               [10]int64
	updTbl                 string
	createStatus           pokertable.TableStateStatus
	onCreate               func(pokertable.TableSetting)
	onUpdate               func(tableID string, join []pokertable.JoinPlayer, leave []string) map[string]int
	onCall                 func(kind string) // runs inside every request
	seq                    []string          // what was asked for whom, in order
	created                []*pokertable.Table
	settings               []pokertable.TableSetting
	cbTable                func(*pokertable.Table)
	cbReserved             func(string, *pokertable.TablePlayerState)
	cbReady                func(string, int, []*pokertable.TablePlayerState)
}

func (b *Backend) call(k string, who ...string) {
	for _, x := range who {
		k2 := k + " " + x
		b.seq = append(b.seq, k2)
	}
	if b.onCall != nil {
		b.onCall(k)
	}
}

func fail(c bool) error {
	if c {
		return errBackend
	}
	return nil
}

func (b *Backend) OnTableUpdated(fn func(*pokertable.Table)) { b.cbTable = fn }
func (b *Backend) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState)) {
	b.cbReserved = fn
}
func (b *Backend) OnReadyOpenFirstTableGame(fn func(string, int, []*pokertable.TablePlayerState)) {
	b.cbReady = fn
}
func (b *Backend) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	b.call("create")
	b.opts = o
	b.createN++
	b.settings = append(b.settings, s)
	if b.createErr && b.createN > b.createOK {
		return nil, errBackend
	}
	t := newTable(s.TableID, s)
	if b.createStatus != "" {
		t.State.Status = b.createStatus
	}
	b.created = append(b.created, t)
	b.tables = append(b.tables, s.TableID)
	if b.onCreate != nil {
		b.onCreate(s)
	}
	return t, nil
}
func (b *Backend) PauseTable(t string) error {
	b.call("pause")
	b.pauseN++
	b.pauseTbl = t
	return fail(b.pauseErr)
}
func (b *Backend) CloseTable(t string) error {
	b.call("close")
	b.closeN++
	b.closeTbl = t
	return fail(b.closeErr)
}
func (b *Backend) StartTableGame(t string) error {
	b.call("start")
	b.startN++
	b.startTbl = t
	for i, x := range b.tables {
		b.startPer[i] += sym.B2I(x == t)
	}
	return fail(b.startErr)
}
func (b *Backend) SetUpTableGame(t string, gc int, parts map[string]int) error {
	b.call("setup")
	b.setupN++
	b.setupTbl, b.setupGC, b.setupLen = t, gc, len(parts)
	for k, x := range b.tables {
		if x == t {
			b.setupPer[k]++
			b.setupCount[k] = gc
			for i := 0; i < b.n; i++ {
				_, b.setupParts[k][i] = parts[ids[i]]
			}
		}
	}
	for i := 0; i < b.n; i++ {
		if v, ok := parts[ids[i]]; ok {
			b.setupIdx[i] = v
		} else {
			b.setupIdx[i] = -1
		}
	}
	return fail(b.setupErr)
}
func (b *Backend) UpdateBlind(t string, level int, ante, dealer, sb, bb int64) error {
	b.call("blind")
	b.blindN++
	b.blindTbl, b.blindLevel, b.blindAnte, b.blindDealer, b.blindSB, b.blindBB = t, level, ante, dealer, sb, bb
	for i, x := range b.tables {
		b.blindPer[i] += sym.B2I(x == t)
	}
	if b.onBlind != nil {
		b.onBlind(t, level, ante, dealer, sb, bb)
	}
	return fail(b.blindErr)
}
func (b *Backend) UpdateTablePlayers(t string, join []pokertable.JoinPlayer, leave []string) (map[string]int, error) {
	b.call("update", leave...)
	for _, j := range join {
		b.seq = append(b.seq, "join "+j.PlayerID)
	}
	b.updN++
	b.updTbl = t
	for i := 0; i < b.n; i++ {
		for _, p := range leave {
			b.updLeave[i] += sym.B2I(p == ids[i])
		}
		for _, j := range join {
			b.updJoin[i] += sym.B2I(j.PlayerID == ids[i])
			b.updChips[i] = sym.IteInt64(j.PlayerID == ids[i], j.RedeemChips, b.updChips[i])
		}
	}
	if b.updErr {
		return nil, errBackend
	}
	if b.onUpdate != nil {
		return b.onUpdate(t, join, leave), nil
	}
	return map[string]int{}, nil
}
func (b *Backend) PlayerReserve(t string, jp pokertable.JoinPlayer) error {
	b.call("reserve", jp.PlayerID)
	b.reserveN++
	b.reserveTbl, b.reservePid, b.reserveChip, b.reserveSeat = t, jp.PlayerID, jp.RedeemChips, jp.Seat
	return fail(b.reserveErr)
}
func (b *Backend) PlayerJoin(t, p string) error { b.call("join"); return nil }
func (b *Backend) PlayerRedeemChips(t string, jp pokertable.JoinPlayer) error {
	b.call("redeem", jp.PlayerID)
	b.redeemN++
	b.redeemTbl, b.redeemPid, b.redeemChip = t, jp.PlayerID, jp.RedeemChips
	return fail(b.redeemErr)
}
func (b *Backend) PlayersLeave(t string, ps []string) error {
	b.call("leave", ps...)
	b.leaveN++
	b.leaveTot += len(ps)
	b.leaveTbl = t
	for i := 0; i < b.n; i++ {
		for _, p := range ps {
			b.left[i] += sym.B2I(p == ids[i])
		}
	}
	return fail(b.leaveErr)
}
func (b *Backend) UpdateTable(t *pokertable.Table) {}
func (b *Backend) ReleaseTable(t string) error {
	b.call("release")
	b.releaseN++
	b.releaseTbl = t
	return nil
}

// moneyCalls counts requests that change a table's players.
func (b *Backend) playerCalls() int { return b.reserveN + b.redeemN + b.leaveN + b.updN }
func (b *Backend) gameCalls() int   { return b.startN + b.setupN + b.pauseN + b.closeN + b.createN }

// reset forgets what was recorded during the set-up of a world.
func (b *Backend) reset() {
	b.reserveN, b.redeemN, b.leaveN, b.leaveTot, b.startN, b.setupN = 0, 0, 0, 0, 0, 0
	b.blindN, b.pauseN, b.closeN, b.createN, b.releaseN, b.updN = 0, 0, 0, 0, 0, 0
	b.left, b.blindPer, b.updLeave, b.updJoin = [10]int{}, [10]int{}, [10]int{}, [10]int{}
	b.setupPer, b.startPer = [10]int{}, [10]int{}
}

func newTable(id string, s pokertable.TableSetting) *pokertable.Table {
	bl := s.Blind
	gb := s.Blind
	t := &pokertable.Table{
		ID:   id,
		Meta: s.Meta,
		State: &pokertable.TableState{
			Status:               pokertable.TableStateStatus_TableCreated,
			StartAt:              pokertable.UnsetValue,
			BlindState:           &bl,
			GameBlindState:       &gb,
			CurrentDealerSeat:    pokertable.UnsetValue,
			CurrentBBSeat:        pokertable.UnsetValue,
			CurrentSBSeat:        pokertable.UnsetValue,
			PlayerStates:         []*pokertable.TablePlayerState{},
			GamePlayerIndexes:    []int{},
			NextBBOrderPlayerIDs: []string{},
		},
	}
	for i, jp := range s.JoinPlayers {
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{
			PlayerID: jp.PlayerID, Seat: i, Bankroll: jp.RedeemChips, IsIn: false,
		})
	}
	return t
}

// World is one competition driven through the public API.
type World struct {
	ce pc.CompetitionEngine
	c  *pc.Competition
	b  *Backend
	n  int

	updN, errN, playerN, cashN int
	stateN                     int
	setN                       int // Settled state events
	finalN                     int
	finalRank                  [10]int // last announced final rank per player
	finalCnt                   [10]int
	cashCnt                    [10]int
	cashChips                  [10]int64
	lastSerial                 int64
	serialOK                   bool
	hook                       func(kind string) // runs inside callbacks
	advance                    int               // answer of the advance-count callback
	advanceN                   int
	advanceArg                 int
	tableCreatedN              int
	own                        string               // expected competition id, if any
	foreign                    bool                 // an event named another competition
	rank0                      []pc.CompetitionRank // final ranking at the end
}

type Cfg struct {
	mode      pc.CompetitionMode
	n         int
	rule      pc.CompetitionRule
	finalIdx  int
	levels    []pc.BlindLevel
	initial   int
	maxReBuy  int
	waiting   int
	minPlayer int
	tableMin  int
	seats     int
	duration  int
	startAt   int64
	disableAt int64
	meta      func(*pc.CompetitionMeta)
	noTable   bool
}

func stdLevels() []pc.BlindLevel {
	return []pc.BlindLevel{
		{Level: 1, SB: 10, BB: 20, Ante: 0, Duration: 600, AllowAddon: true},
		{Level: 2, SB: 20, BB: 40, Ante: 5, Duration: 600, AllowAddon: false},
		{Level: -1, Duration: 300, AllowAddon: true},
		{Level: 3, SB: 40, BB: 80, Ante: 10, Duration: 600, AllowAddon: false},
	}
}

func setting(k Cfg) pc.CompetitionSetting {
	if k.levels == nil {
		k.levels = stdLevels()
	}
	if k.initial == 0 {
		k.initial = 1
	}
	if k.minPlayer == 0 {
		k.minPlayer = 2
	}
	if k.tableMin == 0 {
		k.tableMin = 2
	}
	if k.seats == 0 {
		k.seats = 9
	}
	if k.duration == 0 {
		k.duration = 3600
	}
	if k.rule == "" {
		k.rule = pc.CompetitionRule_Default
	}
	if k.startAt == 0 {
		k.startAt = pc.UnsetValue
	}
	if k.disableAt == 0 {
		k.disableAt = base + 100000
	}
	m := pc.CompetitionMeta{
		Blind: pc.Blind{
			ID: "b", InitialLevel: k.initial, FinalBuyInLevelIndex: k.finalIdx, DealerBlindTime: 1, Levels: k.levels,
		},
		MaxDuration: k.duration, MinPlayerCount: k.minPlayer, MaxPlayerCount: 100,
		TableMaxSeatCount: k.seats, TableMinPlayerCount: k.tableMin, RegulatorMinInitialPlayerCount: k.minPlayer,
		Rule: k.rule, Mode: k.mode,
		ReBuySetting:   pc.ReBuySetting{MaxTime: k.maxReBuy, WaitingTime: k.waiting},
		AddonSetting:   pc.AddonSetting{MaxTime: 1},
		AdvanceSetting: pc.AdvanceSetting{Rule: "", PlayerCount: 0, BlindLevel: 0},
		ActionTime:     10, MinChipUnit: 1,
	}
	if k.meta != nil {
		k.meta(&m)
	}
	s := pc.CompetitionSetting{CompetitionID: "c1", Meta: m, StartAt: k.startAt, DisableAt: k.disableAt}
	if k.mode != pc.CompetitionMode_MTT && !k.noTable {
		s.TableSettings = []pc.TableSetting{{TableID: tableID}}
	}
	return s
}

// bare returns an engine with recording callbacks and no competition yet.
func bare(n int) *World {
	vtime.SetNow(base)
	w := &World{b: &Backend{n: n}, n: n, serialOK: true}
	w.ce = pc.NewCompetitionEngine(pc.WithTableManagerBackend(w.b), pc.WithTableOptions(pokertable.NewTableEngineOptions()))
	w.listen()
	return w
}

func (w *World) listen() {
	o := w.options()
	w.ce.OnCompetitionUpdated(o.OnCompetitionUpdated)
	w.ce.OnCompetitionErrorUpdated(o.OnCompetitionErrorUpdated)
	w.ce.OnCompetitionPlayerUpdated(o.OnCompetitionPlayerUpdated)
	w.ce.OnCompetitionFinalPlayerRankUpdated(o.OnCompetitionFinalPlayerRankUpdated)
	w.ce.OnCompetitionStateUpdated(o.OnCompetitionStateUpdated)
	w.ce.OnCompetitionPlayerCashOut(o.OnCompetitionPlayerCashOut)
	w.ce.OnAdvancePlayerCountUpdated(o.OnAdvancePlayerCountUpdated)
	w.ce.OnTableCreated(func(t *pokertable.Table) { w.tableCreatedN++ })
}

// options records every event of one competition.
func (w *World) options() *pc.CompetitionEngineOptions {
	return &pc.CompetitionEngineOptions{
		OnCompetitionUpdated: func(c *pc.Competition) {
			w.updN++
			w.mine(c.ID)
			w.serialOK = sym.And(w.serialOK, c.UpdateSerial > w.lastSerial)
			w.lastSerial = c.UpdateSerial
			w.cb("updated")
		},
		OnCompetitionErrorUpdated:  func(c *pc.Competition, err error) { w.errN++; w.mine(c.ID); w.cb("error") },
		OnCompetitionPlayerUpdated: func(id string, p *pc.CompetitionPlayer) { w.playerN++; w.mine(id); w.cb("player") },
		OnCompetitionFinalPlayerRankUpdated: func(cid, pid string, rank int) {
			w.finalN++
			w.mine(cid)
			for i := 0; i < w.n; i++ {
				m := pid == ids[i]
				w.finalRank[i] = sym.IteInt(m, rank, w.finalRank[i])
				w.finalCnt[i] += sym.B2I(m)
			}
			w.cb("rank")
		},
		OnCompetitionStateUpdated: func(ev string, c *pc.Competition) {
			w.stateN++
			w.mine(c.ID)
			w.setN += sym.B2I(ev == pc.CompetitionStateEvent_Settled)
			w.cb("state")
		},
		OnCompetitionPlayerCashOut: func(cid string, p *pc.CompetitionPlayer) {
			w.cashN++
			w.mine(cid)
			for i := 0; i < w.n; i++ {
				m := p.PlayerID == ids[i]
				w.cashCnt[i] += sym.B2I(m)
				w.cashChips[i] = sym.IteInt64(m, p.Chips, w.cashChips[i])
			}
			w.cb("cashout")
		},
		OnAdvancePlayerCountUpdated: func(cid string, total int) int {
			w.advanceN++
			w.mine(cid)
			w.advanceArg = total
			return w.advance
		},
	}
}

// mine: an event names the competition it comes from.
func (w *World) mine(id string) {
	if w.own != "" && id != w.own {
		w.foreign = true
	}
}

func (w *World) cb(kind string) {
	if w.hook != nil {
		w.hook(kind)
	}
}

// create builds a registering competition with n bought-in players.
func create(k Cfg) *World {
	w := bare(k.n)
	c, err := w.ce.CreateCompetition(setting(k))
	if err != nil {
		sym.Assert(false, "set-up: a valid competition is created")
		sym.Stop()
	}
	w.c = c
	for i := 0; i < k.n; i++ {
		vtime.SetNow(base + int64(i) + 1)
		err := w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: ids[i], RedeemChips: 1000, Unit: 1})
		sym.Assert(err == nil, "set-up: a registering competition accepts a buy-in")
	}
	return w
}

// table returns a fresh update of table t1 with the first n players seated.
func (w *World) table(status pokertable.TableStateStatus, gc int) *pokertable.Table {
	s := pokertable.TableSetting{TableID: tableID}
	if len(w.b.settings) > 0 {
		s = w.b.settings[0]
	}
	t := newTable(s.TableID, s)
	t.State.Status = status
	t.State.GameCount = gc
	t.State.StartAt = base + 10
	t.State.PlayerStates = []*pokertable.TablePlayerState{}
	for i := 0; i < w.n; i++ {
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{
			PlayerID: ids[i], Seat: i, Bankroll: 1000, IsIn: true, IsParticipated: true,
		})
		t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
	}
	return t
}

// started builds a running competition: blinds active at level index 0 of the schedule.
func started(k Cfg) *World {
	w := create(k)
	vtime.SetNow(base + 10)
	for i := 0; i < w.n && k.mode != pc.CompetitionMode_MTT; i++ {
		w.ce.UpdateReserveTablePlayerState(tableID, &pokertable.TablePlayerState{PlayerID: ids[i], Seat: i, Bankroll: 1000})
	}
	if k.mode == pc.CompetitionMode_MTT {
		_, err := w.ce.StartCompetition()
		sym.Assert(err == nil, "set-up: a registering competition starts")
		w.seat()
	} else {
		w.ce.UpdateTable(w.table(pokertable.TableStateStatus_TableCreated, 0))
	}
	vtime.RunTasks()
	sym.Assert(sym.Or(w.c.State.Status == pc.CompetitionStateStatus_DelayedBuyIn, w.c.State.Status == pc.CompetitionStateStatus_StoppedBuyIn),
		"set-up: the competition starts when its conditions are met")
	if k.mode != pc.CompetitionMode_MTT {
		w.ce.UpdateTable(w.table(pokertable.TableStateStatus_TableGamePlaying, 1))
	}
	w.b.reset()
	return w
}

// seat confirms the reservations of all players that were put on new tables.
func (w *World) seat() {
	for _, s := range w.b.settings {
		for i, jp := range s.JoinPlayers {
			w.ce.UpdateReserveTablePlayerState(s.TableID, &pokertable.TablePlayerState{PlayerID: jp.PlayerID, Seat: i, Bankroll: jp.RedeemChips})
		}
	}
}

// playersOr returns the ids of all players and a stranger.
func (w *World) playersOr(extra ...string) []string {
	r := []string{}
	for i := 0; i < w.n; i++ {
		r = append(r, ids[i])
	}
	return append(r, extra...)
}

func allStatuses() pc.CompetitionStateStatus {
	return pc.CompetitionStateStatus(sym.StrOf("compStatus", "pre-registering", "registering", "delayed_buy_in", "stopped_buy_in", "end", "auto_end", "force_end", "restoring"))
}

func isEnd(s pc.CompetitionStateStatus) bool {
	return sym.Or(s == pc.CompetitionStateStatus_End, s == pc.CompetitionStateStatus_AutoEnd, s == pc.CompetitionStateStatus_ForceEnd)
}

// level lets the blind timers of the first k levels expire.
func (w *World) level(k int) {
	for i := 0; i < k; i++ {
		best := -1
		ts := vtime.Timers()
		for j, t := range ts {
			if !t.Pending() || t.Due.Unix() != w.c.State.BlindState.EndAts[i] || t.Due.Nanosecond() != 0 {
				continue
			}
			if best < 0 {
				best = j
			}
		}
		if best < 0 {
			sym.Assert(false, "set-up: every timed level has an expiry timer")
			sym.Stop()
		}
		vtime.SetNow(w.c.State.BlindState.EndAts[i])
		ts[best].Fire()
	}
	w.b.reset()
}

type Snap struct {
	status   pc.CompetitionStateStatus
	players  []pc.CompetitionPlayer
	stat     pc.Statistic
	rankings int
	tables   int
	startAt  int64
	endAt    int64
	level    int
	serial   int64
	finalN   int
	cashN    int
	setN     int
	pcalls   int
	gcalls   int
}

func (w *World) snap() *Snap {
	s := &Snap{status: w.c.State.Status, stat: *w.c.State.Statistic, rankings: len(w.c.State.Rankings), tables: len(w.c.State.Tables),
		startAt: w.c.State.StartAt, endAt: w.c.State.EndAt, level: w.c.State.BlindState.CurrentLevelIndex, serial: w.c.UpdateSerial, finalN: w.finalN, cashN: w.cashN, setN: w.setN,
		pcalls: w.b.playerCalls(), gcalls: w.b.gameCalls()}
	for _, p := range w.c.State.Players {
		s.players = append(s.players, *p)
	}
	return s
}

func sameStats(a, b *pc.CompetitionPlayer) bool {
	return sym.And(
		a.BestWinningPotChips == b.BestWinningPotChips,
		a.BestWinningType == b.BestWinningType,
		a.BestWinningPower == b.BestWinningPower,
		a.TotalGameCounts == b.TotalGameCounts,
		a.TotalWalkTimes == b.TotalWalkTimes,
		a.TotalFoldTimes == b.TotalFoldTimes,
		a.TotalPreflopFoldTimes == b.TotalPreflopFoldTimes,
		a.TotalFlopFoldTimes == b.TotalFlopFoldTimes,
		a.TotalTurnFoldTimes == b.TotalTurnFoldTimes,
		a.TotalRiverFoldTimes == b.TotalRiverFoldTimes,
		a.TotalActionTimes == b.TotalActionTimes,
		a.TotalRaiseTimes == b.TotalRaiseTimes,
		a.TotalCallTimes == b.TotalCallTimes,
		a.TotalCheckTimes == b.TotalCheckTimes,
		a.TotalProfitTimes == b.TotalProfitTimes,
		a.TotalVPIPChances == b.TotalVPIPChances,
		a.TotalVPIPTimes == b.TotalVPIPTimes,
		a.TotalPFRChances == b.TotalPFRChances,
		a.TotalPFRTimes == b.TotalPFRTimes,
		a.TotalATSChances == b.TotalATSChances,
		a.TotalATSTimes == b.TotalATSTimes,
		a.Total3BChances == b.Total3BChances,
		a.Total3BTimes == b.Total3BTimes,
		a.TotalFt3BChances == b.TotalFt3BChances,
		a.TotalFt3BTimes == b.TotalFt3BTimes,
		a.TotalCheckRaiseChances == b.TotalCheckRaiseChances,
		a.TotalCheckRaiseTimes == b.TotalCheckRaiseTimes,
		a.TotalCBetChances == b.TotalCBetChances,
		a.TotalCBetTimes == b.TotalCBetTimes,
		a.TotalFtCBChances == b.TotalFtCBChances,
		a.TotalFtCBTimes == b.TotalFtCBTimes,
		a.TotalShowdownWinningChances == b.TotalShowdownWinningChances,
		a.TotalShowdownWinningTimes == b.TotalShowdownWinningTimes,
	)
}

func samePlace(a, b *pc.CompetitionPlayer) bool {
	return sym.And(a.PlayerID == b.PlayerID, a.CurrentTableID == b.CurrentTableID, a.CurrentSeat == b.CurrentSeat)
}

func sameMoney(a, b *pc.CompetitionPlayer) bool {
	return sym.And(a.Chips == b.Chips, a.TotalRedeemChips == b.TotalRedeemChips, a.ReBuyTimes == b.ReBuyTimes,
		a.AddonTimes == b.AddonTimes, a.TotalBuyInUnits == b.TotalBuyInUnits)
}

func sameLife(a, b *pc.CompetitionPlayer) bool {
	return sym.And(a.Status == b.Status, a.JoinAt == b.JoinAt, a.ReBuyWaitingAt == b.ReBuyWaitingAt, a.KnockoutAt == b.KnockoutAt,
		a.IsReBuying == b.IsReBuying, a.ReBuyEndAt == b.ReBuyEndAt)
}

// same compares everything but the ranks, which C10 decides.
func same(a, b *pc.CompetitionPlayer) bool {
	return sym.And(samePlace(a, b), sameMoney(a, b), sameLife(a, b), sameStats(a, b))
}

func countStatus(ps []*pc.CompetitionPlayer, s playerStatus) int {
	n := 0
	for _, p := range ps {
		n += sym.B2I(p.Status == s)
	}
	return n
}

// statsFit: the per-status counters equal the number of players in that status.
func (w *World) statsFit() bool {
	s := w.c.State.Statistic
	ps := w.c.State.Players
	return sym.And(s.PlayingPlayerCount == countStatus(ps, stPlaying),
		s.WaitingTableBalancingPlayerCount == countStatus(ps, stWaiting),
		s.KnockoutPlayerCount == countStatus(ps, stKnockout),
		s.ReBuyWaitingPlayerCount == countStatus(ps, stReBuy))
}

func (w *World) fixStats() {
	s := w.c.State.Statistic
	ps := w.c.State.Players
	s.PlayingPlayerCount = countStatus(ps, stPlaying)
	s.WaitingTableBalancingPlayerCount = countStatus(ps, stWaiting)
	s.KnockoutPlayerCount = countStatus(ps, stKnockout)
	s.ReBuyWaitingPlayerCount = countStatus(ps, stReBuy)
}

func sameStatistic(a, b *pc.Statistic) bool {
	return sym.And(a.TotalBuyInCount == b.TotalBuyInCount, a.TotalAddonCount == b.TotalAddonCount,
		a.PlayingPlayerCount == b.PlayingPlayerCount, a.WaitingTableBalancingPlayerCount == b.WaitingTableBalancingPlayerCount,
		a.KnockoutPlayerCount == b.KnockoutPlayerCount, a.ReBuyWaitingPlayerCount == b.ReBuyWaitingPlayerCount)
}

// unchanged: no player, counter, status or table was touched since the snapshot.
func (w *World) unchanged(s *Snap, label string) {
	sym.Assert(len(w.c.State.Players) == len(s.players), label+": the list of players is unchanged")
	if len(w.c.State.Players) == len(s.players) {
		for i, p := range w.c.State.Players {
			sym.Assert(same(p, &s.players[i]), label+": no player is changed")
		}
	}
	sym.Assert(sameStatistic(w.c.State.Statistic, &s.stat), label+": no counter is changed")
	sym.Assert(sym.And(w.c.State.Status == s.status, len(w.c.State.Rankings) == s.rankings, len(w.c.State.Tables) == s.tables),
		label+": the competition is unchanged")
	sym.Assert(sym.And(w.b.playerCalls() == s.pcalls, w.finalN == s.finalN, w.cashN == s.cashN), label+": nothing is requested from the tables")
}

// symPlayers gives every player a symbolic but consistent record.
func (w *World) symPlayers(statuses ...playerStatus) {
	opts := []string{}
	for _, s := range statuses {
		opts = append(opts, string(s))
	}
	units := 0
	for _, p := range w.c.State.Players {
		p.Status = playerStatus(sym.StrOf("status", opts...))
		p.Chips = sym.Int64Range("chips", 0, big)
		sym.Assume(sym.Implies(sym.Or(p.Status == stReBuy, p.Status == stKnockout), p.Chips == 0))
		sym.Assume(sym.Implies(p.Status == stWaiting, p.Chips > 0))
		p.ReBuyTimes = sym.IntRange("rebuys", 0, smallN)
		p.AddonTimes = sym.IntRange("addons", 0, smallN)
		p.TotalBuyInUnits = sym.IntRange("units", 0, smallN)
		p.TotalRedeemChips = sym.Int64Range("redeemed", 0, big)
		p.IsReBuying = sym.Bool("rebuying")
		sym.Assume(sym.Implies(p.IsReBuying, p.Status == stReBuy))
		end := sym.Int64Range("rebuyEnd", base, base+100000)
		p.ReBuyEndAt = sym.IteInt64(p.IsReBuying, end, pc.UnsetValue)
		wait := sym.Int64Range("rebuyWaitAt", base, base+100000)
		p.ReBuyWaitingAt = sym.IteInt64(p.Status == stReBuy, wait, pc.UnsetValue)
		p.CurrentSeat = sym.IntRange("seat", pc.UnsetValue, 8)
		units += p.TotalBuyInUnits
	}
	w.c.State.Statistic.TotalBuyInCount = units
	w.fixStats()
}

// settled returns an update of t1 that reports the end of hand gc of all n players.
func settled(w *World, gc int) *pokertable.Table {
	t := w.table(pokertable.TableStateStatus_TableGameSettled, gc)
	gs := &pokerface.GameState{Result: &settlement.Result{}}
	for i := 0; i < w.n; i++ {
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: i, Combination: &pokerface.CombinationInfo{Type: "", Cards: []string{}, Power: 0}})
		gs.Result.Players = append(gs.Result.Players, &settlement.PlayerResult{Idx: i, Changed: 0})
		t.State.NextBBOrderPlayerIDs = append(t.State.NextBBOrderPlayerIDs, ids[i])
	}
	t.State.GameState = gs
	return t
}

// arranged splits the world by the order of n players (more chips first, then earlier): one case per permutation.
func arranged(n int, chips func(i int) int64, at func(i int) int64) []int {
	used := [10]bool{}
	r := []int{}
	for k := 0; k < n; k++ {
		pick := 0
		if k < n-1 {
			pick = sym.Choose("order", n-k)
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			if pick == 0 {
				used[i] = true
				r = append(r, i)
				break
			}
			pick--
		}
	}
	for k := 1; k < n; k++ {
		a, b := r[k-1], r[k]
		sym.Assume(sym.Or(chips(a) > chips(b), sym.And(chips(a) == chips(b), at(a) <= at(b))))
	}
	return r
}
