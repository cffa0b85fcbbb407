package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C25: a bot among three players at any place in the hand, in any betting state of the poker library (its own list of allowed actions), any request for ready, ante, blinds or a pass, one or two updates, every random number, with and without human-like delay, every answer of the table
// BOUND C25: symbolic: stacks, wagers and raise sizes up to 2^32, blinds, antes, hand numbers, delays
// OUTSIDE C25: how often a bot chooses which action; three or more updates; an all-in big blind below the big blind

const chipsN = 1 << 32

// felt is the table side of an actor.
type felt struct {
	a     actor.Actor
	n     int
	kind  string
	pid   string
	chips int64
	err   bool
	acts  [9]int
}

var kinds = []string{"pass", "ready", "pay", "check", "bet", "call", "fold", "allin", "raise"}

func (f *felt) did(kind, p string, c int64) error {
	f.n++
	f.kind, f.pid, f.chips = kind, p, c
	for i, k := range kinds {
		f.acts[i] += sym.B2I(k == kind)
	}
	return fail(f.err)
}
func (f *felt) SetActor(a actor.Actor)                     { f.a = a }
func (f *felt) UpdateTableState(t *pokertable.Table) error { return f.a.UpdateTableState(t) }
func (f *felt) GetGamePlayerIndex(p string) int            { return -1 }
func (f *felt) GetGameState() *pokerface.GameState         { return nil }
func (f *felt) GetTableState() *pokertable.Table           { return nil }
func (f *felt) Pass(p string) error                        { return f.did("pass", p, 0) }
func (f *felt) Ready(p string) error                       { return f.did("ready", p, 0) }
func (f *felt) Pay(p string, c int64) error                { return f.did("pay", p, c) }
func (f *felt) Check(p string) error                       { return f.did("check", p, 0) }
func (f *felt) Bet(p string, c int64) error                { return f.did("bet", p, c) }
func (f *felt) Call(p string) error                        { return f.did("call", p, 0) }
func (f *felt) Fold(p string) error                        { return f.did("fold", p, 0) }
func (f *felt) Allin(p string) error                       { return f.did("allin", p, 0) }
func (f *felt) Raise(p string, c int64) error              { return f.did("raise", p, c) }
func (f *felt) ShowCard(p string, cards []string) error    { return nil }
func (f *felt) AutoMode(p string, on bool) error           { return nil }

// wagers are what a runner reports.
type wagers struct {
	n             int
	table, game   string
	count         int
	round, action string
	chips         int64
	joinN         int
	jc, jt, jp    string
}

func (r *wagers) report(tid, gid string, count int, round, action string, chips int64) {
	r.n++
	r.table, r.game, r.count, r.round, r.action, r.chips = tid, gid, count, round, action, chips
}

// dealt is a table with a hand of three players; the player at seat `me` sits at place `at` of the hand.
func dealt(me, at int) *pokertable.Table {
	t := newTable("t7", pokertable.TableSetting{TableID: "t7", Meta: pokertable.TableMeta{CompetitionID: "c7", Mode: string(pc.CompetitionMode_CT)}})
	t.State.Status = pokertable.TableStateStatus_TableGamePlaying
	t.State.GameCount = sym.IntRange("count", 1, smallN)
	for i := 0; i < 3; i++ {
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: ids[i], Seat: i, IsIn: true, IsParticipated: true})
	}
	for g := 0; g < 3; g++ {
		t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, (me+g-at+3)%3)
	}
	gs := &pokerface.GameState{GameID: "g1", UpdatedAt: sym.Int64Range("updated", 1, big)}
	gs.Meta.Ante = sym.Int64Range("ante", 0, big)
	gs.Meta.Blind.Dealer = sym.Int64Range("dealerBlind", 0, big)
	gs.Meta.Blind.SB = sym.Int64Range("sb", 0, big)
	gs.Meta.Blind.BB = sym.Int64Range("bb", 0, big)
	gs.Status.Round = sym.StrOf("round", "preflop", "flop", "turn", "river")
	gs.Status.CurrentEvent = "RoundStarted"
	pos := []string{"dealer", "sb", "bb"}
	for g := 0; g < 3; g++ {
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: g, Positions: []string{pos[g]}, HoleCards: []string{"SA", "HK"}, AllowedActions: []string{}})
	}
	t.State.GameState = gs
	return t
}

// betting puts the hand into any betting state in which the player at place `at` is to move.
func betting(t *pokertable.Table, at int, folded bool) {
	gs := t.State.GameState
	cur := sym.Int64Range("currentWager", 0, chipsN)
	for g, p := range gs.Players {
		p.InitialStackSize, p.Wager = chipsN, cur
		if g == at {
			p.InitialStackSize = sym.Int64Range("stack", 0, chipsN)
			p.Wager = sym.Int64Range("wager", 0, chipsN)
			sym.Assume(sym.And(p.Wager <= p.InitialStackSize, p.Wager <= cur))
			p.Fold = folded
		}
		p.StackSize = p.InitialStackSize - p.Wager
	}
	gs.Status.CurrentWager = cur
	gs.Status.PreviousRaiseSize = sym.Int64Range("raised", 0, chipsN)
	gs.Status.MiniBet = sym.Int64Range("minBet", 1, chipsN)
	gs.Status.CurrentPlayer = at
	g := pokerface.NewGameFromState(gs)
	gs.Players[at].AllowedActions = g.GetAllowedActions(g.Player(at))
}

func allowed(p *pokerface.PlayerState, a string) bool {
	for _, x := range p.AllowedActions {
		if x == a {
			return true
		}
	}
	return false
}

func newBot(human bool) (actor.Actor, *felt, *wagers) {
	f, r := &felt{}, &wagers{}
	a := actor.NewActor()
	b := actor.NewBotRunner(ids[0])
	b.Humanized(human)
	b.OnTableGameWagerActionUpdated(r.report)
	b.OnTableAutoJoinActionRequested(func(c, t, p string) { r.joinN++; r.jc, r.jt, r.jp = c, t, p })
	a.SetRunner(b)
	a.SetAdapter(f)
	return a, f, r
}

// legal: the one move is allowed, for an amount within the rules, and reported once if the table took it.
func legal(t *pokertable.Table, at int, f *felt, r *wagers) {
	gs := t.State.GameState
	p := gs.Players[at]
	sym.Assert(f.n == 1, "a bot to move makes exactly one move")
	if f.n != 1 {
		return
	}
	sym.Assert(f.pid == ids[0], "it moves for itself")
	sym.Assert(allowed(p, f.kind), "its move is among the allowed ones")
	min := gs.Status.MiniBet
	lvl := gs.Status.CurrentWager + gs.Status.PreviousRaiseSize
	switch f.kind {
	case "bet":
		sym.Assert(sym.Or(f.chips >= min, f.chips == p.InitialStackSize), "a bet is at least the minimum")
		sym.Assert(sym.And(f.chips <= p.InitialStackSize, f.chips > 0), "a bet is covered by its stack")
	case "raise":
		sym.Assert(sym.Or(f.chips >= lvl, f.chips == p.InitialStackSize), "a raise is at least the minimum raise")
		sym.Assert(f.chips <= p.InitialStackSize, "a raise is covered by its stack")
		sym.Assert(f.chips >= gs.Status.CurrentWager, "a raise is not below the wager to call")
	}
	if f.kind == "pass" {
		sym.Assert(r.n == 0, "a pass is not reported as a wager")
		return
	}
	want := f.chips
	switch f.kind {
	case "call":
		want = gs.Status.CurrentWager - p.Wager
	case "allin":
		want = p.StackSize
	}
	if f.err {
		sym.Assert(r.n == 0, "a refused move is not reported")
		return
	}
	sym.Assert(sym.And(r.n == 1, r.action == f.kind, r.chips == want), "an accepted move is reported once with its amount")
	sym.Assert(sym.And(r.table == "t7", r.game == "g1", r.count == t.State.GameCount, r.round == gs.Status.Round), "the report names the table, hand and round")
	sym.ReachIf(true, "moved: "+f.kind)
}

func C25_moves() {
	at := sym.Choose("at", 1+2*sym.Tier())
	human := sym.Bool("human")
	a, f, r := newBot(human)
	t := dealt(0, at)
	betting(t, at, sym.Bool("folded"))
	t.Meta.ActionTime = sym.IntRange("actionTime", 0, 60)
	f.err = sym.Bool("refuses")
	n := len(vtime.Timers())
	err := a.UpdateTableState(t)
	if human && len(vtime.Timers()) > n {
		sym.Assert(sym.And(err == nil, f.n == 0, r.n == 0), "a bot that thinks has not moved yet")
		ts := vtime.TimersFrom(n)
		sym.Assert(len(ts) == 1, "it thinks once")
		sym.Assert(sym.And(ts[0].Dur > 0, ts[0].Dur < vtime.Duration(t.Meta.ActionTime)*vtime.Second), "it thinks for less than the time to act")
		ts[0].Fire()
		err = nil
		sym.Reach("thought about it")
	} else {
		sym.Assert(err == fail(f.err), "the answer of the table is passed on")
	}
	legal(t, at, f, r)
}

// C25_outdated: a state that is not newer than the last one of the same hand is not answered.
func C25_outdated() {
	at := sym.Choose("at", 3)
	a, f, r := newBot(sym.Bool("human"))
	t := dealt(0, at)
	gs := t.State.GameState
	t.Meta.ActionTime = 10
	gs.Players[at].AllowedActions = []string{"check"}
	gs.Status.CurrentPlayer = at
	_ = a.UpdateTableState(t)
	k, n, m := len(vtime.Timers()), f.n, r.n
	gs2 := *gs
	gs2.UpdatedAt = sym.Int64Range("older", 1, big)
	sym.Assume(gs2.UpdatedAt <= gs.UpdatedAt)
	gs2.Players[at].AllowedActions = [][]string{{"check"}, {"ready"}, {"allin", "fold"}}[sym.Choose("then", 3)]
	st2 := *t.State
	st2.GameState = &gs2
	t2 := *t
	t2.State = &st2
	err := a.UpdateTableState(&t2)
	sym.Assert(sym.And(err == nil, f.n == n, r.n == m, len(vtime.Timers()) == k), "an outdated state is not answered")
}

// C25_asked: readiness, passes and forced bets.
func C25_asked() {
	at := sym.Choose("at", 3)
	a, f, r := newBot(sym.Bool("human"))
	t := dealt(0, at)
	gs := t.State.GameState
	p := gs.Players[at]
	t.Meta.ActionTime = 10
	want := int64(0)
	kind := ""
	switch sym.Choose("what", 4) {
	case 0:
		p.AllowedActions, kind = []string{"ready"}, "ready"
		gs.Status.CurrentEvent = "ReadyRequested"
	case 1:
		p.AllowedActions, kind = []string{"pass"}, "pass"
	case 2:
		p.AllowedActions, kind = []string{"pay"}, "pay"
		gs.Status.CurrentEvent = "AnteRequested"
		want = gs.Meta.Ante
	case 3:
		p.AllowedActions, kind = []string{"pay"}, "pay"
		gs.Status.CurrentEvent = "BlindsRequested"
		want = []int64{gs.Meta.Blind.Dealer, gs.Meta.Blind.SB, gs.Meta.Blind.BB}[at]
		switch {
		case at == 1 && sym.Choose("two", 2) == 1: // heads-up: the dealer is the small blind
			p.Positions = []string{"dealer", "sb"}
		case at == 0 && sym.Choose("alone", 2) == 1: // two players, the dealer holds no other place
			gs.Players, t.State.GamePlayerIndexes = gs.Players[:2], t.State.GamePlayerIndexes[:2]
		}
	}
	f.err = sym.Bool("refuses")
	err := a.UpdateTableState(t)
	sym.Assert(err == fail(f.err), "the answer of the table is passed on")
	sym.Assert(sym.And(f.n == 1, f.kind == kind, f.pid == ids[0], f.chips == want), "a bot asked to get ready, pass or pay does so at once with the amount due")
	sym.Assert(sym.And(r.n == 0, len(vtime.Timers()) == 0), "that is neither delayed nor reported as a wager")
}

// C25_quiet: nothing to do.
func C25_quiet() {
	at := sym.Choose("at", 3)
	a, f, r := newBot(sym.Bool("human"))
	t := dealt(0, at)
	betting(t, at, false)
	t.Meta.ActionTime = 10
	join := false
	switch sym.Choose("why", 6) {
	case 0:
		t.State.Status = pokertable.TableStateStatus(sym.StrOf("tableStatus", "table_created", "table_pausing", "table_closed", "table_balancing", "table_game_opened", "table_game_settled", "table_game_standby"))
	case 1: // not at this table
		t.State.PlayerStates[0].PlayerID = "other"
	case 2: // not in the hand
		t.State.GamePlayerIndexes[at] = 1
		if sym.Choose("none", 2) == 1 {
			t.State.GamePlayerIndexes = []int{}
			t.State.GameState.Players = nil
		}
	case 3: // not in yet
		t.State.PlayerStates[0].IsIn = false
		join = true
	case 4: // not to move
		t.State.GameState.Players[at].AllowedActions = []string{}
	case 5: // no hand
		t.State.GameState = nil
		t.State.Status = pokertable.TableStateStatus(sym.StrOf("tableStatus", "table_created", "table_pausing", "table_closed", "table_balancing", "table_game_standby"))
	}
	err := a.UpdateTableState(t)
	sym.Assert(sym.And(err == nil, f.n == 0, r.n == 0, len(vtime.Timers()) == 0), "a bot that has nothing to do does nothing")
	sym.Assert(sym.Iff(r.joinN == 1, join), "a bot that has not sat down asks to")
	sym.Assert(sym.Implies(join, sym.And(r.jc == "c7", r.jt == "t7", r.jp == ids[0])), "it asks for itself at its table")
	sym.Assert(r.joinN <= 1, "it asks once")
	if !join && t.State.GameState != nil && len(t.State.GameState.Players) > 0 {
		// the next hand or state is answered as usual
		t.State.Status = pokertable.TableStateStatus_TableGamePlaying
		t.State.PlayerStates[0].PlayerID = ids[0]
		for g := 0; g < 3; g++ {
			t.State.GamePlayerIndexes[g] = (g - at + 3) % 3
			t.State.GameState.Players[g].AllowedActions = []string{}
		}
		newGame := sym.Choose("newGame", 2) == 1
		if newGame {
			t.State.GameState.GameID = "g2"
		} else {
			t.State.GameState.UpdatedAt++
		}
		t.State.GameState.Players[at].AllowedActions = []string{"ready"}
		_ = a.UpdateTableState(t)
		sym.Assert(sym.And(f.n == 1, f.kind == "ready"), "a newer state or a new hand is answered")
	}
}
