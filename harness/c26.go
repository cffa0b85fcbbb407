package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokercompetition/actor"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C26: a player runner for a player in the hand, at the table only or elsewhere, among three players at any place in the hand; every table status, with and without a hand, before and after its end, every set of folded players; every move through the adapter of a table engine
// BOUND C26: symbolic: stacks, amounts, hand numbers, table status, hand events
// OUTSIDE C26: what the poker library itself shows of a hand after its end; ShowCard and AutoMode of the adapter (not implemented)
// BOUND C27: a player runner among three players at any place in the hand; every list of allowed actions of the poker library; up to 4 (thorough 5) moves in a row, each answered by the player, by a timeout or not at all, suspension thresholds 0 to 1000 (symbolic)
// BOUND C27: symbolic: stacks, wagers, forced bets, amounts, hand numbers, times to act, round names
// BOUND C27: schedules: the table asks for the next move before or after the answer to the last one has been handled
// OUTSIDE C27: thresholds changed while a player is idle; pre-emption inside the runner at other statements

// seen records what a player runner tells.
type seen struct {
	wagers
	states []*pokertable.Table
	autoN  int
	autoT  string
	auto   bool
}

func newPlayer(me int) (*actor.PlayerRunner, actor.Actor, *felt, *seen) {
	f, s := &felt{}, &seen{}
	a := actor.NewActor()
	p := actor.NewPlayerRunner(ids[me])
	p.OnTableGameWagerActionUpdated(s.report)
	p.OnTableStateUpdated(func(t *pokertable.Table) { s.states = append(s.states, t) })
	p.OnAutoModeUpdated(func(t string, on bool) { s.autoN++; s.autoT, s.auto = t, on })
	a.SetRunner(p)
	a.SetAdapter(f)
	return p, a, f, s
}

// lists are the lists of allowed actions the poker library hands out to a player to move.
var lists = [][]string{
	{"ready"},
	{"pass"},
	{"allin", "fold"},
	{"allin", "fold", "call"},
	{"allin", "fold", "call", "raise"},
	{"allin", "check"},
	{"allin", "check", "bet"},
	{"allin", "check", "raise"},
}

// fallback is what an absent player does.
func fallback(l []string) string {
	for _, k := range []string{"ready", "check", "fold"} {
		for _, x := range l {
			if x == k {
				return k
			}
		}
	}
	return ""
}

// toMove is the table with a hand in which the player at place `at` has the given choices.
func toMove(at int, l []string) *pokertable.Table {
	t := dealt(0, at)
	t.Meta.ActionTime = sym.IntRange("actionTime", 1, smallN)
	t.State.GameState.Players[at].AllowedActions = l
	return t
}

// later is the same hand a little later.
func later(t *pokertable.Table, at int, l []string) *pokertable.Table {
	t2, st, gs := *t, *t.State, *t.State.GameState
	gs.UpdatedAt = sym.Int64Range("later", 2, big+smallN)
	sym.Assume(gs.UpdatedAt > t.State.GameState.UpdatedAt)
	gs.Players = make([]*pokerface.PlayerState, len(t.State.GameState.Players))
	for i, p := range t.State.GameState.Players {
		q := *p
		q.HoleCards = append([]string{}, p.HoleCards...)
		q.AllowedActions = []string{}
		gs.Players[i] = &q
	}
	if at >= 0 {
		gs.Players[at].AllowedActions = l
	}
	st.GameState = &gs
	t2.State = &st
	return &t2
}

// C26_private: what a player is shown.
func C26_private() {
	at := sym.Choose("at", 3)
	who := sym.Choose("who", 3) // in the hand, at the table only, elsewhere
	_, a, _, s := newPlayer(0)
	t := dealt(0, at)
	t.State.Status = pokertable.TableStateStatus(sym.StrOf("tableStatus", "table_created", "table_pausing", "table_restoring", "table_balancing", "table_closed", "table_game_opened", "table_game_playing", "table_game_settled", "table_game_standby"))
	gs := t.State.GameState
	closed := sym.Bool("closed")
	gs.Status.CurrentEvent = sym.StrOf("event", "Initialized", "ReadyRequested", "RoundStarted", "RoundClosed", "GameCompleted", "SettlementRequested", "SettlementCompleted")
	if closed {
		gs.Status.CurrentEvent = "GameClosed"
	}
	gs.Meta.Deck = []string{"S2", "H3"}
	gs.Status.Burned = []string{"D4"}
	gs.Status.Board = []string{"C5", "C6"}
	for g, p := range gs.Players {
		p.HoleCards = []string{"S" + ids[g], "H" + ids[g]}
		p.Combination = &pokerface.CombinationInfo{Type: "pair", Power: 7 + g}
		p.Fold = sym.Bool("fold")
		p.StackSize = sym.Int64Range("stack", 0, big)
	}
	me := at
	switch who {
	case 1:
		t.State.GamePlayerIndexes = []int{1, 2}
		gs.Players = gs.Players[:2]
		me = -1
	case 2:
		t.State.PlayerStates[0].PlayerID = "other"
		me = -1
	}
	_ = a.UpdateTableState(t)
	sym.Assert(len(s.states) == 1, "the player is told about the table once")
	if len(s.states) != 1 {
		return
	}
	v := s.states[0]
	if v.State.GameState == nil {
		sym.Assert(false, "the player sees the hand")
		return
	}
	o := v.State.GameState
	sym.Assert(sym.And(len(o.Meta.Deck) == 0, len(o.Status.Burned) == 0), "nobody sees the deck or the burned cards")
	sym.Assert(len(o.Status.Board) == 2 && o.Status.Board[0] == "C5" && o.Status.Board[1] == "C6", "the board is shown")
	sym.Assert(len(o.Players) == len(gs.Players), "all players of the hand are shown")
	for g, p := range o.Players {
		own := g == me
		shown := own || closed && !gs.Players[g].Fold
		sym.Assert(sym.Iff(len(p.HoleCards) > 0, shown), "cards are shown to their owner, and to others only of an unfolded hand after the end")
		sym.Assert(sym.Iff(p.Combination != nil, shown), "so are the combinations")
		if shown && len(p.HoleCards) == 2 {
			sym.Assert(sym.And(p.HoleCards[0] == "S"+ids[g], p.HoleCards[1] == "H"+ids[g]), "they are his cards")
		}
		sym.Assert(sym.And(p.StackSize == gs.Players[g].StackSize, p.Fold == gs.Players[g].Fold), "stacks and folds are shown")
		sym.Assert(sym.And(len(gs.Players[g].HoleCards) == 2, gs.Players[g].Combination != nil), "the hand itself keeps its cards")
	}
	sym.Assert(sym.And(len(gs.Meta.Deck) == 2, len(gs.Status.Burned) == 1, v != t, v.State != t.State, o != gs), "the table itself is left alone")
	sym.Assert(sym.And(v.ID == "t7", v.State.Status == t.State.Status, v.State.GameCount == t.State.GameCount, len(v.State.PlayerStates) == 3), "the table is shown as it is")
}

// C26_subscribed: no hand, and no subscription.
func C26_subscribed() {
	p, a, f, s := newPlayer(0)
	t := dealt(0, 0)
	t.State.GameState = nil
	t.State.Status = pokertable.TableStateStatus(sym.StrOf("tableStatus", "table_created", "table_pausing", "table_restoring", "table_balancing", "table_closed", "table_game_opened", "table_game_standby"))
	t.State.GameCount = sym.IntRange("games", 0, 3)
	sub := sym.Bool("sub")
	p.SetEventSubscribed(sub)
	if sym.Choose("noSeat", 2) == 1 {
		t.State.PlayerStates[0].PlayerID = "other"
	}
	err := a.UpdateTableState(t)
	sym.Assert(sym.And(err == nil, sym.Iff(len(s.states) == 1, sub), len(s.states) <= 1), "a subscriber is told about every state, others about none")
	if len(s.states) == 1 {
		sym.Assert(s.states[0].State.GameState == nil && s.states[0].State.Status == t.State.Status, "also between hands")
	}
	sym.Assert(sym.And(f.n == 0, len(vtime.Timers()) == 0), "between hands nobody moves")
	_ = p.AutoMode(true)
	sym.Assert(sym.And(sym.Iff(s.autoN == 1, sub), sym.Implies(sub, sym.And(s.auto, s.autoT == "t7"))), "a subscriber is told about the auto mode, others are not")
	id, on := p.IsAutoMode()
	sym.Assert(sym.And(id == "t7", on), "the auto mode can be read")
}

// C27_due: passes and forced bets are made at once.
func C27_due() {
	at := sym.Choose("at", 3)
	p, a, f, s := newPlayer(0)
	t := dealt(0, at)
	gs := t.State.GameState
	q := gs.Players[at]
	t.Meta.ActionTime = 10
	if sym.Bool("auto") {
		_ = p.AutoMode(true)
	}
	want, kind := int64(0), "pay"
	switch sym.Choose("what", 3) {
	case 0:
		q.AllowedActions, kind = []string{"pass"}, "pass"
	case 1:
		q.AllowedActions = []string{"pay"}
		gs.Status.CurrentEvent = "AnteRequested"
		want = gs.Meta.Ante
	case 2:
		q.AllowedActions = []string{"pay"}
		gs.Status.CurrentEvent = "BlindsRequested"
		want = []int64{gs.Meta.Blind.Dealer, gs.Meta.Blind.SB, gs.Meta.Blind.BB}[at]
		switch {
		case at == 1 && sym.Choose("two", 2) == 1:
			q.Positions = []string{"dealer", "sb"}
		case at == 0 && sym.Choose("alone", 2) == 1:
			gs.Players, t.State.GamePlayerIndexes = gs.Players[:2], t.State.GamePlayerIndexes[:2]
		}
	}
	f.err = sym.Bool("refuses")
	err := a.UpdateTableState(t)
	sym.Assert(err == fail(f.err), "the answer of the table is passed on")
	sym.Assert(sym.And(f.n == 1, f.kind == kind, f.pid == ids[0], f.chips == want), "passes and forced bets are made at once with the amount due")
	sym.Assert(sym.And(s.n == 0, len(vtime.Timers()) == 0), "that is neither delayed nor reported as a wager")
	// the same or an older state is not answered again
	gs2 := later(t, at, q.AllowedActions)
	gs2.State.GameState.UpdatedAt = sym.Int64Range("older", 1, big)
	sym.Assume(gs2.State.GameState.UpdatedAt <= gs.UpdatedAt)
	if sym.Choose("hand", 2) == 1 { // of the hand before
		gs2.State.GameState.GameID = "g0"
	}
	_ = a.UpdateTableState(gs2)
	sym.Assert(f.n == 1, "an outdated state is not answered again")
}

// C27_absent: what happens to a player who does not answer.
func C27_absent() {
	at := sym.Choose("at", 3)
	all := append([][]string{{"allin", "fold", "check", "bet"}}, lists...) // a table may let a player fold where he can check
	l := all[sym.Choose("list", len(all))]
	p, a, f, s := newPlayer(0)
	t := toMove(at, l)
	gs := t.State.GameState
	auto := sym.Bool("auto")
	if auto {
		_ = p.AutoMode(true)
	}
	inHand := sym.Choose("inHand", 2) == 1
	if !inHand {
		if sym.Choose("seated", 2) == 1 {
			t.State.GamePlayerIndexes[at] = 1
		} else {
			t.State.PlayerStates[0].PlayerID = "other"
		}
	}
	f.err = sym.Bool("refuses")
	err := a.UpdateTableState(t)
	if !inHand {
		sym.Assert(sym.And(err == nil, f.n == 0, s.n == 0, len(vtime.Timers()) == 0), "who is not in the hand does not move")
		return
	}
	if l[0] == "pass" {
		sym.Assert(f.n == 1 && f.kind == "pass", "passes are made at once")
		return
	}
	want := fallback(l)
	if auto {
		sym.Assert(err == fail(f.err), "the answer of the table is passed on")
		sym.Assert(len(vtime.Timers()) == 0, "in auto mode nobody waits")
	} else {
		sym.Assert(sym.And(err == nil, f.n == 0, s.n == 0), "nothing is done for a player who has time left")
		ts := vtime.Timers()
		sym.Assert(len(ts) == 1, "there is one wait for the player")
		if len(ts) != 1 {
			return
		}
		sym.Assert(ts[0].Dur == vtime.Duration(t.Meta.ActionTime)*vtime.Second, "the player has the time to act of his table")
		ts[0].Fire()
	}
	sym.Assert(sym.And(f.n == 1, f.kind == want, f.pid == ids[0]), "for an absent player the runner gets ready, else checks, else folds, once")
	rep := sym.And(!f.err, want != "ready")
	sym.Assert(sym.Iff(s.n == 1, rep), "an accepted check or fold is reported once, nothing else")
	sym.Assert(sym.Implies(rep, sym.And(s.n == 1, s.action == want, s.chips == 0, s.table == "t7", s.game == "g1", s.count == t.State.GameCount, s.round == gs.Status.Round)), "the report names the table, hand, round and action")
	sym.ReachIf(rep, "moved for an absent player")
}

// C27_moves: the player's own moves.
func C27_moves() {
	at := sym.Choose("at", 3)
	p, a, f, s := newPlayer(0)
	informed := sym.Choose("informed", 2) == 1
	t := toMove(at, []string{"allin", "fold", "call", "raise"})
	gs := t.State.GameState
	gs.Status.CurrentWager = sym.Int64Range("currentWager", 0, big)
	gs.Players[at].Wager = sym.Int64Range("wager", 0, big)
	gs.Players[at].StackSize = sym.Int64Range("stack", 0, big)
	if informed {
		_ = a.UpdateTableState(t)
		sym.Assert(len(vtime.PendingTimers()) == 1, "there is one wait for the player")
	}
	n := sym.Int64Range("amount", 1, big)
	f.err = sym.Bool("refuses")
	var err error
	kind := kinds[sym.Choose("move", len(kinds))]
	amount, rep := int64(0), int64(0)
	switch kind {
	case "pass":
		err = p.Pass()
	case "ready":
		err = p.Ready()
	case "pay":
		amount, rep = n, n
		err = p.Pay(n)
	case "check":
		err = p.Check()
	case "bet":
		amount, rep = n, n
		err = p.Bet(n)
	case "call":
		if informed {
			rep = gs.Status.CurrentWager - gs.Players[at].Wager
		}
		err = p.Call()
	case "fold":
		err = p.Fold()
	case "allin":
		if informed {
			rep = gs.Players[at].StackSize
		}
		err = p.Allin()
	case "raise":
		amount, rep = n, n
		err = p.Raise(n)
	}
	sym.Assert(err == fail(f.err), "the answer of the table is passed on")
	sym.Assert(sym.And(f.n == 1, f.kind == kind, f.pid == ids[0], f.chips == amount), "a move reaches the table once as it is")
	told := !f.err && kind != "pass" && kind != "ready" && kind != "pay"
	sym.Assert(sym.Iff(s.n == 1, told), "an accepted wager is reported once, nothing else")
	sym.Assert(sym.Implies(told, sym.And(s.n == 1, s.action == kind, s.chips == rep)), "the report says what was wagered")
	if informed {
		sym.Assert(sym.Implies(told, sym.And(s.table == "t7", s.game == "g1", s.count == t.State.GameCount, s.round == gs.Status.Round)), "the report names the table, hand and round")
		sym.Assert(sym.Iff(len(vtime.PendingTimers()) == 0, !f.err), "an accepted move ends the wait for it, a refused one does not")
		vtime.RunTasks()
		if ts := vtime.PendingTimers(); len(ts) == 1 {
			f.err = false
			ts[0].Fire()
			sym.Assert(sym.And(f.n == 2, f.kind == "fold"), "who has only tried to move folds in the end")
		}
	}
}

// prompt is a felt that asks for the next move as soon as it has taken one.
type prompt struct {
	felt
	next func()
}

func (f *prompt) Check(p string) error { err := f.felt.Check(p); f.next(); return err }

// C27_next: the table asks for the next move while the last one is still being handled.
func C27_next() {
	at := sym.Choose("at", 3)
	p, a, _, s := newPlayer(0)
	f := &prompt{}
	a.SetAdapter(f)
	t := toMove(at, []string{"allin", "check", "bet"})
	gs := t.State.GameState
	t2 := later(t, at, []string{"allin", "check", "bet"})
	t2.State.GameState.Status.Round = "next"
	newHand := sym.Bool("newHand")
	if newHand {
		t2.State.GameState.GameID = "g2"
		t2.State.GameCount = t.State.GameCount + 1
	}
	when := sym.Choose("when", 3)
	f.next = func() {
		if when == 0 {
			_ = a.UpdateTableState(t2)
		}
	}
	p.OnTableGameWagerActionUpdated(func(tid, gid string, count int, round, action string, chips int64) {
		s.report(tid, gid, count, round, action, chips)
		if when == 1 {
			_ = a.UpdateTableState(t2)
		}
	})
	_ = a.UpdateTableState(t)
	by := sym.Choose("by", 2)
	first := vtime.Timers()[0]
	if by == 0 {
		sym.Assert(p.Check() == nil, "the move is accepted")
	} else {
		first.Fire()
	}
	sym.Assert(sym.And(s.n == 1, s.action == "check", s.game == "g1", s.count == t.State.GameCount, s.round == gs.Status.Round), "a move is reported with its own hand and round")
	if when == 2 {
		_ = a.UpdateTableState(t2)
	}
	vtime.RunTasks()
	ts := vtime.PendingTimers()
	sym.Assert(sym.And(len(ts) == 1, !first.Pending()), "the player is waited for in his next move")
	if len(ts) == 1 {
		ts[0].Fire()
		sym.Assert(sym.And(f.n == 2, s.n == 2, s.round == "next"), "and moved for if he does not answer")
	}
}

// C27_idle: repeated timeouts switch the auto mode on, and only they do.
func C27_idle() {
	p, a, f, s := newPlayer(0)
	th := sym.IntRange("threshold", 0, smallN)
	p.SetSuspendThreshold(th)
	t := toMove(0, []string{"allin", "check", "bet"})
	row := 0    // timeouts in a row
	on := false // auto mode
	how := -1   // how he moves himself
	n := 4 + sym.Tier()
	for i := 0; i < n; i++ {
		k, au := f.n, s.autoN
		_ = a.UpdateTableState(t)
		if on {
			sym.Assert(sym.And(f.n == k+1, f.kind == "check", len(vtime.PendingTimers()) == 0, s.autoN == au), "in auto mode the player is moved for at once")
			k = f.n
			if sym.Choose("then", 3) == 1 {
				_ = p.AutoMode(false)
				sym.Assert(sym.And(s.autoN == au+1, !s.auto, s.autoT == "t7"), "leaving the auto mode is told")
				_, st := p.IsAutoMode()
				sym.Assert(!st, "the player is back")
				on, row = false, 0
			}
			sym.Assert(f.n == k, "changing the mode moves nothing")
		} else {
			sym.Assert(sym.And(f.n == k, len(vtime.PendingTimers()) == 1), "outside the auto mode the player is waited for")
			ts := vtime.PendingTimers()
			if len(ts) != 1 {
				return
			}
			sym.Assert(ts[0].Dur == vtime.Duration(t.Meta.ActionTime)*vtime.Second, "for the time to act of his table, every time")
			switch sym.Choose("do", 4) {
			case 0: // no answer
				ts[0].Fire()
				row++
				sym.Assert(f.n == k+1, "an absent player is moved for")
				sym.Assert(sym.Implies(s.autoN > au, sym.And(s.autoN == au+1, s.auto, row >= th)), "the auto mode is not entered before enough timeouts in a row")
				sym.Assert(sym.Implies(row > th, s.autoN == au+1), "it is entered after enough timeouts in a row")
				on = s.autoN > au
				sym.ReachIf(on, "suspended")
			case 1: // his own move
				if how < 0 {
					how = sym.Choose("how", 5)
				}
				switch how {
				case 0:
					_ = p.Check()
				case 1:
					_ = p.Bet(40)
				case 2:
					_ = p.Call()
				case 3:
					_ = p.Allin()
				case 4:
					_ = p.Raise(80)
				}
				row = 0
				sym.Assert(sym.And(f.n == k+1, s.autoN == au), "an own move changes no mode")
			case 2: // a fold brings him back
				_ = p.Fold()
				row = 0
				_, st := p.IsAutoMode()
				sym.Assert(sym.And(f.n == k+1, !st), "who folds himself is back")
			case 3: // the auto mode by hand
				_ = p.AutoMode(true)
				_, st := p.IsAutoMode()
				sym.Assert(sym.And(s.autoN == au+1, s.auto, s.autoT == "t7", st, f.n == k), "entering the auto mode is told")
				on = true
				if sym.Choose("late", 2) == 1 {
					ts[0].Fire()
					_, st = p.IsAutoMode()
					sym.Assert(sym.And(st, s.autoN == au+1, f.n == k+1, f.kind == "check"), "the wait under way ends as usual, the auto mode stays on")
				}
			}
		}
		vtime.RunTasks()
		t = later(t, 0, []string{"allin", "check", "bet"})
	}
}

// C27_replaced: a newer state replaces the wait for a move.
func C27_replaced() {
	at := sym.Choose("at", 3)
	p, a, f, s := newPlayer(0)
	t := toMove(at, []string{"allin", "check"})
	_ = a.UpdateTableState(t)
	l := [][]string{{"allin", "fold"}, {}, {"pass"}}[sym.Choose("then", 3)]
	t2 := later(t, at, l)
	auto := false
	switch sym.Choose("how", 4) {
	case 1: // a new hand
		t2.State.GameState.GameID = "g2"
	case 2: // no hand
		t2.State.GameState = nil
		t2.State.Status = pokertable.TableStateStatus_TableGameStandby
		l = nil
	case 3:
		_ = p.AutoMode(true)
		auto = true
	}
	if sym.Choose("stale", 2) == 1 { // an outdated state of the hand before comes first
		old := later(t, at, []string{"pass"})
		old.State.GameState.GameID = "g0"
		old.State.GameState.UpdatedAt = sym.Int64Range("older", 1, big)
		sym.Assume(old.State.GameState.UpdatedAt <= t.State.GameState.UpdatedAt)
		_ = a.UpdateTableState(old)
		vtime.RunTasks()
		sym.Assert(f.n == 0 && len(vtime.PendingTimers()) == 1, "an outdated state changes nothing")
	}
	_ = a.UpdateTableState(t2)
	vtime.RunTasks()
	n := 0
	if len(l) > 0 && l[0] == "pass" || auto && len(l) > 0 {
		n = 1
	}
	sym.Assert(f.n == n, "the newest state is answered at once where that is due")
	wait := len(l) == 2 && !auto
	sym.Assert(sym.Iff(len(vtime.PendingTimers()) == 1, wait), "the player is waited for exactly if the newest state asks for his move")
	sym.Assert(len(vtime.PendingTimers()) <= 1, "there is one wait for the player")
	for _, x := range vtime.PendingTimers() {
		x.Fire()
	}
	if len(l) == 2 {
		sym.Assert(sym.And(f.n == 1, f.kind == "fold", s.n == 1), "the newest state is answered, once")
	} else {
		sym.Assert(sym.And(f.n == n, s.n == 0), "nothing else is done")
	}
}

// engineTable records the requests to a table engine.
type engineTable struct {
	pokertable.TableEngine
	felt
}

func (e *engineTable) PlayerPass(p string) error           { return e.felt.Pass(p) }
func (e *engineTable) PlayerReady(p string) error          { return e.felt.Ready(p) }
func (e *engineTable) PlayerPay(p string, c int64) error   { return e.felt.Pay(p, c) }
func (e *engineTable) PlayerCheck(p string) error          { return e.felt.Check(p) }
func (e *engineTable) PlayerBet(p string, c int64) error   { return e.felt.Bet(p, c) }
func (e *engineTable) PlayerCall(p string) error           { return e.felt.Call(p) }
func (e *engineTable) PlayerFold(p string) error           { return e.felt.Fold(p) }
func (e *engineTable) PlayerAllin(p string) error          { return e.felt.Allin(p) }
func (e *engineTable) PlayerRaise(p string, c int64) error { return e.felt.Raise(p, c) }

// C26_adapter: an actor at a table engine.
func C26_adapter() {
	at := sym.Choose("at", 3)
	e, s := &engineTable{}, &seen{}
	a := actor.NewActor()
	p := actor.NewPlayerRunner(ids[0])
	p.OnTableGameWagerActionUpdated(s.report)
	p.OnTableStateUpdated(func(t *pokertable.Table) { s.states = append(s.states, t) })
	t0 := newTable("t0", pokertable.TableSetting{TableID: "t0", Meta: pokertable.TableMeta{CompetitionID: "c7", Mode: string(pc.CompetitionMode_CT)}})
	ad := actor.NewTableEngineAdapter(e, t0)
	a.SetRunner(p)
	a.SetAdapter(ad)
	sym.Assert(a.GetTable() == actor.Adapter(ad) && a.GetRunner() == actor.Runner(p), "an actor knows its runner and its table")
	n := sym.Int64Range("amount", 1, big)
	e.err = sym.Bool("refuses")
	var err error
	kind := kinds[sym.Choose("move", len(kinds))]
	amount := int64(0)
	switch kind {
	case "pass":
		err = p.Pass()
	case "ready":
		err = p.Ready()
	case "pay":
		amount = n
		err = p.Pay(n)
	case "check":
		err = p.Check()
	case "bet":
		amount = n
		err = p.Bet(n)
	case "call":
		err = p.Call()
	case "fold":
		err = p.Fold()
	case "allin":
		err = p.Allin()
	case "raise":
		amount = n
		err = p.Raise(n)
	}
	sym.Assert(sym.And(err == fail(e.err), e.n == 1, e.kind == kind, e.pid == ids[0], e.chips == amount), "a move reaches the table engine once as it is, and its answer the player")
	// states reach the runner, as copies
	t := toMove(at, []string{})
	e.err = false
	sym.Assert(ad.UpdateTableState(t) == nil, "a state is passed on")
	sym.Assert(len(s.states) == 1 && s.states[0].ID == "t7", "to the runner")
	sym.Assert(sym.And(ad.GetTableState() != t, ad.GetTableState().ID == "t7", ad.GetGamePlayerIndex(ids[0]) == at, ad.GetGamePlayerIndex("nobody") == -1), "the adapter answers with the last state")
	gs := ad.GetGameState()
	sym.Assert(gs != nil && gs != t.State.GameState && gs.UpdatedAt == t.State.GameState.UpdatedAt, "and its hand")
	t.State.Status = "changed"
	sym.Assert(ad.GetTableState().State.Status == pokertable.TableStateStatus_TableGamePlaying, "a state is a copy")
}
