package main

import (
	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C12: a competition of any mode with three players, closed with any end status while registering, in delayed buy-in with open re-buy windows, in a break, or after late buy-in; then any one request or table report (thorough: two), then every timer ever started expires in order
// BOUND C12: symbolic: the end status, the player and table named by a request, amounts, stacks reported by a table
// OUTSIDE C12: refunds of a competition that was closed before it ran

// fireAll lets every pending timer expire, the earliest first.
func fireAll(max int) int {
	n := 0
	vtime.RunTasks()
	for ; n < max; n++ {
		var best *vtime.Timer
		for _, x := range vtime.PendingTimers() {
			if best == nil || x.Due.Before(best.Due) {
				best = x
			}
		}
		if best == nil {
			break
		}
		if u := best.Due.Unix(); u > vtime.NowUnix() {
			vtime.SetNow(u)
		}
		best.Fire()
		vtime.RunTasks()
	}
	return n
}

func (w *World) ended(label string, s *Snap) {
	w.unchanged(s, label)
	sym.Assert(sym.And(w.c.State.EndAt == s.endAt, w.c.State.StartAt == s.startAt), label+": start and end times stay")
	sym.Assert(w.setN == 1, label+": the competition is settled exactly once")
	sym.Assert(sym.And(w.b.gameCalls() == s.gcalls, w.b.blindN == 0), label+": no table is started, set up, paused, closed, created or given new blinds")
	sym.Assert(w.c.State.BlindState.CurrentLevelIndex == s.level, label+": the blinds stay")
	for k, r := range w.c.State.Rankings {
		sym.Assert(sym.And(r.PlayerID == w.rank0[k].PlayerID, r.FinalChips == w.rank0[k].FinalChips), label+": the final ranking stays")
	}
	for i, p := range w.c.State.Players {
		sym.Assert(p.CompetitionRank == s.players[i].CompetitionRank, label+": the ranks stay")
	}
}

func c12(mode pc.CompetitionMode) {
	phase := sym.Choose("phase", 5)
	fi := 1
	if mode == pc.CompetitionMode_Cash {
		fi = pc.NoStopBuyInIndex
	}
	k := Cfg{mode: mode, n: 3, finalIdx: fi, maxReBuy: 2, waiting: 15, duration: 100, startAt: base + 5, disableAt: base + 5000}
	var w *World
	if phase == 0 {
		w = create(k)
	} else {
		w = started(k)
		vtime.SetNow(base + 20)
		if phase == 1 {
			// open windows, or waiting MTT players
			t := settled(w, 1)
			t.ID = w.b.tables[0]
			t.State.PlayerStates[1].Bankroll = 0
			t.State.PlayerStates[2].Bankroll = 0
			w.ce.UpdateTable(t)
		} else {
			if phase < 4 {
				w.level(phase)
			} else {
				w.level(3)
			}
			if phase == 4 {
				// the last hand left one player, and the competition is about to end by itself
				t := settled(w, 1)
				t.ID = w.b.tables[0]
				t.State.PlayerStates[1].Bankroll = 0
				t.State.PlayerStates[2].Bankroll = 0
				if mode == pc.CompetitionMode_Cash {
					t.State.StartAt = base - 1000
				}
				w.ce.UpdateTable(t)
				sym.Assert(!isEnd(w.c.State.Status), "a competition does not end at once after a hand")
			}
			if phase == 2 && mode == pc.CompetitionMode_CT {
				w.ce.UpdateTable(w.table(pokertable.TableStateStatus_TableGameStandby, 2))
			}
		}
	}
	if isEnd(w.c.State.Status) {
		sym.Stop() // ended by itself, decided elsewhere
	}
	tbl := tableID
	if len(w.b.tables) > 0 {
		tbl = w.b.tables[0]
	}
	status := pc.CompetitionStateStatus(sym.StrOf("end", "end", "auto_end", "force_end"))
	nt := len(w.c.State.Tables)
	w.b.reset()
	sym.Assert(w.ce.CloseCompetition(status) == nil, "a competition can be closed")
	sym.Assert(sym.And(w.c.State.Status == status, w.setN == 1, w.b.releaseN == nt), "closing settles the competition and releases its tables once")
	if mode == pc.CompetitionMode_MTT {
		sym.Assert(w.c.State.EndAt == vtime.NowUnix(), "an MTT ends when it is closed")
	}
	w.b.reset()
	s := w.snap()
	for _, r := range w.c.State.Rankings {
		w.rank0 = append(w.rank0, *r)
	}
	chips := sym.Int64Range("amount", 1, big)
	for r := 0; r <= sym.Tier(); r++ {
		op := sym.Choose("op", 13)
		pid := sym.StrOf("pid", w.playersOr("px")...)
		err := pc.ErrCompetitionTableNotFound
		switch op {
		case 0:
			err = w.ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: pid, RedeemChips: chips, Unit: 1})
		case 1:
			err = w.ce.PlayerAddon(tbl, pc.JoinPlayer{PlayerID: pid, RedeemChips: chips, Unit: 1})
		case 2:
			err = w.ce.PlayerQuit(tbl, pid)
		case 3:
			err = w.ce.PlayerCashOut(tbl, pid)
		case 4:
			_, err = w.ce.StartCompetition()
		case 5:
			if phase == 0 {
				sym.Stop()
			}
			err = w.ce.PlayerRefund(pid)
		case 6:
			err = w.ce.UpdateCompetitionBlindInitialLevel(2)
		case 7:
			w.ce.CloseCompetition(pc.CompetitionStateStatus(sym.StrOf("end2", "end", "auto_end", "force_end")))
		case 8:
			w.ce.AutoGameOpenEnd(tbl)
		case 9, 10, 11:
			if len(w.b.tables) == 0 {
				sym.Stop()
			}
			t := settled(w, 7)
			t.ID = tbl
			for _, p := range t.State.PlayerStates {
				p.Bankroll = sym.Int64Range("bank", 0, big)
			}
			if op == 10 {
				t.State.Status = pokertable.TableStateStatus_TableClosed
			} else if op == 11 {
				t.State.Status = pokertable.TableStateStatus(sym.StrOf("tableStatus", "table_created", "table_pausing"))
			}
			w.ce.UpdateTable(t)
		case 12: // a seat reserved before the end
			w.ce.UpdateReserveTablePlayerState(tbl, &pokertable.TablePlayerState{PlayerID: pid, Seat: sym.IntRange("seat", 0, 9), Bankroll: chips})
		}
		sym.Assert(err != nil, "an ended competition takes no request")
		w.ended("after the end", s)
		sym.Assert(w.b.releaseN == 0, "the tables are released once")
	}
	fireAll(40)
	sym.Assert(len(vtime.PendingTimers()) == 0, "all timers have expired")
	w.ended("when timers expire after the end", s)
	sym.Reach("ended")
}

func C12_ct()   { c12(pc.CompetitionMode_CT) }
func C12_mtt()  { c12(pc.CompetitionMode_MTT) }
func C12_cash() { c12(pc.CompetitionMode_Cash) }
