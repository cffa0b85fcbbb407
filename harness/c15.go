package main

import (
	pc "github.com/weedbox/pokercompetition"
	pokerblind "github.com/weedbox/pokercompetition/blind"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokertable"
	"verif.local/sym"
	"verif.local/sym/vtime"
)

// BOUND C15: schedules of one to four levels (thorough: six) with symbolic lengths 1..10^6 s, breaks at any position, the last level timed, unlimited or without a length; any initial level, present or not, changed before the start or not; the clock stopped after any level
// BOUND C15: the same through a competition of any mode with the standard schedule of four levels and any initial level
// OUTSIDE C15: unlimited levels and levels without a length before the last one; two levels of the same number

func schedule(n int) (*pokerblind.BlindOptions, []int64) {
	o := &pokerblind.BlindOptions{ID: "b", FinalBuyInLevelIndex: sym.IntRange("final", -2, n)}
	d := []int64{}
	brk := -1
	if n > 1 {
		brk = sym.Choose("break", n) - 1
	}
	offset := sym.Choose("numbering", 2) == 1
	for i := 0; i < n; i++ {
		no := i + 1
		if offset && brk >= 0 && i > brk {
			no = i // the levels are counted without the break
		}
		l := pokerblind.BlindLevel{Level: no, Ante: int64(i), Blind: pokerface.BlindSetting{SB: int64(10 * i), BB: int64(20 * i)}}
		if i == brk {
			l.Level = -1
		}
		l.Duration = sym.IntRange("length", 1, 1000000)
		if i == n-1 {
			switch sym.Choose("last", 3) {
			case 1:
				l.Duration = -1
			case 2:
				l.Duration = 0
			}
		}
		d = append(d, int64(l.Duration))
		o.Levels = append(o.Levels, l)
	}
	return o, d
}

// due fires the pending timers that are due at a given second.
func due(at int64, label string) {
	any := false
	for _, x := range vtime.PendingTimers() {
		if x.Pending() && x.Due.Unix() == at && x.Due.Nanosecond() == 0 {
			vtime.SetNow(at)
			x.Fire()
			vtime.RunTasks()
			any = true
		}
	}
	if !any {
		sym.Assert(false, label)
		sym.Stop()
	}
}

func C15_blind() {
	n := 1 + sym.Choose("levels", 4+2*sym.Tier())
	vtime.SetNow(base)
	b := pokerblind.NewBlind()
	sym.Assert(!b.IsStarted(), "a clock without a schedule is not running")
	if _, err := b.Start(); err == nil {
		sym.Assert(false, "a clock without a schedule does not start")
	}
	sym.Assert(!b.IsStarted(), "a clock without a schedule is not running")
	sym.Assert(b.UpdateInitialLevel(1) != nil, "a clock without a schedule has no initial level")
	o, d := schedule(n)
	first := sym.Choose("initial", n+1) // n: a level that does not exist
	o.InitialLevel = 77
	if first < n {
		o.InitialLevel = o.Levels[first].Level
	}
	updates, errs, seen := 0, 0, -1
	b.OnBlindStateUpdated(func(s *pokerblind.BlindState) { updates++; seen = s.Status.CurrentLevelIndex })
	b.OnErrorUpdated(func(s *pokerblind.BlindState, err error) { errs++ })
	if sym.Choose("changed", 2) == 1 {
		l := o.InitialLevel
		o.InitialLevel = 55
		b.ApplyOptions(o)
		sym.Assert(b.UpdateInitialLevel(l) == nil, "the initial level can be changed before the start")
	} else {
		b.ApplyOptions(o)
	}
	bs := b.GetState()
	sym.Assert(sym.And(!b.IsStarted(), bs.Status.CurrentLevelIndex == -1), "the clock does not run before it is started")
	if sym.Choose("ended before", 2) == 1 {
		b.End() // a clock that has not run yet cannot be stopped for good
	}
	start := base + 7
	vtime.SetNow(start)
	r, err := b.Start()
	sym.Assert(sym.Iff(err == nil, first < n), "the clock starts exactly when the initial level exists")
	if err != nil {
		sym.Assert(sym.And(!b.IsStarted(), bs.Status.CurrentLevelIndex == -1, updates == 0), "a failed start changes nothing")
		vtime.RunTasks()
		sym.Assert(len(vtime.PendingTimers()) == 0, "a failed start arms no timer")
		sym.Assert(b.UpdateInitialLevel(o.Levels[0].Level) == nil, "a failed start can be repaired")
		r, err = b.Start()
		first = 0
		sym.Assert(err == nil, "a repaired schedule starts")
		if err != nil {
			sym.Stop()
		}
	}
	sym.Assert(sym.And(b.IsStarted(), r.StartedAt == start, r.Status.CurrentLevelIndex == first, r.Status.FinalBuyInLevelIndex == o.FinalBuyInLevelIndex), "the clock starts at the initial level")
	end := start
	ends := make([]int64, n)
	for i := 0; i < n; i++ {
		if i < first {
			sym.Assert(r.Status.LevelEndAts[i] == -1, "levels before the initial one never run")
			continue
		}
		end += d[i]
		if d[i] == -1 {
			end = -1
		}
		ends[i] = end
		sym.Assert(r.Status.LevelEndAts[i] == end, "a level ends after the lengths of all levels up to it")
	}
	instant := d[n-1] == 0
	sym.Assert(updates == sym.B2I(instant), "only a level without a length reports at once")
	vtime.RunTasks()
	n2 := len(vtime.Timers())
	if _, err := b.Start(); err == nil {
		sym.Assert(false, "a running clock cannot be started again")
	}
	vtime.RunTasks()
	sym.Assert(sym.And(len(vtime.Timers()) == n2, r.Status.CurrentLevelIndex == first, r.StartedAt == start), "a second start changes nothing")
	stop := first + sym.Choose("stop", n-first+1)
	for i := first; i < n; i++ {
		if i == stop {
			b.End()
		}
		if d[i] <= 0 {
			break
		}
		was, idx := updates, r.Status.CurrentLevelIndex
		due(ends[i], "a timed level has a timer for its end")
		if i >= stop || i == n-1 {
			sym.Assert(sym.And(updates == was, r.Status.CurrentLevelIndex == idx), "the clock stands still once stopped and after the last level")
		} else {
			sym.Assert(sym.And(updates == was+1, r.Status.CurrentLevelIndex == i+1, seen == i+1), "when a level ends the next one begins and is reported once")
			sym.Assert(r.Status.CurrentLevelIndex == b.GetState().Status.CurrentLevelIndex, "the state shows the running level")
			sym.Assert(b.GetState().CurrentLevel().Level == o.Levels[i+1].Level, "the state shows the running level")
			sym.Assert(sym.Iff(b.GetState().IsBreaking(), o.Levels[i+1].Level == -1), "a break is recognised")
		}
	}
	sym.Assert(sym.And(len(vtime.PendingTimers()) == 0, errs == 0), "no timer is left over and nothing failed")
	for i := first; i < n; i++ {
		sym.Assert(r.Status.LevelEndAts[i] == ends[i], "the schedule does not move")
	}
	sym.Reach("ran")
}

// C15_competition: the competition shows the schedule of its clock
func C15_competition() {
	mode := []pc.CompetitionMode{pc.CompetitionMode_CT, pc.CompetitionMode_MTT, pc.CompetitionMode_Cash}[sym.Choose("mode", 3)]
	l := stdLevels()
	for i := range l {
		l[i].Duration = sym.IntRange("length", 1, 1000000)
	}
	first := []int{0, 1, 3}[sym.Choose("initial", 3)]
	init := l[first].Level
	final := sym.Choose("final", 4) // three: late buy-in is open to the end
	k := Cfg{mode: mode, n: 2, finalIdx: final, levels: l, initial: 1, duration: 10000000, disableAt: base + 1000000000}
	w := create(k)
	if sym.Choose("changed", 2) == 1 || first > 0 {
		sym.Assert(w.ce.UpdateCompetitionBlindInitialLevel(init) == nil, "the initial level can be changed while registering")
	}
	sym.Assert(w.c.State.BlindState.CurrentLevelIndex == -1, "no level runs before the start")
	start := base + 10
	vtime.SetNow(start)
	if mode == pc.CompetitionMode_MTT {
		w.ce.StartCompetition()
	} else {
		w.ce.UpdateTable(w.table(pokertable.TableStateStatus_TableCreated, 0))
	}
	vtime.RunTasks()
	bs := w.c.State.BlindState
	sym.Assert(sym.And(bs.CurrentLevelIndex == first, bs.FinalBuyInLevelIndex == final, len(bs.EndAts) == 4), "the competition starts at the initial level")
	sym.Assert(w.ce.UpdateCompetitionBlindInitialLevel(1) != nil, "the initial level is fixed once the blinds run")
	end := start
	for i := first; i < 4; i++ {
		end += int64(l[i].Duration)
		sym.Assert(bs.EndAts[i] == end, "the competition shows when every level ends")
	}
	for i := first; i < 4; i++ {
		due(bs.EndAts[i], "every level ends")
		want := i + 1
		if i == 3 {
			want = 3
		}
		sym.Assert(bs.CurrentLevelIndex == want, "the competition shows the running level")
		sym.Assert(sym.And(w.c.CurrentBlindLevel().Level == l[want].Level, sym.Iff(w.c.IsBreaking(), want == 2)), "the running level and breaks are those of the schedule")
		sym.Assert(w.ce.UpdateCompetitionBlindInitialLevel(1) != nil, "the initial level is fixed once the blinds run")
	}
	sym.Reach("ran")
}
