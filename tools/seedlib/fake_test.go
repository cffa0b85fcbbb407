package pokercompetition_test

import (
	"errors"
	"sync"

	pc "github.com/weedbox/pokercompetition"
	"github.com/weedbox/pokerface"
	"github.com/weedbox/pokerface/settlement"
	"github.com/weedbox/pokertable"
)

// fake is a table manager that records what is asked of it.
type fake struct {
	mu       sync.Mutex
	onTable  func(*pokertable.Table)
	reserved []pokertable.JoinPlayer
	redeemed []pokertable.JoinPlayer
	left     []string
	closed   []string
	released []string
	started  []string
	setups   []map[string]int
	blinds   map[string][]int
	created  []pokertable.TableSetting
	joined   map[string][]pokertable.JoinPlayer
	removed  map[string][]string
	paused   []string
	refuse   map[string]bool
	status   pokertable.TableStateStatus
}

func newFake() *fake {
	return &fake{blinds: map[string][]int{}, joined: map[string][]pokertable.JoinPlayer{}, removed: map[string][]string{}, refuse: map[string]bool{}, status: pokertable.TableStateStatus_TableCreated}
}

func (f *fake) answer(op string) error {
	if f.refuse[op] {
		return errors.New(op + " refused")
	}
	return nil
}

func (f *fake) OnTableUpdated(fn func(*pokertable.Table))                                    { f.onTable = fn }
func (f *fake) OnTablePlayerReserved(fn func(string, *pokertable.TablePlayerState))          {}
func (f *fake) OnReadyOpenFirstTableGame(func(string, int, []*pokertable.TablePlayerState)) {}
func (f *fake) CreateTable(o *pokertable.TableEngineOptions, s pokertable.TableSetting) (*pokertable.Table, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.created = append(f.created, s)
	if err := f.answer("create"); err != nil {
		return nil, err
	}
	return &pokertable.Table{ID: s.TableID, Meta: s.Meta, State: &pokertable.TableState{Status: f.status, StartAt: -1}}, nil
}
func (f *fake) PauseTable(t string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.paused = append(f.paused, t)
	return f.answer("pause")
}
func (f *fake) CloseTable(t string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.closed = append(f.closed, t)
	return f.answer("close")
}
func (f *fake) StartTableGame(t string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.started = append(f.started, t)
	return f.answer("start")
}
func (f *fake) SetUpTableGame(t string, n int, p map[string]int) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.setups = append(f.setups, p)
	return f.answer("setup")
}
func (f *fake) UpdateBlind(t string, level int, ante, dealer, sb, bb int64) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.blinds[t] = append(f.blinds[t], level)
	return f.answer("blind")
}
func (f *fake) UpdateTablePlayers(t string, j []pokertable.JoinPlayer, l []string) (map[string]int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.joined[t] = append(f.joined[t], j...)
	f.removed[t] = append(f.removed[t], l...)
	r := map[string]int{}
	for i, x := range j {
		r[x.PlayerID] = i
	}
	return r, f.answer("update")
}
func (f *fake) PlayerReserve(t string, j pokertable.JoinPlayer) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.reserved = append(f.reserved, j)
	return f.answer("reserve")
}
func (f *fake) PlayerJoin(t, p string) error { return nil }
func (f *fake) PlayerRedeemChips(t string, j pokertable.JoinPlayer) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.redeemed = append(f.redeemed, j)
	return f.answer("redeem")
}
func (f *fake) PlayersLeave(t string, p []string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.left = append(f.left, p...)
	return f.answer("leave")
}
func (f *fake) UpdateTable(t *pokertable.Table) {}
func (f *fake) ReleaseTable(t string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.released = append(f.released, t)
	return nil
}

func meta(mode pc.CompetitionMode) pc.CompetitionMeta {
	return pc.CompetitionMeta{
		Mode: mode, Rule: pc.CompetitionRule_Default, MaxDuration: 3600, MinPlayerCount: 2, MaxPlayerCount: 100,
		TableMaxSeatCount: 9, TableMinPlayerCount: 2, RegulatorMinInitialPlayerCount: 2, ActionTime: 10, MinChipUnit: 1,
		ReBuySetting: pc.ReBuySetting{MaxTime: 3, WaitingTime: 60}, AddonSetting: pc.AddonSetting{MaxTime: 2},
		Blind: pc.Blind{ID: "b", InitialLevel: 1, FinalBuyInLevelIndex: 1, DealerBlindTime: 1, Levels: []pc.BlindLevel{
			{Level: 1, SB: 10, BB: 20, Duration: 600, AllowAddon: true},
			{Level: 2, SB: 20, BB: 40, Duration: 600, AllowAddon: true},
			{Level: 3, SB: 40, BB: 80, Duration: 600},
		}},
	}
}

func newComp(f *fake, m pc.CompetitionMeta, disableAt int64) (pc.CompetitionEngine, *pc.Competition) {
	ce := pc.NewCompetitionEngine(pc.WithTableManagerBackend(f), pc.WithTableOptions(pokertable.NewTableEngineOptions()))
	s := pc.CompetitionSetting{CompetitionID: "c1", Meta: m, StartAt: pc.UnsetValue, DisableAt: disableAt}
	if m.Mode != pc.CompetitionMode_MTT {
		s.TableSettings = []pc.TableSetting{{TableID: "t1"}}
	}
	c, err := ce.CreateCompetition(s)
	if err != nil {
		panic(err)
	}
	return ce, c
}

type seat struct {
	id    string
	chips int64
}

// tableOf builds an update of a table with the given players, all of them in the hand.
func tableOf(c *pc.Competition, id string, status pokertable.TableStateStatus, hand int, seats ...seat) *pokertable.Table {
	var m pokertable.TableMeta
	for _, t := range c.State.Tables {
		if t.ID == id {
			m = t.Meta
		}
	}
	t := &pokertable.Table{ID: id, Meta: m, State: &pokertable.TableState{
		Status: status, GameCount: hand, StartAt: c.State.OpenAt, BlindState: &pokertable.TableBlindState{}, GameBlindState: &pokertable.TableBlindState{},
		CurrentBBSeat: -1, CurrentDealerSeat: -1, CurrentSBSeat: -1,
	}}
	gs := &pokerface.GameState{Result: &settlement.Result{}}
	for i, s := range seats {
		t.State.PlayerStates = append(t.State.PlayerStates, &pokertable.TablePlayerState{PlayerID: s.id, Seat: i, Bankroll: s.chips, IsIn: true, IsParticipated: true})
		t.State.GamePlayerIndexes = append(t.State.GamePlayerIndexes, i)
		t.State.NextBBOrderPlayerIDs = append(t.State.NextBBOrderPlayerIDs, s.id)
		gs.Players = append(gs.Players, &pokerface.PlayerState{Idx: i, Combination: &pokerface.CombinationInfo{}})
		gs.Result.Players = append(gs.Result.Players, &settlement.PlayerResult{Idx: i})
	}
	t.State.GameState = gs
	return t
}

func buy(ce pc.CompetitionEngine, id string, chips int64) error {
	return ce.PlayerBuyIn(pc.JoinPlayer{PlayerID: id, RedeemChips: chips, Unit: 1})
}

func player(c *pc.Competition, id string) *pc.CompetitionPlayer {
	for _, p := range c.State.Players {
		if p.PlayerID == id {
			return p
		}
	}
	return nil
}

const (
	created = pokertable.TableStateStatus_TableCreated
	playing = pokertable.TableStateStatus_TableGamePlaying
	settled = pokertable.TableStateStatus_TableGameSettled
	pausing = pokertable.TableStateStatus_TablePausing
)
