package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Violation struct {
	Harness, Kind, Label string
	Case                 *Case
	Replay               string
	Native               *Result
}

// Case and Result mirror the types of verif.local/sym.
type Case struct {
	Harness string           `json:"harness"`
	Tier    int              `json:"tier"`
	Vals    map[string]int64 `json:"vals"`
}

type Result struct {
	Log     []string `json:"log"`
	Fails   []string `json:"fails"`
	Panic   string   `json:"panic"`
	Stopped bool     `json:"stopped"`
	Missing []string `json:"missing"`
}

type Sample struct {
	c   *Case
	log []string
}

// Engine holds what the workers share.
type Engine struct {
	prog     *ssa.Program
	harness  map[string]*ssa.Function
	redirect map[string]*ssa.Function
	initPkgs []*ssa.Package

	mu         sync.Mutex
	z3         string
	timeoutMS  int
	maxSteps   int64
	tier       int
	noMerge    bool
	debugMerge bool
	sampleCap  int

	property string
	known    map[string]string // id -> description
	build    *Build
	binReady chan struct{}
	binErr   error
	verif    string

	cond     *sync.Cond
	queue    []*Task
	seen     map[string]bool
	active   int
	deadline time.Time

	notes      map[string]int
	cuts       map[string]int
	cutBounds  map[string]bool
	covered    map[*ssa.Function]bool
	wantL      map[string]bool
	reachL     map[string]bool
	assertL    map[string]int
	violations []*Violation
	tried      map[string]int
	spurious   map[string]int
	knownHit   map[string]*Violation
	samples    map[string][]*Sample
	sampleSeen map[string]int
	rng        *rand.Rand

	queries, sat, unsat, unknown int
	solverDur                    time.Duration
	solverErrs                   []string
	stopEarly                    bool
}

func newEngine() *Engine {
	e := &Engine{
		z3: envOr("SYMGO_Z3", "z3"), timeoutMS: 20000, maxSteps: 3_000_000, sampleCap: 24,
		seen: map[string]bool{}, notes: map[string]int{}, cuts: map[string]int{}, cutBounds: map[string]bool{},
		covered: map[*ssa.Function]bool{}, wantL: map[string]bool{}, reachL: map[string]bool{}, assertL: map[string]int{},
		tried: map[string]int{}, spurious: map[string]int{}, knownHit: map[string]*Violation{},
		samples: map[string][]*Sample{}, sampleSeen: map[string]int{}, rng: rand.New(rand.NewSource(1)), known: map[string]string{},
	}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Engine) absorbSolver(s *Solver) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.queries += s.queries
	e.sat += s.sat
	e.unsat += s.unsat
	e.unknown += s.unknown
	e.solverDur += s.dur
	e.solverErrs = append(e.solverErrs, s.errs...)
	s.queries, s.sat, s.unsat, s.unknown, s.dur, s.errs = 0, 0, 0, 0, 0, nil
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Engine) coverFn(fn *ssa.Function) {
	e.mu.Lock()
	e.covered[fn] = true
	e.mu.Unlock()
}

func (e *Engine) cut(t *Task, msg string, bound bool) {
	e.mu.Lock()
	k := t.harness + ": " + msg
	e.cuts[k]++
	e.cutBounds[k] = bound
	e.mu.Unlock()
}

func (e *Engine) needReach(h, l string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return !e.reachL[h+"/"+l]
}
func (e *Engine) reached(h, l string) {
	e.mu.Lock()
	e.reachL[h+"/"+l] = true
	e.mu.Unlock()
}
func (e *Engine) want(h, l string) {
	e.mu.Lock()
	e.wantL[h+"/"+l] = true
	e.mu.Unlock()
}
func (e *Engine) assertSeen(h, l string) {
	e.mu.Lock()
	e.assertL[h+"/"+l]++
	e.mu.Unlock()
}
func (e *Engine) isKnown(id string) bool { _, ok := e.known[id]; return ok }
func (e *Engine) knownSeen(id string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.knownHit[id] != nil
}

func (e *Engine) addTask(h string, prefix []int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := h + fmt.Sprint(prefix)
	if e.seen[k] {
		return
	}
	e.seen[k] = true
	e.queue = append(e.queue, &Task{harness: h, prefix: prefix})
	e.cond.Signal()
}

// nextTask blocks until work is available; nil when everything is finished.
func (e *Engine) nextTask() *Task {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopEarly || time.Now().After(e.deadline) {
			for _, t := range e.queue {
				k := t.harness + ": time budget"
				if !e.stopEarly {
					e.cuts[k]++
					e.cutBounds[k] = true
				}
			}
			e.queue = nil
		}
		if n := len(e.queue); n > 0 {
			t := e.queue[0]
			e.queue = e.queue[1:]
			e.active++
			return t
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) doneTask() {
	e.mu.Lock()
	e.active--
	e.cond.Broadcast()
	e.mu.Unlock()
}

// caseOf evaluates the inputs of a path under a model.
func (w *Worker) caseOf(st *State, m *Model) *Case {
	c := &Case{Harness: w.task.harness, Tier: w.eng.tier, Vals: map[string]int64{}}
	for q := st.vars; q != nil; q = q.parent {
		if q.v.isC() {
			c.Vals[q.name] = q.v.sval()
			if q.v.w == 0 {
				c.Vals[q.name] = int64(q.v.k)
			}
			continue
		}
		c.Vals[q.name] = int64(w.ts.Eval(q.v, m))
	}
	return c
}

func (w *Worker) logOf(st *State, m *Model) []string {
	var r []string
	for q := st.log; q != nil; q = q.parent {
		if q.kind != "obs" {
			continue
		}
		r = append(r, q.name+"="+w.evalStr(q.v, m))
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (w *Worker) evalStr(t *Term, m *Model) string {
	if t.w == wStr {
		switch t.op {
		case OStr:
			return t.s
		case OIte:
			if w.ts.Eval(t.a, m) == 1 {
				return w.evalStr(t.b, m)
			}
			return w.evalStr(t.c, m)
		}
		return "?"
	}
	v := w.ts.Eval(t, m)
	if t.w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprint(int64(v))
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// violation replays a counterexample natively; only a reproduced one is recorded.
func (e *Engine) violation(w *Worker, st *State, m *Model, kind, label string) {
	h := w.task.harness
	key := h + "/" + label
	e.mu.Lock()
	if e.tried[key] >= 12 {
		e.mu.Unlock()
		return
	}
	for _, v := range e.violations {
		if v.Harness == h && v.Label == label {
			e.mu.Unlock()
			return
		}
	}
	e.tried[key]++
	n := e.tried[key]
	e.mu.Unlock()
	c := w.caseOf(st, m)
	var r *Result
	ok := false
	for i := 0; i < 4 && !ok; i++ {
		rs, err := e.replay([]*Case{c})
		if err != nil {
			e.note("native replay: " + err.Error())
			continue
		}
		r = rs[0]
		switch kind {
		case "panic":
			ok = r.Panic != ""
		default:
			ok = has(r.Fails, label) || r.Panic != ""
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if !ok {
		e.spurious[key]++
		if n == 1 {
			txt := "?"
			if r != nil {
				txt = fmt.Sprintf("fails=%v panic=%q stopped=%v missing=%v", r.Fails, r.Panic, r.Stopped, r.Missing)
			}
			e.notes["counterexample not reproduced natively: "+key+" ("+txt+") case "+caseJSON(c)]++
		}
		return
	}
	v := &Violation{Harness: h, Kind: kind, Label: label, Case: c, Native: r}
	if kind == "known" {
		id := strings.TrimPrefix(label, "known:")
		if e.knownHit[id] == nil {
			e.knownHit[id] = v
		}
		return
	}
	e.violations = append(e.violations, v)
	if d := time.Now().Add(5 * time.Second); d.Before(e.deadline) && os.Getenv("SYMGO_ALL") == "" {
		e.deadline = d
		e.stopEarly = true
	}
}

// sample keeps models of finished paths for trace validation.
func (e *Engine) sample(w *Worker, st *State) {
	h := w.task.harness
	e.mu.Lock()
	e.sampleSeen[h]++
	k := e.sampleSeen[h]
	slot := -1
	if len(e.samples[h]) < e.sampleCap {
		slot = len(e.samples[h])
		e.samples[h] = append(e.samples[h], nil)
	} else if j := e.rng.Intn(k); j < e.sampleCap {
		slot = j
	}
	seed := e.rng.Int63()
	e.mu.Unlock()
	if slot < 0 {
		return
	}
	m := st.model
	if alt := w.diversify(st, rand.New(rand.NewSource(seed))); alt != nil {
		m = alt
	}
	s := &Sample{c: w.caseOf(st, m), log: w.logOf(st, m)}
	e.mu.Lock()
	e.samples[h][slot] = s
	full := len(e.samples[h]) < e.sampleCap
	e.mu.Unlock()
	// a merged path stands for many concrete ones: draw a few more models from it
	if full && st.merged > 0 {
		for i := 0; i < 4; i++ {
			alt := w.diversify(st, rand.New(rand.NewSource(seed+int64(i)+1)))
			if alt == nil {
				break
			}
			s := &Sample{c: w.caseOf(st, alt), log: w.logOf(st, alt)}
			e.mu.Lock()
			if len(e.samples[h]) < e.sampleCap {
				e.samples[h] = append(e.samples[h], s)
			}
			e.mu.Unlock()
		}
	}
}

// diversify asks for a model of the path with some inputs pinned to random values.
func (w *Worker) diversify(st *State, r *rand.Rand) *Model {
	var vs []*VarInfo
	for q := st.vars; q != nil; q = q.parent {
		if vi := w.ts.byN[q.v.s]; q.v.op == OVar && vi != nil {
			vs = append(vs, vi)
		}
	}
	if len(vs) == 0 {
		return nil
	}
	if time.Now().After(w.deadline) {
		return nil
	}
	r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	n := len(vs)
	if n > 10 {
		n = 10
	}
	for try := 0; try < 3 && n > 0; try++ {
		g := w.ts.T
		for _, v := range vs[:n] {
			if v.term.w == 0 {
				t := v.term
				if r.Intn(2) == 0 {
					t = w.ts.Not(t)
				}
				g = w.ts.And(g, t)
			} else {
				// low bits only, so that range assumptions rarely rule the choice out
				mask := w.ts.BV(3, v.term.w)
				g = w.ts.And(g, w.ts.Eq(w.ts.BAnd(v.term, mask), w.ts.BV(uint64(r.Intn(4)), v.term.w)))
			}
		}
		res, m := w.solver.Check(st.pc.list(), g)
		if res == Sat {
			return m
		}
		n /= 2
	}
	return nil
}

// ---- reporting ----

func (e *Engine) coveredFuncs() (repo []string, dep int, lines int) {
	for f := range e.covered {
		pos := e.prog.Fset.Position(f.Pos())
		if strings.HasPrefix(pos.Filename, e.build.repo+string(filepath.Separator)) {
			rel, _ := filepath.Rel(e.build.repo, pos.Filename)
			repo = append(repo, strings.TrimPrefix(f.String(), modPath)+" ("+rel+")")
			if s := f.Syntax(); s != nil {
				lines += e.prog.Fset.Position(s.End()).Line - e.prog.Fset.Position(s.Pos()).Line + 1
			}
		} else if strings.Contains(pos.Filename, "weedbox") {
			dep++
		}
	}
	sort.Strings(repo)
	return
}

// dumpCover writes which lines of the repository were executed (+) and which were not (-), for finding gaps.
func (e *Engine) dumpCover(file, repo string, ws []*Worker) {
	hit, all := map[string]bool{}, map[string]bool{}
	for fn := range ssautil.AllFunctions(e.prog) {
		if p := e.prog.Fset.Position(fn.Pos()); !strings.HasPrefix(p.Filename, repo+"/") {
			continue
		}
		for _, b := range fn.Blocks {
			seen := false
			for _, w := range ws {
				seen = seen || w != nil && (w.blocksSeen[b])
			}
			for _, in := range b.Instrs {
				if p := e.prog.Fset.Position(in.Pos()); p.IsValid() {
					rel, _ := filepath.Rel(repo, p.Filename)
					k := rel + ":" + strconv.Itoa(p.Line)
					all[k] = true
					hit[k] = hit[k] || seen
				}
			}
		}
	}
	var o []string
	for k := range all {
		o = append(o, map[bool]string{true: "+", false: "-"}[hit[k]]+k)
	}
	sort.Strings(o)
	_ = os.WriteFile(file, []byte(strings.Join(o, "\n")+"\n"), 0o644)
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
