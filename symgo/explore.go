package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type methKey struct {
	t types.Type
	m *types.Func
}

type Task struct {
	harness string
	prefix  []int
}

// Worker executes tasks symbolically; nothing in it is shared except eng.
type Worker struct {
	id     int
	ts     *TS
	solver *Solver
	eng    *Engine
	prog   *ssa.Program

	fns        map[*ssa.Function]*FnInfo
	fnames     map[*ssa.Function]string
	fvals      map[*ssa.Function]*FuncV
	consts     map[*ssa.Const]Value
	zeros      map[types.Type]Value
	globals    map[*ssa.Global]Ptr
	globalZero map[int32]Value
	initDone   map[string]bool
	zeroOK     map[string]bool
	meths      map[methKey]*ssa.Function
	nextObj    int32
	blocksSeen map[*ssa.BasicBlock]bool
	forked     forkInfo
	models     []*Model
	maxSteps   int64
	mapOrder   int

	curCall  *ssa.Call
	curCC    *ssa.CallCommon
	curDefer bool

	task *Task
	base *Heap // heap after package initialisation

	// statistics
	branches, modelHits, pruned int
	instrs                      int64
	paths, merges, mergeFail    int
	forks, tasks                int
	asserts, trivialAsserts     int
	deadline                    time.Time
}

func NewWorker(eng *Engine, id int) *Worker {
	w := &Worker{id: id, eng: eng, prog: eng.prog}
	w.reset()
	return w
}

// reset drops all terms and caches (used when a worker has grown too large).
func (w *Worker) reset() {
	if w.solver != nil {
		w.eng.absorbSolver(w.solver)
		w.solver.close()
	}
	w.ts = NewTS()
	w.solver = NewSolver(w.ts, w.eng.z3, w.eng.timeoutMS)
	w.fns = map[*ssa.Function]*FnInfo{}
	w.fnames = map[*ssa.Function]string{}
	w.fvals = map[*ssa.Function]*FuncV{}
	w.consts = map[*ssa.Const]Value{}
	w.zeros = map[types.Type]Value{}
	w.globals = map[*ssa.Global]Ptr{}
	w.globalZero = map[int32]Value{}
	w.initDone = map[string]bool{}
	w.zeroOK = map[string]bool{"time": true, "io": true, "sync": true, "os": true, "fmt": true, "math/rand": true, "unicode": true}
	w.meths = map[methKey]*ssa.Function{}
	w.nextObj = 0
	if w.blocksSeen == nil {
		w.blocksSeen = map[*ssa.BasicBlock]bool{}
	}
	w.models = nil
	w.maxSteps = w.eng.maxSteps
	w.runInits()
}

// runInits executes the initialisers of the selected packages concretely.
func (w *Worker) runInits() {
	w.task = &Task{harness: "init"}
	st := &State{heap: newHeap(), model: &Model{v: map[string]uint64{}}, owner: new(int)}
	for _, p := range w.eng.initPkgs {
		w.initDone[p.Pkg.Path()] = true
	}
	save := w.maxSteps
	w.maxSteps = 50_000_000
	for _, p := range w.eng.initPkgs {
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if p.Pkg.Path() != "errors" {
						w.eng.note(fmt.Sprintf("initialiser of %s incomplete: %v", p.Pkg.Path(), r))
					}
				}
			}()
			s := *st
			s.owner = new(int)
			s.heap = st.heap.fork()
			s.top = nil
			s.steps = 0
			w.push(&s, fn, nil, nil, nil, false)
			for s.top != nil {
				bottom := s.top.parent == nil
				if bottom {
					if _, ok := s.top.block.Instrs[s.top.pc].(*ssa.Return); ok {
						break
					}
				}
				if c := w.step(&s); c != cCont {
					panic(fmt.Sprintf("control %d", c))
				}
			}
			st.heap = s.heap
		}()
	}
	w.maxSteps = save
	w.instrs = 0
	w.base = st.heap
}

func (w *Worker) coverFn(fn *ssa.Function) {
	w.eng.coverFn(fn)
}

// ---- path exploration with merging ----

type stop struct {
	depth int
	block *ssa.BasicBlock
}

func (s *stop) hit(st *State) bool {
	f := st.top
	if f.depth < s.depth {
		return true
	}
	return s.block != nil && f.depth == s.depth && f.block == s.block && f.pc == f.fi.first[s.block.Index]
}

func (w *Worker) safeStep(st *State) (c ctl) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				w.cut(st, "unsupported: "+u.msg+" at "+w.where(st), false)
				c = cDead
				return
			}
			stack := string(debug.Stack())
			if i := strings.Index(stack, "panic("); i > 0 {
				stack = stack[i:]
			}
			if len(stack) > 1500 {
				stack = stack[:1500]
			}
			w.cut(st, fmt.Sprintf("internal: %v at %s\n%s", r, w.where(st), stack), false)
			c = cDead
		}
	}()
	return w.step(st)
}

func (w *Worker) run(st *State, s *stop) []*State {
	for {
		if s != nil && s.hit(st) {
			return []*State{st}
		}
		c := w.safeStep(st)
		switch c {
		case cCont:
			continue
		case cDead:
			return nil
		case cFork:
			fi := w.forked
			w.forked = forkInfo{}
			if time.Now().After(w.deadline) {
				for _, x := range fi.states {
					w.cut(x, "time budget", true)
				}
				return nil
			}
			var out []*State
			inner := &stop{depth: fi.depth, block: fi.fi.ipdom[fi.block.Index]}
			if s != nil && inner.depth < s.depth {
				inner = s
			}
			for _, x := range fi.states {
				if x.top == nil {
					continue
				}
				out = append(out, w.run(x, inner)...)
			}
			if len(out) == 0 {
				return nil
			}
			if !fi.nomrg && !w.eng.noMerge {
				out = w.mergeAll(out)
			}
			if len(out) == 1 {
				st = out[0]
				continue
			}
			var res []*State
			for _, x := range out {
				res = append(res, w.run(x, s)...)
			}
			return res
		default:
			panic("unexpected control")
		}
	}
}

func (w *Worker) mergeAll(in []*State) []*State {
	if len(in) == 1 {
		return in
	}
	var out []*State
	for _, x := range in {
		done := false
		tried := 0
		for i := len(out) - 1; i >= 0 && tried < 10; i-- {
			if out[i].top.depth != x.top.depth || out[i].top.block != x.top.block || out[i].top.pc != x.top.pc {
				continue
			}
			tried++
			if m := w.merge(out[i], x); m != nil {
				out[i] = m
				done = true
				w.merges++
				break
			}
			w.mergeFail++
		}
		if !done {
			out = append(out, x)
		}
	}
	return out
}

func (w *Worker) whyNot(st *State, f string, a ...interface{}) *State {
	if w.eng.debugMerge {
		w.eng.note("no merge at " + w.where(st) + ": " + fmt.Sprintf(f, a...))
	}
	return nil
}

// merge joins two states at the same control point into one guarded state.
func (w *Worker) merge(a, b *State) *State {
	if a.log != b.log {
		return w.whyNot(a, "logs differ")
	}
	for x, y := a.vars, b.vars; x != y; x, y = x.parent, y.parent {
		if x == nil || y == nil || x.name != y.name || x.v != y.v {
			return w.whyNot(a, "inputs differ")
		}
	}
	if a.panicv != b.panicv || a.nchoice != b.nchoice {
		return w.whyNot(a, "panic/choice")
	}
	if len(a.sym) != len(b.sym) {
		return w.whyNot(a, "symbol counters")
	}
	for k, v := range a.sym {
		if b.sym[k] != v {
			return w.whyNot(a, "symbol counter %s", k)
		}
	}
	// common prefix of the path conditions
	pa, pb := a.pc, b.pc
	na, nb := 0, 0
	if pa != nil {
		na = pa.n
	}
	if pb != nil {
		nb = pb.n
	}
	var sa, sb []*Term
	for na > nb {
		sa = append(sa, pa.t)
		pa = pa.parent
		na--
	}
	for nb > na {
		sb = append(sb, pb.t)
		pb = pb.parent
		nb--
	}
	for pa != pb {
		sa = append(sa, pa.t)
		sb = append(sb, pb.t)
		pa, pb = pa.parent, pb.parent
	}
	if len(sa) > 400 || len(sb) > 400 {
		return w.whyNot(a, "long suffix")
	}
	conj := func(s []*Term) *Term {
		r := w.ts.T
		for i := len(s) - 1; i >= 0; i-- {
			r = w.ts.And(r, s[i])
		}
		return r
	}
	ga, gb := conj(sa), conj(sb)
	if ga.isF() || gb.isF() {
		return w.whyNot(a, "false guard")
	}
	// frames
	top, ok := w.mergeFrames(ga, a.top, b.top, true, a)
	if !ok {
		return nil
	}
	heap, ok := w.mergeHeap(ga, a.heap, b.heap)
	if !ok {
		return w.whyNot(a, "heap")
	}
	n := *a
	n.owner = new(int)
	n.symOwned = false
	n.heap = &Heap{root: heap.root, depth: heap.depth, owner: new(int)}
	n.top = top
	n.pc = pa
	n.steps = a.steps
	if b.steps > n.steps {
		n.steps = b.steps
	}
	n.merged = a.merged + b.merged + 1
	(&n).assume(w.ts.Or(ga, gb))
	return &n
}

func (w *Worker) mergeFrames(g *Term, a, b *Frame, top bool, st *State) (*Frame, bool) {
	if a == b {
		return a, true
	}
	if a == nil || b == nil || a.fi != b.fi || a.block != b.block || a.pc != b.pc || a.depth != b.depth || a.unwind != b.unwind || a.isDefer != b.isDefer || a.dest != b.dest {
		w.whyNot(st, "frames")
		return nil, false
	}
	if a.defers != b.defers && !sameDefers(a.defers, b.defers) {
		w.whyNot(st, "defers")
		return nil, false
	}
	for i := range a.free {
		if !fastSame(a.free[i], b.free[i]) {
			w.whyNot(st, "free variables")
			return nil, false
		}
	}
	p, ok := w.mergeFrames(g, a.parent, b.parent, false, st)
	if !ok {
		return nil, false
	}
	n := *a
	n.parent = p
	n.owner = new(int)
	n.regs = make([]Value, len(a.regs))
	live := a.fi.liveAt(a.block, a.pc, !top)
	for i := range a.regs {
		if live[i/64]>>(uint(i)%64)&1 == 0 {
			continue
		}
		x, y := a.regs[i], b.regs[i]
		if x == nil || y == nil {
			if x == nil && y == nil {
				continue
			}
			w.whyNot(st, "register undefined on one side")
			return nil, false
		}
		if fastSame(x, y) {
			n.regs[i] = x
			continue
		}
		v, ok := w.mergeVal(g, x, y)
		if !ok {
			if w.eng.debugMerge {
				nm := ""
				for k, j := range a.fi.idx {
					if j == i {
						nm = k.Name() + " " + k.String()
					}
				}
				w.whyNot(st, "register %s: %s vs %s", nm, w.showVal(x), w.showVal(y))
			}
			return nil, false
		}
		n.regs[i] = v
	}
	return &n, true
}

func sameDefers(a, b *DeferNode) bool {
	for a != b {
		if a == nil || b == nil || len(a.args) != len(b.args) {
			return false
		}
		if !fastSame(a.fn, b.fn) {
			fa, ok1 := a.fn.(*FuncV)
			fb, ok2 := b.fn.(*FuncV)
			if !ok1 || !ok2 || fa == nil || fb == nil || fa.fn != fb.fn || len(fa.b) != len(fb.b) {
				return false
			}
			for i := range fa.b {
				if !fastSame(fa.b[i], fb.b[i]) {
					return false
				}
			}
		}
		for i := range a.args {
			if !fastSame(a.args[i], b.args[i]) {
				return false
			}
		}
		a, b = a.parent, b.parent
	}
	return true
}

// liveAt returns the registers live just before instruction pc of block b. For a caller
// frame (inCall) pc is a call in progress: its own result is not live and its operands
// have been consumed.
func (fi *FnInfo) liveAt(b *ssa.BasicBlock, pc int, inCall bool) []uint64 {
	if fi.livein == nil {
		fi.computeLive()
	}
	if !inCall && pc == fi.first[b.Index] {
		return fi.livein[b.Index]
	}
	words := (fi.n + 64) / 64
	cur := make([]uint64, words)
	set := func(v ssa.Value) {
		if k, ok := fi.idx[v]; ok {
			cur[k/64] |= 1 << (uint(k) % 64)
		}
	}
	clr := func(v ssa.Value) {
		if k, ok := fi.idx[v]; ok {
			cur[k/64] &^= 1 << (uint(k) % 64)
		}
	}
	for _, s := range b.Succs {
		tmp := append([]uint64(nil), fi.livein[s.Index]...)
		for i := 0; i < fi.first[s.Index]; i++ {
			k := fi.idx[s.Instrs[i].(*ssa.Phi)]
			tmp[k/64] &^= 1 << (uint(k) % 64)
		}
		for k := range cur {
			cur[k] |= tmp[k]
		}
	}
	for _, s := range b.Succs {
		for pi, p := range s.Preds {
			if p == b {
				for i := 0; i < fi.first[s.Index]; i++ {
					set(s.Instrs[i].(*ssa.Phi).Edges[pi])
				}
			}
		}
	}
	low := pc
	var ops []*ssa.Value
	for k := len(b.Instrs) - 1; k >= low; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			clr(v)
		}
		if inCall && k == low {
			if _, isRD := in.(*ssa.RunDefers); !isRD {
				break
			}
		}
		ops = in.Operands(ops[:0])
		for _, op := range ops {
			if *op != nil {
				set(*op)
			}
		}
	}
	return cur
}

// ---- path ends and assertions ----

func (w *Worker) cut(st *State, msg string, bound bool) {
	w.eng.cut(w.task, msg, bound)
}

func (w *Worker) finish(st *State) ctl {
	w.paths++
	if st.panicv != nil && !st.panicv.recovered {
		w.eng.violation(w, st, st.model, "panic", "uncaught panic: "+st.panicv.msg+" at "+st.panicv.where)
		return cDead
	}
	w.eng.sample(w, st)
	return cDead
}

func (w *Worker) assert(st *State, cond *Term, label string) (Value, ctl) {
	w.asserts++
	w.eng.assertSeen(w.task.harness, label)
	if cond.isT() {
		w.trivialAsserts++
		return Tuple{}, cRet
	}
	for q := st.pc; q != nil; q = q.parent {
		if q.t == cond {
			return Tuple{}, cRet
		}
	}
	neg := w.ts.Not(cond)
	var bad *Model
	if w.ts.Eval(cond, st.model) == 0 {
		bad = st.model
	} else {
		res, m := w.solver.Check(st.pc.list(), neg)
		switch res {
		case Unsat:
			return Tuple{}, cRet
		case Unknown:
			w.cut(st, "solver unknown on assertion "+label, false)
			st.assume(cond)
			return Tuple{}, cRet
		}
		bad = m
		w.addModel(m)
	}
	w.eng.violation(w, st, bad, "assert", label)
	if !w.addAssume(st, cond) {
		return nil, cDead
	}
	return Tuple{}, cRet
}

func (w *Worker) runTask(t *Task) {
	if w.ts.n > 1_500_000 {
		w.reset()
	}
	w.task = t
	w.tasks++
	fn := w.eng.harness[t.harness]
	st := &State{heap: w.base.fork(), model: &Model{v: map[string]uint64{}}, owner: new(int)}
	w.push(st, fn, nil, nil, nil, false)
	t0, q0, p0, d0 := time.Now(), w.solver.queries, w.paths, w.solver.dur
	w.run(st, nil)
	if d := time.Since(t0); d > 5*time.Second && os.Getenv("SYMGO_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "task %s %v: %.1fs (solver %.1fs) %d queries %d paths\n", t.harness, t.prefix, d.Seconds(), (w.solver.dur - d0).Seconds(), w.solver.queries-q0, w.paths-p0)
	}
}

func typeString(t types.Type) string { return types.TypeString(t, nil) }
