package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type PCNode struct {
	parent *PCNode
	t      *Term
	n      int
}

func (p *PCNode) list() []*Term {
	if p == nil {
		return nil
	}
	r := make([]*Term, p.n)
	for q := p; q != nil; q = q.parent {
		r[q.n-1] = q.t
	}
	return r
}

type LogNode struct {
	parent *LogNode
	kind   string // observe, reach, note
	name   string
	v      *Term // may be nil
	n      int
}

type DeferNode struct {
	parent *DeferNode
	fn     Value
	args   []Value
	invoke *types.Func
	n      int
}

type PanicInfo struct {
	val       Value
	msg       string
	recovered bool
	where     string
}

type Frame struct {
	fi      *FnInfo
	regs    []Value
	free    []Value
	block   *ssa.BasicBlock
	pc      int
	defers  *DeferNode
	parent  *Frame
	owner   *int
	depth   int
	isDefer bool // called by RunDefers / panic unwinding
	// what to do on return
	dest   ssa.Value // register in parent receiving the result (nil: none)
	unwind bool      // frame is unwinding because of a panic
}

type State struct {
	heap     *Heap
	top      *Frame
	pc       *PCNode
	model    *Model
	sym      map[string]int
	symOwned bool
	log      *LogNode
	panicv   *PanicInfo
	steps    int64
	nchoice  int
	vars     *LogNode // variables created on this path (name)
	owner    *int
	merged   int
}

func (st *State) fork() *State {
	n := *st
	n.heap = st.heap.fork()
	st.owner = new(int)
	n.owner = new(int)
	st.symOwned = false
	n.symOwned = false
	return &n
}

// own makes the top frame writable.
func (st *State) own() *Frame {
	f := st.top
	if f.owner == st.owner {
		return f
	}
	g := *f
	g.regs = append([]Value(nil), f.regs...)
	g.owner = st.owner
	st.top = &g
	return &g
}

func (st *State) symIdx(name string) int {
	if !st.symOwned {
		m := make(map[string]int, len(st.sym)+1)
		for k, v := range st.sym {
			m[k] = v
		}
		st.sym = m
		st.symOwned = true
	}
	k := st.sym[name]
	st.sym[name] = k + 1
	return k
}

func (st *State) assume(t *Term) {
	if t.isT() {
		return
	}
	if t.op == OAnd {
		st.assume(t.a)
		st.assume(t.b)
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	for q := st.pc; q != nil; q = q.parent {
		if q.t == t {
			return
		}
	}
	st.pc = &PCNode{st.pc, t, n}
}

// ---- function info ----

type FnInfo struct {
	fn     *ssa.Function
	idx    map[ssa.Value]int
	n      int
	ipdom  []*ssa.BasicBlock // by block index; nil: exit
	first  []int             // first non-phi instruction
	livein map[int][]uint64  // live registers after the phis of a block
	name   string
}

func (w *Worker) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.first = make([]int, len(fn.Blocks))
	for i, b := range fn.Blocks {
		k := 0
		for k < len(b.Instrs) {
			if _, ok := b.Instrs[k].(*ssa.Phi); !ok {
				break
			}
			k++
		}
		fi.first[i] = k
	}
	fi.computePdom()
	w.fns[fn] = fi
	w.coverFn(fn)
	return fi
}

func (fi *FnInfo) computePdom() {
	bs := fi.fn.Blocks
	n := len(bs)
	fi.ipdom = make([]*ssa.BasicBlock, n)
	if n == 0 {
		return
	}
	// post-dominator sets over blocks that can reach a return; panics ignored
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n)
	reach := make([]bool, n)
	isRet := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if reach[i] {
				continue
			}
			r := isRet(bs[i])
			for _, s := range bs[i].Succs {
				r = r || reach[s.Index]
			}
			if r {
				reach[i] = true
				ch = true
			}
		}
	}
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
		if isRet(bs[i]) {
			pd[i] = make([]uint64, words)
			pd[i][i/64] |= 1 << (i % 64)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !reach[i] || isRet(bs[i]) {
				continue
			}
			acc := append([]uint64(nil), full...)
			for _, s := range bs[i].Succs {
				if reach[s.Index] {
					for k := range acc {
						acc[k] &= pd[s.Index][k]
					}
				}
			}
			acc[i/64] |= 1 << (i % 64)
			for k := range acc {
				if acc[k] != pd[i][k] {
					pd[i] = acc
					ch = true
					break
				}
			}
		}
	}
	count := func(s []uint64) int {
		c := 0
		for i := 0; i < n; i++ {
			if s[i/64]>>(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	for i := range bs {
		if !reach[i] {
			continue
		}
		// the immediate post-dominator is the strict one with the most post-dominators
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && reach[j] && pd[i][j/64]>>(j%64)&1 == 1 {
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			fi.ipdom[i] = bs[best]
		}
	}
}

// liveAfterPhis returns the registers live at the first non-phi instruction of b.
func (fi *FnInfo) liveAfterPhis(b *ssa.BasicBlock) []uint64 {
	if fi.livein == nil {
		fi.computeLive()
	}
	return fi.livein[b.Index]
}

func (fi *FnInfo) computeLive() {
	bs := fi.fn.Blocks
	words := (fi.n + 64) / 64
	in := make([][]uint64, len(bs))   // live before phis excluding phi uses
	post := make([][]uint64, len(bs)) // live after phis
	out := make([][]uint64, len(bs))
	for i := range bs {
		in[i] = make([]uint64, words)
		post[i] = make([]uint64, words)
		out[i] = make([]uint64, words)
	}
	set := func(s []uint64, v ssa.Value) {
		if k, ok := fi.idx[v]; ok {
			s[k/64] |= 1 << (k % 64)
		}
	}
	clr := func(s []uint64, v ssa.Value) {
		if k, ok := fi.idx[v]; ok {
			s[k/64] &^= 1 << (k % 64)
		}
	}
	var ops []*ssa.Value
	for ch := true; ch; {
		ch = false
		for i := len(bs) - 1; i >= 0; i-- {
			b := bs[i]
			o := make([]uint64, words)
			for _, s := range b.Succs {
				for k := range o {
					o[k] |= in[s.Index][k]
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						for _, ins := range s.Instrs {
							ph, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							set(o, ph.Edges[pi])
						}
					}
				}
			}
			cur := append([]uint64(nil), o...)
			k := len(b.Instrs) - 1
			for ; k >= fi.first[i]; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					clr(cur, v)
				}
				ops = ins.Operands(ops[:0])
				for _, op := range ops {
					if *op != nil {
						set(cur, *op)
					}
				}
			}
			post[i] = append([]uint64(nil), cur...)
			for ; k >= 0; k-- {
				clr(cur, b.Instrs[k].(*ssa.Phi))
			}
			for q := range cur {
				if cur[q] != in[i][q] || o[q] != out[i][q] {
					ch = true
				}
			}
			in[i], out[i] = cur, o
		}
	}
	fi.livein = map[int][]uint64{}
	for i := range bs {
		fi.livein[i] = post[i]
	}
}
