package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ctl int

const (
	cCont ctl = iota // keep stepping
	cDead            // path ended (finished, pruned or cut)
	cFork            // w.forked holds the successor states
)

type forkInfo struct {
	states []*State
	depth  int
	block  *ssa.BasicBlock // block in which the fork happened
	fi     *FnInfo
	pc     *PCNode // common path condition
	nomrg  bool
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if v, ok := w.consts[c]; ok {
		return v
	}
	var v Value
	if c.Value == nil {
		v = w.zero(c.Type())
	} else {
		t := c.Type()
		switch c.Value.Kind() {
		case constant.Bool:
			v = w.ts.Bool(constant.BoolVal(c.Value))
		case constant.String:
			v = w.ts.Str(constant.StringVal(c.Value))
		default:
			if isFloat(t) {
				f, _ := constant.Float64Val(constant.ToFloat(c.Value))
				v = FloatV(f)
			} else if wd, _, ok := intInfo(t); ok {
				ci := constant.ToInt(c.Value)
				if i, ok := constant.Int64Val(ci); ok {
					v = w.ts.BV(uint64(i), wd)
				} else {
					u, _ := constant.Uint64Val(ci)
					v = w.ts.BV(u, wd)
				}
			} else if isString(t) {
				i, _ := constant.Int64Val(c.Value)
				v = w.ts.Str(string(rune(i)))
			} else {
				unsup("constant %s of type %s", c, t)
			}
		}
	}
	w.consts[c] = v
	return v
}

func (w *Worker) get(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return w.constVal(x)
	case *ssa.Global:
		return w.globalPtr(st, x)
	case *ssa.Function:
		return w.fnVal(x)
	case *ssa.Builtin:
		return &FuncV{bi: x}
	case *ssa.FreeVar:
		for i, fv := range st.top.fi.fn.FreeVars {
			if fv == x {
				return st.top.free[i]
			}
		}
	}
	f := st.top
	i, ok := f.fi.idx[v]
	if !ok {
		unsup("no register for %s in %s", v, f.fi.name)
	}
	r := f.regs[i]
	if r == nil {
		unsup("read of undefined register %s (%s) in %s", v.Name(), v, f.fi.name)
	}
	return r
}

func (w *Worker) fnVal(f *ssa.Function) *FuncV {
	if v, ok := w.fvals[f]; ok {
		return v
	}
	v := &FuncV{fn: f}
	w.fvals[f] = v
	return v
}

func (w *Worker) setReg(st *State, v ssa.Value, x Value) {
	f := st.own()
	f.regs[f.fi.idx[v]] = x
}

func (w *Worker) globalPtr(st *State, g *ssa.Global) Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	pkg := g.Pkg.Pkg.Path()
	if w.initDone[pkg] {
		// allocate on first use: value zero (initialised by init when it ran)
	} else if !w.zeroOK[pkg] {
		unsup("global %s of uninitialised package %s", g.Name(), pkg)
	}
	w.nextObj++
	p := Ptr{obj: w.nextObj}
	w.globals[g] = p
	w.globalZero[p.obj] = w.zero(g.Type().(*types.Pointer).Elem())
	return p
}

func (w *Worker) alloc(st *State, v Value) Ptr {
	w.nextObj++
	st.heap.set(w.nextObj, v)
	return Ptr{obj: w.nextObj}
}

func (w *Worker) objVal(st *State, id int32) Value {
	v := st.heap.get(id)
	if v == nil {
		if z, ok := w.globalZero[id]; ok {
			return z
		}
		panic(fmt.Sprintf("dangling object %d", id))
	}
	return v
}

func (w *Worker) load(st *State, p Ptr) Value {
	v := w.objVal(st, p.obj)
	for i := 0; i+1 < len(p.path); i += 2 {
		k := int(p.path[i])<<8 | int(p.path[i+1])
		a, ok := v.(*Agg)
		if !ok {
			unsup("load through %T", v)
		}
		v = a.v[k]
	}
	return v
}

func (w *Worker) store(st *State, p Ptr, x Value) {
	if p.path == "" {
		st.heap.set(p.obj, x)
		return
	}
	st.heap.set(p.obj, storeIn(w.objVal(st, p.obj), p.path, x))
}

func storeIn(v Value, path string, x Value) Value {
	if path == "" {
		return x
	}
	k := int(path[0])<<8 | int(path[1])
	a, ok := v.(*Agg)
	if !ok {
		unsup("store through %T", v)
	}
	n := make([]Value, len(a.v))
	copy(n, a.v)
	n[k] = storeIn(a.v[k], path[2:], x)
	return &Agg{v: n}
}

// ---- control ----

func (w *Worker) jump(st *State, to *ssa.BasicBlock) {
	f := st.own()
	from := f.block
	k := w.fnFirst(f.fi, to)
	if k > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		vals := make([]Value, k)
		for i := 0; i < k; i++ {
			vals[i] = w.get(st, to.Instrs[i].(*ssa.Phi).Edges[pi])
		}
		for i := 0; i < k; i++ {
			f.regs[f.fi.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
		}
	}
	f.block = to
	f.pc = k
	w.blocksSeen[to] = true
}

func (w *Worker) fnFirst(fi *FnInfo, b *ssa.BasicBlock) int { return fi.first[b.Index] }

// fork splits st on cond; it returns the two feasible states (nil when infeasible).
func (w *Worker) split(st *State, cond *Term) (tr, fa *State) {
	if cond.isT() {
		return st, nil
	}
	if cond.isF() {
		return nil, st
	}
	neg := w.ts.Not(cond)
	for q := st.pc; q != nil; q = q.parent {
		if q.t == cond {
			return st, nil
		}
		if q.t == neg {
			return nil, st
		}
	}
	w.branches++
	mv := w.ts.Eval(cond, st.model) == 1
	other := cond
	if mv {
		other = neg
	}
	if m := w.tryModels(st, other); m != nil {
		w.modelHits++
		return w.splitStates(st, cond, neg, mv, m)
	}
	res, m := w.solver.Check(st.pc.list(), other)
	switch res {
	case Unsat:
		if mv {
			return st, nil
		}
		return nil, st
	case Unknown:
		w.cut(st, "solver unknown at branch", false)
		if mv {
			st.assume(cond)
			return st, nil
		}
		st.assume(neg)
		return nil, st
	}
	w.addModel(m)
	return w.splitStates(st, cond, neg, mv, m)
}

func (w *Worker) splitStates(st *State, cond, neg *Term, mv bool, m *Model) (tr, fa *State) {
	n := st.fork()
	w.forks++
	if mv {
		n.model = m
		n.assume(neg)
		st.assume(cond)
		return st, n
	}
	n.model = m
	n.assume(cond)
	st.assume(neg)
	return n, st
}

// tryModels looks for a recently seen model that satisfies pc ∧ t.
func (w *Worker) tryModels(st *State, t *Term) *Model {
	for i := len(w.models) - 1; i >= 0; i-- {
		m := w.models[i]
		w.ts.gen++
		if w.ts.eval(t, m) != 1 {
			continue
		}
		ok := true
		for q := st.pc; q != nil; q = q.parent {
			if w.ts.eval(q.t, m) != 1 {
				ok = false
				break
			}
		}
		if ok {
			return m
		}
	}
	return nil
}

func (w *Worker) addModel(m *Model) {
	w.models = append(w.models, m)
	if len(w.models) > 12 {
		w.models = w.models[1:]
	}
}

// must reports whether cond holds on every input of the path.
func (w *Worker) addAssume(st *State, cond *Term) bool {
	if cond.isT() {
		return true
	}
	if cond.isF() {
		return false
	}
	if w.ts.Eval(cond, st.model) == 1 {
		st.assume(cond)
		return true
	}
	if m := w.tryModels(st, cond); m != nil {
		st.model = m
		st.assume(cond)
		return true
	}
	res, m := w.solver.Check(st.pc.list(), cond)
	if res == Sat {
		w.addModel(m)
		st.model = m
		st.assume(cond)
		return true
	}
	if res == Unknown {
		w.cut(st, "solver unknown at assume", false)
	}
	return false
}

func (w *Worker) mkFork(st *State, a, b *State) ctl {
	f := st.top
	w.forked = forkInfo{states: []*State{a, b}, depth: f.depth, block: f.block, fi: f.fi, pc: nil}
	return cFork
}

// branchOn forks at the current instruction: the states get cond / ¬cond assumed and
// then the callbacks applied. Both re-execute or continue as the callbacks arrange.
func (w *Worker) branchOn(st *State, cond *Term, onT, onF func(*State) ctl) ctl {
	base := st.pc
	fr := st.top
	tr, fa := w.split(st, cond)
	if fa == nil {
		return onT(tr)
	}
	if tr == nil {
		return onF(fa)
	}
	info := forkInfo{depth: fr.depth, block: fr.block, fi: fr.fi, pc: base}
	c1 := onT(tr)
	if c1 == cFork {
		panic("nested fork")
	}
	if c1 == cCont {
		info.states = append(info.states, tr)
	}
	c2 := onF(fa)
	if c2 == cFork {
		panic("nested fork")
	}
	if c2 == cCont {
		info.states = append(info.states, fa)
	}
	if len(info.states) == 0 {
		return cDead
	}
	w.forked = info
	return cFork
}

func again(*State) ctl { return cCont }

// needConst makes sure operand v holds a constant integer; ok=false means the state was
// forked (w.forked set) or ended and the instruction must not proceed.
func (w *Worker) needConst(st *State, t *Term, set func(*State, *Term)) (int64, bool, ctl) {
	if t.op == OConst {
		return t.sval(), true, cCont
	}
	k := w.ts.BV(w.ts.Eval(t, st.model), t.w)
	c := w.branchOn(st, w.ts.Eq(t, k), func(s *State) ctl { set(s, k); return cCont }, again)
	return 0, false, c
}

// regConst concretises the register holding v.
func (w *Worker) regConst(st *State, v ssa.Value) (int64, bool, ctl) {
	t := w.get(st, v).(*Term)
	return w.needConst(st, t, func(s *State, k *Term) { w.setReg(s, v, k) })
}

// ---- panics ----

func (w *Worker) goPanic(st *State, msg string) ctl {
	v := Iface{t: types.Typ[types.String], v: w.ts.Str("runtime error: " + msg)}
	return w.startPanic(st, v, "runtime error: "+msg)
}

func (w *Worker) startPanic(st *State, v Value, msg string) ctl {
	st.panicv = &PanicInfo{val: v, msg: msg, where: w.where(st)}
	st.own().unwind = true
	return w.unwind(st)
}

func (w *Worker) where(st *State) string {
	s := ""
	n := 0
	for f := st.top; f != nil && n < 6; f = f.parent {
		pos := token.NoPos
		for i := f.pc; i >= 0 && pos == token.NoPos; i-- {
			if i < len(f.block.Instrs) {
				pos = f.block.Instrs[i].Pos()
			}
		}
		if n > 0 {
			s += " < "
		}
		p := w.prog.Fset.Position(pos)
		s += fmt.Sprintf("%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
		n++
	}
	return s
}

func (w *Worker) unwind(st *State) ctl {
	for {
		f := st.top
		if f == nil {
			return w.finish(st)
		}
		if st.panicv != nil && !st.panicv.recovered {
			if f.defers != nil {
				g := st.own()
				g.unwind = true
				d := g.defers
				g.defers = d.parent
				return w.callDeferred(st, d)
			}
			if f.parent == nil {
				st.top = nil
				return w.finish(st)
			}
			// pop the frame
			st.top = f.parent
			st.own().unwind = true
			if f.isDefer {
				// a deferred call panicked: its parent keeps unwinding with the new panic
			}
			continue
		}
		return cCont
	}
}

func (w *Worker) callDeferred(st *State, d *DeferNode) ctl {
	return w.callValue(st, d.fn, d.args, nil, true)
}

// ---- stepping ----

func (w *Worker) step(st *State) ctl {
	f := st.top
	st.steps++
	w.instrs++
	if st.steps > w.maxSteps {
		w.cut(st, "instruction bound", true)
		return cDead
	}
	in := f.block.Instrs[f.pc]
	switch x := in.(type) {
	case *ssa.DebugRef:
		st.own().pc++
		return cCont
	case *ssa.Alloc:
		p := w.alloc(st, w.zero(x.Type().(*types.Pointer).Elem()))
		return w.next(st, x, p)
	case *ssa.Phi:
		panic("phi reached")
	case *ssa.BinOp:
		return w.binop(st, x)
	case *ssa.UnOp:
		return w.unop(st, x)
	case *ssa.ChangeInterface:
		return w.next(st, x, w.get(st, x.X))
	case *ssa.ChangeType:
		return w.next(st, x, w.get(st, x.X))
	case *ssa.Convert:
		return w.next(st, x, w.convert(st, w.get(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return w.next(st, x, w.convert(st, w.get(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		return w.next(st, x, Iface{t: x.X.Type(), v: w.get(st, x.X)})
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.b = append(fv.b, w.get(st, b))
		}
		return w.next(st, x, fv)
	case *ssa.MakeMap:
		p := w.alloc(st, &MapObj{})
		return w.next(st, x, MapV{p.obj})
	case *ssa.MakeChan:
		p := w.alloc(st, &Agg{v: []Value{w.ts.F}}) // closed?, queued values...
		return w.next(st, x, ChanV{p.obj})
	case *ssa.MakeSlice:
		n, ok, c := w.regConst(st, x.Len)
		if !ok {
			return c
		}
		cp, ok, c := w.regConst(st, x.Cap)
		if !ok {
			return c
		}
		if n < 0 || cp < n || cp > 1<<20 {
			return w.goPanic(st, "makeslice: len out of range")
		}
		et := under(x.Type()).(*types.Slice).Elem()
		return w.next(st, x, w.mkSlice(st, w.zeros0(et, int(cp)), int(n)))
	case *ssa.FieldAddr:
		p, ok := w.get(st, x.X).(Ptr)
		if !ok {
			unsup("fieldaddr of %T", w.get(st, x.X))
		}
		if p.obj == 0 {
			return w.goPanic(st, "invalid memory address or nil pointer dereference")
		}
		return w.next(st, x, Ptr{p.obj, pathAdd(p.path, x.Field)})
	case *ssa.Field:
		return w.next(st, x, w.get(st, x.X).(*Agg).v[x.Field])
	case *ssa.IndexAddr:
		return w.indexAddr(st, x)
	case *ssa.Index:
		return w.index(st, x)
	case *ssa.Lookup:
		return w.lookup(st, x)
	case *ssa.MapUpdate:
		return w.mapUpdate(st, x)
	case *ssa.Slice:
		return w.slice(st, x)
	case *ssa.TypeAssert:
		return w.typeAssert(st, x)
	case *ssa.Extract:
		return w.next(st, x, w.get(st, x.Tuple).(Tuple)[x.Index])
	case *ssa.Range:
		v := w.get(st, x.X)
		it := &IterObj{}
		switch m := v.(type) {
		case MapV:
			it.mp = m.obj
			if m.obj != 0 {
				it.keys = w.objVal(st, m.obj).(*MapObj).e
				if w.mapOrder == 1 {
					r := make([]MapEntry, len(it.keys))
					for i, e := range it.keys {
						r[len(r)-1-i] = e
					}
					it.keys = r
				}
			}
		case *Term:
			if m.op != OStr {
				unsup("range over symbolic string")
			}
			it.isS = true
			for i, r := range m.s {
				it.str = append(it.str, r)
				it.offs = append(it.offs, i)
			}
		default:
			unsup("range over %T", v)
		}
		return w.next(st, x, w.alloc(st, it))
	case *ssa.Next:
		p := w.get(st, x.Iter).(Ptr)
		it := *(w.objVal(st, p.obj).(*IterObj))
		tt := x.Type().(*types.Tuple)
		if it.isS {
			if it.i >= len(it.str) {
				return w.next(st, x, Tuple{w.ts.F, w.ts.Int(0), w.ts.BV(0, 32)})
			}
			r := Tuple{w.ts.T, w.ts.Int(int64(it.offs[it.i])), w.ts.BV(uint64(it.str[it.i]), 32)}
			it.i++
			st.heap.set(p.obj, &it)
			return w.next(st, x, r)
		}
		zero := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return w.ts.F
			}
			return w.zero(tt.At(i).Type())
		}
		for it.i < len(it.keys) {
			k := it.keys[it.i].k
			it.i++
			for _, e := range w.objVal(st, it.mp).(*MapObj).e {
				if sameKey(e.k, k) {
					st.heap.set(p.obj, &it)
					return w.next(st, x, Tuple{w.ts.T, k, e.v})
				}
			}
		}
		st.heap.set(p.obj, &it)
		return w.next(st, x, Tuple{w.ts.F, zero(1), zero(2)})
	case *ssa.Store:
		p, ok := w.get(st, x.Addr).(Ptr)
		if !ok {
			unsup("store to %T", w.get(st, x.Addr))
		}
		if p.obj == 0 {
			return w.goPanic(st, "invalid memory address or nil pointer dereference")
		}
		w.store(st, p, w.get(st, x.Val))
		st.own().pc++
		return cCont
	case *ssa.If:
		cond := w.get(st, x.Cond).(*Term)
		b := f.block
		if cond.isT() {
			w.jump(st, b.Succs[0])
			return cCont
		}
		if cond.isF() {
			w.jump(st, b.Succs[1])
			return cCont
		}
		return w.branchOn(st, cond,
			func(s *State) ctl { w.jump(s, b.Succs[0]); return cCont },
			func(s *State) ctl { w.jump(s, b.Succs[1]); return cCont })
	case *ssa.Jump:
		w.jump(st, f.block.Succs[0])
		return cCont
	case *ssa.Return:
		var rv Value
		switch len(x.Results) {
		case 0:
			rv = Tuple{}
		case 1:
			rv = w.get(st, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = w.get(st, r)
			}
			rv = t
		}
		return w.ret(st, rv)
	case *ssa.RunDefers:
		if f.defers == nil {
			st.own().pc++
			return cCont
		}
		g := st.own()
		d := g.defers
		g.defers = d.parent
		return w.callDeferred(st, d)
	case *ssa.Panic:
		v := w.get(st, x.X)
		return w.startPanic(st, v, "panic: "+w.showVal(v))
	case *ssa.Call:
		return w.call(st, &x.Call, x)
	case *ssa.Defer:
		fn, args, c, ok := w.callee(st, &x.Call)
		if !ok {
			return c
		}
		g := st.own()
		g.defers = &DeferNode{parent: g.defers, fn: fn, args: args}
		g.pc++
		return cCont
	case *ssa.Go:
		unsup("go statement in %s", f.fi.name)
	case *ssa.Send:
		unsup("channel operation in %s", f.fi.name)
	case *ssa.Select:
		return w.selectStmt(st, x)
	default:
		unsup("instruction %T", in)
	}
	return cDead
}

func (w *Worker) next(st *State, v ssa.Value, x Value) ctl {
	f := st.own()
	f.regs[f.fi.idx[v]] = x
	f.pc++
	return cCont
}

func (w *Worker) ret(st *State, rv Value) ctl {
	f := st.top
	st.top = f.parent
	if f.parent == nil {
		return w.finish(st)
	}
	if f.isDefer {
		if f.parent.unwind {
			if st.panicv != nil && st.panicv.recovered {
				// recovered: parent returns normally through its recover block
				st.panicv = nil
				p := st.own()
				p.unwind = false
				if rb := p.fi.fn.Recover; rb != nil {
					// remaining defers run from the recover block's RunDefers
					p.block = rb
					p.pc = p.fi.first[rb.Index]
					return cCont
				}
				for p.defers != nil {
					unsup("recover with pending defers and no recover block")
				}
				return w.ret(st, w.zero(p.fi.fn.Signature.Results()))
			}
			return w.unwind(st)
		}
		return cCont // RunDefers re-executes
	}
	p := st.own()
	if f.dest != nil {
		p.regs[p.fi.idx[f.dest]] = rv
	}
	p.pc++
	return cCont
}

func (w *Worker) push(st *State, fn *ssa.Function, args, free []Value, dest ssa.Value, isDefer bool) ctl {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn)
	}
	fi := w.fnInfo(fn)
	d := 1
	if st.top != nil {
		d = st.top.depth + 1
	}
	if d > 300 {
		w.cut(st, "call depth bound", true)
		return cDead
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.n), free: free, block: fn.Blocks[0], parent: st.top, owner: st.owner, depth: d, dest: dest, isDefer: isDefer}
	if len(args) != len(fn.Params) {
		unsup("argument count for %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	copy(f.regs, args)
	st.top = f
	w.blocksSeen[f.block] = true
	return cCont
}

// callee evaluates the function value and arguments of a call.
func (w *Worker) callee(st *State, c *ssa.CallCommon) (Value, []Value, ctl, bool) {
	var args []Value
	if c.IsInvoke() {
		iv := w.get(st, c.Value)
		i, ok := iv.(Iface)
		if !ok {
			unsup("invoke on %T", iv)
		}
		if i.t == nil {
			return nil, nil, w.goPanic(st, "invalid memory address or nil pointer dereference (method call on nil interface)"), false
		}
		fn := w.lookupMethod(i.t, c.Method)
		if fn == nil {
			unsup("method %s of %s", c.Method, i.t)
		}
		args = append(args, i.v)
		for _, a := range c.Args {
			args = append(args, w.get(st, a))
		}
		return w.fnVal(fn), args, cCont, true
	}
	fv := w.get(st, c.Value)
	for _, a := range c.Args {
		args = append(args, w.get(st, a))
	}
	return fv, args, cCont, true
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	key := methKey{t, m}
	if f, ok := w.meths[key]; ok {
		return f
	}
	w.eng.mu.Lock()
	f := w.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.eng.mu.Unlock()
	w.meths[key] = f
	return f
}

func (w *Worker) call(st *State, c *ssa.CallCommon, dest *ssa.Call) ctl {
	fv, args, ct, ok := w.callee(st, c)
	if !ok {
		return ct
	}
	return w.callValueC(st, fv, args, dest, false, c)
}

func (w *Worker) callValue(st *State, fv Value, args []Value, dest *ssa.Call, isDefer bool) ctl {
	return w.callValueC(st, fv, args, dest, isDefer, nil)
}

func (w *Worker) callValueC(st *State, fv Value, args []Value, dest *ssa.Call, isDefer bool, c *ssa.CallCommon) ctl {
	f, ok := fv.(*FuncV)
	if !ok {
		unsup("call of %T", fv)
	}
	if f == nil {
		return w.goPanic(st, "call of nil function")
	}
	if f.bi != nil {
		return w.builtin(st, f.bi, args, dest, isDefer, c)
	}
	fn := f.fn
	if fn.Synthetic == "package initializer" {
		return w.retIntr(st, Tuple{}, dest, isDefer)
	}
	name := w.fname(fn)
	if r := w.eng.redirect[name]; r != nil {
		fn = r
	} else if h, ok := intrinsics[name]; ok {
		w.curCall = dest
		w.curCC = c
		w.curDefer = isDefer
		rv, ct := h(w, st, args)
		if ct == cRet {
			return w.retIntr(st, rv, dest, isDefer)
		}
		return ct
	}
	var dv ssa.Value
	if dest != nil {
		dv = dest
	}
	return w.push(st, fn, args, f.b, dv, isDefer)
}

const cRet ctl = 100

// retIntr completes an intrinsic or builtin call.
func (w *Worker) retIntr(st *State, rv Value, dest *ssa.Call, isDefer bool) ctl {
	if isDefer {
		if st.top.unwind {
			return w.unwind(st)
		}
		return cCont
	}
	f := st.own()
	if dest != nil && rv != nil {
		f.regs[f.fi.idx[dest]] = rv
	}
	f.pc++
	return cCont
}

func (w *Worker) fname(fn *ssa.Function) string {
	if s, ok := w.fnames[fn]; ok {
		return s
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	s := o.String()
	w.fnames[fn] = s
	return s
}

func (w *Worker) zeros0(t types.Type, n int) *Agg {
	a := &Agg{v: make([]Value, n)}
	z := w.zero(t)
	for i := range a.v {
		a.v[i] = z
	}
	return a
}

func (w *Worker) mkSlice(st *State, a *Agg, n int) SliceV {
	p := w.alloc(st, a)
	return SliceV{arr: p, off: 0, ln: n, cp: len(a.v)}
}

func (w *Worker) sliceElems(st *State, s SliceV) []Value {
	if s.ln == 0 {
		return nil
	}
	return w.load(st, s.arr).(*Agg).v[s.off : s.off+s.ln]
}

// forceSlice materialises lazily filtered slices; ok=false when the state forked.
func (w *Worker) forceSlice(st *State, v ssa.Value) (SliceV, bool, ctl) {
	x := w.get(st, v)
	return w.forceSliceVal(st, x, func(s *State, n Value) { w.setReg(s, v, n) })
}

func (w *Worker) forceSliceVal(st *State, x Value, set func(*State, Value)) (SliceV, bool, ctl) {
	switch s := x.(type) {
	case SliceV:
		return s, true, cCont
	case *Lazy:
		for i, g := range s.guards {
			if g.isC() {
				continue
			}
			with := func(k *Term) func(*State) ctl {
				return func(n *State) ctl {
					l := &Lazy{elems: s.elems, elemT: s.elemT, guards: append([]*Term(nil), s.guards...)}
					l.guards[i] = k
					set(n, l)
					return cCont
				}
			}
			return SliceV{}, false, w.branchOn(st, g, with(w.ts.T), with(w.ts.F))
		}
		a := &Agg{}
		for i, g := range s.guards {
			if g.isT() {
				a.v = append(a.v, s.elems[i])
			}
		}
		sv := w.mkSlice(st, a, len(a.v))
		set(st, sv)
		return sv, true, cCont
	}
	unsup("slice operation on %T", x)
	return SliceV{}, false, cDead
}

// bound checks 0 <= i < n, panicking on the failing side, then concretises i.
func (w *Worker) boundIdx(st *State, iv ssa.Value, n int, signed bool) (int, bool, ctl) {
	t := w.get(st, iv).(*Term)
	if t.op == OConst {
		i := t.sval()
		if i < 0 || i >= int64(n) {
			return 0, false, w.goPanic(st, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), true, cCont
	}
	nn := w.ts.BV(uint64(n), t.w)
	in := w.ts.And(w.ts.Sle(w.ts.BV(0, t.w), t), w.ts.Slt(t, nn))
	tr, fa := w.split(st, in)
	if fa != nil {
		fr := st.top
		info := forkInfo{depth: fr.depth, block: fr.block, fi: fr.fi, nomrg: true}
		if tr != nil {
			info.states = append(info.states, tr)
		}
		if w.goPanic(fa, "index out of range") == cCont {
			info.states = append(info.states, fa)
		}
		if len(info.states) == 0 {
			return 0, false, cDead
		}
		w.forked = info
		return 0, false, cFork
	}
	_, ok, c := w.needConst(tr, t, func(s *State, k *Term) { w.setReg(s, iv, k) })
	if !ok {
		return 0, false, c
	}
	return 0, false, cCont
}

func (w *Worker) indexAddr(st *State, x *ssa.IndexAddr) ctl {
	v := w.get(st, x.X)
	switch b := v.(type) {
	case SliceV:
		i, ok, c := w.boundIdx(st, x.Index, b.ln, true)
		if !ok {
			return c
		}
		return w.next(st, x, Ptr{b.arr.obj, pathAdd(b.arr.path, b.off+i)})
	case *Lazy:
		_, ok, c := w.forceSlice(st, x.X)
		if !ok {
			return c
		}
		return cCont
	case Ptr:
		if b.obj == 0 {
			return w.goPanic(st, "invalid memory address or nil pointer dereference")
		}
		n := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
		i, ok, c := w.boundIdx(st, x.Index, int(n), true)
		if !ok {
			return c
		}
		return w.next(st, x, Ptr{b.obj, pathAdd(b.path, i)})
	}
	unsup("indexaddr %T", v)
	return cDead
}

func (w *Worker) index(st *State, x *ssa.Index) ctl {
	switch b := w.get(st, x.X).(type) {
	case *Agg:
		i, ok, c := w.boundIdx(st, x.Index, len(b.v), true)
		if !ok {
			return c
		}
		return w.next(st, x, b.v[i])
	case *Term:
		if b.op != OStr {
			unsup("index of symbolic string")
		}
		i, ok, c := w.boundIdx(st, x.Index, len(b.s), true)
		if !ok {
			return c
		}
		return w.next(st, x, w.ts.BV(uint64(b.s[i]), 8))
	}
	unsup("index")
	return cDead
}

func (w *Worker) lookup(st *State, x *ssa.Lookup) ctl {
	v := w.get(st, x.X)
	if b, ok := v.(*Term); ok {
		if b.op != OStr {
			unsup("index of symbolic string")
		}
		i, ok, c := w.boundIdx(st, x.Index, len(b.s), true)
		if !ok {
			return c
		}
		return w.next(st, x, w.ts.BV(uint64(b.s[i]), 8))
	}
	m := v.(MapV)
	key := w.get(st, x.Index)
	et := under(x.X.Type()).(*types.Map).Elem()
	fin := func(s *State, val Value, ok bool) ctl {
		if x.CommaOk {
			return w.next(s, x, Tuple{val, w.ts.Bool(ok)})
		}
		return w.next(s, x, val)
	}
	if m.obj == 0 {
		return fin(st, w.zero(et), false)
	}
	i, c, done := w.mapFind(st, m, key)
	if !done {
		return c
	}
	if i < 0 {
		return fin(st, w.zero(et), false)
	}
	return fin(st, w.objVal(st, m.obj).(*MapObj).e[i].v, true)
}

// mapFind locates key; it forks when equality with an entry is undetermined, in which
// case the instruction is re-executed with the equality decided by the path condition.
func (w *Worker) mapFind(st *State, m MapV, key Value) (int, ctl, bool) {
	es := w.objVal(st, m.obj).(*MapObj).e
	for i, e := range es {
		t := w.eqVal(e.k, key)
		if t.isF() {
			continue
		}
		if t.isT() {
			return i, cCont, true
		}
		neg := w.ts.Not(t)
		known := 0
		for q := st.pc; q != nil; q = q.parent {
			if q.t == t {
				known = 1
			}
			if q.t == neg {
				known = 2
			}
		}
		if known == 1 {
			return i, cCont, true
		}
		if known == 2 {
			continue
		}
		mk := func(k *Term) func(*State) ctl {
			return func(s *State) ctl {
				// make the decision syntactically visible on re-execution
				n := 1
				if s.pc != nil {
					n = s.pc.n + 1
				}
				s.pc = &PCNode{s.pc, k, n}
				return cCont
			}
		}
		return 0, w.branchOn(st, t, mk(t), mk(neg)), false
	}
	return -1, cCont, true
}

func (w *Worker) mapUpdate(st *State, x *ssa.MapUpdate) ctl {
	m := w.get(st, x.Map).(MapV)
	if m.obj == 0 {
		return w.goPanic(st, "assignment to entry in nil map")
	}
	key := w.get(st, x.Key)
	i, c, done := w.mapFind(st, m, key)
	if !done {
		return c
	}
	w.mapSet(st, m, i, key, w.get(st, x.Value))
	st.own().pc++
	return cCont
}

func (w *Worker) mapSet(st *State, m MapV, i int, k, v Value) {
	o := w.objVal(st, m.obj).(*MapObj)
	n := &MapObj{e: append([]MapEntry(nil), o.e...)}
	if i >= 0 {
		n.e[i].v = v
	} else {
		n.e = append(n.e, MapEntry{k, v})
	}
	st.heap.set(m.obj, n)
}

func (w *Worker) slice(st *State, x *ssa.Slice) ctl {
	get := func(v ssa.Value, def int) (int, bool, ctl) {
		if v == nil {
			return def, true, cCont
		}
		k, ok, c := w.regConst(st, v)
		return int(k), ok, c
	}
	v := w.get(st, x.X)
	if _, ok := v.(*Lazy); ok {
		if _, ok, c := w.forceSlice(st, x.X); !ok {
			return c
		}
		return cCont
	}
	ln, cp := 0, 0
	switch b := v.(type) {
	case SliceV:
		ln, cp = b.ln, b.cp
	case *Term:
		if b.op != OStr {
			unsup("slice of symbolic string")
		}
		ln, cp = len(b.s), len(b.s)
	case Ptr:
		if b.obj == 0 {
			return w.goPanic(st, "invalid memory address or nil pointer dereference")
		}
		n := int(under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		ln, cp = n, n
	default:
		unsup("slice of %T", v)
	}
	lo, ok, c := get(x.Low, 0)
	if !ok {
		return c
	}
	hi, ok, c := get(x.High, ln)
	if !ok {
		return c
	}
	mx, ok, c := get(x.Max, cp)
	if !ok {
		return c
	}
	if lo < 0 || hi < lo || mx < hi || mx > cp {
		return w.goPanic(st, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cp))
	}
	switch b := v.(type) {
	case SliceV:
		if b.arr.obj == 0 {
			return w.next(st, x, b)
		}
		return w.next(st, x, SliceV{b.arr, b.off + lo, hi - lo, mx - lo})
	case *Term:
		return w.next(st, x, w.ts.Str(b.s[lo:hi]))
	case Ptr:
		return w.next(st, x, SliceV{b, lo, hi - lo, mx - lo})
	}
	return cDead
}

func (w *Worker) typeAssert(st *State, x *ssa.TypeAssert) ctl {
	iv, ok := w.get(st, x.X).(Iface)
	if !ok {
		unsup("typeassert on %T", w.get(st, x.X))
	}
	good := false
	var res Value
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		if iv.t != nil && types.Implements(iv.t, it) {
			good = true
		}
		res = iv
	} else {
		good = iv.t != nil && types.Identical(iv.t, x.AssertedType)
		res = iv.v
	}
	if x.CommaOk {
		if good {
			return w.next(st, x, Tuple{res, w.ts.T})
		}
		return w.next(st, x, Tuple{w.zero(x.AssertedType), w.ts.F})
	}
	if !good {
		return w.goPanic(st, fmt.Sprintf("interface conversion: interface is %v, not %v", iv.t, x.AssertedType))
	}
	return w.next(st, x, res)
}

func (w *Worker) unop(st *State, x *ssa.UnOp) ctl {
	v := w.get(st, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			unsup("deref %T", v)
		}
		if p.obj == 0 {
			return w.goPanic(st, "invalid memory address or nil pointer dereference")
		}
		return w.next(st, x, w.load(st, p))
	case token.NOT:
		return w.next(st, x, w.ts.Not(v.(*Term)))
	case token.SUB:
		switch t := v.(type) {
		case *Term:
			return w.next(st, x, w.ts.Sub(w.ts.BV(0, t.w), t))
		case FloatV:
			return w.next(st, x, -t)
		case FInt:
			return w.next(st, x, FInt{w.ts.Sub(w.ts.Int(0), t.t)})
		}
	case token.XOR:
		t := v.(*Term)
		return w.next(st, x, w.ts.BXor(t, w.ts.BV(^uint64(0), t.w)))
	}
	unsup("unop %s", x)
	return cDead
}

// selectStmt runs a select with a default clause: the first case that is ready is taken.
// Every channel holds any number of values: blocking is left to vtime.Recv.
func (w *Worker) selectStmt(st *State, x *ssa.Select) ctl {
	if x.Blocking {
		unsup("blocking select")
	}
	res := Tuple{w.ts.Int(-1), w.ts.F}
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			res = append(res, w.zero(under(s.Chan.Type()).(*types.Chan).Elem()))
		}
	}
	k := 2
	for i, s := range x.States {
		c := w.get(st, s.Chan).(ChanV)
		if c.obj == 0 {
			if s.Dir == types.RecvOnly {
				k++
			}
			continue
		}
		q := w.objVal(st, c.obj).(*Agg)
		closed := q.v[0] == Value(w.ts.T)
		if s.Dir == types.SendOnly {
			if closed {
				return w.goPanic(st, "send on closed channel")
			}
			st.heap.set(c.obj, &Agg{v: append(append([]Value{}, q.v...), w.get(st, s.Send))})
			res[0] = w.ts.Int(int64(i))
			return w.next(st, x, res)
		}
		if len(q.v) > 1 {
			res[0], res[1], res[k] = w.ts.Int(int64(i)), w.ts.T, q.v[1]
			st.heap.set(c.obj, &Agg{v: append([]Value{q.v[0]}, q.v[2:]...)})
			return w.next(st, x, res)
		}
		if closed {
			res[0] = w.ts.Int(int64(i))
			return w.next(st, x, res)
		}
		k++
	}
	return w.next(st, x, res)
}

func (w *Worker) binop(st *State, x *ssa.BinOp) ctl {
	a, b := w.get(st, x.X), w.get(st, x.Y)
	switch x.Op {
	case token.EQL:
		return w.next(st, x, w.eqMixed(a, b, x.X.Type(), x.Y.Type()))
	case token.NEQ:
		return w.next(st, x, w.ts.Not(w.eqMixed(a, b, x.X.Type(), x.Y.Type())))
	}
	switch ta := a.(type) {
	case *Term:
		tb, ok := b.(*Term)
		if !ok {
			unsup("binop %T %T", a, b)
		}
		if ta.w == wStr {
			switch x.Op {
			case token.ADD:
				return w.next(st, x, w.ts.Concat(ta, tb))
			case token.LSS:
				return w.next(st, x, w.ts.StrLess(ta, tb))
			case token.GTR:
				return w.next(st, x, w.ts.StrLess(tb, ta))
			case token.LEQ:
				return w.next(st, x, w.ts.Not(w.ts.StrLess(tb, ta)))
			case token.GEQ:
				return w.next(st, x, w.ts.Not(w.ts.StrLess(ta, tb)))
			}
			unsup("string binop %s", x.Op)
		}
		_, signed, _ := intInfo(x.X.Type())
		switch x.Op {
		case token.ADD:
			return w.next(st, x, w.ts.Add(ta, tb))
		case token.SUB:
			return w.next(st, x, w.ts.Sub(ta, tb))
		case token.MUL:
			return w.next(st, x, w.ts.Mul(ta, tb))
		case token.QUO, token.REM:
			z := w.ts.Eq(tb, w.ts.BV(0, tb.w))
			do := func(s *State) ctl {
				if x.Op == token.QUO {
					if signed {
						return w.next(s, x, w.ts.SDiv(ta, tb))
					}
					return w.next(s, x, w.ts.UDiv(ta, tb))
				}
				if signed {
					return w.next(s, x, w.ts.SRem(ta, tb))
				}
				return w.next(s, x, w.ts.URem(ta, tb))
			}
			return w.branchOn(st, z, func(s *State) ctl { return w.goPanic(s, "integer divide by zero") }, do)
		case token.AND:
			return w.next(st, x, w.ts.BAnd(ta, tb))
		case token.OR:
			return w.next(st, x, w.ts.BOr(ta, tb))
		case token.XOR:
			return w.next(st, x, w.ts.BXor(ta, tb))
		case token.AND_NOT:
			return w.next(st, x, w.ts.BAnd(ta, w.ts.BXor(tb, w.ts.BV(^uint64(0), tb.w))))
		case token.SHL:
			return w.next(st, x, w.ts.Shift(OShl, ta, tb))
		case token.SHR:
			if signed {
				return w.next(st, x, w.ts.Shift(OAShr, ta, tb))
			}
			return w.next(st, x, w.ts.Shift(OLShr, ta, tb))
		}
		lt, le := w.ts.Slt, w.ts.Sle
		if !signed {
			lt, le = w.ts.Ult, w.ts.Ule
		}
		switch x.Op {
		case token.LSS:
			return w.next(st, x, lt(ta, tb))
		case token.LEQ:
			return w.next(st, x, le(ta, tb))
		case token.GTR:
			return w.next(st, x, lt(tb, ta))
		case token.GEQ:
			return w.next(st, x, le(tb, ta))
		}
	case FloatV, FInt:
		return w.next(st, x, w.floatOp(x.Op, a, b))
	}
	unsup("binop %s on %T %T", x.Op, a, b)
	return cDead
}

func (w *Worker) eqMixed(a, b Value, ta, tb types.Type) *Term {
	_, ia := a.(Iface)
	_, ib := b.(Iface)
	if ia && !ib {
		return w.eqVal(a, Iface{tb, b})
	}
	if ib && !ia {
		return w.eqVal(Iface{ta, a}, b)
	}
	return w.eqVal(a, b)
}

func (w *Worker) floatOp(op token.Token, a, b Value) Value {
	fa, oka := a.(FloatV)
	fb, okb := b.(FloatV)
	if oka && okb {
		switch op {
		case token.ADD:
			return fa + fb
		case token.SUB:
			return fa - fb
		case token.MUL:
			return fa * fb
		case token.QUO:
			return fa / fb
		case token.LSS:
			return w.ts.Bool(fa < fb)
		case token.LEQ:
			return w.ts.Bool(fa <= fb)
		case token.GTR:
			return w.ts.Bool(fa > fb)
		case token.GEQ:
			return w.ts.Bool(fa >= fb)
		}
	}
	toI := func(v Value) *Term {
		switch x := v.(type) {
		case FInt:
			return x.t
		case FloatV:
			if float64(int64(x)) == float64(x) && x < 1<<52 && x > -(1<<52) {
				return w.ts.Int(int64(x))
			}
		}
		return nil
	}
	ia, ib := toI(a), toI(b)
	if ia != nil && ib != nil {
		small := func(t *Term) bool { return t.ivOK && t.lo > -(1<<53) && t.hi < 1<<53 }
		switch op {
		case token.ADD, token.SUB, token.MUL:
			var r *Term
			switch op {
			case token.ADD:
				r = w.ts.Add(ia, ib)
			case token.SUB:
				r = w.ts.Sub(ia, ib)
			case token.MUL:
				r = w.ts.Mul(ia, ib)
			}
			if small(r) {
				return FInt{r}
			}
		case token.LSS:
			return w.ts.Slt(ia, ib)
		case token.LEQ:
			return w.ts.Sle(ia, ib)
		case token.GTR:
			return w.ts.Slt(ib, ia)
		case token.GEQ:
			return w.ts.Sle(ib, ia)
		case token.QUO:
			if ia.op == OConst && ia.k == 0 {
				return FloatV(0)
			}
		}
	}
	unsup("float operation %s on %s, %s", op, w.showVal(a), w.showVal(b))
	return nil
}

func (w *Worker) convert(st *State, v Value, from, to types.Type) Value {
	if fw, fs, ok := intInfo(from); ok {
		_ = fw
		t, isT := v.(*Term)
		if !isT {
			unsup("convert %T", v)
		}
		if tw, _, ok := intInfo(to); ok {
			return w.ts.Resize(t, tw, fs)
		}
		if isFloat(to) {
			if t.op == OConst {
				if fs {
					return FloatV(float64(t.sval()))
				}
				return FloatV(float64(t.k))
			}
			t = w.ts.Resize(t, 64, fs)
			if t.ivOK && t.lo > -(1<<53) && t.hi < 1<<53 {
				return FInt{t}
			}
			unsup("int to float of unbounded symbolic value")
		}
		if isString(to) {
			if t.op == OConst {
				return w.ts.Str(string(rune(t.sval())))
			}
			unsup("rune to string")
		}
		if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			unsup("unsafe pointer conversion")
		}
	}
	if isFloat(from) {
		if isFloat(to) {
			return v
		}
		if tw, s, ok := intInfo(to); ok {
			switch f := v.(type) {
			case FloatV:
				if s {
					return w.ts.BV(uint64(int64(f)), tw)
				}
				return w.ts.BV(uint64(f), tw)
			case FInt:
				return w.ts.Resize(f.t, tw, true)
			}
		}
	}
	if isString(from) {
		t, _ := v.(*Term)
		if isString(to) {
			return v
		}
		if sl, ok := under(to).(*types.Slice); ok {
			if t.op == OBox {
				return t.box
			}
			if t.op != OStr {
				unsup("bytes of symbolic string")
			}
			a := &Agg{}
			if wd, _, _ := intInfo(sl.Elem()); wd == 8 {
				for i := 0; i < len(t.s); i++ {
					a.v = append(a.v, w.ts.BV(uint64(t.s[i]), 8))
				}
			} else {
				for _, r := range t.s {
					a.v = append(a.v, w.ts.BV(uint64(r), 32))
				}
			}
			return w.mkSlice(st, a, len(a.v))
		}
	}
	if isString(to) {
		switch s := v.(type) {
		case *JSONB:
			return w.ts.Box(s)
		case SliceV:
			var bs []byte
			et := under(from).(*types.Slice).Elem()
			wd, _, _ := intInfo(et)
			var rs []rune
			for _, e := range w.sliceElems(st, s) {
				t := e.(*Term)
				if t.op != OConst {
					unsup("string of symbolic bytes")
				}
				if wd == 8 {
					bs = append(bs, byte(t.k))
				} else {
					rs = append(rs, rune(t.sval()))
				}
			}
			if wd == 8 {
				return w.ts.Str(string(bs))
			}
			return w.ts.Str(string(rs))
		}
	}
	switch v.(type) {
	case Ptr, SliceV, MapV, *FuncV, *Agg, Iface, ChanV, *Lazy, *JSONB:
		return v
	case *Term:
		if types.Identical(under(from), under(to)) {
			return v
		}
	}
	unsup("convert %s to %s", from, to)
	return nil
}
