package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
)

type intr func(w *Worker, st *State, args []Value) (Value, ctl)

const symPkg = "verif.local/sym"

func (w *Worker) strC(v Value, what string) string {
	t, ok := v.(*Term)
	if !ok || t.op != OStr {
		unsup("%s must be a constant string", what)
	}
	return t.s
}

func (w *Worker) intC(v Value, what string) int64 {
	t, ok := v.(*Term)
	if !ok || t.op != OConst {
		unsup("%s must be constant", what)
	}
	return t.sval()
}

func (w *Worker) freshName(st *State, name string) string {
	return fmt.Sprintf("%s#%d", name, st.symIdx(name))
}

func (w *Worker) noteVar(st *State, name string, t *Term) *Term {
	st.vars = &LogNode{parent: st.vars, name: name, v: t}
	return t
}

func (w *Worker) logAdd(st *State, kind, name string, v *Term) {
	n := 1
	if st.log != nil {
		n = st.log.n + 1
	}
	st.log = &LogNode{parent: st.log, kind: kind, name: name, v: v, n: n}
}

func (w *Worker) symRange(st *State, name string, lo, hi int64) *Term {
	nm := w.freshName(st, name)
	if lo == hi {
		return w.noteVar(st, nm, w.ts.Int(lo))
	}
	t := w.noteVar(st, nm, w.ts.VarRange(nm, 64, lo, hi))
	// the range constraint is stated with raw terms so that the interval reasoning
	// of the simplifier does not erase it
	for _, c := range []*Term{
		w.ts.mk(Term{op: OSle, a: w.ts.Int(lo), b: t}),
		w.ts.mk(Term{op: OSle, a: t, b: w.ts.Int(hi)})} {
		n := 1
		if st.pc != nil {
			n = st.pc.n + 1
		}
		st.pc = &PCNode{st.pc, c, n}
	}
	return t
}

func unit(w *Worker, st *State, args []Value) (Value, ctl) { return Tuple{}, cRet }

func (w *Worker) nilErr() Value { return Iface{} }

func (w *Worker) sliceArg(st *State, v Value) []Value {
	s, ok := v.(SliceV)
	if !ok {
		unsup("slice argument %T", v)
	}
	return w.sliceElems(st, s)
}

func (w *Worker) bools(st *State, args []Value) []*Term {
	var r []*Term
	for _, a := range args {
		if s, ok := a.(SliceV); ok {
			for _, e := range w.sliceElems(st, s) {
				r = append(r, e.(*Term))
			}
		} else {
			r = append(r, a.(*Term))
		}
	}
	return r
}

func (w *Worker) sprintf(st *State, format *Term, args []Value) *Term {
	if format.op != OStr {
		return w.ts.Box(nil)
	}
	out := w.ts.Str("")
	f := format.s
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = w.ts.Concat(out, w.ts.Str(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return w.ts.Box(nil)
		}
		flags := f[i+1 : j]
		verb := f[j]
		i = j
		if verb == '%' {
			out = w.ts.Concat(out, w.ts.Str("%"))
			continue
		}
		if ai >= len(args) {
			return w.ts.Box(nil)
		}
		a := args[ai].(Iface)
		ai++
		s := w.fmtVal(a)
		if s == nil || (flags != "" && flags != "+") || strings.IndexByte("sdvw", verb) < 0 {
			return w.ts.Box(nil)
		}
		out = w.ts.Concat(out, s)
	}
	return out
}

// fmtVal renders scalars exactly; anything else is opaque (nil).
func (w *Worker) fmtVal(a Iface) *Term {
	if a.t == nil {
		return w.ts.Str("<nil>")
	}
	if ms := types.NewMethodSet(a.t); ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
		return nil
	}
	if t, ok := a.v.(*Term); ok {
		if t.w == wStr {
			return t
		}
		if t.w == 0 {
			return w.ts.Ite(t, w.ts.Str("true"), w.ts.Str("false"))
		}
		if _, signed, ok := intInfo(a.t); ok {
			if !signed {
				t = w.ts.Resize(t, 64, false)
			}
			return w.ts.Itoa(t)
		}
	}
	return nil
}

var intrinsics map[string]intr

func init() {
	S := symPkg + "."
	intrinsics = map[string]intr{
		S + "Int": func(w *Worker, st *State, a []Value) (Value, ctl) {
			nm := w.freshName(st, w.strC(a[0], "name"))
			return w.noteVar(st, nm, w.ts.Var(nm, 64)), cRet
		},
		S + "Int64": func(w *Worker, st *State, a []Value) (Value, ctl) {
			nm := w.freshName(st, w.strC(a[0], "name"))
			return w.noteVar(st, nm, w.ts.Var(nm, 64)), cRet
		},
		S + "Bool": func(w *Worker, st *State, a []Value) (Value, ctl) {
			nm := w.freshName(st, w.strC(a[0], "name"))
			return w.noteVar(st, nm, w.ts.Var(nm+"!b", 0)), cRet
		},
		S + "IntRange": func(w *Worker, st *State, a []Value) (Value, ctl) {
			lo, hi := w.intC(a[1], "range"), w.intC(a[2], "range")
			return w.doRange(st, w.strC(a[0], "name"), lo, hi)
		},
		S + "Int64Range": func(w *Worker, st *State, a []Value) (Value, ctl) {
			lo, hi := w.intC(a[1], "range"), w.intC(a[2], "range")
			return w.doRange(st, w.strC(a[0], "name"), lo, hi)
		},
		S + "StrOf": func(w *Worker, st *State, a []Value) (Value, ctl) {
			opts := w.sliceArg(st, a[1])
			t := w.symRange(st, w.strC(a[0], "name"), 0, int64(len(opts)-1))
			w.fixModel(st, t)
			r := opts[len(opts)-1].(*Term)
			for i := len(opts) - 2; i >= 0; i-- {
				r = w.ts.Ite(w.ts.Eq(t, w.ts.Int(int64(i))), opts[i].(*Term), r)
			}
			return r, cRet
		},
		S + "Choose": func(w *Worker, st *State, a []Value) (Value, ctl) {
			n := int(w.intC(a[1], "Choose bound"))
			nm := w.freshName(st, w.strC(a[0], "name"))
			i := st.nchoice
			st.nchoice++
			k := 0
			if i < len(w.task.prefix) {
				k = w.task.prefix[i]
			} else {
				for alt := 1; alt < n; alt++ {
					p := make([]int, i+1)
					copy(p, w.task.prefix)
					p[i] = alt
					w.eng.addTask(w.task.harness, p)
				}
			}
			if k >= n {
				w.pruned++
				return nil, cDead
			}
			st.vars = &LogNode{parent: st.vars, name: nm, v: w.ts.Int(int64(k))}
			return w.ts.Int(int64(k)), cRet
		},
		S + "Assume": func(w *Worker, st *State, a []Value) (Value, ctl) {
			if !w.addAssume(st, a[0].(*Term)) {
				w.pruned++
				return nil, cDead
			}
			return Tuple{}, cRet
		},
		S + "Stop": func(w *Worker, st *State, a []Value) (Value, ctl) {
			w.pruned++
			return nil, cDead
		},
		S + "Assert": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.assert(st, a[0].(*Term), w.strC(a[1], "label"))
		},
		S + "Reach": func(w *Worker, st *State, a []Value) (Value, ctl) {
			l := w.strC(a[0], "label")
			w.eng.want(w.task.harness, l)
			w.eng.reached(w.task.harness, l)
			return Tuple{}, cRet
		},
		S + "ReachIf": func(w *Worker, st *State, a []Value) (Value, ctl) {
			l := w.strC(a[1], "label")
			w.eng.want(w.task.harness, l)
			if w.eng.needReach(w.task.harness, l) {
				c := a[0].(*Term)
				if c.isF() {
					return Tuple{}, cRet
				}
				if c.isT() || w.ts.Eval(c, st.model) == 1 {
					w.eng.reached(w.task.harness, l)
				} else if res, _ := w.solver.Check(st.pc.list(), c); res == Sat {
					w.eng.reached(w.task.harness, l)
				}
			}
			return Tuple{}, cRet
		},
		S + "AssertKnown": func(w *Worker, st *State, a []Value) (Value, ctl) {
			cond, region := a[0].(*Term), a[3].(*Term)
			label, id := w.strC(a[1], "label"), w.strC(a[2], "id")
			if !w.eng.isKnown(id) {
				return w.assert(st, cond, label)
			}
			bad := w.ts.And(region, w.ts.Not(cond))
			if !bad.isF() && !w.eng.knownSeen(id) {
				if w.ts.Eval(bad, st.model) == 1 {
					w.eng.violation(w, st, st.model, "known", "known:"+id)
				} else if res, m := w.solver.Check(st.pc.list(), bad); res == Sat {
					w.eng.violation(w, st, m, "known", "known:"+id)
				}
			}
			_, c := w.assert(st, w.ts.Or(cond, region), label)
			if c != cRet {
				return nil, c
			}
			if !w.addAssume(st, cond) {
				return nil, cDead
			}
			return Tuple{}, cRet
		},
		S + "Want": func(w *Worker, st *State, a []Value) (Value, ctl) {
			w.eng.want(w.task.harness, w.strC(a[0], "label"))
			return Tuple{}, cRet
		},
		S + "ObserveInt": func(w *Worker, st *State, a []Value) (Value, ctl) {
			w.logAdd(st, "obs", w.strC(a[0], "name"), a[1].(*Term))
			return Tuple{}, cRet
		},
		S + "ObserveInt64": func(w *Worker, st *State, a []Value) (Value, ctl) {
			w.logAdd(st, "obs", w.strC(a[0], "name"), a[1].(*Term))
			return Tuple{}, cRet
		},
		S + "ObserveBool": func(w *Worker, st *State, a []Value) (Value, ctl) {
			w.logAdd(st, "obs", w.strC(a[0], "name"), a[1].(*Term))
			return Tuple{}, cRet
		},
		S + "ObserveStr": func(w *Worker, st *State, a []Value) (Value, ctl) {
			w.logAdd(st, "obs", w.strC(a[0], "name"), a[1].(*Term))
			return Tuple{}, cRet
		},
		S + "Tier": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.ts.Int(int64(w.eng.tier)), cRet
		},
		S + "Native": func(w *Worker, st *State, a []Value) (Value, ctl) { return w.ts.F, cRet },
		S + "And": func(w *Worker, st *State, a []Value) (Value, ctl) {
			r := w.ts.T
			for _, t := range w.bools(st, a) {
				r = w.ts.And(r, t)
			}
			return r, cRet
		},
		S + "Or": func(w *Worker, st *State, a []Value) (Value, ctl) {
			r := w.ts.F
			for _, t := range w.bools(st, a) {
				r = w.ts.Or(r, t)
			}
			return r, cRet
		},
		S + "Implies": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.ts.Implies(a[0].(*Term), a[1].(*Term)), cRet
		},
		S + "Iff": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.ts.Eq(a[0].(*Term), a[1].(*Term)), cRet
		},
		S + "IteInt": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.ts.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)), cRet
		},
		S + "IteInt64": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.ts.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)), cRet
		},
		S + "IteStr": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.ts.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)), cRet
		},
		S + "B2I": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.ts.Ite(a[0].(*Term), w.ts.Int(1), w.ts.Int(0)), cRet
		},
		// Fork turns a symbolic boolean into a concrete one (case split).
		S + "Fork": func(w *Worker, st *State, a []Value) (Value, ctl) {
			t := a[0].(*Term)
			if t.isC() {
				return t, cRet
			}
			dest := w.curCall
			return nil, w.branchOn(st, t,
				func(s *State) ctl { return w.next(s, dest, w.ts.T) },
				func(s *State) ctl { return w.next(s, dest, w.ts.F) })
		},
		// Pin turns a symbolic int into a concrete one (case split over feasible values).
		S + "Pin": func(w *Worker, st *State, a []Value) (Value, ctl) {
			t := a[0].(*Term)
			if t.op == OConst {
				return t, cRet
			}
			_, ok, c := w.needConst(st, t, func(s *State, k *Term) { w.setReg(s, w.curCC.Args[0], k) })
			if ok {
				return t, cRet
			}
			return nil, c
		},
		S + "MapOrder": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return Tuple{}, cRet
		},

		// shim support
		S + "sliceLen": func(w *Worker, st *State, a []Value) (Value, ctl) {
			s, ok, c := w.forceIfaceSlice(st, a[0], 0)
			if !ok {
				return nil, c
			}
			return w.ts.Int(int64(s.ln)), cRet
		},
		S + "sliceAt": func(w *Worker, st *State, a []Value) (Value, ctl) {
			iv := a[0].(Iface)
			s := iv.v.(SliceV)
			i := int(w.intC(a[1], "index"))
			et := under(iv.t).(*types.Slice).Elem()
			e := w.sliceElems(st, s)[i]
			if _, isI := under(et).(*types.Interface); isI {
				return e, cRet
			}
			return Iface{et, e}, cRet
		},
		S + "sliceSwap": func(w *Worker, st *State, a []Value) (Value, ctl) {
			s := a[0].(Iface).v.(SliceV)
			i, j := int(w.intC(a[1], "index")), int(w.intC(a[2], "index"))
			old := w.load(st, s.arr).(*Agg)
			n := append([]Value(nil), old.v...)
			n[s.off+i], n[s.off+j] = n[s.off+j], n[s.off+i]
			w.store(st, s.arr, &Agg{v: n})
			return Tuple{}, cRet
		},
		S + "equal": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.eqDeep(st, a[0].(Iface), a[1].(Iface)), cRet
		},
		S + "lazyFilter": func(w *Worker, st *State, a []Value) (Value, ctl) {
			iv := a[0].(Iface)
			src := w.sliceElems(st, iv.v.(SliceV))
			gs := w.sliceArg(st, a[1])
			l := &Lazy{elems: append([]Value(nil), src...), elemT: under(iv.t).(*types.Slice).Elem()}
			for _, g := range gs {
				l.guards = append(l.guards, g.(*Term))
			}
			return Iface{types.NewSlice(l.elemT), l}, cRet
		},
		S + "makeSliceOf": func(w *Worker, st *State, a []Value) (Value, ctl) {
			// results of a mapping function collected as interfaces -> typed slice
			ft := under(a[0].(Iface).t).(*types.Signature)
			et := ft.Results().At(0).Type()
			ag := &Agg{}
			for _, e := range w.sliceArg(st, a[1]) {
				ag.v = append(ag.v, e)
			}
			if len(ag.v) == 0 {
				return Iface{types.NewSlice(et), SliceV{arr: w.alloc(st, &Agg{}), cp: 0}}, cRet
			}
			return Iface{types.NewSlice(et), w.mkSlice(st, ag, len(ag.v))}, cRet
		},
		S + "callAny": func(w *Worker, st *State, a []Value) (Value, ctl) {
			f := a[0].(Iface)
			arg := a[1].(Iface)
			sig := under(f.t).(*types.Signature)
			var av Value = arg.v
			if _, isI := under(sig.Params().At(0).Type()).(*types.Interface); isI {
				av = arg
			}
			return nil, w.callValueC(st, f.v, []Value{av}, w.curCall, false, nil)
		},
		S + "callBool": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return intrinsics[S+"callAny"](w, st, a)
		},
		S + "strHas": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return str2(strings.Contains)(w, st, []Value{a[0].(Iface).v, a[1].(Iface).v})
		},
		S + "isKind": func(w *Worker, st *State, a []Value) (Value, ctl) {
			iv := a[0].(Iface)
			k := w.strC(a[1], "kind")
			if iv.t == nil {
				return w.ts.Bool(k == "nil"), cRet
			}
			r := false
			switch under(iv.t).(type) {
			case *types.Slice:
				r = k == "slice"
			case *types.Map:
				r = k == "map"
			case *types.Signature:
				r = k == "func"
			case *types.Array:
				r = k == "array"
			default:
				if isString(iv.t) {
					r = k == "string"
				}
			}
			return w.ts.Bool(r), cRet
		},
		S + "mapHas": func(w *Worker, st *State, a []Value) (Value, ctl) {
			iv := a[0].(Iface)
			m := iv.v.(MapV)
			if m.obj == 0 {
				return w.ts.F, cRet
			}
			r := w.ts.F
			for _, e := range w.objVal(st, m.obj).(*MapObj).e {
				r = w.ts.Or(r, w.eqVal(e.k, a[1].(Iface).v))
			}
			return r, cRet
		},

		"fmt.Sprintf": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.sprintf(st, a[0].(*Term), w.sliceArg(st, a[1])), cRet
		},
		"fmt.Sprint":   func(w *Worker, st *State, a []Value) (Value, ctl) { return w.sprint(st, a[0], false), cRet },
		"fmt.Sprintln": func(w *Worker, st *State, a []Value) (Value, ctl) { return w.ts.Box(nil), cRet },
		"fmt.Printf":   printIntr, "fmt.Println": printIntr, "fmt.Print": printIntr,
		"fmt.Fprintf": func(w *Worker, st *State, a []Value) (Value, ctl) {
			if p, ok := bldOf(a[0]); ok {
				bldAppend(w, st, p, w.sprintf(st, a[1].(*Term), w.sliceArg(st, a[2])))
			}
			return Tuple{w.ts.BV(0, 64), Iface{}}, cRet
		},
		"fmt.Fprint": func(w *Worker, st *State, a []Value) (Value, ctl) {
			if p, ok := bldOf(a[0]); ok {
				bldAppend(w, st, p, w.sprint(st, a[1], false))
			}
			return Tuple{w.ts.BV(0, 64), Iface{}}, cRet
		},
		"fmt.Fprintln": printIntr,
		"log.Printf": unit, "log.Println": unit, "log.Print": unit,

		"encoding/json.Marshal":       jsonMarshal,
		"encoding/json.MarshalIndent": jsonMarshal,
		"encoding/json.Unmarshal":     jsonUnmarshal,

		"(*strings.Builder).WriteString": bldWrite, "(*strings.Builder).WriteByte": bldWrite, "(*strings.Builder).WriteRune": bldWrite,
		"(*strings.Builder).String": bldString, "(*strings.Builder).Reset": bldReset, "(*strings.Builder).Len": bldLen, "(*strings.Builder).Grow": unit,
		"(*bytes.Buffer).WriteString": bldWrite, "(*bytes.Buffer).WriteByte": bldWrite, "(*bytes.Buffer).WriteRune": bldWrite,
		"(*bytes.Buffer).String": bldString, "(*bytes.Buffer).Reset": bldReset, "(*bytes.Buffer).Len": bldLen, "(*bytes.Buffer).Grow": unit,
		"strings.Join": func(w *Worker, st *State, a []Value) (Value, ctl) {
			sep := a[1].(*Term)
			s, ok, c := w.forceSliceArg(st, a[0], 0)
			if !ok {
				return nil, c
			}
			out := w.ts.Str("")
			for i, e := range w.sliceElems(st, s) {
				if i > 0 {
					out = w.ts.Concat(out, sep)
				}
				out = w.ts.Concat(out, e.(*Term))
			}
			return out, cRet
		},
		"strconv.Itoa": func(w *Worker, st *State, a []Value) (Value, ctl) { return w.ts.Itoa(a[0].(*Term)), cRet },
		"strconv.FormatInt": func(w *Worker, st *State, a []Value) (Value, ctl) {
			if w.intC(a[1], "base") != 10 {
				unsup("FormatInt base")
			}
			return w.ts.Itoa(a[0].(*Term)), cRet
		},
		"strings.Contains":  str2(strings.Contains),
		"strings.HasPrefix": str2(strings.HasPrefix),
		"strings.HasSuffix": str2(strings.HasSuffix),
		"strings.EqualFold": str2(strings.EqualFold),
		"strings.ToLower":   str1(strings.ToLower),
		"strings.ToUpper":   str1(strings.ToUpper),
		"strings.TrimSpace": str1(strings.TrimSpace),

		"math.Ceil": mathF(math.Ceil), "math.Floor": mathF(math.Floor), "math.Round": mathF(math.Round),
		"math.Trunc": mathF(math.Trunc), "math.Abs": mathF(math.Abs), "math.Sqrt": mathF(math.Sqrt),
		"math.Max": math2(math.Max), "math.Min": math2(math.Min), "math.Pow": math2(math.Pow), "math.Mod": math2(math.Mod),

		"github.com/google/uuid.New": func(w *Worker, st *State, a []Value) (Value, ctl) {
			k := st.symIdx("\x00uuid") + 1
			ag := &Agg{v: make([]Value, 16)}
			for i := range ag.v {
				ag.v[i] = w.ts.BV(0, 8)
			}
			ag.v[15] = w.ts.BV(uint64(k), 8)
			ag.v[14] = w.ts.BV(uint64(k>>8), 8)
			return ag, cRet
		},
		"(github.com/google/uuid.UUID).String": func(w *Worker, st *State, a []Value) (Value, ctl) {
			k := uint64(0)
			for _, e := range a[0].(*Agg).v[8:] {
				t := e.(*Term)
				if t.op != OConst {
					unsup("symbolic uuid")
				}
				k = k<<8 | t.k
			}
			return w.ts.Str(fmt.Sprintf("uuid-%d", k)), cRet
		},
		"github.com/google/uuid.NewString": func(w *Worker, st *State, a []Value) (Value, ctl) {
			return w.ts.Str(fmt.Sprintf("uuid-%d", st.symIdx("\x00uuid")+1)), cRet
		},

		// real locks in dependencies: operations run to completion, see DESIGN (atomicity)
		"(*sync.Mutex).Lock": unit, "(*sync.Mutex).Unlock": unit,
		"(*sync.RWMutex).Lock": unit, "(*sync.RWMutex).Unlock": unit,
		"(*sync.RWMutex).RLock": unit, "(*sync.RWMutex).RUnlock": unit,
		"internal/race.Enable": unit, "internal/race.Disable": unit,
		"runtime.Gosched": unit,
	}
	_ = reflect.TypeOf
}

func printIntr(w *Worker, st *State, a []Value) (Value, ctl) {
	return Tuple{w.ts.Int(0), Iface{}}, cRet
}

func str2(f func(a, b string) bool) intr {
	return func(w *Worker, st *State, a []Value) (Value, ctl) {
		x, y := a[0].(*Term), a[1].(*Term)
		var rec func(x, y *Term) *Term
		rec = func(x, y *Term) *Term {
			if x.op == OIte {
				return w.ts.Ite(x.a, rec(x.b, y), rec(x.c, y))
			}
			if y.op == OIte {
				return w.ts.Ite(y.a, rec(x, y.b), rec(x, y.c))
			}
			if x.op != OStr || y.op != OStr {
				unsup("string function on formatted string")
			}
			return w.ts.Bool(f(x.s, y.s))
		}
		return rec(x, y), cRet
	}
}

func str1(f func(a string) string) intr {
	return func(w *Worker, st *State, a []Value) (Value, ctl) {
		var rec func(x *Term) *Term
		rec = func(x *Term) *Term {
			if x.op == OIte {
				return w.ts.Ite(x.a, rec(x.b), rec(x.c))
			}
			if x.op != OStr {
				unsup("string function on formatted string")
			}
			return w.ts.Str(f(x.s))
		}
		return rec(a[0].(*Term)), cRet
	}
}

func mathF(f func(float64) float64) intr {
	return func(w *Worker, st *State, a []Value) (Value, ctl) {
		switch x := a[0].(type) {
		case FloatV:
			return FloatV(f(float64(x))), cRet
		case FInt:
			if f(1.5) == 2 || f(1.5) == 1 { // Ceil, Floor, Round, Trunc on an integer
				return x, cRet
			}
		}
		unsup("math function of symbolic float")
		return nil, cDead
	}
}

func math2(f func(a, b float64) float64) intr {
	return func(w *Worker, st *State, a []Value) (Value, ctl) {
		x, ok1 := a[0].(FloatV)
		y, ok2 := a[1].(FloatV)
		if !ok1 || !ok2 {
			unsup("math function of symbolic float")
		}
		return FloatV(f(float64(x), float64(y))), cRet
	}
}

func (w *Worker) sprint(st *State, v Value, nl bool) *Term {
	out := w.ts.Str("")
	for _, e := range w.sliceArg(st, v) {
		s := w.fmtVal(e.(Iface))
		if s == nil {
			return w.ts.Box(nil)
		}
		out = w.ts.Concat(out, s)
	}
	return out
}

func (w *Worker) doRange(st *State, name string, lo, hi int64) (Value, ctl) {
	if lo > hi {
		w.pruned++
		return nil, cDead
	}
	t := w.symRange(st, name, lo, hi)
	w.fixModel(st, t)
	return t, cRet
}

// fixModel gives a freshly created ranged variable a value within its range.
func (w *Worker) fixModel(st *State, t *Term) {
	if t.op != OVar {
		return
	}
	// default evaluation already yields a value in range (see eval of OVar), but a
	// model from an earlier path may hold one too; nothing to do unless it is absent
	if v, ok := st.model.v[t.s]; ok {
		vi := w.ts.byN[t.s]
		if int64(v) >= vi.lo && int64(v) <= vi.hi {
			return
		}
		m := &Model{v: map[string]uint64{}}
		for k, x := range st.model.v {
			m.v[k] = x
		}
		delete(m.v, t.s)
		st.model = m
	}
}

func (w *Worker) forceIfaceSlice(st *State, v Value, arg int) (SliceV, bool, ctl) {
	iv := v.(Iface)
	if s, ok := iv.v.(SliceV); ok {
		return s, true, cCont
	}
	cc := w.curCC
	return w.forceSliceVal(st, iv.v, func(s *State, n Value) { w.setReg(s, cc.Args[arg], Iface{iv.t, n}) })
}

func (w *Worker) forceSliceArg(st *State, v Value, arg int) (SliceV, bool, ctl) {
	if s, ok := v.(SliceV); ok {
		return s, true, cCont
	}
	if w.curCC == nil {
		unsup("lazy slice in deferred intrinsic")
	}
	cc := w.curCC
	return w.forceSliceVal(st, v, func(s *State, n Value) { w.setReg(s, cc.Args[arg], n) })
}

// eqDeep mirrors funk's equality: == for functions excluded, DeepEqual otherwise.
func (w *Worker) eqDeep(st *State, a, b Iface) *Term {
	if a.t == nil || b.t == nil {
		return w.ts.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return w.ts.F
	}
	return w.deepEq(st, a.t, a.v, b.v, 0)
}

func (w *Worker) deepEq(st *State, t types.Type, a, b Value, d int) *Term {
	if d > 12 {
		unsup("deep equality depth")
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		x, y := a.(Ptr), b.(Ptr)
		if x == y {
			return w.ts.T
		}
		if x.obj == 0 || y.obj == 0 {
			return w.ts.F
		}
		return w.deepEq(st, u.Elem(), w.load(st, x), w.load(st, y), d+1)
	case *types.Slice:
		x, ok1 := a.(SliceV)
		y, ok2 := b.(SliceV)
		if !ok1 || !ok2 {
			unsup("deep equality of lazy slices")
		}
		if x.ln != y.ln || (x.arr.obj == 0) != (y.arr.obj == 0) {
			return w.ts.F
		}
		r := w.ts.T
		ex, ey := w.sliceElems(st, x), w.sliceElems(st, y)
		for i := range ex {
			r = w.ts.And(r, w.deepEq(st, u.Elem(), ex[i], ey[i], d+1))
		}
		return r
	case *types.Struct:
		r := w.ts.T
		for i := 0; i < u.NumFields(); i++ {
			r = w.ts.And(r, w.deepEq(st, u.Field(i).Type(), a.(*Agg).v[i], b.(*Agg).v[i], d+1))
		}
		return r
	case *types.Map:
		unsup("deep equality of maps")
	}
	return w.eqVal(a, b)
}

// ---- encoding/json as a deep copy ----

type jStruct struct{ f map[string]jField }
type jField struct {
	v Value
	t types.Type
}
type jPtr struct {
	v   Value
	nil bool
}
type jSlice struct {
	e   []Value
	nil bool
}
type jMap struct {
	e   []MapEntry
	nil bool
}

func jsonKey(st *types.Struct, i int) (string, bool) {
	f := st.Field(i)
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if tag == "-" || !f.Exported() {
		return "", false
	}
	name := strings.Split(tag, ",")[0]
	if name == "" {
		name = f.Name()
	}
	return name, true
}

func hasMethod(t types.Type, n string) bool {
	return types.NewMethodSet(t).Lookup(nil, n) != nil || types.NewMethodSet(types.NewPointer(t)).Lookup(nil, n) != nil
}

func (w *Worker) jsonOut(st *State, v Value, t types.Type) Value {
	if n, ok := t.(*types.Named); ok && hasMethod(n, "MarshalJSON") {
		return v
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return v
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == 0 {
			return &jPtr{nil: true}
		}
		return &jPtr{v: w.jsonOut(st, w.load(st, p), u.Elem())}
	case *types.Slice:
		s, ok := v.(SliceV)
		if !ok {
			unsup("json of %T", v)
		}
		if s.arr.obj == 0 {
			return &jSlice{nil: true}
		}
		r := &jSlice{}
		for _, e := range w.sliceElems(st, s) {
			r.e = append(r.e, w.jsonOut(st, e, u.Elem()))
		}
		return r
	case *types.Array:
		r := &jSlice{}
		for _, e := range v.(*Agg).v {
			r.e = append(r.e, w.jsonOut(st, e, u.Elem()))
		}
		return r
	case *types.Map:
		m := v.(MapV)
		if m.obj == 0 {
			return &jMap{nil: true}
		}
		r := &jMap{}
		for _, e := range w.objVal(st, m.obj).(*MapObj).e {
			r.e = append(r.e, MapEntry{e.k, w.jsonOut(st, e.v, u.Elem())})
		}
		return r
	case *types.Struct:
		r := &jStruct{f: map[string]jField{}}
		for i := 0; i < u.NumFields(); i++ {
			k, ok := jsonKey(u, i)
			if !ok {
				continue
			}
			r.f[k] = jField{w.jsonOut(st, v.(*Agg).v[i], u.Field(i).Type()), u.Field(i).Type()}
		}
		return r
	case *types.Interface:
		iv := v.(Iface)
		if iv.t == nil {
			return &jPtr{nil: true}
		}
		unsup("json of interface value %s", iv.t)
	}
	unsup("json of %s", t)
	return nil
}

func (w *Worker) jsonIn(st *State, j Value, t types.Type, old Value) Value {
	if n, ok := t.(*types.Named); ok && hasMethod(n, "UnmarshalJSON") {
		return j
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if p, ok := j.(*jPtr); ok && p.nil {
			return old
		}
		if x, ok := j.(*Term); ok {
			if o, ok := old.(*Term); ok && o.w == x.w {
				return j
			}
			unsup("json type change")
		}
		return j
	case *types.Pointer:
		p, ok := j.(*jPtr)
		if !ok {
			return w.alloc(st, w.jsonIn(st, j, u.Elem(), w.zero(u.Elem())))
		}
		if p.nil {
			return Ptr{}
		}
		return w.alloc(st, w.jsonIn(st, p.v, u.Elem(), w.zero(u.Elem())))
	case *types.Slice:
		s, ok := j.(*jSlice)
		if !ok {
			unsup("json slice from %T", j)
		}
		if s.nil {
			return SliceV{}
		}
		a := &Agg{}
		for _, e := range s.e {
			a.v = append(a.v, w.jsonIn(st, e, u.Elem(), w.zero(u.Elem())))
		}
		return w.mkSlice(st, a, len(a.v))
	case *types.Array:
		s := j.(*jSlice)
		a := &Agg{}
		for i := 0; i < int(u.Len()); i++ {
			if i < len(s.e) {
				a.v = append(a.v, w.jsonIn(st, s.e[i], u.Elem(), w.zero(u.Elem())))
			} else {
				a.v = append(a.v, w.zero(u.Elem()))
			}
		}
		return a
	case *types.Map:
		m := j.(*jMap)
		if m.nil {
			return MapV{}
		}
		o := &MapObj{}
		for _, e := range m.e {
			o.e = append(o.e, MapEntry{e.k, w.jsonIn(st, e.v, u.Elem(), w.zero(u.Elem()))})
		}
		return MapV{w.alloc(st, o).obj}
	case *types.Struct:
		if p, ok := j.(*jPtr); ok && !p.nil {
			j = p.v
		}
		s, ok := j.(*jStruct)
		if !ok {
			unsup("json struct from %T", j)
		}
		n := append([]Value(nil), old.(*Agg).v...)
		for i := 0; i < u.NumFields(); i++ {
			k, ok := jsonKey(u, i)
			if !ok {
				continue
			}
			f, ok := s.f[k]
			if !ok {
				continue
			}
			n[i] = w.jsonIn(st, f.v, u.Field(i).Type(), n[i])
		}
		return &Agg{v: n}
	case *types.Interface:
		if p, ok := j.(*jPtr); ok && p.nil {
			return Iface{}
		}
	}
	unsup("json into %s", t)
	return nil
}

func jsonMarshal(w *Worker, st *State, a []Value) (Value, ctl) {
	iv := a[0].(Iface)
	if iv.t == nil {
		unsup("json.Marshal(nil)")
	}
	return Tuple{&JSONB{v: w.jsonOut(st, iv.v, iv.t), t: iv.t}, Iface{}}, cRet
}

func jsonUnmarshal(w *Worker, st *State, a []Value) (Value, ctl) {
	b, ok := a[0].(*JSONB)
	if !ok {
		unsup("json.Unmarshal of unknown bytes")
	}
	iv := a[1].(Iface)
	pt, ok := under(iv.t).(*types.Pointer)
	if !ok {
		unsup("json.Unmarshal target")
	}
	p := iv.v.(Ptr)
	v := b.v
	if jp, ok := v.(*jPtr); ok {
		if _, isP := under(pt.Elem()).(*types.Pointer); !isP {
			if jp.nil {
				return Iface{}, cRet
			}
			v = jp.v
		}
	}
	w.store(st, p, w.jsonIn(st, v, pt.Elem(), w.load(st, p)))
	return Iface{}, cRet
}


// strings.Builder and bytes.Buffer: the text lives as a string term in a field of the builder
func bldField(p Ptr, w *Worker, st *State) Ptr {
	return Ptr{p.obj, p.path + string([]byte{0, byte(len(w.load(st, p).(*Agg).v) - 1)})}
}

func bldOf(v Value) (Ptr, bool) {
	iv, ok := v.(Iface)
	if !ok || iv.t == nil {
		return Ptr{}, false
	}
	switch iv.t.String() {
	case "*strings.Builder", "*bytes.Buffer":
		return iv.v.(Ptr), true
	}
	return Ptr{}, false
}

func bldText(w *Worker, st *State, p Ptr) *Term {
	if t, ok := w.load(st, bldField(p, w, st)).(*Term); ok && t.w == wStr {
		return t
	}
	return w.ts.Str("")
}

func bldAppend(w *Worker, st *State, p Ptr, t *Term) {
	w.store(st, bldField(p, w, st), w.ts.Concat(bldText(w, st, p), t))
}

func bldWrite(w *Worker, st *State, a []Value) (Value, ctl) {
	t := a[1].(*Term)
	n := w.ts.BV(1, 64)
	isByte := t.w == 8
	if t.w != wStr {
		if t.op != OConst {
			unsup("write of a symbolic character")
		}
		if isByte {
			t = w.ts.Str(string([]byte{byte(t.k)}))
		} else {
			t = w.ts.Str(string(rune(int32(t.k))))
		}
	}
	bldAppend(w, st, a[0].(Ptr), t)
	if isByte {
		return Iface{}, cRet
	}
	return Tuple{n, Iface{}}, cRet
}

func bldString(w *Worker, st *State, a []Value) (Value, ctl) { return bldText(w, st, a[0].(Ptr)), cRet }

func bldReset(w *Worker, st *State, a []Value) (Value, ctl) {
	w.store(st, bldField(a[0].(Ptr), w, st), w.ts.Str(""))
	return nil, cRet
}

func bldLen(w *Worker, st *State, a []Value) (Value, ctl) {
	t := bldText(w, st, a[0].(Ptr))
	if t.op == OStr {
		return w.ts.BV(uint64(len(t.s)), 64), cRet
	}
	unsup("length of a symbolic text")
	return nil, cRet
}
