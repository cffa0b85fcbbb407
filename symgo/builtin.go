package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, need int, esz int) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return need
	}
	b := nc * esz
	for _, c := range sizeClasses {
		if b <= c {
			return c / esz
		}
	}
	return nc
}

var stdSizes = types.SizesFor("gc", "amd64")

func (w *Worker) builtin(st *State, b *ssa.Builtin, args []Value, dest *ssa.Call, isDefer bool, c *ssa.CallCommon) ctl {
	done := func(v Value) ctl { return w.retIntr(st, v, dest, isDefer) }
	force := func(i int) (SliceV, bool, ctl) {
		if _, ok := args[i].(SliceV); ok {
			return args[i].(SliceV), true, cCont
		}
		if c == nil {
			unsup("builtin on lazy slice in defer")
		}
		s, ok, ct := w.forceSlice(st, c.Args[i])
		return s, ok, ct
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return done(w.ts.Int(int64(x.ln)))
		case *Term:
			return done(w.ts.StrLen(x))
		case MapV:
			if x.obj == 0 {
				return done(w.ts.Int(0))
			}
			return done(w.ts.Int(int64(len(w.objVal(st, x.obj).(*MapObj).e))))
		case ChanV:
			if x.obj == 0 {
				return done(w.ts.Int(0))
			}
			return done(w.ts.Int(int64(len(w.objVal(st, x.obj).(*Agg).v) - 1)))
		case *Lazy:
			s := w.ts.Int(0)
			for _, g := range x.guards {
				s = w.ts.Add(s, w.ts.Ite(g, w.ts.Int(1), w.ts.Int(0)))
			}
			return done(s)
		case *Agg:
			return done(w.ts.Int(int64(len(x.v))))
		case Ptr:
			n := under(under(b.Type().(*types.Signature).Params().At(0).Type()).(*types.Pointer).Elem()).(*types.Array).Len()
			return done(w.ts.Int(n))
		}
		unsup("len of %T", args[0])
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return done(w.ts.Int(int64(x.cp)))
		}
		unsup("cap of %T", args[0])
	case "append":
		s, ok, ct := force(0)
		if !ok {
			return ct
		}
		var add []Value
		switch t := args[1].(type) {
		case *Term:
			if t.op != OStr {
				unsup("append of symbolic string")
			}
			for i := 0; i < len(t.s); i++ {
				add = append(add, w.ts.BV(uint64(t.s[i]), 8))
			}
		default:
			s2, ok, ct := force(1)
			if !ok {
				return ct
			}
			add = w.sliceElems(st, s2)
		}
		if len(add) == 0 {
			return done(s)
		}
		need := s.ln + len(add)
		if need <= s.cp {
			old := w.load(st, s.arr).(*Agg)
			n := make([]Value, len(old.v))
			copy(n, old.v)
			copy(n[s.off+s.ln:], add)
			w.store(st, s.arr, &Agg{v: n})
			return done(SliceV{s.arr, s.off, need, s.cp})
		}
		var et types.Type
		if dest != nil {
			et = under(dest.Type()).(*types.Slice).Elem()
		} else {
			et = under(b.Type().(*types.Signature).Params().At(0).Type()).(*types.Slice).Elem()
		}
		nc := growCap(s.cp, need, int(stdSizes.Sizeof(et)))
		n := make([]Value, nc)
		copy(n, w.sliceElems(st, s))
		copy(n[s.ln:], add)
		z := w.zero(et)
		for i := need; i < nc; i++ {
			n[i] = z
		}
		return done(w.mkSlice(st, &Agg{v: n}, need))
	case "copy":
		d, ok, ct := force(0)
		if !ok {
			return ct
		}
		var src []Value
		if t, isT := args[1].(*Term); isT {
			if t.op != OStr {
				unsup("copy of symbolic string")
			}
			for i := 0; i < len(t.s); i++ {
				src = append(src, w.ts.BV(uint64(t.s[i]), 8))
			}
		} else {
			s, ok, ct := force(1)
			if !ok {
				return ct
			}
			src = w.sliceElems(st, s)
		}
		k := d.ln
		if len(src) < k {
			k = len(src)
		}
		if k > 0 {
			tmp := append([]Value(nil), src[:k]...)
			old := w.load(st, d.arr).(*Agg)
			n := make([]Value, len(old.v))
			copy(n, old.v)
			copy(n[d.off:], tmp)
			w.store(st, d.arr, &Agg{v: n})
		}
		return done(w.ts.Int(int64(k)))
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return done(Tuple{})
		}
		i, ct, ok := w.mapFind(st, m, args[1])
		if !ok {
			if isDefer {
				unsup("deferred delete with symbolic key")
			}
			return ct
		}
		if i >= 0 {
			o := w.objVal(st, m.obj).(*MapObj)
			n := &MapObj{}
			n.e = append(n.e, o.e[:i]...)
			n.e = append(n.e, o.e[i+1:]...)
			st.heap.set(m.obj, n)
		}
		return done(Tuple{})
	case "clear":
		if m, ok := args[0].(MapV); ok {
			if m.obj != 0 {
				st.heap.set(m.obj, &MapObj{})
			}
			return done(Tuple{})
		}
		sl, ok, ct := force(0)
		if !ok {
			return ct
		}
		if sl.ln > 0 {
			z := w.zero(under(b.Type().(*types.Signature).Params().At(0).Type()).(*types.Slice).Elem())
			old := w.load(st, sl.arr).(*Agg)
			n := make([]Value, len(old.v))
			copy(n, old.v)
			for i := 0; i < sl.ln; i++ {
				n[sl.off+i] = z
			}
			w.store(st, sl.arr, &Agg{v: n})
		}
		return done(Tuple{})
	case "recover":
		f := st.top
		if f.isDefer && st.panicv != nil && !st.panicv.recovered && f.parent != nil && f.parent.unwind {
			np := *st.panicv
			np.recovered = true
			st.panicv = &np
			v := np.val
			if i, ok := v.(Iface); ok {
				return done(i)
			}
			return done(Iface{t: types.Typ[types.String], v: w.ts.Str("panic")})
		}
		return done(Iface{})
	case "print", "println":
		return done(Tuple{})
	case "panic":
		return w.startPanic(st, args[0], "panic: "+w.showVal(args[0]))
	case "min", "max":
		acc, ok := args[0].(*Term)
		if !ok {
			unsup("min/max on %T", args[0])
		}
		_, signed, _ := intInfo(c.Args[0].Type())
		if acc.w == wStr || !signed {
			unsup("min/max of strings or unsigned")
		}
		for _, a := range args[1:] {
			t := a.(*Term)
			lt := w.ts.Slt(acc, t)
			if b.Name() == "min" {
				acc = w.ts.Ite(lt, acc, t)
			} else {
				acc = w.ts.Ite(lt, t, acc)
			}
		}
		return done(acc)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			return w.goPanic(st, "invalid memory address or nil pointer dereference")
		}
		return done(args[0])
	case "close":
		c := args[0].(ChanV)
		if c.obj == 0 {
			return w.goPanic(st, "close of nil channel")
		}
		q := w.objVal(st, c.obj).(*Agg)
		if q.v[0] == Value(w.ts.T) {
			return w.goPanic(st, "close of closed channel")
		}
		st.heap.set(c.obj, &Agg{v: append([]Value{w.ts.T}, q.v[1:]...)})
		return done(Tuple{})
	}
	unsup("builtin %s", b.Name())
	return cDead
}
