package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Ptr is an address: heap object + path of field/element indexes (2 bytes each).
type Ptr struct {
	obj  int32
	path string
}

type SliceV struct {
	arr         Ptr // address of the backing array value (obj 0: nil slice)
	off, ln, cp int
}

type Agg struct{ v []Value } // struct or array value, immutable once shared

type MapV struct{ obj int32 }

type MapEntry struct{ k, v Value }

type MapObj struct{ e []MapEntry }

type Iface struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn   *ssa.Function
	b    []Value
	bi   *ssa.Builtin
	recv Value // bound receiver for intrinsic bound methods
}

type Tuple []Value

// Lazy is a slice whose elements are present under guards (result of funk.Filter).
type Lazy struct {
	elems  []Value
	guards []*Term
	elemT  types.Type
}

// JSONB is the []byte produced by json.Marshal: an opaque box around a value.
type JSONB struct {
	v Value
	t types.Type
}

type FloatV float64

// FInt is a float64 that equals an integer term exactly.
type FInt struct{ t *Term }

type IterObj struct {
	keys []MapEntry
	mp   int32
	i    int
	str  []rune
	isS  bool
	offs []int
}

type ChanV struct{ obj int32 }

func pathAdd(p string, i int) string {
	return p + string([]byte{byte(i >> 8), byte(i)})
}

func under(t types.Type) types.Type { return t.Underlying() }

func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.UntypedRune, types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (w *Worker) zero(t types.Type) Value {
	if v, ok := w.zeros[t]; ok {
		return v
	}
	v := w.zero1(t)
	w.zeros[t] = v
	return v
}

func (w *Worker) zero1(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if wd, _, ok := intInfo(t); ok {
			return w.ts.BV(0, wd)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return w.ts.F
		case u.Info()&types.IsString != 0:
			return w.ts.Str("")
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapV{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Chan:
		return ChanV{}
	case *types.Struct:
		a := &Agg{v: make([]Value, u.NumFields())}
		for i := range a.v {
			a.v[i] = w.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := &Agg{v: make([]Value, u.Len())}
		for i := range a.v {
			a.v[i] = w.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = w.zero(u.At(i).Type())
		}
		return tp
	}
	unsup("zero value of %s", t)
	return nil
}

// mergeVal builds ite(g, a, b); ok=false when the shapes differ.
func (w *Worker) mergeVal(g *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.w != y.w {
			return nil, false
		}
		return w.ts.Ite(g, x, y), true
	case Ptr:
		y, ok := b.(Ptr)
		return a, ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return a, ok && x == y
	case MapV:
		y, ok := b.(MapV)
		return a, ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return a, ok && x == y
	case FloatV:
		y, ok := b.(FloatV)
		return a, ok && x == y
	case FInt:
		y, ok := b.(FInt)
		if !ok {
			return nil, false
		}
		return FInt{w.ts.Ite(g, x.t, y.t)}, true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.v) != len(y.v) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		return w.mergeList(g, x, x.v, y.v)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil || y.t == nil {
			return a, x.t == nil && y.t == nil
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := w.mergeVal(g, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || x.fn != y.fn || len(x.b) != len(y.b) || x.bi != nil {
			return nil, false
		}
		nb := make([]Value, len(x.b))
		for i := range x.b {
			v, ok := w.mergeVal(g, x.b[i], y.b[i])
			if !ok {
				return nil, false
			}
			nb[i] = v
		}
		return &FuncV{fn: x.fn, b: nb}, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := w.mergeVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || len(x.e) != len(y.e) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := &MapObj{e: make([]MapEntry, len(x.e))}
		for i := range x.e {
			if !sameKey(x.e[i].k, y.e[i].k) {
				return nil, false
			}
			v, ok := w.mergeVal(g, x.e[i].v, y.e[i].v)
			if !ok {
				return nil, false
			}
			r.e[i] = MapEntry{x.e[i].k, v}
		}
		return r, true
	case *Lazy:
		y, ok := b.(*Lazy)
		if !ok || len(x.elems) != len(y.elems) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := &Lazy{elems: x.elems, elemT: x.elemT}
		for i := range x.elems {
			if x.elems[i] != y.elems[i] {
				return nil, false
			}
			r.guards = append(r.guards, w.ts.Ite(g, x.guards[i], y.guards[i]))
		}
		return r, true
	case *IterObj:
		y, ok := b.(*IterObj)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.mp != y.mp || x.i != y.i || len(x.keys) != len(y.keys) || x.isS || y.isS {
			return nil, false
		}
		for i := range x.keys {
			if !sameKey(x.keys[i].k, y.keys[i].k) {
				return nil, false
			}
		}
		return x, true
	case *JSONB:
		y, ok := b.(*JSONB)
		return a, ok && x == y
	case nil:
		return nil, b == nil
	}
	return nil, false
}

func sameKey(a, b Value) bool {
	switch x := a.(type) {
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		for i := range x.v {
			if !sameKey(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && ((x.t == nil && y.t == nil) || (x.t != nil && y.t != nil && types.Identical(x.t, y.t) && sameKey(x.v, y.v)))
	case *Term, Ptr, FloatV, MapV, ChanV:
		return a == b
	}
	return false
}

func (w *Worker) mergeList(g *Term, orig *Agg, a, b []Value) (Value, bool) {
	var out []Value
	for i := range a {
		if fastSame(a[i], b[i]) {
			if out != nil {
				out[i] = a[i]
			}
			continue
		}
		v, ok := w.mergeVal(g, a[i], b[i])
		if !ok {
			return nil, false
		}
		if out == nil {
			out = make([]Value, len(a))
			copy(out, a)
		}
		out[i] = v
	}
	if out == nil {
		return orig, true
	}
	return &Agg{v: out}, true
}

func fastSame(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}

// eqVal is Go's == on values of (static or dynamic) type t.
func (w *Worker) eqVal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("eq term vs %T", b)
		}
		return w.ts.Eq(x, y)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			unsup("eq ptr vs %T", b)
		}
		return w.ts.Bool(x == y)
	case MapV:
		y, ok := b.(MapV)
		if !ok {
			unsup("eq map vs %T", b)
		}
		return w.ts.Bool(x == y)
	case ChanV:
		return w.ts.Bool(a == b)
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			if _, l := b.(*Lazy); l {
				return w.ts.F
			}
			if _, l := b.(*JSONB); l {
				return w.ts.F
			}
			unsup("eq slice vs %T", b)
		}
		if y.arr.obj == 0 || x.arr.obj == 0 {
			return w.ts.Bool(y.arr.obj == x.arr.obj)
		}
		unsup("slice comparison")
	case *Lazy, *JSONB:
		return w.ts.F // compared with nil
	case *FuncV:
		y, ok := b.(*FuncV)
		if ok && (x == nil || y == nil) {
			return w.ts.Bool(x == y)
		}
		unsup("func comparison")
	case FloatV:
		if y, ok := b.(FloatV); ok {
			return w.ts.Bool(x == y)
		}
		if y, ok := b.(FInt); ok {
			return w.eqVal(y, x)
		}
	case FInt:
		switch y := b.(type) {
		case FInt:
			return w.ts.Eq(x.t, y.t)
		case FloatV:
			if float64(int64(y)) == float64(y) {
				return w.ts.Eq(x.t, w.ts.Int(int64(y)))
			}
			return w.ts.F
		}
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.v) != len(y.v) {
			unsup("eq aggregate")
		}
		r := w.ts.T
		for i := range x.v {
			r = w.ts.And(r, w.eqVal(x.v[i], y.v[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("eq iface vs %T", b)
		}
		if x.t == nil || y.t == nil {
			return w.ts.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.ts.F
		}
		return w.eqVal(x.v, y.v)
	}
	unsup("eq %T %T", a, b)
	return nil
}

func (w *Worker) showVal(v Value) string {
	switch x := v.(type) {
	case *Term:
		return w.ts.show(x, 4)
	case *Agg:
		s := "{"
		for i, e := range x.v {
			if i > 0 {
				s += " "
			}
			if i > 6 {
				s += "…"
				break
			}
			s += w.showVal(e)
		}
		return s + "}"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("(%s %s)", x.t, w.showVal(x.v))
	}
	return fmt.Sprintf("%v", v)
}
