package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Terms are hash-consed per worker. Sorts: w==0 bool, 1..64 bit-vector, wStr string.
// Strings never reach the solver: string terms are ite-DAGs over constants and
// formatted leaves, and equality between them is pushed down to bit-vector formulas.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OSDiv
	OSRem
	OUDiv
	OURem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OSlt
	OSle
	OUlt
	OUle
	OZext
	OSext
	OTrunc
	OStr // constant string
	OFmt // concatenation of segments (a: left, b: right), leaves OStr or OItoa
	OItoa
	OBox // opaque boxed string (JSON text etc.)
)

const wStr = 255

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvsdiv", "bvsrem", "bvudiv", "bvurem", "bvshl", "bvlshr", "bvashr", "bvand", "bvor", "bvxor", "bvslt", "bvsle", "bvult", "bvule", "zext", "sext", "trunc", "str", "fmt", "itoa", "box"}

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	s       string
	id      uint32
	ivOK    bool // signed interval known
	lo, hi  int64
	// evaluation cache
	egen uint32
	ev   uint64
	es   string
	// printed to the solver?
	emitted  bool
	emittedI bool
	lin      int8 // 1: expressible over the integers, 2: not
	box      Value
	allc    int8 // 1: all ite leaves constant, 2: not
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
	s       string
}

type VarInfo struct {
	name   string
	w      uint8
	lo, hi int64
	ranged bool
	term   *Term
}

type TS struct {
	tab   map[tkey]*Term
	n     uint32
	T, F  *Term
	vars  []*VarInfo
	byN   map[string]*VarInfo
	eqm   map[[2]uint32]*Term
	gen   uint32
	boxes int
}

func NewTS() *TS {
	ts := &TS{tab: map[tkey]*Term{}, byN: map[string]*VarInfo{}, eqm: map[[2]uint32]*Term{}}
	ts.F = ts.mk(Term{op: OConst, w: 0, k: 0})
	ts.T = ts.mk(Term{op: OConst, w: 0, k: 1})
	return ts
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (ts *TS) mk(t Term) *Term {
	key := tkey{t.op, t.w, tid(t.a), tid(t.b), tid(t.c), t.k, t.s}
	if x, ok := ts.tab[key]; ok {
		return x
	}
	ts.n++
	nt := &Term{}
	*nt = t
	nt.id = ts.n
	ts.interval(nt)
	ts.tab[key] = nt
	return nt
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := 64 - uint(w)
	return int64(k<<sh) >> sh
}

func (ts *TS) BV(k uint64, w uint8) *Term { return ts.mk(Term{op: OConst, w: w, k: k & mask(w)}) }
func (ts *TS) Int(k int64) *Term          { return ts.BV(uint64(k), 64) }
func (ts *TS) Bool(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}
func (ts *TS) Str(s string) *Term { return ts.mk(Term{op: OStr, w: wStr, s: s}) }
func (ts *TS) Box(v Value) *Term {
	ts.boxes++
	t := ts.mk(Term{op: OBox, w: wStr, k: uint64(ts.boxes)})
	t.box = v
	return t
}

func (t *Term) isC() bool   { return t.op == OConst || t.op == OStr }
func (t *Term) isT() bool   { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isF() bool   { return t.op == OConst && t.w == 0 && t.k == 0 }
func (t *Term) sval() int64 { return sx(t.k, t.w) }

func (ts *TS) Var(name string, w uint8) *Term {
	if v, ok := ts.byN[name]; ok {
		if v.w != w {
			panic("variable sort mismatch: " + name)
		}
		return v.term
	}
	vi := &VarInfo{name: name, w: w}
	vi.term = ts.mk(Term{op: OVar, w: w, s: name, k: uint64(len(ts.vars))})
	ts.vars = append(ts.vars, vi)
	ts.byN[name] = vi
	return vi.term
}

func (ts *TS) VarRange(name string, w uint8, lo, hi int64) *Term {
	// the range is part of the identity: the same input may have another range in another case
	name = fmt.Sprintf("%s[%d..%d]", name, lo, hi)
	if v, ok := ts.byN[name]; ok {
		return v.term
	}
	vi := &VarInfo{name: name, w: w, lo: lo, hi: hi, ranged: true}
	t := &Term{op: OVar, w: w, s: name, k: uint64(len(ts.vars)), ivOK: true, lo: lo, hi: hi}
	ts.n++
	t.id = ts.n
	ts.tab[tkey{op: OVar, w: w, k: t.k, s: name}] = t
	vi.term = t
	ts.vars = append(ts.vars, vi)
	ts.byN[name] = vi
	return t
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, true
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (ts *TS) interval(t *Term) {
	if t.w == 0 || t.w == wStr {
		return
	}
	fits := func(lo, hi int64) {
		if t.w < 64 {
			m := int64(1) << (t.w - 1)
			if lo < -m || hi >= m {
				return
			}
		}
		t.ivOK, t.lo, t.hi = true, lo, hi
	}
	switch t.op {
	case OConst:
		v := t.sval()
		t.ivOK, t.lo, t.hi = true, v, v
	case OAdd:
		if t.a.ivOK && t.b.ivOK {
			lo, o1 := addOv(t.a.lo, t.b.lo)
			hi, o2 := addOv(t.a.hi, t.b.hi)
			if (o1 || t.b.lo == 0) && (o2 || t.b.hi == 0) {
				fits(lo, hi)
			}
		}
	case OSub:
		if t.a.ivOK && t.b.ivOK && t.b.lo > math.MinInt64 && t.b.hi > math.MinInt64 {
			lo, o1 := addOv(t.a.lo, -t.b.hi)
			hi, o2 := addOv(t.a.hi, -t.b.lo)
			if (o1 || t.b.hi == 0) && (o2 || t.b.lo == 0) {
				fits(lo, hi)
			}
		}
	case OMul:
		if t.a.ivOK && t.b.ivOK {
			p := [4]int64{}
			ok := true
			for i, x := range [4][2]int64{{t.a.lo, t.b.lo}, {t.a.lo, t.b.hi}, {t.a.hi, t.b.lo}, {t.a.hi, t.b.hi}} {
				v, o := mulOv(x[0], x[1])
				ok = ok && o
				p[i] = v
			}
			if ok {
				lo, hi := p[0], p[0]
				for _, v := range p {
					lo, hi = min64(lo, v), max64(hi, v)
				}
				fits(lo, hi)
			}
		}
	case OSDiv:
		if t.a.ivOK && t.b.isC() && t.b.sval() > 0 {
			d := t.b.sval()
			fits(t.a.lo/d, t.a.hi/d)
		}
	case OSRem:
		if t.b.isC() && t.b.sval() > 0 {
			d := t.b.sval()
			lo, hi := -(d - 1), d-1
			if t.a.ivOK && t.a.lo >= 0 {
				lo = 0
				hi = min64(hi, t.a.hi)
			}
			fits(lo, hi)
		}
	case OIte:
		if t.b.ivOK && t.c.ivOK {
			fits(min64(t.b.lo, t.c.lo), max64(t.b.hi, t.c.hi))
		}
	case OSext:
		if t.a.ivOK {
			fits(t.a.lo, t.a.hi)
		}
	case OZext:
		if t.a.ivOK && t.a.lo >= 0 {
			fits(t.a.lo, t.a.hi)
		} else if t.a.w < 63 {
			fits(0, int64(mask(t.a.w)))
		}
	case OTrunc:
		if t.a.ivOK {
			fits(t.a.lo, t.a.hi)
		}
	case OBAnd:
		if t.a.ivOK && t.a.lo >= 0 {
			fits(0, t.a.hi)
		} else if t.b.ivOK && t.b.lo >= 0 {
			fits(0, t.b.hi)
		}
	case OLShr:
		if t.b.isC() && t.b.k > 0 && t.b.k < uint64(t.w) && t.w == 64 {
			fits(0, int64(^uint64(0)>>t.b.k))
		}
	}
}

func (ts *TS) Not(a *Term) *Term {
	if a.isC() {
		return ts.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op {
	case OSlt:
		return ts.Sle(a.b, a.a)
	case OSle:
		return ts.Slt(a.b, a.a)
	case OUlt:
		return ts.Ule(a.b, a.a)
	case OUle:
		return ts.Ult(a.b, a.a)
	}
	return ts.mk(Term{op: ONot, w: 0, a: a})
}

func (ts *TS) isNeg(a, b *Term) bool {
	if a.op == ONot && a.a == b {
		return true
	}
	if b.op == ONot && b.a == a {
		return true
	}
	switch {
	case a.op == OSlt && b.op == OSle && a.a == b.b && a.b == b.a:
		return true
	case a.op == OSle && b.op == OSlt && a.a == b.b && a.b == b.a:
		return true
	case a.op == OSlt && b.op == OSlt:
		// x<k and k-1<x
		if a.a == b.b && a.b.op == OConst && b.a.op == OConst && a.b.sval() == b.a.sval()+1 && b.a.sval() != math.MaxInt64 {
			return true
		}
		if b.a == a.b && b.b.op == OConst && a.a.op == OConst && b.b.sval() == a.a.sval()+1 && a.a.sval() != math.MaxInt64 {
			return true
		}
	}
	return false
}

func (ts *TS) And(a, b *Term) *Term {
	if a.isF() || b.isF() {
		return ts.F
	}
	if a.isT() {
		return b
	}
	if b.isT() || a == b {
		return a
	}
	if ts.isNeg(a, b) {
		return ts.F
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	// a ∧ (¬a ∨ x) = a ∧ x
	if b.op == OOr {
		if ts.isNeg(a, b.a) {
			return ts.And(a, b.b)
		}
		if ts.isNeg(a, b.b) {
			return ts.And(a, b.a)
		}
		if b.a == a || b.b == a {
			return a
		}
	}
	if a.op == OOr {
		if ts.isNeg(b, a.a) {
			return ts.And(a.b, b)
		}
		if ts.isNeg(b, a.b) {
			return ts.And(a.a, b)
		}
		if a.a == b || a.b == b {
			return b
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(Term{op: OAnd, w: 0, a: a, b: b})
}

func (ts *TS) Or(a, b *Term) *Term {
	if a.isT() || b.isT() {
		return ts.T
	}
	if a.isF() {
		return b
	}
	if b.isF() || a == b {
		return a
	}
	if ts.isNeg(a, b) {
		return ts.T
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OAnd {
		if a.a == b || a.b == b {
			return b
		}
		if ts.isNeg(b, a.a) {
			return ts.Or(a.b, b)
		}
		if ts.isNeg(b, a.b) {
			return ts.Or(a.a, b)
		}
	}
	if b.op == OAnd {
		if b.a == a || b.b == a {
			return a
		}
		if ts.isNeg(a, b.a) {
			return ts.Or(a, b.b)
		}
		if ts.isNeg(a, b.b) {
			return ts.Or(a, b.a)
		}
	}
	// (x∧y) ∨ (x∧¬y) = x
	if a.op == OAnd && b.op == OAnd {
		if a.a == b.a && ts.isNeg(a.b, b.b) {
			return a.a
		}
		if a.b == b.b && ts.isNeg(a.a, b.a) {
			return a.b
		}
		if a.a == b.b && ts.isNeg(a.b, b.a) {
			return a.a
		}
		if a.b == b.a && ts.isNeg(a.a, b.b) {
			return a.b
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(Term{op: OOr, w: 0, a: a, b: b})
}

func (ts *TS) Implies(a, b *Term) *Term { return ts.Or(ts.Not(a), b) }

func (ts *TS) Ite(c, a, b *Term) *Term {
	if c.isT() || a == b {
		return a
	}
	if c.isF() {
		return b
	}
	if c.op == ONot {
		return ts.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isT() {
			return ts.Or(c, b)
		}
		if a.isF() {
			return ts.And(ts.Not(c), b)
		}
		if b.isT() {
			return ts.Or(ts.Not(c), a)
		}
		if b.isF() {
			return ts.And(c, a)
		}
		if a == c {
			return ts.Or(c, b)
		}
		if b == c {
			return ts.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		return ts.Ite(c, a.b, b)
	}
	if b.op == OIte && b.a == c {
		return ts.Ite(c, a, b.c)
	}
	// ite(c, x, ite(d, x, y)) = ite(c∨d, x, y)
	if b.op == OIte && b.b == a {
		return ts.Ite(ts.Or(c, b.a), a, b.c)
	}
	if b.op == OIte && b.c == a {
		return ts.Ite(ts.And(ts.Not(c), b.a), b.b, a)
	}
	if a.op == OIte && a.c == b {
		return ts.Ite(ts.And(c, a.a), a.b, b)
	}
	if a.op == OIte && a.b == b {
		return ts.Ite(ts.And(c, ts.Not(a.a)), a.c, b)
	}
	// ite(c, x+k, x) = x + ite(c,k,0)
	if a.w > 0 && a.w <= 64 {
		ab, ak := splitAdd(a)
		bb, bk := splitAdd(b)
		if ab == bb && ab != nil && !(ab.op == OConst) {
			return ts.Add(ab, ts.mkIte(c, ts.BV(ak, a.w), ts.BV(bk, a.w)))
		}
	}
	return ts.mkIte(c, a, b)
}

func (ts *TS) mkIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	return ts.mk(Term{op: OIte, w: a.w, a: c, b: a, c: b})
}

// splitAdd views t as base + constant (base nil for pure constants).
func splitAdd(t *Term) (*Term, uint64) {
	if t.op == OConst {
		return nil, t.k
	}
	if t.op == OAdd && t.b.op == OConst {
		return t.a, t.b.k
	}
	return t, 0
}

func (ts *TS) allConstLeaves(t *Term) bool {
	if t.isC() {
		return true
	}
	if t.op != OIte {
		return false
	}
	if t.allc != 0 {
		return t.allc == 1
	}
	r := ts.allConstLeaves(t.b) && ts.allConstLeaves(t.c)
	if r {
		t.allc = 1
	} else {
		t.allc = 2
	}
	return r
}

func (ts *TS) Eq(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq sort mismatch %d %d", a.w, b.w))
	}
	if a.w == wStr {
		return ts.strEq(a, b)
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isT() {
			return a
		}
		if b.isF() {
			return ts.Not(a)
		}
		if ts.isNeg(a, b) {
			return ts.F
		}
		if a.id > b.id {
			a, b = b, a
		}
		return ts.mk(Term{op: OEq, w: 0, a: a, b: b})
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.ivOK && b.ivOK && (a.hi < b.lo || b.hi < a.lo) {
		return ts.F
	}
	if b.op == OConst {
		if a.op == OAdd && a.b.op == OConst {
			return ts.Eq(a.a, ts.BV(b.k-a.b.k, a.w))
		}
		if a.op == OIte {
			key := [2]uint32{a.id, b.id}
			if r, ok := ts.eqm[key]; ok {
				return r
			}
			var r *Term
			if ts.allConstLeaves(a) || a.b.isC() || a.c.isC() {
				r = ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
			} else {
				r = ts.mk(Term{op: OEq, w: 0, a: a, b: b})
			}
			ts.eqm[key] = r
			return r
		}
		if (a.op == OZext || a.op == OSext) && a.a.w < a.w {
			kt := b.k & mask(a.a.w)
			var back uint64
			if a.op == OZext {
				back = kt
			} else {
				back = uint64(sx(kt, a.a.w)) & mask(a.w)
			}
			if back != b.k {
				return ts.F
			}
			return ts.Eq(a.a, ts.BV(kt, a.a.w))
		}
	}
	ab, ak := splitAdd(a)
	bb, bk := splitAdd(b)
	if ab == bb && ab != nil {
		return ts.Bool(ak == bk)
	}
	if ak != 0 && ak == bk && ab != nil && bb != nil {
		return ts.Eq(ab, bb)
	}
	if a.op == OIte && b.op == OIte && a.a == b.a {
		return ts.Ite(a.a, ts.Eq(a.b, b.b), ts.Eq(a.c, b.c))
	}
	if a.op == OIte && (a.b == b || a.c == b) {
		return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
	}
	if b.op == OIte && (b.b == a || b.c == a) {
		return ts.Ite(b.a, ts.Eq(b.b, a), ts.Eq(b.c, a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(Term{op: OEq, w: 0, a: a, b: b})
}

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func (ts *TS) strEq(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.op == OStr && b.op == OStr {
		return ts.Bool(a.s == b.s)
	}
	if a.id > b.id {
		a, b = b, a
	}
	key := [2]uint32{a.id, b.id}
	if r, ok := ts.eqm[key]; ok {
		return r
	}
	var r *Term
	switch {
	case a.op == OIte:
		r = ts.Ite(a.a, ts.strEq(a.b, b), ts.strEq(a.c, b))
	case b.op == OIte:
		r = ts.Ite(b.a, ts.strEq(a, b.b), ts.strEq(a, b.c))
	default:
		r = ts.fmtEq(a, b)
	}
	ts.eqm[key] = r
	return r
}

func segs(t *Term, out []*Term) []*Term {
	if t.op == OFmt {
		return segs(t.b, segs(t.a, out))
	}
	if t.op == OStr && t.s == "" {
		return out
	}
	return append(out, t)
}

// fmtEq compares two concatenations of literals and decimal integers. It is exact
// when every integer is delimited by a non-digit literal or the end of the string.
func (ts *TS) fmtEq(a, b *Term) *Term {
	if a.op == OBox || b.op == OBox {
		unsup("comparison of opaque strings")
	}
	sa, sb := segs(a, nil), segs(b, nil)
	res := ts.T
	norm := func(s []*Term) []*Term { // merge adjacent literals
		var out []*Term
		for _, x := range s {
			if x.op == OBox {
				unsup("comparison of opaque strings")
			}
			if x.op == OStr && len(out) > 0 && out[len(out)-1].op == OStr {
				out[len(out)-1] = ts.Str(out[len(out)-1].s + x.s)
			} else {
				out = append(out, x)
			}
		}
		return out
	}
	sa, sb = norm(sa), norm(sb)
	for len(sa) > 0 && len(sb) > 0 {
		x, y := sa[0], sb[0]
		switch {
		case x.op == OStr && y.op == OStr:
			n := len(x.s)
			if len(y.s) < n {
				n = len(y.s)
			}
			if x.s[:n] != y.s[:n] {
				return ts.F
			}
			sa, sb = sa[1:], sb[1:]
			if n < len(x.s) {
				sa = append([]*Term{ts.Str(x.s[n:])}, sa...)
			}
			if n < len(y.s) {
				sb = append([]*Term{ts.Str(y.s[n:])}, sb...)
			}
		case x.op == OItoa && y.op == OItoa:
			okNext := func(s []*Term) bool {
				return len(s) == 1 || (s[1].op == OStr && !(s[1].s[0] >= '0' && s[1].s[0] <= '9'))
			}
			if !okNext(sa) || !okNext(sb) {
				unsup("ambiguous formatted string comparison")
			}
			res = ts.And(res, ts.Eq(x.a, y.a))
			sa, sb = sa[1:], sb[1:]
		default:
			if x.op == OStr {
				x, y = y, x
				sa, sb = sb, sa
			}
			// x integer, y literal
			i := 0
			if i < len(y.s) && y.s[i] == '-' {
				i++
			}
			for i < len(y.s) && y.s[i] >= '0' && y.s[i] <= '9' {
				i++
			}
			if i == len(y.s) && len(sb) > 1 {
				unsup("ambiguous formatted string comparison")
			}
			v, err := strconv.ParseInt(y.s[:i], 10, 64)
			if err != nil || strconv.FormatInt(v, 10) != y.s[:i] {
				return ts.F
			}
			res = ts.And(res, ts.Eq(x.a, ts.BV(uint64(v), x.a.w)))
			sa = sa[1:]
			sb = sb[1:]
			if i < len(y.s) {
				sb = append([]*Term{ts.Str(y.s[i:])}, sb...)
			}
		}
	}
	if len(sa) > 0 || len(sb) > 0 {
		return ts.F
	}
	return res
}

func (ts *TS) Concat(a, b *Term) *Term {
	if a.op == OStr && b.op == OStr {
		return ts.Str(a.s + b.s)
	}
	if a.op == OStr && a.s == "" {
		return b
	}
	if b.op == OStr && b.s == "" {
		return a
	}
	if a.op == OIte {
		return ts.Ite(a.a, ts.Concat(a.b, b), ts.Concat(a.c, b))
	}
	if b.op == OIte {
		return ts.Ite(b.a, ts.Concat(a, b.b), ts.Concat(a, b.c))
	}
	return ts.mk(Term{op: OFmt, w: wStr, a: a, b: b})
}

func (ts *TS) Itoa(a *Term) *Term {
	if a.op == OConst {
		return ts.Str(strconv.FormatInt(a.sval(), 10))
	}
	if ts.allConstLeaves(a) {
		return ts.Ite(a.a, ts.Itoa(a.b), ts.Itoa(a.c))
	}
	return ts.mk(Term{op: OItoa, w: wStr, a: a})
}

func (ts *TS) StrLen(a *Term) *Term {
	switch a.op {
	case OStr:
		return ts.Int(int64(len(a.s)))
	case OIte:
		return ts.Ite(a.a, ts.StrLen(a.b), ts.StrLen(a.c))
	case OFmt:
		return ts.Add(ts.StrLen(a.a), ts.StrLen(a.b))
	}
	unsup("length of symbolic string")
	return nil
}

func (ts *TS) StrLess(a, b *Term) *Term {
	if a == b {
		return ts.F
	}
	if a.op == OIte {
		return ts.Ite(a.a, ts.StrLess(a.b, b), ts.StrLess(a.c, b))
	}
	if b.op == OIte {
		return ts.Ite(b.a, ts.StrLess(a, b.b), ts.StrLess(a, b.c))
	}
	if a.op == OStr && b.op == OStr {
		return ts.Bool(a.s < b.s)
	}
	unsup("ordering of formatted strings")
	return nil
}

func (ts *TS) Add(a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return ts.BV(a.k+b.k, w)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.op == OConst {
			return ts.Add(a.a, ts.BV(a.b.k+b.k, w))
		}
		if a.op == OIte && ts.allConstLeaves(a) {
			return ts.Ite(a.a, ts.Add(a.b, b), ts.Add(a.c, b))
		}
		if a.op == OSub && a.a.op == OConst {
			return ts.Sub(ts.BV(a.a.k+b.k, w), a.b)
		}
		return ts.mk(Term{op: OAdd, w: w, a: a, b: b})
	}
	if a.op == OAdd && a.b.op == OConst {
		return ts.Add(ts.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.op == OConst {
		return ts.Add(ts.Add(a, b.a), b.b)
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(Term{op: OAdd, w: w, a: a, b: b})
}

func (ts *TS) Sub(a, b *Term) *Term {
	w := a.w
	if a == b {
		return ts.BV(0, w)
	}
	if b.op == OConst {
		return ts.Add(a, ts.BV(-b.k, w))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.op == OConst {
			return ts.Add(ts.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd && b.b.op == OConst {
		return ts.Add(ts.Sub(a, b.a), ts.BV(-b.b.k, w))
	}
	if b.op == OAdd && b.a == a {
		return ts.Sub(ts.BV(0, w), b.b)
	}
	if b.op == OAdd && b.b == a {
		return ts.Sub(ts.BV(0, w), b.a)
	}
	return ts.mk(Term{op: OSub, w: w, a: a, b: b})
}

func (ts *TS) Mul(a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return ts.BV(a.k*b.k, w)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch b.k {
		case 0:
			return b
		case 1:
			return a
		}
		if ts.allConstLeaves(a) {
			return ts.Ite(a.a, ts.Mul(a.b, b), ts.Mul(a.c, b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(Term{op: OMul, w: w, a: a, b: b})
}

// noWrapMul reports that t = x*c does not wrap.
func noWrapMul(t *Term) bool { return t.op == OMul && t.b.op == OConst && t.ivOK }

func (ts *TS) SDiv(a, b *Term) *Term {
	w := a.w
	if b.op == OConst {
		d := b.sval()
		if a.op == OConst && d != 0 {
			if d == -1 {
				return ts.BV(-a.k, w)
			}
			return ts.BV(uint64(a.sval()/d), w)
		}
		if d == 1 {
			return a
		}
		if noWrapMul(a) && a.b.sval() == d {
			return a.a
		}
		if noWrapMul(a) && d != 0 && a.b.sval()%d == 0 {
			return ts.Mul(a.a, ts.BV(uint64(a.b.sval()/d), w))
		}
		// (x*d + k)/d with 0<=k<d, x>=0
		if a.op == OAdd && a.b.op == OConst && noWrapMul(a.a) && a.ivOK && a.a.b.sval() == d && d > 0 && a.a.lo >= 0 && a.b.sval() >= 0 && a.b.sval() < d {
			return a.a.a
		}
		if a.ivOK && d > 0 && a.lo >= 0 && a.hi < d {
			return ts.BV(0, w)
		}
		if a.op == OIte && ts.allConstLeaves(a) {
			return ts.Ite(a.a, ts.SDiv(a.b, b), ts.SDiv(a.c, b))
		}
	}
	return ts.mk(Term{op: OSDiv, w: w, a: a, b: b})
}

func (ts *TS) SRem(a, b *Term) *Term {
	w := a.w
	if b.op == OConst {
		d := b.sval()
		if a.op == OConst && d != 0 {
			if d == -1 {
				return ts.BV(0, w)
			}
			return ts.BV(uint64(a.sval()%d), w)
		}
		if noWrapMul(a) && d != 0 && a.b.sval()%d == 0 {
			return ts.BV(0, w)
		}
		if a.op == OAdd && a.b.op == OConst && noWrapMul(a.a) && a.ivOK && d > 0 && a.a.b.sval()%d == 0 && a.a.lo >= 0 && a.b.sval() >= 0 && a.b.sval() < d {
			return a.b
		}
		if a.ivOK && d > 0 && a.lo >= 0 && a.hi < d {
			return a
		}
		if a.op == OIte && ts.allConstLeaves(a) {
			return ts.Ite(a.a, ts.SRem(a.b, b), ts.SRem(a.c, b))
		}
	}
	return ts.mk(Term{op: OSRem, w: w, a: a, b: b})
}

func (ts *TS) binC(op Op, a, b *Term, f func(x, y uint64) uint64) *Term {
	if a.op == OConst && b.op == OConst {
		return ts.BV(f(a.k, b.k), a.w)
	}
	return ts.mk(Term{op: op, w: a.w, a: a, b: b})
}

func (ts *TS) UDiv(a, b *Term) *Term {
	if b.op == OConst && b.k == 0 {
		unsup("udiv by zero")
	}
	if a.ivOK && b.ivOK && a.lo >= 0 && b.lo >= 0 {
		return ts.SDiv(a, b)
	}
	return ts.binC(OUDiv, a, b, func(x, y uint64) uint64 { return x / y })
}
func (ts *TS) URem(a, b *Term) *Term {
	if b.op == OConst && b.k == 0 {
		unsup("urem by zero")
	}
	if a.ivOK && b.ivOK && a.lo >= 0 && b.lo >= 0 {
		return ts.SRem(a, b)
	}
	return ts.binC(OURem, a, b, func(x, y uint64) uint64 { return x % y })
}
func (ts *TS) BAnd(a, b *Term) *Term {
	if a.op == OConst && a.k == 0 {
		return a
	}
	if b.op == OConst && b.k == 0 {
		return b
	}
	if b.op == OConst && b.k == mask(b.w) {
		return a
	}
	if a.op == OConst && a.k == mask(a.w) {
		return b
	}
	// x & (2^n-1) for small non-negative x
	if b.op == OConst && a.ivOK && a.lo >= 0 && b.k&(b.k+1) == 0 && a.hi <= int64(b.k) && int64(b.k) > 0 {
		return a
	}
	return ts.binC(OBAnd, a, b, func(x, y uint64) uint64 { return x & y })
}
func (ts *TS) BOr(a, b *Term) *Term {
	if a.op == OConst && a.k == 0 {
		return b
	}
	if b.op == OConst && b.k == 0 {
		return a
	}
	return ts.binC(OBOr, a, b, func(x, y uint64) uint64 { return x | y })
}
func (ts *TS) BXor(a, b *Term) *Term {
	if a == b {
		return ts.BV(0, a.w)
	}
	return ts.binC(OBXor, a, b, func(x, y uint64) uint64 { return x ^ y })
}

func (ts *TS) Shift(op Op, a, b *Term) *Term {
	if b.op == OConst {
		w := uint64(a.w)
		if b.k == 0 {
			return a
		}
		if b.k >= w {
			if op == OAShr {
				return ts.Shift(OAShr, a, ts.BV(w-1, b.w))
			}
			return ts.BV(0, a.w)
		}
		if a.op == OConst {
			switch op {
			case OShl:
				return ts.BV(a.k<<b.k, a.w)
			case OLShr:
				return ts.BV(a.k>>b.k, a.w)
			case OAShr:
				return ts.BV(uint64(a.sval()>>b.k), a.w)
			}
		}
		if op == OShl && b.k < 63 {
			return ts.Mul(a, ts.BV(uint64(1)<<b.k, a.w))
		}
		b = ts.BV(b.k, a.w)
	} else if b.w != a.w {
		unsup("symbolic shift of different width")
	}
	return ts.mk(Term{op: op, w: a.w, a: a, b: b})
}

func (ts *TS) Slt(a, b *Term) *Term {
	if a == b {
		return ts.F
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.sval() < b.sval())
	}
	if a.ivOK && b.ivOK {
		if a.hi < b.lo {
			return ts.T
		}
		if a.lo >= b.hi {
			return ts.F
		}
	}
	if b.op == OConst && b.sval() == sx(uint64(1)<<(b.w-1), b.w) { // a < MIN
		return ts.F
	}
	if b.op == OConst && a.op == OIte && (ts.allConstLeaves(a) || a.b.isC() || a.c.isC()) {
		return ts.Ite(a.a, ts.Slt(a.b, b), ts.Slt(a.c, b))
	}
	if a.op == OConst && b.op == OIte && (ts.allConstLeaves(b) || b.b.isC() || b.c.isC()) {
		return ts.Ite(b.a, ts.Slt(a, b.b), ts.Slt(a, b.c))
	}
	// x + c1 < c2 without wrap-around
	if a.op == OAdd && a.b.op == OConst && a.ivOK && a.a.ivOK && b.op == OConst {
		if d, ok := addOv(b.sval(), -a.b.sval()); ok && a.b.sval() != math.MinInt64 && a.w == 64 {
			return ts.Slt(a.a, ts.BV(uint64(d), a.w))
		}
	}
	if b.op == OAdd && b.b.op == OConst && b.ivOK && b.a.ivOK && a.op == OConst {
		if d, ok := addOv(a.sval(), -b.b.sval()); ok && b.b.sval() != math.MinInt64 && b.w == 64 {
			return ts.Slt(ts.BV(uint64(d), a.w), b.a)
		}
	}
	ab, ak := splitAdd(a)
	bb, bk := splitAdd(b)
	if ab == bb && ab != nil && (a.ivOK || ak == 0) && (b.ivOK || bk == 0) && ab.ivOK {
		return ts.Bool(sx(ak, a.w) < sx(bk, a.w))
	}
	return ts.mk(Term{op: OSlt, w: 0, a: a, b: b})
}

func (ts *TS) Sle(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.sval() <= b.sval())
	}
	if a.ivOK && b.ivOK {
		if a.hi <= b.lo {
			return ts.T
		}
		if a.lo > b.hi {
			return ts.F
		}
	}
	// c <= x  ->  c-1 < x ; x <= c -> x < c+1  (canonical strict form)
	if a.op == OConst && a.sval() != sx(uint64(1)<<(a.w-1), a.w) {
		return ts.Slt(ts.BV(a.k-1, a.w), b)
	}
	if b.op == OConst && b.sval() != int64(mask(b.w)>>1) {
		return ts.Slt(a, ts.BV(b.k+1, b.w))
	}
	ab, ak := splitAdd(a)
	bb, bk := splitAdd(b)
	if ab == bb && ab != nil && (a.ivOK || ak == 0) && (b.ivOK || bk == 0) && ab.ivOK {
		return ts.Bool(sx(ak, a.w) <= sx(bk, a.w))
	}
	return ts.mk(Term{op: OSle, w: 0, a: a, b: b})
}

func (ts *TS) Ult(a, b *Term) *Term {
	if a == b {
		return ts.F
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.k < b.k)
	}
	if a.ivOK && b.ivOK && a.lo >= 0 && b.lo >= 0 {
		return ts.Slt(a, b)
	}
	return ts.mk(Term{op: OUlt, w: 0, a: a, b: b})
}
func (ts *TS) Ule(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.k <= b.k)
	}
	if a.ivOK && b.ivOK && a.lo >= 0 && b.lo >= 0 {
		return ts.Sle(a, b)
	}
	return ts.mk(Term{op: OUle, w: 0, a: a, b: b})
}

// Resize converts a bit-vector to another width.
func (ts *TS) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		if w > a.w && signed {
			return ts.BV(uint64(a.sval()), w)
		}
		return ts.BV(a.k, w)
	}
	if a.op == OIte && ts.allConstLeaves(a) {
		return ts.Ite(a.a, ts.Resize(a.b, w, signed), ts.Resize(a.c, w, signed))
	}
	if w < a.w {
		if (a.op == OSext || a.op == OZext) && a.a.w == w {
			return a.a
		}
		return ts.mk(Term{op: OTrunc, w: w, a: a})
	}
	if a.op == OTrunc && a.a.w == w && a.a.ivOK && a.ivOK && (signed || a.lo >= 0) {
		return a.a
	}
	if signed {
		return ts.mk(Term{op: OSext, w: w, a: a})
	}
	return ts.mk(Term{op: OZext, w: w, a: a})
}

// ---- evaluation under a model ----

type Model struct {
	v map[string]uint64
}

func (ts *TS) evalStart() { ts.gen++ }

func (ts *TS) Eval(t *Term, m *Model) uint64 {
	ts.gen++
	return ts.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ts *TS) eval(t *Term, m *Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.egen == ts.gen {
		return t.ev
	}
	var r uint64
	w := t.w
	switch t.op {
	case OVar:
		v, ok := m.v[t.s]
		if !ok {
			vi := ts.byN[t.s]
			if vi.ranged {
				if vi.lo > 0 || vi.hi < 0 {
					v = uint64(vi.lo)
				}
			}
		}
		r = v & mask64(w)
	case ONot:
		r = 1 ^ ts.eval(t.a, m)
	case OAnd:
		r = ts.eval(t.a, m)
		if r == 1 {
			r = ts.eval(t.b, m)
		}
	case OOr:
		r = ts.eval(t.a, m)
		if r == 0 {
			r = ts.eval(t.b, m)
		}
	case OEq:
		r = b2u(ts.eval(t.a, m) == ts.eval(t.b, m))
	case OIte:
		if ts.eval(t.a, m) == 1 {
			r = ts.eval(t.b, m)
		} else {
			r = ts.eval(t.c, m)
		}
	default:
		a := ts.eval(t.a, m)
		var b uint64
		if t.b != nil {
			b = ts.eval(t.b, m)
		}
		aw := t.a.w
		switch t.op {
		case OAdd:
			r = a + b
		case OSub:
			r = a - b
		case OMul:
			r = a * b
		case OSDiv:
			x, y := sx(a, aw), sx(b, aw)
			if y == 0 {
				if x < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			} else if y == -1 {
				r = -a
			} else {
				r = uint64(x / y)
			}
		case OSRem:
			x, y := sx(a, aw), sx(b, aw)
			if y == 0 {
				r = a
			} else if y == -1 {
				r = 0
			} else {
				r = uint64(x % y)
			}
		case OUDiv:
			if b == 0 {
				r = ^uint64(0)
			} else {
				r = a / b
			}
		case OURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OShl:
			if b < uint64(aw) {
				r = a << b
			}
		case OLShr:
			if b < uint64(aw) {
				r = a >> b
			}
		case OAShr:
			if b >= uint64(aw) {
				b = uint64(aw) - 1
			}
			r = uint64(sx(a, aw) >> b)
		case OBAnd:
			r = a & b
		case OBOr:
			r = a | b
		case OBXor:
			r = a ^ b
		case OSlt:
			r = b2u(sx(a, aw) < sx(b, aw))
		case OSle:
			r = b2u(sx(a, aw) <= sx(b, aw))
		case OUlt:
			r = b2u(a < b)
		case OUle:
			r = b2u(a <= b)
		case OZext, OTrunc:
			r = a
		case OSext:
			r = uint64(sx(a, aw))
		default:
			panic("eval op " + opNames[t.op])
		}
		r &= mask64(w)
	}
	t.egen, t.ev = ts.gen, r
	return r
}

func mask64(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (ts *TS) EvalStr(t *Term, m *Model) string {
	switch t.op {
	case OStr:
		return t.s
	case OIte:
		if ts.Eval(t.a, m) == 1 {
			return ts.EvalStr(t.b, m)
		}
		return ts.EvalStr(t.c, m)
	case OFmt:
		return ts.EvalStr(t.a, m) + ts.EvalStr(t.b, m)
	case OItoa:
		return strconv.FormatInt(sx(ts.Eval(t.a, m), t.a.w), 10)
	case OBox:
		return "<box>"
	}
	panic("evalstr")
}

// ---- SMT-LIB printing ----

func bvlit(k uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, k)
	}
	return fmt.Sprintf("#b%0*b", int(w), k)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return bvlit(t.k, t.w)
	}
	if t.op == OVar {
		return "|" + t.s + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// emit writes definitions needed for t.
func (ts *TS) emit(t *Term, out *strings.Builder) {
	if t.op == OConst || t.emitted {
		return
	}
	t.emitted = true
	if t.op == OVar {
		fmt.Fprintf(out, "(declare-const |%s| %s)\n", t.s, sortName(t.w))
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			ts.emit(x, out)
		}
	}
	fmt.Fprintf(out, "(define-fun t%d () %s ", t.id, sortName(t.w))
	switch t.op {
	case OZext:
		fmt.Fprintf(out, "((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		fmt.Fprintf(out, "((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OTrunc:
		fmt.Fprintf(out, "((_ extract %d 0) %s)", t.w-1, ref(t.a))
	case OIte:
		fmt.Fprintf(out, "(ite %s %s %s)", ref(t.a), ref(t.b), ref(t.c))
	default:
		out.WriteString("(" + opNames[t.op])
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				out.WriteString(" " + ref(x))
			}
		}
		out.WriteString(")")
	}
	out.WriteString(")\n")
}

// linear reports whether t means the same over the unbounded integers: its operators are
// arithmetic whose intervals exclude wrap-around, comparisons, and Boolean structure.
func (ts *TS) linear(t *Term) bool {
	if t == nil {
		return true
	}
	if t.lin == 0 {
		ok := false
		switch t.op {
		case OConst:
			ok = true
		case OVar:
			ok = t.w == 0 || t.ivOK
		case ONot, OAnd, OOr, OEq, OSlt, OSle:
			ok = true
			for _, x := range [3]*Term{t.a, t.b, t.c} {
				if x != nil && x.w != 0 && !x.ivOK {
					ok = false
				}
			}
		case OUlt, OUle:
			ok = t.a.ivOK && t.b.ivOK && t.a.lo >= 0 && t.b.lo >= 0
		case OIte:
			ok = t.w == 0 || t.ivOK
		case OAdd, OSub:
			ok = t.ivOK
		case OMul:
			ok = t.ivOK && (t.a.op == OConst || t.b.op == OConst)
		case OSDiv, OSRem:
			ok = t.ivOK && t.a.ivOK && t.a.lo >= 0 && t.b.op == OConst && t.b.sval() > 0
		case OSext:
			ok = t.ivOK
		case OZext:
			ok = t.a.ivOK && t.a.lo >= 0
		case OTrunc:
			ok = t.ivOK && t.a.ivOK && t.a.lo == t.lo && t.a.hi == t.hi
		}
		ok = ok && ts.linear(t.a) && ts.linear(t.b) && ts.linear(t.c)
		t.lin = 2
		if ok {
			t.lin = 1
		}
	}
	return t.lin == 1
}

func intlit(v int64) string {
	if v < 0 {
		return "(- " + strconv.FormatUint(uint64(-v), 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}

func refI(t *Term) string {
	if t.op == OConst && t.w != 0 {
		return intlit(t.sval())
	}
	return ref(t)
}

// emitI writes the integer definitions needed for a linear term.
func (ts *TS) emitI(t *Term, out *strings.Builder) {
	if t.op == OConst || t.emittedI {
		return
	}
	t.emittedI = true
	sort := "Int"
	if t.w == 0 {
		sort = "Bool"
	}
	if t.op == OVar {
		fmt.Fprintf(out, "(declare-const |%s| %s)\n", t.s, sort)
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			ts.emitI(x, out)
		}
	}
	fmt.Fprintf(out, "(define-fun t%d () %s ", t.id, sort)
	op := ""
	switch t.op {
	case OSext, OZext, OTrunc:
		out.WriteString(refI(t.a) + ")\n")
		return
	case OAdd:
		op = "+"
	case OSub:
		op = "-"
	case OMul:
		op = "*"
	case OSDiv:
		op = "div"
	case OSRem:
		op = "mod"
	case OSlt, OUlt:
		op = "<"
	case OSle, OUle:
		op = "<="
	default:
		op = opNames[t.op]
	}
	out.WriteString("(" + op)
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			out.WriteString(" " + refI(x))
		}
	}
	out.WriteString("))\n")
}

func (ts *TS) show(t *Term, d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return strconv.FormatInt(t.sval(), 10)
	case OVar:
		return t.s
	case OStr:
		return strconv.Quote(t.s)
	}
	if d <= 0 {
		return "…"
	}
	s := "(" + opNames[t.op]
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + ts.show(x, d-1)
		}
	}
	return s + ")"
}
