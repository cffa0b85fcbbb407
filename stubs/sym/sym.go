// Package sym is the interface between the verification harnesses and symgo.
//
// Under symgo every function below is an intrinsic of the symbolic executor: values
// returned by Int, Bool, ... are SMT variables and Assert is discharged by the solver.
// Compiled natively, the same harness replays one concrete assignment of those variables
// against the real code.
package sym

import (
	"fmt"
	"strings"
)

type Case struct {
	Harness string           `json:"harness"`
	Tier    int              `json:"tier"`
	Vals    map[string]int64 `json:"vals"`
}

type Result struct {
	Log     []string `json:"log"`
	Fails   []string `json:"fails"`
	Panic   string   `json:"panic"`
	Stopped bool     `json:"stopped"`
	Missing []string `json:"missing"`
}

type stopT struct{}

var (
	cur    *Case
	res    *Result
	cnt    map[string]int
	resets []func()
)

func OnReset(f func()) { resets = append(resets, f) }

// RunCase executes one harness natively under the given values.
func RunCase(c *Case, f func()) (r *Result) {
	cur, res, cnt = c, &Result{}, map[string]int{}
	for _, g := range resets {
		g()
	}
	r = res
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopT); ok {
				r.Stopped = true
				return
			}
			r.Panic = fmt.Sprint(e)
		}
	}()
	f()
	return
}

func next(name string) string {
	k := cnt[name]
	cnt[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func val(name string, def int64) int64 {
	nm := next(name)
	v, ok := cur.Vals[nm]
	if !ok {
		res.Missing = append(res.Missing, nm)
		return def
	}
	return v
}

func Int(name string) int     { return int(val(name, 0)) }
func Int64(name string) int64 { return val(name, 0) }
func Bool(name string) bool   { return val(name, 0) != 0 }
func IntRange(name string, lo, hi int) int {
	if lo > hi {
		panic(stopT{})
	}
	return int(val(name, int64(lo)))
}
func Int64Range(name string, lo, hi int64) int64 {
	if lo > hi {
		panic(stopT{})
	}
	return val(name, lo)
}
func StrOf(name string, opts ...string) string { return opts[int(val(name, 0))] }
func Choose(name string, n int) int            { return int(val(name, 0)) }
func Assume(b bool) {
	if !b {
		panic(stopT{})
	}
}
func Stop() { panic(stopT{}) }
func Assert(b bool, label string) {
	if !b {
		res.Fails = append(res.Fails, label)
	}
}

// AssertKnown asserts b outside region and reports the recorded finding id inside it.
func AssertKnown(b bool, label string, id string, region bool) {
	if b {
		return
	}
	if region {
		res.Fails = append(res.Fails, "known:"+id)
		return
	}
	res.Fails = append(res.Fails, label)
}
func Want(label string)                    {}
func Reach(label string)                   {}
func ReachIf(cond bool, label string)      {}
func ObserveInt(name string, v int)        { res.Log = append(res.Log, fmt.Sprintf("%s=%d", name, v)) }
func ObserveInt64(name string, v int64)    { res.Log = append(res.Log, fmt.Sprintf("%s=%d", name, v)) }
func ObserveBool(name string, v bool)      { res.Log = append(res.Log, fmt.Sprintf("%s=%v", name, v)) }
func ObserveStr(name string, v string)     { res.Log = append(res.Log, name+"="+v) }
func Tier() int                            { return cur.Tier }
func Native() bool                         { return true }
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteInt64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IteStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}
func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}
func Fork(b bool) bool { return b }
func Pin(v int) int    { return v }

// ---- stand-ins for reflection-based library functions; executed symbolically only ----

func sliceLen(x interface{}) int                                     { panic("native") }
func sliceAt(x interface{}, i int) interface{}                       { panic("native") }
func sliceSwap(x interface{}, i, j int)                              { panic("native") }
func equal(a, b interface{}) bool                                    { panic("native") }
func lazyFilter(x interface{}, keep []bool) interface{}              { panic("native") }
func makeSliceOf(f interface{}, e []interface{}) interface{}         { panic("native") }
func callAny(f interface{}, a interface{}) interface{}               { panic("native") }
func callBool(f interface{}, a interface{}) bool                     { panic("native") }
func isKind(x interface{}, k string) bool                            { panic("native") }
func mapHas(m, k interface{}) bool                                   { panic("native") }
func strHas(a, b interface{}) bool                                   { panic("native") }

func sortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if !less(j, j-1) {
				break
			}
			sliceSwap(x, j, j-1)
		}
	}
}

func funkContains(in interface{}, elem interface{}) bool {
	if isKind(in, "map") {
		return mapHas(in, elem)
	}
	if isKind(in, "string") {
		return strHas(in, elem)
	}
	n := sliceLen(in)
	r := false
	for i := 0; i < n; i++ {
		r = Or(r, equal(sliceAt(in, i), elem))
	}
	return r
}

func funkFilter(arr interface{}, predicate interface{}) interface{} {
	n := sliceLen(arr)
	keep := make([]bool, n)
	for i := 0; i < n; i++ {
		keep[i] = callBool(predicate, sliceAt(arr, i))
	}
	return lazyFilter(arr, keep)
}

func funkMap(arr interface{}, f interface{}) interface{} {
	n := sliceLen(arr)
	out := make([]interface{}, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, callAny(f, sliceAt(arr, i)))
	}
	return makeSliceOf(f, out)
}

type strErr struct{ s string }

func (e *strErr) Error() string { return e.s }

func fmtErrorf(format string, a ...interface{}) error { return &strErr{fmt.Sprintf(format, a...)} }

func errorsIs(err, target error) bool {
	for i := 0; i < 8 && err != nil; i++ {
		if err == target {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

var keepAlive = []interface{}{sortSlice, funkContains, funkFilter, funkMap, fmtErrorf, errorsIs, strings.Join}
