// Package vatomic replaces "sync/atomic" in the code under test: the harnesses run one
// thread at a time, so every operation is a plain one.
package vatomic

func LoadInt32(p *int32) int32          { return *p }
func StoreInt32(p *int32, v int32)      { *p = v }
func AddInt32(p *int32, d int32) int32  { *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 { o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

type Int32 struct{ v int32 }

func (a *Int32) Load() int32                    { return a.v }
func (a *Int32) Store(v int32)                  { a.v = v }
func (a *Int32) Add(d int32) int32              { a.v += d; return a.v }
func (a *Int32) Swap(v int32) int32             { o := a.v; a.v = v; return o }
func (a *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&a.v, o, v) }

func LoadInt64(p *int64) int64          { return *p }
func StoreInt64(p *int64, v int64)      { *p = v }
func AddInt64(p *int64, d int64) int64  { *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 { o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

type Int64 struct{ v int64 }

func (a *Int64) Load() int64                    { return a.v }
func (a *Int64) Store(v int64)                  { a.v = v }
func (a *Int64) Add(d int64) int64              { a.v += d; return a.v }
func (a *Int64) Swap(v int64) int64             { o := a.v; a.v = v; return o }
func (a *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&a.v, o, v) }

func LoadUint32(p *uint32) uint32           { return *p }
func StoreUint32(p *uint32, v uint32)       { *p = v }
func AddUint32(p *uint32, d uint32) uint32  { *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 { o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

type Uint32 struct{ v uint32 }

func (a *Uint32) Load() uint32                    { return a.v }
func (a *Uint32) Store(v uint32)                  { a.v = v }
func (a *Uint32) Add(d uint32) uint32             { a.v += d; return a.v }
func (a *Uint32) Swap(v uint32) uint32            { o := a.v; a.v = v; return o }
func (a *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&a.v, o, v) }

func LoadUint64(p *uint64) uint64           { return *p }
func StoreUint64(p *uint64, v uint64)       { *p = v }
func AddUint64(p *uint64, d uint64) uint64  { *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 { o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	if *p != o {
		return false
	}
	*p = v
	return true
}

type Uint64 struct{ v uint64 }

func (a *Uint64) Load() uint64                    { return a.v }
func (a *Uint64) Store(v uint64)                  { a.v = v }
func (a *Uint64) Add(d uint64) uint64             { a.v += d; return a.v }
func (a *Uint64) Swap(v uint64) uint64            { o := a.v; a.v = v; return o }
func (a *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&a.v, o, v) }

type Bool struct{ v bool }

func (a *Bool) Load() bool       { return a.v }
func (a *Bool) Store(v bool)     { a.v = v }
func (a *Bool) Swap(v bool) bool { o := a.v; a.v = v; return o }
func (a *Bool) CompareAndSwap(o, v bool) bool {
	if a.v != o {
		return false
	}
	a.v = v
	return true
}

type Value struct{ v interface{} }

func (a *Value) Load() interface{}              { return a.v }
func (a *Value) Store(v interface{})            { a.v = v }
func (a *Value) Swap(v interface{}) interface{} { o := a.v; a.v = v; return o }

type Pointer[T any] struct{ v *T }

func (a *Pointer[T]) Load() *T     { return a.v }
func (a *Pointer[T]) Store(v *T)   { a.v = v }
func (a *Pointer[T]) Swap(v *T) *T { o := a.v; a.v = v; return o }
func (a *Pointer[T]) CompareAndSwap(o, v *T) bool {
	if a.v != o {
		return false
	}
	a.v = v
	return true
}
