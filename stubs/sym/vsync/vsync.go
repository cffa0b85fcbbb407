// Package vsync replaces "sync" in the code under test: locks record their owner so that
// a self-deadlock is a violation, and waiting runs the virtual timers.
package vsync

import (
	"sync"

	"verif.local/sym"
	"verif.local/sym/vtime"
)

type Locker = sync.Locker
type Pool = sync.Pool

// Hook, when set, is called after every lock operation (a scheduling point).
var Hook func()

// At, when set, is called before every statement of the instrumented package.
var At func()

// Point is inserted before every statement where a check asks for it.
func Point() {
	if At != nil {
		At()
	}
}

// Held counts the locks a thread holds, Took those it ever acquired; HeldW and TookW count
// those that exclude every other thread.
var Held, Took, HeldW, TookW [4]int

func init() {
	sym.OnReset(func() { Hook, At = nil, nil; Held, Took, HeldW, TookW = [4]int{}, [4]int{}, [4]int{}, [4]int{} })
}

func took(t int) {
	Held[t]++
	Took[t]++
}

func hook() {
	if Hook != nil {
		Hook()
	}
}

type Mutex struct {
	held  bool
	owner int
}

func (m *Mutex) Lock() {
	if m.held {
		if m.owner == vtime.Thread {
			sym.Assert(false, "deadlock: lock acquired twice by the same call")
		}
		sym.Stop()
	}
	m.held = true
	m.owner = vtime.Thread
	took(m.owner)
	HeldW[m.owner]++
	TookW[m.owner]++
	hook()
}
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	m.owner = vtime.Thread
	took(m.owner)
	HeldW[m.owner]++
	TookW[m.owner]++
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	Held[m.owner]--
	HeldW[m.owner]--
	hook()
}

type RWMutex struct {
	w  Mutex
	rd int
	ro int
}

func (m *RWMutex) Lock() {
	if m.rd > 0 {
		if m.ro == vtime.Thread {
			sym.Assert(false, "deadlock: write lock requested while read lock is held")
		}
		sym.Stop()
	}
	m.w.Lock()
}
func (m *RWMutex) TryLock() bool { return m.rd == 0 && m.w.TryLock() }
func (m *RWMutex) Unlock()       { m.w.Unlock() }
func (m *RWMutex) RLock() {
	if m.w.held {
		if m.w.owner == vtime.Thread {
			sym.Assert(false, "deadlock: read lock requested while write lock is held")
		}
		sym.Stop()
	}
	m.rd++
	m.ro = vtime.Thread
	took(m.ro)
	hook()
}
func (m *RWMutex) TryRLock() bool {
	if m.w.held {
		return false
	}
	m.rd++
	m.ro = vtime.Thread
	took(m.ro)
	return true
}
func (m *RWMutex) RUnlock() {
	if m.rd == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.rd--
	Held[m.ro]--
	hook()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vtime.Spawn(func() { f(); g.Done() })
}
func (g *WaitGroup) Wait() {
	if g.n > 0 && vtime.OnWait != nil {
		vtime.OnWait()
	}
	for i := 0; g.n > 0; i++ {
		if !vtime.Progress() {
			sym.Assert(false, "deadlock: wait that nothing can complete")
			sym.Stop()
		}
	}
}

type Once struct{ done bool }

func (o *Once) Do(f func()) {
	if !o.done {
		o.done = true
		f()
	}
}

// Map is an insertion-ordered map with the interface of sync.Map.
type Map struct {
	ks, vs []interface{}
}

func (m *Map) find(k interface{}) int {
	for i, x := range m.ks {
		if x == k {
			return i
		}
	}
	return -1
}
func (m *Map) Load(k interface{}) (interface{}, bool) {
	if i := m.find(k); i >= 0 {
		return m.vs[i], true
	}
	return nil, false
}
func (m *Map) Store(k, v interface{}) {
	if i := m.find(k); i >= 0 {
		m.vs[i] = v
		return
	}
	m.ks = append(m.ks, k)
	m.vs = append(m.vs, v)
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if i := m.find(k); i >= 0 {
		return m.vs[i], true
	}
	m.ks = append(m.ks, k)
	m.vs = append(m.vs, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	i := m.find(k)
	if i < 0 {
		return nil, false
	}
	v := m.vs[i]
	ks := append([]interface{}{}, m.ks[:i]...)
	m.ks = append(ks, m.ks[i+1:]...)
	vs := append([]interface{}{}, m.vs[:i]...)
	m.vs = append(vs, m.vs[i+1:]...)
	return v, true
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	if i := m.find(k); i >= 0 {
		o := m.vs[i]
		m.vs[i] = v
		return o, true
	}
	m.Store(k, v)
	return nil, false
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	i := m.find(k)
	if i < 0 || m.vs[i] != o {
		return false
	}
	m.vs[i] = n
	return true
}
func (m *Map) Clear() { m.ks, m.vs = nil, nil }
func (m *Map) Range(f func(k, v interface{}) bool) {
	ks := append([]interface{}{}, m.ks...)
	for _, k := range ks {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
