// Package ssync replaces sync in the instrumented library. Blocking is done by
// handing control to the simulator's scheduler.
package ssync

import (
	"sync"

	"verif.local/sim/simrt"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	vc     simrt.VClock
}

// Lock locks m.
func (m *Mutex) Lock() {
	for m.locked {
		simrt.Block()
	}
	m.locked = true
	m.vc.Acquire()
	simrt.Sync()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	m.vc.Acquire()
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.vc.Release()
	m.locked = false
	simrt.Sync()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w bool
	r int
	// waiting writers keep new readers out
	pend int
	// writers release into vw, readers into vr
	vw, vr simrt.VClock
}

func (m *RWMutex) Lock() {
	if m.w || m.r > 0 {
		m.wait()
	}
	m.w = true
	m.vw.Acquire()
	m.vr.Acquire()
	simrt.Sync()
}

func (m *RWMutex) wait() {
	m.pend++
	defer func() { m.pend-- }()
	for m.w || m.r > 0 {
		simrt.Block()
	}
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.vw.Acquire()
	m.vr.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.vw.Release()
	m.w = false
	simrt.Sync()
}

func (m *RWMutex) RLock() {
	for m.w || m.pend > 0 {
		simrt.Block()
	}
	m.r++
	m.vw.Acquire()
	simrt.Sync()
}

func (m *RWMutex) TryRLock() bool {
	if m.w || m.pend > 0 {
		return false
	}
	m.r++
	m.vw.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.vr.Release()
	m.r--
	simrt.Sync()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
	vc   simrt.VClock
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if o.done {
		o.vc.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			o.vc.Release()
		}()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n  int
	vc simrt.VClock
}

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		w.vc.Release()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for w.n > 0 {
		simrt.Block()
	}
	w.vc.Acquire()
}

// Go runs f in a simulated goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond replaces sync.Cond.
type Cond struct {
	L   Locker
	gen uint64
	sig uint64
	wai []*bool
	vc  simrt.VClock
}

// NewCond replaces sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := false
	c.wai = append(c.wai, &woken)
	c.L.Unlock()
	for !woken {
		simrt.Block()
	}
	c.vc.Acquire()
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.vc.Release()
	if len(c.wai) > 0 {
		*c.wai[0] = true
		c.wai = c.wai[1:]
	}
	simrt.Sync()
}

func (c *Cond) Broadcast() {
	c.vc.Release()
	for _, w := range c.wai {
		*w = true
	}
	c.wai = nil
}

// Pool replaces sync.Pool: last in, first out, nothing is ever dropped, which is
// the behaviour that exposes most sharing mistakes.
type Pool struct {
	New   func() any
	items []any
	vc    simrt.VClock
}

func (p *Pool) Get() any {
	p.vc.Acquire()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.Sync()
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.vc.Release()
	p.items = append(p.items, x)
	simrt.Sync()
}

// Map replaces sync.Map (insertion order iteration).
type Map struct {
	m    map[any]any
	keys []any
	vc   simrt.VClock
}

func (m *Map) Load(k any) (any, bool) {
	m.vc.Acquire()
	v, ok := m.m[k]
	simrt.Sync()
	return v, ok
}
func (m *Map) Store(k, v any) {
	m.vc.Acquire()
	m.vc.Release()
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.vc.Acquire()
	m.vc.Release()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.vc.Acquire()
	m.vc.Release()
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *Map) Delete(k any) {
	m.vc.Acquire()
	m.vc.Release()
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.vc.Acquire()
	m.vc.Release()
	old, ok := m.m[k]
	m.Store(k, v)
	return old, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.vc.Acquire()
	m.vc.Release()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.vc.Acquire()
	m.vc.Release()
	if v, ok := m.m[k]; ok && v == old {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.vc.Acquire()
	m.vc.Release()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	m.vc.Acquire()
	m.vc.Release()
	m.m, m.keys = nil, nil
}
