package rt

import (
	realsync "sync"
	"unsafe"
)

// Locker is sync.Locker.
type Locker = realsync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	sem    uint64
}

//go:norace
func (m *Mutex) Lock() {
	s := S
	if s == nil {
		if m.locked {
			panic(DeadlockPanic{"Mutex.Lock while locked"})
		}
	} else {
		if s.abort {
			return
		}
		t := s.me()
		if !(t.freePoint() && !m.locked) {
			t.pend, t.mu = pMutex, m
			s.point(t)
		}
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sem))
}

//go:norace
func (m *Mutex) TryLock() bool {
	TouchPoint()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sem))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		if s := S; s != nil && s.abort {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.sem))
	m.locked = false
}

// TouchPoint is the scheduling point of an always-enabled synchronisation operation (atomics, TryLock...).
//
//go:norace
func TouchPoint() {
	s := S
	if s == nil || s.abort {
		return
	}
	t := s.me()
	if !t.freePoint() {
		t.pend = pPoint
		s.point(t)
	}
}

// RWMutex replaces sync.RWMutex with its exact blocking rules: an announced writer blocks new readers, also before it
// holds the lock.
type RWMutex struct {
	w          bool // a writer holds the lock or waits for the readers to leave
	held       bool // the writer holds the lock
	readers    int
	rsem, wsem uint64
}

//go:norace
func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		if m.w {
			panic(DeadlockPanic{"RWMutex.RLock while write-locked"})
		}
	} else {
		if s.abort {
			return
		}
		t := s.me()
		if !(t.freePoint() && !m.w) {
			t.pend, t.rw = pRLock, m
			s.point(t)
		}
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	TouchPoint()
	if m.w {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if s := S; s != nil && s.abort {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.wsem))
	m.readers--
}

//go:norace
func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		if m.w || m.readers > 0 {
			panic(DeadlockPanic{"RWMutex.Lock while locked"})
		}
		m.w = true
	} else {
		if s.abort {
			return
		}
		t := s.me()
		if !(t.freePoint() && !m.w) {
			t.pend, t.rw = pWLock, m
			s.point(t)
		}
		m.w = true
		if m.readers > 0 {
			t.pend, t.rw = pDrain, m
			s.point(t)
		}
	}
	m.held = true
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	TouchPoint()
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.held = true, true
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.held {
		if s := S; s != nil && s.abort {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rsem))
	m.held, m.w = false, false
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n   int
	sem uint64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&w.sem))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		RunDeferred()
		if w.n > 0 {
			panic(DeadlockPanic{"WaitGroup.Wait"})
		}
	} else {
		if s.abort {
			return
		}
		t := s.me()
		if !(t.freePoint() && w.n <= 0) {
			t.pend, t.wg = pWG, w
			s.point(t)
		}
	}
	raceAcquire(unsafe.Pointer(&w.sem))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	waiters []*thread
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	s := S
	if s == nil {
		panic(DeadlockPanic{"Cond.Wait"})
	}
	if s.abort {
		return
	}
	t := s.me()
	t.grant = false
	c.waiters = append(c.waiters, t)
	c.L.Unlock()
	t.pend = pCond
	s.point(t)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		c.waiters[0].grant = true
		c.waiters = c.waiters[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for _, t := range c.waiters {
		t.grant = true
	}
	c.waiters = nil
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
	sem  uint64
}

func (o *Once) Do(f func()) {
	TouchPoint()
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool {
	raceAcquire(unsafe.Pointer(&o.sem))
	return o.done
}

//go:norace
func (o *Once) set() {
	raceRelease(unsafe.Pointer(&o.sem))
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Pool replaces sync.Pool; it gives back the object put last. Its operations are no scheduling points of their own: an
// object that is used after it was put is still handed to another thread at the next point, or the race detector sees the
// unordered accesses.
type Pool struct {
	New   func() any
	items []any
	sem   uint64
}

func (p *Pool) Get() any {
	if x, ok := p.pop(); ok {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) pop() (any, bool) {
	raceAcquire(unsafe.Pointer(&p.sem))
	n := len(p.items)
	if n == 0 {
		return nil, false
	}
	x := p.items[n-1]
	p.items = p.items[:n-1]
	return x, true
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	raceReleaseMerge(unsafe.Pointer(&p.sem))
	p.items = append(p.items, x)
}

// Map replaces sync.Map.
type Map struct {
	keys []any
	vals []any
	sem  uint64
}

//go:norace
func (m *Map) at(k any) int {
	TouchPoint()
	raceAcquire(unsafe.Pointer(&m.sem))
	raceReleaseMerge(unsafe.Pointer(&m.sem))
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	if i := m.at(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

//go:norace
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	if i := m.at(k); i >= 0 {
		old := m.vals[i]
		m.vals[i] = v
		return old, true
	}
	m.keys, m.vals = append(m.keys, k), append(m.vals, v)
	return nil, false
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if i := m.at(k); i >= 0 {
		return m.vals[i], true
	}
	m.keys, m.vals = append(m.keys, k), append(m.vals, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	i := m.at(k)
	if i < 0 {
		return nil, false
	}
	v := m.vals[i]
	ks, vs := []any{}, []any{}
	for j := range m.keys {
		if j != i {
			ks, vs = append(ks, m.keys[j]), append(vs, m.vals[j])
		}
	}
	m.keys, m.vals = ks, vs
	return v, true
}

//go:norace
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if i := m.at(k); i >= 0 && m.vals[i] == o {
		m.vals[i] = n
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, o any) bool {
	if i := m.at(k); i >= 0 && m.vals[i] == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

//go:norace
func (m *Map) Clear() {
	m.at(nil)
	m.keys, m.vals = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	TouchPoint()
	ks := m.copyKeys()
	for _, k := range ks {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}

//go:norace
func (m *Map) copyKeys() []any { return append([]any{}, m.keys...) }
