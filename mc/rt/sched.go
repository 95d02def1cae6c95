// Package rt is the controlled runtime that replaces package sync in the instrumented code: every lock operation is a
// scheduling point of a cooperative scheduler which runs exactly one thread at a time and takes its decisions from the
// explorer. Outside a scheduler (sequential exploration) the same types detect self-deadlock.
//
// Nothing in the scheduler itself may be seen by the race detector as synchronisation between the threads of the program
// under test: hand-offs happen between RaceDisable and RaceEnable in functions marked norace, and the lock types report
// exactly the happens-before edges the real ones report.
package rt

import (
	"fmt"
	realsync "sync"
	"unsafe"
)

type pendKind uint8

const (
	pNone   pendKind = iota
	pPoint           // always enabled
	pYield           // enabled when nothing else is
	pMutex           // Mutex.Lock
	pRLock           // RWMutex.RLock
	pWLock           // RWMutex.Lock: no other writer
	pDrain           // RWMutex.Lock: announced, waits for the readers to leave
	pWG              // WaitGroup.Wait
	pCond            // Cond.Wait, until signalled
	pJoined          // finished
)

const (
	// MaxThreads bounds the threads of one execution.
	MaxThreads = 16
	// MaxPoints bounds the recorded choice points of one execution.
	MaxPoints = 4096
	maxSteps  = 20000
)

type thread struct {
	id    int
	wake  chan struct{}
	pend  pendKind
	mu    *Mutex
	rw    *RWMutex
	wg    *WaitGroup
	grant bool // pCond
	free  bool // the next point of this thread was already taken by OpBegin
	begin bool // waits in OpBegin
	fn    func()
}

// Point is one recorded decision of an execution.
type Point struct {
	N          uint8 // number of enabled threads
	Choice     uint8
	Preemptive bool // the running thread was enabled, choosing another one preempts it
}

// Sched is one controlled execution.
type Sched struct {
	threads   [MaxThreads]*thread
	n         int
	cur       int
	prefix    []uint8
	points    [MaxPoints]Point
	np        int
	steps     int
	clock     int
	abort     bool
	Deadlock  bool
	Overrun   bool // horizon reached: the execution was cut
	BadReplay bool
	pol       bool // thread 1 interferes with thread 0 by complete operations, see Interfere
	polBits   uint64
	polLen    int
	polPos    int
	finished  realsync.WaitGroup
}

// S is the scheduler of the running execution, nil in sequential mode. Only one execution runs at a time.
var S *Sched

// AbortPanic unwinds the threads of an execution that is given up.
type AbortPanic struct{}

// DeadlockPanic is raised in sequential mode by a lock operation that can never succeed.
type DeadlockPanic struct{ What string }

func (d DeadlockPanic) Error() string { return "deadlock: " + d.What }

// Reset prepares an execution that follows prefix and then always takes choice 0.
func (s *Sched) Reset(prefix []uint8) {
	for i := range s.threads {
		s.threads[i] = nil
	}
	s.prefix = prefix
	s.n, s.cur, s.np, s.steps, s.clock = 0, -1, 0, 0, 0
	s.abort, s.Deadlock, s.Overrun, s.BadReplay = false, false, false, false
	s.pol, s.polPos = false, 0
}

// Interfere makes the execution after Reset follow a pattern instead of a prefix: thread 1 runs complete operations between
// the steps of thread 0 (and of threads started by it), one in front of the i-th step if bit i of the pattern, repeated
// forever, is 1. An operation that must wait for thread 0 is completed as soon as it can be.
func (s *Sched) Interfere(bits uint64, length int) { s.pol, s.polBits, s.polLen = true, bits, length }

//go:norace
func (s *Sched) polChoice(en *[MaxThreads]*thread, n int) int {
	a, v := -1, -1
	for i := 0; i < n; i++ {
		if en[i].id == 1 {
			a = i
		} else if v < 0 {
			v = i
		}
	}
	if a < 0 || v < 0 {
		return 0
	}
	if !en[a].begin {
		return a
	}
	if s.cur == 1 {
		return v
	}
	bit := s.polBits >> (s.polPos % s.polLen) & 1
	s.polPos++
	if bit == 1 {
		return a
	}
	return v
}

// Steps is the number of scheduling steps taken.
func (s *Sched) Steps() int { return s.steps }

// Spawn registers a thread before Run.
//
//go:norace
func (s *Sched) Spawn(fn func()) {
	t := &thread{id: s.n, wake: make(chan struct{}, 1), pend: pPoint, fn: fn}
	s.threads[s.n] = t
	s.n++
}

// Run executes all threads to completion (or deadlock) and joins them.
func (s *Sched) Run() {
	S = s
	n := s.n
	for i := 0; i < n; i++ {
		s.finished.Add(1)
		go s.main(s.threads[i])
	}
	s.kick()
	s.finished.Wait()
	S = nil
}

//go:norace
func (s *Sched) kick() {
	raceDisable()
	s.cur = -1
	t := s.next()
	t.wake <- struct{}{}
	raceEnable()
}

func (s *Sched) main(t *thread) {
	defer s.finished.Done()
	s.start(t)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(AbortPanic); !ok {
					panic(e)
				}
			}
		}()
		if !s.aborted() {
			t.fn()
		}
	}()
	s.exit(t)
}

//go:norace
func (s *Sched) aborted() bool { return s.abort }

//go:norace
func (s *Sched) start(t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	t.pend = pNone
}

//go:norace
func (s *Sched) exit(t *thread) {
	t.pend = pJoined
	raceDisable()
	if n := s.next(); n != nil {
		n.wake <- struct{}{}
	}
	raceEnable()
}

//go:norace
func (t *thread) enabled() bool {
	switch t.pend {
	case pPoint:
		return true
	case pMutex:
		return !t.mu.locked
	case pRLock:
		return !t.rw.w
	case pWLock:
		return !t.rw.w
	case pDrain:
		return t.rw.readers == 0
	case pWG:
		return t.wg.n <= 0
	case pCond:
		return t.grant
	}
	return false
}

// next decides which thread runs next; nil when all have finished.
//
//go:norace
func (s *Sched) next() *thread {
	if s.abort {
		return s.nextAborted()
	}
	var en [MaxThreads]*thread
	n := 0
	running := false
	if s.cur >= 0 {
		if t := s.threads[s.cur]; t.enabled() {
			en[0] = t
			n = 1
			running = true
		}
	}
	live := false
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.pend != pJoined {
			live = true
		}
		if i != s.cur && t.enabled() {
			en[n] = t
			n++
		}
	}
	if n == 0 {
		for i := 0; i < s.n; i++ {
			if s.threads[i].pend == pYield {
				en[n] = s.threads[i]
				n++
			}
		}
	}
	if n == 0 {
		if !live {
			return nil
		}
		s.Deadlock = true
		s.abort = true
		return s.nextAborted()
	}
	s.steps++
	if s.steps > maxSteps || s.np >= MaxPoints {
		s.Overrun = true
		s.abort = true
		return s.nextAborted()
	}
	c := 0
	if n > 1 {
		if s.pol {
			c = s.polChoice(&en, n)
		} else if s.np < len(s.prefix) {
			c = int(s.prefix[s.np])
			if c >= n {
				s.BadReplay = true
				s.abort = true
				return s.nextAborted()
			}
		}
		s.points[s.np] = Point{N: uint8(n), Choice: uint8(c), Preemptive: running}
		s.np++
	}
	s.cur = en[c].id
	return en[c]
}

//go:norace
func (s *Sched) nextAborted() *thread {
	for i := 0; i < s.n; i++ {
		if t := s.threads[i]; t.pend != pJoined {
			s.cur = t.id
			return t
		}
	}
	return nil
}

// point makes the current thread wait with the given pending operation until the scheduler lets it go on.
//
//go:norace
func (s *Sched) point(t *thread) {
	if s.abort {
		t.pend = pNone
		panic(AbortPanic{})
	}
	n := s.next()
	if n != t {
		raceDisable()
		n.wake <- struct{}{}
		<-t.wake
		raceEnable()
	}
	t.pend = pNone
	if s.abort {
		panic(AbortPanic{})
	}
}

//go:norace
func (s *Sched) me() *thread { return s.threads[s.cur] }

// Yield is a scheduling point without effect, used by harnesses between two steps of one operation.
//
//go:norace
func Yield() {
	s := S
	if s == nil || s.abort {
		return
	}
	t := s.me()
	t.pend = pPoint
	s.point(t)
}

// OpBegin is the scheduling point in front of an operation. It also covers the operation's first lock operation, whose
// local preamble commutes with everything else. It returns the invocation time.
//
//go:norace
func OpBegin() int {
	s := S
	if s == nil {
		return 0
	}
	t := s.me()
	t.pend = pPoint
	t.begin = true
	s.point(t)
	t.begin = false
	t.free = true
	s.clock++
	return s.clock
}

// OpEnd returns the response time of an operation.
//
//go:norace
func OpEnd() int {
	s := S
	if s == nil {
		return 0
	}
	s.me().free = false
	s.clock++
	return s.clock
}

// Points returns the recorded decisions.
func (s *Sched) Points() []Point { return s.points[:s.np] }

// freePoint reports whether the thread's next point was already taken, and uses it up.
//
//go:norace
func (t *thread) freePoint() bool {
	f := t.free
	t.free = false
	return f
}

// Gosched replaces runtime.Gosched: lets every other enabled thread run first.
//
//go:norace
func Gosched() {
	s := S
	if s == nil || s.abort {
		return
	}
	t := s.me()
	t.pend = pYield
	s.point(t)
}

// Sleep replaces time.Sleep.
//
//go:norace
func Sleep[D ~int64](D) { Gosched() }

// Go replaces the go statement.
func Go(fn func()) {
	s := S
	if s == nil {
		deferred = append(deferred, fn)
		return
	}
	if s.full() {
		panic(fmt.Sprintf("verif: more than %d threads", MaxThreads))
	}
	t := s.add(fn)
	s.finished.Add(1)
	go s.main(t)
}

//go:norace
func (s *Sched) full() bool { return s.n == MaxThreads }

//go:norace
func (s *Sched) add(fn func()) *thread {
	t := &thread{id: s.n, wake: make(chan struct{}, 1), pend: pPoint, fn: fn}
	s.threads[s.n] = t
	s.n++
	return t
}

// deferred holds goroutines started in sequential mode; they run at the end of the operation.
var deferred []func()

// RunDeferred runs the goroutines the last operation started (sequential mode only).
func RunDeferred() {
	for len(deferred) > 0 {
		f := deferred[0]
		deferred = deferred[1:]
		f()
	}
}

// Acq and RelAcq are the happens-before edges of atomic operations.
//
//go:norace
func Acq(p unsafe.Pointer) { raceAcquire(p) }

//go:norace
func RelAcq(p unsafe.Pointer) {
	raceAcquire(p)
	raceReleaseMerge(p)
}
