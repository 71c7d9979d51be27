// Package zzsync stands in for package sync in the code under test (the build of
// C17 rewrites its imports). Outside of Run it behaves as package sync does. In Run,
// every acquisition of a lock is a scheduling point: exactly one thread runs at a
// time, and the schedule decides which.
//
// Handing over control uses channels whose synchronisation is hidden from the race
// detector (runtime.RaceDisable), so that the only happens-before edges it sees
// are those the locks themselves give, as package sync has them: two accesses
// that no lock orders are reported as a race in whatever order they were run.
package zzsync

import (
	"runtime"
	"sync"
	"unsafe"
)

type (
	Cond      = sync.Cond
	Map       = sync.Map
	Pool      = sync.Pool
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc, OnceValue and OnceValues are as in package sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var r T
	var s U
	return func() (T, U) { o.Do(func() { r, s = f() }); return r, s }
}

type kind uint8

const (
	kStart  kind = iota
	kLock        // Mutex.Lock, or the first half of RWMutex.Lock: exclude other writers
	kDrain       // the second half of RWMutex.Lock: wait for the readers
	kTry         // TryLock
	kTryR        // TryRLock
	kUnlock      // not a scheduling point
	kRLock
	kRUnlock // not a scheduling point
	kOnce
	kOnceDone // not a scheduling point
	kEnd
)

var kindNames = [...]string{"start", "lock", "drain", "trylock", "tryrlock", "unlock", "rlock", "runlock", "once", "oncedone", "end"}

type request struct {
	th   int
	k    kind
	obj  uintptr
	fail string // with kEnd
}

type thread struct {
	id     int
	resume chan bool
}

var (
	active  bool
	current *thread
	reqs    chan request
)

//go:norace
func isActive() bool { return active }

//go:norace
func cur() *thread { return current }

//go:norace
func setCur(t *thread) { current = t }

//go:norace
func setActive(on bool, c chan request) { active, reqs = on, c }

//go:norace
func reqChan() chan request { return reqs }

// ask hands control to the scheduler and returns when it comes back, with its answer.
func ask(k kind, obj unsafe.Pointer) bool {
	t := cur()
	c := reqChan()
	runtime.RaceDisable()
	c <- request{th: t.id, k: k, obj: uintptr(obj)}
	ok := <-t.resume
	runtime.RaceEnable()
	return ok
}

// Mutex is sync.Mutex.
type Mutex struct {
	mu sync.Mutex
	a  int32
}

func (m *Mutex) Lock() {
	if !isActive() {
		m.mu.Lock()
		return
	}
	ask(kLock, unsafe.Pointer(m))
	runtime.RaceAcquire(unsafe.Pointer(&m.a))
}

func (m *Mutex) TryLock() bool {
	if !isActive() {
		return m.mu.TryLock()
	}
	if !ask(kTry, unsafe.Pointer(m)) {
		return false
	}
	runtime.RaceAcquire(unsafe.Pointer(&m.a))
	return true
}

func (m *Mutex) Unlock() {
	if !isActive() {
		m.mu.Unlock()
		return
	}
	runtime.RaceRelease(unsafe.Pointer(&m.a))
	if !ask(kUnlock, unsafe.Pointer(m)) {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is sync.RWMutex: a waiting writer excludes new readers.
type RWMutex struct {
	mu   sync.RWMutex
	r, w int32
}

func (m *RWMutex) Lock() {
	if !isActive() {
		m.mu.Lock()
		return
	}
	ask(kLock, unsafe.Pointer(m))
	ask(kDrain, unsafe.Pointer(m))
	runtime.RaceAcquire(unsafe.Pointer(&m.r))
	runtime.RaceAcquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) TryLock() bool {
	if !isActive() {
		return m.mu.TryLock()
	}
	if !ask(kTry, unsafe.Pointer(m)) {
		return false
	}
	runtime.RaceAcquire(unsafe.Pointer(&m.r))
	runtime.RaceAcquire(unsafe.Pointer(&m.w))
	return true
}

func (m *RWMutex) Unlock() {
	if !isActive() {
		m.mu.Unlock()
		return
	}
	runtime.RaceRelease(unsafe.Pointer(&m.r))
	if !ask(kUnlock, unsafe.Pointer(m)) {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

func (m *RWMutex) RLock() {
	if !isActive() {
		m.mu.RLock()
		return
	}
	ask(kRLock, unsafe.Pointer(m))
	runtime.RaceAcquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) TryRLock() bool {
	if !isActive() {
		return m.mu.TryRLock()
	}
	if !ask(kTryR, unsafe.Pointer(m)) {
		return false
	}
	runtime.RaceAcquire(unsafe.Pointer(&m.r))
	return true
}

func (m *RWMutex) RUnlock() {
	if !isActive() {
		m.mu.RUnlock()
		return
	}
	runtime.RaceReleaseMerge(unsafe.Pointer(&m.w))
	if !ask(kRUnlock, unsafe.Pointer(m)) {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	mu   sync.Mutex
	done bool
	a    int32
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	if o.isDone() {
		runtime.RaceAcquire(unsafe.Pointer(&o.a))
		return
	}
	if !isActive() {
		o.mu.Lock()
		defer o.mu.Unlock()
		if !o.isDone() {
			defer func() {
				o.setDone()
				runtime.RaceRelease(unsafe.Pointer(&o.a))
			}()
			f()
		}
		return
	}
	if ask(kOnce, unsafe.Pointer(o)) { // first
		defer func() {
			o.setDone()
			runtime.RaceRelease(unsafe.Pointer(&o.a))
			ask(kOnceDone, unsafe.Pointer(o))
		}()
		f()
		return
	}
	runtime.RaceAcquire(unsafe.Pointer(&o.a))
}

// lock is the scheduler's view of a lock.
type lock struct {
	writer  bool // held or announced
	readers int
	once    int // 1: running, 2: done
}

// Step is one scheduling decision.
type Step struct {
	// Enabled are the threads that could go on, the one that ran before first, if it is one of them.
	Enabled []int
	Chosen  int // index into Enabled
	// Preempt: the thread that ran before could have gone on
	Preempt bool
	What    string
}

// Result is one execution.
type Result struct {
	Steps    []Step
	Deadlock string
	Panics   []string
	Stale    bool // the prefix does not fit the program
}

// Run runs the functions, each in its own thread, under the schedule that prefix
// begins; beyond it, threads run until they block or end.
func Run(prefix []int, fns ...func()) Result {
	var res Result
	rq := make(chan request)
	ths := make([]*thread, len(fns))
	pending := make([]request, len(fns))
	done := make([]bool, len(fns))
	locks := map[uintptr]*lock{}
	join := make(chan bool, len(fns))
	setActive(true, rq)
	for i, f := range fns {
		i, f := i, f
		t := &thread{id: i, resume: make(chan bool)}
		ths[i] = t
		pending[i] = request{th: i, k: kStart}
		go func() {
			runtime.RaceDisable()
			<-t.resume
			runtime.RaceEnable()
			fail := "runtime.Goexit"
			defer func() {
				if r := recover(); r != nil {
					b := make([]byte, 1<<14)
					b = b[:runtime.Stack(b, false)]
					fail = panicText(r) + "\n" + string(b)
				}
				join <- true
				runtime.RaceDisable()
				rq <- request{th: i, k: kEnd, fail: fail}
				runtime.RaceEnable()
			}()
			f()
			fail = ""
		}()
	}
	get := func(o uintptr) *lock {
		l := locks[o]
		if l == nil {
			l = &lock{}
			locks[o] = l
		}
		return l
	}
	enabled := func(r request) bool {
		l := get(r.obj)
		switch r.k {
		case kLock:
			return !l.writer
		case kDrain:
			return l.readers == 0
		case kRLock:
			return !l.writer
		case kOnce:
			return l.once != 1
		}
		return true
	}
	ended := 0
	last := -1
	for ended < len(fns) {
		var en []int
		if last >= 0 && !done[last] && enabled(pending[last]) {
			en = append(en, last)
		}
		n := len(en)
		for i := range fns {
			if i != last && !done[i] && enabled(pending[i]) {
				en = append(en, i)
			}
		}
		if len(en) == 0 {
			for i := range fns {
				if !done[i] {
					res.Deadlock += "thread " + itoa(i) + " waits to " + kindNames[pending[i].k] + "; "
				}
			}
			setActive(false, nil)
			return res // the threads are left behind
		}
		c := 0
		if k := len(res.Steps); k < len(prefix) {
			c = prefix[k]
			if c >= len(en) {
				res.Stale = true
				c = 0
			}
		}
		th := en[c]
		r := pending[th]
		res.Steps = append(res.Steps, Step{Enabled: en, Chosen: c, Preempt: n == 1 && c > 0, What: itoa(th) + ":" + kindNames[r.k]})
		last = th
		ok := true
		l := get(r.obj)
		switch r.k {
		case kLock:
			l.writer = true
		case kTry:
			if ok = !l.writer && l.readers == 0; ok {
				l.writer = true
			}
		case kTryR:
			if ok = !l.writer; ok {
				l.readers++
			}
		case kRLock:
			l.readers++
		case kOnce:
			if ok = l.once == 0; ok {
				l.once = 1
			}
		}
		setCur(ths[th])
		runtime.RaceDisable()
		ths[th].resume <- ok
		runtime.RaceEnable()
		// until its next scheduling point
		for at := false; !at; {
			runtime.RaceDisable()
			q := <-rq
			runtime.RaceEnable()
			ok := true
			l := get(q.obj)
			switch q.k {
			case kUnlock:
				ok = l.writer
				l.writer = false
			case kRUnlock:
				if ok = l.readers > 0; ok {
					l.readers--
				}
			case kOnceDone:
				l.once = 2
			case kEnd:
				done[q.th] = true
				ended++
				if q.fail != "" {
					res.Panics = append(res.Panics, "thread "+itoa(q.th)+": "+q.fail)
				}
				at = true
				continue
			default:
				pending[q.th] = q
				at = true
				continue
			}
			runtime.RaceDisable()
			ths[q.th].resume <- ok
			runtime.RaceEnable()
		}
	}
	setActive(false, nil)
	for range fns {
		<-join
	}
	return res
}

func itoa(i int) string { return string(rune('0' + i)) }

func panicText(r any) string {
	switch x := r.(type) {
	case error:
		return x.Error()
	case string:
		return x
	case interface{ String() string }:
		return x.String()
	}
	return "panic"
}
