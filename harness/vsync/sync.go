package vsync

import "sync"

// Locker, Map and Pool are those of package sync.
type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

type fatal string

func misuse(msg string) { panic(fatal("fatal error: sync: " + msg)) }

// Mutex replaces sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

// Lock as sync.Mutex.Lock.
func (m *Mutex) Lock() {
	s := ySync()
	if s == nil {
		m.real.Lock()
		return
	}
	if s.abort {
		return
	}
	for m.locked {
		s.block("Mutex.Lock", func() bool { return !m.locked })
	}
	m.locked = true
}

// TryLock as sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	s := ySync()
	if s == nil {
		return m.real.TryLock()
	}
	if s.abort || m.locked {
		return s.abort
	}
	m.locked = true
	return true
}

// Unlock as sync.Mutex.Unlock.
func (m *Mutex) Unlock() {
	s := active
	if s == nil {
		m.real.Unlock()
		ySync()
		return
	}
	if s.abort {
		return
	}
	if !m.locked {
		misuse("unlock of unlocked mutex")
	}
	m.locked = false
	s.step(true)
}

// RWMutex replaces sync.RWMutex, with the same preference for pending writers.
type RWMutex struct {
	real    sync.RWMutex
	w       bool // held by the writer that is active or drains readers
	writing bool
	pending bool // a writer drains readers: new readers wait
	readers int
	gate    []*bool // readers waiting for the writer
}

// Lock as sync.RWMutex.Lock.
func (m *RWMutex) Lock() {
	s := ySync()
	if s == nil {
		m.real.Lock()
		return
	}
	if s.abort {
		return
	}
	for m.w {
		s.block("RWMutex.Lock", func() bool { return !m.w })
	}
	m.w, m.pending = true, true
	for m.readers > 0 {
		s.block("RWMutex.Lock (readers active)", func() bool { return m.readers == 0 })
	}
	m.pending, m.writing = false, true
}

// TryLock as sync.RWMutex.TryLock.
func (m *RWMutex) TryLock() bool {
	s := ySync()
	if s == nil {
		return m.real.TryLock()
	}
	if s.abort {
		return true
	}
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.writing = true, true
	return true
}

// Unlock as sync.RWMutex.Unlock.
func (m *RWMutex) Unlock() {
	s := active
	if s == nil {
		m.real.Unlock()
		ySync()
		return
	}
	if s.abort {
		return
	}
	if !m.writing {
		misuse("Unlock of unlocked RWMutex")
	}
	m.writing, m.w = false, false
	for _, g := range m.gate {
		*g = true
		m.readers++
	}
	m.gate = nil
	s.step(true)
}

// RLock as sync.RWMutex.RLock.
func (m *RWMutex) RLock() {
	s := ySync()
	if s == nil {
		m.real.RLock()
		return
	}
	if s.abort {
		return
	}
	if m.writing || m.pending {
		g := new(bool)
		m.gate = append(m.gate, g)
		for !*g {
			s.block("RWMutex.RLock", func() bool { return *g })
		}
		return
	}
	m.readers++
}

// TryRLock as sync.RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool {
	s := ySync()
	if s == nil {
		return m.real.TryRLock()
	}
	if s.abort {
		return true
	}
	if m.writing || m.pending {
		return false
	}
	m.readers++
	return true
}

// RUnlock as sync.RWMutex.RUnlock.
func (m *RWMutex) RUnlock() {
	s := active
	if s == nil {
		m.real.RUnlock()
		ySync()
		return
	}
	if s.abort {
		return
	}
	if m.readers == 0 {
		misuse("RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.step(true)
}

// RLocker as sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

// Add as sync.WaitGroup.Add.
func (g *WaitGroup) Add(d int) {
	s := ySync()
	if s == nil {
		g.real.Add(d)
		return
	}
	if s.abort {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done as sync.WaitGroup.Done.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait as sync.WaitGroup.Wait.
func (g *WaitGroup) Wait() {
	s := ySync()
	if s == nil {
		g.real.Wait()
		return
	}
	if s.abort {
		return
	}
	for g.n > 0 {
		s.block("WaitGroup.Wait", func() bool { return g.n == 0 })
	}
}

// Go as sync.WaitGroup.Go.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do as sync.Once.Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc as sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue as sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues as sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
	wait []*bool
}

// NewCond as sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

// Wait as sync.Cond.Wait.
func (c *Cond) Wait() {
	s := active
	if s == nil {
		c.real.Wait()
		return
	}
	if s.abort {
		panic(abortT{})
	}
	g := new(bool)
	c.wait = append(c.wait, g)
	c.L.Unlock()
	for !*g {
		s.block("Cond.Wait", func() bool { return *g })
	}
	c.L.Lock()
}

// Signal as sync.Cond.Signal.
func (c *Cond) Signal() {
	s := ySync()
	if s == nil {
		c.real.Signal()
		return
	}
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}

// Broadcast as sync.Cond.Broadcast.
func (c *Cond) Broadcast() {
	s := ySync()
	if s == nil {
		c.real.Broadcast()
		return
	}
	for _, g := range c.wait {
		*g = true
	}
	c.wait = nil
}
