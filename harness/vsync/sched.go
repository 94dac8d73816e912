// Package vsync replaces package sync in an instrumented copy of the library, so that the
// monitors control every interleaving: exactly one task runs at a time, every statement and
// every synchronisation operation of the library is a point where another may be scheduled,
// and a state in which nobody can proceed is recognised at once as a deadlock.
//
// Outside Run the primitives behave as those of package sync, and Y only counts statements.
package vsync

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Free is set by a generated file when the library synchronises with something that cannot be
// controlled (channels, ...): tasks then run freely on real primitives with random delays.
var Free bool

// Steps counts the statements executed by the instrumented library outside Run.
var Steps int64

type state int

const (
	ready state = iota
	blocked
	finished
)

type task struct {
	id    int
	name  string
	wake  chan struct{}
	st    state
	can   func() bool
	what  string
	pcs   [24]uintptr
	npcs  int
	prio  float64
	spawn bool // started by the library
}

// Policy of one schedule.
type Policy struct {
	Kind  string  // "random", "pct", "sync"
	P     float64 // preemption probability
	Depth int     // pct change points
	Est   int     // pct: expected number of steps
}

// Result of one schedule.
type Result struct {
	Deadlock string   // what every unfinished task waits for, empty when all completed
	Livelock string   // where the tasks were when the step limit was reached
	Panics   []string // panics of tasks
	Steps    int
	Switches int
	Tasks    int    // including those started by the library
	Digest   uint64 // of the sequence of scheduling decisions
	Blocks   int    // times a task had to wait
	// Uncontrolled: the schedule was given up because a task did something that is not controlled
	Uncontrolled bool
}

type sched struct {
	mu      sync.Mutex // only for Free mode
	tasks   []*task
	cur     *task
	rng     *rand.Rand
	pol     Policy
	change  map[int]bool
	res     Result
	done    chan struct{}
	abort   bool
	limit   int
	ended   bool
	lowPrio float64
	chans   map[uintptr]*chanModel
	moves   int64
}

var active *sched

type abortT struct{}

// Active tells whether a controlled schedule is running.
func Active() bool { return active != nil }

// Run executes the functions as concurrent tasks under a controlled schedule.
func Run(seed int64, pol Policy, names []string, fns []func()) Result {
	if Free || !quiet() {
		return runFree(seed, names, fns)
	}
	s := &sched{rng: rand.New(rand.NewSource(seed)), pol: pol, done: make(chan struct{}), limit: 3_000_000}
	if pol.Kind == "pct" {
		s.change = map[int]bool{}
		est := pol.Est
		if est < 10 {
			est = 10
		}
		for i := 0; i < pol.Depth; i++ {
			s.change[1+s.rng.Intn(est)] = true
		}
	}
	for i, f := range fns {
		s.start(names[i], f, false)
	}
	active = s
	s.cur = nil
	next := s.pick()
	s.cur = next
	next.wake <- struct{}{}
	if !s.wait() {
		// a task is in something that is not controlled, and takes the token with it: from now on
		// the library runs freely
		active, Free = nil, true
		return Result{Uncontrolled: true, Tasks: len(fns)}
	}
	active = nil
	s.res.Tasks = len(s.tasks)
	return s.res
}

// wait returns when the schedule is complete, false when it has not moved for long.
func (s *sched) wait() bool {
	tick := time.NewTicker(5 * time.Second)
	defer tick.Stop()
	last, same := int64(-1), 0
	for {
		select {
		case <-s.done:
			return true
		case <-tick.C:
			if n := atomic.LoadInt64(&s.moves); n != last {
				last, same = n, 0
			} else if same++; same == 3 {
				return false
			}
		}
	}
}

// pickWait is pick, but gives timers the time to wake somebody up.
func (s *sched) pickWait() *task {
	next := s.pick()
	for i := 0; next == nil && Timers && i < 1500; i++ {
		left := false
		for _, t := range s.tasks {
			left = left || t.st != finished
		}
		if !left {
			break
		}
		time.Sleep(2 * time.Millisecond)
		next = s.pick()
	}
	return next
}

func (s *sched) start(name string, f func(), spawn bool) *task {
	t := &task{id: len(s.tasks), name: name, wake: make(chan struct{}, 1), prio: s.rng.Float64() + 1, spawn: spawn}
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortT); !ok {
					s.res.Panics = append(s.res.Panics, fmt.Sprintf("%s: panic: %v\n%s", t.name, r, debug.Stack()))
				}
			}
			s.finish(t)
		}()
		if s.abort {
			panic(abortT{})
		}
		f()
	}()
	return t
}

func (t *task) runnable() bool { return t.st == ready || t.st == blocked && t.can() }

// pick chooses the next task among those that can run.
func (s *sched) pick() *task {
	var best *task
	n := 0
	for _, t := range s.tasks {
		if !t.runnable() {
			continue
		}
		n++
		if s.pol.Kind == "pct" && s.res.Steps < 200_000 {
			if best == nil || t.prio > best.prio {
				best = t
			}
		} else if s.rng.Intn(n) == 0 {
			best = t
		}
	}
	if best != nil {
		best.st = ready
	}
	return best
}

func (s *sched) hash(x uint64) {
	s.res.Digest ^= x + 0x9e3779b97f4a7c15 + (s.res.Digest << 6) + (s.res.Digest >> 2)
}

// to hands the token to another task and waits to get it back.
func (s *sched) to(next *task) {
	me := s.cur
	if next == me {
		return
	}
	s.res.Switches++
	s.hash(uint64(next.id)<<32 | uint64(s.res.Steps))
	s.cur = next
	next.wake <- struct{}{}
	<-me.wake
	if s.abort {
		panic(abortT{})
	}
}

func (s *sched) finish(t *task) {
	t.st = finished
	if s.abort {
		s.unwind()
		return
	}
	next := s.pickWait()
	if next != nil {
		s.res.Switches++
		s.hash(uint64(next.id)<<32 | uint64(s.res.Steps))
		s.cur = next
		next.wake <- struct{}{}
		return
	}
	for _, u := range s.tasks {
		if u.st != finished {
			s.dead()
			return
		}
	}
	if !s.ended {
		s.ended = true
		close(s.done)
	}
}

// dead notes a deadlock and unwinds all tasks, one after another.
func (s *sched) dead() {
	s.res.Deadlock = s.describe()
	s.abort = true
	s.unwind()
}

func (s *sched) describe() string {
	var b strings.Builder
	for _, u := range s.tasks {
		if u.st == finished {
			continue
		}
		fmt.Fprintf(&b, "%s waits for %s at", u.name, u.what)
		fr := runtime.CallersFrames(u.pcs[:u.npcs])
		for {
			f, more := fr.Next()
			if f.Function == "" {
				break
			}
			if !strings.Contains(f.Function, "verif/vsync") && !strings.HasPrefix(f.Function, "runtime.") {
				fn := f.Function
				if i := strings.LastIndex(fn, "/"); i >= 0 {
					fn = fn[i+1:]
				}
				fmt.Fprintf(&b, " %s:%d", fn, f.Line)
			}
			if !more {
				break
			}
		}
		b.WriteString("; ")
	}
	return b.String()
}

func (s *sched) unwind() {
	for _, u := range s.tasks {
		if u.st != finished {
			s.cur = u
			u.wake <- struct{}{}
			return
		}
	}
	if !s.ended {
		s.ended = true
		close(s.done)
	}
}

// block waits until can() holds.
func (s *sched) block(what string, can func() bool) {
	me := s.cur
	me.st, me.can, me.what = blocked, can, what
	me.npcs = runtime.Callers(2, me.pcs[:])
	s.res.Blocks++
	next := s.pickWait()
	if next == nil {
		s.res.Deadlock = s.describe()
		s.abort = true
		panic(abortT{})
	}
	s.to(next)
	me.st = ready
}

func (s *sched) step(sync bool) {
	if s.abort {
		return
	}
	s.res.Steps++
	atomic.AddInt64(&s.moves, 1)
	if s.res.Steps > s.limit {
		me := s.cur
		me.what = "nothing (it keeps running)"
		me.npcs = runtime.Callers(2, me.pcs[:])
		s.res.Livelock = s.describe()
		s.abort = true
		panic(abortT{})
	}
	switch s.pol.Kind {
	case "pct":
		if s.res.Steps >= 200_000 {
			if s.rng.Intn(64) == 0 {
				s.to(s.pick())
			}
			return
		}
		if s.change[s.res.Steps] {
			s.lowPrio--
			s.cur.prio = s.lowPrio
		}
		// a task that became runnable may have a higher priority
		if sync || s.change[s.res.Steps] {
			s.to(s.pick())
		}
	case "sync":
		if sync && s.rng.Float64() < s.pol.P {
			s.to(s.pick())
		}
	default:
		if s.rng.Float64() < s.pol.P {
			s.to(s.pick())
		}
	}
}

// Y is a point at which another task may be scheduled.
func Y() {
	if s := active; s != nil {
		s.step(false)
		return
	}
	if Free {
		atomic.AddInt64(&Steps, 1)
		freeDelay()
		return
	}
	Steps++
}

func ySync() *sched {
	s := active
	if s == nil {
		if Free {
			freeDelay()
		}
		return nil
	}
	s.step(true)
	return s
}

// Go replaces the go statement.
func Go(f interface{}, args ...interface{}) { goReflect(f, false, args) }

// GoSlice replaces the go statement of a call f(args...).
func GoSlice(f interface{}, args ...interface{}) { goReflect(f, true, args) }

func goReflect(f interface{}, slice bool, args []interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		switch {
		case ft.IsVariadic() && !slice && i >= ft.NumIn()-1:
			pt = ft.In(ft.NumIn() - 1).Elem()
		default:
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a)
			if !in[i].Type().AssignableTo(pt) {
				in[i] = in[i].Convert(pt)
			}
		}
	}
	call := func() {
		if slice {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	}
	s := active
	if s == nil {
		atomic.AddInt64(&outside, 1)
		go func() {
			defer atomic.AddInt64(&outside, -1)
			call()
		}()
		return
	}
	if s.abort {
		return
	}
	s.start(fmt.Sprintf("goroutine %d of %s", len(s.tasks), s.cur.name), call, true)
	s.step(true)
}

// ---- free running, for libraries that use channels ----

var freeMu sync.Mutex
var freeRng = rand.New(rand.NewSource(1))

func freeDelay() {
	if atomic.LoadInt32(&freeRuns) == 0 {
		return
	}
	freeMu.Lock()
	r := freeRng.Intn(200)
	freeMu.Unlock()
	switch {
	case r < 20:
		runtime.Gosched()
	case r == 20:
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	}
}

var freeRuns int32

func runFree(seed int64, names []string, fns []func()) Result {
	if len(fns) > 1 {
		atomic.AddInt32(&freeRuns, 1)
		defer atomic.AddInt32(&freeRuns, -1)
	}
	freeMu.Lock()
	freeRng.Seed(seed)
	freeMu.Unlock()
	var res Result
	var mu sync.Mutex
	done := make(chan struct{})
	left := len(fns)
	for i := range fns {
		i := i
		go func() {
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					res.Panics = append(res.Panics, fmt.Sprintf("%s: panic: %v\n%s", names[i], r, debug.Stack()))
					mu.Unlock()
				}
				mu.Lock()
				left--
				if left == 0 {
					close(done)
				}
				mu.Unlock()
			}()
			fns[i]()
		}()
	}
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		mu.Lock()
		res.Deadlock = "not finished after 30 s: " + string(buf)
		mu.Unlock()
	}
	mu.Lock()
	defer mu.Unlock()
	res.Tasks = len(fns)
	res.Digest = uint64(seed)
	return res
}
