package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"

	"verif/vsync"
)

// mock is a recording member of an aggregate, with injected delays and failures.
type mock struct {
	mu     sync.Mutex
	name   string
	rng    *rand.Rand
	slow   int
	failP  float64 // chance that a push is refused
	failV  float64
	val    float64
	pushes [][]float64 // everything delivered since the last Clear, failures included
	all    [][]float64
	clears int
	values int
	active int64    // calls in progress
	errs   []string // errors given out by the current aggregate call
	n      int
}

func (m *mock) String() string { return m.name }

func (m *mock) enter() int {
	atomic.AddInt64(&m.active, 1)
	m.mu.Lock()
	r := m.rng.Intn(8)
	m.mu.Unlock()
	m.delay(r)
	return r
}

func (m *mock) delay(r int) {
	for i := 0; i < 1+m.slow*r/4; i++ {
		vsync.Y()
	}
	if !schedBuild && m.slow > 0 {
		switch {
		case r == 0:
			time.Sleep(time.Duration(20*m.slow) * time.Microsecond)
		case r < 4:
			runtime.Gosched()
		}
	}
}

func (m *mock) leave(r int) {
	m.delay(7 - r)
	atomic.AddInt64(&m.active, -1)
}

func (m *mock) push(xs []float64) error {
	r := m.enter()
	defer m.leave(r)
	m.mu.Lock()
	defer m.mu.Unlock()
	p := append([]float64(nil), xs...)
	m.pushes = append(m.pushes, p)
	m.all = append(m.all, p)
	if m.rng.Float64() < m.failP {
		m.n++
		e := fmt.Sprintf("<%s refuses %d>", m.name, m.n)
		m.errs = append(m.errs, e)
		return errors.New(e)
	}
	return nil
}

func (m *mock) Value() (float64, error) {
	r := m.enter()
	defer m.leave(r)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.values++
	if m.rng.Float64() < m.failV {
		m.n++
		e := fmt.Sprintf("<%s has none %d>", m.name, m.n)
		m.errs = append(m.errs, e)
		return 0, errors.New(e)
	}
	return m.val + float64(len(m.pushes)), nil
}

func (m *mock) Clear() {
	r := m.enter()
	defer m.leave(r)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.pushes = nil
	m.clears++
}

type umock struct{ *mock }

func (m umock) Push(x float64) error { return m.push([]float64{x}) }

type jmock struct{ *mock }

func (m jmock) Push(xs ...float64) error { return m.push(xs) }

// anyAgg hides which of the two aggregates is driven.
type anyAgg struct {
	Push   func(xs ...float64) error
	Values func() (map[string]float64, error)
	Clear  func()
	ms     []*mock
	joint  bool
}

// oddName gives names that are empty, look like formats or like the names of others, or differ late.
func oddName(i int) string {
	switch i {
	case 0:
		return ""
	case 1:
		return "%d%s%!"
	case 2:
		return " "
	case 3:
		return "Member"
	case 4:
		return "member"
	case 5:
		return "a_{window:1}"
	case 6:
		return "a_{window:10}"
	}
	return strings.Repeat("é", 60) + fmt.Sprint(i)
}

func mockAgg(r *rand.Rand, joint bool, failP, failV float64, slow int) *anyAgg {
	n := r.Intn(6)
	if r.Intn(12) == 0 {
		n = []int{20, 33, 70, 130}[r.Intn(4)]
	}
	a := &anyAgg{joint: joint}
	var us []stream.SimpleMetric
	var js []stream.SimpleJointMetric
	odd := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("member-%d;", i)
		if odd {
			name = oddName(i)
		}
		m := &mock{name: name, rng: rand.New(rand.NewSource(r.Int63())), val: float64(1000 * (i + 1)), slow: slow}
		if r.Intn(2) == 0 {
			m.failP, m.failV = failP, failV
		}
		a.ms = append(a.ms, m)
		us = append(us, umock{m})
		js = append(js, jmock{m})
	}
	if joint {
		x := aggregate.NewSimpleJointAggregateMetric(js...)
		a.Push, a.Values, a.Clear = x.Push, x.Values, x.Clear
	} else {
		x := aggregate.NewSimpleAggregateMetric(us...)
		a.Push, a.Values, a.Clear = func(xs ...float64) error { return x.Push(xs[0]) }, x.Values, x.Clear
	}
	return a
}

func (a *anyAgg) idle() string {
	for _, m := range a.ms {
		if n := atomic.LoadInt64(&m.active); n != 0 {
			return fmt.Sprintf("%d call(s) on %s still in progress when the aggregate's call returned", n, m.name)
		}
	}
	return ""
}

// takeErrs lists the failures given out since the last call of it.
func (a *anyAgg) takeErrs() []string {
	var es []string
	for _, m := range a.ms {
		m.mu.Lock()
		es = append(es, m.errs...)
		m.errs = nil
		m.mu.Unlock()
	}
	return es
}

// covers says what is wrong about an error that should name the given failures.
func covers(err error, fails []string) string {
	if len(fails) == 0 {
		if err != nil {
			return fmt.Sprintf("error %q although no member failed", err)
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("no error although members failed: %v", fails)
	}
	times := map[string]int{}
	for _, f := range fails {
		times[f]++
	}
	for f, n := range times {
		if c := strings.Count(err.Error(), f); c < n {
			return fmt.Sprintf("error %q names the failure %s %d times instead of %d", err, f, c, n)
		}
	}
	return ""
}

func samePoint(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// aggSequential makes the calls one after another and checks each on its own.
func (k *Case) aggSequential(a *anyAgg, ops int) {
	r := k.Rng
	cls := "SimpleAggregate"
	if a.joint {
		cls = "SimpleJointAggregate"
	}
	for i := 0; i < ops; i++ {
		type snap struct{ pushes, all, clears int }
		before := make([]snap, len(a.ms))
		for j, m := range a.ms {
			before[j] = snap{len(m.pushes), len(m.all), m.clears}
		}
		a.takeErrs()
		op := ""
		dPush, dClear := 0, 0
		var p []float64
		switch x := r.Intn(10); {
		case x < 5:
			op, dPush = "Push", 1
			p = []float64{float64(i) + 0.5}
			if a.joint && i%7 == 3 {
				p = nil
			}
			if a.joint {
				width := i % 5
				if r.Intn(6) == 0 {
					width = r.Intn(70)
				}
				for len(p) < width {
					p = append(p, r.NormFloat64())
				}
			}
			arg := append([]float64(nil), p...)
			err := a.Push(arg...)
			k.logf("Push%s -> %v", fmtFs(p), err)
			if w := a.idle(); w != "" {
				k.Fail(cls+"/Push-not-done", "%s", w)
			}
			if w := covers(err, a.takeErrs()); w != "" {
				k.Fail(cls+"/Push-error", "Push of %d members: %s", len(a.ms), w)
			}
			if !samePoint(arg, p) {
				k.Fail(cls+"/Push-args", "Push changed its arguments")
			}
		case x < 8:
			op = "Values"
			vals, err := a.Values()
			k.logf("Values -> %v %v", vals, err)
			if w := a.idle(); w != "" {
				k.Fail(cls+"/Values-not-done", "%s", w)
			}
			fails := a.takeErrs()
			if w := covers(err, fails); w != "" {
				k.Fail(cls+"/Values-error", "Values of %d members: %s", len(a.ms), w)
			}
			if len(fails) == 0 {
				if len(vals) != len(a.ms) {
					k.Fail(cls+"/Values-entries", "%d entries for %d members: %v", len(vals), len(a.ms), vals)
				}
				for _, m := range a.ms {
					v, ok := vals[m.name]
					if want := m.val + float64(len(m.pushes)); !ok || v != want {
						k.Fail(cls+"/Values-entry", "entry of %s is %v (present: %v), the member reports %v", m.name, v, ok, want)
					}
				}
			}
		default:
			op, dClear = "Clear", 1
			a.Clear()
			k.logf("Clear")
			if w := a.idle(); w != "" {
				k.Fail(cls+"/Clear-not-done", "%s", w)
			}
		}
		for j, m := range a.ms {
			b := before[j]
			if d := len(m.all) - b.all; d != dPush {
				k.Fail(cls+"/delivery", "%s delivered %d values to %s, want %d", op, d, m.name, dPush)
			}
			if dPush == 1 && !samePoint(m.all[len(m.all)-1], p) {
				k.Fail(cls+"/delivery", "Push%s delivered %v to %s", fmtFs(p), m.all[len(m.all)-1], m.name)
			}
			if dClear == 1 && (m.clears == b.clears || len(m.pushes) != 0) {
				k.Fail(cls+"/Clear-missed", "Clear did not reach %s", m.name)
			}
			if dClear == 0 && m.clears != b.clears {
				k.Fail(cls+"/Clear-spurious", "%s cleared %s", op, m.name)
			}
		}
		k.Count(op, 1)
		k.EvalH(len(a.ms) > 1, hashStr(k.Name, fmt.Sprint(i), op))
	}
}

// runTasks runs functions concurrently: under a controlled schedule if the build has one.
func runTasks(r *rand.Rand, i int, fns []func()) vsync.Result {
	names := make([]string, len(fns))
	for j := range names {
		names[j] = fmt.Sprintf("task%d", j)
	}
	if schedBuild {
		return vsync.Run(r.Int63(), polFor(r, i, 400), names, fns)
	}
	var wg sync.WaitGroup
	for _, f := range fns {
		wg.Add(1)
		go func(f func()) { defer wg.Done(); f() }(f)
	}
	wg.Wait()
	return vsync.Result{}
}

// aggConcurrent makes calls from several tasks and checks what each push caused, and the order.
func (k *Case) aggConcurrent(a *anyAgg, round int) {
	cls := "SimpleAggregate"
	if a.joint {
		cls = "SimpleJointAggregate"
	}
	r := k.Rng
	type pushed struct {
		x         float64
		call, ret int64
	}
	var clock int64
	var mu sync.Mutex
	var log []pushed
	var bad string
	fail := func(f string, args ...interface{}) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, args...)
		}
		mu.Unlock()
	}
	var fns []func()
	nt := 2 + r.Intn(2)
	for t := 0; t < nt; t++ {
		t := t
		n := 1 + r.Intn(4)
		kinds := make([]int, n)
		for i := range kinds {
			kinds[i] = r.Intn(4)
		}
		fns = append(fns, func() {
			for i := 0; i < n; i++ {
				x := float64(100*t + i)
				if kinds[i] == 0 {
					vals, err := a.Values()
					if err == nil && len(vals) != len(a.ms) {
						fail("Values returned %d entries for %d members", len(vals), len(a.ms))
					}
					continue
				}
				c := atomic.AddInt64(&clock, 1)
				err := a.Push(x, x)
				e := atomic.AddInt64(&clock, 1)
				for _, m := range a.ms {
					m.mu.Lock()
					cnt := 0
					for _, p := range m.all {
						if p[0] == x {
							cnt++
						}
					}
					named := err != nil && strings.Contains(err.Error(), "<"+m.name+" refuses")
					m.mu.Unlock()
					if cnt != 1 {
						fail("when Push(%v) returned, %s had received the value %d times", x, m.name, cnt)
					}
					if named && m.failP == 0 {
						fail("Push(%v) blames %s, which accepted the value: %v", x, m.name, err)
					}
					if m.failP == 1 && !named {
						fail("Push(%v) does not name the failure of %s: %v", x, m.name, err)
					}
				}
				mu.Lock()
				log = append(log, pushed{x, c, e})
				mu.Unlock()
			}
		})
	}
	res := runTasks(r, round, fns)
	if res.Deadlock != "" || res.Livelock != "" || res.Uncontrolled {
		k.Count("schedules_not_completed", 1)
		panic(stopCase{})
	}
	if len(res.Panics) > 0 {
		k.Fail(cls+"/panic", "%s", res.Panics[0])
	}
	if bad != "" {
		k.Fail(cls+"/concurrent-delivery", "%s", bad)
	}
	sort.Slice(log, func(i, j int) bool { return log[i].call < log[j].call })
	for _, m := range a.ms {
		pos := map[float64]int{}
		for i, p := range m.all {
			pos[p[0]] = i
		}
		for _, p := range log {
			for _, q := range log {
				if p.ret < q.call && pos[p.x] > pos[q.x] {
					k.Fail(cls+"/order", "Push(%v) returned before Push(%v) was called, but %s received them the other way round", p.x, q.x, m.name)
				}
			}
		}
	}
	if w := a.idle(); w != "" {
		k.Fail(cls+"/left-running", "%s", w)
	}
	k.Count("concurrent_pushes", int64(len(log)))
	d := res.Digest
	if d == 0 {
		d = hashStr(k.Name, fmt.Sprint(round))
	}
	k.EvalH(len(a.ms) > 0 && len(log) > 1, d)
}

// aggAgainstMembers compares an aggregate of real metrics with the same metrics on their own.
func (k *Case) aggAgainstMembers(joint bool) {
	r := k.Rng
	var kinds []*Kind
	classes := simpleClasses
	cls := "SimpleAggregate"
	if joint {
		classes = jointClasses
		cls = "SimpleJointAggregate"
	}
	for i, n := 0, r.Intn(6); i < n; i++ {
		kinds = append(kinds, randKind(r, classes[r.Intn(len(classes))], 17))
	}
	kinds = distinctKinds(kinds)
	var us []stream.SimpleMetric
	var js []stream.SimpleJointMetric
	var alone []*Inst
	for _, kd := range kinds {
		m := kd.make()
		if joint {
			js = append(js, m.Root.(stream.SimpleJointMetric))
		} else {
			us = append(us, m.Root.(stream.SimpleMetric))
		}
		alone = append(alone, kd.make())
	}
	a := &anyAgg{joint: joint}
	arity := 1
	if joint {
		arity = 2
		x := aggregate.NewSimpleJointAggregateMetric(js...)
		a.Push, a.Values, a.Clear = x.Push, x.Values, x.Clear
	} else {
		x := aggregate.NewSimpleAggregateMetric(us...)
		a.Push, a.Values, a.Clear = func(xs ...float64) error { return x.Push(xs[0]) }, x.Values, x.Clear
	}
	ps, fam := streamFor(r, 30+r.Intn(50), arity, nil)
	k.logf("aggregate of %d real metrics, %s", len(kinds), fam)
	check := func() {
		vals, err := a.Values()
		var fails []string
		for i, in := range alone {
			o := in.Snap()[0]
			if o.Err != nil {
				fails = append(fails, o.Err.Error())
				continue
			}
			if err == nil {
				v, ok := vals[in.Str()]
				if !ok || v != o.V && !(v != v && o.V != o.V) {
					k.Fail(cls+"/Values-vs-alone", "entry of %s is %v (present: %v); the metric alone reports %v", kinds[i].Name, v, ok, o.V)
				}
			}
		}
		if w := covers(err, fails); w != "" {
			k.Fail(cls+"/Values-error", "%s", w)
		}
		if err == nil && len(vals) != len(alone) {
			k.Fail(cls+"/Values-entries", "%d entries for %d members", len(vals), len(alone))
		}
		k.EvalH(len(kinds) > 1, hashStr(k.Name, fmt.Sprint(vals, err)))
	}
	check()
	for _, p := range ps {
		err := a.Push(p...)
		k.logf("Push%s -> %v", fmtFs(p), err)
		var fails []string
		for _, in := range alone {
			if e := in.Push(p...); e != nil {
				fails = append(fails, e.Error())
			}
		}
		if w := covers(err, fails); w != "" {
			k.Fail(cls+"/Push-error", "%s", w)
		}
		if joint && r.Intn(6) == 0 { // a push that every member refuses
			err := a.Push(1, 2, 3)
			var fails []string
			for _, in := range alone {
				if e := in.Push(1, 2, 3); e != nil {
					fails = append(fails, e.Error())
				}
			}
			if w := covers(err, fails); w != "" {
				k.Fail(cls+"/Push-error", "%s", w)
			}
		}
		check()
		if r.Intn(25) == 0 {
			a.Clear()
			for _, in := range alone {
				in.Clear()
			}
			k.logf("Clear")
			check()
		}
	}
}

func init() {
	register("C15", "aggregates of recording mock members (injected delays, failures of pushes and values by chance, 0 to 20 members) driven sequentially with every call's deliveries, errors and entries checked when it returns, and concurrently (in the sched build under controlled schedules) with exactly-once delivery and order checked; aggregates of real metrics compared with the metrics alone; non-trivial: at least two members (sequential) or two pushes (concurrent)", func(c *Ctx) {
		for i, n := 0, c.N(2500, 20000); i < n; i++ {
			i := i
			joint := i%2 == 1
			if !schedBuild && i%3 == 2 {
				c.Case(fmt.Sprintf("real-%d", i), func(k *Case) { k.aggAgainstMembers(joint) })
				continue
			}
			if !schedBuild && i%3 == 1 {
				c.Case(fmt.Sprintf("seq-%d", i), func(k *Case) {
					fp := []float64{0, 0.3, 1}
					k.aggSequential(mockAgg(k.Rng, joint, fp[k.Rng.Intn(3)], fp[k.Rng.Intn(3)], k.Rng.Intn(3)), 40)
				})
				continue
			}
			c.Case(fmt.Sprintf("conc-%d", i), func(k *Case) {
				for j := 0; j < k.N(12, 24); j++ {
					fp := []float64{0, 0, 1}
					k.aggConcurrent(mockAgg(k.Rng, joint, fp[k.Rng.Intn(3)], fp[k.Rng.Intn(3)], k.Rng.Intn(3)), j)
				}
			})
		}
	})
}
