package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"

	"verif/vsync"
)

type opKind int

const (
	opPush opKind = iota
	opQuery
	opClear
	opBad
	opString
	opBatchW // caller-held write lock: pushes, then reads
	opBatchR // caller-held read lock: reads
)

// cop is one operation of a concurrent history.
type cop struct {
	K     opKind
	X     []float64
	Q     int
	Batch []cop // for batches
}

// cout is what it returned.
type cout struct {
	Err error
	Obs []Obs
	Out []cout // batch
	Str string
}

func (o cop) String() string {
	switch o.K {
	case opPush:
		return "Push" + fmtFs(o.X)
	case opQuery:
		return fmt.Sprintf("Query#%d", o.Q)
	case opClear:
		return "Clear"
	case opBad:
		return fmt.Sprintf("Bad#%d", o.Q)
	case opString:
		return "String"
	case opBatchW:
		return "Lock{" + fmt.Sprint(o.Batch) + "}"
	default:
		return "RLock{" + fmt.Sprint(o.Batch) + "}"
	}
}

func (o cout) String() string {
	s := ""
	if o.Err != nil {
		s = "error "
	}
	for _, b := range o.Obs {
		if b.Err != nil {
			s += "error "
		} else {
			s += fmtF(b.V) + " "
		}
	}
	for _, b := range o.Out {
		s += "(" + b.String() + ")"
	}
	return s + o.Str
}

// lockable lets a scenario run batches under the caller's own lock.
type lockable struct {
	Lock, Unlock, RLock, RUnlock func()
	Push                         func(xs ...float64) error // unlocked
	Clear                        func()
	Qs                           []Query // unlocked; same indices as Inst.Qs
}

// scenario is a set of operation lists to run concurrently on one metric.
type scenario struct {
	kd      *Kind
	prefill []cop
	tasks   [][]cop
	lk      func(in *Inst) *lockable
	endBad  bool // make every failing call at the end, too
}

type event struct {
	client    int
	call, ret int64
	in        cop
	out       cout
}

// runner executes a scenario once under a schedule.
type runner struct {
	sc    *scenario
	in    *Inst
	qs    []Query
	lk    *lockable
	clock int64
	log   []event
	// caller-held locks: since when, by whom
	wHeld, rHeld map[int]int64
	exclViol     string
	strs         map[string]bool
	inFlight     int
	maxInFlight  int
	mu           sync.Mutex // for schedules that are not controlled; nothing yields while it is held
}

func (r *runner) now() int64 { r.clock++; return r.clock }

// holds notes that a client holds a lock since now, or does not any more.
func (r *runner) holds(m map[int]int64, client int, held bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if held {
		m[client] = r.now()
	} else {
		delete(m, client)
	}
}

func (r *runner) do(client int, o cop) {
	ev := event{client: client, in: o}
	r.mu.Lock()
	ev.call = r.now()
	r.inFlight++
	if r.inFlight > r.maxInFlight {
		r.maxInFlight = r.inFlight
	}
	r.mu.Unlock()
	vsync.Y()
	switch o.K {
	case opPush:
		ev.out.Err = r.in.Push(o.X...)
	case opQuery:
		ev.out.Obs = r.qs[o.Q].Run()
	case opClear:
		r.in.Clear()
	case opBad:
		ev.out.Err = r.in.Bad[o.Q]()
	case opString:
		ev.out.Str = r.in.Str()
	case opBatchW:
		r.lk.Lock()
		r.holds(r.wHeld, client, true)
		ev.out.Out = r.unlocked(o.Batch)
		r.holds(r.wHeld, client, false)
		r.lk.Unlock()
	case opBatchR:
		r.lk.RLock()
		r.holds(r.rHeld, client, true)
		ev.out.Out = r.unlocked(o.Batch)
		r.holds(r.rHeld, client, false)
		r.lk.RUnlock()
	}
	r.mu.Lock()
	for c, since := range r.wHeld {
		if c != client && ev.call > since && o.K != opString {
			r.exclViol = fmt.Sprintf("%s by client %d started and returned while client %d held the write lock", o, client, c)
		}
	}
	if o.K == opPush || o.K == opClear || o.K == opBatchW {
		for c, since := range r.rHeld {
			if c != client && ev.call > since {
				r.exclViol = fmt.Sprintf("%s by client %d started and returned while client %d held a read lock", o, client, c)
			}
		}
	}
	r.mu.Unlock()
	vsync.Y()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.inFlight--
	ev.ret = r.now()
	r.log = append(r.log, ev)
}

func (r *runner) unlocked(ops []cop) []cout {
	var out []cout
	for _, o := range ops {
		vsync.Y()
		var c cout
		switch o.K {
		case opPush:
			c.Err = r.lk.Push(o.X...)
		case opQuery:
			c.Obs = r.lk.Qs[o.Q].Run()
		case opClear:
			r.lk.Clear()
		}
		out = append(out, c)
	}
	for i := 0; i < 4; i++ {
		vsync.Y()
	}
	return out
}

// run makes a fresh metric and executes the scenario under one schedule. The final queries are
// made after all tasks are done.
func (sc *scenario) run(seed int64, pol vsync.Policy) (*runner, vsync.Result) {
	r := &runner{sc: sc, wHeld: map[int]int64{}, rHeld: map[int]int64{}}
	r.in = sc.kd.make()
	r.qs = r.in.queries(sc.kd)
	if sc.lk != nil {
		r.lk = sc.lk(r.in)
	}
	main := len(sc.tasks)
	seq := func(ops []cop) vsync.Result {
		return vsync.Run(1, vsync.Policy{Kind: "sync"}, []string{"main"}, []func(){func() {
			for _, o := range ops {
				r.do(main, o)
			}
		}})
	}
	if len(sc.prefill) > 0 {
		if res := seq(sc.prefill); res.Deadlock != "" || len(res.Panics) > 0 || res.Uncontrolled {
			return r, res
		}
	}
	var names []string
	var fns []func()
	for i, t := range sc.tasks {
		i, t := i, t
		names = append(names, fmt.Sprintf("task%d", i))
		fns = append(fns, func() {
			for _, o := range t {
				r.do(i, o)
			}
		})
	}
	res := vsync.Run(seed, pol, names, fns)
	if res.Deadlock != "" || res.Livelock != "" || len(res.Panics) > 0 || res.Uncontrolled {
		return r, res
	}
	var fin []cop
	for q := range r.qs {
		fin = append(fin, cop{K: opQuery, Q: q})
	}
	if sc.endBad {
		for i := range r.in.Bad {
			fin = append(fin, cop{K: opBad, Q: i})
		}
	}
	// the metric must still accept a value and a Clear afterwards: a lock left behind shows here
	p := make([]float64, sc.kd.Arity)
	for i := range p {
		p[i] = 97
	}
	fin = append(fin, cop{K: opPush, X: p}, cop{K: opQuery, Q: 0}, cop{K: opClear}, cop{K: opQuery, Q: 0})
	res2 := seq(fin)
	if res2.Deadlock != "" || res2.Livelock != "" || len(res2.Panics) > 0 || res2.Uncontrolled {
		res2.Deadlock = orStr(res2.Deadlock, "") // keep which phase
		if res2.Deadlock != "" {
			res2.Deadlock = "after all calls had returned: " + res2.Deadlock
		}
		return r, res2
	}
	return r, res
}

func orStr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (r *runner) describe(res vsync.Result) []string {
	var out []string
	for _, e := range r.log {
		out = append(out, fmt.Sprintf("[%d,%d] client %d: %s -> %s", e.call, e.ret, e.client, e.in, e.out))
	}
	if res.Deadlock != "" {
		out = append(out, "deadlock: "+res.Deadlock)
	}
	return out
}

// seqPanics tells whether the calls panic even when they are made one after the other.
func (sc *scenario) seqPanics() bool {
	_, res := sc.run(1, vsync.Policy{Kind: "sync"})
	return len(res.Panics) > 0
}

// linModel makes the sequential specification of a metric for porcupine: a call may return what
// it returns when the calls are made one after the other on a fresh metric of the same kind. A
// state is the sequence of state-changing calls so far. (That the sequential results are right
// is the business of other properties.)
func linModel(kd *Kind) porcupine.Model {
	type st struct {
		ops []cop
		key string
	}
	type seq struct {
		in *Inst
		qs []Query
		ok bool
	}
	memo := map[string]*seq{}
	replay := func(s st) (q *seq) {
		if q, ok := memo[s.key]; ok {
			return q
		}
		q = &seq{}
		memo[s.key] = q
		defer func() { _ = recover() }() // a sequential panic: nothing to compare with
		q.in = kd.make()
		q.qs = q.in.queries(kd)
		for _, o := range s.ops {
			if o.K == opPush {
				_ = q.in.Push(o.X...)
			} else {
				q.in.Clear()
			}
		}
		q.ok = true
		return q
	}
	answers := map[string][]Obs{}
	// pushErr: would this Push fail, made sequentially?
	pushErr := func(s st, x []float64) (err error) {
		if q := replay(s); !q.ok {
			return nil
		}
		in := kd.make()
		for _, o := range s.ops {
			if o.K == opPush {
				_ = in.Push(o.X...)
			} else {
				in.Clear()
			}
		}
		return in.Push(x...)
	}
	next := func(s st, o cop, tag string) st {
		return st{ops: append(s.ops[:len(s.ops):len(s.ops)], o), key: s.key + tag}
	}
	var apply func(s st, in cop, out cout) (bool, st)
	apply = func(s st, in cop, out cout) (bool, st) {
		switch in.K {
		case opPush:
			if out.Err != nil && pushErr(s, in.X) == nil {
				return false, s
			}
			return true, next(s, in, fmt.Sprint(in.X))
		case opClear:
			return true, next(s, in, "C")
		case opBad:
			if q := replay(s); q.ok && out.Err == nil {
				return q.in.Bad[in.Q]() == nil, s
			}
			return true, s
		case opQuery:
			k := fmt.Sprint(in.Q, "@", s.key)
			want, ok := answers[k]
			if !ok {
				q := replay(s)
				if !q.ok {
					return true, s
				}
				want = q.qs[in.Q].Run()
				answers[k] = want
			}
			_, same := sameObs(want, out.Obs)
			return same, s
		case opBatchW, opBatchR:
			ok := true
			for i := range in.Batch {
				ok, s = apply(s, in.Batch[i], out.Out[i])
				if !ok {
					return false, s
				}
			}
			return true, s
		}
		return true, s
	}
	return porcupine.Model{
		Init: func() interface{} { return st{} },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			ok, n := apply(state.(st), input.(cop), output.(cout))
			return ok, n
		},
		Equal: func(a, b interface{}) bool { return a.(st).key == b.(st).key },
	}
}

// linearizable judges a recorded history.
func (r *runner) linearizable() porcupine.CheckResult {
	ops := make([]porcupine.Operation, len(r.log))
	for i, e := range r.log {
		ops[i] = porcupine.Operation{ClientId: e.client, Input: e.in, Output: e.out, Call: e.call, Return: e.ret}
	}
	return porcupine.CheckOperationsTimeout(linModel(r.sc.kd), ops, 20*time.Second)
}

// polFor varies how schedules are chosen.
func polFor(r *rand.Rand, i, est int) vsync.Policy {
	switch i % 6 {
	case 0:
		return vsync.Policy{Kind: "random", P: 0.5}
	case 1:
		return vsync.Policy{Kind: "random", P: 0.1}
	case 2:
		return vsync.Policy{Kind: "sync", P: 0.6}
	case 3:
		return vsync.Policy{Kind: "random", P: 0.03}
	default:
		return vsync.Policy{Kind: "pct", Depth: 1 + r.Intn(3), Est: est}
	}
}

// concValues are values whose subsets have distinct statistics.
var concValues = []float64{1, 2, 5, 11, 23, 47, 95, 3, 8, 17, 36, 71, -4, -9, 130, 0}

func randPoint(r *rand.Rand, arity int) []float64 {
	p := make([]float64, arity)
	for i := range p {
		p[i] = concValues[r.Intn(len(concValues))]
	}
	return p
}

// randScenario draws operation lists for a kind.
func randScenario(r *rand.Rand, kd *Kind, nTasks, nOps int) *scenario {
	sc := &scenario{kd: kd}
	in := kd.make()
	nq := len(in.queries(kd))
	for i, n := 0, r.Intn(6); i < n; i++ {
		sc.prefill = append(sc.prefill, cop{K: opPush, X: randPoint(r, kd.Arity)})
	}
	mix := r.Intn(4)
	for t := 0; t < nTasks; t++ {
		var ops []cop
		for i, n := 0, 1+r.Intn(nOps); i < n; i++ {
			x := r.Intn(20)
			switch {
			case (x < 1 || x < 12 && kd.Class == "misfit core") && len(in.Bad) > 0:
				ops = append(ops, cop{K: opBad, Q: r.Intn(len(in.Bad))})
			case x < 2 && in.Str != nil:
				ops = append(ops, cop{K: opString})
			case x < 4 && mix != 0:
				ops = append(ops, cop{K: opClear})
			case x < 11 && mix != 3 || x < 16 && mix == 3 && t == 0:
				ops = append(ops, cop{K: opPush, X: randPoint(r, kd.Arity)})
			default:
				ops = append(ops, cop{K: opQuery, Q: r.Intn(nq)})
			}
		}
		sc.tasks = append(sc.tasks, ops)
	}
	return sc
}

func (sc *scenario) String() string {
	var ts []string
	for _, t := range sc.tasks {
		ts = append(ts, fmt.Sprint(t))
	}
	return fmt.Sprintf("%s prefill=%v tasks=%s", sc.kd.Name, sc.prefill, strings.Join(ts, " || "))
}

// noteSched adds what a schedule did to the evidence.
func (k *Case) noteSched(r *runner, res vsync.Result) {
	k.Count("schedules", 1)
	k.Count("context_switches", int64(res.Switches))
	k.Count("scheduling_points", int64(res.Steps))
	k.Count("lock_waits", int64(res.Blocks))
	k.Count("operations", int64(len(r.log)))
	if res.Blocks > 0 {
		k.Count("schedules_with_contention", 1)
	}
	k.Max("most_tasks", float64(res.Tasks))
	k.Max("most_calls_in_flight", float64(r.maxInFlight))
}

// concKind draws a kind with parameters small enough for exhaustive judging of short histories.
func concKind(r *rand.Rand, class string) *Kind {
	switch class {
	case "shared":
		return kindShared(r, 4)
	case "misfit":
		return kindMisfit(r, 4)
	}
	return randKind(r, class, 4)
}

var concClasses = append(append([]string{}, allClasses...), "shared", "SimpleAggregate", "Quantile", "IQR", "shared")
