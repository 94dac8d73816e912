package main

import (
	"fmt"
	"math/rand"

	"github.com/anishathalye/porcupine"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
)

// lockMoment exposes a univariate core's explicit locks and unlocked calls.
func lockMoment(in *Inst) *lockable {
	c := in.Root.(*moment.Core)
	lk := &lockable{Lock: c.Lock, Unlock: c.Unlock, RLock: c.RLock, RUnlock: c.RUnlock, Clear: c.UnsafeClear,
		Push: func(xs ...float64) error { return c.UnsafePush(xs[0]) }}
	for i, q := range in.Qs {
		switch {
		case i == 0:
			lk.Qs = append(lk.Qs, q1(q.Label, q.Idx[0], func() (float64, error) { return float64(c.UnsafeCount()), nil }))
		case i == 1:
			lk.Qs = append(lk.Qs, q1(q.Label, q.Idx[0], c.UnsafeMean))
		default:
			k := i - 1
			lk.Qs = append(lk.Qs, q1(q.Label, q.Idx[0], func() (float64, error) { return c.UnsafeSum(k) }))
		}
	}
	return lk
}

// lockJoint does so for a multivariate core.
func lockJoint(vars int, tracked [][]int) func(in *Inst) *lockable {
	return func(in *Inst) *lockable {
		c := in.Root.(*joint.Core)
		lk := &lockable{Lock: c.Lock, Unlock: c.Unlock, RLock: c.RLock, RUnlock: c.RUnlock, Clear: c.UnsafeClear,
			Push: c.UnsafePush}
		for i, q := range in.Qs {
			switch {
			case i == 0:
				lk.Qs = append(lk.Qs, q1(q.Label, q.Idx[0], func() (float64, error) { return float64(c.UnsafeCount()), nil }))
			case i <= vars:
				v := i - 1
				lk.Qs = append(lk.Qs, q1(q.Label, q.Idx[0], func() (float64, error) { return c.UnsafeMean(v) }))
			default:
				t := tracked[i-1-vars]
				lk.Qs = append(lk.Qs, q1(q.Label, q.Idx[0], func() (float64, error) { return c.UnsafeSum(t...) }))
			}
		}
		return lk
	}
}

// lockQuantile: only the read lock is exposed and nothing can be read without locking, so a batch
// is just a time during which the lock is held.
func lockQuantile(in *Inst) *lockable {
	q := in.Root.(*quantile.Quantile)
	return &lockable{RLock: q.RLock, RUnlock: q.RUnlock}
}

// lockKind draws a metric with explicit locks: a bare core, a core with metrics attached, or a Quantile.
func lockKind(r *rand.Rand, i int) (*Kind, func(in *Inst) *lockable, bool) {
	w := r.Intn(4)
	d := 0.0
	if r.Intn(4) == 0 {
		w, d = 0, decays[r.Intn(len(decays))]
	}
	switch i % 5 {
	case 0, 1:
		ks := []int{1 + r.Intn(4)}
		return withMetrics(kindCore(ks, w, d), r, w, d), lockMoment, true
	case 2, 3:
		vars := 2 + r.Intn(2)
		ts := randTuples(r, vars)
		return withJointMetrics(kindJCore(ts, vars, w, d, true), r, ts, vars, w, d), lockJoint(vars, downClosure(ts)), true
	default:
		return kindQuantile(r, w, r.Intn(3), r.Intn(5), []float64{0.25, 0.5, 0.9}), lockQuantile, false
	}
}

// withMetrics attaches metrics to the core under test, so that their calls meet its locks too.
func withMetrics(kd *Kind, r *rand.Rand, w int, d float64) *Kind {
	if d > 0 || r.Intn(2) == 0 {
		return kd
	}
	via := r.Intn(2)
	base := kd.New
	out := *kd
	out.Name += fmt.Sprintf("+Mean(via=%d)", via)
	out.New = func() (*Inst, error) {
		in, err := base()
		if err != nil {
			return nil, err
		}
		m := moment.NewMean(w)
		m.SetCore(in.Root.(*moment.Core))
		in.Qs[1] = q1("Mean", 1, m.Value)
		if via == 1 {
			in.Push = func(xs ...float64) error { return m.Push(xs[0]) }
			in.Clear = m.Clear
		}
		return in, nil
	}
	return &out
}

func withJointMetrics(kd *Kind, r *rand.Rand, ts [][]int, vars, w int, d float64) *Kind {
	if d > 0 || vars != 2 || r.Intn(2) == 0 {
		return kd
	}
	base := kd.New
	out := *kd
	out.Name += "+Cov(push)"
	out.New = func() (*Inst, error) {
		in, err := base()
		if err != nil {
			return nil, err
		}
		m := joint.NewCov(w)
		m.SetCore(in.Root.(*joint.Core))
		in.Push = m.Push
		in.Clear = m.Clear
		return in, nil
	}
	return &out
}

func lockScenario(r *rand.Rand, kd *Kind, lk func(in *Inst) *lockable, full bool) *scenario {
	nt := 2 + r.Intn(2)
	sc := randScenario(r, kd, nt, 3)
	sc.lk = lk
	nq := len(kd.make().queries(kd))
	push := func() cop { return cop{K: opPush, X: randPoint(r, kd.Arity)} }
	query := func() cop { return cop{K: opQuery, Q: r.Intn(nq)} }
	for t := range sc.tasks {
		if t > 0 && r.Intn(2) == 0 {
			continue
		}
		var b cop
		switch {
		case !full:
			b = cop{K: opBatchR}
		case r.Intn(2) == 0:
			b = cop{K: opBatchW}
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				switch r.Intn(5) {
				case 0, 1:
					b.Batch = append(b.Batch, push())
				case 2:
					if r.Intn(3) == 0 {
						b.Batch = append(b.Batch, cop{K: opClear})
					}
					b.Batch = append(b.Batch, push())
				default:
					b.Batch = append(b.Batch, query())
				}
			}
		default:
			b = cop{K: opBatchR}
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				b.Batch = append(b.Batch, query())
			}
		}
		at := r.Intn(len(sc.tasks[t]) + 1)
		ops := append(append(append([]cop{}, sc.tasks[t][:at]...), b), sc.tasks[t][at:]...)
		sc.tasks[t] = ops
	}
	return sc
}

func init() {
	register("C26", ruleSched+"tasks also hold the write or read lock of a core (or the read lock of a Quantile) around batches of unlocked calls; no call that starts while a conflicting lock is held may return before its release, and with every batch as one atomic operation the history must be linearizable against the metric's own sequential behaviour; non-trivial: at least two tasks overlapped, distinct by the sequence of context switches", func(c *Ctx) {
		for i, n := 0, c.N(2500, 24000); i < n; i++ {
			i := i
			c.Case(fmt.Sprintf("lock-%d", i), func(k *Case) {
				kd, lk, full := lockKind(k.Rng, i)
				sc := lockScenario(k.Rng, kd, lk, full)
				est := 100
				m := nSched(k.N(40, 60))
				for j := 0; j < m; j++ {
					r, res := sc.run(k.Rng.Int63(), polFor(k.Rng, j, est))
					if res.Uncontrolled {
						k.Count("schedules_given_up", 1)
						m = j + nSched(m-j)
						continue
					}
					est = res.Steps
					k.noteSched(r, res)
					k.EvalH(r.maxInFlight > 1, mixHash(res.Digest, hashStr(k.Name)))
					for _, e := range r.log {
						if e.in.K == opBatchW || e.in.K == opBatchR {
							k.Count("locked_batches", 1)
						}
					}
					if r.exclViol != "" {
						k.record(kd.Class+"/exclusion", r.exclViol+": "+sc.String(), r.describe(res))
						return
					}
					switch {
					case res.Deadlock != "" || res.Livelock != "":
						k.Count("schedules_not_completed", 1)
						return
					case len(res.Panics) > 0:
						if !sc.seqPanics() {
							k.record(kd.Class+"/panic", res.Panics[0], append([]string{sc.String()}, r.describe(res)...))
						}
						return
					}
					switch r.linearizable() {
					case porcupine.Illegal:
						k.record(kd.Class+"/atomicity", "no order of these calls and locked batches explains their results: "+sc.String(), r.describe(res))
						return
					case porcupine.Unknown:
						k.Count("histories_undecided", 1)
					}
				}
				k.Sample("%s", sc)
			})
		}
	})
}
