package main

import (
	"fmt"
	"math/rand"

	"github.com/anishathalye/porcupine"

	"github.com/alexander-yu/stream/sample"

	"verif/vsync"
)

const ruleSched = "controlled schedules of short concurrent operation lists on the instrumented library (one task runs at a time; every library statement and lock operation is a possible preemption; policies: uniform random at four rates, at synchronisation points only, PCT with 1-3 change points); "

func init() {
	register("C13", ruleSched+"each recorded history of calls and returns is judged by the porcupine linearizability checker against the metric's own sequential behaviour; non-trivial: at least two tasks overlapped, distinct by the sequence of context switches", func(c *Ctx) {
		concProp(c, c.N(31*120, 31*800), c.N(40, 60), func(k *Case, sc *scenario, r *runner, res vsync.Result, key string) {
			switch {
			case res.Deadlock != "" || res.Livelock != "":
				k.Count("schedules_not_completed", 1)
				return
			case len(res.Panics) > 0:
				if sc.seqPanics() {
					k.Count("sequential_panics", 1)
					panic(stopCase{})
				}
				k.record(key+"/panic", res.Panics[0], append([]string{sc.String()}, r.describe(res)...))
				panic(stopCase{})
			}
			switch r.linearizable() {
			case porcupine.Illegal:
				k.record(key+"/linearizability", "no sequential order of these calls explains their results: "+sc.String(), r.describe(res))
				panic(stopCase{})
			case porcupine.Unknown:
				k.Count("histories_undecided", 1)
			default:
				k.Count("histories_linearizable", 1)
			}
		}, 3, 3)
		for i := 0; i < c.N(160, 1500); i++ {
			i := i
			c.Case(fmt.Sprintf("reservoir-%d", i), func(k *Case) { reservoirSched(k, i%2 == 0) })
		}
	})
	register("C14", ruleSched+"a state where no task can proceed, a task that runs without end, a goroutine or lock left behind (calls made after all others returned must complete) is a violation; non-trivial: at least two tasks overlapped, distinct by the sequence of context switches", func(c *Ctx) {
		if schedBuild {
			concProp(c, c.N(31*200, 31*800), c.N(40, 60), func(k *Case, sc *scenario, r *runner, res vsync.Result, key string) {
				switch {
				case res.Deadlock != "":
					k.record(key+"/deadlock", "deadlock: "+res.Deadlock, append([]string{sc.String()}, r.describe(res)...))
					panic(stopCase{})
				case res.Livelock != "":
					k.record(key+"/livelock", "no end: "+res.Livelock, append([]string{sc.String()}, r.describe(res)...))
					panic(stopCase{})
				case len(res.Panics) > 0:
					if sc.seqPanics() {
						k.Count("sequential_panics", 1)
						panic(stopCase{})
					}
					k.record(key+"/panic", res.Panics[0], append([]string{sc.String()}, r.describe(res)...))
					panic(stopCase{})
				}
			}, 5, 3)
			return
		}
		stressProp(c)
	})
}

// reservoirSched pushes to and samples a reservoir from several tasks. While everything fits the
// sample is the sequence of pushes, so any history has to be linearizable; a full reservoir holds
// distinct items that had been offered, and the right number of them.
func reservoirSched(k *Case, fits bool) {
	r := k.Rng
	size := 100
	if !fits {
		size = r.Intn(4)
	}
	rand.Seed(r.Int63())
	kd := &Kind{Name: fmt.Sprintf("Reservoir(%d)", size), Class: "Reservoir", Arity: 1}
	kd.New = func() (*Inst, error) {
		res := &sample.Reservoir{Size: size}
		return &Inst{
			Push: func(xs ...float64) error { res.Push(xs[0]); return nil },
			Snap: func() []Obs {
				os := []Obs{}
				for _, x := range res.Sample() {
					v, ok := x.(float64)
					if !ok {
						v = -1 // nobody pushed that
					}
					os = append(os, obs1("item", v, nil))
				}
				return os
			},
			Clear: func() {},
			Root:  res,
		}, nil
	}
	kd.Model = func(h *Hist) []Expect { return nil }
	sc := &scenario{kd: kd}
	id := 0.0
	push := func() cop { id++; return cop{K: opPush, X: []float64{id}} }
	for i := r.Intn(3); i > 0; i-- {
		sc.prefill = append(sc.prefill, push())
	}
	for t := 2 + r.Intn(2); t > 0; t-- {
		var ops []cop
		for i := 1 + r.Intn(4); i > 0; i-- {
			if r.Intn(3) > 0 {
				ops = append(ops, push())
			} else {
				ops = append(ops, cop{K: opQuery})
			}
		}
		sc.tasks = append(sc.tasks, ops)
	}
	est := 60
	for j, n := 0, nSched(k.N(60, 100)); j < n; j++ {
		run, res := sc.run(r.Int63(), polFor(r, j, est))
		if res.Uncontrolled {
			k.Count("schedules_given_up", 1)
			continue
		}
		est = res.Steps
		k.noteSched(run, res)
		k.EvalH(run.maxInFlight > 1, mixHash(res.Digest, hashStr(k.Name)))
		if res.Deadlock != "" || res.Livelock != "" {
			k.Count("schedules_not_completed", 1)
			return
		}
		if len(res.Panics) > 0 {
			k.record("Reservoir/panic", res.Panics[0], run.describe(res))
			return
		}
		if fits {
			if run.linearizable() == porcupine.Illegal {
				k.record("Reservoir/linearizability", "no sequential order of these calls explains their results: "+sc.String(), run.describe(res))
				return
			}
			k.Count("histories_linearizable", 1)
			continue
		}
		for _, q := range run.log {
			if q.in.K != opQuery {
				continue
			}
			before, during := 0, 0
			offered := map[float64]bool{}
			for _, p := range run.log {
				if p.in.K != opPush || p.call > q.ret {
					continue
				}
				offered[p.in.X[0]] = true
				if p.ret < q.call {
					before++
				}
				during++
			}
			lo, hi := before, during
			if lo > size {
				lo = size
			}
			if hi > size {
				hi = size
			}
			seen := map[float64]bool{}
			for _, o := range q.out.Obs {
				if !offered[o.V] || seen[o.V] {
					k.record("Reservoir/items", fmt.Sprintf("a sample holds %v, repeated or not pushed by then: %s", o.V, sc), run.describe(res))
					return
				}
				seen[o.V] = true
			}
			if n := len(q.out.Obs); n < lo || n > hi {
				k.record("Reservoir/size", fmt.Sprintf("a sample has %d items, want %d to %d: %s", n, lo, hi, sc), run.describe(res))
				return
			}
			k.Count("samples_judged", 1)
		}
	}
}

// nSched is the number of schedules to run of n: fewer when they are not controlled, because the
// library uses means of synchronisation that the scheduler does not know; those are slow.
func nSched(n int) int {
	if vsync.Free {
		return (n + 7) / 8
	}
	return n
}

// concProp runs scenarios under many schedules each.
func concProp(c *Ctx, scenarios, schedules int, judge func(k *Case, sc *scenario, r *runner, res vsync.Result, key string), maxTasks, maxOps int) {
	for i := 0; i < scenarios; i++ {
		class := concClasses[i%len(concClasses)]
		if c.Prop == "C14" && i%25 == 24 {
			class = "misfit" // calls that fail deep inside; nobody compares values
		}
		i := i
		c.Case(fmt.Sprintf("%s-%d", class, i), func(k *Case) {
			kd := concKind(k.Rng, class)
			sc := randScenario(k.Rng, kd, 2+k.Rng.Intn(maxTasks-1), maxOps)
			sc.endBad = k.Prop == "C14"
			est := 100
			n := schedules
			if kd.Class == "SimpleAggregate" || kd.Class == "SimpleJointAggregate" {
				n = n * 2 / 3
			}
			n = nSched(n)
			for j := 0; j < n; j++ {
				r, res := sc.run(k.Rng.Int63(), polFor(k.Rng, j, est))
				if res.Uncontrolled {
					k.Count("schedules_given_up", 1)
					n = j + nSched(n-j)
					continue
				}
				est = res.Steps
				k.noteSched(r, res)
				k.EvalH(r.maxInFlight > 1, mixHash(res.Digest, hashStr(k.Name)))
				judge(k, sc, r, res, kd.Class)
			}
			k.Sample("%s: %d schedules", sc, n)
		})
	}
}
