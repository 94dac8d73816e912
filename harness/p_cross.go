package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"

	"verif/vsync"
)

// C24: several instances of one kind that differ in their parameters are asked the same questions
// in turn, also questions that only some of them can answer.

type crossOp struct {
	push []float64
	q    int // question, when push is nil; -1 clears
}

// crossSet makes the instances of one case: each can be made afresh, pushed to and asked any of n questions.
type crossSet struct {
	what  string
	arity int
	n     int
	names []string
	ask   func(q int) string
	mk    []func() (push func(xs ...float64) error, ask func(q int) (float64, error), clear func())
}

func crossJoint(r *rand.Rand) *crossSet {
	vars := []int{2, 2, 3, 4, 5, 12}[r.Intn(6)]
	s := &crossSet{what: "joint.Core", arity: vars}
	seen := map[string]bool{}
	var qs [][]int
	add := func(t []int) {
		if k := fmt.Sprint(t); !seen[k] {
			seen[k] = true
			qs = append(qs, t)
		}
	}
	for i := 2 + r.Intn(3); i > 0; i-- {
		var ts [][]int
		if vars == 12 {
			for j := 1 + r.Intn(3); j > 0; j-- {
				t := make([]int, vars)
				for e := 2 + r.Intn(4); e > 0; e-- {
					t[r.Intn(vars)]++
				}
				ts = append(ts, t)
			}
		} else {
			ts = randTuples(r, vars)
		}
		if vars == 2 && r.Intn(3) == 0 {
			ts = append(ts, []int{3 + r.Intn(5), 2 + r.Intn(5)}) // tracks many sums
		}
		w, d := randWindow(r, 17), 0.0
		if r.Intn(3) == 0 {
			w, d = 0, decays[r.Intn(len(decays))]
		}
		for _, t := range downClosure(ts) {
			add(t)
		}
		for _, t := range badTuples(ts, vars) {
			add(t)
		}
		setVars := r.Intn(2) == 0
		s.names = append(s.names, fmt.Sprintf("JointCore(sums=%v vars=%d w=%d d=%v)", ts, vars, w, d))
		s.mk = append(s.mk, func() (func(xs ...float64) error, func(int) (float64, error), func()) {
			c, err := joint.NewCore(jcoreConfig(ts, vars, w, d, setVars))
			if err != nil {
				panic(err)
			}
			return c.Push, func(q int) (float64, error) { return c.Sum(append([]int(nil), qs[q]...)...) }, c.Clear
		})
	}
	s.n = len(qs)
	s.ask = func(q int) string { return fmt.Sprintf("Sum(%v)", qs[q]) }
	return s
}

func crossMoment(r *rand.Rand) *crossSet {
	s := &crossSet{what: "moment.Core", arity: 1, n: 14}
	for i := 2 + r.Intn(3); i > 0; i-- {
		ks := randSums(r)
		w, d := randWindow(r, 17), 0.0
		if r.Intn(3) == 0 {
			w, d = 0, decays[r.Intn(len(decays))]
		}
		s.names = append(s.names, fmt.Sprintf("Core(sums=%v w=%d d=%v)", ks, w, d))
		s.mk = append(s.mk, func() (func(xs ...float64) error, func(int) (float64, error), func()) {
			c, err := moment.NewCore(coreConfig(ks, w, d))
			if err != nil {
				panic(err)
			}
			return func(xs ...float64) error { return c.Push(xs[0]) }, func(q int) (float64, error) {
				if q == 0 {
					return c.Mean()
				}
				return c.Sum(q - 1)
			}, c.Clear
		})
	}
	s.ask = func(q int) string { return fmt.Sprintf("Mean/Sum(%d)", q-1) }
	return s
}

func crossQuantile(r *rand.Rand) *crossSet {
	phis := append(randPhis(r), 0, 1, -0.25, 2)
	s := &crossSet{what: "Quantile", arity: 1, n: len(phis)}
	for i := 2 + r.Intn(3); i > 0; i-- {
		w, impl, interp := randWindow(r, 17), r.Intn(3), r.Intn(5)
		s.names = append(s.names, fmt.Sprintf("Quantile(w=%d impl=%d interp=%d)", w, impl, interp))
		s.mk = append(s.mk, func() (func(xs ...float64) error, func(int) (float64, error), func()) {
			q, err := quantile.New(w, quantile.ImplOption(impls[impl]), quantile.InterpolationOption(interps[interp]))
			if err != nil {
				panic(err)
			}
			return func(xs ...float64) error { return q.Push(xs[0]) }, func(i int) (float64, error) { return q.Value(phis[i]) }, q.Clear
		})
	}
	s.ask = func(q int) string { return fmt.Sprintf("Value(%v)", phis[q]) }
	return s
}

func crossCase(k *Case, i int) {
	r := k.Rng
	s := []func(*rand.Rand) *crossSet{crossJoint, crossMoment, crossQuantile, crossJoint}[i%4](r)
	m := len(s.mk)
	type ans struct {
		op  crossOp
		v   float64
		err bool
	}
	log := make([][]ans, m)
	push := make([]func(xs ...float64) error, m)
	ask := make([]func(int) (float64, error), m)
	clear := make([]func(), m)
	for j := range s.mk {
		push[j], ask[j], clear[j] = s.mk[j]()
	}
	do := func(j int, op crossOp) {
		a := ans{op: op}
		var err error
		switch {
		case op.push != nil:
			err = push[j](op.push...)
			k.logf("%d.Push%s", j, fmtFs(op.push))
		case op.q < 0:
			clear[j]()
			k.logf("%d.Clear", j)
		default:
			a.v, err = ask[j](op.q)
			k.logf("%d.%s = %v %v", j, s.ask(op.q), a.v, err)
		}
		a.err = err != nil
		log[j] = append(log[j], a)
	}
	k.logf("%v", s.names)
	ps, _ := streamFor(r, 400, s.arity, nil)
	for n := 0; n < 300; n++ {
		j := r.Intn(m)
		switch x := r.Intn(40); {
		case x == 0:
			do(j, crossOp{q: -1})
		case x < 12:
			do(j, crossOp{push: ps[n]})
			if x < 4 { // the same point to another
				do((j+1)%m, crossOp{push: ps[n]})
			}
		default:
			q := r.Intn(s.n)
			do(j, crossOp{q: q})
			for o := 0; o < m; o++ {
				if r.Intn(5) < 3 {
					do((j+o)%m, crossOp{q: q})
				}
			}
		}
	}
	solo := func(j int) []ans {
		push, ask, clear := s.mk[j]()
		var out []ans
		for _, a := range log[j] {
			b := ans{op: a.op}
			var err error
			switch {
			case a.op.push != nil:
				err = push(a.op.push...)
			case a.op.q < 0:
				clear()
			default:
				b.v, err = ask(a.op.q)
			}
			b.err = err != nil
			out = append(out, b)
		}
		return out
	}
	same := func(x, y ans) bool {
		return x.err == y.err && (math.Float64bits(x.v) == math.Float64bits(y.v) || math.IsNaN(x.v) && math.IsNaN(y.v))
	}
	for j := range log {
		a, b := solo(j), solo(j)
		repro := true
		for i := range a {
			repro = repro && same(a[i], b[i])
		}
		for i, x := range log[j] {
			ok := same(x, a[i])
			if !ok && !repro {
				ok = x.err == a[i].err // the order of summation is not fixed
				k.Count("compared_without_values", 1)
			}
			if !ok {
				k.Fail(s.what+"/not-independent", "%s among %v: %s answers %s (error: %v), alone %s (error: %v)", s.names[j], s.names, s.ask(x.op.q),
					fmtF(x.v), x.err, fmtF(a[i].v), a[i].err)
			}
			if x.op.push == nil && x.op.q >= 0 {
				k.EvalH(!x.err, mixHash(hashStr(s.names[j], s.ask(x.op.q)), math.Float64bits(x.v)))
			}
		}
		k.Count("instances_compared_with_a_solo_run", 1)
	}
}

// isolatedSched uses metrics that nobody shares from several tasks under controlled schedules:
// each has to answer as it does when it is used alone.
func isolatedSched(k *Case, i int) {
	r := k.Rng
	type job struct {
		kd *Kind
		s  script
		b  [][]Obs
	}
	var jobs []*job
	first := concKind(r, concClasses[i%len(concClasses)])
	for j := 2 + r.Intn(2); j > 0; j-- {
		kd := first
		switch r.Intn(4) {
		case 0:
			kd = concKind(r, concClasses[i%len(concClasses)]) // the same class, other parameters
		case 1:
			kd = concKind(r, concClasses[r.Intn(len(concClasses))])
		}
		s := genScript(k, kd, 2+r.Intn(7), true, 3)
		jobs = append(jobs, &job{kd: kd, s: s, b: play(k, kd, s)})
	}
	late := r.Intn(2) == 0 // made by the tasks themselves
	est := 100
	for j, n := 0, nSched(k.N(16, 40)); j < n; j++ {
		names, fns := []string{}, []func(){}
		got := make([][][]Obs, len(jobs))
		for x, jb := range jobs {
			x, jb := x, jb
			var in *Inst
			if !late {
				in = jb.kd.make()
			}
			names = append(names, fmt.Sprintf("user %d of %s", x, jb.kd.Name))
			fns = append(fns, func() {
				if in == nil {
					in = jb.kd.make()
				}
				got[x] = playOn(k, jb.kd, in, jb.s)
			})
		}
		res := vsync.Run(r.Int63(), polFor(r, j, est), names, fns)
		if res.Uncontrolled {
			k.Count("schedules_given_up", 1)
			n = j + nSched(n-j)
			continue
		}
		est = res.Steps
		k.Count("schedules", 1)
		k.Count("context_switches", int64(res.Switches))
		if res.Deadlock != "" || res.Livelock != "" {
			k.record(first.Class+"/blocked-by-others", res.Deadlock+res.Livelock, names)
			panic(stopCase{})
		}
		if len(res.Panics) > 0 {
			k.record(first.Class+"/panic-next-to-others", res.Panics[0], names)
			panic(stopCase{})
		}
		k.EvalH(res.Switches > 1, mixHash(res.Digest, hashStr(k.Name)))
		for x, jb := range jobs {
			sameRuns(k, jb.kd, got[x], jb.b, jb.s, "not-independent-of-tasks", "while other tasks use other metrics")
		}
	}
	k.Count("isolated_groups", 1)
}
