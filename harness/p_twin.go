package main

import (
	"fmt"
	"math"
	"runtime"
	"sync"
)

// A script is a sequence of calls on one metric, given as data so that it can be played any
// number of times, on a fresh instance each.
type sop struct {
	Op string // push, clear, snap, query, bad, ops
	P  []float64
	N  int
}

type script []sop

func (s script) String() string {
	out := ""
	for i, o := range s {
		if i > 60 && i < len(s)-40 {
			if i == 61 {
				out += " ..."
			}
			continue
		}
		switch o.Op {
		case "push":
			out += " Push" + fmtFs(o.P)
		case "query", "bad", "ops":
			out += fmt.Sprintf(" %s#%d", o.Op, o.N)
		default:
			out += " " + o.Op
		}
	}
	return out
}

// playOn runs a script; the observations of its snaps are returned in order.
func playOn(k *Case, kd *Kind, in *Inst, s script) [][]Obs {
	var out [][]Obs
	qs := in.queries(kd)
	for _, o := range s {
		switch o.Op {
		case "push":
			if err := in.Push(o.P...); err != nil {
				out = append(out, []Obs{{Label: "Push", Err: err}})
			}
		case "clear":
			in.Clear()
		case "snap":
			out = append(out, in.Snap())
		case "query":
			qs[o.N%len(qs)].Run()
		case "ops":
			if len(in.Ops) > 0 {
				in.Ops[o.N%len(in.Ops)]()
			}
		case "bad":
			if len(in.Bad) > 0 {
				if err := in.Bad[o.N%len(in.Bad)](); err == nil {
					k.FailGo(kd.Class+"/bad-call-accepted", "%s: a call with invalid arguments (#%d) succeeded", kd.Name, o.N%len(in.Bad))
				}
			}
		}
	}
	return out
}

func play(k *Case, kd *Kind, s script) [][]Obs { return playOn(k, kd, kd.make(), s) }

// modelObs gives the expectations at the snaps of a script.
func modelObs(kd *Kind, s script) [][]Expect {
	h := &Hist{}
	var out [][]Expect
	for _, o := range s {
		switch o.Op {
		case "push":
			h.push(o.P)
		case "clear":
			h.clear()
		case "snap":
			out = append(out, kd.Model(h))
		}
	}
	return out
}

// sameRuns compares two observation sequences: they must agree to the bit. When the library
// itself is not reproducible to the bit (two plain runs of the same script differ), the values
// are held against the model's tolerance instead.
func sameRuns(k *Case, kd *Kind, a, b [][]Obs, plain script, key, what string) {
	if len(a) != len(b) {
		k.Fail(kd.Class+"/"+key, "%s: %s: %d answers instead of %d", kd.Name, what, len(a), len(b))
	}
	var model [][]Expect
	for i := range a {
		why, ok := sameObs(a[i], b[i])
		if !ok {
			if model == nil && !reproducible(k, kd, plain, b) {
				model = modelObs(kd, plain)
			}
			if model != nil && len(model) == len(a) {
				ok = true
				for j, e := range model[i] {
					if good, _ := e.ok(a[i][j]); !good {
						ok = false
					}
				}
				k.Count("compared_by_tolerance", 1)
			}
		}
		if !ok {
			k.logf("plain script:%s", plain)
			k.Fail(kd.Class+"/"+key, "%s: %s: answer %d: %s", kd.Name, what, i, why)
		}
		dig := hashStr(kd.Name, key)
		nontrivial := false
		for _, o := range a[i] {
			dig = mixHash(dig, math.Float64bits(o.V))
			nontrivial = nontrivial || o.Err == nil
		}
		k.EvalH(nontrivial, dig)
	}
}

func reproducible(k *Case, kd *Kind, s script, ref [][]Obs) bool {
	for i := 0; i < 6; i++ {
		x := play(k, kd, s)
		if len(x) != len(ref) {
			return false
		}
		for j := range x {
			if _, ok := sameObs(x[j], ref[j]); !ok {
				return false
			}
		}
	}
	return true
}

// genScript draws pushes (and, with clears, Clear calls) with snaps of a given density.
func genScript(k *Case, kd *Kind, n int, clears bool, snapEvery int) script {
	r := k.Rng
	ps, _ := streamFor(r, n, kd.Arity, nil)
	var s script
	since := 0
	at := -1
	next := func() {
		at = -1
		if clears && r.Intn(2) == 0 {
			at = []int{kd.Window - 1, kd.Window, kd.Window + 1, 2 * kd.Window, kd.Lag, kd.Lag + 1, 1 + r.Intn(n)}[r.Intn(7)]
		}
	}
	next()
	for _, p := range ps {
		s = append(s, sop{Op: "push", P: p})
		since++
		if snapEvery > 0 && r.Intn(snapEvery) == 0 {
			s = append(s, sop{Op: "snap"})
		}
		if since == at {
			s = append(s, sop{Op: "clear"})
			since = 0
			next()
		}
	}
	return append(s, sop{Op: "snap"})
}

// insert puts extra calls anywhere into a script.
func insert(k *Case, s script, n int, mk func() sop) script {
	r := k.Rng
	at := map[int][]sop{}
	for i := 0; i < n; i++ {
		p := r.Intn(len(s) + 1)
		if r.Intn(4) == 0 {
			p = r.Intn(3) % (len(s) + 1)
		}
		for b := 1 + r.Intn(3)/2*r.Intn(4); b > 0; b-- {
			at[p] = append(at[p], mk())
		}
	}
	var out script
	for i := 0; i <= len(s); i++ {
		out = append(out, at[i]...)
		if i < len(s) {
			out = append(out, s[i])
		}
	}
	return out
}

// twinClasses are the metrics the twin runs go over.
var twinClasses = append(append([]string{}, allClasses...), "shared")

func twinKind(k *Case, class string, maxW int) *Kind {
	if class == "shared" {
		return kindShared(k.Rng, maxW)
	}
	return randKind(k.Rng, class, maxW)
}

func twinCases(c *Ctx, tag string, quick, thorough int, f func(k *Case, kd *Kind, n int)) {
	total := c.N(quick, thorough)
	for i := 0; i < total; i++ {
		class := twinClasses[i%len(twinClasses)]
		i := i
		c.Case(fmt.Sprintf("%s-%s-%d", tag, class, i), func(k *Case) {
			maxW, n := 33, 10+k.Rng.Intn(120)
			if i%9 == 8 {
				maxW, n = 257, 300+k.Rng.Intn(600)
			}
			kd := twinKind(k, class, maxW)
			k.Sample("%s, %d values", kd.Name, n)
			f(k, kd, n)
			k.Count("twin_runs", 1)
			k.Max("longest_history", float64(n))
		})
	}
}

func init() {
	register("C11", "seeded pairs of runs: one metric with a random past (any fill level, queries, failed calls, repeated Clear) then Clear, and one freshly created; both get the same later history and every query is compared bit for bit, errors included; containers and Clear before any push too; non-trivial: at least one numeric answer, distinct by (metric, answers)", func(c *Ctx) {
		twinCases(c, "past", 5000, 20000, func(k *Case, kd *Kind, n int) {
			r := k.Rng
			later := append(script{{Op: "snap"}}, genScript(k, kd, n, r.Intn(2) == 0, 4)...)
			later = insert(k, later, r.Intn(6), func() sop { return sop{Op: "bad", N: r.Intn(1000)} })
			pastLen := []int{0, 1, 2, kd.Window - 1, kd.Window, kd.Window + 1, 2*kd.Window + 1, kd.Lag, kd.Lag + 1, r.Intn(3*n + 1)}[r.Intn(10)]
			var past script
			if pastLen > 0 {
				past = genScript(k, kd, pastLen, r.Intn(3) == 0, 0)
				if r.Intn(2) == 0 {
					// values of another magnitude: what is left of them would drown or shift the later ones
					for v := 0; v < kd.Arity; v++ {
						u := units[r.Intn(len(units))]
						for _, o := range past {
							if o.Op == "push" {
								o.P[v] *= u
							}
						}
					}
				}
				past = insert(k, past, r.Intn(5), func() sop { return sop{Op: []string{"query", "bad", "ops"}[r.Intn(3)], N: r.Intn(1000)} })
			}
			for i := 1 + r.Intn(3)/2*r.Intn(3); i > 0; i-- {
				past = append(past, sop{Op: "clear"})
			}
			k.logf("%s; past:%s", kd.Name, past)
			in := kd.make()
			playOn(k, kd, in, past)
			a := playOn(k, kd, in, later)
			b := play(k, kd, later)
			sameRuns(k, kd, a, b, later, "not-fresh-after-Clear", fmt.Sprintf("after a past of %d values and Clear", pastLen))
			if in.Str != nil && in.Str() != kd.make().Str() {
				k.Fail(kd.Class+"/name", "%s: String after Clear is %q", kd.Name, in.Str())
			}
		})
		n := c.N(200, 900)
		for i := 0; i < n; i++ {
			i := i
			c.Case(fmt.Sprintf("container-%d", i), func(k *Case) {
				r := k.Rng
				im := contByIdx(i, r)
				s := im.New()
				var m multiset
				for round := 0; round < 12; round++ {
					for j := r.Intn(60); j > 0; j-- {
						x := float64(r.Intn(30))
						if r.Intn(3) == 0 {
							s.Remove(x)
							m.remove(x)
						} else {
							s.Add(x)
							m.add(x)
						}
						if r.Intn(10) == 0 {
							checkCont(k, im, s, m, true)
						}
					}
					for j := 1 + r.Intn(2); j > 0; j-- {
						s.Clear()
					}
					m = nil
					checkCont(k, im, s, m, true)
				}
			})
		}
	})
	register("C18", "seeded pairs of runs of the same history: with failing calls (wrong arity, unknown sums and variables, out-of-range and NaN quantiles, queries of empty or too short histories) inserted anywhere, and without; all answers compared bit for bit; non-trivial: at least one numeric answer, distinct by (metric, answers)", func(c *Ctx) {
		twinCases(c, "failed", 5000, 20000, func(k *Case, kd *Kind, n int) {
			r := k.Rng
			plain := genScript(k, kd, n, r.Intn(2) == 0, 6)
			with := insert(k, plain, 2+r.Intn(n), func() sop { return sop{Op: "bad", N: r.Intn(1000)} })
			// queries while there is too little data
			var s2 script
			held := 0
			for _, o := range with {
				if held <= kd.Lag && r.Intn(2) == 0 {
					s2 = append(s2, sop{Op: "query", N: r.Intn(1000)})
				}
				s2 = append(s2, o)
				switch o.Op {
				case "push":
					held++
				case "clear":
					held = 0
				}
			}
			k.logf("%s; with failing calls:%s", kd.Name, s2)
			a := play(k, kd, s2)
			b := play(k, kd, plain)
			k.Count("failing_calls", int64(len(s2)-len(plain)))
			sameRuns(k, kd, a, b, plain, "failed-call-left-a-trace", "with failing calls inserted")
		})
	})
	register("C22", "seeded pairs of runs of the same history: with queries of every kind (single queries, full snapshots, String, Config) inserted anywhere, repeatedly and in every order, and with no query before the last push; all later answers compared bit for bit; containers, heap and reservoir too; non-trivial: at least one numeric answer, distinct by (metric, answers)", func(c *Ctx) {
		twinCases(c, "queries", 3000, 20000, func(k *Case, kd *Kind, n int) {
			r := k.Rng
			plain := genScript(k, kd, n, r.Intn(2) == 0, []int{0, 0, 10}[r.Intn(3)])
			for i := 0; i < 2; i++ {
				plain = append(plain, sop{Op: "snap"})
			}
			with := insert(k, plain, 1+r.Intn(2*n), func() sop { return sop{Op: []string{"query", "query", "ops"}[r.Intn(3)], N: r.Intn(1000)} })
			k.logf("%s; with queries:%s", kd.Name, with)
			a := play(k, kd, with)
			b := play(k, kd, plain)
			k.Count("queries_inserted", int64(len(with)-len(plain)))
			sameRuns(k, kd, a, b, plain, "query-changed-a-result", "with queries inserted")
		})
		containerQueries(c)
	})
	register("C24", "seeded pairs of runs of the same history: with other metrics of the same and other kinds created, pushed, queried, cleared and dropped in between (also by other goroutines, and across garbage collections), and alone; all answers compared bit for bit; the same metrics in two processes of their own, in one of them after and among many others; and metrics of one task each under controlled schedules of several tasks; non-trivial: at least one numeric answer, distinct by (metric, answers)", func(c *Ctx) {
		if schedBuild {
			for i := 0; i < c.N(31*20, 31*200); i++ {
				i := i
				c.Case(fmt.Sprintf("isolated-%s-%d", concClasses[i%len(concClasses)], i), func(k *Case) { isolatedSched(k, i) })
			}
			return
		}
		twinCases(c, "neighbours", 2500, 14000, func(k *Case, kd *Kind, n int) {
			r := k.Rng
			plain := genScript(k, kd, n, r.Intn(2) == 0, 5)
			b := play(k, kd, plain)
			var others []*Inst
			var kinds []*Kind
			add := func() {
				o := kd // the same parameters
				if r.Intn(3) > 0 {
					o = twinKind(k, twinClasses[r.Intn(len(twinClasses))], 33)
					if r.Intn(2) == 0 && kd.Class != "shared moment.Core" && kd.Class != "shared joint.Core" {
						o = randKind(r, kd.Class, 33) // the same kind, other parameters
					}
				}
				others = append(others, o.make())
				kinds = append(kinds, o)
			}
			for i := r.Intn(3); i > 0; i-- {
				add()
			}
			in := kd.make()
			for i := r.Intn(3); i > 0; i-- {
				add()
			}
			var a [][]Obs
			for _, o := range plain {
				for j := r.Intn(4); j > 0; j-- {
					if len(others) == 0 || r.Intn(12) == 0 {
						add()
						continue
					}
					x := r.Intn(len(others))
					switch r.Intn(8) {
					case 0:
						others[x].Clear()
					case 1:
						others[x].Snap()
					case 2:
						if bad := others[x].Bad; len(bad) > 0 {
							_ = bad[r.Intn(len(bad))]()
						}
					case 3:
						if len(others) > 3 {
							others = append(others[:x], others[x+1:]...)
							kinds = append(kinds[:x], kinds[x+1:]...)
						}
					default:
						p := make([]float64, kinds[x].Arity)
						for i := range p {
							p[i] = r.NormFloat64() * 1000
						}
						_ = others[x].Push(p...)
					}
					k.Count("calls_on_other_metrics", 1)
				}
				if r.Intn(400) == 0 {
					runtime.GC()
				}
				a = append(a, playOn(k, kd, in, script{o})...)
			}
			k.logf("%s among %d others; script:%s", kd.Name, len(others), plain)
			sameRuns(k, kd, a, b, plain, "not-independent", "with other metrics in use")
		})
		for i := 0; i < c.N(1600, 8000); i++ {
			i := i
			if i%200 == 0 {
				c.Case(fmt.Sprintf("pristine-%d", i), pristine)
			}
			c.Case(fmt.Sprintf("late-init-%d", i), func(k *Case) { lateInit(k, i) })
		}
		for i := 0; i < c.N(600, 6000); i++ {
			i := i
			c.Case(fmt.Sprintf("cross-%d", i), func(k *Case) { crossCase(k, i) })
		}
		n := c.N(160, 600)
		for i := 0; i < n; i++ {
			i := i
			c.Case(fmt.Sprintf("parallel-%d", i), func(k *Case) {
				// the same and other metrics in parallel goroutines, none shared
				r := k.Rng
				type job struct {
					kd   *Kind
					s    script
					a, b [][]Obs
				}
				var jobs []*job
				for j := 0; j < 8; j++ {
					kd := twinKind(k, twinClasses[(i+j/2)%len(twinClasses)], 33)
					s := genScript(k, kd, 60+r.Intn(100), true, 5)
					jobs = append(jobs, &job{kd: kd, s: s, b: play(k, kd, s)})
				}
				var wg sync.WaitGroup
				for _, j := range jobs {
					wg.Add(1)
					go func(j *job) {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil {
								j.a = [][]Obs{{{Label: "panic", Err: fmt.Errorf("panic: %v", e)}}}
							}
						}()
						for rep := 0; rep < 3; rep++ {
							j.a = playOn(&Case{Ctx: newCtx("", "", 0, 0, 1, "")}, j.kd, j.kd.make(), j.s)
						}
					}(j)
				}
				wg.Wait()
				for _, j := range jobs {
					if len(j.a) == 1 && len(j.a[0]) == 1 && j.a[0][0].Label == "panic" {
						k.Fail(j.kd.Class+"/parallel-panic", "%s next to other metrics in parallel: %v", j.kd.Name, j.a[0][0].Err)
					}
					sameRuns(k, j.kd, j.a, j.b, j.s, "not-independent-in-parallel", "next to other metrics used in parallel")
				}
				k.Count("parallel_groups", 1)
			})
		}
	})
}

// lateInit creates several metrics first, and initialises and uses them afterwards in any order.
func lateInit(k *Case, i int) {
	r := k.Rng
	type one struct {
		kd   *Kind
		in   *Inst
		init func() error
		s    script
		next int
		a    [][]Obs
	}
	var all []*one
	lazy := []string{"Mean", "Moment", "Std", "Skewness", "Kurtosis", "EWMA", "EWMMoment", "EWMStd", "Cov", "Corr", "EWMCov", "EWMCorr", "Autocov", "Autocorr"}
	base := randKind(r, lazy[i%len(lazy)], 17)
	defer func() { deferInit = nil }()
	for n := 2 + r.Intn(4); n > 0; n-- {
		kd := base
		switch r.Intn(4) {
		case 0:
			kd = randKind(r, base.Class, 17)
		case 1:
			kd = randKind(r, lazy[r.Intn(len(lazy))], 17)
		}
		o := &one{kd: kd}
		deferInit = func(f func() error) { o.init = f }
		o.in = kd.make()
		deferInit = nil
		o.s = genScript(k, kd, 5+r.Intn(40), r.Intn(2) == 0, 4)
		all = append(all, o)
	}
	left := len(all)
	for left > 0 {
		o := all[r.Intn(len(all))]
		switch {
		case o.init != nil:
			if err := o.init(); err != nil {
				k.Fail(o.kd.Class+"/Init", "%s: Init failed among others: %v", o.kd.Name, err)
			}
			o.init = nil
		case o.next < len(o.s):
			n := 1 + r.Intn(5)
			if o.next+n > len(o.s) {
				n = len(o.s) - o.next
			}
			o.a = append(o.a, playOn(k, o.kd, o.in, o.s[o.next:o.next+n])...)
			o.next += n
			if o.next == len(o.s) {
				left--
			}
		}
		if len(o.s) == 0 && o.next == 0 {
			o.next, left = 1, left-1
		}
	}
	k.Count("late_initialisations", int64(len(all)))
	for _, o := range all {
		k.logf("%s among %d created before any was initialised; script:%s", o.kd.Name, len(all), o.s)
		sameRuns(k, o.kd, o.a, play(k, o.kd, o.s), o.s, "not-independent", "created together with others and initialised later")
	}
}
