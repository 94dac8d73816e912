package main

import (
	"fmt"
	"math"
	"math/rand"
)

const ruleHist = "seeded generated histories (value families x windows x parameters, with Clear at and around the window boundary, before any push and repeated); each evaluation compares every query's answer with an executable reference after a push or Clear; non-trivial: at least two values held, distinct by (metric, parameters, answers)"

// histProp runs generated histories over the given classes.
func histProp(classes []string, quickCases, thoroughCases int) func(c *Ctx) {
	return func(c *Ctx) {
		n := c.N(quickCases, thoroughCases)
		for i := 0; i < n; i++ {
			class := classes[i%len(classes)]
			i := i
			c.Case(fmt.Sprintf("%s-%d", class, i), func(k *Case) {
				r := k.Rng
				maxW := 65
				l := 40 + r.Intn(260)
				switch {
				case i%23 == 22: // long streams, sampled checks
					maxW, l = 1024, k.N(6000, 60000)
					if class == "joint.Core" || class == "ewm.joint.Core" {
						l /= 4
					}
				case i%7 == 6:
					maxW, l = 1024, 300+r.Intn(2500)
				}
				o := histOpts{Len: l}
				if i%3 != 0 {
					o.ClearProb = 1.5 / float64(l)
				}
				o.Scale = i%5 == 4
				o.Far = i%9 == 7
				k.runHist(randKind(r, class, maxW), o)
			})
		}
	}
}

// big runs large windows and long streams, with answers checked at sampled points.
func big(c *Ctx, quick, thorough int, ws []int, mk func(k *Case, i, w int) *Kind) {
	for i := 0; i < c.N(quick, thorough); i++ {
		w := ws[i%len(ws)]
		i := i
		c.Case(fmt.Sprintf("big-w%d-%d", w, i), func(k *Case) {
			fastLists = true
			defer func() { fastLists = false }()
			l := w + w/2 + 3000 + k.Rng.Intn(w+20000)
			kd := mk(k, i, w)
			turn := i / len(ws)
			if w == 0 && kd.Arity == 1 && (i+turn)%2 == 0 {
				l = 66000 + k.Rng.Intn(70000)
			}
			o := histOpts{Len: l, Checks: 40}
			switch (i + turn) % 4 {
			case 0:
				o.Families = families[i*7%len(families) : i*7%len(families)+1]
			case 1, 3:
				o.ClearProb = 0.7 / float64(l)
			}
			k.runHist(kd, o)
			k.Count("big_histories", 1)
		})
	}
}

// bigFamilies runs the families with the most extreme order of values through large windows.
func bigFamilies(c *Ctx, tag string, ws []int, fams []string, mk func(k *Case, w int) *Kind) {
	for _, w := range ws {
		for _, f := range fams {
			w, f := w, f
			c.Case(fmt.Sprintf("big%s-%s-w%d", tag, f, w), func(k *Case) {
				fastLists = true
				defer func() { fastLists = false }()
				l := 66000 + k.Rng.Intn(3000)
				if w > 0 {
					l += w
				}
				k.runHist(mk(k, w), histOpts{Len: l, Checks: 30, Families: []family{familyByName(f)}})
				k.Count("big_histories", 1)
			})
		}
	}
}

var ordered = []string{"increasing", "decreasing", "inward", "outward", "bit-reversed", "blocks", "ramps"}

var bigWindows = []int{65537, 0, 2000, 4097, 65536, 0, 10000, 4096, 3000, 32768}
var midWindows = []int{0, 2000, 1500, 4097, 0, 3000}

// millions runs order statistics through more than 2^20 values, with answers checked at a few points.
func millions(c *Ctx, mk func(k *Case, i, w int) *Kind, n int) {
	for i := 0; i < n; i++ {
		i := i
		w := []int{0, 1<<19 + 3}[i%2]
		c.Case(fmt.Sprintf("million-w%d-%d", w, i), func(k *Case) {
			fastLists = true
			defer func() { fastLists = false }()
			kd := mk(k, i, w)
			in, h := kd.make(), &Hist{}
			ps, fam := streamFor(k.Rng, 1<<20+1000+k.Rng.Intn(100000), 1, nil)
			k.logf("%s, %d values: %s", kd.Name, len(ps), fam)
			for j, p := range ps {
				k.tick()
				if err := in.Push(p...); err != nil {
					k.Fail(kd.Class+"/Push!unexpected-error", "%s: Push%s failed: %v", kd.Name, fmtFs(p), err)
				}
				h.push(p)
				n := j + 1
				if n == 1<<20-1 || n == 1<<20 || n == 1<<20+1 || n == 1000000 || n == len(ps) || n == w || n == w+1 || k.Rng.Intn(300000) == 0 {
					k.checkSnap(kd, in.Snap(), kd.Model(h), h)
				}
			}
			k.Count("pushes", int64(len(ps)))
			k.Max("longest_history", float64(len(ps)))
		})
	}
}

// haul feeds a metric a stream of millions of values that repeats a short period: what the statistics
// are after any number of values is known from the period alone.
func haul(c *Ctx, classes []string, quick, thorough, length int) {
	for i := 0; i < c.N(quick, thorough); i++ {
		class := classes[i%len(classes)]
		i := i
		c.Case(fmt.Sprintf("haul-%s-%d", class, i), func(k *Case) {
			r := k.Rng
			w := 0
			if i/len(classes)%2 == 1 {
				w = 1 + r.Intn(300)
			}
			kd := kindW(r, class, w, 65)
			w = kd.Window
			for kd.Decay > 0 && kd.Decay < 0.04 || len(kd.Name) > 90 {
				kd = kindW(r, class, w, 65)
			}
			if kd.Class == "joint.Core" {
				kd = kindJCore([][][]int{{{1, 1}}, {{2, 1}}, {{1, 0}, {0, 2}}, {{1, 1}, {2, 0}}}[r.Intn(4)], 2, w, kd.Decay, true)
			}
			p := 8 + r.Intn(120)
			ps, fam := streamFor(r, p, kd.Arity, nil)
			in := kd.make()
			keep := p + kd.Lag
			switch {
			case w > 0:
				keep = w + kd.Lag
			case kd.Decay > 0:
				keep = int(60/kd.Decay) + 1
			}
			n, next, last := 0, 1000, length+r.Intn(length/8)
			if kd.Arity > 1 || kd.Lag > 0 || class == "Autocov" || class == "Autocorr" {
				last = last/16 + 1<<20
			}
			k.logf("%s, %d values repeating %d (%s)", kd.Name, last, p, fam)
			for n < last {
				q := ps[n%p]
				if err := in.Push(q...); err != nil {
					k.Fail(kd.Class+"/Push!unexpected-error", "%s: Push%s failed: %v", kd.Name, fmtFs(q), err)
				}
				n++
				k.tick()
				if n < next || n <= keep || (n-kd.Lag)%p != 0 {
					continue
				}
				next = n + 1 + n/6
				h := &Hist{extra: n - keep}
				if w == 0 && kd.Decay == 0 {
					h.rep = (n - kd.Lag) / p
				}
				for _, q := range ps {
					h.push(q) // for the range
				}
				h.pts = nil
				for j := n - keep; j < n; j++ {
					h.pts = append(h.pts, ps[j%p])
				}
				k.checkSnap(kd, in.Snap(), kd.Model(h), h)
				k.Count("haul_checks", 1)
			}
			k.Count("pushes", int64(n))
			k.Max("longest_history", float64(n))
		})
	}
}

// classOf draws a kind of one of the classes with a given window.
func classOf(k *Case, classes []string, i, w int) *Kind {
	return kindW(k.Rng, classes[(i+i/len(classes))%len(classes)], w, 65)
}

// highOrders runs moments of high order on short histories of values of magnitude about one.
func highOrders(c *Ctx, quick, thorough int, mk func(k *Case, order int) *Kind) {
	for i := 0; i < c.N(quick, thorough); i++ {
		i := i
		c.Case(fmt.Sprintf("order-%d", i), func(k *Case) {
			l := 10 + k.Rng.Intn(60)
			k.runHist(mk(k, 7+i%24), histOpts{Len: l, ClearProb: 1 / float64(l), Families: unitFams})
		})
	}
}

// unitFams have values of magnitude about one, whose high powers stay moderate.
var unitFams = []family{
	{"rare-ones", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 { return math.Floor(r.Float64() * 1.06) })
	}},
	{"signs", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 { return float64(1 - 2*r.Intn(2)) })
	}},
	{"unit", func(r *rand.Rand, n int) []float64 { return gen(n, func(int) float64 { return r.Float64() }) }},
}

// wideTuples make cores that track many sums, over many variables or of high orders.
var wideTuples = [][][]int{
	{{9, 9, 9}}, {{19, 19}}, {{3, 3, 3, 3}}, {{2, 2, 2, 2, 2}}, {{1, 1, 1, 1, 1, 1, 1, 1}}, {{30, 0}}, {{29, 1}, {1, 29}}, {{12, 12}, {3, 20}},
	{{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2}, {0, 0, 0, 0, 2, 0, 2, 0, 0, 0, 0, 0}}, {{6, 0, 6}, {0, 6, 6}, {6, 6, 0}}, {{2, 0, 0, 0, 0, 0, 30}},
}

// sparseTuples draws tuples over many variables, a few of which occur in each.
func sparseTuples(r *rand.Rand) [][]int {
	vars := 12 + r.Intn(20)
	var ts [][]int
	for i, n := 0, 20+r.Intn(80); i < n; i++ {
		t := make([]int, vars)
		for j := 1 + r.Intn(3); j >= 0; j-- {
			t[r.Intn(vars)]++
		}
		ts = append(ts, t)
	}
	return ts
}

// wideCores run cores with many tracked sums on short histories, every sum being compared.
func wideCores(c *Ctx, quick, thorough int, decay bool) {
	for i := 0; i < c.N(quick, thorough); i++ {
		i := i
		c.Case(fmt.Sprintf("wide-%d", i), func(k *Case) {
			ts := sparseTuples(k.Rng)
			if j := i % (len(wideTuples) + 3); j < len(wideTuples) {
				ts = wideTuples[j]
			}
			w, d := 0, 0.0
			if decay {
				d = decays[k.Rng.Intn(len(decays))]
			} else if i/len(wideTuples)%2 == 0 {
				w = 1 + k.Rng.Intn(5)
			}
			l := 7 + k.Rng.Intn(4)
			k.runHist(kindJCore(ts, len(ts[0]), w, d, i%2 == 0), histOpts{Len: l, ClearProb: 0.5 / float64(l), Families: unitFams})
			k.Count("wide_cores", 1)
		})
	}
}

// windowSweep runs every small window, so that each off-by-one at a capacity shows.
func windowSweep(c *Ctx, tag string, ws []int, mk func(k *Case, w int) *Kind) {
	for _, w := range ws {
		for rep := 0; rep < c.N(2, 12); rep++ {
			w, rep := w, rep
			c.Case(fmt.Sprintf("%s-w%d-%d", tag, w, rep), func(k *Case) {
				o := histOpts{Len: 3*w + 40}
				if rep%2 == 1 {
					o.ClearProb = 0.6 / float64(w+10)
				}
				k.runHist(mk(k, w), o)
			})
		}
	}
}

// extremes runs order statistics on the largest, smallest and most closely spaced finite values.
func extremes(c *Ctx, classes []string, quick, thorough int) {
	for i := 0; i < c.N(quick, thorough); i++ {
		class := classes[i%len(classes)]
		c.Case(fmt.Sprintf("extreme-%s-%d", class, i), func(k *Case) {
			l := 30 + k.Rng.Intn(120)
			k.runHist(randKind(k.Rng, class, 65), histOpts{Len: l, ClearProb: 1 / float64(l), Families: extremeFamilies})
		})
	}
}

func smallWindows() []int {
	var ws []int
	for w := 0; w <= 34; w++ {
		ws = append(ws, w)
	}
	return append(ws, 63, 64, 65, 127, 128, 129)
}

func init() {
	register("C01", ruleHist, func(c *Ctx) {
		windowSweep(c, "sweep-min", smallWindows(), func(k *Case, w int) *Kind { return kindMin(w, false, true) })
		windowSweep(c, "sweep-max", smallWindows(), func(k *Case, w int) *Kind { return kindMin(w, true, true) })
		histProp([]string{"Min", "Max"}, 3000, 20000)(c)
		extremes(c, []string{"Min", "Max"}, 150, 3000)
		big(c, 24, 200, bigWindows, func(k *Case, i, w int) *Kind { return classOf(k, []string{"Min", "Max"}, i, w) })
		millions(c, func(k *Case, i, w int) *Kind { return kindMin(w, i/2%2 == 1, true) }, 4)
		haul(c, []string{"Min", "Max"}, 4, 8, 18<<20)
		for _, max := range []bool{false, true} {
			max := max
			bigFamilies(c, map[bool]string{false: "-min", true: "-max"}[max], []int{0, 65537}, ordered, func(k *Case, w int) *Kind { return kindMin(w, max, true) })
		}
	})
	register("C02", ruleHist, func(c *Ctx) {
		for impl := 0; impl < 3; impl++ {
			for interp := 0; interp < 5; interp++ {
				impl, interp := impl, interp
				windowSweep(c, fmt.Sprintf("sweep-%d-%d", impl, interp), []int{0, 1, 2, 3, 4, 5, 8, 13, 33},
					func(k *Case, w int) *Kind { return kindQuantile(k.Rng, w, impl, interp, randPhis(k.Rng)) })
			}
			impl := impl
			windowSweep(c, fmt.Sprintf("sweep-median-%d", impl), []int{0, 1, 2, 3, 4, 5, 8, 13, 33},
				func(k *Case, w int) *Kind { return kindMedian(k.Rng, w, impl, false) })
			windowSweep(c, fmt.Sprintf("sweep-iqr-%d", impl), []int{0, 1, 2, 3, 4, 5, 8, 13, 33},
				func(k *Case, w int) *Kind { return kindMedian(k.Rng, w, impl, true) })
		}
		histProp([]string{"Quantile", "Median", "Quantile", "IQR", "Quantile"}, 3000, 20000)(c)
		extremes(c, []string{"Quantile", "Median", "Quantile"}, 200, 4000)
		close := []family{familyExtreme("neighbours"), familyExtreme("denormal"), familyExtreme("one-sided-huge")}
		for i := 0; i < c.N(60, 1000); i++ {
			c.Case(fmt.Sprintf("close-IQR-%d", i), func(k *Case) {
				l := 30 + k.Rng.Intn(120)
				k.runHist(randKind(k.Rng, "IQR", 65), histOpts{Len: l, ClearProb: 1 / float64(l), Families: close})
			})
		}
		millions(c, func(k *Case, i, w int) *Kind { return kindQuantile(k.Rng, w, i/2%3, i%5, randPhis(k.Rng)) }, 6)
		big(c, 32, 200, bigWindows, func(k *Case, i, w int) *Kind {
			return classOf(k, []string{"Quantile", "Median", "Quantile", "IQR", "Quantile"}, i, w)
		})
	})
	register("C03", ruleHist, func(c *Ctx) {
		millions(c, func(k *Case, i, w int) *Kind { return kindHeapMedian(w, true) }, 4)
		windowSweep(c, "sweep", smallWindows(), func(k *Case, w int) *Kind { return kindHeapMedian(w, true) })
		histProp([]string{"HeapMedian"}, 3500, 20000)(c)
		extremes(c, []string{"HeapMedian"}, 150, 3000)
		big(c, 24, 200, bigWindows, func(k *Case, i, w int) *Kind { return kindHeapMedian(w, i%2 == 0) })
		bigFamilies(c, "", []int{0, 65537}, ordered, func(k *Case, w int) *Kind { return kindHeapMedian(w, true) })
	})
	register("C06", ruleHist, func(c *Ctx) {
		histProp([]string{"Mean", "Moment", "Std", "Skewness", "Kurtosis", "moment.Core", "Std", "Moment"}, 3500, 20000)(c)
		big(c, 32, 200, bigWindows, func(k *Case, i, w int) *Kind {
			return classOf(k, []string{"Mean", "Moment", "Std", "Skewness", "Kurtosis", "moment.Core"}, i, w)
		})
		haul(c, []string{"Mean", "Std", "Moment", "Skewness", "Kurtosis", "moment.Core"}, 3, 60, 18<<20)
		highOrders(c, 150, 2000, func(k *Case, o int) *Kind {
			if k.Rng.Intn(3) == 0 {
				return kindCore([]int{o}, randWindow(k.Rng, 17), 0)
			}
			return kindMoment(o, randWindow(k.Rng, 33))
		})
	})
	register("C07", ruleHist, func(c *Ctx) {
		histProp([]string{"EWMA", "EWMMoment", "EWMStd", "ewm.Core"}, 2500, 15000)(c)
		big(c, 16, 100, []int{0}, func(k *Case, i, w int) *Kind {
			return classOf(k, []string{"EWMA", "EWMMoment", "EWMStd", "ewm.Core"}, i, w)
		})
		haul(c, []string{"EWMA", "EWMMoment", "EWMStd", "ewm.Core"}, 2, 40, 18<<20)
		highOrders(c, 100, 1500, func(k *Case, o int) *Kind {
			d := decays[k.Rng.Intn(len(decays))]
			if k.Rng.Intn(3) == 0 {
				return kindCore([]int{o}, 0, d)
			}
			return kindEWMMoment(o, d)
		})
	})
	register("C08", ruleHist, func(c *Ctx) {
		histProp([]string{"Cov", "Corr", "joint.Core", "joint.Core"}, 1200, 8000)(c)
		big(c, 24, 150, midWindows, func(k *Case, i, w int) *Kind {
			return classOf(k, []string{"Cov", "Corr", "joint.Core"}, i, w)
		})
		haul(c, []string{"Cov", "Corr", "joint.Core"}, 6, 24, 8<<20)
		wideCores(c, 44, 400, false)
	})
	register("C09", ruleHist, func(c *Ctx) {
		histProp([]string{"EWMCov", "EWMCorr", "ewm.joint.Core"}, 1000, 6000)(c)
		big(c, 16, 100, []int{0}, func(k *Case, i, w int) *Kind {
			return classOf(k, []string{"EWMCov", "EWMCorr", "ewm.joint.Core"}, i, w)
		})
		haul(c, []string{"EWMCov", "EWMCorr", "ewm.joint.Core"}, 3, 12, 4<<20)
		wideCores(c, 33, 300, true)
	})
	register("C10", ruleHist, func(c *Ctx) {
		haul(c, []string{"Autocov", "Autocorr"}, 2, 16, 8<<20)
		histProp([]string{"Autocov", "Autocorr"}, 2500, 12000)(c)
		big(c, 24, 150, midWindows, func(k *Case, i, w int) *Kind {
			return kindAuto([]int{0, 1, 2, 63, 64, 65, 200, 1000, 1024, 5000}[k.Rng.Intn(10)], w, i%2 == 0)
		})
	})
}
