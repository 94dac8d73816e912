package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/alexander-yu/stream/sample"

	"verif/vsync"
)

// meter is the cost of calls: library statements executed, and bytes allocated.
type meter struct {
	Avg   float64 // statements per call
	Max   float64 // statements of the most expensive call
	Bytes float64 // allocated per call
}

func measure(n int, f func(i int)) meter {
	var a, b runtime.MemStats
	var m meter
	var total int64
	runtime.ReadMemStats(&a)
	for i := 0; i < n; i++ {
		s := vsync.Steps
		f(i)
		c := vsync.Steps - s
		total += c
		if float64(c) > m.Max {
			m.Max = float64(c)
		}
	}
	runtime.ReadMemStats(&b)
	m.Avg = float64(total) / float64(n)
	m.Bytes = float64(b.TotalAlloc-a.TotalAlloc) / float64(n)
	atomic.AddInt64(&progress, 1)
	return m
}

// threadTime is the processor time this thread has used, in nanoseconds.
func threadTime() int64 {
	var ts syscall.Timespec
	_, _, _ = syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

// cpuPer is the least processor time per call over some batches.
func cpuPer(batches, n int, f func(i int)) float64 {
	best := math.Inf(1)
	j := 0
	for b := 0; b < batches; b++ {
		t := threadTime()
		for i := 0; i < n; i++ {
			f(j)
			j++
		}
		if d := float64(threadTime()-t) / float64(n); d < best {
			best = d
		}
		atomic.AddInt64(&progress, 1)
	}
	return best
}

// steady brings a fresh metric to where n values are held (or were seen).
func steady(k *Case, kd *Kind, n int, vals [][]float64) (*Inst, func(i int)) {
	in := kd.make()
	next := 0
	push := func(int) {
		p := vals[next%len(vals)]
		next++
		k.tick()
		if err := in.Push(p...); err != nil {
			k.Fail(kd.Class+"/Push!unexpected-error", "%s: Push%s failed: %v", kd.Name, fmtFs(p), err)
		}
	}
	for i := 0; i < n; i++ {
		push(i)
	}
	return in, push
}

// costVals makes a stream that does not run out of its shape when it is repeated.
func costVals(r *rand.Rand, fam string, n, arity int) [][]float64 {
	ps := make([][]float64, n)
	cols := make([][]float64, arity)
	for v := range cols {
		cols[v] = familyByName(fam).Gen(r, n)
	}
	for i := range ps {
		ps[i] = make([]float64, arity)
		for v := range cols {
			ps[i][v] = cols[v][i]
		}
	}
	return ps
}

// grow tells how much more a call may cost at size b than at size a.
type grow func(a, b float64) float64

func constant(a, b float64) float64 { return 1 }
func logarithmic(a, b float64) float64 {
	return math.Log2(b+2) / math.Log2(a+2)
}

// within compares the costs at two sizes.
func (k *Case) within(key, what string, small, large meter, factor float64, worst bool) {
	k.EvalH(true, mixHash(hashStr(k.Name, key, what), math.Float64bits(large.Avg)))
	chk := func(unit string, a, b, slack float64) {
		k.Max("max_growth_over_limit_"+unit, b/(a*factor+slack))
		if b > a*factor+slack {
			k.Fail(key, "%s: %s: %.1f %s per call instead of %.1f (limit %.1f)", k.Name, what, b, unit, a, a*factor+slack)
		}
	}
	chk("statements", small.Avg, large.Avg, 40)
	chk("bytes", small.Bytes, large.Bytes, 600)
	if worst {
		chk("statements_worst", small.Max, large.Max, 120)
	}
}

type costClass struct {
	class       string
	push, value grow
	worst       bool // not amortised
	sizes       [2]int
}

var costClasses = []costClass{
	{"Min", constant, constant, false, [2]int{64, 16384}},
	{"Max", constant, constant, false, [2]int{64, 16384}},
	{"Mean", constant, constant, true, [2]int{64, 16384}},
	{"Std", constant, constant, true, [2]int{64, 16384}},
	{"Moment", constant, constant, true, [2]int{64, 8192}},
	{"Skewness", constant, constant, true, [2]int{64, 8192}},
	{"Kurtosis", constant, constant, true, [2]int{64, 8192}},
	{"moment.Core", constant, constant, true, [2]int{64, 8192}},
	{"EWMA", constant, constant, true, [2]int{64, 16384}},
	{"EWMMoment", constant, constant, true, [2]int{64, 16384}},
	{"EWMStd", constant, constant, true, [2]int{64, 16384}},
	{"ewm.Core", constant, constant, true, [2]int{64, 8192}},
	{"Cov", constant, constant, true, [2]int{64, 4096}},
	{"Corr", constant, constant, true, [2]int{64, 4096}},
	{"joint.Core", constant, constant, true, [2]int{64, 2048}},
	{"EWMCov", constant, constant, true, [2]int{64, 4096}},
	{"EWMCorr", constant, constant, true, [2]int{64, 4096}},
	{"ewm.joint.Core", constant, constant, true, [2]int{64, 2048}},
	{"Autocov", constant, constant, true, [2]int{64, 4096}},
	{"Autocorr", constant, constant, true, [2]int{64, 4096}},
	{"Quantile", logarithmic, logarithmic, false, [2]int{64, 16384}},
	{"Median", logarithmic, logarithmic, false, [2]int{64, 16384}},
	{"IQR", logarithmic, logarithmic, false, [2]int{64, 16384}},
	{"HeapMedian", logarithmic, constant, true, [2]int{64, 16384}},
}

var costFams = []string{"uniform", "increasing", "decreasing", "organ-pipe", "sawtooth", "plateaus", "tiny-alphabet", "alternating", "random-walk"}

// costKind makes the same metric with another window; what else is random stays the same.
func costKind(k *Case, seed int64, class string, w int) *Kind {
	fastLists = true
	defer func() { fastLists = false }()
	return kindW(rand.New(rand.NewSource(seed)), class, w, 65)
}

// sizeCost compares the costs at a small and a large window or stream.
func sizeCost(k *Case, cc costClass, fam string, windowed bool) {
	if k.perKey[cc.class+"/Push-cost"]+k.perKey[cc.class+"/Value-cost"] >= 2 {
		return // known to be slow
	}
	r := k.Rng
	seed := r.Int63()
	vals := costVals(r, fam, 2*cc.sizes[1], costKind(k, seed, cc.class, 0).Arity)
	var pushes, values [2]meter
	for i, n := range cc.sizes {
		w := 0
		if windowed {
			w = n
		}
		kd := costKind(k, seed, cc.class, w)
		k.logf("%s, %s", kd.Name, fam)
		in, push := steady(k, kd, n+kd.Lag+n/3, vals)
		calls := n
		if calls < 1024 {
			calls = 1024
		}
		// Push alone, then Push and Value in turn, then Value alone
		pushes[i] = measure(calls, push)
		qs := in.queries(kd)
		v := measure(400, func(j int) {
			s := vsync.Steps
			push(j)
			vsync.Steps = s // only the query counts here
			qs[j%len(qs)].Run()
		})
		v2 := measure(400, func(j int) { qs[j%len(qs)].Run() })
		values[i] = meter{math.Max(v.Avg, v2.Avg), math.Max(v.Max, v2.Max), v2.Bytes}
		k.Count("calls_metered", int64(calls+1200))
	}
	a, b := float64(cc.sizes[0]), float64(cc.sizes[1])
	k.within(cc.class+"/Push-cost", fmt.Sprintf("Push with %d values (%s) against %d", cc.sizes[1], fam, cc.sizes[0]),
		pushes[0], pushes[1], 1.8*cc.push(a, b), cc.worst)
	k.within(cc.class+"/Value-cost", fmt.Sprintf("queries with %d values (%s) against %d", cc.sizes[1], fam, cc.sizes[0]),
		values[0], values[1], 1.8*cc.value(a, b), cc.worst)
	k.Sample("%s: Push costs %.0f statements with %d values, %.0f with %d; queries %.0f and %.0f", cc.class,
		pushes[0].Avg, cc.sizes[0], pushes[1].Avg, cc.sizes[1], values[0].Avg, values[1].Avg)
}

// paramCost compares the costs of two metrics that differ in one parameter.
func paramCost(k *Case, key, what string, small, large *Kind, pushFactor, valueFactor float64, fill int) {
	var pushes, values [2]meter
	for i, kd := range []*Kind{small, large} {
		vals := costVals(k.Rng, "uniform", 2000, kd.Arity)
		for _, p := range vals {
			for v := range p {
				p[v] /= 100
			}
		}
		in, push := steady(k, kd, fill, vals)
		pushes[i] = measure(200, push)
		qs := in.queries(kd)
		values[i] = measure(200, func(j int) { qs[j%len(qs)].Run() })
		k.Count("calls_metered", 400)
	}
	k.within(key+"/Push-cost", what+": Push of "+large.Name+" against "+small.Name, pushes[0], pushes[1], 1.6*pushFactor, false)
	k.within(key+"/Value-cost", what+": queries of "+large.Name+" against "+small.Name, values[0], values[1], 1.6*valueFactor, false)
	k.Sample("%s: Push %.0f statements for %s, %.0f for %s", what, pushes[0].Avg, small.Name, pushes[1].Avg, large.Name)
}

// cpuCost compares processor times, for work that is not made of the library's own statements.
func cpuCost(k *Case, cc costClass, windowed bool) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	seed := k.Rng.Int63()
	large := 1 << 18
	limit := 30.0
	switch {
	case cc.push(2, 1000) > 1:
		large, limit = 1<<16, 80
	case cc.class == "joint.Core" || cc.class == "ewm.joint.Core":
		large = 1 << 15
	case cc.sizes[1] == 4096:
		large = 1 << 16
	}
	vals := costVals(k.Rng, "uniform", 5000, costKind(k, seed, cc.class, 0).Arity)
	var push, value [2]float64
	for i, n := range []int{64, large} {
		w := 0
		if windowed {
			w = n
		}
		kd := costKind(k, seed, cc.class, w)
		in, p := steady(k, kd, n+kd.Lag+10, vals)
		qs := in.queries(kd)
		runtime.GC()
		push[i] = cpuPer(8, 300, p)
		value[i] = cpuPer(8, 300, func(j int) {
			qs[j%len(qs)].Run()
		})
	}
	for i, what := range []string{"Push", "Value"} {
		a, b := push[0], push[1]
		if i == 1 {
			a, b = value[0], value[1]
		}
		k.Max("max_cpu_growth", b/a)
		k.EvalH(true, hashStr(k.Name, what))
		if b > limit*a+3000 {
			k.Fail(cc.class+"/"+what+"-time", "%s: %s takes %.0f ns with %d values and %.0f ns with 64", cc.class, what, b, large, a)
		}
	}
	k.Count("cpu_meterings", 2)
}

func perm2(d, i, j, a, b int) []int {
	t := make([]int, d)
	t[i], t[j] = a, b
	return t
}

func costProp(c *Ctx) {
	if !schedBuild {
		for i, cc := range costClasses {
			for _, windowed := range []bool{true, false} {
				if windowed && randKindHasNoWindow(cc.class) {
					continue
				}
				for rep := 0; rep < c.N(1, 4); rep++ {
					cc, windowed := cc, windowed
					c.Case(fmt.Sprintf("cpu-%s-%v-%d-%d", cc.class, windowed, i, rep), func(k *Case) { cpuCost(k, cc, windowed) })
				}
			}
		}
		return
	}
	for rep := 0; rep < c.N(1, 6); rep++ {
		for i, cc := range costClasses {
			for f := range costFams {
				for _, windowed := range []bool{true, false} {
					if windowed && randKindHasNoWindow(cc.class) || cc.sizes[1] < 5000 && f%3 != (i+rep)%3 {
						continue
					}
					cc, fam, windowed := cc, costFams[f], windowed
					c.Case(fmt.Sprintf("size-%s-%s-%v-%d", cc.class, fam, windowed, rep), func(k *Case) { sizeCost(k, cc, fam, windowed) })
				}
			}
		}
	}
	for rep := 0; rep < c.N(1, 6); rep++ {
		w := []int{0, 5, 40}[rep%3]
		for j, w := range []int{w, (w + 7) % 50} {
			w := w
			suffix := fmt.Sprintf("-%d-%d", rep, j)
			for _, p := range [][2]int{{8, 40}, {4, 16}, {12, 30}} {
				p := p
				sq := float64(p[1]*p[1]) / float64(p[0]*p[0])
				name := fmt.Sprintf("%d-%d%s", p[0], p[1], suffix)
				c.Case("order-Moment-"+name, func(k *Case) {
					paramCost(k, "Moment", "order", kindMoment(p[0], w), kindMoment(p[1], w), sq, 1, 100)
				})
				c.Case("order-EWMMoment-"+name, func(k *Case) {
					d := decays[k.Rng.Intn(len(decays))]
					paramCost(k, "EWMMoment", "order", kindEWMMoment(p[0], d), kindEWMMoment(p[1], d), sq, 1, 100)
				})
				c.Case("order-Core-"+name, func(k *Case) {
					paramCost(k, "moment.Core", "largest exponent", kindCore([]int{p[0]}, w, 0), kindCore([]int{p[1]}, w, 0), sq, 1, 100)
				})
			}
			d := 0.0
			if w == 0 {
				d = 0.3
			}
			c.Case("tuples"+suffix, func(k *Case) { // t tuples of the same size
				var few, many [][]int
				for a := 0; a < 4; a++ {
					for b := 0; b < 4; b++ {
						if a == b {
							continue
						}
						many = append(many, perm2(4, a, b, 2, 1))
						if len(few) < 2 {
							few = append(few, perm2(4, a, b, 2, 1))
						}
					}
				}
				paramCost(k, "joint.Core", "number of tuples", kindJCore(few, 4, w, 0, true), kindJCore(many, 4, w, 0, true), 6, 1, 60)
				paramCost(k, "ewm.joint.Core", "number of tuples", kindJCore(few, 4, 0, 0.2, true), kindJCore(many, 4, 0, 0.2, true), 6, 1, 60)
			})
			c.Case("variables"+suffix, func(k *Case) {
				paramCost(k, "joint.Core", "number of variables", kindJCore([][]int{perm2(3, 0, 2, 1, 2)}, 3, w, d, true),
					kindJCore([][]int{perm2(12, 0, 11, 1, 2)}, 12, w, d, true), 4, 4, 60)
			})
			c.Case("exponents"+suffix, func(k *Case) {
				paramCost(k, "joint.Core", "size of the largest tuple", kindJCore([][]int{{2, 2}}, 2, w, d, true),
					kindJCore([][]int{{7, 7}}, 2, w, d, true), 64*64/81., 1, 60)
			})
			for _, corr := range []bool{false, true} {
				corr := corr
				c.Case(fmt.Sprintf("lag-%v%s", corr, suffix), func(k *Case) {
					paramCost(k, "Autocov", "lag", kindAuto(2, w, corr), kindAuto(3000, w, corr), 1, 1, 4000)
				})
			}
		}
	}
	for i := 0; i < c.N(12, 60); i++ {
		i := i
		c.Case(fmt.Sprintf("reservoir-%d", i), func(k *Case) {
			run := func(size, n int) meter {
				r := &sample.Reservoir{Size: size}
				for j := 0; j < n; j++ {
					r.Push(j)
				}
				return measure(1000, func(j int) { r.Push(j) })
			}
			small := run(8, 50)
			k.within("reservoir/Push-cost", "Push after 50000 items into a reservoir of 5000", small, run(5000, 50000), 1.8, true)
			k.within("reservoir/Push-cost", "Push after 50000 items into a reservoir of 8", small, run(8, 50000), 1.8, true)
			_ = i
		})
	}
}

// randKindHasNoWindow: these metrics take no window.
func randKindHasNoWindow(class string) bool {
	switch class {
	case "EWMA", "EWMMoment", "EWMStd", "ewm.Core", "EWMCov", "EWMCorr", "ewm.joint.Core":
		return true
	}
	return false
}

func init() {
	register("C29", "metered calls: the library statements executed (counted by the instrumented build), the bytes allocated and the processor time of Push and of every query, on metrics holding few and many values of adversarial shapes, and with small and large orders, lags, tuple sets and variable counts; the growth from one to the other is compared with the documented complexity; non-trivial: every comparison, distinct by case and cost", costProp)
}
