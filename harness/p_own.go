package main

import (
	heapops "container/heap"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/sample"
)

// ---- C20: reachable memory ----

type walker struct {
	seen  map[[2]uintptr]bool
	bytes int64
}

// reachable is the number of bytes reachable from a value (through pointers, slices including
// their spare capacity, maps, interfaces and strings; not through functions).
func reachable(x interface{}) int64 {
	w := &walker{seen: map[[2]uintptr]bool{}}
	v := reflect.ValueOf(x)
	w.walk(v)
	return w.bytes
}

func (w *walker) once(p uintptr, t reflect.Type) bool {
	k := [2]uintptr{p, reflect.ValueOf(t).Pointer()}
	if w.seen[k] {
		return false
	}
	w.seen[k] = true
	return true
}

func hasPtrs(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
		reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return false
	case reflect.Array:
		return hasPtrs(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPtrs(t.Field(i).Type) {
				return true
			}
		}
		return false
	}
	return true
}

func (w *walker) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || !w.once(v.Pointer(), v.Type()) {
			return
		}
		w.bytes += int64(v.Type().Elem().Size())
		if hasPtrs(v.Type().Elem()) {
			w.walk(v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() != reflect.Ptr && e.Kind() != reflect.Map && e.Kind() != reflect.Func && e.Kind() != reflect.Chan {
			w.bytes += int64(e.Type().Size()) // boxed
		}
		w.walk(e)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || !w.once(v.Pointer(), v.Type()) {
			return
		}
		w.bytes += int64(v.Cap()) * int64(v.Type().Elem().Size())
		if hasPtrs(v.Type().Elem()) {
			v = v.Slice(0, v.Cap())
			for i := 0; i < v.Len(); i++ {
				w.walk(v.Index(i))
			}
		}
	case reflect.Array:
		if hasPtrs(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				w.walk(v.Index(i))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasPtrs(v.Field(i).Type()) {
				w.walk(v.Field(i))
			}
		}
	case reflect.Map:
		if v.IsNil() || !w.once(v.Pointer(), v.Type()) {
			return
		}
		n := int64(v.Len())
		w.bytes += 48 + n*int64(v.Type().Key().Size()+v.Type().Elem().Size()+8)
		it := v.MapRange()
		for it.Next() {
			w.walk(it.Key())
			w.walk(it.Value())
		}
	case reflect.String:
		w.bytes += int64(v.Len())
	case reflect.Chan:
		if !v.IsNil() {
			w.bytes += int64(v.Cap()) * int64(v.Type().Elem().Size())
		}
	}
}

// bounded tells whether a metric's memory may not grow with the stream.
func bounded(kd *Kind) bool {
	switch kd.Class {
	case "Quantile", "Median", "IQR", "HeapMedian":
		return kd.Window > 0
	}
	return true
}

// boundedKind draws a metric with a memory bound; limit is W + lag, summed over an aggregate's members.
func boundedKind(k *Case, class string, maxW int) (*Kind, int) {
	r := k.Rng
	if class == "SimpleAggregate" || class == "SimpleJointAggregate" {
		pool := simpleClasses
		if class == "SimpleJointAggregate" {
			pool = jointClasses
		}
		var ms []*Kind
		size := 0
		for i := 1 + r.Intn(3); i > 0; i-- {
			m, s := boundedKind(k, pool[r.Intn(len(pool))], maxW)
			ms = append(ms, m)
			size += s + 64
		}
		ms = distinctKinds(ms)
		if class == "SimpleAggregate" {
			return kindAgg(ms), size
		}
		return kindJAgg(ms), size
	}
	for {
		kd := twinKind(k, class, maxW)
		if bounded(kd) {
			return kd, kd.Window + kd.Lag
		}
	}
}

var memFamilies = []string{"increasing", "decreasing", "uniform", "small-ints", "sawtooth", "outliers", "plateaus"}

func memCase(k *Case, class string) {
	kd, size := boundedKind(k, class, 129)
	memRun(k, kd, size, memFamilies[k.Rng.Intn(len(memFamilies))])
}

// memGrid: every kind with a window and parameters of its own against every shape of stream.
func memGrid(k *Case, class string, w int, fam string) {
	r := k.Rng
	var kd *Kind
	switch class {
	case "EWMA", "EWMStd", "EWMMoment", "EWMCov", "EWMCorr":
		kd = randKind(r, class, 0)
	default:
		kd = withWindow(r, class, w)
	}
	if !bounded(kd) {
		return
	}
	memRun(k, kd, kd.Window+kd.Lag, fam)
}

func memRun(k *Case, kd *Kind, size int, fam string) {
	r := k.Rng
	in := kd.make()
	n := k.N(6000, 60000)
	if kd.Class == "joint.Core" || kd.Class == "shared joint.Core" {
		n /= 3
	}
	cols := make([][]float64, kd.Arity)
	for v := range cols {
		cols[v] = familyByName(fam).Gen(r, n)
	}
	k.logf("%s fed %d values (%s)", kd.Name, n, fam)
	warm := 4*size + 256
	limit := int64(24<<10) + int64(1<<10)*int64(size)
	clearEvery, query := 0, []int{0, 3, 7, 7, 101}[r.Intn(5)]
	if r.Intn(2) == 0 {
		clearEvery = []int{1, 3, 50, size + 3}[r.Intn(4)]
	}
	fails := []int{0, 2, 9}[r.Intn(3)]
	var atWarm, last int64
	// nothing is cleared from n/2 on, so that the window is full when the growth is measured
	base := n/2 + warm
	steps := []int{warm, n / 2, base, n - 1}
	for i := 0; i < n; i++ {
		p := make([]float64, kd.Arity)
		for v := range p {
			p[v] = cols[v][i]
		}
		k.tick()
		if err := in.Push(p...); err != nil {
			k.Fail(kd.Class+"/Push", "%s: %v", kd.Name, err)
		}
		if query > 0 && i%query == 0 {
			in.Snap()
		}
		if fails > 0 && i%fails == 0 && len(in.Bad) > 0 {
			_, _ = attempt(in.Bad[r.Intn(len(in.Bad))])
		}
		if clearEvery > 0 && i%clearEvery == 0 && i < n/2 && (i < warm || i%40 == 0 || clearEvery > 40) {
			in.Clear()
		}
		for _, s := range steps {
			if i == s {
				last = reachable(in.Root)
				if s == base {
					atWarm = last
				}
				k.EvalH(true, hashStr(kd.Name, fmt.Sprint(i, last)))
				k.Max("max_bytes", float64(last))
				k.Max("max_bytes_over_bound", float64(last)/float64(limit))
				if last > limit {
					k.Fail(kd.Class+"/memory", "%s retains %d bytes after %d values (%s), bound %d", kd.Name, last, i+1, fam, limit)
				}
				if atWarm > 0 && last > 2*atWarm+8192 {
					k.Fail(kd.Class+"/memory-growth", "%s retains %d bytes after %d values and %d after %d (%s)", kd.Name, atWarm, base+1, last, i+1, fam)
				}
			}
		}
	}
	k.Count("values_pushed", int64(n))
	k.Count("metrics_measured", 1)
	k.Sample("%s: %d bytes reachable after %d values (%s)", kd.Name, last, n, fam)
}

// heapGrowth watches the whole process for memory kept outside the metrics (package state,
// goroutines) while metrics of every kind live and die.
func heapGrowth(k *Case) {
	r := k.Rng
	round := func() {
		for _, class := range twinClasses {
			kd := twinKind(k, class, 33)
			in := kd.make()
			for i := 0; i < k.N(600, 3000); i++ {
				p := make([]float64, kd.Arity)
				for v := range p {
					p[v] = r.NormFloat64() * float64(1+i)
				}
				k.tick()
				_ = in.Push(p...)
				if i%5 == 0 {
					in.Snap()
				}
				for j, b := range in.Bad {
					if i%50 == j%50 {
						_ = b()
					}
				}
				if i%90 == 89 {
					in.Clear()
				}
			}
			k.EvalH(true, hashStr("live-and-die", kd.Name))
		}
		for i := 0; i < 400; i++ {
			res := &sample.Reservoir{Size: 10}
			for j := 0; j < 100; j++ {
				k.tick()
				res.Push(j)
			}
		}
	}
	measure := func() (uint64, int) {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return m.HeapAlloc, runtime.NumGoroutine()
	}
	k.distinct[0] = struct{}{}
	round()
	h0, g0 := measure()
	rounds := k.N(12, 60)
	for i := 0; i < rounds; i++ {
		round()
	}
	h1, g1 := measure()
	growth := float64(h1) - float64(h0)
	k.Max("process_heap_growth_bytes", growth)
	k.Max("goroutine_growth", float64(g1-g0))
	if growth > 1<<20 {
		k.Fail("process/heap", "%.0f bytes more in use after %d further rounds of metrics that were all dropped", growth, rounds)
	}
	if g1 > g0+4 {
		k.Fail("process/goroutines", "%d goroutines after %d further rounds, %d before", g1, rounds, g0)
	}
}

// soak feeds one metric for long and watches the process for memory kept elsewhere.
func soak(k *Case, class string) {
	r := k.Rng
	kd, size := boundedKind(k, class, 9)
	in := kd.make()
	use := func(n int) {
		p := make([]float64, kd.Arity)
		for i := 0; i < n; i++ {
			for v := range p {
				p[v] = math.Floor(r.NormFloat64()*8) + float64(i%5)/4
			}
			if err := in.Push(append([]float64(nil), p...)...); err != nil {
				k.Fail(kd.Class+"/Push", "%s: %v", kd.Name, err)
			}
			if i%11 == 0 {
				in.Snap()
			}
			if i%400 == 399 && i < n/2 {
				in.Clear()
			}
		}
	}
	held := func() float64 {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return float64(m.HeapAlloc)
	}
	n := k.N(60000, 300000)
	if kd.Class == "joint.Core" || kd.Class == "shared joint.Core" || kd.Class == "ewm.joint.Core" {
		n /= 4
	}
	use(3000 + 4*size)
	a := held()
	use(n)
	b := held()
	k.EvalH(true, hashStr("soak", kd.Name))
	k.Max("soak_growth_bytes", b-a)
	k.Count("values_pushed", int64(n))
	if b-a > 300<<10 {
		k.Fail(kd.Class+"/process-heap", "the process holds %.0f more bytes after %d further values in %s", b-a, n, kd.Name)
	}
	runtime.KeepAlive(in)
}

// failMem uses aggregates of which one member refuses every push and has no value, and the queries of
// metrics that hold nothing: errors must not pile up either.
func failMem(k *Case, i int) {
	r := k.Rng
	w := r.Intn(9)
	mx, err := minmax.NewMax(w)
	if err != nil {
		k.Fail("NewMax", "%v", err)
	}
	var root interface{}
	var push func() error
	var values func() (map[string]float64, error)
	var clear func()
	if i%2 == 0 {
		a := aggregate.NewSimpleAggregateMetric(mx, moment.NewMean(w))
		root, values, clear = a, a.Values, a.Clear
		push = func() error { return a.Push(r.NormFloat64()) }
	} else {
		cov := joint.NewCov(w)
		if err := joint.Init(cov); err != nil {
			k.Fail("Init", "%v", err)
		}
		a := aggregate.NewSimpleJointAggregateMetric(cov, joint.NewCorr(w))
		root, values, clear = a, a.Values, a.Clear
		push = func() error { return a.Push(r.NormFloat64(), r.NormFloat64()) }
	}
	var first int64
	n := k.N(3000, 30000)
	for j := 0; j < n; j++ {
		if push() == nil {
			k.Fail("aggregate/no-error", "a push that a member refused returned no error")
		}
		if j%3 == 0 {
			_, _ = values()
		}
		if j%50 == 49 && i%4 < 2 {
			clear()
		}
		if j == 300 {
			first = reachable(root)
		}
	}
	b := reachable(root)
	k.EvalH(true, hashStr("failing", fmt.Sprint(i, b)))
	k.Count("failed_pushes", int64(n))
	if b > 24<<10 || b > 2*first+8192 {
		k.Fail("aggregate/memory", "an aggregate of window %d retains %d bytes after %d failed pushes, and %d after 300", w, b, n, first)
	}
}

func reservoirMem(k *Case, size int) {
	res := &sample.Reservoir{Size: size}
	type item [16]int64
	for i := 0; i < 4*size+k.N(20000, 200000); i++ {
		k.tick()
		res.Push(&item{int64(i)})
	}
	b := reachable(res)
	limit := int64(24<<10 + size*(128+64))
	k.EvalH(true, hashStr("reservoir", fmt.Sprint(size)))
	k.Max("max_bytes_over_bound", float64(b)/float64(limit))
	if b > limit {
		k.Fail("reservoir/memory", "a reservoir of %d retains %d bytes, bound %d", size, b, limit)
	}
}

// ---- C21: ownership ----

// scribble fills a slice and its spare capacity with garbage.
func scribble(r *rand.Rand, xs []float64) {
	xs = xs[:cap(xs)]
	for i := range xs {
		xs[i] = []float64{math.NaN(), 1e9, -1e9, 0}[r.Intn(4)]
	}
}

// rejectedArgs makes calls that have to fail and looks for changes of the slices given to them, up
// to their capacity.
func rejectedArgs(k *Case, core *joint.Core) {
	r := k.Rng
	ints := make([]int, 6)
	for i := range ints {
		ints[i] = r.Intn(44) - 6
	}
	keep := append([]int(nil), ints...)
	n := r.Intn(len(ints))
	what := "Sum"
	if r.Intn(2) == 0 {
		_, _ = core.Sum(ints[:n]...)
	} else {
		what = "UnsafeSum"
		_, _ = core.UnsafeSum(ints[:n]...)
	}
	if !reflect.DeepEqual(keep, ints) {
		k.Fail("joint."+what+"/written", "%s%v changed the caller's exponents from %v to %v", what, keep[:n], keep, ints)
	}
	xs := make([]float64, 6)
	for i := range xs {
		xs[i] = float64(r.Intn(100)) - 50
	}
	before := append([]float64(nil), xs...)
	if n = r.Intn(len(xs)); n == 2 {
		n = 3
	}
	what = "Push"
	if r.Intn(2) == 0 {
		_ = core.Push(xs[:n]...)
	} else {
		what = "UnsafePush"
		_ = core.UnsafePush(xs[:n]...)
	}
	if !reflect.DeepEqual(before, xs) {
		k.Fail("joint."+what+"/written", "%s%v changed the caller's values from %v to %v", what, before[:n], before, xs)
	}
	k.Count("rejected_arguments", 2)
}

// playBorrowing plays a script handing every call the same buffer, which is overwritten after
// the call, and checks that the library did not write to it.
func playBorrowing(k *Case, kd *Kind, in *Inst, s script) [][]Obs {
	r := k.Rng
	buf := make([]float64, kd.Arity, kd.Arity+4)
	var out [][]Obs
	for _, o := range s {
		switch o.Op {
		case "push":
			copy(buf, o.P)
			spare := buf[:cap(buf)]
			for i := kd.Arity; i < len(spare); i++ {
				spare[i] = float64(1000 + i)
			}
			before := append([]float64(nil), spare...)
			if err := in.Push(buf...); err != nil {
				out = append(out, []Obs{{Label: "Push", Err: err}})
			}
			for i, x := range spare {
				if x != before[i] && !(math.IsNaN(x) && math.IsNaN(before[i])) {
					k.Fail(kd.Class+"/Push-wrote", "%s: Push changed element %d (of %d) of the caller's slice from %s to %s", kd.Name, i, kd.Arity, fmtF(before[i]), fmtF(x))
				}
			}
			if r.Intn(4) > 0 {
				scribble(r, buf)
			}
		case "clear":
			in.Clear()
		case "snap":
			out = append(out, in.Snap())
		}
	}
	return out
}

func scribbleMoment(r *rand.Rand, c *moment.CoreConfig) {
	if c == nil {
		return
	}
	for x := range c.Sums {
		if r.Intn(2) == 0 {
			delete(c.Sums, x)
		}
	}
	if c.Sums != nil {
		c.Sums[9+r.Intn(4)] = true
		c.Sums[-3] = true
	}
	if c.Window != nil {
		*c.Window = []int{0, 1, 2, -5, 1000}[r.Intn(5)]
	}
	if c.Decay != nil {
		*c.Decay = []float64{0.9999, 1e-9, -1, 7}[r.Intn(4)]
	}
	if r.Intn(2) == 0 {
		c.Window, c.Decay, c.Sums = nil, nil, nil
	}
}

func scribbleJoint(r *rand.Rand, c *joint.CoreConfig) {
	if c == nil {
		return
	}
	for i := range c.Sums {
		for j := range c.Sums[i] {
			c.Sums[i][j] = r.Intn(9) - 3
		}
		if r.Intn(2) == 0 {
			c.Sums[i] = joint.Tuple{7, 7, 7, 7, 7, 7}
		}
	}
	if c.Window != nil {
		*c.Window = []int{0, 1, 2, -5, 1000}[r.Intn(5)]
	}
	if c.Decay != nil {
		*c.Decay = []float64{0.9999, 1e-9, -1, 7}[r.Intn(4)]
	}
	if c.Vars != nil {
		*c.Vars = r.Intn(9) - 2
	}
	if r.Intn(2) == 0 {
		c.Window, c.Decay, c.Vars, c.Sums = nil, nil, nil, nil
	}
}

func copyMoment(c *moment.CoreConfig) *moment.CoreConfig {
	d := &moment.CoreConfig{}
	if c.Sums != nil {
		d.Sums = moment.SumsConfig{}
		for k, v := range c.Sums {
			d.Sums[k] = v
		}
	}
	if c.Window != nil {
		d.Window = stream.IntPtr(*c.Window)
	}
	if c.Decay != nil {
		d.Decay = stream.FloatPtr(*c.Decay)
	}
	return d
}

func copyJoint(c *joint.CoreConfig) *joint.CoreConfig {
	d := &joint.CoreConfig{}
	if c.Sums != nil {
		d.Sums = joint.SumsConfig{}
		for _, t := range c.Sums {
			d.Sums = append(d.Sums, append(joint.Tuple{}, t...))
		}
	}
	if c.Window != nil {
		d.Window = stream.IntPtr(*c.Window)
	}
	if c.Decay != nil {
		d.Decay = stream.FloatPtr(*c.Decay)
	}
	if c.Vars != nil {
		d.Vars = stream.IntPtr(*c.Vars)
	}
	return d
}

// ownMoment: univariate cores and metrics whose configurations are scribbled over.
func ownMoment(k *Case) {
	r := k.Rng
	w := randWindow(r, 17)
	ewm := r.Intn(3) == 0
	if ewm {
		w = 0
	}
	ms, d := sharedMoments(r, w, ewm)
	extra := randSums(r)
	maxK := 0
	cfgs := []*moment.CoreConfig{}
	var mets []moment.Metric
	var names []string
	for _, m := range ms {
		x, err := m.mk()
		if err != nil {
			panic(err)
		}
		mets = append(mets, x)
		names = append(names, x.(fmt.Stringer).String())
		cfgs = append(cfgs, x.Config())
	}
	own := &moment.CoreConfig{Sums: moment.SumsConfig{}, Window: stream.IntPtr(w)}
	for _, x := range extra {
		own.Sums[x] = true
		if x > maxK {
			maxK = x
		}
	}
	if ewm && r.Intn(2) == 0 {
		own.Decay = stream.FloatPtr(d)
	}
	cfgs = append(cfgs, own)
	r.Shuffle(len(cfgs), func(i, j int) { cfgs[i], cfgs[j] = cfgs[j], cfgs[i] })
	if r.Intn(3) == 0 {
		cfgs = cfgs[:len(cfgs):len(cfgs)]
	}
	var keep []*moment.CoreConfig
	for _, c := range cfgs {
		keep = append(keep, copyMoment(c))
	}
	merged, err := moment.MergeConfigs(cfgs...)
	if err != nil {
		k.Fail("moment.MergeConfigs/rejected", "%v", err)
	}
	if r.Intn(4) == 0 { // merging one configuration
		again, err := moment.MergeConfigs(merged)
		if err != nil {
			k.Fail("moment.MergeConfigs/rejected", "%v", err)
		}
		cfgs, keep, merged = append(cfgs, merged), append(keep, copyMoment(merged)), again
	}
	keepM := copyMoment(merged)
	early := r.Intn(2) == 0
	if early { // the merged configuration must not change with those it was made of
		for i := range cfgs {
			if !reflect.DeepEqual(cfgs[i], keep[i]) {
				k.Fail("moment.config/written", "MergeConfigs changed a caller's configuration from %+v to %+v", keep[i], cfgs[i])
			}
			scribbleMoment(r, cfgs[i])
			keep[i] = copyMoment(cfgs[i])
		}
		k.Count("configurations_overwritten_before_use", int64(len(cfgs)))
		if !reflect.DeepEqual(merged, keepM) {
			k.Fail("moment.config/aliased", "a merged configuration %+v became %+v when the caller overwrote those it was merged from", keepM, merged)
		}
	}
	core, err := moment.NewCore(merged)
	if err != nil {
		k.Fail("moment.NewCore/rejected", "%v", err)
	}
	for i := range cfgs {
		if !reflect.DeepEqual(cfgs[i], keep[i]) {
			k.Fail("moment.config/written", "MergeConfigs or NewCore changed a caller's configuration from %+v to %+v", keep[i], cfgs[i])
		}
	}
	if !reflect.DeepEqual(merged, keepM) {
		k.Fail("moment.config/written", "NewCore changed the caller's configuration from %+v to %+v", keepM, merged)
	}
	for _, x := range mets {
		x.SetCore(core)
	}
	kd := &Kind{Class: "borrowed moment.Core", Arity: 1, Window: w, Decay: d, Name: fmt.Sprintf("{%s extra=%v} with configurations overwritten", memberNames(ms), extra)}
	kd.New = func() (*Inst, error) {
		in := &Inst{Root: core, Clear: core.Clear}
		in.Push = func(xs ...float64) error { return core.Push(xs[0]) }
		in.Snap = func() []Obs {
			var os []Obs
			for i, m := range mets {
				v, err := m.Value()
				os = append(os, obs1(ms[i].kd.Name, v, err))
			}
			for x := 1; x <= maxK; x++ {
				v, err := core.Sum(x)
				os = append(os, obs1(fmt.Sprintf("Sum(%d)", x), v, err))
			}
			return os
		}
		return in, nil
	}
	kd.Model = func(h *Hist) []Expect {
		var es []Expect
		for _, m := range ms {
			e := m.kd.Model(h)[0]
			e.Label = m.kd.Name
			es = append(es, e)
		}
		b := newBatch(h, w, d)
		for x := 1; x <= maxK; x++ {
			l := fmt.Sprintf("Sum(%d)", x)
			if b.n == 0 {
				es = append(es, wantErr(l))
			} else {
				es = append(es, want(l, b.sum([]int{x})))
			}
		}
		return es
	}
	in, _ := kd.New()
	h := &Hist{}
	ps, _ := streamFor(r, 30+r.Intn(40), 1, nil)
	at := r.Intn(12)
	for i, p := range ps {
		if i == at || r.Intn(20) == 0 {
			for _, c := range cfgs {
				scribbleMoment(r, c)
			}
			scribbleMoment(r, merged)
			for _, m := range mets {
				scribbleMoment(r, m.Config())
			}
			k.logf("configurations overwritten after %d values", i)
			k.Count("configurations_overwritten", int64(len(cfgs)+1+len(mets)))
		}
		if err := in.Push(p...); err != nil {
			k.Fail(kd.Class+"/Push", "%s: %v", kd.Name, err)
		}
		h.push(p)
		k.logf("Push%s", fmtFs(p))
		k.checkSnap(kd, in.Snap(), kd.Model(h), h)
		if r.Intn(25) == 0 {
			in.Clear()
			h.clear()
		}
	}
	for i, m := range mets {
		if s := m.(fmt.Stringer).String(); s != names[i] {
			k.Fail(kd.Class+"/name", "the name %q became %q when the caller overwrote configurations", names[i], s)
		}
		// a later Config is that of the metric, not what the caller made of an earlier one
		y, _ := ms[i].mk()
		if a, b := m.Config(), y.Config(); !reflect.DeepEqual(a, b) {
			k.Fail(kd.Class+"/Config", "%s: Config changed after a caller overwrote an earlier result", names[i])
		}
	}
}

func ownJoint(k *Case) {
	r := k.Rng
	w := randWindow(r, 17)
	ewm := r.Intn(3) == 0
	if ewm {
		w = 0
	}
	ms, d := sharedJoints(r, w, ewm)
	extra := randTuples(r, 2)
	var cfgs []*joint.CoreConfig
	var mets []joint.Metric
	var names []string
	for _, m := range ms {
		x, err := m.jk()
		if err != nil {
			panic(err)
		}
		mets = append(mets, x)
		names = append(names, x.(fmt.Stringer).String())
		cfgs = append(cfgs, x.Config())
	}
	own := jcoreConfig(extra, 2, w, 0, r.Intn(2) == 0)
	if ewm && r.Intn(2) == 0 {
		own.Decay = stream.FloatPtr(d)
	}
	cfgs = append(cfgs, own)
	r.Shuffle(len(cfgs), func(i, j int) { cfgs[i], cfgs[j] = cfgs[j], cfgs[i] })
	for _, c := range cfgs { // spare capacity that an append would write to
		if r.Intn(2) == 0 {
			c.Sums = append(make(joint.SumsConfig, 0, len(c.Sums)+3), c.Sums...)
		}
	}
	var keep []*joint.CoreConfig
	for _, c := range cfgs {
		keep = append(keep, copyJoint(c))
	}
	merged, err := joint.MergeConfigs(cfgs...)
	if err != nil {
		k.Fail("joint.MergeConfigs/rejected", "%v", err)
	}
	if r.Intn(4) == 0 { // merging one configuration
		again, err := joint.MergeConfigs(merged)
		if err != nil {
			k.Fail("joint.MergeConfigs/rejected", "%v", err)
		}
		cfgs, keep, merged = append(cfgs, merged), append(keep, copyJoint(merged)), again
	}
	keepM := copyJoint(merged)
	early := r.Intn(2) == 0
	if early { // the merged configuration must not change with those it was made of
		for i := range cfgs {
			if !reflect.DeepEqual(cfgs[i], keep[i]) {
				k.Fail("joint.config/written", "MergeConfigs changed a caller's configuration from %+v to %+v", keep[i], cfgs[i])
			}
			scribbleJoint(r, cfgs[i])
			keep[i] = copyJoint(cfgs[i])
		}
		k.Count("configurations_overwritten_before_use", int64(len(cfgs)))
		if !reflect.DeepEqual(merged, keepM) {
			k.Fail("joint.config/aliased", "a merged configuration %+v became %+v when the caller overwrote those it was merged from", keepM, merged)
		}
	}
	core, err := joint.NewCore(merged)
	if err != nil {
		k.Fail("joint.NewCore/rejected", "%v", err)
	}
	for i := range cfgs {
		if !reflect.DeepEqual(cfgs[i], keep[i]) {
			k.Fail("joint.config/written", "MergeConfigs or NewCore changed a caller's configuration from %+v to %+v", keep[i], cfgs[i])
		}
		for _, t := range cfgs[i].Sums[len(cfgs[i].Sums):cap(cfgs[i].Sums)] {
			if t != nil {
				k.Fail("joint.config/written", "MergeConfigs or NewCore wrote to the spare capacity of a caller's sums")
			}
		}
	}
	if !reflect.DeepEqual(merged, keepM) {
		k.Fail("joint.config/written", "NewCore changed the caller's configuration from %+v to %+v", keepM, merged)
	}
	for _, x := range mets {
		x.SetCore(core)
	}
	tracked := downClosure(extra)
	kd := &Kind{Class: "borrowed joint.Core", Arity: 2, Window: w, Decay: d, Name: fmt.Sprintf("{%s extra=%v} with configurations overwritten", memberNames(ms), extra)}
	args := make([]int, 2, 6)
	in := &Inst{Root: core, Clear: core.Clear, Push: core.Push}
	in.Snap = func() []Obs {
		var os []Obs
		for i, m := range mets {
			v, err := m.Value()
			os = append(os, obs1(ms[i].kd.Name, v, err))
		}
		for _, t := range tracked {
			copy(args, t)
			v, err := core.Sum(args...)
			if args[0] != t[0] || args[1] != t[1] {
				k.Fail("joint.Sum/written", "Sum changed the caller's exponents from %v to %v", t, args)
			}
			args[0], args[1] = -9, 99
			os = append(os, obs1(fmt.Sprintf("Sum%v", t), v, err))
		}
		rejectedArgs(k, core)
		return os
	}
	kd.Model = func(h *Hist) []Expect {
		var es []Expect
		for _, m := range ms {
			e := m.kd.Model(h)[0]
			e.Label = m.kd.Name
			es = append(es, e)
		}
		b := newBatch(h, w, d)
		for _, t := range tracked {
			l := fmt.Sprintf("Sum%v", t)
			if b.n == 0 {
				es = append(es, wantErr(l))
			} else {
				es = append(es, want(l, b.sum(t)))
			}
		}
		return es
	}
	h := &Hist{}
	ps, _ := streamFor(r, 30+r.Intn(40), 2, nil)
	at := r.Intn(12)
	buf := make([]float64, 2, 5)
	for i, p := range ps {
		if i == at || r.Intn(20) == 0 {
			for _, c := range cfgs {
				scribbleJoint(r, c)
			}
			scribbleJoint(r, merged)
			for _, m := range mets {
				scribbleJoint(r, m.Config())
			}
			k.logf("configurations overwritten after %d values", i)
			k.Count("configurations_overwritten", int64(len(cfgs)+1+len(mets)))
		}
		copy(buf, p)
		if err := in.Push(buf...); err != nil {
			k.Fail(kd.Class+"/Push", "%s: %v", kd.Name, err)
		}
		scribble(r, buf)
		h.push(p)
		k.logf("Push%s", fmtFs(p))
		k.checkSnap(kd, in.Snap(), kd.Model(h), h)
		if r.Intn(25) == 0 {
			in.Clear()
			h.clear()
		}
	}
	for i, m := range mets {
		if s := m.(fmt.Stringer).String(); s != names[i] {
			k.Fail(kd.Class+"/name", "the name %q became %q when the caller overwrote configurations", names[i], s)
		}
		y, _ := ms[i].jk()
		if a, b := m.Config(), y.Config(); !reflect.DeepEqual(a, b) {
			k.Fail(kd.Class+"/Config", "%s: Config changed after a caller overwrote an earlier result", names[i])
		}
	}
}

// ownMerge: configurations with any of their fields missing, merged in any order (also such as
// disagree): no call writes to one of them, the result is the caller's own, and merging again
// gives the same.
func ownMerge(k *Case) {
	r := k.Rng
	n := 1 + r.Intn(5)
	odd := -1
	if r.Intn(3) == 0 {
		odd = r.Intn(n)
	}
	opt := func(i, x int) *int {
		if r.Intn(2) == 0 {
			return nil
		}
		if i == odd && r.Intn(2) == 0 {
			x++
		}
		return stream.IntPtr(x)
	}
	dec := func(i int) *float64 {
		if r.Intn(2) == 0 {
			return nil
		}
		x := 0.25
		if i == odd && r.Intn(2) == 0 {
			x = 0.5
		}
		return stream.FloatPtr(x)
	}
	if r.Intn(2) == 0 {
		var cs, keep []*moment.CoreConfig
		for i := 0; i < n; i++ {
			c := &moment.CoreConfig{Window: opt(i, 5), Decay: dec(i)}
			if r.Intn(3) > 0 {
				c.Sums = moment.SumsConfig{}
				for _, x := range randSums(r) {
					c.Sums[x] = r.Intn(4) > 0
				}
			}
			cs, keep = append(cs, c), append(keep, copyMoment(c))
		}
		unwritten := func(what string) {
			for i := range cs {
				if !reflect.DeepEqual(cs[i], keep[i]) {
					k.Fail("moment.config/written", "%s changed a caller's configuration %d of %d", what, i, n)
				}
			}
		}
		list := append([]*moment.CoreConfig{}, cs...)
		m, err := moment.MergeConfigs(list...)
		unwritten("MergeConfigs")
		if !reflect.DeepEqual(list, cs) {
			k.Fail("moment.config/written", "MergeConfigs changed the caller's slice of configurations")
		}
		if err != nil {
			k.Count("merges_refused", 1)
			return
		}
		keepM := copyMoment(m)
		again, err := moment.MergeConfigs(list...)
		if err != nil || !reflect.DeepEqual(again, keepM) {
			k.Fail("moment.config/not-repeatable", "merging the same configurations again gives %+v (%v) after %+v", again, err, keepM)
		}
		_, _ = moment.NewCore(m)
		unwritten("NewCore")
		if !reflect.DeepEqual(m, keepM) {
			k.Fail("moment.config/written", "NewCore or a second MergeConfigs changed a merged configuration")
		}
		scribbleMoment(r, m)
		unwritten("overwriting the merged configuration")
		keepM = copyMoment(m)
		for _, c := range cs {
			scribbleMoment(r, c)
		}
		if !reflect.DeepEqual(m, keepM) {
			k.Fail("moment.config/aliased", "overwriting configurations changed the one merged from them")
		}
	} else {
		var cs, keep []*joint.CoreConfig
		for i := 0; i < n; i++ {
			c := &joint.CoreConfig{Window: opt(i, 5), Vars: opt(i, 2), Decay: dec(i)}
			if r.Intn(3) > 0 {
				c.Sums = joint.SumsConfig{}
				for _, t := range randTuples(r, 2) {
					c.Sums = append(c.Sums, joint.Tuple(t))
				}
			}
			cs, keep = append(cs, c), append(keep, copyJoint(c))
		}
		unwritten := func(what string) {
			for i := range cs {
				if !reflect.DeepEqual(cs[i], keep[i]) {
					k.Fail("joint.config/written", "%s changed a caller's configuration %d of %d", what, i, n)
				}
			}
		}
		list := append([]*joint.CoreConfig{}, cs...)
		m, err := joint.MergeConfigs(list...)
		unwritten("MergeConfigs")
		if !reflect.DeepEqual(list, cs) {
			k.Fail("joint.config/written", "MergeConfigs changed the caller's slice of configurations")
		}
		if err != nil {
			k.Count("merges_refused", 1)
			return
		}
		keepM := copyJoint(m)
		again, err := joint.MergeConfigs(list...)
		if err != nil || !sameJointConfig(again, keepM) {
			k.Fail("joint.config/not-repeatable", "merging the same configurations again gives %+v (%v) after %+v", again, err, keepM)
		}
		_, _ = joint.NewCore(m)
		unwritten("NewCore")
		if !reflect.DeepEqual(m, keepM) {
			k.Fail("joint.config/written", "NewCore or a second MergeConfigs changed a merged configuration")
		}
		scribbleJoint(r, m)
		unwritten("overwriting the merged configuration")
		keepM = copyJoint(m)
		for _, c := range cs {
			scribbleJoint(r, c)
		}
		if !reflect.DeepEqual(m, keepM) {
			k.Fail("joint.config/aliased", "overwriting configurations changed the one merged from them")
		}
	}
	k.Count("merges", 1)
	k.Eval(true, "merge", fmt.Sprint(r.Int63()))
}

// sameJointConfig: the same fields, with the sums in any order.
func sameJointConfig(a, b *joint.CoreConfig) bool {
	x, y := *a, *b
	x.Sums, y.Sums = nil, nil
	if !reflect.DeepEqual(x, y) || len(a.Sums) != len(b.Sums) {
		return false
	}
	n := map[string]int{}
	for _, t := range a.Sums {
		n[fmt.Sprint(t)]++
	}
	for _, t := range b.Sums {
		n[fmt.Sprint(t)]--
	}
	for _, c := range n {
		if c != 0 {
			return false
		}
	}
	return true
}

// ownOptions: option slices with spare capacity, overwritten after construction.
func ownOptions(k *Case) {
	r := k.Rng
	w := r.Intn(9)
	impl := r.Intn(3)
	interp := r.Intn(5)
	var oo []order.Option
	if impl == 2 {
		oo = append(make([]order.Option, 0, 5), skiplist.MaxLevelOption(1+r.Intn(9)), skiplist.RandOption(rand.New(rand.NewSource(r.Int63()))))
	}
	opts := append(make([]quantile.Option, 0, 6), quantile.ImplOption(impls[impl], oo...), quantile.InterpolationOption(interps[interp]))
	full := opts[:cap(opts)]
	mark := func(*quantile.Quantile) error { return fmt.Errorf("an option that was not passed was used") }
	for i := len(opts); i < len(full); i++ {
		full[i] = mark
	}
	ptr := func(o interface{}) uintptr { return reflect.ValueOf(o).Pointer() }
	var before []uintptr
	for _, o := range full {
		before = append(before, ptr(o))
	}
	var kd *Kind
	var in *Inst
	var err error
	switch r.Intn(3) {
	case 0:
		kd = kindQuantile(r, w, impl, interp, randPhis(r))
		var q *quantile.Quantile
		if q, err = quantile.New(w, opts...); err == nil {
			in = quantileInst(q, randPhis(rand.New(rand.NewSource(1))))
			phis := randPhis(rand.New(rand.NewSource(1)))
			kd.Model = func(h *Hist) []Expect {
				var es []Expect
				for _, p := range phis {
					if len(h.pts) == 0 {
						es = append(es, wantErr(phiLabel(p)))
					} else {
						es = append(es, refQuantile(phiLabel(p), sortedCol(h.last(w)), p, interp))
					}
				}
				return es
			}
		}
	case 1:
		kd = kindMedian(r, w, impl, false)
		var m *quantile.Median
		if m, err = quantile.NewMedian(w, opts...); err == nil {
			in = simpleInst(m)
		}
	default:
		kd = kindMedian(r, w, impl, true)
		var m *quantile.IQR
		if m, err = quantile.NewIQR(w, opts...); err == nil {
			in = simpleInst(m)
		}
	}
	if err != nil {
		k.Fail("options/rejected", "%s: %v", kd.Name, err)
	}
	for i, o := range full {
		if ptr(o) != before[i] {
			k.Fail("options/written", "%s: the constructor overwrote element %d of the caller's options (%d passed)", kd.Name, i, len(opts))
		}
	}
	for i := range full {
		full[i] = mark
	}
	for i := range oo {
		oo[i] = func(order.Statistic) error { return fmt.Errorf("overwritten") }
	}
	h := &Hist{}
	ps, _ := streamFor(r, 25, 1, nil)
	for i, p := range ps {
		if err := in.Push(p...); err != nil {
			k.Fail("options/Push", "%s: %v", kd.Name, err)
		}
		h.push(p)
		k.logf("Push%s", fmtFs(p))
		k.checkSnap(kd, in.Snap(), kd.Model(h), h)
		if i == 13 {
			in.Clear()
			h.clear()
		}
	}
}

// ownHeap: the initial values of a heap stay the caller's.
func ownHeap(k *Case) {
	r := k.Rng
	n := 1 + r.Intn(20)
	vals := append(make([]float64, 0, n+5), pickFamily(r).Gen(r, n)...)
	keep := append([]float64(nil), vals...)
	h := heap.New("h", vals, func(a, b float64) bool { return a < b })
	if !reflect.DeepEqual(vals, keep) {
		k.Fail("heap/written", "heap.New changed the caller's values from %v to %v", keep, vals)
	}
	scribble(r, vals)
	got := h.Values()
	k.EvalH(true, hashStr(fmt.Sprint(keep)))
	if !reflect.DeepEqual(sortedCopy(got), sortedCopy(keep)) {
		k.Fail("heap/retained", "a heap of %v holds %v after the caller reused the slice", keep, got)
	}
	for i := range got {
		got[i] = -1e9
	}
	if x := h.Values(); !reflect.DeepEqual(sortedCopy(x), sortedCopy(keep)) {
		k.Fail("heap/retained", "overwriting the result of Values changed the heap: %v", x)
	}
	// what was handed out stays as it is, whatever happens to the heap
	var lent, kept [][]float64
	for i := 0; i < 12; i++ {
		x := h.Values()
		lent, kept = append(lent, x), append(kept, append([]float64(nil), x...))
		switch {
		case h.Len() > 0 && r.Intn(3) == 0:
			heapops.Pop(h)
		default:
			heapops.Push(h, &heap.Item{Val: r.NormFloat64()})
		}
		for j := range lent {
			if len(lent[j]) != len(kept[j]) || len(kept[j]) > 0 && !reflect.DeepEqual(lent[j], kept[j]) {
				k.Fail("heap/result-overwritten", "the slice returned by Values was %v and became %v after further calls", kept[j], lent[j])
			}
		}
	}
	h = heap.New("h", keep, func(a, b float64) bool { return a < b })
	if h.Peek() != sortedCopy(keep)[0] {
		k.Fail("heap/retained", "Peek is %v, want %v", h.Peek(), sortedCopy(keep)[0])
	}
}

func sameMap(a, b map[string]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for n, v := range a {
		if w, ok := b[n]; !ok || v != w && !(math.IsNaN(v) && math.IsNaN(w)) {
			return false
		}
	}
	return true
}

// ownAggregates: the member slice may be reused, the result map is the caller's.
func ownAggregates(k *Case) {
	r := k.Rng
	jointly := r.Intn(2) == 0
	var members []*Kind
	pool := simpleClasses
	if jointly {
		pool = jointClasses
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		members = append(members, randKind(r, pool[r.Intn(len(pool))], 9))
	}
	members = distinctKinds(members)
	arity := 1
	if jointly {
		arity = 2
	}
	var push func(xs ...float64) error
	var values func() (map[string]float64, error)
	var names []string
	if jointly {
		ms := make([]stream.SimpleJointMetric, 0, 8)
		for _, m := range members {
			ms = append(ms, m.make().Root.(stream.SimpleJointMetric))
			names = append(names, ms[len(ms)-1].String())
		}
		keep := append([]stream.SimpleJointMetric(nil), ms[:cap(ms)]...)
		a := aggregate.NewSimpleJointAggregateMetric(ms...)
		push, values = a.Push, a.Values
		for i := range keep {
			if ms[:cap(ms)][i] != keep[i] {
				k.Fail("aggregate/written", "the constructor changed element %d of the caller's metrics", i)
			}
		}
		for i := range ms[:cap(ms)] {
			ms[:cap(ms)][i] = kindCov(1).make().Root.(stream.SimpleJointMetric)
		}
	} else {
		ms := make([]stream.SimpleMetric, 0, 8)
		for _, m := range members {
			ms = append(ms, m.make().Root.(stream.SimpleMetric))
			names = append(names, ms[len(ms)-1].String())
		}
		keep := append([]stream.SimpleMetric(nil), ms[:cap(ms)]...)
		a := aggregate.NewSimpleAggregateMetric(ms...)
		push, values = func(xs ...float64) error { return a.Push(xs[0]) }, a.Values
		for i := range keep {
			if ms[:cap(ms)][i] != keep[i] {
				k.Fail("aggregate/written", "the constructor changed element %d of the caller's metrics", i)
			}
		}
		for i := range ms[:cap(ms)] {
			ms[:cap(ms)][i] = kindMean(1).make().Root.(stream.SimpleMetric)
		}
	}
	kd := &Kind{Class: "borrowed aggregate", Arity: arity, Name: fmt.Sprintf("aggregate of %v whose member slice was reused", names), Model: aggModel(members)}
	h := &Hist{}
	ps, _ := streamFor(r, 60, arity, nil)
	var lent, kept []map[string]float64
	for i, p := range ps {
		if err := push(append([]float64(nil), p...)...); err != nil {
			k.Fail(kd.Class+"/Push", "%s: %v", kd.Name, err)
		}
		h.push(p)
		k.logf("Push%s", fmtFs(p))
		vals, err := values()
		var os []Obs
		for i, n := range names {
			os = append(os, aggObs(members[i].Name, vals, err, n, len(names)))
		}
		k.checkSnap(kd, os, kd.Model(h), h)
		for j := range lent {
			if !sameMap(lent[j], kept[j]) {
				k.Fail("aggregate/result-overwritten", "%s: the map returned by Values was %v and became %v after further calls", kd.Name, kept[j], lent[j])
			}
		}
		if i%3 == 0 { // one that is left alone
			c := map[string]float64{}
			for n, v := range vals {
				c[n] = v
			}
			lent, kept = append(lent, vals), append(kept, c)
			continue
		}
		for n := range vals {
			vals[n] = -12345
			if r.Intn(2) == 0 {
				delete(vals, n)
			}
		}
		if vals != nil {
			vals["more"] = 1
		}
	}
}

func init() {
	register("C20", "metrics of every kind with a memory bound fed long streams (monotone, duplicate, random values) with and without Clear; the bytes reachable from the metric (slices with their spare capacity, maps, pointers, boxed values) measured by reflection against 24 KB + 1 KB*(W+lag) and against an early measurement; reservoirs; process heap while one small metric is fed for long; process heap and goroutine count over rounds of metrics that are dropped; non-trivial: every measurement, distinct by (metric, position, bytes)", func(c *Ctx) {
		for i := 0; i < c.N(240, 2400); i++ {
			class := twinClasses[i%len(twinClasses)]
			c.Case(fmt.Sprintf("mem-%s-%d", class, i), func(k *Case) { memCase(k, class) })
		}
		for _, class := range append([]string{"Quantile", "moment.Core", "joint.Core"}, append(simpleClasses, jointClasses...)...) {
			for _, w := range []int{0, 1, 2, 17, 64} {
				for i := 0; i < c.N(len(memFamilies), 3*len(memFamilies)); i++ {
					class, w, fam := class, w, memFamilies[i%len(memFamilies)]
					c.Case(fmt.Sprintf("grid-%s-%d-%s-%d", class, w, fam, i), func(k *Case) { memGrid(k, class, w, fam) })
				}
			}
		}
		for i := 0; i < c.N(8, 40); i++ {
			i := i
			c.Case(fmt.Sprintf("failing-%d", i), func(k *Case) { failMem(k, i) })
		}
		for _, s := range []int{0, 1, 10, 1000} {
			s := s
			c.Case(fmt.Sprintf("reservoir-%d", s), func(k *Case) { reservoirMem(k, s) })
		}
		for i, class := range append(append([]string{"Quantile", "Quantile", "Median", "Quantile"}, twinClasses...), twinClasses...) {
			class := class
			c.Case(fmt.Sprintf("soak-%s-%d", class, i), func(k *Case) { soak(k, class) })
		}
		c.Case("process", heapGrowth)
	})
	register("C21", "seeded pairs of runs, one with every argument slice in one buffer that is checked for writes and overwritten after each call, one with slices of its own, compared bit for bit; cores and metrics made from configurations (merged, own, and those returned by Config) that are checked for writes and overwritten at random times, option and member slices with spare capacity, heap values, result slices and maps (also such as are left alone, which later calls must not change), compared with the reference; non-trivial: at least one numeric answer, distinct by (metric, answers)", func(c *Ctx) {
		classes := []string{"Cov", "Corr", "EWMCov", "EWMCorr", "joint.Core", "ewm.joint.Core", "SimpleJointAggregate", "shared"}
		for i := 0; i < c.N(1200, 6000); i++ {
			i := i
			c.Case(fmt.Sprintf("push-%d", i), func(k *Case) {
				kd := twinKind(k, classes[i%len(classes)], 17)
				plain := genScript(k, kd, 20+k.Rng.Intn(100), k.Rng.Intn(2) == 0, 3)
				k.logf("%s; script:%s", kd.Name, plain)
				a := playBorrowing(k, kd, kd.make(), plain)
				b := play(k, kd, plain)
				sameRuns(k, kd, a, b, plain, "argument-retained", "with argument slices reused by the caller")
			})
		}
		for i := 0; i < c.N(800, 4000); i++ {
			c.Case(fmt.Sprintf("moment-config-%d", i), ownMoment)
			c.Case(fmt.Sprintf("joint-config-%d", i), ownJoint)
			c.Case(fmt.Sprintf("merge-%d", i), ownMerge)
			c.Case(fmt.Sprintf("options-%d", i), ownOptions)
			c.Case(fmt.Sprintf("heap-values-%d", i), ownHeap)
			c.Case(fmt.Sprintf("aggregate-%d", i), ownAggregates)
		}
	})
}
