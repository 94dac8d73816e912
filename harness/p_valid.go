package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/skiplist"
)

// attempt runs f; a panic is reported as such.
func attempt(f func() error) (err error, panicked interface{}) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
	}()
	return f(), nil
}

// wantRejected: the call must answer with an error.
func (k *Case) wantRejected(class, what string, f func() error) {
	k.Eval(true, class, what)
	k.Count("rejections_checked", 1)
	err, p := attempt(f)
	if p != nil {
		k.FailGo(class+"/panic", "%s panicked: %v", what, p)
	} else if err == nil {
		k.FailGo(class+"/accepted", "%s was accepted", what)
	}
}

// wantAccepted: the call must succeed.
func (k *Case) wantAccepted(class, what string, f func() error) {
	k.Eval(true, class, what)
	k.Count("acceptances_checked", 1)
	err, p := attempt(f)
	if p != nil {
		k.FailGo(class+"/panic", "%s panicked: %v", what, p)
	} else if err != nil {
		k.FailGo(class+"/rejected", "%s was rejected: %v", what, err)
	}
}

var badInts = []int{-1, -2, -7, -64, -1 << 31, math.MinInt}
var goodWindows = []int{0, 1, 2, 3, 5, 16, 17, 1000, 4096, 65535}
var badDecays = []float64{0, 1, -0.5, 1.5, -1e-300, 1 + 1e-15, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1e300}
var goodDecays = []float64{5e-324, 1e-300, 1e-9, 0.3, 0.5, 1 - 1e-16, 0.999999}
var badPhis = []float64{0, 1, -0.1, 1.1, 2, -1, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1 + 1e-15}
var goodPhis = []float64{5e-324, 1e-300, 1e-9, 0.25, 0.5, 0.999999999, 1 - 1e-16}

// lazyMetric is a metric whose parameters are checked by Init, behind uniform accessors.
type lazyMetric struct {
	name string
	mk   func() (init func() error, push func() error, value func() error, isSet func() bool, rest func(), err error)
}

func lazyM(name string, mk func() moment.Metric) lazyMetric {
	return lazyMetric{name, func() (func() error, func() error, func() error, func() bool, func(), error) {
		m := mk()
		return func() error { return moment.Init(m) }, func() error { return m.Push(1.5) },
			func() error { _, err := m.Value(); return err }, setCore(m),
			func() { _ = m.String(); _ = m.Config(); m.Clear() }, nil
	}}
}

func lazyJ(name string, mk func() (joint.Metric, error)) lazyMetric {
	return lazyMetric{name, func() (func() error, func() error, func() error, func() bool, func(), error) {
		m, err := mk()
		if err != nil {
			return nil, nil, nil, nil, nil, err
		}
		return func() error { return joint.Init(m) }, func() error { return m.Push(1.5, 2) },
			func() error { _, err := m.Value(); return err }, setCore(m),
			func() { _ = m.String(); _ = m.Config(); m.Clear() }, nil
	}}
}

type autoMetric interface {
	stream.SimpleMetric
	joint.CoreWrapper
}

func lazyA(name string, mk func() (autoMetric, error)) lazyMetric {
	return lazyMetric{name, func() (func() error, func() error, func() error, func() bool, func(), error) {
		m, err := mk()
		if err != nil {
			return nil, nil, nil, nil, nil, err
		}
		return func() error { return joint.Init(m) }, func() error { return m.Push(1.5) },
			func() error { _, err := m.Value(); return err }, setCore(m),
			func() { _ = m.String(); _ = m.Config(); m.Clear() }, nil
	}}
}

func newAutocov(l, w int) func() (autoMetric, error) {
	return func() (autoMetric, error) {
		m, err := joint.NewAutocov(l, w)
		if err != nil {
			return nil, err
		}
		return m, nil
	}
}

func newAutocorr(l, w int) func() (autoMetric, error) {
	return func() (autoMetric, error) {
		m, err := joint.NewAutocorr(l, w)
		if err != nil {
			return nil, err
		}
		return m, nil
	}
}

// lazyMetrics lists the metrics that get their core from Init, for a window and a decay.
func lazyMetrics(w int) []lazyMetric {
	return []lazyMetric{
		lazyM(fmt.Sprintf("Mean(%d)", w), func() moment.Metric { return moment.NewMean(w) }),
		lazyM(fmt.Sprintf("Moment(2,%d)", w), func() moment.Metric { return moment.New(2, w) }),
		lazyM(fmt.Sprintf("Std(%d)", w), func() moment.Metric { return moment.NewStd(w) }),
		lazyM(fmt.Sprintf("Skewness(%d)", w), func() moment.Metric { return moment.NewSkewness(w) }),
		lazyM(fmt.Sprintf("Kurtosis(%d)", w), func() moment.Metric { return moment.NewKurtosis(w) }),
		lazyJ(fmt.Sprintf("Cov(%d)", w), func() (joint.Metric, error) { return joint.NewCov(w), nil }),
		lazyJ(fmt.Sprintf("Corr(%d)", w), func() (joint.Metric, error) { return joint.NewCorr(w), nil }),
		lazyA(fmt.Sprintf("Autocov(3,%d)", w), newAutocov(3, w)),
		lazyA(fmt.Sprintf("Autocorr(0,%d)", w), newAutocorr(0, w)),
	}
}

func lazyEWM(d float64) []lazyMetric {
	return []lazyMetric{
		lazyM(fmt.Sprintf("EWMA(%v)", d), func() moment.Metric { return moment.NewEWMA(d) }),
		lazyM(fmt.Sprintf("EWMMoment(2,%v)", d), func() moment.Metric { return moment.NewEWMMoment(2, d) }),
		lazyM(fmt.Sprintf("EWMStd(%v)", d), func() moment.Metric { return moment.NewEWMStd(d) }),
		lazyJ(fmt.Sprintf("EWMCov(%v)", d), func() (joint.Metric, error) { return joint.NewEWMCov(d), nil }),
		lazyJ(fmt.Sprintf("EWMCorr(%v)", d), func() (joint.Metric, error) { return joint.NewEWMCorr(d), nil }),
	}
}

// rejectLazy: construction or Init fails, and what is left is not usable.
func (k *Case) rejectLazy(l lazyMetric) {
	k.wantRejected("Init", l.name+" with Init", func() error {
		init, push, value, isSet, rest, err := l.mk()
		if err != nil {
			return err
		}
		err = init()
		if err != nil {
			if push() == nil {
				k.FailGo("Init/usable-after-error", "%s: Push works although Init failed", l.name)
			}
			if value() == nil {
				k.FailGo("Init/usable-after-error", "%s: Value works although Init failed", l.name)
			}
			if isSet() {
				k.FailGo("Init/usable-after-error", "%s: IsSetCore although Init failed", l.name)
			}
			rest()
		}
		return err
	})
}

// acceptLazy: unusable before Init, an error while empty, usable afterwards.
func (k *Case) acceptLazy(l lazyMetric, lag int) {
	k.wantAccepted("Init", l.name+" with Init", func() error {
		init, push, value, isSet, rest, err := l.mk()
		if err != nil {
			return err
		}
		if isSet() {
			k.FailGo("uninitialised/IsSetCore", "%s: IsSetCore before Init", l.name)
		}
		if push() == nil {
			k.FailGo("uninitialised/Push", "%s: Push before Init succeeded", l.name)
		}
		if value() == nil {
			k.FailGo("uninitialised/Value", "%s: Value before Init succeeded", l.name)
		}
		rest()
		if isSet() || push() == nil || value() == nil {
			k.FailGo("uninitialised/Clear", "%s: usable after Clear without Init", l.name)
		}
		if err := init(); err != nil {
			return err
		}
		if !isSet() {
			k.FailGo("Init/IsSetCore", "%s: IsSetCore is false after Init", l.name)
		}
		for round := 0; round < 2; round++ {
			for i := 0; i < lag; i++ {
				if value() == nil {
					k.FailGo("empty/Value", "%s: Value after %d of %d values succeeded", l.name, i, lag+1)
				}
				if err := push(); err != nil {
					return err
				}
			}
			if value() == nil {
				k.FailGo("empty/Value", "%s: Value before enough values (%d) succeeded", l.name, lag)
			}
			for i := 0; i < 3; i++ {
				if err := push(); err != nil {
					return err
				}
			}
			if err := value(); err != nil {
				return err
			}
			rest() // clears
		}
		return nil
	})
}

func quantileCtors(w int, o ...quantile.Option) map[string]func() error {
	return map[string]func() error{
		"quantile.New":       func() error { _, err := quantile.New(w, o...); return err },
		"quantile.NewMedian": func() error { _, err := quantile.NewMedian(w, o...); return err },
		"quantile.NewIQR":    func() error { _, err := quantile.NewIQR(w, o...); return err },
	}
}

func globalQuantileCtors(o ...quantile.Option) map[string]func() error {
	return map[string]func() error{
		"quantile.NewGlobalQuantile": func() error { _, err := quantile.NewGlobalQuantile(o...); return err },
		"quantile.NewGlobalMedian":   func() error { _, err := quantile.NewGlobalMedian(o...); return err },
		"quantile.NewGlobalIQR":      func() error { _, err := quantile.NewGlobalIQR(o...); return err },
	}
}

func validWindows(k *Case) {
	for _, w := range badInts {
		w := w
		k.wantRejected("window", fmt.Sprintf("minmax.NewMin(%d)", w), func() error { _, err := minmax.NewMin(w); return err })
		k.wantRejected("window", fmt.Sprintf("minmax.NewMax(%d)", w), func() error { _, err := minmax.NewMax(w); return err })
		k.wantRejected("window", fmt.Sprintf("quantile.NewHeapMedian(%d)", w), func() error { _, err := quantile.NewHeapMedian(w); return err })
		for n, f := range quantileCtors(w) {
			k.wantRejected("window", fmt.Sprintf("%s(%d)", n, w), f)
		}
		for _, l := range lazyMetrics(w) {
			k.rejectLazy(l)
		}
		k.wantRejected("lag", fmt.Sprintf("joint.NewAutocov(%d, 3)", w), func() error { _, err := joint.NewAutocov(w, 3); return err })
		k.wantRejected("lag", fmt.Sprintf("joint.NewAutocorr(%d, 3)", w), func() error { _, err := joint.NewAutocorr(w, 3); return err })
		k.wantRejected("lag", fmt.Sprintf("joint.NewGlobalAutocov(%d)", w), func() error { _, err := joint.NewGlobalAutocov(w); return err })
		k.wantRejected("lag", fmt.Sprintf("joint.NewGlobalAutocorr(%d)", w), func() error { _, err := joint.NewGlobalAutocorr(w); return err })
		for _, m := range append([]int{0}, w) {
			m := m
			k.rejectLazy(lazyM(fmt.Sprintf("Moment(%d,4)", m), func() moment.Metric { return moment.New(m, 4) }))
			k.rejectLazy(lazyM(fmt.Sprintf("GlobalMoment(%d)", m), func() moment.Metric { return moment.NewGlobal(m) }))
			k.rejectLazy(lazyM(fmt.Sprintf("EWMMoment(%d,0.3)", m), func() moment.Metric { return moment.NewEWMMoment(m, 0.3) }))
		}
	}
	for _, w := range goodWindows {
		w := w
		k.wantAccepted("window", fmt.Sprintf("minmax.NewMin(%d)", w), func() error { _, err := minmax.NewMin(w); return err })
		k.wantAccepted("window", fmt.Sprintf("minmax.NewMax(%d)", w), func() error { _, err := minmax.NewMax(w); return err })
		k.wantAccepted("window", fmt.Sprintf("quantile.NewHeapMedian(%d)", w), func() error { _, err := quantile.NewHeapMedian(w); return err })
		for n, f := range quantileCtors(w) {
			k.wantAccepted("window", fmt.Sprintf("%s(%d)", n, w), f)
		}
		for _, l := range lazyMetrics(w) {
			lag := 0
			if strings.HasPrefix(l.name, "Autocov") {
				lag = 3
			}
			k.acceptLazy(l, lag)
		}
		for _, l := range []int{0, 1, 2, 7, 64, 1000} {
			if w > 1000 && l > 8 {
				continue
			}
			k.acceptLazy(lazyA(fmt.Sprintf("Autocov(%d,%d)", l, w), newAutocov(l, w)), l)
			k.acceptLazy(lazyA(fmt.Sprintf("Autocorr(%d,%d)", l, w), newAutocorr(l, w)), l)
		}
		for _, m := range []int{1, 2, 3, 4, 7, 12} {
			m := m
			k.acceptLazy(lazyM(fmt.Sprintf("Moment(%d,%d)", m, w), func() moment.Metric { return moment.New(m, w) }), 0)
		}
	}
}

func validDecays(k *Case) {
	for _, d := range badDecays {
		d := d
		for _, l := range lazyEWM(d) {
			k.rejectLazy(l)
		}
		k.wantRejected("decay", fmt.Sprintf("moment.NewCore(decay %v)", d), func() error {
			_, err := moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(0), Decay: stream.FloatPtr(d)})
			return err
		})
		k.wantRejected("decay", fmt.Sprintf("joint.NewCore(decay %v)", d), func() error {
			_, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(0), Vars: stream.IntPtr(2), Decay: stream.FloatPtr(d)})
			return err
		})
	}
	for _, d := range goodDecays {
		d := d
		for _, l := range lazyEWM(d) {
			k.acceptLazy(l, 0)
		}
		k.wantAccepted("decay", fmt.Sprintf("moment.NewCore(decay %v)", d), func() error {
			_, err := moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(0), Decay: stream.FloatPtr(d)})
			return err
		})
		for _, w := range []int{1, 2, 100, -1} {
			w := w
			k.wantRejected("decay", fmt.Sprintf("moment.NewCore(decay %v, window %d)", d, w), func() error {
				_, err := moment.NewCore(&moment.CoreConfig{Sums: moment.SumsConfig{2: true}, Window: stream.IntPtr(w), Decay: stream.FloatPtr(d)})
				return err
			})
			k.wantRejected("decay", fmt.Sprintf("joint.NewCore(decay %v, window %d)", d, w), func() error {
				_, err := joint.NewCore(&joint.CoreConfig{Sums: joint.SumsConfig{{1, 1}}, Window: stream.IntPtr(w), Decay: stream.FloatPtr(d)})
				return err
			})
		}
	}
}

func validCores(k *Case) {
	r := k.Rng
	mcore := func(c *moment.CoreConfig) func() error {
		return func() error { _, err := moment.NewCore(c); return err }
	}
	jcore := func(c *joint.CoreConfig) func() error { return func() error { _, err := joint.NewCore(c); return err } }
	k.wantRejected("window", "moment.NewCore without a window", mcore(&moment.CoreConfig{}))
	k.wantRejected("window", "moment.NewCore with sums but without a window", mcore(&moment.CoreConfig{Sums: moment.SumsConfig{2: true}}))
	k.wantRejected("window", "moment.NewCore with a decay but without a window", mcore(&moment.CoreConfig{Decay: stream.FloatPtr(0.5)}))
	k.wantRejected("window", "joint.NewCore without a window", jcore(&joint.CoreConfig{Vars: stream.IntPtr(2)}))
	k.wantRejected("window", "joint.NewCore with sums but without a window", jcore(&joint.CoreConfig{Sums: joint.SumsConfig{{1, 1}}}))
	k.wantRejected("merge", "moment.MergeConfigs()", func() error { _, err := moment.MergeConfigs(); return err })
	k.wantRejected("merge", "joint.MergeConfigs()", func() error { _, err := joint.MergeConfigs(); return err })
	for _, w := range badInts {
		k.wantRejected("window", fmt.Sprintf("moment.NewCore(window %d)", w), mcore(&moment.CoreConfig{Window: stream.IntPtr(w)}))
		k.wantRejected("window", fmt.Sprintf("joint.NewCore(window %d)", w), jcore(&joint.CoreConfig{Vars: stream.IntPtr(2), Window: stream.IntPtr(w)}))
	}
	for _, w := range goodWindows {
		k.wantAccepted("window", fmt.Sprintf("moment.NewCore(window %d)", w), mcore(&moment.CoreConfig{Window: stream.IntPtr(w)}))
		k.wantAccepted("window", fmt.Sprintf("joint.NewCore(window %d)", w), jcore(&joint.CoreConfig{Vars: stream.IntPtr(2), Window: stream.IntPtr(w)}))
	}
	for _, m := range append([]int{0}, badInts...) {
		k.wantRejected("sums", fmt.Sprintf("moment.NewCore(sums {%d})", m), mcore(&moment.CoreConfig{Sums: moment.SumsConfig{m: true}, Window: stream.IntPtr(0)}))
		k.wantRejected("sums", fmt.Sprintf("moment.NewCore(sums {3 %d 5})", m), mcore(&moment.CoreConfig{Sums: moment.SumsConfig{3: true, m: true, 5: true}, Window: stream.IntPtr(3)}))
	}
	for i := 0; i < 40; i++ {
		ks := randSums(r)
		s := moment.SumsConfig{}
		for _, x := range ks {
			s[x] = true
		}
		k.wantAccepted("sums", fmt.Sprintf("moment.NewCore(sums %v)", ks), mcore(&moment.CoreConfig{Sums: s, Window: stream.IntPtr(r.Intn(20))}))
	}
	// variable counts
	for _, v := range []int{1, 0, -1, -5, math.MinInt} {
		k.wantRejected("vars", fmt.Sprintf("joint.NewCore(vars %d)", v), jcore(&joint.CoreConfig{Vars: stream.IntPtr(v), Window: stream.IntPtr(0)}))
		k.wantRejected("vars", fmt.Sprintf("joint.NewCore(vars %d, sums {{1 1}})", v), jcore(&joint.CoreConfig{Sums: joint.SumsConfig{{1, 1}}, Vars: stream.IntPtr(v), Window: stream.IntPtr(0)}))
	}
	k.wantRejected("vars", "joint.NewCore with neither sums nor variables", jcore(&joint.CoreConfig{Window: stream.IntPtr(0)}))
	k.wantRejected("vars", "joint.NewCore with empty sums and no variables", jcore(&joint.CoreConfig{Sums: joint.SumsConfig{}, Window: stream.IntPtr(0)}))
	for i := 0; i < 300; i++ {
		vars := 2 + r.Intn(4)
		ts := randTuples(r, vars)
		set := r.Intn(2) == 0
		d := 0.0
		w := r.Intn(9)
		if r.Intn(3) == 0 {
			d, w = 0.25, 0
		}
		name := fmt.Sprintf("joint.NewCore(sums %v, vars %d/%v, window %d, decay %v)", ts, vars, set, w, d)
		k.wantAccepted("tuples", name, jcore(jcoreConfig(ts, vars, w, d, set)))
		// break one tuple at a random place
		j := r.Intn(len(ts))
		mut := func(what string, t []int) {
			c := jcoreConfig(ts, vars, w, d, set)
			c.Sums[j] = t
			k.wantRejected("tuples", fmt.Sprintf("%s with %s at %d: %v", name, what, j, t), jcore(c))
		}
		neg := append([]int(nil), ts[j]...)
		neg[r.Intn(vars)] = -1 - r.Intn(3)
		mut("a negative exponent", neg)
		mut("an all-zero tuple", make([]int, vars))
		if len(ts) > 1 || set {
			mut("a longer tuple", append(append([]int(nil), ts[j]...), r.Intn(2)))
			mut("a longer tuple", append([]int{0}, ts[j]...))
			mut("an empty tuple", []int{})
			if vars > 2 {
				mut("a shorter tuple", ts[j][:vars-1])
			}
		}
		mut("a tuple of one variable", []int{2})
		c := jcoreConfig(ts, vars, w, d, true)
		c.Vars = stream.IntPtr(vars + 1)
		k.wantRejected("vars", fmt.Sprintf("%s with vars %d", name, vars+1), jcore(c))
		if vars > 2 {
			c = jcoreConfig(ts, vars, w, d, true)
			c.Vars = stream.IntPtr(vars - 1)
			k.wantRejected("vars", fmt.Sprintf("%s with vars %d", name, vars-1), jcore(c))
		}
	}
}

func validQuantiles(k *Case) {
	r := k.Rng
	bothCtors := func(o ...quantile.Option) map[string]func() error {
		m := quantileCtors(3, o...)
		for n, f := range globalQuantileCtors(o...) {
			m[n] = f
		}
		return m
	}
	for _, v := range []int{3, 4, 100, -1, -3, math.MinInt, math.MaxInt} {
		for n, f := range bothCtors(quantile.ImplOption(quantile.Impl(v))) {
			k.wantRejected("impl", fmt.Sprintf("%s(impl %d)", n, v), f)
		}
		if quantile.Impl(v).Valid() {
			k.FailGo("impl/Valid", "Impl(%d).Valid() is true", v)
		}
	}
	for _, v := range []int{5, 6, 100, -1, -3, math.MinInt, math.MaxInt} {
		for n, f := range bothCtors(quantile.InterpolationOption(quantile.Interpolation(v))) {
			k.wantRejected("interpolation", fmt.Sprintf("%s(interpolation %d)", n, v), f)
		}
		for n, f := range bothCtors(quantile.ImplOption(quantile.RedBlack), quantile.InterpolationOption(quantile.Interpolation(v)), quantile.InterpolationOption(quantile.Lower)) {
			k.wantRejected("interpolation", fmt.Sprintf("%s(interpolation %d among valid options)", n, v), f)
		}
		if quantile.Interpolation(v).Valid() {
			k.FailGo("interpolation/Valid", "Interpolation(%d).Valid() is true", v)
		}
	}
	for i, x := range impls {
		if !x.Valid() {
			k.FailGo("impl/Valid", "%s.Valid() is false", implNames[i])
		}
		for j, y := range interps {
			if !y.Valid() {
				k.FailGo("interpolation/Valid", "%s.Valid() is false", interpNames[j])
			}
			for n, f := range bothCtors(quantile.ImplOption(x), quantile.InterpolationOption(y)) {
				k.wantAccepted("options", fmt.Sprintf("%s(%s %s)", n, implNames[i], interpNames[j]), f)
			}
		}
	}
	// skip list options, alone and nested
	sl := func(o ...order.Option) func() error { return func() error { _, err := skiplist.New(o...); return err } }
	nested := func(o ...order.Option) map[string]func() error {
		return bothCtors(quantile.ImplOption(quantile.SkipList, o...))
	}
	for _, l := range []int{0, -1, 65, 66, 1000, math.MinInt, math.MaxInt} {
		o := skiplist.MaxLevelOption(l)
		k.wantRejected("level", fmt.Sprintf("skiplist.New(level %d)", l), sl(o))
		k.wantRejected("level", fmt.Sprintf("skiplist.New(p, level %d, p)", l), sl(skiplist.ProbabilityOption(0.5), o, skiplist.ProbabilityOption(0.25)))
		for n, f := range nested(o) {
			k.wantRejected("level", fmt.Sprintf("%s(SkipList level %d)", n, l), f)
		}
	}
	for _, l := range []int{1, 2, 12, 63, 64} {
		o := skiplist.MaxLevelOption(l)
		k.wantAccepted("level", fmt.Sprintf("skiplist.New(level %d)", l), sl(o))
		for n, f := range nested(o) {
			k.wantAccepted("level", fmt.Sprintf("%s(SkipList level %d)", n, l), f)
		}
	}
	for _, p := range badPhis {
		o := skiplist.ProbabilityOption(p)
		k.wantRejected("probability", fmt.Sprintf("skiplist.New(p %v)", p), sl(o))
		for n, f := range nested(skiplist.MaxLevelOption(4), o) {
			k.wantRejected("probability", fmt.Sprintf("%s(SkipList p %v)", n, p), f)
		}
	}
	for _, p := range []float64{1e-300, 1e-9, 0.25, 0.5, 0.99, 1 - 1e-16} {
		k.wantAccepted("probability", fmt.Sprintf("skiplist.New(p %v)", p), sl(skiplist.ProbabilityOption(p), skiplist.RandOption(rand.New(rand.NewSource(1)))))
	}
	for n, o := range map[string]order.Option{"level": skiplist.MaxLevelOption(4), "probability": skiplist.ProbabilityOption(0.5), "rand": skiplist.RandOption(rand.New(rand.NewSource(1)))} {
		k.wantRejected("skip-list-option", "a skip list "+n+" option on an AVL tree", func() error { return o(&avl.Tree{}) })
	}
	// quantile arguments
	for i := 0; i < 60; i++ {
		kd := kindQuantile(r, r.Intn(12), i%3, r.Intn(5), nil)
		in := kd.make()
		q := in.Root.(*quantile.Quantile)
		value := func(p float64) func() error { return func() error { _, err := q.Value(p); return err } }
		for n := 0; n < 20; n++ {
			for _, p := range badPhis {
				k.wantRejected("quantile", fmt.Sprintf("%s Value(%v) with %d values", kd.Name, p, n), value(p))
			}
			for _, p := range goodPhis {
				if n == 0 {
					k.wantRejected("quantile", fmt.Sprintf("%s Value(%v) while empty", kd.Name, p), value(p))
				} else {
					k.wantAccepted("quantile", fmt.Sprintf("%s Value(%v) with %d values", kd.Name, p, n), value(p))
				}
			}
			if n == 12 {
				in.Clear()
				n = 12 + 1
				for _, p := range goodPhis {
					k.wantRejected("quantile", fmt.Sprintf("%s Value(%v) after Clear", kd.Name, p), value(p))
				}
			}
			if err := in.Push(r.NormFloat64()); err != nil {
				k.FailGo("quantile/Push", "%s: %v", kd.Name, err)
			}
		}
	}
}

// validArity: wrong numbers of values are refused in every state, right ones taken.
func validArity(k *Case, i int) {
	r := k.Rng
	classes := []string{"Cov", "Corr", "EWMCov", "EWMCorr", "joint.Core", "ewm.joint.Core", "SimpleJointAggregate"}
	kd := randKind(r, classes[i%len(classes)], 9)
	in := kd.make()
	for n := 0; n < 30; n++ {
		for a := 0; a <= kd.Arity+2; a++ {
			xs := make([]float64, a)
			for j := range xs {
				xs[j] = r.NormFloat64()
			}
			if a != kd.Arity {
				k.wantRejected("arity", fmt.Sprintf("%s: Push of %d values after %d points", kd.Class, a, n), func() error { return in.Push(xs...) })
			}
		}
		xs := make([]float64, kd.Arity)
		for j := range xs {
			xs[j] = r.NormFloat64()
		}
		k.wantAccepted("arity", fmt.Sprintf("%s: Push of %d values after %d points", kd.Class, kd.Arity, n), func() error { return in.Push(xs...) })
		if r.Intn(15) == 0 {
			in.Clear()
		}
	}
	// before Init
	if len(kd.Class) <= 7 && kd.Class != "" {
		for _, l := range append(lazyMetrics(3), lazyEWM(0.5)...) {
			_, push, value, _, _, err := l.mk()
			if err != nil {
				continue
			}
			k.wantRejected("uninitialised", l.name+" Push before Init", push)
			k.wantRejected("uninitialised", l.name+" Value before Init", value)
		}
	}
}

// ---- C19: merging ----

type mergeSpec struct {
	window, decay, vars int // index into the choices; 0: not set
	sums                [][]int
}

// mergeDom holds the windows and decays of one case: an index i > 0 stands for the (i-1)-th of them.
// Some are as close together as two different values can be.
type mergeDom struct {
	w []int
	d []float64
}

func randMergeDom(r *rand.Rand) mergeDom {
	return mergeDom{
		[][]int{{0, 3, 4}, {0, 1, 2}, {0, 3, 35}, {0, 2, 258}}[r.Intn(4)],
		[][]float64{{0.25, 0.5}, {0.25, math.Nextafter(0.25, 1)}, {0.7, 0.7 - 1e-12}, {1e-12, 1.5e-12}, {0.3, 0.300001}}[r.Intn(5)],
	}
}

// nearTuples makes tuples over many variables that differ from each other in one or two components.
func nearTuples(r *rand.Rand, vars, n int) [][]int {
	base := make([]int, vars)
	for i := 1 + r.Intn(3); i > 0; i-- {
		base[r.Intn(vars)]++
	}
	out := [][]int{base}
	for len(out) < n {
		t := append([]int(nil), out[r.Intn(len(out))]...)
		j := r.Intn(vars)
		t[j] = r.Intn(3)
		if r.Intn(3) == 0 {
			t[r.Intn(vars)] = 0
		}
		abs := 0
		for _, e := range t {
			abs += e
		}
		if abs > 0 && abs < 7 {
			out = append(out, t)
		}
	}
	return out
}

// mergeCase merges random configurations and checks success, the tracked sums and their values.
func mergeCase(k *Case, i int) {
	r := k.Rng
	n := 1 + r.Intn(4)
	base := mergeSpec{window: r.Intn(4), decay: 0, vars: 2 + r.Intn(2)}
	if base.window == 1 && r.Intn(2) == 0 {
		base.decay = 1 + r.Intn(2)
	}
	wide := i%4 == 3
	var family [][]int
	if wide {
		base.vars = 2 + r.Intn(8)
		family = nearTuples(r, base.vars, 2*n)
	}
	var specs []mergeSpec
	for j := 0; j < n; j++ {
		s := base
		s.sums = nil
		if r.Intn(4) == 0 {
			s.window = 0
		}
		if r.Intn(4) == 0 {
			s.decay = 0
		}
		s.vars = 0
		if r.Intn(2) == 0 {
			s.vars = base.vars
		}
		if r.Intn(4) > 0 {
			if wide {
				for m := 1 + r.Intn(3); m > 0; m-- {
					s.sums = append(s.sums, family[r.Intn(len(family))])
				}
			} else {
				s.sums = randTuples(r, base.vars)
			}
		}
		specs = append(specs, s)
	}
	// a disagreement in some of the cases, at any position
	what := ""
	if n > 1 && r.Intn(2) == 0 {
		j := r.Intn(n)
		switch r.Intn(4) {
		case 0:
			specs[j].window = 1 + (specs[j].window+r.Intn(2))%3
		case 1:
			specs[j].decay = 1 + specs[j].decay%2
		case 2:
			specs[j].vars = base.vars + 1
			specs[j].sums = nil
		default:
			specs[j].sums = append(specs[j].sums, nearTuples(r, base.vars+1, 2)...)
		}
		what = "a disagreement"
	}
	dom := randMergeDom(r)
	jointMerge(k, dom, specs, what)
	momentMerge(k, dom, specs)
}

func agree(vals []int) bool {
	set := 0
	for _, v := range vals {
		if v != 0 {
			if set != 0 && set != v {
				return false
			}
			set = v
		}
	}
	return true
}

func firstSet(vals []int) int {
	for _, v := range vals {
		if v != 0 {
			return v
		}
	}
	return 0
}

func jointMerge(k *Case, dom mergeDom, specs []mergeSpec, what string) {
	var cfgs []*joint.CoreConfig
	var ws, ds, vs, lens []int
	var all [][]int
	desc := fmt.Sprintf(" from windows %v and decays %v", dom.w, dom.d)
	for _, s := range specs {
		c := &joint.CoreConfig{}
		desc += fmt.Sprintf(" {sums %v window %d decay %d vars %d}", s.sums, s.window, s.decay, s.vars)
		for _, t := range s.sums {
			c.Sums = append(c.Sums, joint.Tuple(append([]int(nil), t...)))
			lens = append(lens, len(t))
			all = append(all, t)
		}
		if s.window > 0 {
			c.Window = stream.IntPtr(dom.w[s.window-1])
		}
		if s.decay > 0 {
			c.Decay = stream.FloatPtr(dom.d[s.decay-1])
		}
		if s.vars > 0 {
			c.Vars = stream.IntPtr(s.vars)
		}
		ws, ds, vs = append(ws, s.window), append(ds, s.decay), append(vs, s.vars)
		cfgs = append(cfgs, c)
	}
	k.logf("joint merge:%s", desc)
	var cfg *joint.CoreConfig
	err, p := attempt(func() error { var err error; cfg, err = joint.MergeConfigs(cfgs...); return err })
	if p != nil {
		k.Fail("joint.MergeConfigs/panic", "MergeConfigs panicked: %v (%s)", p, desc)
	}
	k.Eval(len(specs) > 1, "joint", desc)
	k.Count("merges", 1)
	direct := agree(ws) && agree(ds) && agree(vs)
	lengths := agree(lens) && agree(append(append([]int{}, lens...), vs...))
	if !direct {
		k.Count("disagreeing_merges", 1)
		if err == nil {
			k.Fail("joint.MergeConfigs/accepted", "disagreeing configurations were merged:%s", desc)
		}
		return
	}
	if err == nil && cfg == nil {
		k.Fail("joint.MergeConfigs/nil", "no error and no configuration:%s", desc)
	}
	w, d, v := firstSet(ws), firstSet(ds), firstSet(vs)
	if v == 0 && len(lens) > 0 {
		v = lens[0]
	}
	usable := w > 0 && !(d > 0 && dom.w[w-1] != 0) && v >= 2
	var core *joint.Core
	if err == nil {
		var err2 error
		err2, p = attempt(func() error { var e error; core, e = joint.NewCore(cfg); return e })
		if p != nil {
			k.Fail("joint.NewCore/panic", "NewCore panicked on a merged configuration: %v (%s)", p, desc)
		}
		if !lengths || !usable {
			if err2 == nil {
				k.Fail("joint.MergeConfigs/accepted", "a core was made from configurations that do not fit together:%s", desc)
			}
			return
		}
		if err2 != nil {
			k.Fail("joint.NewCore/rejected", "NewCore refused a merged configuration: %v (%s)", err2, desc)
		}
	} else {
		if lengths {
			k.Fail("joint.MergeConfigs/rejected", "agreeing configurations were refused: %v (%s)", err, desc)
		}
		return
	}
	wd, dd := dom.w[w-1], 0.0
	if d > 0 {
		dd = dom.d[d-1]
	}
	tracked := downClosure(all)
	kd := &Kind{Name: "merged joint.Core" + desc, Class: "merged joint.Core", Arity: v, Window: wd, Decay: dd}
	bad := badTuples(all, v)
	kd.New = func() (*Inst, error) { return jcoreInst(core, tracked, bad, v), nil }
	kd.Model = func(h *Hist) []Expect { return jcoreModel(h, tracked, bad, v, wd, dd) }
	k.runHist(kd, histOpts{Len: 12})
}

func momentMerge(k *Case, dom mergeDom, specs []mergeSpec) {
	var cfgs []*moment.CoreConfig
	var ws, ds []int
	maxK := 0
	desc := fmt.Sprintf(" from windows %v and decays %v", dom.w, dom.d)
	for _, s := range specs {
		c := &moment.CoreConfig{}
		var ks []int
		for _, t := range s.sums {
			if c.Sums == nil {
				c.Sums = moment.SumsConfig{}
			}
			x := 1
			for _, e := range t {
				x += e
			}
			c.Sums[x] = true
			ks = append(ks, x)
			if x > maxK {
				maxK = x
			}
		}
		desc += fmt.Sprintf(" {sums %v window %d decay %d}", ks, s.window, s.decay)
		if s.window > 0 {
			c.Window = stream.IntPtr(dom.w[s.window-1])
		}
		if s.decay > 0 {
			c.Decay = stream.FloatPtr(dom.d[s.decay-1])
		}
		ws, ds = append(ws, s.window), append(ds, s.decay)
		cfgs = append(cfgs, c)
	}
	k.logf("moment merge:%s", desc)
	var cfg *moment.CoreConfig
	err, p := attempt(func() error { var err error; cfg, err = moment.MergeConfigs(cfgs...); return err })
	if p != nil {
		k.Fail("moment.MergeConfigs/panic", "MergeConfigs panicked: %v (%s)", p, desc)
	}
	k.Eval(len(specs) > 1, "moment", desc)
	k.Count("merges", 1)
	if !agree(ws) || !agree(ds) {
		k.Count("disagreeing_merges", 1)
		if err == nil {
			k.Fail("moment.MergeConfigs/accepted", "disagreeing configurations were merged:%s", desc)
		}
		return
	}
	if err != nil {
		k.Fail("moment.MergeConfigs/rejected", "agreeing configurations were refused: %v (%s)", err, desc)
	}
	w, d := firstSet(ws), firstSet(ds)
	core, err := moment.NewCore(cfg)
	if w == 0 || d > 0 && dom.w[w-1] != 0 {
		if err == nil {
			k.Fail("moment.NewCore/accepted", "a core was made from an unusable merged configuration:%s", desc)
		}
		return
	}
	if err != nil {
		k.Fail("moment.NewCore/rejected", "NewCore refused a merged configuration: %v (%s)", err, desc)
	}
	wd, dd := dom.w[w-1], 0.0
	if d > 0 {
		dd = dom.d[d-1]
	}
	kd := &Kind{Name: "merged moment.Core" + desc, Class: "merged moment.Core", Arity: 1, Window: wd, Decay: dd}
	kd.New = func() (*Inst, error) { return coreInst(core, maxK), nil }
	kd.Model = func(h *Hist) []Expect { return coreModel(h, maxK, wd, dd) }
	k.runHist(kd, histOpts{Len: 12})
}

// metricMerge merges the configurations that metrics ask for, all of them obtained first.
func metricMerge(k *Case) {
	r := k.Rng
	n := 2 + r.Intn(3)
	w0, d0 := r.Intn(3), r.Intn(2)
	joints := r.Intn(2) == 0
	dom := randMergeDom(r)
	var ws, ds []int
	var names []string
	var mcs []*moment.CoreConfig
	var jcs []*joint.CoreConfig
	var before []string
	show := func(sums interface{}, w *int, d *float64) string {
		s := fmt.Sprint(sums)
		if w != nil {
			s += fmt.Sprintf(" window %d", *w)
		}
		if d != nil {
			s += fmt.Sprintf(" decay %v", *d)
		}
		return s
	}
	for i := 0; i < n; i++ {
		wi, di := w0, 0
		if r.Intn(5) == 0 {
			wi = r.Intn(3)
		}
		if w0 == 0 && r.Intn(2) == 0 {
			wi, di = 0, 1+d0
			if r.Intn(5) == 0 {
				di = 1 + r.Intn(2)
			}
		}
		w := dom.w[wi]
		if joints {
			var m joint.CoreWrapper
			switch x := r.Intn(4); {
			case di > 0 && x < 2:
				m = joint.NewEWMCov(dom.d[di-1])
			case di > 0:
				m = joint.NewEWMCorr(dom.d[di-1])
			case x == 0:
				m = joint.NewCorr(w)
			case x == 1:
				m, _ = joint.NewAutocov(r.Intn(4), w)
			case x == 2:
				m, _ = joint.NewAutocorr(r.Intn(4), w)
			default:
				m = joint.NewCov(w)
			}
			c := m.Config()
			jcs, before = append(jcs, c), append(before, show(c.Sums, c.Window, c.Decay))
			names = append(names, fmt.Sprint(m))
		} else {
			var m moment.CoreWrapper
			switch x := r.Intn(6); {
			case di > 0 && x < 2:
				m = moment.NewEWMA(dom.d[di-1])
			case di > 0 && x < 4:
				m = moment.NewEWMMoment(1+r.Intn(5), dom.d[di-1])
			case di > 0:
				m = moment.NewEWMStd(dom.d[di-1])
			case x == 0:
				m = moment.NewMean(w)
			case x == 1:
				m = moment.NewStd(w)
			case x == 2:
				m = moment.NewSkewness(w)
			case x == 3:
				m = moment.NewKurtosis(w)
			default:
				m = moment.New(1+r.Intn(6), w)
			}
			c := m.Config()
			mcs, before = append(mcs, c), append(before, show(c.Sums, c.Window, c.Decay))
			names = append(names, fmt.Sprint(m))
		}
		ws, ds = append(ws, wi+1), append(ds, di)
	}
	desc := fmt.Sprintf("%v", names)
	k.logf("merge of the configurations of %s", desc)
	merge := func() error {
		if joints {
			_, err := joint.MergeConfigs(jcs...)
			return err
		}
		_, err := moment.MergeConfigs(mcs...)
		return err
	}
	same := func(when string) {
		for i := range before {
			var now string
			if joints {
				now = show(jcs[i].Sums, jcs[i].Window, jcs[i].Decay)
			} else {
				now = show(mcs[i].Sums, mcs[i].Window, mcs[i].Decay)
			}
			if now != before[i] {
				k.Fail("Config/changed", "the configuration of %s was {%s} and is {%s} %s", names[i], before[i], now, when)
			}
		}
	}
	same("after other metrics were asked for theirs")
	err, p := attempt(merge)
	if p != nil {
		k.Fail("MergeConfigs/panic", "MergeConfigs panicked on the configurations of %s: %v", desc, p)
	}
	k.Eval(true, "metrics", desc)
	k.Count("metric_merges", 1)
	ok := agree(ws) && agree(ds)
	if ok && err != nil {
		k.Fail("MergeConfigs/rejected", "the configurations of %s agree but were refused: %v", desc, err)
	}
	if !ok {
		k.Count("disagreeing_merges", 1)
		if err == nil {
			k.Fail("MergeConfigs/accepted", "the configurations of %s disagree but were merged", desc)
		}
	}
	same("after merging")
}

func init() {
	register("C17", "tables of invalid and valid parameters over every constructor, option, configuration and query argument (boundaries, extremes, NaN and infinities, every position of a bad tuple), metrics before and after Init, wrong numbers of values in every state, and queries before enough values; each evaluation is one call that must fail without panicking or must succeed; distinct by call", func(c *Ctx) {
		c.Case("windows", validWindows)
		c.Case("decays", validDecays)
		for i := 0; i < c.N(4, 60); i++ {
			c.Case(fmt.Sprintf("cores-%d", i), validCores)
			c.Case(fmt.Sprintf("quantiles-%d", i), validQuantiles)
		}
		for i := 0; i < c.N(630, 3000); i++ {
			i := i
			c.Case(fmt.Sprintf("arity-%d", i), func(k *Case) { validArity(k, i) })
		}
	})
	register("C19", "seeded sets of configurations merged in any order: success exactly when set windows, decays, variable counts and tuple lengths agree, and the core made from the result compared with the reference for every requested sum after every push; sets of metrics sharing one such core, fed and cleared through the core or one of the metrics, compared with the reference of each metric on its own; non-trivial: several configurations or values, distinct by configurations and answers", func(c *Ctx) {
		for i := 0; i < c.N(6000, 25000); i++ {
			i := i
			c.Case(fmt.Sprintf("merge-%d", i), func(k *Case) { mergeCase(k, i) })
		}
		for i := 0; i < c.N(2400, 10000); i++ {
			c.Case(fmt.Sprintf("metrics-%d", i), metricMerge)
		}
		for i := 0; i < c.N(2000, 8000); i++ {
			c.Case(fmt.Sprintf("shared-%d", i), func(k *Case) {
				l := 40 + k.Rng.Intn(160)
				k.runHist(kindShared(k.Rng, 33), histOpts{Len: l, ClearProb: 1.5 / float64(l)})
			})
		}
	})
}

// setCore asks a metric whether it has a core.
func setCore(m interface{}) func() bool {
	return func() bool {
		x, ok := m.(interface{ IsSetCore() bool })
		return ok && x.IsSetCore()
	}
}
