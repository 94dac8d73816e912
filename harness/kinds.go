package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/skiplist"
)

func fmtF(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

func fmtFs(xs []float64) string {
	if len(xs) > 40 {
		return fmt.Sprintf("%s…(%d values)", fmtFs(xs[:40]), len(xs))
	}
	ss := make([]string, len(xs))
	for i, x := range xs {
		ss[i] = fmtF(x)
	}
	return "[" + strings.Join(ss, " ") + "]"
}

// Inst is a live metric behind uniform accessors.
type Inst struct {
	Push  func(xs ...float64) error
	Snap  func() []Obs // every query, in the order of the model's expectations
	Clear func()
	Str   func() string
	Bad   []func() error // calls that must fail because of their arguments
	Ops   []func()       // further pure queries (String, Config, IsSetCore, ...)
	Root  interface{}
	Qs    []Query // the queries of Snap one by one; nil when Snap is a single call
}

// Query is one call, answering the expectations Idx of the model.
type Query struct {
	Label string
	Idx   []int
	Run   func() []Obs
}

// queries lists the single calls that make up a snapshot.
func (in *Inst) queries(kd *Kind) []Query {
	if in.Qs != nil {
		return in.Qs
	}
	q := Query{Label: "Value", Run: in.Snap}
	for i := range kd.Model(&Hist{}) {
		q.Idx = append(q.Idx, i)
	}
	return []Query{q}
}

func q1(label string, idx int, f func() (float64, error)) Query {
	return Query{label, []int{idx}, func() []Obs {
		v, err := f()
		return []Obs{obs1(label, v, err)}
	}}
}

// Kind is a metric with fixed parameters, and the reference for it.
type Kind struct {
	Name   string // kind and parameters
	Class  string // Min, Quantile, ...
	Arity  int
	Window int
	Lag    int
	Decay  float64
	New    func() (*Inst, error)
	Model  func(h *Hist) []Expect
}

func (kd *Kind) make() *Inst {
	in, err := kd.New()
	if err != nil {
		panic(fmt.Sprintf("%s: constructor failed with valid parameters: %v", kd.Name, err))
	}
	return in
}

func errExpect(labels ...string) []Expect {
	es := make([]Expect, len(labels))
	for i, l := range labels {
		es[i] = wantErr(l)
	}
	return es
}

func obs1(label string, v float64, err error) Obs { return Obs{Label: label, V: v, Err: err} }

// simpleInst adapts a univariate single-value metric.
func simpleInst(m stream.SimpleMetric) *Inst {
	return &Inst{
		Push:  func(xs ...float64) error { return m.Push(xs[0]) },
		Snap:  func() []Obs { v, err := m.Value(); return []Obs{obs1("Value", v, err)} },
		Clear: m.Clear,
		Str:   m.String,
		Ops:   []func(){func() { _ = m.String() }},
		Root:  m,
	}
}

func jointInst(m stream.SimpleJointMetric) *Inst {
	bad := func(xs ...float64) func() error { return func() error { return m.Push(xs...) } }
	return &Inst{
		Push:  m.Push,
		Snap:  func() []Obs { v, err := m.Value(); return []Obs{obs1("Value", v, err)} },
		Clear: m.Clear,
		Str:   m.String,
		Ops:   []func(){func() { _ = m.String() }},
		Bad:   []func() error{bad(), bad(1), bad(1, 2, 3)},
		Root:  m,
	}
}

// ---- min/max ----

func kindMin(w int, max bool, global bool) *Kind {
	kd := &Kind{Class: "Min", Arity: 1, Window: w}
	if max {
		kd.Class = "Max"
	}
	kd.Name = fmt.Sprintf("%s(w=%d)", kd.Class, w)
	kd.New = func() (*Inst, error) {
		switch {
		case max && w == 0 && global:
			return simpleInst(minmax.NewGlobalMax()), nil
		case max:
			m, err := minmax.NewMax(w)
			if err != nil {
				return nil, err
			}
			return simpleInst(m), nil
		case w == 0 && global:
			return simpleInst(minmax.NewGlobalMin()), nil
		default:
			m, err := minmax.NewMin(w)
			if err != nil {
				return nil, err
			}
			return simpleInst(m), nil
		}
	}
	kd.Model = func(h *Hist) []Expect {
		if len(h.pts) == 0 {
			return errExpect("Value")
		}
		if w == 0 {
			if max {
				return []Expect{wantExact("Value", h.mx[0])}
			}
			return []Expect{wantExact("Value", h.mn[0])}
		}
		pts := h.last(w)
		x := pts[0][0]
		for _, p := range pts[1:] {
			if (max && p[0] > x) || (!max && p[0] < x) {
				x = p[0]
			}
		}
		return []Expect{wantExact("Value", x)}
	}
	return kd
}

// ---- quantiles ----

var implNames = []string{"AVL", "RedBlack", "SkipList"}
var interpNames = []string{"Linear", "Lower", "Higher", "Nearest", "Midpoint"}

var impls = []quantile.Impl{quantile.AVL, quantile.RedBlack, quantile.SkipList}
var interps = []quantile.Interpolation{quantile.Linear, quantile.Lower, quantile.Higher, quantile.Nearest, quantile.Midpoint}

// implOpt picks an implementation option; skip lists get varied parameters.
func implOpt(r *rand.Rand, impl int) (func() quantile.Option, string) {
	if impl != 2 {
		return func() quantile.Option { return quantile.ImplOption(impls[impl]) }, implNames[impl]
	}
	mk, name := skipOpts(r)
	return func() quantile.Option { return quantile.ImplOption(quantile.SkipList, mk()...) }, name
}

// fastLists keeps skip lists to parameters under which they are fast, for large cases.
var fastLists bool

// skipOpts varies max level, probability and the random source, hostile ones included.
func skipOpts(r *rand.Rand) (func() []order.Option, string) {
	lv := []int{0, 1, 2, 3, 5, 12, 33, 64}[r.Intn(8)]
	p := []float64{0, 0.01, 0.25, 0.5, 0.75, 0.99}[r.Intn(6)]
	src := r.Intn(4)
	if fastLists {
		lv, p, src = []int{0, 16, 33, 64}[r.Intn(4)], []float64{0, 0.25, 0.5}[r.Intn(3)], 3*r.Intn(2)
	}
	seed := r.Int63()
	name := fmt.Sprintf("SkipList[lv=%d p=%v src=%d]", lv, p, src)
	return func() []order.Option {
		var os []order.Option
		if lv > 0 {
			os = append(os, skiplist.MaxLevelOption(lv))
		}
		if p > 0 {
			os = append(os, skiplist.ProbabilityOption(p))
		}
		switch src {
		case 0:
			os = append(os, skiplist.RandOption(rand.New(rand.NewSource(seed))))
		case 1: // always the top level
			os = append(os, skiplist.RandOption(rand.New(constSource(0))))
		case 2: // alternates tall and flat
			os = append(os, skiplist.RandOption(rand.New(&flipSource{})))
		}
		return os
	}, name
}

type constSource int64

func (c constSource) Int63() int64 { return int64(c) }
func (c constSource) Seed(int64)   {}

type flipSource struct{ n int64 }

func (f *flipSource) Int63() int64 {
	f.n++
	if f.n%2 == 0 {
		return 0
	}
	return (f.n % 7) << 60 >> 1
}
func (f *flipSource) Seed(int64) {}

var basePhis = []float64{0.001, 0.01, 0.1, 0.25, 1. / 3, 0.5, 0.6, 0.75, 0.9, 0.99, 0.999}

func phiLabel(p float64) string { return "Value(" + fmtF(p) + ")" }

// turns makes successive snapshots of an instance ask their questions forwards and backwards in
// turn, so that each question is sometimes the last before a push and the first after it.
type turns struct{ n uint32 }

func (t *turns) each(n int, ask func(i int) Obs) []Obs {
	os := make([]Obs, n)
	back := atomic.AddUint32(&t.n, 1)%2 == 0
	for i := range os {
		j := i
		if back {
			j = n - 1 - i
		}
		os[j] = ask(j)
	}
	return os
}

func quantileInst(q *quantile.Quantile, phis []float64) *Inst {
	badPhi := func(p float64) func() error {
		return func() error { _, err := q.Value(p); return err }
	}
	t := &turns{}
	var qs []Query
	for i, p := range phis {
		p := p
		qs = append(qs, q1(phiLabel(p), i, func() (float64, error) { return q.Value(p) }))
	}
	return &Inst{
		Qs:   qs,
		Push: func(xs ...float64) error { return q.Push(xs[0]) },
		Snap: func() []Obs {
			return t.each(len(phis), func(i int) Obs {
				v, err := q.Value(phis[i])
				return obs1(phiLabel(phis[i]), v, err)
			})
		},
		Clear: q.Clear,
		Str:   q.String,
		Ops:   []func(){func() { _ = q.String() }},
		Bad: []func() error{badPhi(0), badPhi(1), badPhi(-0.5), badPhi(1.5), badPhi(math.Inf(1)), badPhi(math.Inf(-1)),
			badPhi(math.NaN())},
		Root: q,
	}
}

func sortedCol(pts [][]float64) []float64 {
	s := make([]float64, len(pts))
	for i, p := range pts {
		s[i] = p[0]
	}
	return sortedCopy(s)
}

func kindQuantile(r *rand.Rand, w, impl, interp int, phis []float64) *Kind {
	kd := &Kind{Class: "Quantile", Arity: 1, Window: w}
	io, iname := implOpt(r, impl)
	deflt := impl == 0 && interp == 0 && r.Intn(2) == 0 // rely on the documented defaults
	swap := r.Intn(2) == 0
	kd.Name = fmt.Sprintf("Quantile(w=%d %s %s)", w, iname, interpNames[interp])
	kd.New = func() (*Inst, error) {
		opts := []quantile.Option{io(), quantile.InterpolationOption(interps[interp])}
		if swap {
			opts[0], opts[1] = opts[1], opts[0]
		}
		if deflt {
			opts = nil
		}
		var q *quantile.Quantile
		var err error
		if w == 0 && swap {
			q, err = quantile.NewGlobalQuantile(opts...)
		} else {
			q, err = quantile.New(w, opts...)
		}
		if err != nil {
			return nil, err
		}
		return quantileInst(q, phis), nil
	}
	kd.Model = func(h *Hist) []Expect {
		var es []Expect
		if len(h.pts) == 0 {
			for _, p := range phis {
				es = append(es, wantErr(phiLabel(p)))
			}
			return es
		}
		s := sortedCol(h.last(w))
		for _, p := range phis {
			es = append(es, refQuantile(phiLabel(p), s, p, interp))
		}
		return es
	}
	return kd
}

func kindMedian(r *rand.Rand, w, impl int, iqr bool) *Kind {
	kd := &Kind{Class: "Median", Arity: 1, Window: w}
	if iqr {
		kd.Class = "IQR"
	}
	io, iname := implOpt(r, impl)
	kd.Name = fmt.Sprintf("%s(w=%d %s)", kd.Class, w, iname)
	extra := r.Intn(2) == 0 // a user-given interpolation is overridden by the documented Midpoint
	global := r.Intn(2) == 0
	kd.New = func() (*Inst, error) {
		opts := []quantile.Option{io()}
		if extra {
			opts = append(opts, quantile.InterpolationOption(quantile.Lower))
		}
		if iqr {
			var m *quantile.IQR
			var err error
			if w == 0 && global {
				m, err = quantile.NewGlobalIQR(opts...)
			} else {
				m, err = quantile.NewIQR(w, opts...)
			}
			if err != nil {
				return nil, err
			}
			return simpleInst(m), nil
		}
		var m *quantile.Median
		var err error
		if w == 0 && global {
			m, err = quantile.NewGlobalMedian(opts...)
		} else {
			m, err = quantile.NewMedian(w, opts...)
		}
		if err != nil {
			return nil, err
		}
		return simpleInst(m), nil
	}
	kd.Model = func(h *Hist) []Expect {
		if len(h.pts) == 0 {
			return errExpect("Value")
		}
		s := sortedCol(h.last(w))
		if !iqr {
			return []Expect{refQuantile("Value", s, 0.5, 4)}
		}
		a := refQuantile("q25", s, 0.25, 4)
		b := refQuantile("q75", s, 0.75, 4)
		e := Expect{Label: "Value"}
		for _, x := range a.Alts {
			for _, y := range b.Alts {
				e.Alts = append(e.Alts, y-x)
				e.Slack = math.Max(e.Slack, a.Slack+b.Slack+4*eps*(math.Abs(x)+math.Abs(y)))
			}
		}
		return []Expect{e}
	}
	return kd
}

func kindHeapMedian(w int, global bool) *Kind {
	kd := &Kind{Class: "HeapMedian", Arity: 1, Window: w, Name: fmt.Sprintf("HeapMedian(w=%d)", w)}
	kd.New = func() (*Inst, error) {
		if w == 0 && global {
			return simpleInst(quantile.NewGlobalHeapMedian()), nil
		}
		m, err := quantile.NewHeapMedian(w)
		if err != nil {
			return nil, err
		}
		return simpleInst(m), nil
	}
	kd.Model = func(h *Hist) []Expect {
		if len(h.pts) == 0 {
			return errExpect("Value")
		}
		return []Expect{refHeapMedian(sortedCol(h.last(w)))}
	}
	return kd
}

// ---- moments ----

func momentKind(class, name string, w int, decay float64, mk func() moment.Metric, ref func(b *batch) Expect) *Kind {
	kd := &Kind{Class: class, Name: name, Arity: 1, Window: w, Decay: decay}
	kd.New = func() (*Inst, error) {
		m := mk()
		if err := initMoment(m); err != nil {
			return nil, err
		}
		in := simpleInst(m)
		in.Ops = append(in.Ops, func() { _ = m.Config() })
		return in, nil
	}
	kd.Model = func(h *Hist) []Expect {
		if len(h.pts) == 0 {
			return errExpect("Value")
		}
		return []Expect{ref(newBatch(h, w, decay))}
	}
	return kd
}

func kindMean(w int) *Kind {
	return momentKind("Mean", fmt.Sprintf("Mean(w=%d)", w), w, 0,
		func() moment.Metric {
			if w == 0 {
				return moment.NewGlobalMean()
			}
			return moment.NewMean(w)
		},
		func(b *batch) Expect { return want("Value", b.mean(0)) })
}

func kindMoment(k, w int) *Kind {
	return momentKind("Moment", fmt.Sprintf("Moment(k=%d w=%d)", k, w), w, 0,
		func() moment.Metric {
			if w == 0 {
				return moment.NewGlobal(k)
			}
			return moment.New(k, w)
		},
		func(b *batch) Expect { return refMoment(b, k) })
}

func kindStd(w int) *Kind {
	return momentKind("Std", fmt.Sprintf("Std(w=%d)", w), w, 0,
		func() moment.Metric {
			if w == 0 {
				return moment.NewGlobalStd()
			}
			return moment.NewStd(w)
		}, refStd)
}

func kindSkew(w int) *Kind {
	return momentKind("Skewness", fmt.Sprintf("Skewness(w=%d)", w), w, 0,
		func() moment.Metric {
			if w == 0 {
				return moment.NewGlobalSkewness()
			}
			return moment.NewSkewness(w)
		}, refSkew)
}

func kindKurt(w int) *Kind {
	return momentKind("Kurtosis", fmt.Sprintf("Kurtosis(w=%d)", w), w, 0,
		func() moment.Metric {
			if w == 0 {
				return moment.NewGlobalKurtosis()
			}
			return moment.NewKurtosis(w)
		}, refKurt)
}

func kindEWMA(d float64) *Kind {
	return momentKind("EWMA", fmt.Sprintf("EWMA(d=%v)", d), 0, d,
		func() moment.Metric { return moment.NewEWMA(d) },
		func(b *batch) Expect { return want("Value", b.mean(0)) })
}

func kindEWMMoment(k int, d float64) *Kind {
	return momentKind("EWMMoment", fmt.Sprintf("EWMMoment(k=%d d=%v)", k, d), 0, d,
		func() moment.Metric { return moment.NewEWMMoment(k, d) },
		func(b *batch) Expect { return want("Value", b.sum([]int{k})) })
}

func kindEWMStd(d float64) *Kind {
	return momentKind("EWMStd", fmt.Sprintf("EWMStd(d=%v)", d), 0, d,
		func() moment.Metric { return moment.NewEWMStd(d) },
		func(b *batch) Expect { return want("Value", b.sum([]int{2}).sqrt()) })
}

func coreConfig(ks []int, w int, d float64) *moment.CoreConfig {
	cfg := &moment.CoreConfig{Window: stream.IntPtr(w)}
	if len(ks) > 0 {
		cfg.Sums = moment.SumsConfig{}
		for _, k := range ks {
			cfg.Sums[k] = true
		}
	}
	if d > 0 {
		cfg.Decay = stream.FloatPtr(d)
	}
	return cfg
}

// kindCore is a bare univariate core tracking sums up to maxK (decaying when d > 0).
func kindCore(ks []int, w int, d float64) *Kind {
	maxK := 0
	for _, k := range ks {
		if k > maxK {
			maxK = k
		}
	}
	kd := &Kind{Class: "moment.Core", Arity: 1, Window: w, Decay: d}
	kd.Name = fmt.Sprintf("Core(sums=%v w=%d d=%v)", ks, w, d)
	kd.New = func() (*Inst, error) {
		c, err := moment.NewCore(coreConfig(ks, w, d))
		if err != nil {
			return nil, err
		}
		return coreInst(c, maxK), nil
	}
	kd.Model = func(h *Hist) []Expect { return coreModel(h, maxK, w, d) }
	return kd
}

func coreInst(c *moment.Core, maxK int) *Inst {
	bad := func(k int) func() error {
		return func() error { _, err := c.Sum(k); return err }
	}
	t := &turns{}
	qs := []Query{q1("Count", 0, func() (float64, error) { return float64(c.Count()), nil }), q1("Mean", 1, c.Mean)}
	for k := 1; k <= maxK; k++ {
		k := k
		qs = append(qs, q1(fmt.Sprintf("Sum(%d)", k), 1+k, func() (float64, error) { return c.Sum(k) }))
	}
	return &Inst{
		Qs:   qs,
		Push: func(xs ...float64) error { return c.Push(xs[0]) },
		Snap: func() []Obs {
			m, err := c.Mean()
			os := []Obs{{"Count", float64(c.Count()), nil}, {"Mean", m, err}}
			return append(os, t.each(maxK+4, func(i int) Obs {
				k := i + 1
				if i >= maxK {
					k = []int{-1, 0, maxK + 1, 1 << 40}[i-maxK]
				}
				v, err := c.Sum(k)
				return obs1(fmt.Sprintf("Sum(%d)", k), v, err)
			})...)
		},
		Clear: c.Clear,
		Bad:   []func() error{bad(0), bad(-3), bad(maxK + 1)},
		Root:  c,
	}
}

func coreModel(h *Hist, maxK, w int, d float64) []Expect {
	b := newBatch(h, w, d)
	es := []Expect{wantExact("Count", float64(b.n))}
	if b.n == 0 {
		es = append(es, wantErr("Mean"))
		for k := 1; k <= maxK; k++ {
			es = append(es, wantErr(fmt.Sprintf("Sum(%d)", k)))
		}
	} else {
		es = append(es, want("Mean", b.mean(0)))
		for k := 1; k <= maxK; k++ {
			es = append(es, want(fmt.Sprintf("Sum(%d)", k), b.sum([]int{k})))
		}
	}
	for _, k := range []int{-1, 0, maxK + 1, 1 << 40} {
		es = append(es, wantErr(fmt.Sprintf("Sum(%d)", k)))
	}
	return es
}

// deferInit, when set, receives the Init calls that kinds would make at once, so that a case
// can put other calls between the creation and the initialisation of metrics.
var deferInit func(func() error)

func initMoment(m moment.Metric) error {
	if deferInit != nil {
		deferInit(func() error { return moment.Init(m) })
		return nil
	}
	return moment.Init(m)
}

func initJoint(m joint.CoreWrapper) error {
	if deferInit != nil {
		deferInit(func() error { return joint.Init(m) })
		return nil
	}
	return joint.Init(m)
}

// ---- joint ----

func jointKind(class, name string, w int, d float64, mk func() joint.Metric, ref func(b *batch) Expect) *Kind {
	kd := &Kind{Class: class, Name: name, Arity: 2, Window: w, Decay: d}
	kd.New = func() (*Inst, error) {
		m := mk()
		if err := initJoint(m); err != nil {
			return nil, err
		}
		in := jointInst(m)
		in.Ops = append(in.Ops, func() { _ = m.Config() })
		return in, nil
	}
	kd.Model = func(h *Hist) []Expect {
		if len(h.pts) == 0 {
			return errExpect("Value")
		}
		return []Expect{ref(newBatch(h, w, d))}
	}
	return kd
}

func kindCov(w int) *Kind {
	return jointKind("Cov", fmt.Sprintf("Cov(w=%d)", w), w, 0, func() joint.Metric {
		if w == 0 {
			return joint.NewGlobalCov()
		}
		return joint.NewCov(w)
	}, refCov)
}

func kindCorr(w int) *Kind {
	return jointKind("Corr", fmt.Sprintf("Corr(w=%d)", w), w, 0, func() joint.Metric {
		if w == 0 {
			return joint.NewGlobalCorr()
		}
		return joint.NewCorr(w)
	}, refCorr)
}

func kindEWMCov(d float64) *Kind {
	return jointKind("EWMCov", fmt.Sprintf("EWMCov(d=%v)", d), 0, d,
		func() joint.Metric { return joint.NewEWMCov(d) },
		func(b *batch) Expect { return want("Value", b.sum([]int{1, 1})) })
}

func kindEWMCorr(d float64) *Kind {
	return jointKind("EWMCorr", fmt.Sprintf("EWMCorr(d=%v)", d), 0, d,
		func() joint.Metric { return joint.NewEWMCorr(d) }, refCorr)
}

func lagHist(h *Hist, lag int) *Hist {
	g := &Hist{extra: h.extra, rep: h.rep}
	if len(h.pts) == 0 {
		return g
	}
	g.mn = []float64{h.mn[0], h.mn[0]}
	g.mx = []float64{h.mx[0], h.mx[0]}
	for i := lag; i < len(h.pts); i++ {
		g.pts = append(g.pts, []float64{h.pts[i][0], h.pts[i-lag][0]})
	}
	return g
}

func kindAuto(lag, w int, corr bool) *Kind {
	kd := &Kind{Class: "Autocov", Arity: 1, Window: w, Lag: lag}
	if corr {
		kd.Class = "Autocorr"
	}
	kd.Name = fmt.Sprintf("%s(lag=%d w=%d)", kd.Class, lag, w)
	kd.New = func() (*Inst, error) {
		if corr {
			var m *joint.Autocorr
			var err error
			if w == 0 {
				m, err = joint.NewGlobalAutocorr(lag)
			} else {
				m, err = joint.NewAutocorr(lag, w)
			}
			if err != nil {
				return nil, err
			}
			if err := initJoint(m); err != nil {
				return nil, err
			}
			return simpleInst(m), nil
		}
		var m *joint.Autocov
		var err error
		if w == 0 {
			m, err = joint.NewGlobalAutocov(lag)
		} else {
			m, err = joint.NewAutocov(lag, w)
		}
		if err != nil {
			return nil, err
		}
		if err := initJoint(m); err != nil {
			return nil, err
		}
		return simpleInst(m), nil
	}
	kd.Model = func(h *Hist) []Expect {
		g := lagHist(h, lag)
		if len(g.pts) == 0 {
			return errExpect("Value")
		}
		b := newBatch(g, w, 0)
		b.N = len(h.pts) + h.extra
		if corr {
			return []Expect{refCorr(b)}
		}
		return []Expect{refCov(b)}
	}
	return kd
}

// kindJCore is a bare multivariate core.
func kindJCore(tuples [][]int, vars, w int, d float64, setVars bool) *Kind {
	kd := &Kind{Class: "joint.Core", Arity: vars, Window: w, Decay: d}
	kd.Name = fmt.Sprintf("JointCore(sums=%v vars=%d w=%d d=%v)", tuples, vars, w, d)
	tracked := downClosure(tuples)
	bad := badTuples(tuples, vars)
	kd.New = func() (*Inst, error) {
		c, err := joint.NewCore(jcoreConfig(tuples, vars, w, d, setVars))
		if err != nil {
			return nil, err
		}
		return jcoreInst(c, tracked, bad, vars), nil
	}
	kd.Model = func(h *Hist) []Expect { return jcoreModel(h, tracked, bad, vars, w, d) }
	return kd
}

func jcoreConfig(tuples [][]int, vars, w int, d float64, setVars bool) *joint.CoreConfig {
	cfg := &joint.CoreConfig{Window: stream.IntPtr(w)}
	for _, t := range tuples {
		cfg.Sums = append(cfg.Sums, joint.Tuple(append([]int(nil), t...)))
	}
	if setVars || len(tuples) == 0 {
		cfg.Vars = stream.IntPtr(vars)
	}
	if d > 0 {
		cfg.Decay = stream.FloatPtr(d)
	}
	return cfg
}

func jcoreInst(c *joint.Core, tracked, bad [][]int, vars int) *Inst {
	sum := func(t []int) func() error {
		return func() error { _, err := c.Sum(t...); return err }
	}
	turn := &turns{}
	in := &Inst{
		Push: c.Push,
		Snap: func() []Obs {
			os := []Obs{{"Count", float64(c.Count()), nil}}
			for v := -1; v <= vars; v++ {
				m, err := c.Mean(v)
				os = append(os, obs1(fmt.Sprintf("Mean(%d)", v), m, err))
			}
			return append(os, turn.each(len(tracked)+len(bad), func(i int) Obs {
				var t []int
				if i < len(tracked) {
					t = tracked[i]
				} else {
					t = bad[i-len(tracked)]
				}
				x, err := c.Sum(t...)
				return obs1(fmt.Sprintf("Sum%v", t), x, err)
			})...)
		},
		Clear: c.Clear,
		Root:  c,
	}
	in.Qs = []Query{q1("Count", 0, func() (float64, error) { return float64(c.Count()), nil })}
	for v := 0; v < vars; v++ {
		v := v
		in.Qs = append(in.Qs, q1(fmt.Sprintf("Mean(%d)", v), 2+v, func() (float64, error) { return c.Mean(v) }))
	}
	for i, t := range tracked {
		t := t
		in.Qs = append(in.Qs, q1(fmt.Sprintf("Sum%v", t), 3+vars+i, func() (float64, error) { return c.Sum(t...) }))
	}
	for _, t := range bad {
		in.Bad = append(in.Bad, sum(t))
	}
	for n := 0; n <= vars+1; n++ {
		if n == vars {
			continue
		}
		xs := make([]float64, n)
		for i := range xs {
			xs[i] = float64(i) + 0.5
		}
		in.Bad = append(in.Bad, func() error { return c.Push(xs...) })
	}
	in.Bad = append(in.Bad, func() error { _, err := c.Mean(-1); return err },
		func() error { _, err := c.Mean(vars); return err })
	return in
}

func jcoreModel(h *Hist, tracked, bad [][]int, vars, w int, d float64) []Expect {
	b := newBatch(h, w, d)
	es := []Expect{wantExact("Count", float64(b.n))}
	es = append(es, wantErr("Mean(-1)"))
	for v := 0; v < vars; v++ {
		l := fmt.Sprintf("Mean(%d)", v)
		if b.n == 0 {
			es = append(es, wantErr(l))
		} else {
			es = append(es, want(l, b.mean(v)))
		}
	}
	es = append(es, wantErr(fmt.Sprintf("Mean(%d)", vars)))
	for _, t := range tracked {
		l := fmt.Sprintf("Sum%v", t)
		abs := 0
		for _, e := range t {
			abs += e
		}
		switch {
		case b.n == 0:
			es = append(es, wantErr(l))
		case abs == 0:
			// "every tuple below a configured one": the all-zero tuple is no moment; its value is unspecified
			es = append(es, wantSkip(l))
		default:
			es = append(es, want(l, b.sum(t)))
		}
	}
	for _, t := range bad {
		es = append(es, wantErr(fmt.Sprintf("Sum%v", t)))
	}
	return es
}

// downClosure lists the non-zero tuples component-wise at most some given one.
func downClosure(tuples [][]int) [][]int {
	seen := map[string]bool{}
	var out [][]int
	for _, t := range tuples {
		cur := make([]int, len(t))
		for {
			key := fmt.Sprint(cur)
			zero := true
			for _, e := range cur {
				if e != 0 {
					zero = false
				}
			}
			if !seen[key] && !zero {
				seen[key] = true
				out = append(out, append([]int(nil), cur...))
			}
			i := 0
			for ; i < len(t); i++ {
				if cur[i] < t[i] {
					cur[i]++
					break
				}
				cur[i] = 0
			}
			if i == len(t) {
				break
			}
		}
	}
	return out
}

func dominated(t []int, tuples [][]int) bool {
	for _, u := range tuples {
		if len(u) != len(t) {
			continue
		}
		ok := true
		for i := range t {
			if t[i] > u[i] || t[i] < 0 {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// badTuples lists queries that ask for nothing that is tracked: too large, negative, or of the
// wrong length. Exponents of 31 and more with the right length are left out (the package
// documents that collisions are possible there).
func badTuples(tuples [][]int, vars int) [][]int {
	var out [][]int
	add := func(t []int) {
		if !dominated(t, tuples) {
			out = append(out, append([]int(nil), t...))
		}
	}
	big := make([]int, vars)
	for i := range big {
		big[i] = 7
	}
	add(big)
	for i := 0; i < vars; i++ {
		t := make([]int, vars)
		t[i] = 5
		add(t)
		if i > 0 {
			t = make([]int, vars)
			t[i], t[i-1] = -30, 1 // 31*1-30 = 1
			add(t)
		}
	}
	add(nil)
	add([]int{1})
	add([]int{2})
	add([]int{62})
	for _, t := range tuples {
		add(append([]int{0}, t...))
		add(append(append([]int{}, t...), 0))
		if len(t) > 2 {
			add(t[1:])
		}
	}
	return out
}

// randTuples draws a set of exponent tuples over vars variables.
func randTuples(r *rand.Rand, vars int) [][]int {
	n := 1 + r.Intn(4)
	limit, top := 5, 3
	switch r.Intn(6) {
	case 0:
		limit, top = 8, 6
	case 1:
		if r.Intn(3) == 0 { // exponents are documented to be safe below 31
			limit, top = 14, 13
		}
	}
	var ts [][]int
	for len(ts) < n {
		t := make([]int, vars)
		abs, below := 0, 1
		for i := range t {
			t[i] = r.Intn(3)
			if r.Intn(4) == 0 {
				t[i] = r.Intn(top + 1)
			}
			abs += t[i]
			below *= t[i] + 1
		}
		if abs == 0 || abs > limit || below > 100 {
			continue
		}
		ts = append(ts, t)
	}
	return ts
}

// ---- aggregates ----

func kindAgg(members []*Kind) *Kind {
	kd := &Kind{Class: "SimpleAggregate", Arity: 1}
	var names []string
	for _, m := range members {
		names = append(names, m.Name)
		if m.Window > kd.Window {
			kd.Window = m.Window
		}
	}
	kd.Name = "Aggregate(" + strings.Join(names, " ") + ")"
	kd.New = func() (*Inst, error) {
		var ms []stream.SimpleMetric
		for _, m := range members {
			in, err := m.New()
			if err != nil {
				return nil, err
			}
			ms = append(ms, in.Root.(stream.SimpleMetric))
		}
		a := aggregate.NewSimpleAggregateMetric(ms...)
		return &Inst{
			Push: func(xs ...float64) error { return a.Push(xs[0]) },
			Snap: func() []Obs {
				vals, err := a.Values()
				var os []Obs
				for i, m := range ms {
					os = append(os, aggObs(names[i], vals, err, m.String(), len(ms)))
				}
				return os
			},
			Clear: a.Clear,
			Root:  a,
		}, nil
	}
	kd.Model = aggModel(members)
	return kd
}

func aggObs(label string, vals map[string]float64, err error, key string, n int) Obs {
	if err != nil {
		return Obs{Label: label, Err: err}
	}
	v, ok := vals[key]
	if !ok {
		return Obs{Label: label, Err: fmt.Errorf("no entry %q in %v", key, vals)}
	}
	if len(vals) != n {
		return Obs{Label: label, V: math.NaN(), Err: fmt.Errorf("%d entries for %d members: %v", len(vals), n, vals)}
	}
	return Obs{Label: label, V: v}
}

func aggModel(members []*Kind) func(h *Hist) []Expect {
	return func(h *Hist) []Expect {
		var es []Expect
		anyErr := false
		for _, m := range members {
			e := m.Model(h)[0]
			e.Label = m.Name
			anyErr = anyErr || e.Err
			es = append(es, e)
		}
		if anyErr {
			for i := range es {
				es[i] = wantErr(es[i].Label)
			}
		}
		return es
	}
}

func kindJAgg(members []*Kind) *Kind {
	kd := &Kind{Class: "SimpleJointAggregate", Arity: 2}
	var names []string
	for _, m := range members {
		names = append(names, m.Name)
		if m.Window > kd.Window {
			kd.Window = m.Window
		}
	}
	kd.Name = "JointAggregate(" + strings.Join(names, " ") + ")"
	kd.New = func() (*Inst, error) {
		var ms []stream.SimpleJointMetric
		for _, m := range members {
			in, err := m.New()
			if err != nil {
				return nil, err
			}
			ms = append(ms, in.Root.(stream.SimpleJointMetric))
		}
		a := aggregate.NewSimpleJointAggregateMetric(ms...)
		return &Inst{
			Push: a.Push,
			Snap: func() []Obs {
				vals, err := a.Values()
				var os []Obs
				for i, m := range ms {
					os = append(os, aggObs(names[i], vals, err, m.String(), len(ms)))
				}
				return os
			},
			Clear: a.Clear,
			Bad:   []func() error{func() error { return a.Push(1) }, func() error { return a.Push(1, 2, 3) }, func() error { return a.Push() }},
			Root:  a,
		}, nil
	}
	kd.Model = aggModel(members)
	return kd
}

// ---- catalogue ----

var decays = []float64{0.001, 0.01, 0.1, 0.25, 1. / 3, 0.5, 0.7, 0.9, 0.99, 0.999}

// randKind draws a kind of a class with parameters; windows stay at most maxW.
func randKind(r *rand.Rand, class string, maxW int) *Kind {
	return kindW(r, class, randWindow(r, maxW), maxW)
}

// kindW is randKind with a given window.
func kindW(r *rand.Rand, class string, w, maxW int) *Kind {
	d := decays[r.Intn(len(decays))]
	switch class {
	case "Min":
		return kindMin(w, false, r.Intn(2) == 0)
	case "Max":
		return kindMin(w, true, r.Intn(2) == 0)
	case "Quantile":
		return kindQuantile(r, w, r.Intn(3), r.Intn(5), randPhis(r))
	case "Median":
		return kindMedian(r, w, r.Intn(3), false)
	case "IQR":
		return kindMedian(r, w, r.Intn(3), true)
	case "HeapMedian":
		return kindHeapMedian(w, r.Intn(2) == 0)
	case "Mean":
		return kindMean(w)
	case "Moment":
		return kindMoment(1+r.Intn(6), w)
	case "Std":
		return kindStd(w)
	case "Skewness":
		return kindSkew(w)
	case "Kurtosis":
		return kindKurt(w)
	case "moment.Core":
		return kindCore(randSums(r), w, 0)
	case "EWMA":
		return kindEWMA(d)
	case "EWMMoment":
		return kindEWMMoment(1+r.Intn(6), d)
	case "EWMStd":
		return kindEWMStd(d)
	case "ewm.Core":
		return kindCore(randSums(r), 0, d)
	case "Cov":
		return kindCov(w)
	case "Corr":
		return kindCorr(w)
	case "joint.Core":
		v := 2 + r.Intn(3)
		return kindJCore(randTuples(r, v), v, w, 0, r.Intn(2) == 0)
	case "EWMCov":
		return kindEWMCov(d)
	case "EWMCorr":
		return kindEWMCorr(d)
	case "ewm.joint.Core":
		v := 2 + r.Intn(3)
		return kindJCore(randTuples(r, v), v, 0, d, r.Intn(2) == 0)
	case "Autocov":
		return kindAuto(randLag(r), w, false)
	case "Autocorr":
		return kindAuto(randLag(r), w, true)
	case "SimpleAggregate":
		var ms []*Kind
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			c := simpleClasses[r.Intn(len(simpleClasses))]
			ms = append(ms, randKind(r, c, maxW))
		}
		return kindAgg(distinctKinds(ms))
	case "SimpleJointAggregate":
		var ms []*Kind
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			c := jointClasses[r.Intn(len(jointClasses))]
			ms = append(ms, randKind(r, c, maxW))
		}
		return kindJAgg(distinctKinds(ms))
	}
	panic("class " + class)
}

// distinctKinds drops members that would share a name (and so a key).
func distinctKinds(ms []*Kind) []*Kind {
	var out []*Kind
	seen := map[string]bool{}
	for _, m := range ms {
		s := m.make().Str()
		if !seen[s] {
			seen[s] = true
			out = append(out, m)
		}
	}
	return out
}

var simpleClasses = []string{"Min", "Max", "Median", "IQR", "HeapMedian", "Mean", "Moment", "Std", "Skewness", "Kurtosis",
	"EWMA", "EWMMoment", "EWMStd", "Autocov", "Autocorr"}

var jointClasses = []string{"Cov", "Corr", "EWMCov", "EWMCorr"}

var allClasses = append(append([]string{"Quantile", "moment.Core", "ewm.Core", "joint.Core", "ewm.joint.Core",
	"SimpleAggregate", "SimpleJointAggregate"}, simpleClasses...), jointClasses...)

var windows = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1024}

func randWindow(r *rand.Rand, maxW int) int {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1 + r.Intn(4)
	}
	for {
		w := windows[r.Intn(len(windows))]
		if w <= maxW {
			return w
		}
	}
}

func randLag(r *rand.Rand) int { return []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33}[r.Intn(11)] }

func randSums(r *rand.Rand) []int {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return []int{2}
	case 3:
		return []int{2, 4}
	case 4:
		return []int{1 + r.Intn(8)}
	default:
		return []int{1 + r.Intn(4), 1 + r.Intn(6)}
	}
}

func randPhis(r *rand.Rand) []float64 {
	ps := append([]float64(nil), basePhis...)
	for i := 0; i < 3; i++ {
		p := r.Float64()
		if p > 0 && p < 1 {
			ps = append(ps, p)
		}
	}
	if r.Intn(8) == 0 { // one fraction asked for again and again
		return ps[len(ps)-1:]
	}
	// fractions next to those that fall on a value of a window with n values
	n := 2 + r.Intn(70)
	p := float64(r.Intn(n)) / float64(n-1)
	for _, e := range []float64{0, 1e-7, 1e-10, 1e-12} {
		for _, q := range []float64{p - e, p + e} {
			if q > 0 && q < 1 {
				ps = append(ps, q)
			}
		}
	}
	for _, q := range []float64{math.Nextafter(p, 0), math.Nextafter(p, 1)} {
		if q > 0 && q < 1 {
			ps = append(ps, q)
		}
	}
	return ps
}
