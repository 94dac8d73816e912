package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
)

// sharedMember is a metric to be attached to a core of its own or to a shared one.
type sharedMember struct {
	kd *Kind
	mk func() (moment.Metric, error)
	jk func() (joint.Metric, error)
}

// sharedMoments draws univariate metrics whose configurations agree.
func sharedMoments(r *rand.Rand, w int, ewm bool) ([]sharedMember, float64) {
	n := 1 + r.Intn(5)
	d := 0.0
	if ewm {
		d = decays[r.Intn(len(decays))]
	}
	var ms []sharedMember
	for i := 0; i < n; i++ {
		var m sharedMember
		if ewm {
			switch r.Intn(3) {
			case 0:
				m = sharedMember{kd: kindEWMA(d), mk: func() (moment.Metric, error) { return moment.NewEWMA(d), nil }}
			case 1:
				k := 1 + r.Intn(5)
				m = sharedMember{kd: kindEWMMoment(k, d), mk: func() (moment.Metric, error) { return moment.NewEWMMoment(k, d), nil }}
			default:
				m = sharedMember{kd: kindEWMStd(d), mk: func() (moment.Metric, error) { return moment.NewEWMStd(d), nil }}
			}
		} else {
			switch r.Intn(5) {
			case 0:
				m = sharedMember{kd: kindMean(w), mk: func() (moment.Metric, error) { return moment.NewMean(w), nil }}
			case 1:
				k := 1 + r.Intn(5)
				m = sharedMember{kd: kindMoment(k, w), mk: func() (moment.Metric, error) { return moment.New(k, w), nil }}
			case 2:
				m = sharedMember{kd: kindStd(w), mk: func() (moment.Metric, error) { return moment.NewStd(w), nil }}
			case 3:
				m = sharedMember{kd: kindSkew(w), mk: func() (moment.Metric, error) { return moment.NewSkewness(w), nil }}
			default:
				m = sharedMember{kd: kindKurt(w), mk: func() (moment.Metric, error) { return moment.NewKurtosis(w), nil }}
			}
		}
		ms = append(ms, m)
	}
	return ms, d
}

// sharedJoints draws bivariate metrics whose configurations agree.
func sharedJoints(r *rand.Rand, w int, ewm bool) ([]sharedMember, float64) {
	n := 1 + r.Intn(4)
	d := 0.0
	if ewm {
		d = decays[r.Intn(len(decays))]
	}
	var ms []sharedMember
	for i := 0; i < n; i++ {
		var m sharedMember
		switch {
		case ewm && r.Intn(2) == 0:
			m = sharedMember{kd: kindEWMCov(d), jk: func() (joint.Metric, error) { return joint.NewEWMCov(d), nil }}
		case ewm:
			m = sharedMember{kd: kindEWMCorr(d), jk: func() (joint.Metric, error) { return joint.NewEWMCorr(d), nil }}
		case r.Intn(2) == 0:
			m = sharedMember{kd: kindCov(w), jk: func() (joint.Metric, error) { return joint.NewCov(w), nil }}
		default:
			m = sharedMember{kd: kindCorr(w), jk: func() (joint.Metric, error) { return joint.NewCorr(w), nil }}
		}
		ms = append(ms, m)
	}
	return ms, d
}

// kindShared is a set of metrics attached to one core made from their merged configurations,
// possibly together with further sums asked for directly.
func kindShared(r *rand.Rand, maxW int) *Kind {
	w := randWindow(r, maxW)
	ewm := r.Intn(3) == 0
	if ewm {
		w = 0
	}
	if r.Intn(2) == 0 {
		return kindSharedMoments(r, w, ewm)
	}
	return kindSharedJoints(r, w, ewm)
}

func memberNames(ms []sharedMember) string {
	var ns []string
	for _, m := range ms {
		ns = append(ns, m.kd.Name)
	}
	return strings.Join(ns, " ")
}

func kindSharedMoments(r *rand.Rand, w int, ewm bool) *Kind {
	ms, d := sharedMoments(r, w, ewm)
	extra := randSums(r)
	useExtra := r.Intn(2) == 0
	nilWindow := r.Intn(3) == 0 // a configuration may leave the window to the others
	pushVia := r.Intn(len(ms) + 1)
	perm := r.Perm(len(ms) + 1)
	kd := &Kind{Class: "shared moment.Core", Arity: 1, Window: w, Decay: d}
	kd.Name = fmt.Sprintf("shared{%s extra=%v/%v push-via=%d}", memberNames(ms), useExtra, extra, pushVia)
	maxK := 0
	for _, k := range extra {
		if useExtra && k > maxK {
			maxK = k
		}
	}
	kd.New = func() (*Inst, error) {
		var metrics []moment.Metric
		cfgs := make([]*moment.CoreConfig, len(ms)+1)
		for i, m := range ms {
			x, err := m.mk()
			if err != nil {
				return nil, err
			}
			metrics = append(metrics, x)
			cfgs[perm[i]] = x.Config()
		}
		last := &moment.CoreConfig{}
		if !nilWindow {
			last.Window = stream.IntPtr(w)
		}
		if useExtra {
			last.Sums = moment.SumsConfig{}
			for _, k := range extra {
				last.Sums[k] = true
			}
		}
		cfgs[perm[len(ms)]] = last
		cfg, err := moment.MergeConfigs(cfgs...)
		if err != nil {
			return nil, err
		}
		core, err := moment.NewCore(cfg)
		if err != nil {
			return nil, err
		}
		for _, x := range metrics {
			x.SetCore(core)
		}
		in := &Inst{Root: core, Clear: core.Clear}
		in.Push = func(xs ...float64) error { return core.Push(xs[0]) }
		if pushVia < len(metrics) {
			m := metrics[pushVia]
			in.Push = func(xs ...float64) error { return m.Push(xs[0]) }
			in.Clear = m.Clear
		}
		for i, m := range metrics {
			in.Qs = append(in.Qs, q1(ms[i].kd.Name, i, m.Value))
		}
		for k := 1; k <= maxK; k++ {
			k := k
			in.Qs = append(in.Qs, q1(fmt.Sprintf("Sum(%d)", k), len(ms)+k-1, func() (float64, error) { return core.Sum(k) }))
		}
		in.Snap = func() []Obs {
			var os []Obs
			for _, q := range in.Qs {
				os = append(os, q.Run()...)
			}
			return os
		}
		return in, nil
	}
	kd.Model = func(h *Hist) []Expect {
		var es []Expect
		for _, m := range ms {
			e := m.kd.Model(h)[0]
			e.Label = m.kd.Name
			es = append(es, e)
		}
		b := newBatch(h, w, d)
		for k := 1; k <= maxK; k++ {
			l := fmt.Sprintf("Sum(%d)", k)
			if b.n == 0 {
				es = append(es, wantErr(l))
			} else {
				es = append(es, want(l, b.sum([]int{k})))
			}
		}
		return es
	}
	return kd
}

func kindSharedJoints(r *rand.Rand, w int, ewm bool) *Kind {
	ms, d := sharedJoints(r, w, ewm)
	extra := randTuples(r, 2)
	useExtra := r.Intn(2) == 0
	if !useExtra {
		extra = nil
	}
	nilWindow := r.Intn(3) == 0
	setVars := r.Intn(2) == 0
	pushVia := r.Intn(len(ms) + 1)
	perm := r.Perm(len(ms) + 1)
	tracked := downClosure(extra)
	kd := &Kind{Class: "shared joint.Core", Arity: 2, Window: w, Decay: d}
	kd.Name = fmt.Sprintf("shared{%s extra=%v push-via=%d order=%v}", memberNames(ms), extra, pushVia, perm)
	kd.New = func() (*Inst, error) {
		var metrics []joint.Metric
		cfgs := make([]*joint.CoreConfig, len(ms)+1)
		for i, m := range ms {
			x, err := m.jk()
			if err != nil {
				return nil, err
			}
			metrics = append(metrics, x)
			cfgs[perm[i]] = x.Config()
		}
		last := jcoreConfig(extra, 2, w, 0, setVars)
		if nilWindow {
			last.Window = nil
		}
		cfgs[perm[len(ms)]] = last
		cfg, err := joint.MergeConfigs(cfgs...)
		if err != nil {
			return nil, err
		}
		core, err := joint.NewCore(cfg)
		if err != nil {
			return nil, err
		}
		for _, x := range metrics {
			x.SetCore(core)
		}
		in := &Inst{Root: core, Clear: core.Clear, Push: core.Push}
		if pushVia < len(metrics) {
			in.Push = metrics[pushVia].Push
			in.Clear = metrics[pushVia].Clear
		}
		for i, m := range metrics {
			in.Qs = append(in.Qs, q1(ms[i].kd.Name, i, m.Value))
		}
		for i, t := range tracked {
			t := t
			in.Qs = append(in.Qs, q1(fmt.Sprintf("Sum%v", t), len(ms)+i, func() (float64, error) { return core.Sum(t...) }))
		}
		in.Snap = func() []Obs {
			var os []Obs
			for _, q := range in.Qs {
				os = append(os, q.Run()...)
			}
			return os
		}
		return in, nil
	}
	kd.Model = func(h *Hist) []Expect {
		var es []Expect
		for _, m := range ms {
			e := m.kd.Model(h)[0]
			e.Label = m.kd.Name
			es = append(es, e)
		}
		b := newBatch(h, w, d)
		for _, t := range tracked {
			l := fmt.Sprintf("Sum%v", t)
			if b.n == 0 {
				es = append(es, wantErr(l))
			} else {
				es = append(es, want(l, b.sum(t)))
			}
		}
		return es
	}
	return kd
}

// kindMisfit is a core with metrics set on it that ask it for what it does not track, or push to it a
// number of values it does not take: calls that get far into the library before they fail. Only for
// monitors that do not look at values (it has no model).
func kindMisfit(r *rand.Rand, maxW int) *Kind {
	w := randWindow(r, maxW)
	kd := &Kind{Class: "misfit core", Arity: 1, Window: w}
	if r.Intn(3) == 0 {
		ks := [][]int{{1}, {2}, nil}[r.Intn(3)]
		kd.Name = fmt.Sprintf("misfit{moment.Core(%v,window=%d)}", ks, w)
		kd.New = func() (*Inst, error) {
			cfg := &moment.CoreConfig{Window: stream.IntPtr(w), Sums: moment.SumsConfig{}}
			for _, k := range ks {
				cfg.Sums[k] = true
			}
			c, err := moment.NewCore(cfg)
			if err != nil {
				return nil, err
			}
			in := &Inst{Root: c, Clear: c.Clear, Push: func(xs ...float64) error { return c.Push(xs[0]) }}
			ms := []moment.Metric{moment.New(3, w), moment.New(5, w), moment.NewSkewness(w), moment.NewKurtosis(w), moment.NewStd(w), moment.NewEWMMoment(4, 0.5), moment.NewEWMStd(0.5)}
			for _, m := range ms {
				m := m
				m.SetCore(c)
				in.Bad = append(in.Bad, func() error { _, err := m.Value(); return err })
			}
			in.Bad = append(in.Bad, func() error { _, err := c.Sum(7); return err }, func() error { _, err := c.Sum(-1); return err })
			return misfitQueries(in, func() int { return c.Count() }, c.Mean), nil
		}
	} else {
		vars := 3 + r.Intn(2)
		kd.Arity = vars
		lag := r.Intn(3)
		kd.Name = fmt.Sprintf("misfit{joint.Core(vars=%d,window=%d) lag=%d}", vars, w, lag)
		kd.New = func() (*Inst, error) {
			c, err := joint.NewCore(jcoreConfig(nil, vars, w, 0, true))
			if err != nil {
				return nil, err
			}
			in := &Inst{Root: c, Clear: c.Clear, Push: c.Push}
			acorr, err := joint.NewAutocorr(lag, w)
			if err != nil {
				return nil, err
			}
			acov, err := joint.NewAutocov(lag, w)
			if err != nil {
				return nil, err
			}
			acorr.SetCore(c)
			acov.SetCore(c)
			in.Bad = append(in.Bad,
				func() error { return acorr.Push(1) },
				func() error { return acov.Push(1) },
				func() error { _, err := acorr.Value(); return err },
				func() error { _, err := acov.Value(); return err },
				func() error { _, err := c.Sum(9, 9); return err },
				func() error { _, err := c.Mean(vars); return err },
				func() error { return c.Push(make([]float64, vars+1)...) })
			for _, m := range []joint.Metric{joint.NewCov(w), joint.NewCorr(w), joint.NewEWMCov(0.5), joint.NewEWMCorr(0.5)} {
				m := m
				m.SetCore(c)
				in.Bad = append(in.Bad, func() error { return m.Push(1, 2) }, func() error { return m.Push(1) }, func() error { _, err := m.Value(); return err })
			}
			return misfitQueries(in, c.Count, func() (float64, error) { return c.Mean(0) }), nil
		}
	}
	kd.Model = func(h *Hist) []Expect { return nil }
	return kd
}

func misfitQueries(in *Inst, count func() int, mean func() (float64, error)) *Inst {
	in.Qs = []Query{q1("Count", 0, func() (float64, error) { return float64(count()), nil }), q1("Mean", 1, mean)}
	in.Snap = func() []Obs { return append(in.Qs[0].Run(), in.Qs[1].Run()...) }
	return in
}
