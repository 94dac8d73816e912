package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

// C28: relations between the library's own answers, and between its answers on related streams.
// The reference model only supplies tolerances here.

// slackOf is how far an answer may be off according to the reference; false when it is undefined.
func slackOf(e Expect) (float64, bool) {
	switch {
	case e.Err || e.Skip:
		return 0, false
	case e.Alts != nil:
		return e.Slack, true
	default:
		return e.In.half(), true
	}
}

// grid makes a value exactly representable together with its scaled and shifted images.
func grid(x float64) float64 {
	if math.Abs(x) > 1<<20 {
		x = math.Mod(x, 1<<20)
	}
	return math.Round(x*1024) / 1024
}

func gridPoints(ps [][]float64) [][]float64 {
	out := make([][]float64, len(ps))
	for i, p := range ps {
		q := make([]float64, len(p))
		for j, x := range p {
			q[j] = grid(x)
		}
		out[i] = q
	}
	return out
}

type affine struct{ a, b []float64 }

func (f affine) point(p []float64) []float64 {
	q := make([]float64, len(p))
	for i, x := range p {
		q[i] = f.a[i]*x + f.b[i]
	}
	return q
}

// sumLabel parses "Sum(3)" and "Sum[1 2]".
func sumLabel(l string) []int {
	l = strings.TrimPrefix(l, "Sum")
	l = strings.Trim(l, "()[]")
	var out []int
	for _, f := range strings.Fields(l) {
		n := 0
		if _, err := fmt.Sscan(f, &n); err != nil {
			return nil
		}
		out = append(out, n)
	}
	return out
}

// image gives what an answer must become under an affine map of the data: y = s*v + t.
func (f affine) image(kd *Kind, label string) (s, t float64, ok bool) {
	a, b := f.a[0], f.b[0]
	sgn := func(x float64) float64 {
		if x < 0 {
			return -1
		}
		return 1
	}
	switch kd.Class {
	case "Min", "Max", "Quantile":
		return a, b, a > 0
	case "Median", "HeapMedian", "Mean", "EWMA":
		return a, b, true
	case "IQR", "Std", "EWMStd":
		return math.Abs(a), 0, true
	case "Moment", "EWMMoment":
		k := 0
		fmt.Sscanf(kd.Name[strings.Index(kd.Name, "k="):], "k=%d", &k)
		return ipow(a, k), 0, true
	case "Skewness":
		return sgn(a), 0, true
	case "Kurtosis", "Autocorr":
		return 1, 0, true
	case "Autocov":
		return a * a, 0, true
	case "Cov", "EWMCov":
		return a * f.a[1], 0, true
	case "Corr", "EWMCorr":
		return sgn(a) * sgn(f.a[1]), 0, true
	case "moment.Core", "joint.Core":
		switch {
		case label == "Count":
			return 1, 0, true
		case label == "Mean":
			return a, b, true
		case strings.HasPrefix(label, "Mean("):
			v := 0
			fmt.Sscanf(label, "Mean(%d)", &v)
			if v < 0 || v >= len(f.a) {
				return 0, 0, false
			}
			return f.a[v], f.b[v], true
		case strings.HasPrefix(label, "Sum"):
			ks := sumLabel(label)
			if len(ks) != kd.Arity {
				return 0, 0, false
			}
			s = 1
			for i, k := range ks {
				if k < 0 || k > 20 {
					return 0, 0, false
				}
				s *= ipow(f.a[i], k)
			}
			return s, 0, true
		}
	}
	return 0, 0, false
}

func pick(r *rand.Rand, xs ...float64) float64 { return xs[r.Intn(len(xs))] }

// compareImage checks two snapshots against each other: y must be s*x+t.
func (k *Case) compareImage(what string, kd, kd2 *Kind, x, y []Obs, ex, ey []Expect, m func(label string) (float64, float64, bool)) {
	for i := range x {
		s, t, ok := m(x[i].Label)
		if !ok {
			k.Count("no_image", 1)
			continue
		}
		if (x[i].Err != nil) != (y[i].Err != nil) {
			k.Fail(what+"/"+kd.Class, "%s: %s answers %v/%v on the stream but %v/%v on its image", kd.Name, x[i].Label, x[i].V, x[i].Err, y[i].V, y[i].Err)
		}
		if x[i].Err != nil {
			continue
		}
		hx, ok1 := slackOf(ex[i])
		hy, ok2 := slackOf(ey[i])
		if !ok1 || !ok2 {
			k.Count("skipped_ill_conditioned", 1)
			continue
		}
		tol := 2*(math.Abs(s)*hx+hy) + 64*eps*(math.Abs(s*x[i].V)+math.Abs(t))
		if ex[i].Alts != nil && s == 1 && t == 0 {
			tol = hx + hy
		}
		if d := math.Abs(y[i].V - (s*x[i].V + t)); !(d <= tol) {
			k.Fail(what+"/"+kd.Class, "%s: %s is %s on the stream and %s on its image; want %s*x+%s = %s within %.3g", kd.Name, x[i].Label,
				fmtF(x[i].V), fmtF(y[i].V), fmtF(s), fmtF(t), fmtF(s*x[i].V+t), tol)
		}
		k.EvalH(true, mixHash(mixHash(hashStr(what, kd.Name), math.Float64bits(x[i].V)), math.Float64bits(y[i].V)))
		k.Count("compared_"+what, 1)
	}
}

var invClasses = append(append([]string{"Quantile", "moment.Core", "joint.Core", "ewm.Core", "ewm.joint.Core"}, simpleClasses...), jointClasses...)

func affineCase(k *Case, class string) {
	r := k.Rng
	kd := randKind(r, class, 129)
	n := 20 + r.Intn(200)
	ps, fam := streamFor(r, n, kd.Arity, nil)
	ps = gridPoints(ps)
	f := affine{}
	for v := 0; v < kd.Arity; v++ {
		a := pick(r, 1, 1, -1, 2, 0.5, 3, -2, -0.25, 64)
		b := math.Round(pick(r, 0, 1, -7, 100, 1e3, -1e4, 12345, 1e6))
		f.a, f.b = append(f.a, a), append(f.b, b)
	}
	k.logf("%s, values %s, scale %v shift %v", kd.Name, fam, f.a, f.b)
	in, im := kd.make(), kd.make()
	h, g := &Hist{}, &Hist{}
	for i, p := range ps {
		q := f.point(p)
		k.logf("Push%s / Push%s", fmtFs(p), fmtFs(q))
		if e1, e2 := in.Push(p...), im.Push(q...); e1 != nil || e2 != nil {
			k.Fail("affine/push-error", "%s: Push failed: %v %v", kd.Name, e1, e2)
		}
		h.push(p)
		g.push(q)
		if i < 6 || i%11 == 0 || i == n-1 {
			k.compareImage("affine", kd, kd, in.Snap(), im.Snap(), kd.Model(h), kd.Model(g), func(l string) (float64, float64, bool) { return f.image(kd, l) })
		}
	}
}

// scaleOrder is the highest power of the data that a statistic needs in between.
func scaleOrder(kd *Kind, obs []Obs) int {
	switch kd.Class {
	case "Min", "Max", "Quantile", "Median", "IQR", "HeapMedian", "Mean", "EWMA":
		return 1
	case "Skewness":
		return 3
	case "Kurtosis":
		return 4
	case "Moment", "EWMMoment":
		k := 0
		fmt.Sscanf(kd.Name[strings.Index(kd.Name, "k="):], "k=%d", &k)
		return k
	case "moment.Core", "joint.Core":
		m := 2
		for _, o := range obs {
			if strings.HasPrefix(o.Label, "Sum") {
				t := 0
				for _, x := range sumLabel(o.Label) {
					t += x
				}
				if t > m && t <= 40 {
					m = t
				}
			}
		}
		return m
	}
	return 2
}

// scaleCase: in units a power of two smaller or larger, up to the ends of the range in which
// the definition itself can be evaluated, every answer is the same in the new unit.
func scaleCase(k *Case, class string) {
	r := k.Rng
	kd := randKind(r, class, 65)
	n := 10 + r.Intn(120)
	ps, fam := streamFor(r, n, kd.Arity, nil)
	in, im := kd.make(), kd.make()
	e := 900/scaleOrder(kd, in.Snap()) - 60
	if e < 8 {
		e = 8
	}
	f := affine{}
	for v := 0; v < kd.Arity; v++ {
		x := []int{-e, e, r.Intn(2*e+1) - e}[r.Intn(3)]
		f.a, f.b = append(f.a, math.Ldexp(1, x)), append(f.b, 0)
	}
	k.logf("%s, values %s, units %v", kd.Name, fam, f.a)
	h := &Hist{}
	for i, p := range ps {
		q := f.point(p)
		k.logf("Push%s / Push%s", fmtFs(p), fmtFs(q))
		if e1, e2 := in.Push(p...), im.Push(q...); e1 != nil || e2 != nil {
			k.Fail("scale/push-error", "%s: Push failed: %v %v", kd.Name, e1, e2)
		}
		h.push(p)
		if i >= 6 && i%7 != 0 && i != n-1 {
			continue
		}
		x, y, ex := in.Snap(), im.Snap(), kd.Model(h)
		for j := range x {
			s, _, ok := f.image(kd, x[j].Label)
			if (x[j].Err != nil) != (y[j].Err != nil) {
				k.Fail("scale/"+kd.Class, "%s: %s answers %v/%v, and %v/%v in units of %v", kd.Name, x[j].Label, x[j].V, x[j].Err, y[j].V, y[j].Err, f.a)
			}
			hx, ok1 := slackOf(ex[j])
			if !ok || !ok1 || x[j].Err != nil || s == 0 || math.IsInf(s, 0) {
				k.Count("skipped_ill_conditioned", 1)
				continue
			}
			tol := math.Abs(s) * (4*hx + 1e-12*math.Abs(x[j].V))
			if d := math.Abs(y[j].V - s*x[j].V); !(d <= tol+1e-322) {
				k.Fail("scale/"+kd.Class, "%s: %s is %s, and %s in units of %v; want %s within %.3g", kd.Name, x[j].Label,
					fmtF(x[j].V), fmtF(y[j].V), f.a, fmtF(s*x[j].V), tol)
			}
			k.EvalH(true, mixHash(mixHash(hashStr("scale", kd.Name), math.Float64bits(x[j].V)), math.Float64bits(y[j].V)))
			k.Count("compared_scale", 1)
		}
	}
}

// globalKind draws a kind over the whole stream whose value does not depend on the order.
func globalKind(r *rand.Rand, class string) *Kind {
	for {
		kd := randKind(r, class, 0)
		if kd.Window == 0 {
			return kd
		}
	}
}

var permClasses = []string{"Min", "Max", "Quantile", "Median", "IQR", "HeapMedian", "Mean", "Moment", "Std", "Skewness", "Kurtosis",
	"moment.Core", "Cov", "Corr", "joint.Core"}

func permCase(k *Case, class string) {
	r := k.Rng
	kd := withWindow(r, class, 0)
	n := 5 + r.Intn(300)
	ps, fam := streamFor(r, n, kd.Arity, nil)
	qs := append([][]float64(nil), ps...)
	how := r.Intn(3)
	switch how {
	case 0:
		r.Shuffle(n, func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			qs[i], qs[j] = qs[j], qs[i]
		}
	case 2:
		s := 1 + r.Intn(n-1)
		qs = append(append([][]float64(nil), ps[s:]...), ps[:s]...)
	}
	k.logf("%s, values %s, permutation %d", kd.Name, fam, how)
	in, im := kd.make(), kd.make()
	h, g := &Hist{}, &Hist{}
	for i := range ps {
		if e1, e2 := in.Push(ps[i]...), im.Push(qs[i]...); e1 != nil || e2 != nil {
			k.Fail("permute/push-error", "%s: Push failed: %v %v", kd.Name, e1, e2)
		}
		k.logf("Push%s / Push%s", fmtFs(ps[i]), fmtFs(qs[i]))
		h.push(ps[i])
		g.push(qs[i])
	}
	k.compareImage("permute", kd, kd, in.Snap(), im.Snap(), kd.Model(h), kd.Model(g), func(l string) (float64, float64, bool) { return 1, 0, true })
}

// withWindow draws a kind of a class with the given window, repeatable for a given seed of r.
func withWindow(r *rand.Rand, class string, w int) *Kind {
	switch class {
	case "Min", "Max":
		return kindMin(w, class == "Max", r.Intn(2) == 0)
	case "Quantile":
		return kindQuantile(r, w, r.Intn(3), r.Intn(5), randPhis(r))
	case "Median", "IQR":
		return kindMedian(r, w, r.Intn(3), class == "IQR")
	case "HeapMedian":
		return kindHeapMedian(w, r.Intn(2) == 0)
	case "Mean":
		return kindMean(w)
	case "Moment":
		return kindMoment(1+r.Intn(6), w)
	case "Std":
		return kindStd(w)
	case "Skewness":
		return kindSkew(w)
	case "Kurtosis":
		return kindKurt(w)
	case "moment.Core":
		return kindCore(randSums(r), w, 0)
	case "Cov":
		return kindCov(w)
	case "Corr":
		return kindCorr(w)
	case "Autocov", "Autocorr":
		return kindAuto(randLag(r), w, class == "Autocorr")
	case "joint.Core":
		v := 2 + r.Intn(3)
		return kindJCore(randTuples(r, v), v, w, 0, r.Intn(2) == 0)
	}
	panic("withWindow " + class)
}

// wideCase: a window at least as long as the stream answers like the global metric.
func wideCase(k *Case, class string) {
	r := k.Rng
	n := 2 + r.Intn(120)
	w := n + []int{0, 0, 1, n, 1000}[r.Intn(5)]
	seed := r.Int63()
	kd := withWindow(rand.New(rand.NewSource(seed)), class, w)
	gl := withWindow(rand.New(rand.NewSource(seed)), class, 0)
	ps, fam := streamFor(r, n, kd.Arity, nil)
	k.logf("%s against %s, values %s", kd.Name, gl.Name, fam)
	in, im := kd.make(), gl.make()
	h := &Hist{}
	rounds := 1 + r.Intn(2)
	for round := 0; round < rounds; round++ {
		for i, p := range ps {
			if e1, e2 := in.Push(p...), im.Push(p...); e1 != nil || e2 != nil {
				k.Fail("wide/push-error", "%s: Push failed: %v %v", kd.Name, e1, e2)
			}
			k.logf("Push%s", fmtFs(p))
			h.push(p)
			if n < 40 || i%7 == 0 || i == n-1 {
				k.compareImage("wide", kd, gl, in.Snap(), im.Snap(), kd.Model(h), gl.Model(h), func(l string) (float64, float64, bool) { return 1, 0, true })
			}
		}
		in.Clear()
		im.Clear()
		h.clear()
		k.logf("Clear")
	}
}

// bundleCase checks the relations between different statistics of the same values.
func bundleCase(k *Case) {
	r := k.Rng
	w := randWindow(r, 257)
	n := 30 + r.Intn(250)
	ps, fam := streamFor(r, n, 2, nil)
	extreme := r.Intn(5) == 0
	if extreme {
		f := extremeFamilies[r.Intn(len(extremeFamilies))]
		fam = f.Name
		for i, x := range f.Gen(r, n) {
			ps[i] = []float64{x, ps[i][1]}
		}
	}
	d := decays[r.Intn(len(decays))]
	interp := r.Intn(5)
	var phis []float64
	for i := 1; i < 40; i++ {
		phis = append(phis, float64(i)/40)
	}
	for i := 0; i < 8; i++ {
		phis = append(phis, r.Float64()*0.999+0.0005)
	}
	phis = sortedCopy(append(phis, 1e-9, 1-1e-9))
	q := kindQuantile(r, w, r.Intn(3), interp, phis)
	mid := kindQuantile(r, w, r.Intn(3), 4, []float64{0.25, 0.5, 0.75})
	kinds := map[string]*Kind{"min": kindMin(w, false, true), "max": kindMin(w, true, true), "q": q, "mid": mid,
		"median": kindMedian(r, w, r.Intn(3), false), "iqr": kindMedian(r, w, r.Intn(3), true), "heap": kindHeapMedian(w, true)}
	if !extreme {
		for name, kd := range map[string]*Kind{"mean": kindMean(w), "std": kindStd(w), "m2": kindMoment(2, w), "m4": kindMoment(4, w), "m6": kindMoment(6, w),
			"skew": kindSkew(w), "kurt": kindKurt(w), "ewma": kindEWMA(d), "ewmstd": kindEWMStd(d), "ewm4": kindEWMMoment(4, d),
			"cov": kindCov(w), "corr": kindCorr(w), "ewmcov": kindEWMCov(d), "ewmcorr": kindEWMCorr(d), "auto": kindAuto(randLag(r), w, true), "acov0": kindAuto(0, w, false),
			"acorr0": kindAuto(0, w, true)} {
			kinds[name] = kd
		}
	}
	ins := map[string]*Inst{}
	for name, kd := range kinds {
		ins[name] = kd.make()
	}
	k.logf("bundle w=%d d=%v interp=%s values %s", w, d, interpNames[interp], fam)
	h, h1 := &Hist{}, &Hist{} // both variables; the first one
	type val struct {
		v, tol float64
		ok     bool
	}
	for i, p := range ps {
		k.logf("Push%s", fmtFs(p))
		h.push(p)
		h1.push(p[:1])
		for name, in := range ins {
			if err := in.Push(p[:kinds[name].Arity]...); err != nil {
				k.Fail("bundle/push-error", "%s: Push failed: %v", kinds[name].Name, err)
			}
		}
		if i > 12 && i%3 != 0 && i != n-1 {
			continue
		}
		get := func(name string) val {
			hh := h1
			if kinds[name].Arity == 2 {
				hh = h
			}
			o := ins[name].Snap()[0]
			e := kinds[name].Model(hh)[0]
			if o.Err != nil {
				if !e.Err {
					k.Fail("bundle/unexpected-error", "%s reports %v after %d values", kinds[name].Name, o.Err, i+1)
				}
				return val{}
			}
			t, ok := slackOf(e)
			if kinds[name].Class == "Std" || kinds[name].Class == "EWMStd" {
				if ok && math.IsNaN(o.V) {
					k.Fail("bundle/nan", "%s is NaN after %d values", kinds[name].Name, i+1)
				}
			}
			return val{o.V, t, ok}
		}
		ck := func(rel string, good bool, format string, args ...interface{}) {
			if !good {
				k.Fail("relation/"+rel, "after %d values (w=%d): "+format, append([]interface{}{i + 1, w}, args...)...)
			}
			k.Count("rel_"+rel, 1)
		}
		mn, mx := get("min"), get("max")
		ck("min<=max", mn.v <= mx.v, "Min %s > Max %s", fmtF(mn.v), fmtF(mx.v))
		mag := math.Max(math.Abs(mn.v), math.Abs(mx.v))
		ulp := 8*eps*mag + 1e-323
		qo := ins["q"].Snap()
		prev := mn.v
		var dig uint64
		for j, o := range qo {
			if o.Err != nil {
				k.Fail("bundle/unexpected-error", "%s: %s reports %v", q.Name, o.Label, o.Err)
			}
			ck("quantile-range", o.V >= mn.v-ulp && o.V <= mx.v+ulp, "%s %s = %s outside [%s, %s]", q.Name, o.Label, fmtF(o.V), fmtF(mn.v), fmtF(mx.v))
			ck("quantile-monotone", o.V >= prev-ulp, "%s: %s = %s below %s at a smaller phi (%v)", q.Name, o.Label, fmtF(o.V), fmtF(prev), phis[j])
			prev = math.Max(prev, o.V)
			dig = mixHash(dig, math.Float64bits(o.V))
		}
		mo := ins["mid"].Snap()
		med, hm, iqr := get("median"), get("heap"), get("iqr")
		ck("median-agree", math.Abs(med.v-mo[1].V) <= ulp && math.Abs(med.v-hm.v) <= ulp, "Median %s, HeapMedian %s, Quantile(0.5) %s differ",
			fmtF(med.v), fmtF(hm.v), fmtF(mo[1].V))
		if d := mo[2].V - mo[0].V; !math.IsInf(d, 0) { // (the range of extreme values is not representable)
			ck("iqr", iqr.v >= 0 && math.Abs(iqr.v-d) <= 4*ulp, "IQR %s, quartiles %s and %s", fmtF(iqr.v), fmtF(mo[0].V), fmtF(mo[2].V))
		}
		k.EvalH(true, mixHash(dig, math.Float64bits(iqr.v)))
		if extreme {
			continue
		}
		mean, std, m2, m4, m6 := get("mean"), get("std"), get("m2"), get("m4"), get("m6")
		cnt := float64(len(h.last(w)))
		pop := (cnt - 1) / cnt
		ck("mean-range", mean.v >= mn.v-mean.tol-ulp && mean.v <= mx.v+mean.tol+ulp, "Mean %s outside [%s, %s]", fmtF(mean.v), fmtF(mn.v), fmtF(mx.v))
		gl := h1.mn[0]
		gh := h1.mx[0]
		ea := get("ewma")
		ck("ewma-range", ea.v >= gl-ea.tol && ea.v <= gh+ea.tol, "EWMA %s outside [%s, %s]", fmtF(ea.v), fmtF(gl), fmtF(gh))
		es, e4 := get("ewmstd"), get("ewm4")
		if es.ok {
			ck("ewmstd", es.v >= -es.tol && es.v <= (gh-gl)/2+es.tol+ulp, "EWMStd %s for values in [%s, %s]", fmtF(es.v), fmtF(gl), fmtF(gh))
		}
		if e4.ok {
			ck("ewm-even", e4.v >= -e4.tol, "EWMMoment(4) is %s", fmtF(e4.v))
		}
		if std.ok && m2.ok && m4.ok && m6.ok {
			ck("nonneg", std.v >= 0 && m2.v >= -m2.tol && m4.v >= -m4.tol && m6.v >= -m6.tol, "Std %s, moments %s %s %s", fmtF(std.v), fmtF(m2.v), fmtF(m4.v), fmtF(m6.v))
			ck("std-moment", math.Abs(std.v*std.v-m2.v) <= 2*m2.tol+4*std.v*std.tol+16*eps*math.Abs(m2.v), "Std^2 = %s but Moment(2) = %s", fmtF(std.v*std.v), fmtF(m2.v))
			s := std.v * math.Sqrt(pop)
			ck("popoviciu", s <= (mx.v-mn.v)/2+2*std.tol+ulp, "Std %s of values in [%s, %s]", fmtF(std.v), fmtF(mn.v), fmtF(mx.v))
			ck("mean-median", math.Abs(mean.v-med.v) <= s+std.tol+mean.tol+ulp, "mean %s and median %s are further apart than Std %s", fmtF(mean.v), fmtF(med.v), fmtF(std.v))
		}
		sk, ku := get("skew"), get("kurt")
		if ku.ok {
			ck("kurtosis", ku.v >= -2-2*ku.tol-1e-9, "Kurtosis %s below -2", fmtF(ku.v))
			if sk.ok && cnt > 2 {
				g1 := sk.v * (cnt - 2) / math.Sqrt(cnt*(cnt-1))
				t := 2*ku.tol + 4*(math.Abs(g1)+1)*sk.tol + 1e-9*(1+g1*g1)
				ck("pearson", ku.v+2 >= g1*g1-t, "Kurtosis %s and Skewness %s violate kurtosis >= skewness^2 - 2", fmtF(ku.v), fmtF(sk.v))
			}
		}
		for _, name := range []string{"corr", "ewmcorr", "auto"} {
			if c := get(name); c.ok {
				ck("corr-range", math.Abs(c.v) <= 1+2*c.tol+1e-12, "%s is %s", kinds[name].Name, fmtF(c.v))
			}
		}
		if a, c := get("acov0"), m2; a.ok && c.ok {
			ck("autocov0", math.Abs(a.v-c.v) <= 2*(a.tol+c.tol), "Autocov(lag 0) %s but Moment(2) %s", fmtF(a.v), fmtF(c.v))
		}
		if a := get("acorr0"); a.ok {
			ck("autocorr0", math.Abs(a.v-1) <= 2*a.tol+1e-12, "Autocorr(lag 0) is %s", fmtF(a.v))
		}
		if c := get("cov"); c.ok && std.ok {
			t := 0.0
			for _, q := range h.last(w) {
				t = math.Max(t, math.Abs(q[1]-h.last(w)[0][1]))
			}
			ck("cauchy", math.Abs(c.v) <= (std.v+std.tol)*2*t+2*c.tol+1e-300, "Cov %s too large for Std %s and a second variable of spread %s", fmtF(c.v), fmtF(std.v), fmtF(t))
		}
	}
}

// symCase: exchanging the variables leaves Cov and Corr alone; a variable against itself gives its variance.
func symCase(k *Case) {
	r := k.Rng
	w := randWindow(r, 129)
	d := decays[r.Intn(len(decays))]
	n := 10 + r.Intn(150)
	ps, fam := streamFor(r, n, 2, nil)
	kinds := []*Kind{kindCov(w), kindCorr(w), kindEWMCov(d), kindEWMCorr(d)}
	self := []*Kind{kindMoment(2, w), nil, kindEWMMoment(2, d), nil}
	k.logf("symmetry w=%d d=%v values %s", w, d, fam)
	var xy, yx, xx, ss []*Inst
	for i, kd := range kinds {
		xy, yx, xx = append(xy, kd.make()), append(yx, kd.make()), append(xx, kd.make())
		if self[i] != nil {
			ss = append(ss, self[i].make())
		} else {
			ss = append(ss, nil)
		}
	}
	h, g, hxx, h1 := &Hist{}, &Hist{}, &Hist{}, &Hist{}
	for i, p := range ps {
		q, s := []float64{p[1], p[0]}, []float64{p[0], p[0]}
		k.logf("Push%s", fmtFs(p))
		h.push(p)
		g.push(q)
		hxx.push(s)
		h1.push(p[:1])
		for j := range kinds {
			for _, err := range []error{xy[j].Push(p...), yx[j].Push(q...), xx[j].Push(s...)} {
				if err != nil {
					k.Fail("symmetry/push-error", "%s: %v", kinds[j].Name, err)
				}
			}
			if ss[j] != nil {
				_ = ss[j].Push(p[0])
			}
		}
		if i%5 != 0 && i != n-1 {
			continue
		}
		one := func(string) (float64, float64, bool) { return 1, 0, true }
		for j, kd := range kinds {
			k.compareImage("swap", kd, kd, xy[j].Snap(), yx[j].Snap(), kd.Model(h), kd.Model(g), one)
			if ss[j] != nil {
				k.compareImage("self", kd, self[j], xx[j].Snap(), ss[j].Snap(), kd.Model(hxx), self[j].Model(h1), one)
			} else if e := kd.Model(hxx)[0]; !e.Err && !e.Skip {
				o := xx[j].Snap()[0]
				if o.Err != nil || math.Abs(o.V-1) > 2*e.In.half()+1e-12 {
					k.Fail("self/"+kd.Class, "%s of a variable with itself is %s (%v)", kd.Name, fmtF(o.V), o.Err)
				}
				k.EvalH(true, mixHash(hashStr("self", kd.Name), math.Float64bits(o.V)))
			}
		}
	}
}

func init() {
	register("C28", "seeded generated streams; each evaluation compares answers of the library with one another: relations between different statistics of the same values, a stream with its permutation, its scaled and shifted image, its image in units up to the ends of the float range, its exchanged variables, and a window at least as long as the stream with the global metric; tolerances come from the conditioning of the definition; distinct by (relation, parameters, answers)", func(c *Ctx) {
		for i := 0; i < c.N(800, 6000); i++ {
			c.Case(fmt.Sprintf("bundle-%d", i), bundleCase)
		}
		for i := 0; i < c.N(2000, 16000); i++ {
			class := invClasses[i%len(invClasses)]
			c.Case(fmt.Sprintf("affine-%s-%d", class, i), func(k *Case) { affineCase(k, class) })
		}
		for i := 0; i < c.N(2000, 16000); i++ {
			class := invClasses[i%len(invClasses)]
			c.Case(fmt.Sprintf("scale-%s-%d", class, i), func(k *Case) { scaleCase(k, class) })
		}
		for i := 0; i < c.N(1800, 12000); i++ {
			class := permClasses[i%len(permClasses)]
			c.Case(fmt.Sprintf("perm-%s-%d", class, i), func(k *Case) { permCase(k, class) })
		}
		wides := append([]string{"Autocov", "Autocorr"}, permClasses...)
		for i := 0; i < c.N(2000, 12000); i++ {
			class := wides[i%len(wides)]
			c.Case(fmt.Sprintf("wide-%s-%d", class, i), func(k *Case) { wideCase(k, class) })
		}
		for i := 0; i < c.N(240, 2000); i++ {
			c.Case(fmt.Sprintf("sym-%d", i), symCase)
		}
	})
}
