package main

import (
	"fmt"
	"math"
	"math/rand"
)

type histOpts struct {
	Len       int // number of operations
	ClearProb float64
	Windows   bool     // insist on clears at W-1, W, W+1
	Families  []family // nil: all
	Bitwise   bool
	Checks    int  // >0: check at about this many points only
	Far       bool // use units up to the ends of the range in which the statistics are representable
	Scale     bool // vary the unit of the values from one variable and one Clear to the next
}

// units are powers of two, so that scaling a value is exact.
var units = []float64{1, 1, math.Ldexp(1, -40), math.Ldexp(1, 40), math.Ldexp(1, -13), math.Ldexp(1, 20), math.Ldexp(1, -27)}

// checkSnap compares a snapshot with the model.
func (k *Case) checkSnap(kd *Kind, os []Obs, es []Expect, h *Hist) {
	if len(os) != len(es) {
		panic(fmt.Sprintf("harness: %s: %d observations for %d expectations", kd.Name, len(os), len(es)))
	}
	var dig uint64
	nontrivial := len(h.pts) >= 2
	for i, e := range es {
		o := os[i]
		if o.Label != e.Label {
			panic(fmt.Sprintf("harness: %s: label %s vs %s", kd.Name, o.Label, e.Label))
		}
		good, ratio := e.ok(o)
		if !good {
			got := "error " + fmt.Sprint(o.Err)
			if o.Err == nil {
				got = fmtF(o.V)
			}
			cls := e.Label
			if e.Err && o.Err == nil {
				cls += "!error-expected"
			} else if o.Err != nil {
				cls += "!unexpected-error"
			}
			k.Fail(kd.Class+"/"+cls, "%s: %s after %d values since creation/Clear is %s, want %s", kd.Name, e.Label, len(h.pts)+h.extra, got, e)
		}
		switch {
		case e.Skip:
			k.Count("skipped_ill_conditioned", 1)
		case e.Err:
			k.Count("errors_checked", 1)
		default:
			k.Count("values_checked", 1)
			k.Max("max_err_over_tolerance", ratio)
		}
		dig = mixHash(dig, math.Float64bits(o.V)+uint64(i))
	}
	k.EvalH(nontrivial, mixHash(hashStr(kd.Name), dig))
}

// streamFor makes the values pushed in a history.
func streamFor(r *rand.Rand, n, arity int, fams []family) ([][]float64, string) {
	if arity == 1 {
		f := pickFamily(r)
		if fams != nil {
			f = fams[r.Intn(len(fams))]
		}
		// a history may switch between two families half way
		xs := f.Gen(r, n)
		name := f.Name
		if r.Intn(4) == 0 && n > 4 {
			g := pickFamily(r)
			if fams != nil {
				g = fams[r.Intn(len(fams))]
			}
			at := r.Intn(n)
			xs = append(xs[:at], g.Gen(r, n-at)...)
			name += ">" + g.Name
		}
		ps := make([][]float64, n)
		for i := range xs {
			ps[i] = []float64{xs[i]}
		}
		return ps, name
	}
	return genPoints(r, n, arity, fams)
}

// roundCount tells whether n is next to a power of two or ten.
func roundCount(n int) bool {
	for _, b := range []int{2, 10} {
		for p := b; p-1 <= n; p *= b {
			if n-p >= -1 && n-p <= 1 {
				return true
			}
		}
	}
	return false
}

// runHist drives one metric with a generated history and compares every answer with the model.
func (k *Case) runHist(kd *Kind, o histOpts) {
	r := k.Rng
	in := kd.make()
	h := &Hist{}
	ps, fam := streamFor(r, o.Len, kd.Arity, o.Families)
	k.logf("%s, values: %s", kd.Name, fam)
	// queries before anything was pushed
	k.checkSnap(kd, in.Snap(), kd.Model(h), h)
	if o.ClearProb > 0 && r.Intn(3) == 0 {
		in.Clear()
		k.logf("Clear")
		k.checkSnap(kd, in.Snap(), kd.Model(h), h)
	}
	clearAt := -1
	next := func() {
		clearAt = -1
		if o.ClearProb > 0 {
			switch r.Intn(5) {
			case 0:
				clearAt = kd.Window + r.Intn(3) - 1
			case 1:
				clearAt = 2*kd.Window + r.Intn(3) - 1
			case 2:
				clearAt = kd.Lag + r.Intn(3) - 1
			}
		}
	}
	next()
	unit := make([]float64, kd.Arity)
	far := 0
	if o.Far {
		far = 900/scaleOrder(kd, in.Snap()) - 60
		if far < 8 {
			far = 8
		}
	}
	newUnits := func() {
		for v := range unit {
			unit[v] = 1
			if far > 0 {
				unit[v] = math.Ldexp(1, []int{-far, far, r.Intn(2*far+1) - far}[r.Intn(3)])
			} else if o.Scale {
				unit[v] = units[r.Intn(len(units))]
			}
		}
	}
	newUnits()
	small := o.Len <= 300 || kd.Window <= 64 && kd.Window > 0 && o.Len <= 2000
	if o.Checks > 0 {
		small = false
	}
	// some histories keep pushing values that are exactly the current mean of every variable
	means, atMean := make([]float64, kd.Arity), r.Intn(4) == 0 && kd.Lag == 0
	for i, p := range ps {
		for v := range p {
			p[v] *= unit[v]
			if atMean && len(h.pts) > 0 && i%7 > 3 && !math.IsNaN(means[v]) && !math.IsInf(means[v], 0) {
				p[v] = means[v]
			}
			if n := len(h.pts); atMean {
				switch {
				case n == 0 || kd.Window == 1:
					means[v] = p[v]
				case kd.Decay > 0:
					means[v] += kd.Decay * (p[v] - means[v])
				default:
					if kd.Window > 0 && n >= kd.Window {
						n = kd.Window - 1
						means[v] -= (h.pts[len(h.pts)-kd.Window][v] - means[v]) / float64(n)
					}
					means[v] += (p[v] - means[v]) / float64(n+1)
				}
			}
		}
		if err := in.Push(p...); err != nil {
			k.logf("Push%s -> %v", fmtFs(p), err)
			k.Fail(kd.Class+"/Push!unexpected-error", "%s: Push%s failed: %v", kd.Name, fmtFs(p), err)
		}
		h.push(p)
		k.logf("Push%s", fmtFs(p))
		n := len(h.pts)
		check := small || r.Intn(97) == 0 || n < 12 || i == len(ps)-1
		if o.Checks > 0 {
			check = r.Intn(len(ps)) < o.Checks || i == len(ps)-1 || kd.Window > 0 && (n == kd.Window || n == kd.Window+1)
		} else if !check && kd.Window > 0 {
			d := n - kd.Window
			check = d >= -2 && d <= 3
		}
		if check || roundCount(i+1) || roundCount(n) {
			k.checkSnap(kd, in.Snap(), kd.Model(h), h)
		}
		if n == clearAt || (o.ClearProb > 0 && r.Float64() < o.ClearProb) {
			for c := 1 + r.Intn(8)/7; c > 0; c-- {
				in.Clear()
				k.logf("Clear")
			}
			h.clear()
			k.Count("clears", 1)
			newUnits()
			k.checkSnap(kd, in.Snap(), kd.Model(h), h)
			next()
		}
	}
	k.Count("pushes", int64(len(ps)))
	k.Max("longest_history", float64(len(ps)))
	k.Max("largest_window", float64(kd.Window))
	k.Sample("%s fed %d values (%s), last answers %v", kd.Name, len(ps), fam, briefObs(in.Snap()))
}

func briefObs(os []Obs) string {
	s := ""
	for i, o := range os {
		if i == 4 {
			return s + "..."
		}
		if o.Err != nil {
			s += o.Label + "=error "
		} else {
			s += o.Label + "=" + fmtF(o.V) + " "
		}
	}
	return s
}

func sameObs(a, b []Obs) (string, bool) {
	if len(a) != len(b) {
		return "different number of answers", false
	}
	for i := range a {
		x, y := a[i], b[i]
		if (x.Err != nil) != (y.Err != nil) {
			return fmt.Sprintf("%s: %v/%v vs %v/%v", x.Label, x.V, x.Err, y.V, y.Err), false
		}
		if x.Err != nil {
			continue
		}
		if x.V != y.V && !(math.IsNaN(x.V) && math.IsNaN(y.V)) {
			return fmt.Sprintf("%s: %s vs %s", x.Label, fmtF(x.V), fmtF(y.V)), false
		}
	}
	return "", true
}
