package main

import (
	"math"
)

const eps = 2.220446049250313e-16

// Hist is what a metric has consumed since its creation or last Clear.
type Hist struct {
	pts    [][]float64
	mn, mx []float64
	// for periodic streams too long to keep: pts are the last points, before them extra others were
	// consumed, and a statistic over the whole stream sees pts rep times (when rep is positive)
	extra, rep int
}

func (h *Hist) push(p []float64) {
	q := append([]float64(nil), p...)
	h.pts = append(h.pts, q)
	if len(h.mn) == 0 {
		h.mn = append([]float64(nil), q...)
		h.mx = append([]float64(nil), q...)
		return
	}
	for i, x := range q {
		h.mn[i] = math.Min(h.mn[i], x)
		h.mx[i] = math.Max(h.mx[i], x)
	}
}

func (h *Hist) clear() { *h = Hist{} }

func histOf(pts ...[]float64) *Hist {
	h := &Hist{}
	for _, p := range pts {
		h.push(p)
	}
	return h
}

// last returns the last w points (all when w is 0).
func (h *Hist) last(w int) [][]float64 {
	if w == 0 || len(h.pts) <= w {
		return h.pts
	}
	return h.pts[len(h.pts)-w:]
}

// scale of a variable: R bounds the deviations, X the magnitude.
func (h *Hist) scale(v int) (R, X float64) {
	X = math.Max(math.Abs(h.mn[v]), math.Abs(h.mx[v]))
	R = h.mx[v] - h.mn[v] + 16*eps*X
	return
}

type neumaier struct{ s, c float64 }

func (a *neumaier) add(x float64) {
	t := a.s + x
	if math.Abs(a.s) >= math.Abs(x) {
		a.c += (a.s - t) + x
	} else {
		a.c += (x - t) + a.s
	}
	a.s = t
}

func (a *neumaier) sum() float64 { return a.s + a.c }

// batch is the reference evaluation of (weighted) central power sums over points. Everything
// is computed relative to a shift so that no precision is lost to the magnitude of the data.
type batch struct {
	n     int // points in the window
	N     int // points consumed since creation or Clear
	shift []float64
	dmean []float64 // mean - shift
	pts   [][]float64
	w     []float64 // weights, or nil
	R, X  []float64
	decay float64
	rep   float64 // how often every point occurred
}

// newBatch evaluates the last `window` points of h, or all with exponential weights.
func newBatch(h *Hist, window int, decay float64) *batch {
	b := &batch{pts: h.last(window), N: len(h.pts) + h.extra, decay: decay, rep: 1}
	b.n = len(b.pts)
	if b.n == 0 {
		return b
	}
	if decay > 0 {
		b.w = make([]float64, b.n)
		w := decay
		for i := b.n - 1; i >= 0; i-- {
			if i == 0 {
				// the first value has weight (1-d)^(n-1); the newer ones d(1-d)^j
				b.w[0] = math.Exp(float64(b.n-1) * math.Log1p(-decay))
			} else {
				b.w[i] = w
			}
			w *= 1 - decay
		}
	}
	vars := len(b.pts[0])
	b.shift = make([]float64, vars)
	b.dmean = make([]float64, vars)
	b.R = make([]float64, vars)
	b.X = make([]float64, vars)
	for v := 0; v < vars; v++ {
		b.shift[v] = b.pts[b.n-1][v]
		b.R[v], b.X[v] = h.scale(v)
		var s, ws neumaier
		for i, p := range b.pts {
			if b.w == nil {
				s.add(p[v] - b.shift[v])
			} else {
				s.add(b.w[i] * (p[v] - b.shift[v]))
				ws.add(b.w[i])
			}
		}
		if b.w == nil {
			b.dmean[v] = s.sum() / float64(b.n)
		} else {
			b.dmean[v] = s.sum() / ws.sum()
		}
	}
	if window == 0 && decay == 0 && h.rep > 0 {
		b.rep = float64(h.rep)
		b.n *= h.rep
	} else if window == 0 {
		b.n += h.extra
	}
	return b
}

// reach is the number of past roundings that can still be visible.
func (b *batch) reach() float64 {
	if b.decay > 0 {
		return math.Min(float64(b.N), 1/b.decay) + 4
	}
	return float64(b.N)
}

func (b *batch) mean(v int) iv {
	m := b.shift[v] + b.dmean[v]
	return around(m, 8*eps*(b.reach()+2)*b.X[v])
}

func ipow(x float64, k int) float64 {
	r := 1.0
	for i := 0; i < k; i++ {
		r *= x
	}
	return r
}

// sum is the (weighted) central power sum of exponents a, with the tolerance that rounding
// proportional to the data's magnitude can explain.
func (b *batch) sum(a []int) iv {
	var s neumaier
	for i, p := range b.pts {
		t := 1.0
		for v, e := range a {
			t *= ipow(p[v]-b.shift[v]-b.dmean[v], e)
		}
		if b.w != nil {
			t *= b.w[i]
		}
		s.add(t)
	}
	k := 0
	prod := 1.0
	for v, e := range a {
		k += e
		prod *= ipow(b.R[v], e)
	}
	slope := prod
	for v, e := range a {
		if e == 0 {
			continue
		}
		t := float64(e) * b.X[v] * ipow(b.R[v], e-1)
		for u, f := range a {
			if u != v {
				t *= ipow(b.R[u], f)
			}
		}
		slope += t
	}
	const C = 32
	var tol float64
	if b.w == nil {
		tol = C * eps * math.Pow(2, float64(k)) * (float64(b.n) + 4) * b.reach() * slope
	} else {
		tol = C * eps * math.Pow(2, float64(k)) * b.reach() * slope
	}
	return around(s.sum()*b.rep, tol)
}

// iv is an interval.
type iv struct{ lo, hi float64 }

func around(x, tol float64) iv { return iv{x - tol, x + tol} }

func (a iv) mid() float64  { return (a.lo + a.hi) / 2 }
func (a iv) half() float64 { return (a.hi - a.lo) / 2 }

func (a iv) scale(f float64) iv {
	x, y := a.lo*f, a.hi*f
	return iv{math.Min(x, y), math.Max(x, y)}.widen()
}

// widen allows for the last few roundings of a derived statistic.
func (a iv) widen() iv {
	t := 64*eps*math.Max(math.Abs(a.lo), math.Abs(a.hi)) + 1e-300
	return iv{a.lo - t, a.hi + t}
}

func (a iv) sqrt() iv {
	return iv{math.Sqrt(math.Max(0, a.lo)), math.Sqrt(math.Max(0, a.hi))}.widen()
}

// corners evaluates a function that is monotone in each argument over a box.
func corners(f func(xs ...float64) float64, ivs ...iv) iv {
	n := len(ivs)
	r := iv{math.Inf(1), math.Inf(-1)}
	xs := make([]float64, n)
	for m := 0; m < 1<<uint(n); m++ {
		for i := range ivs {
			if m>>uint(i)&1 == 0 {
				xs[i] = ivs[i].lo
			} else {
				xs[i] = ivs[i].hi
			}
		}
		y := f(xs...)
		r.lo = math.Min(r.lo, y)
		r.hi = math.Max(r.hi, y)
	}
	return r.widen()
}

// wellPos reports whether a positive quantity is known with useful relative precision.
func wellPos(a iv) bool { return a.lo > 0 && a.half() < 1e-3*a.mid() }

// Expect is what a query has to answer.
type Expect struct {
	Label string
	Err   bool      // must be an error
	Skip  bool      // anything goes (ill-conditioned or undefined), except as below
	NoNaN bool      // with Skip: must still be a number
	In    iv        // otherwise: a value in here
	Alts  []float64 // or exactly one of these (when set)
	Slack float64   // allowed distance from an alternative
	Cond  bool      // value carries a rounding tolerance
}

func want(label string, a iv) Expect         { return Expect{Label: label, In: a, Cond: true} }
func wantErr(label string) Expect            { return Expect{Label: label, Err: true} }
func wantExact(l string, x float64) Expect   { return Expect{Label: l, Alts: []float64{x}} }
func wantSkip(label string) Expect           { return Expect{Label: label, Skip: true} }
func wantNear(l string, x, t float64) Expect { return Expect{Label: l, Alts: []float64{x}, Slack: t} }

// Obs is what a query did answer.
type Obs struct {
	Label string
	V     float64
	Err   error
}

// ok decides an observation; ratio is |error|/tolerance where that makes sense.
func (e Expect) ok(o Obs) (good bool, ratio float64) {
	if e.Err {
		return o.Err != nil, 0
	}
	if o.Err != nil {
		return false, 0
	}
	if e.Skip {
		return !e.NoNaN || !math.IsNaN(o.V), 0
	}
	if e.Alts != nil {
		for _, a := range e.Alts {
			if o.V == a || math.Abs(o.V-a) <= e.Slack {
				return true, 0
			}
		}
		return false, 0
	}
	if o.V >= e.In.lo && o.V <= e.In.hi {
		if h := e.In.half(); h > 0 {
			ratio = math.Abs(o.V-e.In.mid()) / h
		}
		return true, ratio
	}
	return false, 0
}

func (e Expect) String() string {
	switch {
	case e.Err:
		return "an error"
	case e.Skip:
		return "any number"
	case e.Alts != nil:
		return "one of " + fmtFs(e.Alts)
	default:
		return "in [" + fmtF(e.In.lo) + ", " + fmtF(e.In.hi) + "]"
	}
}

// ---- reference values of the individual statistics ----

func refMoment(b *batch, k int) Expect {
	if b.n == 1 {
		return wantSkip("Value")
	}
	return want("Value", b.sum([]int{k}).scale(1/float64(b.n-1)))
}

func refStd(b *batch) Expect {
	if b.n == 1 {
		return wantSkip("Value")
	}
	return want("Value", b.sum([]int{2}).scale(1/float64(b.n-1)).sqrt())
}

func refSkew(b *batch) Expect {
	if b.n < 3 {
		return wantSkip("Value")
	}
	s2, s3 := b.sum([]int{2}), b.sum([]int{3})
	if !wellPos(s2) {
		return wantSkip("Value")
	}
	n := float64(b.n)
	return want("Value", corners(func(x ...float64) float64 {
		return math.Sqrt(n*(n-1)) / (n - 2) * (x[1] / n) / math.Pow(x[0]/n, 1.5)
	}, s2, s3))
}

func refKurt(b *batch) Expect {
	if b.n < 2 {
		return wantSkip("Value")
	}
	s2, s4 := b.sum([]int{2}), b.sum([]int{4})
	if !wellPos(s2) {
		return wantSkip("Value")
	}
	n := float64(b.n)
	return want("Value", corners(func(x ...float64) float64 {
		return (x[1]/n)/((x[0]/n)*(x[0]/n)) - 3
	}, s2, s4))
}

func refCov(b *batch) Expect {
	if b.n == 1 {
		return wantSkip("Value")
	}
	return want("Value", b.sum([]int{1, 1}).scale(1/float64(b.n-1)))
}

func refCorr(b *batch) Expect {
	if b.n < 2 {
		return wantSkip("Value")
	}
	xx, yy, xy := b.sum([]int{2, 0}), b.sum([]int{0, 2}), b.sum([]int{1, 1})
	if !wellPos(xx) || !wellPos(yy) {
		return wantSkip("Value")
	}
	return want("Value", corners(func(x ...float64) float64 {
		return x[2] / (math.Sqrt(x[0]) * math.Sqrt(x[1]))
	}, xx, yy, xy))
}

// refQuantile gives the documented interpolation at phi*(n-1) of sorted values.
func refQuantile(label string, s []float64, phi float64, interp int) Expect {
	n := len(s)
	raw := phi * float64(n-1)
	i := int(math.Floor(raw))
	if i > n-1 {
		i = n - 1
	}
	if i+1 > n-1 { // n == 1 or rounding onto the last index
		return wantExact(label, s[i])
	}
	d := raw - float64(i)
	lo, hi := s[i], s[i+1]
	slack := slack2(lo, hi)
	at := func(d float64) (float64, float64) { // value, slack
		if d == 0 {
			return lo, 0
		}
		if d == 1 {
			return hi, 0
		}
		switch interp {
		case 0:
			return (1-d)*lo + d*hi, slack
		case 1:
			return lo, 0
		case 2:
			return hi, 0
		case 3:
			if d == 0.5 {
				if i%2 == 0 {
					return lo, 0
				}
				return hi, 0
			}
			if d < 0.5 {
				return lo, 0
			}
			return hi, 0
		default:
			return mid2(lo, hi), slack
		}
	}
	v, sl := at(d)
	e := Expect{Label: label, Alts: []float64{v}, Slack: sl}
	// phi*(n-1) itself is rounded; close to a switching point either side is a fair answer
	close := 1e-12 * float64(n)
	for _, p := range []float64{0, 0.5, 1} {
		if d != p && math.Abs(d-p) < close {
			for _, q := range []float64{p, p - 1e-9, p + 1e-9} {
				switch {
				case q < 0 && i > 0 && interp != 0:
					l := s[i-1]
					e.Alts = append(e.Alts, l, mid2(l, lo), lo)
				case q >= 0 && q <= 1:
					w, _ := at(q)
					e.Alts = append(e.Alts, w)
				case q > 1 && i+2 < n && interp != 0:
					e.Alts = append(e.Alts, hi, s[i+2], mid2(hi, s[i+2]))
				}
			}
			if interp == 0 {
				e.Slack = math.Max(e.Slack, 4*close*math.Abs(lo)+4*close*math.Abs(hi))
			}
		}
	}
	return e
}

// mid2 is the mean of two finite values, without overflow.
func mid2(a, b float64) float64 {
	if m := (a + b) / 2; !math.IsInf(m, 0) {
		return m
	}
	return a/2 + b/2
}

// slack2 is the rounding allowed for an interpolation between two values.
func slack2(a, b float64) float64 {
	return 16*eps*math.Abs(a) + 16*eps*math.Abs(b) + 4*math.SmallestNonzeroFloat64
}

func refHeapMedian(s []float64) Expect {
	n := len(s)
	if n%2 == 1 {
		return wantExact("Value", s[n/2])
	}
	lo, hi := s[n/2-1], s[n/2]
	return wantNear("Value", mid2(lo, hi), slack2(lo, hi))
}
