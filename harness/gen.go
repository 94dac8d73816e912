package main

import (
	"math"
	"math/bits"
	"math/rand"
)

// A family produces streams of one shape. All values are finite and, except where a
// property asks for more, of magnitude at most about 1e6.
type family struct {
	Name string
	Gen  func(r *rand.Rand, n int) []float64
}

func gen(n int, f func(i int) float64) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = f(i)
	}
	return xs
}

var families = []family{
	{"tiny-alphabet", func(r *rand.Rand, n int) []float64 {
		a := 1 + r.Intn(4)
		return gen(n, func(int) float64 { return float64(r.Intn(a + 1)) })
	}},
	{"small-ints", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 { return float64(r.Intn(41) - 20) })
	}},
	{"uniform", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 { return r.Float64()*200 - 100 })
	}},
	{"increasing", func(r *rand.Rand, n int) []float64 {
		x := float64(r.Intn(100) - 50)
		return gen(n, func(int) float64 { x += r.Float64() + 0.01; return x })
	}},
	{"decreasing", func(r *rand.Rand, n int) []float64 {
		x := float64(r.Intn(100) - 50)
		return gen(n, func(int) float64 { x -= r.Float64() + 0.01; return x })
	}},
	{"sawtooth", func(r *rand.Rand, n int) []float64 {
		p := 2 + r.Intn(40)
		s := float64(1 - 2*r.Intn(2))
		return gen(n, func(i int) float64 { return s * float64(i%p) })
	}},
	{"ramps", func(r *rand.Rand, n int) []float64 {
		// monotone and constant runs of very different lengths, up to half of the stream
		x, left, step := 0.0, 0, 0.0
		return gen(n, func(int) float64 {
			if left == 0 {
				left = 1 + int(math.Exp(r.Float64()*math.Log(float64(n)/2+2)))
				step = (r.Float64() + 0.01) * float64(1-2*r.Intn(2))
				x = float64(r.Intn(200) - 100)
				switch r.Intn(6) {
				case 0:
					step = 0
				case 1, 2:
					x -= step * float64(left)
				}
			}
			left--
			x += step
			return x
		})
	}},
	{"organ-pipe", func(r *rand.Rand, n int) []float64 {
		p := 3 + r.Intn(60)
		return gen(n, func(i int) float64 {
			j := i % (2 * p)
			if j >= p {
				j = 2*p - j
			}
			return float64(j)
		})
	}},
	{"plateaus", func(r *rand.Rand, n int) []float64 {
		x, left := 0.0, 0
		return gen(n, func(int) float64 {
			if left == 0 {
				x, left = math.Round(r.NormFloat64()*100)/10, 1+r.Intn(20)
			}
			left--
			return x
		})
	}},
	{"outliers", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 {
			if r.Intn(17) == 0 {
				return (r.Float64() - 0.5) * 2e4
			}
			return r.NormFloat64()
		})
	}},
	{"random-walk", func(r *rand.Rand, n int) []float64 {
		x := 0.0
		return gen(n, func(int) float64 { x += r.NormFloat64(); return x })
	}},
	{"alternating", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(i int) float64 {
			v := 1 + float64(r.Intn(5))
			if i%2 == 1 {
				v = -v
			}
			return v
		})
	}},
	{"log-scale", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 {
			v := math.Exp(r.NormFloat64() * 3)
			if r.Intn(2) == 0 {
				v = -v
			}
			return v
		})
	}},
	{"two-level", func(r *rand.Rand, n int) []float64 {
		// runs of a single value followed by runs around another level
		return gen(n, func(i int) float64 {
			if (i/13)%2 == 0 {
				return 0.1
			}
			return 0.7 + 0.1*float64(r.Intn(2))
		})
	}},
	{"inward", func(r *rand.Rand, n int) []float64 { // from both ends towards the middle
		return gen(n, func(i int) float64 {
			if i%2 == 0 {
				return float64(i / 2)
			}
			return float64(n - i/2)
		})
	}},
	{"outward", func(r *rand.Rand, n int) []float64 { // from the middle towards both ends
		s := float64(1 - 2*r.Intn(2))
		return gen(n, func(i int) float64 {
			if i%2 == 0 {
				return s * float64(i/2)
			}
			return -s * float64(i/2+1)
		})
	}},
	{"bit-reversed", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(i int) float64 { return float64(bits.Reverse16(uint16(i))) / 16 })
	}},
	{"nested", func(r *rand.Rand, n int) []float64 { // each value between the last two, then between those
		lo, hi := 0.0, 1e6
		return gen(n, func(i int) float64 {
			m := lo + (hi-lo)*(0.3+0.4*r.Float64())
			if r.Intn(2) == 0 {
				lo = m
			} else {
				hi = m
			}
			if hi-lo < 1e-3 {
				lo = float64(r.Intn(1000))
				hi = lo + 1e5
			}
			return m
		})
	}},
	{"blocks", func(r *rand.Rand, n int) []float64 { // increasing blocks in a random order
		b := 4 + r.Intn(60)
		off := r.Perm(n/b + 1)
		return gen(n, func(i int) float64 { return float64(off[i/b]*b + i%b) })
	}},
	{"zeros-and-signs", func(r *rand.Rand, n int) []float64 {
		vals := []float64{0, math.Copysign(0, -1), 1, -1, 1e-9, -1e-9}
		return gen(n, func(int) float64 { return vals[r.Intn(len(vals))] })
	}},
}

// extremeFamilies are for statistics that only order values (or average two of them).
var extremeFamilies = []family{
	{"huge", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 { return (r.Float64()*2 - 1) * math.MaxFloat64 })
	}},
	{"limits", func(r *rand.Rand, n int) []float64 {
		vals := []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 0,
			math.Copysign(0, -1), 1, -1, math.Nextafter(1, 2), math.Nextafter(1, 0), 1e308, -1e308, 2.3e-308, 1e-310}
		return gen(n, func(int) float64 { return vals[r.Intn(len(vals))] })
	}},
	{"one-sided-huge", func(r *rand.Rand, n int) []float64 {
		s := float64(1 - 2*r.Intn(2))
		return gen(n, func(int) float64 { return s * (1 + r.Float64()) * 8e307 })
	}},
	{"denormal", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 { return float64(r.Intn(41)-20) * math.SmallestNonzeroFloat64 })
	}},
	{"neighbours", func(r *rand.Rand, n int) []float64 {
		base := []float64{1, -1, 1e300, 1e-300, 123456.789}[r.Intn(5)]
		return gen(n, func(int) float64 {
			x := base
			for i := r.Intn(4); i > 0; i-- {
				x = math.Nextafter(x, math.Inf(1))
			}
			return x
		})
	}},
	{"all-bits", func(r *rand.Rand, n int) []float64 {
		return gen(n, func(int) float64 {
			for {
				if x := math.Float64frombits(r.Uint64()); !math.IsNaN(x) && !math.IsInf(x, 0) {
					return x
				}
			}
		})
	}},
}

func pickFamily(r *rand.Rand) family { return families[r.Intn(len(families))] }

func familyByName(n string) family {
	for _, f := range families {
		if f.Name == n {
			return f
		}
	}
	panic("no family " + n)
}

func familyExtreme(n string) family {
	for _, f := range extremeFamilies {
		if f.Name == n {
			return f
		}
	}
	panic("no family " + n)
}

// genPoints makes a stream of points; variables are correlated in various ways.
func genPoints(r *rand.Rand, n, arity int, fams []family) ([][]float64, string) {
	if fams == nil {
		fams = families
	}
	f := fams[r.Intn(len(fams))]
	cols := make([][]float64, arity)
	name := f.Name
	for v := range cols {
		switch {
		case v == 0:
			cols[v] = f.Gen(r, n)
		case r.Intn(3) == 0: // linear dependence plus noise
			a, b := r.NormFloat64(), r.NormFloat64()*5
			cols[v] = gen(n, func(i int) float64 { return a*cols[0][i] + b + 0.3*r.NormFloat64() })
			name += "+linear"
		default:
			g := fams[r.Intn(len(fams))]
			cols[v] = g.Gen(r, n)
			name += "+" + g.Name
		}
	}
	ps := make([][]float64, n)
	for i := range ps {
		ps[i] = make([]float64, arity)
		for v := range cols {
			ps[i][v] = cols[v][i]
		}
	}
	return ps, name
}
