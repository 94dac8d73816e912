package main

import (
	heapops "container/heap"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/sample"
)

// containerQueries: C22 for the containers, the heap and the reservoir.
func containerQueries(c *Ctx) {
	n := c.N(1000, 1500)
	for i := 0; i < n; i++ {
		i := i
		c.Case(fmt.Sprintf("container-%d", i), func(k *Case) {
			r := k.Rng
			im := contByIdx(i, r)
			a, b := im.New(), im.New()
			var m multiset
			query := func(s order.Statistic) {
				x := float64(r.Intn(40)) - 5
				switch r.Intn(5) {
				case 0:
					if nd := s.Select(r.Intn(s.Size()+3) - 1); !isNilNode(nd) {
						nd.Value()
						if t, ok := nd.(treeNode); ok {
							_, _ = t.Left()
							_, _ = t.Right()
						}
					}
				case 1:
					s.Rank(x)
				case 2:
					s.Size()
				case 3:
					if st, ok := s.(fmt.Stringer); ok {
						_ = st.String()
					}
				default:
					if h, ok := s.(interface{ Height() int }); ok {
						h.Height()
					}
				}
			}
			for j := 0; j < 150; j++ {
				for q := r.Intn(4); q > 0; q-- {
					query(a)
					k.Count("queries_inserted", 1)
				}
				x := float64(r.Intn(30))
				if r.Intn(5) < 2 {
					a.Remove(x)
					b.Remove(x)
					m.remove(x)
				} else {
					a.Add(x)
					b.Add(x)
					m.add(x)
				}
			}
			checkCont(k, im, a, m, true)
			checkCont(k, im, b, m, true)
		})
		c.Case(fmt.Sprintf("heap-%d", i), func(k *Case) {
			r := k.Rng
			less := func(x, y float64) bool { return x < y }
			a, b := heap.New("a", nil, less), heap.New("b", nil, less)
			var ia, ib []*heap.Item
			for j := 0; j < 80; j++ {
				for q := r.Intn(3); q > 0 && a.Len() > 0; q-- {
					switch r.Intn(3) {
					case 0:
						a.Peek()
					case 1:
						a.Values()
					default:
						a.Len()
					}
				}
				switch {
				case r.Intn(3) > 0 || len(ia) == 0:
					x := r.NormFloat64()
					p, q := &heap.Item{Val: x}, &heap.Item{Val: x}
					heapops.Push(a, p)
					heapops.Push(b, q)
					ia, ib = append(ia, p), append(ib, q)
				default:
					x := r.NormFloat64()
					t := r.Intn(len(ia))
					a.Update(ia[t], x)
					b.Update(ib[t], x)
				}
				va, vb := a.Values(), b.Values()
				k.EvalH(len(va) > 1, mixHash(uint64(len(va)), math.Float64bits(a.Peek())))
				if !reflect.DeepEqual(va, vb) {
					k.Fail("heap/query-changed-a-result", "heap contents differ when queries are inserted: %v vs %v", va, vb)
				}
			}
		})
		c.Case(fmt.Sprintf("reservoir-%d", i), func(k *Case) {
			r := k.Rng
			res := &sample.Reservoir{Size: r.Intn(20)}
			for j := 0; j < 60; j++ {
				res.Push(j)
				x := res.Sample()
				y := res.Sample()
				k.EvalH(len(x) > 1, hashStr(fmt.Sprint(x)))
				if !reflect.DeepEqual(x, y) {
					k.Fail("reservoir/query-changed-a-result", "two samples in a row differ: %v %v", x, y)
				}
			}
		})
	}
}

// ---- C27 ----

func heapCase(k *Case, n int) {
	r := k.Rng
	cmps := []struct {
		name string
		f    func(a, b float64) bool
		max  bool
	}{
		{"<", func(a, b float64) bool { return a < b }, false},
		{">", func(a, b float64) bool { return a > b }, true},
		{"|<|", func(a, b float64) bool { return math.Abs(a) < math.Abs(b) }, false},
	}
	type side struct {
		h    *heap.Heap
		id   string
		less func(a, b float64) bool
		held map[*heap.Item]float64
		anon []float64 // values given to New: their items are not known yet
	}
	vals := pickFamily(r).Gen(r, n+40)
	vi := 0
	val := func() float64 { vi++; return vals[(vi-1)%len(vals)] }
	var sides []*side
	for i := 0; i < 2; i++ {
		c := cmps[r.Intn(len(cmps))]
		init := make([]float64, r.Intn(3)/2*r.Intn(20))
		for j := range init {
			init[j] = val()
		}
		id := fmt.Sprintf("heap%d", i)
		keep := append([]float64(nil), init...)
		s := &side{h: heap.New(id, init, c.f), id: id, less: c.f, held: map[*heap.Item]float64{}, anon: keep}
		k.logf("New(%q, %s, %s)", id, fmtFs(init), c.name)
		sides = append(sides, s)
	}
	check := func(s *side) {
		want := append([]float64(nil), s.anon...)
		for _, v := range s.held {
			want = append(want, v)
		}
		if s.h.Len() != len(want) {
			k.Fail("heap/Len", "%s: Len() = %d, want %d", s.id, s.h.Len(), len(want))
		}
		got := s.h.Values()
		sort.Float64s(got)
		sort.Float64s(want)
		for i := range want {
			if i >= len(got) || got[i] != want[i] {
				k.Fail("heap/contents", "%s holds %s, want %s", s.id, fmtFs(got), fmtFs(want))
			}
		}
		if len(want) > 0 {
			p := s.h.Peek()
			in := false
			for _, v := range want {
				if s.less(v, p) {
					k.Fail("heap/Peek", "%s: Peek() = %s but %s comes before it", s.id, fmtF(p), fmtF(v))
				}
				in = in || v == p
			}
			if !in {
				k.Fail("heap/Peek", "%s: Peek() = %s is not stored", s.id, fmtF(p))
			}
		}
		for it, v := range s.held {
			if it.Val != v {
				k.Fail("heap/item-value", "an item holds %s, want %s", fmtF(it.Val), fmtF(v))
			}
			if it.HeapID != s.id {
				k.Fail("heap/HeapID", "an item of %s carries the id %q", s.id, it.HeapID)
			}
		}
		k.EvalH(len(want) > 1, mixHash(uint64(len(want)), math.Float64bits(want2(want))))
	}
	pick := func(s *side) *heap.Item {
		its := make([]*heap.Item, 0, len(s.held))
		for it := range s.held {
			its = append(its, it)
		}
		sort.Slice(its, func(i, j int) bool { return its[i].Val < its[j].Val })
		if len(its) == 0 {
			return nil
		}
		switch r.Intn(4) {
		case 0:
			return its[0]
		case 1:
			return its[len(its)-1]
		}
		return its[r.Intn(len(its))]
	}
	pop := func(s *side) *heap.Item {
		top := s.h.Peek()
		it, ok := heapops.Pop(s.h).(*heap.Item)
		if !ok || it == nil {
			k.Fail("heap/Pop", "%s: Pop returned %v", s.id, it)
		}
		if it.Val != top {
			k.Fail("heap/Pop", "%s: Pop gave %s, Peek had shown %s", s.id, fmtF(it.Val), fmtF(top))
		}
		if v, ok := s.held[it]; ok {
			if v != it.Val {
				k.Fail("heap/Pop", "%s: popped item holds %s, want %s", s.id, fmtF(it.Val), fmtF(v))
			}
			delete(s.held, it)
			return it
		}
		for i, v := range s.anon {
			if v == it.Val {
				s.anon = append(s.anon[:i], s.anon[i+1:]...)
				return it
			}
		}
		k.Fail("heap/Pop", "%s: popped %s, which is not stored", s.id, fmtF(it.Val))
		return nil
	}
	for i := 0; i < n; i++ {
		s := sides[r.Intn(2)]
		o := sides[0]
		if o == s {
			o = sides[1]
		}
		switch op := r.Intn(20); {
		case op < 8:
			it := &heap.Item{Val: val()}
			k.logf("%s.Push(%s)", s.id, fmtF(it.Val))
			heapops.Push(s.h, it)
			s.held[it] = it.Val
		case op < 10:
			if s.h.Len() > 0 {
				k.logf("%s.Pop", s.id)
				pop(s)
			}
		case op < 12: // move the root to the other heap
			if s.h.Len() > 0 {
				k.logf("%s.Pop -> %s.Push", s.id, o.id)
				it := pop(s)
				heapops.Push(o.h, it)
				o.held[it] = it.Val
			}
		case op < 17:
			if it := pick(s); it != nil {
				v := val()
				k.logf("%s.Update(%s -> %s)", s.id, fmtF(it.Val), fmtF(v))
				s.h.Update(it, v)
				s.held[it] = v
			}
		default:
			if it := pick(s); it != nil {
				k.logf("%s.Remove(%s)", s.id, fmtF(it.Val))
				s.h.Remove(it)
				delete(s.held, it)
				if r.Intn(3) == 0 {
					k.logf("%s.Push(it again)", o.id)
					heapops.Push(o.h, it)
					o.held[it] = it.Val
				}
			}
		}
		check(s)
		check(o)
	}
	k.Count("heap_ops", int64(n))
	// drain: pops come in order
	for _, s := range sides {
		last, first := 0.0, true
		for s.h.Len() > 0 {
			it := pop(s)
			if !first && s.less(it.Val, last) {
				k.Fail("heap/order", "%s: popped %s after %s", s.id, fmtF(it.Val), fmtF(last))
			}
			last, first = it.Val, false
		}
	}
	k.Sample("two heaps exchanging items, %d operations", n)
}

func want2(xs []float64) float64 {
	s := 0.0
	for i, x := range xs {
		s += x * float64(i+1)
	}
	return s
}

// ---- C16 ----

// zTest judges a count of trials that each succeed with probability p by the Chernoff bound, which
// holds for every number of trials (and for draws without replacement): what is at least as far
// out as count has probability at most exp(-trials*KL(count/trials, p)). The alarm is at exp(-32),
// which for large counts is eight standard deviations.
func zTest(k *Case, what string, count, trials int, p float64) {
	if trials == 0 || p <= 0 || p >= 1 {
		return
	}
	n, q := float64(trials), float64(count)/float64(trials)
	kl := 0.0
	if q > 0 {
		kl += q * math.Log(q/p)
	}
	if q < 1 {
		kl += (1 - q) * math.Log((1-q)/(1-p))
	}
	z := math.Sqrt(2 * n * math.Max(kl, 0))
	k.Max("max_abs_z", z)
	k.Eval(true, what, fmt.Sprint(count))
	if z > 8 {
		k.Fail("reservoir/bias", "%s: seen %d times in %d trials, expected about %.3g (chance below exp(-%.0f))", what, count, trials, n*p, n*kl)
	}
}

func reservoirRun(k *Case, size, n int, check bool) []interface{} {
	res := &sample.Reservoir{Size: size}
	var prev, keep []interface{}
	for i := 0; i < n; i++ {
		res.Push(i)
		if !check && i < n-1 {
			continue
		}
		if check && keep != nil && !reflect.DeepEqual(prev, keep) {
			k.Fail("reservoir/not-a-copy", "a sample taken before push %d changed with it: %v became %v", i, keep, prev)
		}
		s := res.Sample()
		want := i + 1
		if want > size {
			want = size
		}
		if len(s) != want {
			k.Fail("reservoir/size", "size %d: %d items after %d pushes, want %d", size, len(s), i+1, want)
		}
		seen := map[int]bool{}
		for _, x := range s {
			v, ok := x.(int)
			if !ok || v < 0 || v > i || seen[v] {
				k.Fail("reservoir/items", "size %d after %d pushes: sample %v has a foreign or repeated item", size, i+1, s)
			}
			seen[v] = true
		}
		if check {
			k.EvalH(size > 0 && i >= size, hashStr(fmt.Sprint(s)))
			// the caller may do with its copy what it likes
			if i%3 == 0 {
				t := res.Sample()
				for j := range t {
					t[j] = -1
				}
				_ = append(t[:0], -7, -8)
				if u := res.Sample(); !reflect.DeepEqual(u, s) {
					k.Fail("reservoir/not-a-copy", "modifying a returned sample changed the reservoir: %v became %v", s, u)
				}
			}
			prev, keep = s, append([]interface{}(nil), s...)
		} else if i == n-1 {
			return s
		}
	}
	return res.Sample()
}

func init() {
	register("C27", "seeded histories on two heaps (three comparisons, initial values, pushes, pops, value updates and removals of arbitrary items, moves between the heaps); after every call both heaps' Len, Values, Peek, item values and heap ids are compared with a model, and the heaps are drained in order; non-trivial: at least two stored, distinct by contents", func(c *Ctx) {
		n := c.N(2500, 15000)
		for i := 0; i < n; i++ {
			c.Case(fmt.Sprintf("heap-%d", i), func(k *Case) { heapCase(k, 40+k.Rng.Intn(160)) })
		}
	})
	register("C16", "reservoirs of many sizes: after every push the sample is checked for size, distinct known items and independence of the returned slices; inclusion counts of every position, every pair and (for small streams) every subset over many trials against binomial bounds of 8 standard deviations (chance of a false alarm below 1e-10); parallel pushes; non-trivial: more pushes than the size, distinct by sample or count", func(c *Ctx) {
		rand.Seed(c.Seed) // deterministic when the reservoir draws from the shared source (//go:debug randseednop=0)
		for i := 0; i < c.N(240, 800); i++ {
			i := i
			c.Case(fmt.Sprintf("run-%d", i), func(k *Case) {
				size := []int{0, 1, 2, 3, 5, 10, 50, 100}[i%8]
				reservoirRun(k, size, 2*size+20+k.Rng.Intn(100), true)
				k.Sample("reservoir of %d", size)
			})
		}
		// items of every kind, comparable or not
		for i := 0; i < c.N(24, 100); i++ {
			i := i
			c.Case(fmt.Sprintf("items-%d", i), func(k *Case) {
				size := []int{1, 2, 5, 17}[i%4]
				res := &sample.Reservoir{Size: size}
				same := i%3 == 0
				n := 4*size + k.Rng.Intn(50)
				pushed := map[string]int{}
				for j := 0; j < n; j++ {
					tag := j
					if same {
						tag = j % 2
					}
					var x interface{}
					switch (i/3 + j) % 8 {
					case 0:
						x = []int{tag}
					case 1:
						x = map[string]int{"n": tag}
					case 2:
						x = nil
					case 3:
						x = math.NaN()
					case 4:
						x = struct{ F []float64 }{[]float64{float64(tag)}}
					case 5:
						x = &tag
					case 6:
						x = fmt.Sprint(tag)
					default:
						x = float64(tag)
					}
					key := func(x interface{}) string {
						if p, ok := x.(*int); ok {
							return fmt.Sprintf("*%p", p)
						}
						return fmt.Sprintf("%T%v", x, x)
					}
					res.Push(x)
					pushed[key(x)]++
					s := res.Sample()
					want := j + 1
					if want > size {
						want = size
					}
					held := map[string]int{}
					for _, y := range s {
						held[key(y)]++
					}
					k.EvalH(j >= size, hashStr(fmt.Sprint(k.Name, j)))
					if len(s) != want {
						k.Fail("reservoir/size", "size %d: %d items after %d pushes of %T, want %d", size, len(s), j+1, x, want)
					}
					for y, cnt := range held {
						if cnt > pushed[y] {
							k.Fail("reservoir/items", "size %d after %d pushes: the sample holds %s %d times, it was pushed %d times", size, j+1, y, cnt, pushed[y])
						}
					}
				}
			})
		}
		// an item equal to one that is held is sampled like any other
		for rep := 0; rep < c.N(3, 6); rep++ {
			rep := rep
			c.Case(fmt.Sprintf("equal-items-%d", rep), func(k *Case) {
				rand.Seed(k.Rng.Int63())
				for gi, g := range [][3]int{{1, 6, 2}, {3, 9, 3}, {2, 12, 6}, {4, 20, 1}, {3, 30, 10}, {2, 16, 8}} {
					size, n, ones := g[0], g[1], g[2]
					// what the marked and the other items are
					one, zero := interface{}(1), interface{}(0)
					switch (gi + rep) % 6 {
					case 3, 4:
						one = nil
					case 5:
						one, zero = math.NaN(), ""
					case 2:
						one, zero = 0, nil
					}
					for _, late := range []bool{false, true} {
						trials := c.N(30000, 300000)
						got := 0
						for t := 0; t < trials; t++ {
							res := &sample.Reservoir{Size: size}
							for j := 0; j < n; j++ {
								if late && j >= n-ones || !late && j < ones {
									res.Push(one)
								} else {
									res.Push(zero)
								}
							}
							for _, x := range res.Sample() {
								if x != zero {
									got++
								}
							}
							k.EvalH(false, 0)
						}
						k.Count("trials", int64(trials))
						zTest(k, fmt.Sprintf("size %d, %d pushes of which %d (last: %v) are %v, the others %v", size, n, ones, late, one, zero), got, trials*size, float64(ones)/float64(n))
					}
				}
			})
		}
		// every position equally likely
		grid := [][2]int{{1, 2}, {1, 3}, {1, 5}, {1, 10}, {1, 29}, {2, 12}, {2, 25}, {3, 17}, {4, 29}, {5, 28}, {2, 3}, {2, 4}, {2, 6}, {3, 4}, {3, 5}, {3, 8}, {4, 5}, {5, 6}, {5, 20}, {10, 11}, {10, 30}, {10, 100}, {20, 200}, {50, 60}, {100, 1000}, {8, 52}, {16, 200}, {1, 130}, {1, 70}, {2, 300}, {7, 70}, {40, 41}, {64, 130}}
		for gi, g := range grid {
			size, n := g[0], g[1]
			for rep := 0; rep < c.N(1, 4); rep++ {
				c.Case(fmt.Sprintf("uniform-%d-%d-%d", size, n, rep), func(k *Case) {
					rand.Seed(k.Rng.Int63())
					trials := c.N(60000, 1000000)
					if n >= 40 {
						trials = c.N(4000000, 60000000) / n
					}
					pos := make([]int, n)
					pairs := map[[2]int]int{}
					subsets := map[string]int{}
					for t := 0; t < trials; t++ {
						s := reservoirRun(k, size, n, false)
						ids := make([]int, len(s))
						for j, x := range s {
							ids[j] = x.(int)
							pos[ids[j]]++
						}
						if n <= 30 {
							sort.Ints(ids)
							for a := range ids {
								for b := a + 1; b < len(ids); b++ {
									pairs[[2]int{ids[a], ids[b]}]++
								}
							}
							if n <= 6 {
								subsets[fmt.Sprint(ids)]++
							}
						}
						k.EvalH(false, 0)
					}
					k.Count("trials", int64(trials))
					residueTests(k, size, n, trials, pos)
					for i, cnt := range pos {
						zTest(k, fmt.Sprintf("size %d, %d pushes, item %d", size, n, i), cnt, trials, float64(size)/float64(n))
					}
					if n <= 30 && size >= 2 {
						p := float64(size) * float64(size-1) / (float64(n) * float64(n-1))
						for a := 0; a < n; a++ {
							for b := a + 1; b < n; b++ {
								zTest(k, fmt.Sprintf("size %d, %d pushes, items %d and %d together", size, n, a, b), pairs[[2]int{a, b}], trials, p)
							}
						}
					}
					if n <= 6 {
						for s, cnt := range subsets {
							zTest(k, fmt.Sprintf("size %d, %d pushes, sample %s", size, n, s), cnt, trials, 1/binom(n, size))
						}
					}
					k.Sample("size %d, %d pushes, %d trials: first item kept %d times", size, n, trials, pos[0])
				})
			}
			_ = gi
		}
		// long streams, in tenths
		for _, g := range [][2]int{{1, 5000}, {1, 1000}, {2, 3000}, {1, 20000}, {10, 2000}, {7, 4099}, {50, 5000}, {3, 700}, {1, 66000}, {1000, 20000}, {500, 200000}, {2000, 1200000}} {
			size, n := g[0], g[1]
			for rep := 0; rep < c.N(1, 4); rep++ {
				c.Case(fmt.Sprintf("tenths-%d-%d-%d", size, n, rep), func(k *Case) {
					rand.Seed(k.Rng.Int63())
					trials := c.N(80000000, 500000000)/n + 5
					var tenth [10]int
					pos := make([]int, n)
					for t := 0; t < trials; t++ {
						for _, x := range reservoirRun(k, size, n, false) {
							tenth[x.(int)*10/n]++
							pos[x.(int)]++
						}
						k.EvalH(false, 0)
					}
					k.Count("trials", int64(trials))
					// sampling without replacement has at most the variance of sampling with it
					for i, cnt := range tenth {
						lo, hi := (i*n+9)/10, ((i+1)*n+9)/10
						zTest(k, fmt.Sprintf("size %d, %d pushes, items %d to %d", size, n, lo, hi-1), cnt, trials*size, float64(hi-lo)/float64(n))
					}
					residueTests(k, size, n, trials, pos)
				})
			}
		}
		for i := 0; i < c.N(16, 200); i++ {
			c.Case(fmt.Sprintf("parallel-%d", i), func(k *Case) {
				size := 1 + k.Rng.Intn(200)
				res := &sample.Reservoir{Size: size}
				per := 40 + k.Rng.Intn(200)
				var wg sync.WaitGroup
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						for i := 0; i < per; i++ {
							res.Push(g*per + i)
							if i%16 == 0 {
								_ = res.Sample()
							}
						}
					}(g)
				}
				wg.Wait()
				s := res.Sample()
				want := 8 * per
				if want > size {
					want = size
				}
				seen := map[interface{}]bool{}
				for _, x := range s {
					seen[x] = true
				}
				k.EvalH(true, hashStr(fmt.Sprint(len(s), size, per)))
				if len(s) != want || len(seen) != want {
					k.Fail("reservoir/parallel", "size %d after %d parallel pushes: %d items, %d distinct, want %d", size, 8*per, len(s), len(seen), want)
				}
			})
		}
	})
	register("C25", "a catalogue of metrics over a grid of parameters (windows, lags, orders, decays close to each other, interpolations): names are compared pairwise, between instances built twice, and before, during and after pushes, queries and Clear, and sampled pairs are put into one aggregate; non-trivial: every comparison, distinct by pair", func(c *Ctx) {
		c.Case("catalogue", func(k *Case) { nameCatalogue(k) })
		for i := 0; i < c.N(1000, 3000); i++ {
			i := i
			c.Case(fmt.Sprintf("life-%d", i), func(k *Case) {
				r := k.Rng
				named := append(append([]string{"Quantile"}, simpleClasses...), jointClasses...)
				kd := randKind(r, named[i%len(named)], 33)
				in := kd.make()
				name := in.Str()
				for _, o := range genScript(k, kd, 30+r.Intn(60), true, 3) {
					playOn(k, kd, in, script{o})
					if s := in.Str(); s != name {
						k.Fail(kd.Class+"/name-changed", "%s: String was %q and is now %q", kd.Name, name, s)
					}
					k.Eval(true, kd.Name, name)
				}
				if s := kd.make().Str(); s != name {
					k.Fail(kd.Class+"/name-differs", "%s: two metrics with the same parameters are called %q and %q", kd.Name, name, s)
				}
			})
		}
	})
}

// residueTests judges how often the items of each residue class, and those whose number is a power of
// two (counted from one), were held; pos says how often each item was, over the trials.
func residueTests(k *Case, size, n, trials int, pos []int) {
	// sampling without replacement has at most the variance of sampling with it
	for _, m := range []int{2, 3, 5, 7, 8, 10, 16, 31, 32, 60, 64, 100, 127, 128, 256, 1000, 1024, 4096} {
		if m > n/2 {
			break
		}
		held := make([]int, m)
		for i, cnt := range pos {
			held[i%m] += cnt
		}
		for i, cnt := range held {
			zTest(k, fmt.Sprintf("size %d, %d pushes, items that are %d modulo %d", size, n, i, m), cnt, trials*size, float64((n-i+m-1)/m)/float64(n))
		}
	}
	cnt, items := 0, 0
	for i := 1; i <= n; i *= 2 {
		cnt += pos[i-1]
		items++
	}
	zTest(k, fmt.Sprintf("size %d, %d pushes, items whose position is a power of two", size, n), cnt, trials*size, float64(items)/float64(n))
}

func binom(n, k int) float64 {
	x := 1.0
	for i := 0; i < k; i++ {
		x = x * float64(n-i) / float64(i+1)
	}
	return math.Round(x)
}

func nameCatalogue(k *Case) {
	r := k.Rng
	type named struct{ id, name string }
	var all []named
	add := func(id string, kd *Kind) {
		a, b := kd.make().Str(), kd.make().Str()
		if a != b {
			k.FailGo(kd.Class+"/name-differs", "%s: two metrics with the same parameters are called %q and %q", id, a, b)
		}
		if strings.TrimSpace(a) == "" {
			k.FailGo(kd.Class+"/name-empty", "%s has an empty name", id)
		}
		all = append(all, named{id, a})
	}
	ws := []int{0, 1, 2, 3, 9, 10, 11, 12, 21, 100, 101, 110, 1000, 1001}
	ds := []float64{0.001, 0.01, 0.1, 0.10000000000000002, 0.1000001, 0.3, 0.30000000000000004, 0.5, 0.9999999, 0.99999999}
	for _, w := range ws {
		add(fmt.Sprintf("Min %d", w), kindMin(w, false, false))
		add(fmt.Sprintf("Max %d", w), kindMin(w, true, false))
		for i := 0; i < 5; i++ {
			add(fmt.Sprintf("Quantile %d interpolation %d", w, i), kindQuantile(r, w, r.Intn(3), i, nil))
		}
		add(fmt.Sprintf("Median %d", w), kindMedian(r, w, r.Intn(3), false))
		add(fmt.Sprintf("IQR %d", w), kindMedian(r, w, r.Intn(3), true))
		add(fmt.Sprintf("HeapMedian %d", w), kindHeapMedian(w, false))
		add(fmt.Sprintf("Mean %d", w), kindMean(w))
		for _, m := range []int{1, 2, 3, 10, 11, 12} {
			add(fmt.Sprintf("Moment %d %d", m, w), kindMoment(m, w))
		}
		add(fmt.Sprintf("Std %d", w), kindStd(w))
		add(fmt.Sprintf("Skewness %d", w), kindSkew(w))
		add(fmt.Sprintf("Kurtosis %d", w), kindKurt(w))
		add(fmt.Sprintf("Cov %d", w), kindCov(w))
		add(fmt.Sprintf("Corr %d", w), kindCorr(w))
		for _, l := range []int{0, 1, 2, 10, 11} {
			add(fmt.Sprintf("Autocov %d %d", l, w), kindAuto(l, w, false))
			add(fmt.Sprintf("Autocorr %d %d", l, w), kindAuto(l, w, true))
		}
	}
	for _, d := range ds {
		add(fmt.Sprintf("EWMA %v", d), kindEWMA(d))
		add(fmt.Sprintf("EWMStd %v", d), kindEWMStd(d))
		for _, m := range []int{1, 2, 3, 10} {
			add(fmt.Sprintf("EWMMoment %d %v", m, d), kindEWMMoment(m, d))
		}
		add(fmt.Sprintf("EWMCov %v", d), kindEWMCov(d))
		add(fmt.Sprintf("EWMCorr %v", d), kindEWMCorr(d))
	}
	// large parameters, and parameters that differ in their high digits only
	for _, w := range []int{32, 42, 64, 74, 256, 266, 4106, 65536, 65537, 65546, 100001, 131082} {
		add(fmt.Sprintf("Min %d", w), kindMin(w, false, false))
		add(fmt.Sprintf("Max %d", w), kindMin(w, true, false))
		for i := 0; i < 5; i++ {
			add(fmt.Sprintf("Quantile %d interpolation %d", w, i), kindQuantile(r, w, r.Intn(3), i, nil))
		}
		add(fmt.Sprintf("Median %d", w), kindMedian(r, w, r.Intn(3), false))
		add(fmt.Sprintf("IQR %d", w), kindMedian(r, w, r.Intn(3), true))
		add(fmt.Sprintf("HeapMedian %d", w), kindHeapMedian(w, false))
		for _, l := range []int{0, 10} {
			add(fmt.Sprintf("Autocov %d %d", l, w), kindAuto(l, w, false))
			add(fmt.Sprintf("Autocorr %d %d", l, w), kindAuto(l, w, true))
			add(fmt.Sprintf("Autocov %d %d", w, l), kindAuto(w, l, false))
			add(fmt.Sprintf("Autocorr %d %d", w, l), kindAuto(w, l, true))
		}
	}
	bare := func(id string, mk func() fmt.Stringer) {
		a, b := mk().String(), mk().String()
		if a != b {
			k.FailGo("bare/name-differs", "%s: two metrics with the same parameters are called %q and %q", id, a, b)
		}
		all = append(all, named{id, a})
	}
	for _, w := range []int{32, 42, 64, 74, 256, 266, 4106, 65536, 65537, 65546, 100001, 131082, 1 << 31, 1<<31 + 10, 1 << 32, 1<<32 + 10, 1<<53 + 1, 1<<53 + 2, math.MaxInt64} {
		w := w
		bare(fmt.Sprintf("Mean %d", w), func() fmt.Stringer { return moment.NewMean(w) })
		for _, m := range []int{1, 2, 9} {
			bare(fmt.Sprintf("Moment %d %d", m, w), func() fmt.Stringer { return moment.New(m, w) })
			bare(fmt.Sprintf("Moment %d %d", w, m), func() fmt.Stringer { return moment.New(w, m) })
			bare(fmt.Sprintf("EWMMoment %d %v", w, ds[m]), func() fmt.Stringer { return moment.NewEWMMoment(w, ds[m]) })
		}
		bare(fmt.Sprintf("Std %d", w), func() fmt.Stringer { return moment.NewStd(w) })
		bare(fmt.Sprintf("Skewness %d", w), func() fmt.Stringer { return moment.NewSkewness(w) })
		bare(fmt.Sprintf("Kurtosis %d", w), func() fmt.Stringer { return moment.NewKurtosis(w) })
		bare(fmt.Sprintf("Cov %d", w), func() fmt.Stringer { return joint.NewCov(w) })
		bare(fmt.Sprintf("Corr %d", w), func() fmt.Stringer { return joint.NewCorr(w) })
	}
	for _, base := range []float64{0.25, 0.7, 1e-3, 1e-12, 1e-300, 5e-324} {
		for i, d := 0, base; i < 3; i, d = i+1, math.Nextafter(d, 1) {
			d := d
			bare(fmt.Sprintf("EWMA %v", d), func() fmt.Stringer { return moment.NewEWMA(d) })
			bare(fmt.Sprintf("EWMStd %v", d), func() fmt.Stringer { return moment.NewEWMStd(d) })
			bare(fmt.Sprintf("EWMMoment 2 %v", d), func() fmt.Stringer { return moment.NewEWMMoment(2, d) })
			bare(fmt.Sprintf("EWMCov %v", d), func() fmt.Stringer { return joint.NewEWMCov(d) })
			bare(fmt.Sprintf("EWMCorr %v", d), func() fmt.Stringer { return joint.NewEWMCorr(d) })
		}
	}
	seen := map[string]string{}
	for _, n := range all {
		k.Eval(true, n.id)
		if o, ok := seen[n.name]; ok && o != n.id {
			k.FailGo("name-collision", "%s and %s are both called %q", o, n.id, n.name)
		}
		seen[n.name] = n.id
	}
	k.Count("names", int64(len(all)))
	k.Count("pairs_compared", int64(len(all)*(len(all)-1)/2))
	k.Sample("%d metrics, e.g. %q", len(all), all[len(all)/2].name)
	// the same name whichever constructor makes a global metric
	for _, p := range [][2]*Kind{{kindMin(0, false, true), kindMin(0, false, false)}, {kindMin(0, true, true), kindMin(0, true, false)},
		{kindHeapMedian(0, true), kindHeapMedian(0, false)}} {
		if a, b := p[0].make().Str(), p[1].make().Str(); a != b {
			k.FailGo("name-differs", "global constructors give %q and %q", a, b)
		}
		k.Eval(true, p[0].Name)
	}
	// different metrics of one aggregate do not hide each other
	for i := 0; i < 300; i++ {
		var ms []*Kind
		for j := 2 + r.Intn(4); j > 0; j-- {
			c := simpleClasses[r.Intn(len(simpleClasses))]
			if r.Intn(2) == 0 && len(ms) > 0 {
				c = ms[0].Class // the same kind, other parameters
			}
			ms = append(ms, randKind(r, c, 33))
		}
		ids := map[string]bool{}
		var distinct []*Kind
		for _, m := range ms {
			id := fmt.Sprintf("%s w%d lag%d d%v %s", m.Class, m.Window, m.Lag, m.Decay, m.Name)
			if m.Class == "Median" || m.Class == "IQR" {
				id = fmt.Sprintf("%s w%d", m.Class, m.Window) // the implementation is not part of the name
			}
			if !ids[id] {
				ids[id] = true
				distinct = append(distinct, m)
			}
		}
		in := kindAgg(distinct).make()
		for j := 0; j < 40; j++ {
			_ = in.Push(r.NormFloat64())
		}
		for _, o := range in.Snap() {
			k.Eval(true, o.Label)
			if o.Err != nil {
				k.FailGo("aggregate-key", "aggregate of %d distinct metrics: %s: %v", len(distinct), o.Label, o.Err)
			}
		}
	}
}
