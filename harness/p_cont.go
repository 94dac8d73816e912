package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sort"

	"verif/vsync"

	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
)

// contImpl is one order-statistic container.
type contImpl struct {
	Class, Name string
	New         func() order.Statistic
}

func avlImpl() contImpl {
	return contImpl{"avl", "avl.Tree", func() order.Statistic { return &avl.Tree{} }}
}
func rbImpl() contImpl {
	return contImpl{"rb", "rb.Tree", func() order.Statistic { return &rb.Tree{} }}
}
func slImpl(r *rand.Rand) contImpl {
	mk, name := skipOpts(r)
	return contImpl{"skiplist", name, func() order.Statistic {
		s, err := skiplist.New(mk()...)
		if err != nil {
			panic(err)
		}
		return s
	}}
}

func contByIdx(i int, r *rand.Rand) contImpl {
	switch i % 3 {
	case 0:
		return avlImpl()
	case 1:
		return rbImpl()
	}
	return slImpl(r)
}

// multiset is the reference: a sorted slice.
type multiset []float64

func (m *multiset) rank(x float64) int { return sort.SearchFloat64s(*m, x) }
func (m *multiset) add(x float64) {
	i := m.rank(x)
	*m = append(*m, 0)
	copy((*m)[i+1:], (*m)[i:])
	(*m)[i] = x
}
func (m *multiset) remove(x float64) bool {
	i := m.rank(x)
	if i < len(*m) && (*m)[i] == x {
		*m = append((*m)[:i], (*m)[i+1:]...)
		return true
	}
	return false
}

func isNilNode(n order.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// checkCont compares Size, Select and Rank with the model; full: every index and value.
func checkCont(k *Case, im contImpl, s order.Statistic, m multiset, full bool) {
	bad := func(f string, a ...interface{}) { k.Fail(im.Class+"/"+f[:4], im.Name+": "+f, a...) }
	if s.Size() != len(m) {
		bad("Size() = %d, want %d", s.Size(), len(m))
	}
	sel := func(i int) {
		n := s.Select(i)
		if i < 0 || i >= len(m) {
			// out of range: nil, as an interface or a nil node of the implementation
			if !isNilNode(n) {
				bad("Select(%d) of %d values is %v, want nil", i, len(m), n.Value())
			}
			return
		}
		if isNilNode(n) {
			bad("Select(%d) of %d values is nil", i, len(m))
		}
		if n.Value() != m[i] {
			bad("Select(%d) of %d values is %s, want %s", i, len(m), fmtF(n.Value()), fmtF(m[i]))
		}
	}
	rank := func(x float64) {
		if got, want := s.Rank(x), m.rank(x); got != want {
			bad("Rank(%s) over %d values is %d, want %d", fmtF(x), len(m), got, want)
		}
	}
	sel(-1)
	sel(len(m))
	sel(len(m) + 1 + k.Rng.Intn(5))
	if k.Rng.Intn(8) == 0 {
		sel(math.MinInt)
		sel(math.MaxInt)
	}
	rank(math.Inf(-1))
	rank(math.Inf(1))
	h := uint64(len(m))
	if full {
		for i, x := range m {
			sel(i)
			if i == 0 || m[i-1] != x {
				rank(x)
				rank(math.Nextafter(x, math.Inf(1)))
				rank(math.Nextafter(x, math.Inf(-1)))
			}
			h = mixHash(h, math.Float64bits(x))
		}
	} else {
		for j := 0; j < 6 && len(m) > 0; j++ {
			i := k.Rng.Intn(len(m))
			sel(i)
			rank(m[i])
			rank(m[i] + (k.Rng.Float64() - 0.5))
			h = mixHash(h, math.Float64bits(m[i]))
		}
	}
	k.EvalH(len(m) >= 2, mixHash(h, hashStr(im.Name)))
}

// contMix drives a container with an operation mix and checks it against the model.
func contMix(k *Case, im contImpl, mix string, ops int, fam family, target int, each func(s order.Statistic, m multiset, i int)) {
	r := k.Rng
	s := im.New()
	var m multiset
	var fifo []float64
	k.logf("%s mix=%s values=%s target=%d", im.Name, mix, fam.Name, target)
	vals := fam.Gen(r, ops+1)
	next := 0
	val := func() float64 { next++; return vals[(next-1)%len(vals)] }
	add := func(x float64) {
		k.logf("Add(%s)", fmtF(x))
		s.Add(x)
		m.add(x)
		fifo = append(fifo, x)
	}
	remove := func(x float64) {
		k.logf("Remove(%s)", fmtF(x))
		s.Remove(x)
		if m.remove(x) {
			for i, y := range fifo {
				if y == x {
					fifo = append(fifo[:i], fifo[i+1:]...)
					break
				}
			}
		}
	}
	growing := true
	for i := 0; i < ops; i++ {
		switch mix {
		case "fifo": // a sliding window
			if len(m) >= target {
				remove(fifo[0])
			}
			add(val())
		case "lifo":
			if len(m) >= target || len(m) > 0 && r.Intn(3) == 0 {
				remove(fifo[len(fifo)-1])
			} else {
				add(val())
			}
		case "waves": // grow to the target, shrink to nothing, ...
			if len(m) >= target {
				growing = false
			} else if len(m) == 0 {
				growing = true
			}
			if growing {
				add(val())
			} else {
				remove(m[r.Intn(len(m))])
			}
		case "ends": // remove at either end of the order
			if len(m) >= target || len(m) > 0 && r.Intn(5) == 0 {
				if r.Intn(2) == 0 {
					remove(m[0])
				} else {
					remove(m[len(m)-1])
				}
			} else {
				add(val())
			}
		case "one-end":
			if len(m) >= target {
				remove(m[0])
			} else {
				add(val())
			}
		default: // random
			switch p := r.Intn(100); {
			case p < 55 && len(m) < target || len(m) == 0 && p < 90:
				add(val())
			case p < 88 && len(m) > 0:
				remove(m[r.Intn(len(m))])
			case p < 97: // a value that may be absent
				x := val()
				if r.Intn(2) == 0 && len(m) > 0 {
					x = math.Nextafter(m[r.Intn(len(m))], 0)
				}
				remove(x)
				k.Count("removals_of_possibly_absent_values", 1)
			default:
				if r.Intn(1+ops/150) == 0 {
					k.logf("Clear")
					s.Clear()
					m, fifo = nil, nil
					k.Count("clears", 1)
				}
			}
		}
		each(s, m, i)
	}
	k.Count("container_ops", int64(ops))
	k.Max("largest_container", float64(len(m)))
	k.Sample("%s: %s mix, %d operations on %s values, up to %d stored", im.Name, mix, ops, fam.Name, target)
}

var mixes = []string{"random", "fifo", "lifo", "waves", "ends", "one-end"}

// exhaustive runs every Add/Remove sequence of a length over a few values, checking after every step.
func contExhaustive(k *Case, im contImpl, alphabet []float64, length int) {
	n := 2 * len(alphabet)
	total := 1
	for i := 0; i < length; i++ {
		total *= n
	}
	for code := 0; code < total; code++ {
		s := im.New()
		var m multiset
		k.Trace = k.Trace[:0]
		c := code
		for i := 0; i < length; i++ {
			op := c % n
			c /= n
			x := alphabet[op/2]
			if op%2 == 0 {
				k.logf("Add(%s)", fmtF(x))
				s.Add(x)
				m.add(x)
			} else {
				k.logf("Remove(%s)", fmtF(x))
				s.Remove(x)
				m.remove(x)
			}
		}
		checkCont(k, im, s, m, true)
	}
	k.Count("exhaustive_sequences", int64(total))
}

// ---- balance ----

type treeNode interface {
	order.Node
	Left() (order.Node, error)
	Right() (order.Node, error)
}

// treeHeight measures the real height (edges on the longest path) through the exported node
// accessors; ok is false when the nodes cannot be walked that way.
func treeHeight(s order.Statistic) (int, bool) {
	n := s.Size()
	if n == 0 {
		return -1, true
	}
	isChild := map[order.Node]bool{}
	nodes := make([]treeNode, 0, n)
	for i := 0; i < n; i++ {
		x, ok := s.Select(i).(treeNode)
		if !ok || isNilNode(x) {
			return 0, false
		}
		nodes = append(nodes, x)
	}
	kids := func(x treeNode) (out []order.Node) {
		for _, f := range []func() (order.Node, error){x.Left, x.Right} {
			if c, err := f(); err == nil && !isNilNode(c) {
				out = append(out, c)
			}
		}
		return
	}
	for _, x := range nodes {
		for _, c := range kids(x) {
			isChild[c] = true
		}
	}
	var root treeNode
	for _, x := range nodes {
		if !isChild[x] {
			if root != nil {
				return 0, false
			}
			root = x
		}
	}
	if root == nil {
		return 0, false
	}
	seen, height := 0, -1
	level := []order.Node{root}
	for len(level) > 0 && seen <= n {
		height++
		var next []order.Node
		for _, x := range level {
			seen++
			t, ok := x.(treeNode)
			if !ok {
				return 0, false
			}
			next = append(next, kids(t)...)
		}
		level = next
	}
	return height, seen == n
}

func heightBound(class string, n int) float64 {
	if class == "avl" {
		return 1.45 * math.Log2(float64(n+2))
	}
	return 2*math.Log2(float64(n+1)) + 2
}

func checkHeight(k *Case, im contImpl, s order.Statistic) {
	h, ok := treeHeight(s)
	if !ok {
		k.Count("heights_not_walkable", 1)
		return
	}
	n := s.Size()
	b := heightBound(im.Class, n)
	k.EvalH(n >= 3, mixHash(hashStr(im.Class), uint64(n)<<8+uint64(h)))
	k.Max("max_height_over_bound_"+im.Class, float64(h)/math.Max(b, 1))
	k.Count("heights_checked", 1)
	if float64(h) > b {
		k.Fail(im.Class+"/height", "%s: height %d with %d elements exceeds %.2f", im.Name, h, n, b)
	}
	checkRules(k, im, s, n)
	if t, ok := s.(*avl.Tree); ok && t.Height() != h {
		k.Fail(im.Class+"/height-field", "%s: Height() = %d but the tree of %d elements is %d high", im.Name, t.Height(), n, h)
	}
}

// checkRules walks every node: the subtrees of an AVL node differ in height by at most one, a red
// node other than the root has no red child, and the paths from a red-black node to its leaves pass equally many black nodes.
func checkRules(k *Case, im contImpl, s order.Statistic, n int) {
	root := treeRoot(s)
	if root == nil {
		if n > 0 {
			k.Count("rules_not_walkable", 1)
		}
		return
	}
	type colored interface{ Color() rb.Color }
	var walk func(x treeNode) (height, black int)
	walk = func(x treeNode) (int, int) {
		var hs, bs [2]int
		red := false
		if c, ok := x.(colored); ok {
			red = c.Color() == rb.Red
		}
		for i, f := range []func() (order.Node, error){x.Left, x.Right} {
			c, err := f()
			if err != nil || isNilNode(c) {
				continue
			}
			t, ok := c.(treeNode)
			if !ok {
				continue
			}
			hs[i], bs[i] = walk(t)
			if cc, ok := c.(colored); ok && red && x != root && cc.Color() == rb.Red {
				k.Fail(im.Class+"/red-red", "%s: with %d elements the red node %s has the red child %s", im.Name, n, fmtF(x.Value()), fmtF(t.Value()))
			}
		}
		switch d := hs[0] - hs[1]; im.Class {
		case "avl":
			if d < -1 || d > 1 {
				k.Fail(im.Class+"/balance", "%s: with %d elements the subtrees of node %s have %d and %d levels", im.Name, n, fmtF(x.Value()), hs[0], hs[1])
			}
		case "rb":
			if bs[0] != bs[1] {
				k.Fail(im.Class+"/black-height", "%s: with %d elements the subtrees of node %s have %d and %d black levels", im.Name, n, fmtF(x.Value()), bs[0], bs[1])
			}
		}
		b := bs[0]
		if !red {
			b++
		}
		if hs[1] > hs[0] {
			hs[0] = hs[1]
		}
		return hs[0] + 1, b
	}
	walk(root)
	k.Count("rules_checked", 1)
}

var balanceFams = []string{"increasing", "decreasing", "organ-pipe", "uniform", "sawtooth", "tiny-alphabet", "random-walk", "alternating", "small-ints", "inward", "outward", "bit-reversed", "nested", "blocks"}

// growAndDrain fills a tree without any removal, then empties it in one of several orders.
func growAndDrain(k *Case, im contImpl, i int) {
	r := k.Rng
	n := []int{40, 200, 1000, 3000}[i%4]
	if k.Tier == "thorough" {
		n *= 1 + r.Intn(6)
	}
	var xs []float64
	switch name := i / 4 % (len(balanceFams) + 3); {
	case name < len(balanceFams):
		xs = familyByName(balanceFams[name]).Gen(r, n)
	case name == len(balanceFams):
		xs = gen(n, func(int) float64 { return 3.5 })
	case name == len(balanceFams)+1: // long runs
		run := 20 + r.Intn(200)
		lv := r.Perm(n/run + 1)
		xs = gen(n, func(j int) float64 { return float64(lv[j/run]) })
	default: // one value again and again among distinct ones
		xs = gen(n, func(j int) float64 {
			if j%3 > 0 {
				return 0
			}
			return r.NormFloat64()
		})
	}
	s := im.New()
	var held multiset
	for j, x := range xs {
		s.Add(x)
		held.add(x)
		if j < 40 || j%(1+n/40) == 0 || j == n-1 {
			checkHeight(k, im, s)
		}
	}
	if s.Size() != n {
		k.Fail(im.Class+"/Size", "%s: Size() = %d after %d additions", im.Name, s.Size(), n)
	}
	order := i / 4 % 5
	for j := 0; len(held) > 0; j++ {
		at := 0
		switch order {
		case 1:
			at = len(held) - 1
		case 2:
			at = r.Intn(len(held))
		case 3: // the root's neighbourhood
			at = len(held) / 2
		case 4: // one flank, then the other
			if j < n/2 {
				at = len(held) * 3 / 4
			}
		}
		x := held[at]
		s.Remove(x)
		held.remove(x)
		if len(held) < 40 || j%(1+n/40) == 0 {
			checkHeight(k, im, s)
		}
	}
	k.Count("grown_and_drained", 1)
}

// adversary looks at the tree and does what makes it most lopsided: values are added next to the
// deepest leaf and removed where the tree is shallow, or at the root.
func adversary(k *Case, im contImpl, i int) {
	r := k.Rng
	n := []int{30, 80, 200, 500}[i%4]
	s := im.New()
	var held multiset
	fam := familyByName(balanceFams[r.Intn(len(balanceFams))])
	for _, x := range fam.Gen(r, n) {
		s.Add(x)
		held.add(x)
	}
	style := i / 4 % 4
	kids := func(x treeNode) (l, rt treeNode) {
		if c, err := x.Left(); err == nil && !isNilNode(c) {
			l, _ = c.(treeNode)
		}
		if c, err := x.Right(); err == nil && !isNilNode(c) {
			rt, _ = c.(treeNode)
		}
		return
	}
	for step := 0; step < k.N(700, 4000) && len(held) > 0; step++ {
		root := treeRoot(s)
		if root == nil {
			k.Count("heights_not_walkable", 1)
			return
		}
		height := map[treeNode]int{}
		var walk func(x treeNode) int
		walk = func(x treeNode) int {
			l, rt := kids(x)
			h := 0
			if l != nil {
				h = walk(l) + 1
			}
			if rt != nil {
				if g := walk(rt) + 1; g > h {
					h = g
				}
			}
			height[x] = h
			return h
		}
		walk(root)
		descend := func(deep bool) treeNode {
			x := root
			for {
				l, rt := kids(x)
				switch {
				case l == nil && rt == nil:
					return x
				case l == nil:
					if !deep {
						return x
					}
					x = rt
				case rt == nil:
					if !deep {
						return x
					}
					x = l
				case (height[l] > height[rt]) == deep || height[l] == height[rt] && r.Intn(2) == 0:
					x = l
				default:
					x = rt
				}
			}
		}
		remove := len(held) >= n || len(held) > n/2 && r.Intn(2) == 0
		if style == 3 { // only remove
			remove = true
		}
		if remove {
			var x float64
			switch {
			case style == 1 || style == 3 && r.Intn(3) == 0:
				x = root.Value()
			case style == 2 && r.Intn(2) == 0: // an inner node on the way to the shallowest leaf
				x = root.Value()
				l, rt := kids(root)
				if l != nil && rt != nil {
					if height[l] < height[rt] {
						x = l.Value()
					} else {
						x = rt.Value()
					}
				}
			default:
				x = descend(false).Value()
			}
			k.logf("Remove(%s)", fmtF(x))
			s.Remove(x)
			held.remove(x)
		} else {
			x := descend(true).Value()
			j := held.rank(x)
			lo, hi := x-1, x+1
			if j > 0 {
				lo = held[j-1]
			}
			if j+1 < len(held) {
				hi = held[j+1]
			}
			if r.Intn(2) == 0 {
				x = x + (hi-x)/2
			} else {
				x = x + (lo-x)/2
			}
			k.logf("Add(%s)", fmtF(x))
			s.Add(x)
			held.add(x)
		}
		checkHeight(k, im, s)
	}
	k.Count("adversaries", 1)
}

// sizedRoot finds the node whose subtree is as large as the container; nil when there is none.
func sizedRoot(s order.Statistic, old treeNode) treeNode {
	type sized interface{ Size() int }
	n := s.Size()
	if x, ok := old.(sized); ok && x.Size() == n {
		return old
	}
	for i := 0; i < n; i++ {
		x, ok := s.Select(i).(treeNode)
		if !ok || isNilNode(x) {
			return nil
		}
		if z, ok := x.(sized); !ok {
			return nil
		} else if z.Size() == n {
			return x
		}
	}
	return nil
}

// pathRules checks the nodes a search for x passes: balance by the nodes' own heights, and colours.
func pathRules(k *Case, im contImpl, root treeNode, x float64, right bool, n int) {
	type tall interface{ Height() int }
	type colored interface{ Color() rb.Color }
	for at := root; at != nil; {
		var kid [2]treeNode
		hs := [2]int{-1, -1}
		for i, f := range []func() (order.Node, error){at.Left, at.Right} {
			c, err := f()
			if err != nil || isNilNode(c) {
				continue
			}
			kid[i], _ = c.(treeNode)
			if t, ok := c.(tall); ok {
				hs[i] = t.Height()
			}
			p, ok1 := at.(colored)
			q, ok2 := c.(colored)
			if ok1 && ok2 && at != root && p.Color() == rb.Red && q.Color() == rb.Red {
				k.Fail(im.Class+"/red-red", "%s: with %d elements the red node %s has the red child %s", im.Name, n, fmtF(at.Value()), fmtF(kid[i].Value()))
			}
		}
		if d := hs[0] - hs[1]; im.Class == "avl" && (d < -1 || d > 1) {
			if _, ok := at.(tall); ok {
				k.Fail(im.Class+"/balance", "%s: with %d elements the subtrees of node %s are %d and %d high", im.Name, n, fmtF(at.Value()), hs[0], hs[1])
			}
		}
		if x < at.Value() || x == at.Value() && !right {
			at = kid[0]
		} else {
			at = kid[1]
		}
	}
}

// bigTree lets a large tree grow and shrink in bursts: runs of additions into one gap, and of removals
// of neighbours. The path of every update is checked right after it, the whole tree now and then.
func bigTree(k *Case, im contImpl, i int) {
	r := k.Rng
	n := []int{3000, 9000, 20000}[i%3]
	s := im.New()
	held := make(multiset, 0, 2*n)
	for _, x := range familyByName(balanceFams[i/3%len(balanceFams)]).Gen(r, n) {
		s.Add(x)
		held = append(held, x)
	}
	sort.Float64s(held)
	root := treeRoot(s)
	if root == nil {
		k.Count("heights_not_walkable", 1)
		return
	}
	after := func(xs ...float64) {
		root = sizedRoot(s, root)
		if root == nil {
			if root = treeRoot(s); root == nil {
				return
			}
		}
		for _, x := range xs {
			pathRules(k, im, root, x, false, len(held))
			pathRules(k, im, root, x, true, len(held))
		}
		k.Count("paths_checked", int64(2*len(xs)))
	}
	for burst := 0; burst < k.N(24, 120) && len(held) > 2; burst++ {
		m := 1 + int(math.Exp(r.Float64()*math.Log(float64(n)/4)))
		at := r.Intn(len(held) - 1)
		if len(held) > n*3/2 || len(held) > n/4 && r.Intn(2) == 0 {
			if m > len(held)/2 {
				m = len(held) / 2
			}
			from := r.Intn(len(held) - m)
			gone := append([]float64(nil), held[from:from+m]...)
			next := held[from+m]
			held = append(held[:from], held[from+m:]...)
			switch r.Intn(3) {
			case 0:
				r.Shuffle(m, func(i, j int) { gone[i], gone[j] = gone[j], gone[i] })
			case 1:
				for i, j := 0, m-1; i < j; i, j = i+1, j-1 {
					gone[i], gone[j] = gone[j], gone[i]
				}
			}
			for j, x := range gone {
				s.Remove(x)
				if j+1 < m && r.Intn(2) == 0 {
					after(x, gone[j+1])
				} else {
					after(x, next)
				}
			}
			k.logf("removed %d values up to %s", m, fmtF(next))
		} else {
			lo, hi := held[at], held[at+1]
			style := r.Intn(3)
			for j := 0; j < m; j++ {
				x := lo + (hi-lo)*r.Float64()
				switch style {
				case 1:
					x = lo + (hi-lo)*float64(j+1)/float64(m+1)
				case 2:
					x = hi - (hi-lo)*float64(j+1)/float64(m+1)
				}
				s.Add(x)
				held = append(held, x)
				after(x)
			}
			sort.Float64s(held)
			k.logf("added %d values between %s and %s", m, fmtF(lo), fmtF(hi))
		}
		if s.Size() != len(held) {
			k.Fail(im.Class+"/Size", "%s: Size() = %d, want %d", im.Name, s.Size(), len(held))
		}
		if burst%6 == 5 {
			checkHeight(k, im, s)
		}
	}
	k.Count("big_trees", 1)
}

// treeRoot finds the node that is nobody's child; nil when the nodes cannot be walked.
func treeRoot(s order.Statistic) treeNode {
	isChild := map[order.Node]bool{}
	var nodes []treeNode
	for i, n := 0, s.Size(); i < n; i++ {
		x, ok := s.Select(i).(treeNode)
		if !ok || isNilNode(x) {
			return nil
		}
		nodes = append(nodes, x)
		for _, f := range []func() (order.Node, error){x.Left, x.Right} {
			if c, err := f(); err == nil && !isNilNode(c) {
				isChild[c] = true
			}
		}
	}
	for _, x := range nodes {
		if !isChild[x] {
			return x
		}
	}
	return nil
}

// searchGrowth compares the average cost of the operations of one container at growing sizes.
func searchGrowth(k *Case, im contImpl, fam string, sizes []int) {
	r := k.Rng
	s := im.New()
	xs := familyByName(fam).Gen(r, sizes[len(sizes)-1]+1)
	if r.Intn(2) == 0 { // some past that is cleared
		for _, x := range xs[:1000+r.Intn(3000)] {
			s.Add(x)
		}
		s.Clear()
		k.Count("cleared_before", 1)
	}
	type cost struct{ n, rank, upd float64 }
	var first cost
	for i, n := range sizes {
		for j := s.Size(); j < n; j++ {
			s.Add(xs[j])
		}
		const reps = 1500
		a := vsync.Steps
		for j := 0; j < reps; j++ {
			s.Rank(xs[r.Intn(n)])
			s.Select(r.Intn(n))
		}
		b := vsync.Steps
		for j := 0; j < reps; j++ {
			x := xs[r.Intn(n)]
			s.Remove(x)
			s.Add(x)
		}
		c := cost{float64(n), float64(b-a) / reps, float64(vsync.Steps-b) / reps}
		k.EvalH(true, mixHash(hashStr(im.Name), uint64(n)))
		if i == 0 {
			first = c
			continue
		}
		f := math.Log(c.n) / math.Log(first.n) * 1.5
		k.Max("max_query_growth_over_bound", c.rank/(first.rank*f+40))
		k.Max("max_update_growth_over_bound", c.upd/(first.upd*f+80))
		if c.rank > first.rank*f+40 {
			k.Fail(im.Class+"/query-growth", "%s: Rank and Select execute %.0f statements with %.0f elements and %.0f with %.0f, more than logarithmic growth", im.Name, first.rank, first.n, c.rank, c.n)
		}
		if c.upd > first.upd*f+80 {
			k.Fail(im.Class+"/update-growth", "%s: Remove and Add execute %.0f statements with %.0f elements and %.0f with %.0f, more than logarithmic growth", im.Name, first.upd, first.n, c.upd, c.n)
		}
	}
	k.Count("growth_measured", 1)
}

// stepCosts measures, in executed statements, every operation on a large container.
func stepCosts(k *Case, im contImpl, mix string, fam family, target, ops int) {
	var total, count, worst, window int64
	r := k.Rng
	cost := func(what string, n int, f func()) {
		a := vsync.Steps
		f()
		c := vsync.Steps - a
		lim := 400 + 200*math.Log2(float64(n+2))
		k.EvalH(n >= 64, mixHash(hashStr(im.Name, what), uint64(n)<<20+uint64(c)))
		if c > worst {
			worst = c
		}
		total += c
		count++
		window += c
		if im.Class != "skiplist" {
			k.Max("max_steps_over_bound_"+im.Class, float64(c)/lim)
			if float64(c) > lim {
				k.Fail(im.Class+"/steps-"+what, "%s: %s with %d elements executed %d statements (limit %.0f)", im.Name, what, n, c, lim)
			}
		}
	}
	s := im.New()
	var fifo []float64
	vals := fam.Gen(r, ops)
	var sorted multiset
	for i := 0; i < ops; i++ {
		n := s.Size()
		x := vals[i]
		if n >= target {
			switch mix {
			case "fifo":
				y := fifo[0]
				fifo = fifo[1:]
				cost("Remove", n, func() { s.Remove(y) })
			case "one-end":
				var y float64
				if nd := s.Select(0); !isNilNode(nd) {
					y = nd.Value()
				}
				cost("Remove", n, func() { s.Remove(y) })
			default:
				j := r.Intn(len(fifo))
				y := fifo[j]
				fifo[j] = fifo[len(fifo)-1]
				fifo = fifo[:len(fifo)-1]
				cost("Remove", n, func() { s.Remove(y) })
			}
		}
		cost("Add", n, func() { s.Add(x) })
		fifo = append(fifo, x)
		if i%4 == 0 {
			cost("Select", n, func() { s.Select(r.Intn(s.Size())) })
			cost("Rank", n, func() { s.Rank(x) })
			cost("Remove-absent", n, func() { s.Remove(x + 1e-7) })
		}
		if i%256 == 255 {
			// average cost over the last 256 rounds
			avg := float64(window) / 256 / 2.75
			lim := 250 + 60*math.Log2(float64(n+2))
			if im.Class == "skiplist" {
				lim = 120 + 22*math.Log2(float64(n+2))
			}
			k.Max("max_average_steps_over_bound_"+im.Class, avg/lim)
			if avg > lim {
				k.Fail(im.Class+"/average-steps", "%s: with %d elements an operation executed %.0f statements on average (limit %.0f)", im.Name, n, avg, lim)
			}
			window = 0
		}
	}
	_ = sorted
	k.Count("measured_operations", count)
	k.Max("worst_steps_"+im.Class, float64(worst))
	k.Max("largest_container", float64(s.Size()))
	k.Sample("%s: %s mix of %s values up to %d elements: %d operations, %.1f statements on average, %d at most", im.Name, mix, fam.Name, target, count, float64(total)/float64(count), worst)
}

func init() {
	register("C04", "seeded operation histories (six mixes, value families with duplicates, absent removals, Clear) and all Add/Remove sequences of a fixed length over three values, on each container and on skip lists with hostile levels, probabilities and random sources; each evaluation compares Size, Select in and out of range, and Rank at, between and beyond the stored values with a sorted slice; non-trivial: at least two stored, distinct by (container, contents seen)", func(c *Ctx) {
		for i := 0; i < 3; i++ {
			i := i
			for v := 0; v < c.N(3, 8); v++ {
				if v > 0 && i < 2 {
					continue
				}
				c.Case(fmt.Sprintf("exhaustive-%d-%d", i, v), func(k *Case) {
					contExhaustive(k, contByIdx(i, k.Rng), []float64{0, 1, 2}, k.N(6, 7))
				})
			}
		}
		n := c.N(5000, 20000)
		for i := 0; i < n; i++ {
			i := i
			c.Case(fmt.Sprintf("mix-%d", i), func(k *Case) {
				r := k.Rng
				im := contByIdx(i, r)
				ops, target := 60+r.Intn(200), 1+r.Intn(30)
				if i%5 == 4 {
					ops, target = 400+r.Intn(600), 20+r.Intn(150)
				}
				if i%29 == 28 {
					ops, target = k.N(3000, 20000), 500+r.Intn(2000)
				}
				every := 1
				if ops > 300 {
					every = 1 + ops/100
				}
				fam := pickFamily(r)
				if i%7 == 6 {
					fam = extremeFamilies[r.Intn(len(extremeFamilies))]
				}
				contMix(k, im, mixes[i/3%len(mixes)], ops, fam, target, func(s order.Statistic, m multiset, j int) {
					if j%every == 0 || j == ops-1 {
						checkCont(k, im, s, m, len(m) <= 40 || j == ops-1 || r.Intn(20) == 0)
					} else if s.Size() != len(m) {
						k.Fail(im.Class+"/Size", "%s: Size() = %d, want %d", im.Name, s.Size(), len(m))
					}
				})
			})
		}
	})
	register("C05", "large operation histories (sorted, reversed, organ-pipe, duplicate and random values; sliding, one-ended, random and wave-like removal) on each container; plain build: the height of every tree reached through the exported node accessors against 1.45*log2(n+2) and 2*log2(n+1)+2, and the balance and colour rules at every node (in trees of up to 30000 elements along the path of each update, at every node from time to time); instrumented build: statements executed by each single Add, Remove, Select and Rank against 400+200*log2(n+2) for trees, and on average against 250+60*log2(n+2) for trees and 120+22*log2(n+2) for seeded default skip lists, and the growth of these averages from 500 to 60000 elements against that of the logarithm (trees, and skip lists of several probabilities); non-trivial: at least 3 (heights) or 64 (costs) elements", func(c *Ctx) {
		if !schedBuild {
			n := c.N(500, 4000)
			for i := 0; i < n; i++ {
				i := i
				c.Case(fmt.Sprintf("height-%d", i), func(k *Case) {
					r := k.Rng
					im := contByIdx(i%2, r)
					fam := familyByName(balanceFams[i/12%len(balanceFams)])
					ops, target := 120+r.Intn(200), 5+r.Intn(70)
					every := 1
					if i%6 == 5 {
						ops, target = k.N(6000, 20000), 500+r.Intn(3000)
						every = ops / 25
					}
					contMix(k, im, mixes[i/2%len(mixes)], ops, fam, target, func(s order.Statistic, m multiset, j int) {
						if j%every == 0 || j == ops-1 {
							checkHeight(k, im, s)
						}
					})
				})
			}
			for i := 0; i < c.N(200, 1500); i++ {
				i := i
				c.Case(fmt.Sprintf("grow-%d", i), func(k *Case) { growAndDrain(k, contByIdx(i%2, k.Rng), i/2) })
			}
			for i := 0; i < c.N(160, 1200); i++ {
				i := i
				c.Case(fmt.Sprintf("adversary-%d", i), func(k *Case) { adversary(k, contByIdx(i%2, k.Rng), i/2) })
			}
			for i := 0; i < c.N(48, 480); i++ {
				i := i
				c.Case(fmt.Sprintf("big-tree-%d", i), func(k *Case) { bigTree(k, contByIdx(i%2, k.Rng), i/2) })
			}
			c.Case("allocation", func(k *Case) {
				// an update may not copy the whole container
				for i := 0; i < 3; i++ {
					im := contByIdx(i, k.Rng)
					if i == 2 {
						im = defaultSkip(k.Rng.Int63())
					}
					s := im.New()
					n := k.N(20000, 100000)
					for j := 0; j < n; j++ {
						s.Add(float64(j ^ 0x155))
					}
					var a, b runtime.MemStats
					runtime.ReadMemStats(&a)
					for j := 0; j < 2000; j++ {
						s.Add(float64(j) + 0.5)
						s.Remove(float64(j) + 0.5)
						s.Select(j)
						s.Rank(float64(j))
					}
					runtime.ReadMemStats(&b)
					per := float64(b.TotalAlloc-a.TotalAlloc) / 2000
					k.Max("max_bytes_per_update", per)
					k.EvalH(true, hashStr("alloc", im.Class))
					if per > 8192 {
						k.FailGo(im.Class+"/allocation", "%s: %.0f bytes allocated per update with %d elements", im.Name, per, n)
					}
				}
			})
			return
		}
		// lists of every other shape exist before the measured ones, which do not depend on them
		for lv := 1; lv <= 64; lv++ {
			for _, p := range []float64{0.001, 0.999, 0.02}[lv%2:] {
				if s, err := skiplist.New(skiplist.MaxLevelOption(lv), skiplist.ProbabilityOption(p), skiplist.RandOption(rand.New(rand.NewSource(1)))); err == nil {
					s.Add(float64(lv))
				}
			}
		}
		for i := 0; i < c.N(48, 240); i++ {
			i := i
			c.Case(fmt.Sprintf("growth-%d", i), func(k *Case) {
				im := contByIdx(i%2, k.Rng)
				sizes := []int{500, 8000, k.N(60000, 200000)}
				if i%2 == 1 { // skip lists with enough levels for the size
					p := []float64{0.25, 0.5, 0.25, 0.3, 0.1, 0.4}[i/2%6]
					lv := 12
					for math.Pow(p, float64(lv)) > 1e-6 {
						lv++
					}
					seed := k.Rng.Int63()
					im = contImpl{"skiplist", fmt.Sprintf("SkipList[lv=%d p=%v]", lv, p), func() order.Statistic {
						s, err := skiplist.New(skiplist.MaxLevelOption(lv), skiplist.ProbabilityOption(p), skiplist.RandOption(rand.New(rand.NewSource(seed))))
						if err != nil {
							panic(err)
						}
						return s
					}}
				} else {
					im = contByIdx(i/2%2, k.Rng)
				}
				searchGrowth(k, im, []string{"uniform", "random-walk", "increasing", "inward", "outward", "log-scale", "nested", "decreasing"}[i/4%8], sizes)
			})
		}
		n := c.N(96, 600)
		for i := 0; i < n; i++ {
			i := i
			c.Case(fmt.Sprintf("steps-%d", i), func(k *Case) {
				r := k.Rng
				im := contByIdx(i%3, r)
				if i%3 == 2 {
					im = defaultSkip(r.Int63())
				}
				target := []int{64, 300, 1000, 4000, 20000}[i/3%5]
				fam := familyByName(balanceFams[(i/3+i/30)%len(balanceFams)])
				if i%3 == 2 && fam.Name == "tiny-alphabet" {
					fam = familyByName("uniform")
				}
				mix := []string{"fifo", "random", "one-end"}[i/5%3]
				ops := 2*target + 500
				if target == 20000 {
					ops = k.N(24000, 60000)
				}
				stepCosts(k, im, mix, fam, target, ops)
			})
		}
	})
}

// defaultSkip is a skip list with the documented defaults and a seeded source.
func defaultSkip(seed int64) contImpl {
	return contImpl{"skiplist", "SkipList[defaults]", func() order.Statistic {
		s, err := skiplist.New(skiplist.RandOption(rand.New(rand.NewSource(seed))))
		if err != nil {
			panic(err)
		}
		return s
	}}
}
