From f9b61199ef629a07189c28e752d3866a9cd0feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 01/20] fix: keep HeapMedian's queue in step with its heaps

After a rebalance, the item that had moved between the heaps was queued
in place of the one just pushed, so that later evictions removed the
wrong values; a window of 1 panicked on an empty low heap.
---
 quantile/heap_median.go | 57 ++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 76550a7..8e3123c 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -65,7 +65,6 @@ func (m *HeapMedian) Push(x float64) error {
 	m.mux.Lock()
 	defer m.mux.Unlock()
 
-	var item *heap.Item
 	// if queue is full, we need to remove old item
 	if m.window != 0 && m.queue.Len() == uint64(m.window) {
 		tail, err := m.queue.Get()
@@ -73,35 +72,22 @@ func (m *HeapMedian) Push(x float64) error {
 			return errors.Wrap(err, "error popping item from queue")
 		}
 
-		item = tail.(*heap.Item)
-		low := item.HeapID == m.lowHeap.ID
-		switch {
-		// if new/old items are in the same heap, just replace the old item
-		case low && x <= m.lowHeap.Peek():
-			m.lowHeap.Update(item, x)
-		case !low && x > m.lowHeap.Peek():
-			m.highHeap.Update(item, x)
-		// otherwise, remove old item and push new value to other heap
-		case low && x > m.lowHeap.Peek():
-			m.lowHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.highHeap, item)
-		default:
-			m.highHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.lowHeap, item)
-		}
-		item = m.rebalance(item)
-	} else {
-		item = &heap.Item{Val: x}
-		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
-			heapops.Push(m.lowHeap, item)
+		old := tail.(*heap.Item)
+		if old.HeapID == m.lowHeap.ID {
+			m.lowHeap.Remove(old)
 		} else {
-			heapops.Push(m.highHeap, item)
+			m.highHeap.Remove(old)
 		}
-		item = m.rebalance(item)
 	}
 
+	item := &heap.Item{Val: x}
+	if m.fitsLow(x) {
+		heapops.Push(m.lowHeap, item)
+	} else {
+		heapops.Push(m.highHeap, item)
+	}
+	m.rebalance()
+
 	if m.window != 0 {
 		err := m.queue.Put(item)
 		if err != nil {
@@ -112,15 +98,22 @@ func (m *HeapMedian) Push(x float64) error {
 	return nil
 }
 
-func (m *HeapMedian) rebalance(item *heap.Item) *heap.Item {
+// fitsLow returns if a new value belongs to the low heap; note that
+// the low heap can be empty while the high heap is not, in case the
+// only item of the low heap has just been removed.
+func (m *HeapMedian) fitsLow(x float64) bool {
+	if m.lowHeap.Len() > 0 {
+		return x <= m.lowHeap.Peek()
+	}
+	return m.highHeap.Len() == 0 || x <= m.highHeap.Peek()
+}
+
+func (m *HeapMedian) rebalance() {
 	if m.lowHeap.Len()+1 < m.highHeap.Len() {
-		item = heapops.Pop(m.highHeap).(*heap.Item)
-		heapops.Push(m.lowHeap, item)
+		heapops.Push(m.lowHeap, heapops.Pop(m.highHeap))
 	} else if m.lowHeap.Len() > m.highHeap.Len()+1 {
-		item = heapops.Pop(m.lowHeap).(*heap.Item)
-		heapops.Push(m.highHeap, item)
+		heapops.Push(m.highHeap, heapops.Pop(m.lowHeap))
 	}
-	return item
 }
 
 // Value returns the value of the median.
-- 
2.43.0


From 2471c0613036705f95704e188f3368eb108c9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 02/20] fix: do not count duplicates in the trees' Rank

Rank returned the size of the left subtree of the first equal node,
which includes duplicates of the value itself.
---
 quantile/ost/avl/node.go | 6 +++---
 quantile/ost/rb/node.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantile/ost/avl/node.go b/quantile/ost/avl/node.go
index a51bf74..e36e715 100644
--- a/quantile/ost/avl/node.go
+++ b/quantile/ost/avl/node.go
@@ -226,12 +226,12 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
-		return n.left.Rank(val)
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// the left subtree may contain duplicates of the value, so in
+	// case of equality we still need to descend
+	return n.left.Rank(val)
 }
 
 /*******************
diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index a1e7b29..801ff63 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -272,12 +272,12 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
-		return n.left.Rank(val)
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// the left subtree may contain duplicates of the value, so in
+	// case of equality we still need to descend
+	return n.left.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From 428b8a77698571940881ffecb7592ad50b817de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 03/20] fix: keep the right subtree when a red-black tree
 removes a duplicate

moveRedRight may rotate a duplicate of the value on top of the node to
remove; removing the minimum of the right subtree then cut off a node
holding another value.
---
 quantile/ost/rb/node.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index 801ff63..400a7d6 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -118,10 +118,15 @@ func (n *Node) remove(val float64) *Node {
 		if val == n.val && n.right == nil {
 			return nil
 		}
+		found := val == n.val
 		if n.right.Color() == Black && n.right.left.Color() == Black {
-			n = n.moveRedRight()
+			m := n.moveRedRight()
+			// if this rotated, then the node to remove is in the right subtree,
+			// even if its replacement happens to hold a duplicate of the value
+			found = found && m == n
+			n = m
 		}
-		if val == n.val {
+		if found {
 			x := n.right.min()
 			n.val = x.val
 			n.right = n.right.removeMin()
-- 
2.43.0


From eabff14bf7e41ca47771b651ef9013d6b3cf088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 04/20] fix: walk the skip list by node when computing widths

Comparing nodes by value stopped the walk at the first duplicate, which
left too small a width and made Select return wrong values.
---
 quantile/skiplist/skiplist.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantile/skiplist/skiplist.go b/quantile/skiplist/skiplist.go
index cde2ca6..d5c7d3b 100644
--- a/quantile/skiplist/skiplist.go
+++ b/quantile/skiplist/skiplist.go
@@ -31,10 +31,6 @@ func (n *Node) Value() float64 {
 	return n.val
 }
 
-func (n *Node) equals(m *Node) bool {
-	return (n == nil && m == nil) || (n != nil && m != nil && n.val == m.val)
-}
-
 func (n *Node) string() string {
 	if n == nil {
 		return "tail"
@@ -129,7 +125,7 @@ func (s *SkipList) Add(val float64) {
 		prevs[i].width[i]++
 	}
 	for i := 1; i < level; i++ {
-		for curr := node; !curr.equals(node.next[i]); curr = curr.next[i-1] {
+		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
 			node.width[i] += curr.width[i-1]
 		}
 		prevs[i].width[i] -= node.width[i]
-- 
2.43.0


From e64a620d5c56a488d708b157b0841f83a815874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 05/20] fix: do not acquire read locks recursively

Value held the core's (or quantile's) read lock while calling accessors
that acquire it again; a writer waiting in between blocked both for good.
---
 joint/corr.go        | 6 +++---
 joint/cov.go         | 4 ++--
 joint/ewmcorr.go     | 6 +++---
 moment/ewma.go       | 2 +-
 moment/kurtosis.go   | 6 +++---
 moment/mean.go       | 2 +-
 moment/moment.go     | 8 ++++++--
 moment/skewness.go   | 6 +++---
 quantile/iqr.go      | 4 ++--
 quantile/quantile.go | 4 ++++
 10 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 6d28b68..2b35b65 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -86,18 +86,18 @@ func (corr *Corr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/joint/cov.go b/joint/cov.go
index 127dea1..f48e487 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -77,12 +77,12 @@ func (cov *Cov) Value() (float64, error) {
 	cov.core.RLock()
 	defer cov.core.RUnlock()
 
-	covariance, err := cov.core.Sum(1, 1)
+	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := cov.core.Count()
+	count := cov.core.UnsafeCount()
 	covariance /= (float64(count) - 1.)
 
 	return covariance, nil
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index fbd5d48..7009d35 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -83,18 +83,18 @@ func (corr *EWMCorr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/moment/ewma.go b/moment/ewma.go
index f3805f6..83bffd5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -66,7 +66,7 @@ func (a *EWMA) Value() (float64, error) {
 	a.core.RLock()
 	defer a.core.RUnlock()
 
-	ewma, err := a.core.Mean()
+	ewma, err := a.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index 2a3c382..d512f5d 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -84,17 +84,17 @@ func (k *Kurtosis) Value() (float64, error) {
 	k.core.RLock()
 	defer k.core.RUnlock()
 
-	count := float64(k.core.Count())
+	count := float64(k.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := k.variance.Value()
+	variance, err := k.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 
-	moment, err := k.moment4.Value()
+	moment, err := k.moment4.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 4th moment")
 	}
diff --git a/moment/mean.go b/moment/mean.go
index 3afbb49..11f68da 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -69,7 +69,7 @@ func (m *Mean) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	mean, err := m.core.Mean()
+	mean, err := m.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/moment.go b/moment/moment.go
index c411185..f548276 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -77,13 +77,17 @@ func (m *Moment) Value() (float64, error) {
 
 	m.core.RLock()
 	defer m.core.RUnlock()
+	return m.unsafeValue()
+}
 
-	moment, err := m.core.Sum(m.k)
+// unsafeValue returns the value of the kth sample central moment, but does not lock.
+func (m *Moment) unsafeValue() (float64, error) {
+	moment, err := m.core.UnsafeSum(m.k)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := m.core.Count()
+	count := m.core.UnsafeCount()
 	moment /= (float64(count) - 1.)
 
 	return moment, nil
diff --git a/moment/skewness.go b/moment/skewness.go
index 57e922f..71efe51 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -84,18 +84,18 @@ func (s *Skewness) Value() (float64, error) {
 	s.core.RLock()
 	defer s.core.RUnlock()
 
-	count := float64(s.core.Count())
+	count := float64(s.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := s.variance.Value()
+	variance, err := s.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 	variance *= (count - 1) / count
 
-	moment, err := s.moment3.Value()
+	moment, err := s.moment3.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd moment")
 	}
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 334037e..6145bd7 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -48,12 +48,12 @@ func (i *IQR) Value() (float64, error) {
 	i.quantile.RLock()
 	defer i.quantile.RUnlock()
 
-	q25, err := i.quantile.Value(0.25)
+	q25, err := i.quantile.unsafeValue(0.25)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 1st quartile")
 	}
 
-	q75, err := i.quantile.Value(0.75)
+	q75, err := i.quantile.unsafeValue(0.75)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
 	}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 47170f9..a7d517e 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -98,7 +98,11 @@ func (q *Quantile) Value(quantile float64) (float64, error) {
 
 	q.mux.RLock()
 	defer q.mux.RUnlock()
+	return q.unsafeValue(quantile)
+}
 
+// unsafeValue returns the value of the quantile, but does not lock.
+func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	size := int(q.statistic.Size())
 	if size == 0 {
 		return 0, errors.New("no values seen yet")
-- 
2.43.0


From af51852f6c3504800ee184790bc232d0a9605f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 06/20] fix: remove a point only once from sums shared by
 several tuples

The sums were updated after each tuple, so a sum tracked through two
tuples had the evicted point removed twice.
---
 joint/core.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cbb28b7..e80e7c0 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -320,10 +320,10 @@ func (c *Core) remove(xs ...float64) error {
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
 			}
+		}
 
-			for hash, sum := range c.newSums {
-				c.sums[hash] = sum
-			}
+		for hash, sum := range c.newSums {
+			c.sums[hash] = sum
 		}
 	} else {
 		for i := range c.means {
-- 
2.43.0


From ffe0631a388f1581fdb06a640418b16fd37c191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 07/20] fix: store a copy of the pushed values in the joint
 core's window

The caller's slice was kept, so that reusing it as a buffer for the next
push changed the values removed from the window later.
---
 joint/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index e80e7c0..2037b25 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -108,7 +108,8 @@ func (c *Core) UnsafePush(xs ...float64) error {
 			}
 		}
 
-		err := c.queue.Put(xs)
+		// the caller may reuse the slice, so a copy needs to be stored
+		err := c.queue.Put(append([]float64(nil), xs...))
 		if err != nil {
 			return errors.Wrapf(err, "error pushing %v to queue", xs)
 		}
-- 
2.43.0


From 63d0defae56c273ef4103f8c9707ac1498956a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 08/20] fix: only return joint sums of Tuples that are tracked

A query with a Tuple of the wrong length or with negative exponents
could share its hash with a tracked one, and returned that one's sum.
---
 joint/core.go  | 12 +++++++++++-
 joint/tuple.go | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index 2037b25..4f63998 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -395,8 +395,18 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 		return 0, errors.New("no values seen yet")
 	}
 
+	// Tuples of different lengths (or with negative elements) can share a hash
+	// with a tracked Tuple, so a lookup by hash alone is not sufficient
+	tracked := false
+	for _, tuple := range c.tuples {
+		if Tuple(xs).leq(tuple) {
+			tracked = true
+			break
+		}
+	}
+
 	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok {
+	if !ok || !tracked {
 		return 0, errors.Errorf("%v is not a tracked power sum", xs)
 	}
 
diff --git a/joint/tuple.go b/joint/tuple.go
index 61b273c..a03356a 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -49,6 +49,22 @@ func (m Tuple) eq(n Tuple) bool {
 	return true
 }
 
+// leq returns if m is a Tuple of exponents that is less than or equal to n,
+// i.e. both have the same length and 0 <= m_i <= n_i for all i.
+func (m Tuple) leq(n Tuple) bool {
+	if len(m) != len(n) {
+		return false
+	}
+
+	for i := range m {
+		if m[i] < 0 || m[i] > n[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 func sub(m, n Tuple) (Tuple, error) {
 	if len(m) != len(n) {
 		return nil, errors.Errorf(
-- 
2.43.0


From cc927e481205cce998d544e95ce5403f23f23ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 09/20] fix: do not return NaN for the Std of a nearly constant
 window

Rounding errors can leave the variance slightly negative after values
have been removed from the window.
---
 moment/std.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moment/std.go b/moment/std.go
index 7c694aa..9e5436e 100644
--- a/moment/std.go
+++ b/moment/std.go
@@ -68,7 +68,10 @@ func (s *Std) Value() (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
-	return math.Sqrt(variance), nil
+
+	// the variance of a rolling window of (nearly) equal values
+	// can be rounded to slightly below 0
+	return math.Sqrt(math.Max(variance, 0)), nil
 }
 
 // Clear resets the metric.
-- 
2.43.0


From 0ea9226e186f353fff07514979acbf00e82c2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 10/20] fix: compute binomials without a shared cache of
 factorials

The cache was extended without synchronization, which is a data race
between separate metrics of order 8 and up, and overflowed for n > 20.
---
 util/math/math.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/util/math/math.go b/util/math/math.go
index 6a17a4e..ed97d7f 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,14 +1,12 @@
 package math
 
-var factorials = []int{1, 1, 2, 6, 24, 120, 720, 5040}
-
 func factorial(n int) int {
-	for n >= len(factorials) {
-		next := factorials[len(factorials)-1] * len(factorials)
-		factorials = append(factorials, next)
+	result := 1
+	for i := 2; i <= n; i++ {
+		result *= i
 	}
 
-	return factorials[n]
+	return result
 }
 
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
@@ -26,5 +24,11 @@ func Binom(n, k int) int {
 		return 1
 	}
 
-	return factorial(n) / (factorial(k) * factorial(n-k))
+	// this avoids factorials, as they already overflow for n > 20
+	result := 1
+	for i := 1; i <= k; i++ {
+		result = result * (n - k + i) / i
+	}
+
+	return result
 }
-- 
2.43.0


From 90dce0f3c0ca2f5776bdaec3e6e95860d858c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 11/20] fix: reject merging joint configs with sums of
 differing length

Comparing Tuples of different lengths panicked, or silently dropped a
requested sum, depending on their order.
---
 joint/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/joint/config.go b/joint/config.go
index 766cdf1..ed434ba 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -77,6 +77,12 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 			}
 		}
 
+		for _, tuple := range mergedConfig.Sums {
+			if len(tuple) != len(mergedConfig.Sums[0]) {
+				return nil, errors.New("configs have sums with differing length")
+			}
+		}
+
 		mergedConfig.Sums = simplifySums(mergedConfig.Sums)
 		mergedConfig.Window = window
 		mergedConfig.Vars = vars
-- 
2.43.0


From 081549554224cebdc6e11ddc2d721a984ad55f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 12/20] fix: reject NaN for quantiles, decays and probabilities

NaN passed the range checks; retrieving the NaN quantile panicked.
---
 joint/config.go             | 2 +-
 moment/config.go            | 2 +-
 quantile/quantile.go        | 2 +-
 quantile/skiplist/option.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index ed434ba..93b02b9 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -145,7 +145,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/moment/config.go b/moment/config.go
index 7789c07..b894bf4 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -80,7 +80,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/quantile/quantile.go b/quantile/quantile.go
index a7d517e..6ff0a12 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -92,7 +92,7 @@ func (q *Quantile) Push(x float64) error {
 
 // Value returns the value of the quantile.
 func (q *Quantile) Value(quantile float64) (float64, error) {
-	if quantile <= 0 || quantile >= 1 {
+	if !(quantile > 0 && quantile < 1) {
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index a4963a7..7736c43 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -35,7 +35,7 @@ func ProbabilityOption(p float64) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set probability on a non-skiplist")
-		} else if p <= 0 || p >= 1 {
+		} else if !(p > 0 && p < 1) {
 			return errors.Errorf("attempted to set probability %f not in (0, 1)", p)
 		}
 		skiplist.p = p
-- 
2.43.0


From 55dd2a274970b277a5d51cf0f6770446c6d0dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 13/20] fix: copy option and metric slices passed by the caller

NewMedian and NewIQR could overwrite an element behind the caller's
options slice, and aggregates changed along with the caller's slice.
---
 aggregate/simple_aggregate.go       | 2 +-
 aggregate/simple_joint_aggregate.go | 2 +-
 quantile/iqr.go                     | 3 +++
 quantile/median.go                  | 3 +++
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/aggregate/simple_aggregate.go b/aggregate/simple_aggregate.go
index 47079b0..69bb7fe 100644
--- a/aggregate/simple_aggregate.go
+++ b/aggregate/simple_aggregate.go
@@ -19,7 +19,7 @@ type SimpleAggregateMetric struct {
 
 // NewSimpleAggregateMetric instantiates an SimpleAggregateMetric struct.
 func NewSimpleAggregateMetric(metrics ...stream.SimpleMetric) *SimpleAggregateMetric {
-	return &SimpleAggregateMetric{metrics: metrics}
+	return &SimpleAggregateMetric{metrics: append([]stream.SimpleMetric(nil), metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/aggregate/simple_joint_aggregate.go b/aggregate/simple_joint_aggregate.go
index f18518f..94283a0 100644
--- a/aggregate/simple_joint_aggregate.go
+++ b/aggregate/simple_joint_aggregate.go
@@ -18,7 +18,7 @@ type SimpleJointAggregateMetric struct {
 
 // NewSimpleJointAggregateMetric instantiates an SimpleJointAggregateMetric struct.
 func NewSimpleJointAggregateMetric(metrics ...stream.SimpleJointMetric) *SimpleJointAggregateMetric {
-	return &SimpleJointAggregateMetric{metrics: metrics}
+	return &SimpleJointAggregateMetric{metrics: append([]stream.SimpleJointMetric(nil), metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 6145bd7..11ed999 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -13,6 +13,9 @@ type IQR struct {
 
 // NewIQR instantiates an IQR struct.
 func NewIQR(window int, options ...Option) (*IQR, error) {
+	// the options need to be copied, as appending could overwrite an element
+	// of the array that backs the caller's slice
+	options = append([]Option(nil), options...)
 	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
diff --git a/quantile/median.go b/quantile/median.go
index f740fc6..b0e3e23 100644
--- a/quantile/median.go
+++ b/quantile/median.go
@@ -15,6 +15,9 @@ type Median struct {
 // structure for tracking order statistics can be configured by passing in a constant
 // of type Impl.
 func NewMedian(window int, options ...Option) (*Median, error) {
+	// the options need to be copied, as appending could overwrite an element
+	// of the array that backs the caller's slice
+	options = append([]Option(nil), options...)
 	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
-- 
2.43.0


From 14356406bb771cc67a3961d8283afc7042a26a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 14/20] fix: neither modify nor retain the config passed to
 NewCore

The defaults were written into the caller's config (whose nil Sums became
the package's shared map), and its decay and sums were kept by the core.
---
 joint/config.go  | 4 ++++
 joint/core.go    | 8 ++++++--
 moment/config.go | 4 ++++
 moment/core.go   | 5 ++++-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 93b02b9..a16eeef 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -203,6 +203,10 @@ func validateTuple(tuple Tuple, config *CoreConfig) error {
 }
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
+	// the caller's config must not be modified
+	copied := *config
+	config = &copied
+
 	if config.Sums == nil {
 		config.Sums = defaultConfig.Sums
 	}
diff --git a/joint/core.go b/joint/core.go
index 4f63998..1126040 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -54,7 +54,9 @@ func NewCore(config *CoreConfig) (*Core, error) {
 	// initialize and create Core
 	c := &Core{}
 	c.window = *config.Window
-	c.decay = config.Decay
+	if config.Decay != nil {
+		c.decay = stream.FloatPtr(*config.Decay)
+	}
 
 	c.sums = map[uint64]float64{}
 	c.newSums = map[uint64]float64{}
@@ -69,7 +71,9 @@ func NewCore(config *CoreConfig) (*Core, error) {
 		})
 	}
 
-	c.tuples = config.Sums
+	for _, tuple := range config.Sums {
+		c.tuples = append(c.tuples, append(Tuple(nil), tuple...))
+	}
 	c.means = make([]float64, *config.Vars)
 	c.queue = queue.NewRingBuffer(uint64(c.window))
 
diff --git a/moment/config.go b/moment/config.go
index b894bf4..8728804 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -97,6 +97,10 @@ func validateConfig(config *CoreConfig) error {
 }
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
+	// the caller's config must not be modified
+	copied := *config
+	config = &copied
+
 	if config.Sums == nil {
 		config.Sums = defaultConfig.Sums
 	}
diff --git a/moment/core.go b/moment/core.go
index 0bbd850..e26d9d7 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/workiva/go-datastructures/queue"
 
+	"github.com/alexander-yu/stream"
 	mathutil "github.com/alexander-yu/stream/util/math"
 )
 
@@ -47,7 +48,9 @@ func NewCore(config *CoreConfig) (*Core, error) {
 	// initialize and create core
 	c := &Core{}
 	c.window = *config.Window
-	c.decay = config.Decay
+	if config.Decay != nil {
+		c.decay = stream.FloatPtr(*config.Decay)
+	}
 
 	maxSum := -1
 	for k := range config.Sums {
-- 
2.43.0


From cedf5395721d557e1626a7baa4210bb3bc8b8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:16 +0000
Subject: [PATCH 15/20] fix: return a config from Config that does not alias
 the metric's fields

---
 joint/corr.go       |  4 +++-
 joint/cov.go        |  4 +++-
 joint/ewmcorr.go    |  2 +-
 joint/ewmcov.go     |  2 +-
 moment/ewma.go      |  2 +-
 moment/ewmmoment.go |  2 +-
 moment/kurtosis.go  | 11 ++++++++++-
 moment/mean.go      |  4 +++-
 moment/moment.go    |  4 +++-
 moment/skewness.go  | 11 ++++++++++-
 10 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 2b35b65..fc279bc 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Corr is a metric that tracks the sample Pearson correlation coefficient.
@@ -42,7 +44,7 @@ func (corr *Corr) Config() *CoreConfig {
 			{2, 0},
 			{0, 2},
 		},
-		Window: &corr.window,
+		Window: stream.IntPtr(corr.window),
 	}
 }
 
diff --git a/joint/cov.go b/joint/cov.go
index f48e487..c6e2f7d 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Cov is a metric that tracks the sample covariance.
@@ -37,7 +39,7 @@ func (cov *Cov) IsSetCore() bool {
 func (cov *Cov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
-		Window: &cov.window,
+		Window: stream.IntPtr(cov.window),
 	}
 }
 
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index 7009d35..7851220 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -39,7 +39,7 @@ func (corr *EWMCorr) Config() *CoreConfig {
 			{0, 2},
 		},
 		Window: stream.IntPtr(0),
-		Decay:  &corr.decay,
+		Decay:  stream.FloatPtr(corr.decay),
 	}
 }
 
diff --git a/joint/ewmcov.go b/joint/ewmcov.go
index 7c1f49e..f2e2e14 100644
--- a/joint/ewmcov.go
+++ b/joint/ewmcov.go
@@ -34,7 +34,7 @@ func (cov *EWMCov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
 		Window: stream.IntPtr(0),
-		Decay:  &cov.decay,
+		Decay:  stream.FloatPtr(cov.decay),
 	}
 }
 
diff --git a/moment/ewma.go b/moment/ewma.go
index 83bffd5..3a34bb5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -33,7 +33,7 @@ func (a *EWMA) IsSetCore() bool {
 func (a *EWMA) Config() *CoreConfig {
 	return &CoreConfig{
 		Window: stream.IntPtr(0),
-		Decay:  &a.decay,
+		Decay:  stream.FloatPtr(a.decay),
 	}
 }
 
diff --git a/moment/ewmmoment.go b/moment/ewmmoment.go
index 0549048..60d7cdd 100644
--- a/moment/ewmmoment.go
+++ b/moment/ewmmoment.go
@@ -42,7 +42,7 @@ func (m *EWMMoment) Config() *CoreConfig {
 		// weighting scheme that's used prevents weights from being
 		// updated in a time-efficient manner
 		Window: stream.IntPtr(0),
-		Decay:  &m.decay,
+		Decay:  stream.FloatPtr(m.decay),
 	}
 }
 
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index d512f5d..605a1b8 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Kurtosis is a metric that tracks the sample excess kurtosis.
@@ -52,7 +54,14 @@ func (k *Kurtosis) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (k *Kurtosis) Config() *CoreConfig {
-	return k.config
+	// a copy is returned, as the caller may modify it
+	return &CoreConfig{
+		Sums: SumsConfig{
+			2: true,
+			4: true,
+		},
+		Window: stream.IntPtr(*k.config.Window),
+	}
 }
 
 // String returns a string representation of the metric.
diff --git a/moment/mean.go b/moment/mean.go
index 11f68da..9b2fd76 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Mean is a metric that tracks the mean.
@@ -36,7 +38,7 @@ func (m *Mean) IsSetCore() bool {
 // Config returns the CoreConfig needed.
 func (m *Mean) Config() *CoreConfig {
 	return &CoreConfig{
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/moment.go b/moment/moment.go
index f548276..65031cb 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -5,6 +5,8 @@ import (
 	"strings"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Moment is a metric that tracks the kth sample central moment.
@@ -42,7 +44,7 @@ func (m *Moment) IsSetCore() bool {
 func (m *Moment) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{m.k: true},
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/skewness.go b/moment/skewness.go
index 71efe51..9f58753 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Skewness is a metric that tracks the adjusted Fisher-Pearson sample skewness.
@@ -52,7 +54,14 @@ func (s *Skewness) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (s *Skewness) Config() *CoreConfig {
-	return s.config
+	// a copy is returned, as the caller may modify it
+	return &CoreConfig{
+		Sums: SumsConfig{
+			2: true,
+			3: true,
+		},
+		Window: stream.IntPtr(*s.config.Window),
+	}
 }
 
 // String returns a string representation of the metric.
-- 
2.43.0


From 3a2e7636f7cc5c7a1b70e623be5889b923b06934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:39 +0000
Subject: [PATCH 16/20] fix: average two order statistics without overflowing

---
 quantile/heap_median.go   |  2 +-
 quantile/interpolation.go | 12 ++++++++++++
 quantile/quantile.go      |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 8e3123c..4d87080 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -134,7 +134,7 @@ func (m *HeapMedian) Value() (float64, error) {
 		// otherwise, return average of the two tops
 		low := m.lowHeap.Peek()
 		high := m.highHeap.Peek()
-		return (low + high) / 2, nil
+		return midpoint(low, high), nil
 	}
 }
 
diff --git a/quantile/interpolation.go b/quantile/interpolation.go
index 5348a11..373ca06 100644
--- a/quantile/interpolation.go
+++ b/quantile/interpolation.go
@@ -1,5 +1,7 @@
 package quantile
 
+import "math"
+
 // Interpolation represents an enum that enumerates the
 // different interpolation methods that can be chosen
 // when retrieving quantile metrics. In particular,
@@ -40,3 +42,13 @@ func (i Interpolation) Valid() bool {
 		return false
 	}
 }
+
+// midpoint returns the average of two values. The sum of two finite values may
+// overflow even though their average does not, so in that case we halve them first.
+func midpoint(lo, hi float64) float64 {
+	mid := (lo + hi) / 2
+	if math.IsInf(mid, 0) {
+		return lo/2 + hi/2
+	}
+	return mid
+}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 6ff0a12..29e166c 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -142,7 +142,7 @@ func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	default:
 		lo := q.statistic.Select(idx).Value()
 		hi := q.statistic.Select(idx + 1).Value()
-		return (lo + hi) / 2., nil
+		return midpoint(lo, hi), nil
 	}
 }
 
-- 
2.43.0


From 122b66bd5cdd687a46cb9493a410ffb4a5455c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:44 +0000
Subject: [PATCH 17/20] fix: look binomials up instead of recomputing them in
 Push

Without the shared cache, every binomial took O(k) steps, which made Push
O(k^3) rather than the documented O(k^2).
---
 util/math/math.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/util/math/math.go b/util/math/math.go
index ed97d7f..342b810 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -18,13 +18,36 @@ func Sign(n int) int {
 	return -1
 }
 
+// maxBinom is the largest n for which every binomial coefficient fits into 64 bits.
+const maxBinom = 66
+
+// binoms holds Pascal's triangle. It is never written to after its initialization,
+// so that it can be read concurrently.
+var binoms = pascal(maxBinom)
+
+func pascal(max int) [][]int {
+	rows := make([][]int, max+1)
+	for n := range rows {
+		rows[n] = make([]int, n+1)
+		rows[n][0], rows[n][n] = 1, 1
+		for k := 1; k < n; k++ {
+			rows[n][k] = rows[n-1][k-1] + rows[n-1][k]
+		}
+	}
+
+	return rows
+}
+
 // Binom returns the binomial coefficient.
 func Binom(n, k int) int {
 	if k == 0 || k == n {
 		return 1
 	}
 
-	// this avoids factorials, as they already overflow for n > 20
+	if 0 < k && k < n && n <= maxBinom {
+		return binoms[n][k]
+	}
+
 	result := 1
 	for i := 1; i <= k; i++ {
 		result = result * (n - k + i) / i
-- 
2.43.0


From 3fa55be1c8569d56ad91e68439507001233b5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 18/20] fix: look joint sums up in O(d) time

Comparing the exponents with every configured Tuple made Sum depend on
the number of Tuples, rather than being O(d) as documented.
---
 joint/core.go  | 21 +++++++++------------
 joint/tuple.go | 16 ----------------
 2 files changed, 9 insertions(+), 28 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index 1126040..d073b0f 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -18,6 +18,7 @@ type Core struct {
 	tuples  []Tuple
 	sums    map[uint64]float64
 	newSums map[uint64]float64
+	tracked map[uint64]Tuple
 	count   int
 	window  int
 	decay   *float64
@@ -60,9 +61,12 @@ func NewCore(config *CoreConfig) (*Core, error) {
 
 	c.sums = map[uint64]float64{}
 	c.newSums = map[uint64]float64{}
+	c.tracked = map[uint64]Tuple{}
 	for _, tuple := range config.Sums {
 		_ = iter(tuple, false, func(xs ...int) error {
-			c.sums[Tuple(xs).hash()] = 0
+			hash := Tuple(xs).hash()
+			c.sums[hash] = 0
+			c.tracked[hash] = append(Tuple(nil), xs...)
 			return nil
 		})
 		_ = iter(tuple, false, func(xs ...int) error {
@@ -401,20 +405,13 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 
 	// Tuples of different lengths (or with negative elements) can share a hash
 	// with a tracked Tuple, so a lookup by hash alone is not sufficient
-	tracked := false
-	for _, tuple := range c.tuples {
-		if Tuple(xs).leq(tuple) {
-			tracked = true
-			break
-		}
-	}
-
-	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok || !tracked {
+	hash := Tuple(xs).hash()
+	tuple, ok := c.tracked[hash]
+	if !ok || !tuple.eq(xs) {
 		return 0, errors.Errorf("%v is not a tracked power sum", xs)
 	}
 
-	return sum, nil
+	return c.sums[hash], nil
 }
 
 // Clear clears all stats being tracked.
diff --git a/joint/tuple.go b/joint/tuple.go
index a03356a..61b273c 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -49,22 +49,6 @@ func (m Tuple) eq(n Tuple) bool {
 	return true
 }
 
-// leq returns if m is a Tuple of exponents that is less than or equal to n,
-// i.e. both have the same length and 0 <= m_i <= n_i for all i.
-func (m Tuple) leq(n Tuple) bool {
-	if len(m) != len(n) {
-		return false
-	}
-
-	for i := range m {
-		if m[i] < 0 || m[i] > n[i] {
-			return false
-		}
-	}
-
-	return true
-}
-
 func sub(m, n Tuple) (Tuple, error) {
 	if len(m) != len(n) {
 		return nil, errors.Errorf(
-- 
2.43.0


From 0ad0d69d2358d2ab8917acb41d7d7fbe0b014455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:46 +0000
Subject: [PATCH 19/20] fix: do not share memory between merged configs and
 their sources

---
 joint/config.go  | 40 +++++++++++++++++++++++++++++++++++-----
 moment/config.go | 37 ++++++++++++++++++++++++++++++++++---
 2 files changed, 69 insertions(+), 8 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index a16eeef..928a09a 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -2,6 +2,8 @@ package joint
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // SumsConfig is an alias for a slice of Tuples; this configures
@@ -10,7 +12,7 @@ type SumsConfig []Tuple
 
 func (s1 *SumsConfig) add(s2 SumsConfig) {
 	for _, t := range s2 {
-		*s1 = append(*s1, t)
+		*s1 = append(*s1, append(Tuple{}, t...))
 	}
 }
 
@@ -30,13 +32,41 @@ var defaultConfig = &CoreConfig{
 	Decay:  nil,
 }
 
+func (c *CoreConfig) copy() *CoreConfig {
+	copied := &CoreConfig{
+		Window: copyInt(c.Window),
+		Vars:   copyInt(c.Vars),
+		Decay:  copyFloat(c.Decay),
+	}
+	if c.Sums != nil {
+		copied.Sums = SumsConfig{}
+		copied.Sums.add(c.Sums)
+	}
+	return copied
+}
+
+func copyInt(i *int) *int {
+	if i == nil {
+		return nil
+	}
+	return stream.IntPtr(*i)
+}
+
+func copyFloat(f *float64) *float64 {
+	if f == nil {
+		return nil
+	}
+	return stream.FloatPtr(*f)
+}
+
 // MergeConfigs merges CoreConfig objects.
 func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 	switch len(configs) {
 	case 0:
 		return nil, errors.New("no configs available to merge")
 	case 1:
-		return configs[0], nil
+		// a copy is returned, as the caller may modify the config
+		return configs[0].copy(), nil
 	default:
 		var (
 			window *int
@@ -84,9 +114,9 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 		}
 
 		mergedConfig.Sums = simplifySums(mergedConfig.Sums)
-		mergedConfig.Window = window
-		mergedConfig.Vars = vars
-		mergedConfig.Decay = decay
+		mergedConfig.Window = copyInt(window)
+		mergedConfig.Vars = copyInt(vars)
+		mergedConfig.Decay = copyFloat(decay)
 		return mergedConfig, nil
 	}
 }
diff --git a/moment/config.go b/moment/config.go
index 8728804..bc9704b 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -2,6 +2,8 @@ package moment
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // CoreConfig is the struct containing configuration options for
@@ -28,13 +30,42 @@ func (s1 SumsConfig) add(s2 SumsConfig) {
 	}
 }
 
+func (c *CoreConfig) copy() *CoreConfig {
+	copied := &CoreConfig{
+		Window: copyInt(c.Window),
+		Decay:  copyFloat(c.Decay),
+	}
+	if c.Sums != nil {
+		copied.Sums = SumsConfig{}
+		for k, v := range c.Sums {
+			copied.Sums[k] = v
+		}
+	}
+	return copied
+}
+
+func copyInt(i *int) *int {
+	if i == nil {
+		return nil
+	}
+	return stream.IntPtr(*i)
+}
+
+func copyFloat(f *float64) *float64 {
+	if f == nil {
+		return nil
+	}
+	return stream.FloatPtr(*f)
+}
+
 // MergeConfigs merges CoreConfig objects.
 func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 	switch len(configs) {
 	case 0:
 		return nil, errors.New("no configs available to merge")
 	case 1:
-		return configs[0], nil
+		// a copy is returned, as the caller may modify the config
+		return configs[0].copy(), nil
 	default:
 		var (
 			window *int
@@ -66,8 +97,8 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 			}
 		}
 
-		mergedConfig.Window = window
-		mergedConfig.Decay = decay
+		mergedConfig.Window = copyInt(window)
+		mergedConfig.Decay = copyFloat(decay)
 		return mergedConfig, nil
 	}
 }
-- 
2.43.0


From 198d614ba3405b1b37f47cc63eea90b74d446f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 20/20] fix: do not overflow or underflow in the denominator of
 correlations

The product of the two sums of squares is infinite for values beyond about
1e77 (and zero below 1e-77), so that the correlation came out as 0 (or as
an infinity); the product of their square roots stays in range.
---
 joint/corr.go    | 2 +-
 joint/ewmcorr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index fc279bc..d797698 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -104,7 +104,7 @@ func (corr *Corr) Value() (float64, error) {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
 
-	return cov / math.Sqrt(xVar*yVar), nil
+	return cov / (math.Sqrt(xVar) * math.Sqrt(yVar)), nil
 }
 
 // Clear resets the metric.
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index 7851220..e4505cf 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -99,7 +99,7 @@ func (corr *EWMCorr) Value() (float64, error) {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
 
-	return cov / math.Sqrt(xVar*yVar), nil
+	return cov / (math.Sqrt(xVar) * math.Sqrt(yVar)), nil
 }
 
 // Clear resets the metric.
-- 
2.43.0

