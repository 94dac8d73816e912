#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(zip(("name","where"), m)) for m in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Min and Max are exact over the window or the whole stream",
  "After any sequence of finite values, Min (Max) reports exactly the smallest (largest) of the last W values pushed since creation or the last Clear, or of all of them when the window is 0. With no value seen it reports an error instead of a number.",
  ["inputs","histories","configurations"], "every finite value sequence, window size, and interleaving of Push, Value and Clear",
  "The tests push 0..9 and a few constants through one window of 3-5; monotone runs, duplicates of the extreme leaving the window, windows of 1, power-of-two boundaries and long streams are never reached.",
  ["minmax/min.go","minmax/max.go"], [("monotonic deque + ring buffer of window values","minmax/min.go Push; minmax/max.go Push"),("running extreme when window is 0","minmax/min.go; minmax/max.go")],
  [("deque","candidates in window order","minmax/min.go"),("queue","values in the window","minmax/min.go")], ["Min.Value","Max.Value"])

p("C02", "Quantile, Median and IQR are exact order statistics of the window",
  "For every quantile in (0,1), Quantile reports the documented interpolation (linear, lower, higher, nearest, midpoint) at index phi*(n-1) of the sorted last W values (all values when the window is 0), whichever of the three implementations is configured. Median is the midpoint-interpolated 0.5 quantile and IQR the difference of the midpoint-interpolated 0.75 and 0.25 quantiles of the same values.",
  ["inputs","histories","configurations"], "every finite value sequence (with duplicates), window, quantile, interpolation, implementation and implementation option, with Clear anywhere",
  "Tests query one or two quantiles of squares 0..81 in a window of 6 or 8 with distinct values; duplicates, removals of duplicated values, deep trees and other implementation/interpolation combinations are not sampled.",
  ["quantile/quantile.go","quantile/median.go","quantile/iqr.go","quantile/impl.go","quantile/interpolation.go","quantile/option.go"],
  [("ring buffer eviction + order statistic Select","quantile/quantile.go Push, Value"),("interpolation switch","quantile/quantile.go Value")],
  [("statistic","multiset of the window's values","quantile/quantile.go"),("queue","window in arrival order","quantile/quantile.go")], ["Quantile.Value","Median.Value","IQR.Value"])

p("C03", "HeapMedian is the exact median of the window or stream",
  "After any sequence of finite values, the heap-based median equals the middle value (odd count) or the mean of the two middle values (even count) of the last W values since creation or Clear, or of all of them when the window is 0. It never panics or fails for a valid window, including a window of 1.",
  ["inputs","histories","configurations"], "every finite value sequence, window size >= 0, and position of Clear",
  "Tests look at the heap arrays for one 17-push sequence with window 10; they never compare the reported rolling median with the true one, nor use windows 1 or 2.",
  ["quantile/heap_median.go","quantile/heap/heap.go"], [("two heaps kept within one element of each other","quantile/heap_median.go rebalance"),("queue of heap items so that the oldest can be replaced","quantile/heap_median.go Push")],
  [("lowHeap/highHeap","values below/above the median","quantile/heap_median.go"),("queue","items in arrival order","quantile/heap_median.go")], ["HeapMedian.Value"])

p("C04", "AVL, red-black and skip-list containers behave as sorted multisets",
  "After any sequence of Add, Remove and Clear on finite values (duplicates included, removal of absent values being a no-op), Size is the multiset's cardinality, Select(k) yields the k-th smallest value (nil out of range), and Rank(x) is the number of stored values strictly less than x. This holds for every implementation and every skip-list max level, probability and random source.",
  ["inputs","histories","configurations"], "every operation sequence over finite values, every implementation and skip-list option",
  "Tests build one 8-element container and compare its printed form; Rank with duplicates, removal of duplicated values and structures with thousands of elements are not exercised.",
  ["quantile/ost/avl/node.go","quantile/ost/avl/tree.go","quantile/ost/rb/node.go","quantile/ost/rb/tree.go","quantile/skiplist/skiplist.go","quantile/skiplist/option.go","quantile/order/order.go"],
  [("subtree sizes","quantile/ost/avl/node.go; quantile/ost/rb/node.go"),("skip-list link widths","quantile/skiplist/skiplist.go Add/Remove")],
  [("size","elements below a node","avl/rb node"),("width","elements a link skips","skiplist node")], ["Size","Select","Rank"])

p("C05", "Order-statistic containers stay logarithmic under any update history",
  "Whatever values are added and removed and in whatever order, the subtrees of every AVL node differ in height by at most one (so n elements are at most 1.45*log2(n+2) high); below the root of a red-black tree no red node has a red child, and all its paths pass equally many black nodes (so n elements are at most 2*log2(n+1)+2 high); and the levels of a skip list keep average search cost proportional to log n. This is the documented O(log n) cost of Push and Value.",
  ["inputs","histories"], "every add/remove sequence (sorted, reversed, organ-pipe, duplicates, sliding windows, random churn)",
  "Tests check the printed shape of trees with at most a dozen nodes; imbalance that appears only after particular deletions or duplicates keeps all results correct and so is invisible to them.",
  ["quantile/ost/avl/node.go","quantile/ost/rb/node.go","quantile/skiplist/skiplist.go","complexity.md"],
  [("AVL rotations","quantile/ost/avl/node.go balance"),("left-leaning red-black fix-ups","quantile/ost/rb/node.go addBalance/removeBalance"),("geometric level choice","quantile/skiplist/skiplist.go randLevel")],
  [("height/color/level","balance information","node structs")], ["Tree.Height","Tree.String","SkipList.String"])

p("C06", "Moment statistics equal their batch definitions on the window",
  "Mean, Moment(k), Std, Skewness and Kurtosis, and a univariate core's count, mean and centralized power sums, equal the batch formulas (sample normalisation n-1, adjusted Fisher-Pearson skewness, excess kurtosis) evaluated on exactly the last W values since creation or Clear, or all values when the window is 0, up to rounding error proportional to the data's magnitude. Std is never NaN when at least two values are present.",
  ["inputs","histories","configurations"], "every finite value sequence of bounded magnitude, window, moment order and position of Clear",
  "Tests evaluate each statistic once, at the end of a 5-10 element stream with window 3; rolling removal over long streams, windows 1-2, constant stretches, higher orders and windows longer than the stream are not sampled.",
  ["moment/core.go","moment/mean.go","moment/moment.go","moment/std.go","moment/skewness.go","moment/kurtosis.go","util/math/math.go"],
  [("one-pass update and its inverse (Pebay et al.)","moment/core.go add, remove"),("ring-buffer eviction","moment/core.go UnsafePush")],
  [("sums/mean/count","centralized power sums of the window","moment/core.go"),("queue","window values","moment/core.go")], ["Value of each metric","Core.Count/Mean/Sum"])

p("C07", "Exponentially weighted moments equal their weighted definitions",
  "EWMA, EWMMoment(k), EWMStd and a decaying univariate core equal the weighted mean and weighted central moments of all values since creation or Clear, where the newest value has weight d, each older one (1-d) times the next newer, and the oldest keeps the remaining weight so that weights sum to 1, up to rounding error.",
  ["inputs","histories","configurations"], "every finite value sequence of bounded magnitude, decay in (0,1), moment order and position of Clear",
  "Tests use decay 0.3 on one short stream and orders up to 4; other decays, the first-value rule after Clear, higher orders and long streams are not sampled.",
  ["moment/core.go","moment/ewma.go","moment/ewmmoment.go","moment/ewmstd.go"],
  [("decayed one-pass update","moment/core.go addDecay")],
  [("sums/mean/count","weighted central moments","moment/core.go")], ["Value","Core.Mean/Sum"])

p("C08", "Joint statistics equal their batch definitions on the window",
  "Cov, Corr and every power sum of a multivariate core (any number of variables, any set of exponent tuples with exponents below 31, overlapping or not) equal the batch definition over exactly the last W points since creation or Clear, or all points when the window is 0, up to rounding error proportional to the data's magnitude. Every tuple component-wise below a configured one is tracked too; any other query is an error.",
  ["inputs","histories","configurations"], "every sequence of finite points, window, number of variables and set of exponent tuples",
  "Tests use one 5-point stream, two or three variables and a fixed tuple list; overlapping tuples with eviction, more variables, and untracked queries that alias tracked ones are not sampled.",
  ["joint/core.go","joint/tuple.go","joint/config.go","joint/cov.go","joint/corr.go"],
  [("multivariate one-pass update and its inverse","joint/core.go add, remove"),("downward closure of tuples","joint/core.go NewCore; joint/tuple.go iter")],
  [("sums/newSums/means/count","joint power sums","joint/core.go"),("queue","window points","joint/core.go")], ["Cov.Value","Corr.Value","Core.Sum/Mean/Count"])

p("C09", "Exponentially weighted joint statistics equal their weighted definitions",
  "EWMCov, EWMCorr and a decaying multivariate core equal the weighted joint central moments (correlation being weighted covariance over the root of the product of weighted variances) of all points since creation or Clear, with the same weights as the exponentially weighted mean, up to rounding error.",
  ["inputs","histories","configurations"], "every sequence of finite points of bounded magnitude, decay in (0,1), tuple set and position of Clear",
  "Tests use decay 0.3 and one short stream; other decays, mixed high-order tuples, more variables and long streams are not sampled.",
  ["joint/core.go","joint/ewmcov.go","joint/ewmcorr.go"],
  [("decayed multivariate update","joint/core.go addDecay")],
  [("sums/means","weighted joint moments","joint/core.go")], ["EWMCov.Value","EWMCorr.Value","Core.Sum/Mean"])

p("C10", "Autocovariance and autocorrelation pair each value with the one lag earlier",
  "With lag l and window W, Autocov and Autocorr equal the sample covariance and correlation of exactly the last W pairs (x_t, x_{t-l}) formed since creation or Clear (all pairs when the window is 0), and report an error until l+1 values have been pushed. Lag 0 pairs every value with itself.",
  ["inputs","histories","configurations"], "every finite value sequence, lag, window (shorter, equal or longer than the lag) and position of Clear",
  "Tests use two or three lags on one short stream; lag/window combinations, Clear part-way through filling the lag buffer and long streams are not sampled.",
  ["joint/autocov.go","joint/autocorr.go"],
  [("lag ring buffer","joint/autocov.go Push; joint/autocorr.go Push")],
  [("queue","the last lag values","joint/autocorr.go")], ["Autocov.Value","Autocorr.Value"])

p("C11", "Clear returns every metric to its freshly created state",
  "After Clear, whatever was pushed before and however full the window was, a metric (univariate, joint, quantile, min/max, core, container or aggregate) answers every query, including its errors, as a newly created one with the same parameters would, and continues to do so for every later sequence of operations. Clearing repeatedly or before any push is harmless.",
  ["histories","inputs","configurations"], "every history before and after Clear, for every metric and parameter choice",
  "Tests clear once and look at a few fields; they never push again afterwards, so stale state that only shows up later (leftover window entries, first-value rules, lag buffers) goes unseen.",
  ["moment/core.go","joint/core.go","joint/autocorr.go","joint/autocov.go","minmax/min.go","minmax/max.go","quantile/quantile.go","quantile/heap_median.go","quantile/skiplist/skiplist.go","aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],
  [("Clear/UnsafeClear","all metric files")], [], ["all queries after Clear"])

p("C12", "Concurrent use is free of data races",
  "Any mix of Push, Value/Values, Sum, Mean, Count, String and Clear calls from many goroutines on one initialised metric, aggregate, core or reservoir, and any concurrent use of separate metrics that share nothing, performs no unsynchronised conflicting memory access.",
  ["schedules","configurations"], "every interleaving of API calls on shared metrics and on independent metrics, all metric kinds and orders",
  "The suite's only concurrency is one blocked writer per lock test, run with one CPU; package-level caches and per-metric state touched from several goroutines are never exercised together.",
  ["moment/core.go","joint/core.go","minmax/min.go","minmax/max.go","quantile/quantile.go","quantile/heap_median.go","aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go","sample/sample.go","util/math/math.go"],
  [("mutex in every metric/core","mux fields")], [("factorials","package-level cache","util/math/math.go")], ["Go race detector reports"])

p("C13", "Each operation on a metric is atomic (linearizable)",
  "Concurrent Push, Value/Values, Sample and Clear calls on one metric, core, aggregate or reservoir produce results that some sequential order of those calls, consistent with real time, also produces. In particular no pushed value is lost or counted twice, and no reader observes a half-applied push, a value combining two different states, or an aggregate whose members have consumed different prefixes.",
  ["schedules","histories"], "every interleaving of concurrent operations at the granularity of statements and lock operations, for every metric kind",
  "No test issues two operations concurrently and checks the outcome against sequential executions.",
  ["moment/core.go","moment/moment.go","moment/skewness.go","moment/kurtosis.go","joint/core.go","joint/corr.go","joint/autocorr.go","quantile/quantile.go","quantile/iqr.go","quantile/heap_median.go","minmax/min.go","minmax/max.go","aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],
  [("one critical section per operation","Push/Value/Clear of every metric")], [], ["call/return histories at the API boundary"],
  "none in /repo: the check compiles the current tree with sync calls redirected to a controlled scheduler by a build overlay")

p("C14", "Concurrent operations never deadlock and always complete",
  "Any finite set of concurrent Push, Value/Values, Clear, Count/Mean/Sum and String calls on metrics, cores and aggregates, with no lock held by the caller, runs to completion under every schedule, readers together with pending writers included. No call leaves a goroutine or a held lock behind, also when a call returns an error.",
  ["schedules","histories"], "every interleaving of concurrent operations at lock granularity, for every metric kind, including error paths",
  "The suite runs with one CPU because parallel runs are known to hang now and then; it has no test with concurrent readers and writers of the same metric.",
  ["moment/mean.go","moment/moment.go","moment/ewma.go","moment/skewness.go","moment/kurtosis.go","joint/cov.go","joint/corr.go","joint/ewmcorr.go","quantile/iqr.go","quantile/quantile.go","aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],
  [("read-write locking","Value methods and core accessors")], [], ["completion of every call; blocked goroutines"],
  "none in /repo: same overlay as C13")

p("C15", "Aggregates deliver each push exactly once to every member and report all",
  "An aggregate's Push delivers the value exactly once to every member, also when some members fail, and returns an error naming every failure; Values returns exactly one entry per member, keyed by its String and equal to what that member alone would report, or an error covering every failing member. Clear reaches every member, all members are done when a call returns, and successive pushes reach each member in order.",
  ["histories","inputs","configurations","fault_sequences"], "every set of members (any number, failing or slow in any pattern) and every sequence of operations",
  "Tests use at most three mock members with fixed failures and a single value; member counts, failure patterns, slow members and completion-before-return are not sampled.",
  ["aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],
  [("goroutine per member + WaitGroup + multierror","Push/Values/Clear")], [("metrics","members","aggregate/*.go")], ["members' own call logs","returned map and error"])

p("C16", "The reservoir holds a uniform random sample of what was pushed",
  "After n pushes a reservoir of size S holds exactly min(n,S) items, each a distinct one of the pushed items; while n <= S it holds all of them, and for n > S every pushed item is present with the same probability S/n, independent of its position. The slice it returns is a copy that later pushes do not change and whose modification does not affect the reservoir.",
  ["inputs","histories"], "every reservoir size and stream length, over the random choices",
  "Tests fix one seed and compare one outcome of ten pushes; a biased index, a never-replaced slot or an off-by-one in the acceptance probability can keep that one outcome.",
  ["sample/sample.go"], [("algorithm R","sample/sample.go Push")], [("sample/count","reservoir slots and items seen","sample/sample.go")], ["Reservoir.Sample"])

p("C17", "Invalid parameters and premature queries give errors, valid ones work",
  "Every invalid parameter (negative window or lag, decay outside (0,1) or NaN, decay with a window, non-positive moment, bad exponent tuples or variable counts, unset window, out-of-range quantile including NaN, invalid implementation, interpolation, level or probability) is answered with an error and never a panic or a usable metric, and every valid one is accepted. A metric used before initialisation, pushed the wrong number of values, or queried before any value was seen returns an error.",
  ["inputs","configurations"], "every parameter combination of every constructor, initialiser, option and query",
  "Tests try one bad value per parameter; NaN, boundary values, combinations and the acceptance of all valid values are not covered.",
  ["moment/config.go","joint/config.go","quantile/option.go","quantile/quantile.go","quantile/impl.go","quantile/interpolation.go","quantile/skiplist/option.go","minmax/min.go","minmax/max.go","joint/autocorr.go","joint/autocov.go"],
  [("validateConfig/validateTuple","moment/config.go; joint/config.go"),("constructor and option checks","quantile, minmax, joint")], [], ["returned errors"])

p("C18", "Failed calls leave no trace",
  "A call that returns an error because of its arguments or because too little data has been seen (wrong number of values, unknown sum or variable, out-of-range quantile, empty metric) changes nothing: all later results are the same as if the call had never been made.",
  ["histories","inputs"], "every position of failing calls in every history, for every metric kind",
  "Tests make a failing call and check only its error, never what the metric reports afterwards.",
  ["joint/core.go","joint/cov.go","joint/corr.go","joint/ewmcov.go","joint/ewmcorr.go","moment/core.go","quantile/quantile.go","aggregate/simple_joint_aggregate.go"],
  [("argument checks before any state change","Push/Value methods")], [], ["results after failing calls"])

p("C19", "A core built from merged configurations serves every merged metric",
  "Merging configurations succeeds exactly when their windows, decays and variable counts agree (one that is not set agrees with any) and then tracks every sum each of them asks for (exponents below 31); metrics of the same window and decay attached to one core built from the merged configuration report, after one push per value to that core, the same values as when each has its own core. Disagreeing configurations (including exponent tuples of different lengths) never silently drop a requested sum or panic.",
  ["configurations","histories","inputs"], "every list of configurations with overlapping, nested, duplicate or incompatible sums, and every value sequence",
  "Tests merge one or two fixed lists and compare the struct; sharing a core between metrics and the sums it then yields is never tested.",
  ["moment/config.go","joint/config.go","moment/core.go","joint/core.go"],
  [("MergeConfigs/simplifySums","moment/config.go; joint/config.go")], [], ["MergeConfigs result","Value of metrics sharing a core"])

p("C20", "Memory use is bounded by the window, not the stream",
  "A metric with window W retains O(W) memory (plus O(lag)) and a global moment, joint, exponentially weighted or min/max metric retains O(1) memory, however many values are pushed and however often it is cleared; a reservoir retains at most its size.",
  ["histories","configurations"], "every stream length, value pattern and window",
  "Tests push at most a few dozen values and never measure retained memory.",
  ["moment/core.go","joint/core.go","minmax/min.go","minmax/max.go","quantile/quantile.go","quantile/heap_median.go","sample/sample.go","complexity.md"],
  [("ring buffers sized to the window","all windowed metrics"),("evicted values removed from containers","quantile/quantile.go; quantile/heap_median.go; minmax")], [], ["objects reachable from the metric"])

p("C21", "Metrics neither retain nor modify memory owned by the caller",
  "Results depend only on the argument values at the time of the call: a slice passed to Push, a configuration (its sums, window, variable count and decay) passed to a constructor or merge, and a slice of options or initial values may be reused or modified by the caller afterwards without any effect on the metric, and the library does not write to a caller's slices.",
  ["histories","inputs","configurations"], "every reuse or modification of argument memory after the call",
  "Tests pass literals and never reuse or modify what they passed.",
  ["joint/core.go","joint/config.go","moment/core.go","moment/config.go","quantile/median.go","quantile/iqr.go","quantile/heap/heap.go"],
  [("values copied at the API boundary","Push, NewCore, constructors")], [], ["results after the caller modifies its buffers"])

p("C22", "Queries have no observable side effects",
  "Value, Values, Count, Mean, Sum, Size, Select, Rank, Peek, Sample, String, Config and Valid calls never change what any later call returns: a history with queries inserted anywhere, any number of times, gives the same results as the history without them.",
  ["histories"], "every placement and number of queries in every history, for every metric kind",
  "Tests call each query once at the end of a stream.",
  ["moment/core.go","joint/core.go","minmax/min.go","minmax/max.go","quantile/quantile.go","quantile/heap_median.go","sample/sample.go","quantile/skiplist/skiplist.go"],
  [("read-only query code","Value/Sum/Select methods")], [], ["results with and without interleaved queries"])

p("C23", "Moments are numerically stable under large offsets and long streams",
  "Variance, standard deviation, covariance and correlation of data whose spread is as little as 1e-7 of its offset keep a relative error below 1e-5 for global and exponentially weighted metrics, and rolling-window statistics stay accurate to 1e-6 of the data's scale after hundreds of thousands of pushes. Adding a constant to all values moves the mean by that constant and leaves centralized statistics unchanged within the same bounds.",
  ["inputs","histories"], "every bounded-spread stream with any offset up to the stated ratio, and streams of any tested length",
  "Tests use small integers, for which naive raw power sums are just as accurate.",
  ["moment/core.go","joint/core.go","complexity.md"],
  [("centralized one-pass updates","add/addDecay/remove in both cores")], [], ["Value of moment and joint metrics"])

p("C24", "Metric instances are independent of one another",
  "What one metric reports depends only on its own parameters and the calls made on it: creating, pushing to, clearing or discarding any other metrics, of the same or another kind, sequentially or in parallel, never changes its results.",
  ["histories","schedules","configurations"], "every interleaving of operations on several instances, including instances made from the same configuration or option values",
  "Tests use one metric at a time.",
  ["moment/core.go","moment/config.go","joint/core.go","joint/config.go","quantile/option.go","quantile/impl.go","util/math/math.go"],
  [("no shared mutable state between instances","constructors; util/math")], [("defaultConfig, factorials","package-level variables","moment/config.go; joint/config.go; util/math/math.go")], ["results of interleaved instances"])

p("C25", "Metric names identify kind and parameters and never change",
  "String returns the same text for the whole life of a metric, the same text for two metrics of the same kind and parameters, and different texts for metrics of different kinds or different window, lag, moment order, decay or interpolation, so that they occupy different keys in an aggregate's result.",
  ["configurations","histories"], "every pair of metric kinds and parameter values, at any point of any history",
  "Tests compare one name per metric with a literal.",
  ["moment/mean.go","moment/moment.go","moment/std.go","moment/skewness.go","moment/kurtosis.go","moment/ewma.go","moment/ewmmoment.go","moment/ewmstd.go","joint/cov.go","joint/corr.go","joint/autocov.go","joint/autocorr.go","joint/ewmcov.go","joint/ewmcorr.go","quantile/quantile.go","quantile/median.go","quantile/iqr.go","quantile/heap_median.go","minmax/min.go","minmax/max.go"],
  [("name formatting","String methods")], [], ["String"])

p("C26", "Explicit core and quantile locks exclude conflicting operations",
  "While a caller holds a core's write lock no other Push, query or Clear on that core takes effect, and none that starts in the meantime returns, so a batch of unlocked pushes and reads made under it is seen all or nothing; while a caller holds a read lock (of a core or a quantile) no push or clear takes effect, so unlocked reads made under it come from one state.",
  ["schedules"], "every interleaving of lock holders with other callers",
  "The lock tests hold the lock while a single writer waits, on one CPU, and check one value before and after.",
  ["moment/core.go","joint/core.go","quantile/quantile.go"],
  [("Lock/RLock exported from the same mutex the operations use","moment/core.go; joint/core.go; quantile/quantile.go")], [("mux","protects all state","cores, quantile")], ["reads inside and outside locked sections"],
  "none in /repo: same overlay as C13")

p("C27", "The indexed heap keeps its root extreme and its items addressable",
  "After any sequence of pushes, pops, value updates and removals of arbitrary items, the heap's Peek is an extreme element under its comparison, it holds exactly the items pushed and not yet popped or removed, every pop yields the extreme of what is stored, and each item carries the id of the heap it was last pushed to.",
  ["histories","inputs"], "every operation sequence over items with duplicate values, with either comparison, and moving items between two heaps",
  "Tests update and remove only the item at the root of a five-element heap.",
  ["quantile/heap/heap.go"], [("item index maintained by Swap/Push/Pop","quantile/heap/heap.go")], [("index/HeapID","item position and owner","quantile/heap/heap.go")], ["Peek","Values","Len","container/heap Pop"])

p("C28", "Reported statistics satisfy their mathematical invariants at all times",
  "At every point of every stream of finite values: min <= every quantile <= max, quantiles are non-decreasing in phi, IQR, Std and even moments are never negative beyond rounding, |correlation| <= 1 beyond rounding, and a window at least as long as the stream gives the global result. Permuting a global stream, or shifting and scaling all values, changes each statistic only as its definition prescribes (invariant or equivariant), up to rounding.",
  ["inputs","histories","configurations"], "every stream, window and parameter, and every permutation, shift and scale of it",
  "Tests compare single results with literals and never relate two results to each other.",
  ["moment/core.go","joint/core.go","quantile/quantile.go","minmax/min.go","minmax/max.go","quantile/heap_median.go"],
  [("exact order statistics and stable updates","all metrics")], [], ["values of several metrics on the same stream"])

p("C29", "Every call costs no more than the documented complexity",
  "Whatever was pushed before, the cost of Push and of a query does not grow with window, lag or stream length for min/max (amortised), moment, autocorrelation, joint and exponentially weighted metrics, their cores and the reservoir's Push; for Quantile, Median, IQR and HeapMedian it grows at most logarithmically, and HeapMedian's query not at all. Push costs O(k^2) for moments up to order k and O(t*d*a^2) for a joint core of t tuples over d variables with at most a smaller tuples each; reading a sum costs O(1), or O(d) when joint.",
  ["inputs","histories","configurations"], "every value sequence (sorted, reversed, repeated, oscillating), window, lag, order and tuple set",
  "A cost that degrades with the window, the lag, the order or the shape of the stream leaves every result correct, and the tests use windows and streams of at most a few dozen values.",
  ["complexity.md","minmax/min.go","minmax/max.go","moment/core.go","joint/core.go","joint/autocorr.go","joint/autocov.go","quantile/quantile.go","quantile/heap_median.go","quantile/heap/heap.go","sample/sample.go","util/math/math.go"],
  [("monotonic deque","minmax/min.go; minmax/max.go Push"),("one-pass updates instead of passes over the window","moment/core.go; joint/core.go"),("heap items addressed by index","quantile/heap/heap.go Remove")], [], ["statements executed, bytes allocated and processor time per call"],
  "none in /repo: the check compiles the current tree with a statement counter inserted by a build overlay")

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
