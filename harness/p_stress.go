package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/sample"
)

// stressOp makes one random call on a metric.
func stressOp(r *rand.Rand, kd *Kind, in *Inst, qs []Query, mix int) {
	switch x := r.Intn(24); {
	case x == 0 && mix != 2:
		in.Clear()
	case x == 1 && in.Str != nil:
		_ = in.Str()
	case (x == 2 || x < 11 && kd.Class == "misfit core") && len(in.Bad) > 0:
		_ = in.Bad[r.Intn(len(in.Bad))]()
	case x == 3 && len(in.Ops) > 0:
		in.Ops[r.Intn(len(in.Ops))]()
	case x == 4:
		switch c := in.Root.(type) {
		case *moment.Core:
			c.Lock()
			_ = c.UnsafePush(1)
			_, _ = c.UnsafeMean()
			c.Unlock()
		case *joint.Core:
			c.RLock()
			_ = c.UnsafeCount()
			_, _ = c.UnsafeMean(0)
			c.RUnlock()
		}
	case x < 14 && mix != 1 || x < 7:
		_ = in.Push(randPoint(r, kd.Arity)...)
	default:
		_ = qs[r.Intn(len(qs))].Run()
	}
}

// stress runs goroutines on shared metrics (and on some of their own) without any control.
func (k *Case) stress(kinds []*Kind, goroutines, ops int, own bool) {
	seeds := make([]int64, goroutines)
	for i := range seeds {
		seeds[i] = k.Rng.Int63()
	}
	type target struct {
		kd *Kind
		in *Inst
		qs []Query
	}
	var shared []target
	for _, kd := range kinds {
		in := kd.make()
		shared = append(shared, target{kd, in, in.queries(kd)})
	}
	mix := k.Rng.Intn(3)
	before := runtime.NumGoroutine()
	start := make(chan struct{})
	var wg sync.WaitGroup
	totals := make([]int, goroutines)
	panics := make(chan string, goroutines)
	for g := 0; g < goroutines; g++ {
		g := g
		r := rand.New(rand.NewSource(seeds[g]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 4096)
					panics <- fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			ts := append([]target(nil), shared...)
			n := 0
			<-start
			for i := 0; i < ops; i++ {
				t := ts[r.Intn(len(ts))]
				if own && i%16 == 5 {
					// create metrics concurrently, too
					kd := kinds[r.Intn(len(kinds))]
					in := kd.make()
					t = target{kd, in, in.queries(kd)}
					for j := 0; j < 3; j++ {
						_ = in.Push(randPoint(r, kd.Arity)...)
					}
					ts = append(ts[:len(shared):len(shared)], t)
				}
				stressOp(r, t.kd, t.in, t.qs, mix)
				// nothing shared may be touched here: an atomic counter would order the
				// goroutines and hide their races from the detector
				n++
			}
			totals[g] = n
		}()
	}
	close(start)
	wg.Wait()
	total := int64(0)
	for _, n := range totals {
		total += int64(n)
	}
	select {
	case p := <-panics:
		k.record("panic-under-concurrency", p, nil)
	default:
	}
	k.Count("calls", total)
	k.Max("most_goroutines", float64(goroutines))
	var names []string
	for _, t := range shared {
		names = append(names, t.kd.Name)
	}
	k.EvalH(true, hashStr(k.Name, fmt.Sprint(names, seeds)))
	k.Sample("%d goroutines x %d calls on %v", goroutines, ops, names)
	k.checkGoroutines(before)
}

// checkGoroutines: nothing the library started may remain.
func (k *Case) checkGoroutines(before int) {
	for i := 0; ; i++ {
		n := runtime.NumGoroutine()
		if n <= before {
			k.Count("goroutine_checks", 1)
			return
		}
		if i > 400 {
			var b bytes.Buffer
			_ = pprof.Lookup("goroutine").WriteTo(&b, 1)
			if k.Prop == "C14" && strings.Contains(b.String(), "alexander-yu/stream") {
				k.record("goroutine-leak", fmt.Sprintf("%d goroutines before, %d after all calls returned", before, n), strings.Split(b.String(), "\n"))
			}
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func stressKinds(r *rand.Rand, class string, i int) []*Kind {
	var ks []*Kind
	n := 1
	if i%3 == 1 {
		n = 2 + r.Intn(3)
	}
	for j := 0; j < n; j++ {
		c := class
		if j > 0 {
			c = concClasses[r.Intn(len(concClasses))]
		}
		switch {
		case i%17 == 16:
			ks = append(ks, kindMisfit(r, 9))
			continue
		case c == "shared":
			ks = append(ks, kindShared(r, 9))
			continue
		}
		ks = append(ks, randKind(r, c, 9))
	}
	return ks
}

func stressProp(c *Ctx) {
	if strings.HasPrefix(c.Only, "cold-") {
		c.Case(c.Only, func(k *Case) {
			i, _ := strconv.Atoi(strings.TrimPrefix(c.Only, "cold-"))
			coldStart(k, i)
		})
		return
	}
	n := c.N(len(concClasses)*24, len(concClasses)*120)
	for i := 0; i < n; i++ {
		class := concClasses[i%len(concClasses)]
		i := i
		c.Case(fmt.Sprintf("stress-%s-%d", class, i), func(k *Case) {
			if k.Prop == "C14" && i%9 == 8 {
				// failing members: no goroutine may stay behind
				before := runtime.NumGoroutine()
				for j := 0; j < 4; j++ {
					a := mockAgg(k.Rng, j%2 == 1, 0.5, 0.5, 1)
					for l := 0; l < 20; l++ {
						_ = a.Push(1, 2)
						_, _ = a.Values()
						if l%5 == 0 {
							a.Clear()
						}
					}
				}
				k.EvalH(true, hashStr(k.Name))
				k.checkGoroutines(before)
				return
			}
			k.stress(stressKinds(k.Rng, class, i), 2+k.Rng.Intn(7), k.N(80, 160), i%2 == 0)
		})
	}
	// a reservoir
	for i := 0; i < c.N(8, 100); i++ {
		c.Case(fmt.Sprintf("reservoir-%d", i), func(k *Case) {
			res := &sample.Reservoir{Size: k.Rng.Intn(9)}
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 100; j++ {
						res.Push(j)
						s := res.Sample()
						for x := range s {
							s[x] = -1
						}
					}
				}()
			}
			wg.Wait()
			k.EvalH(true, hashStr(k.Name))
			k.Count("calls", 800)
		})
	}
}

// coldStart is the first thing a process does: goroutines make metrics of the same kind, each its own,
// and use them, so that whatever the library initialises or caches at first use is reached by all of
// them together. Only in a process of its own is the first use really the first.
func coldStart(k *Case, i int) {
	classes := append([]string(nil), concClasses...)
	k.Rng.Shuffle(len(classes), func(a, b int) { classes[a], classes[b] = classes[b], classes[a] })
	if i%2 == 0 {
		classes = classes[:len(classes)/2]
	}
	for _, class := range classes {
		var kd *Kind
		if class == "shared" {
			kd = kindShared(k.Rng, 9)
		} else {
			kd = randKind(k.Rng, class, 9)
		}
		const goroutines, ops = 4, 40
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < goroutines; g++ {
			g, r := g, rand.New(rand.NewSource(k.Rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				in := kd.make()
				for j := 0; j < ops; j++ {
					_ = in.Push(randPoint(r, kd.Arity)...)
					if (j+g)%3 == 0 {
						_ = in.Snap()
					}
					if in.Str != nil && j%7 == 3 {
						_ = in.Str()
					}
					if j == ops/2 && i%3 == 0 {
						in.Clear()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		k.Count("calls", goroutines*ops)
		k.Count("cold_starts", 1)
		k.EvalH(true, hashStr(k.Name, kd.Name))
	}
}

func init() {
	register("C12", "the race-detector build under stress: 2-8 goroutines making random calls (Push, every query, Clear, String, Config, failing calls, explicit locks) on 1-4 shared metrics, cores, aggregates, shared-core metric sets and reservoirs, and on metrics they create themselves meanwhile; fresh processes whose goroutines begin by making and using metrics of the same kind, each its own; every data race with an access in the library is a violation; non-trivial: every stress run, distinct by metrics and seeds", stressProp)
}
