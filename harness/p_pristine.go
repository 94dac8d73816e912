package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/skiplist"
)

// What one metric does to the state of the whole process cannot be seen in a process where it has
// already happened: here the same metrics are used in two processes of their own, in one of them
// after and among many others, and print what they answer.

// pristineRun is the body of such a process.
func pristineRun(seed int64, disturb bool) {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	r := rand.New(rand.NewSource(seed))
	d := rand.New(rand.NewSource(seed + 77))
	quiet := func(r *rand.Rand) *Case { return &Case{Ctx: newCtx("C24", "quick", seed, 0, 1, ""), Rng: r} }
	print := func(n int, name string, os [][]Obs) {
		for i, snap := range os {
			for _, o := range snap {
				if o.Err != nil {
					fmt.Fprintf(w, "%d\t%s\t%d\t%s\terror\n", n, name, i, o.Label)
				} else {
					fmt.Fprintf(w, "%d\t%s\t%d\t%s\t%x %v\n", n, name, i, o.Label, math.Float64bits(o.V), o.V)
				}
			}
		}
	}
	if disturb {
		contaminate(quiet(d), 60)
	}
	for n, j := range r.Perm(len(twinClasses)) {
		k := quiet(rand.New(rand.NewSource(r.Int63())))
		kd := twinKind(k, twinClasses[j], 17)
		s := genScript(k, kd, 20+k.Rng.Intn(30), true, 2)
		if disturb {
			contaminate(quiet(d), d.Intn(3))
		}
		print(n, kd.Name, play(k, kd, s))
	}
	for n := 100; n < 108; n++ {
		k := quiet(rand.New(rand.NewSource(r.Int63())))
		if disturb {
			contaminate(quiet(d), d.Intn(3))
		}
		name, os := bareCore(k, n)
		print(n, name, os)
	}
}

// contaminate uses metrics of all kinds, configurations and options in ways that may leave something behind.
func contaminate(k *Case, n int) {
	r := k.Rng
	for ; n > 0; n-- {
		kd := twinKind(k, twinClasses[r.Intn(len(twinClasses))], 33)
		s := genScript(k, kd, 5+r.Intn(60), true, 4)
		in := kd.make()
		playOn(k, kd, in, s)
		for _, b := range in.Bad {
			_ = b()
		}
		switch r.Intn(5) {
		case 0:
			a, b := &moment.CoreConfig{Sums: moment.SumsConfig{}}, &moment.CoreConfig{Window: stream.IntPtr(r.Intn(4))}
			for _, x := range randSums(r) {
				a.Sums[x] = true
			}
			if r.Intn(2) == 0 {
				b.Sums = moment.SumsConfig{1 + r.Intn(9): true}
			}
			if m, err := moment.MergeConfigs(a, b, &moment.CoreConfig{}); err == nil {
				if c, err := moment.NewCore(m); err == nil {
					_ = c.Push(r.NormFloat64())
				}
				if m.Sums != nil {
					m.Sums[1+r.Intn(9)] = true
				}
			}
		case 1:
			a, b := &joint.CoreConfig{}, &joint.CoreConfig{Window: stream.IntPtr(r.Intn(4)), Vars: stream.IntPtr(2)}
			for _, t := range randTuples(r, 2) {
				a.Sums = append(a.Sums, t)
			}
			if r.Intn(2) == 0 {
				b.Sums = joint.SumsConfig{{r.Intn(3), 1 + r.Intn(3)}}
			}
			if m, err := joint.MergeConfigs(a, b, &joint.CoreConfig{}); err == nil {
				if c, err := joint.NewCore(m); err == nil {
					_ = c.Push(r.NormFloat64(), 1)
				}
				m.Sums = append(m.Sums, joint.Tuple{1, 1})
			}
		case 2: // configurations and options that are refused
			_, _ = moment.NewCore(&moment.CoreConfig{Sums: moment.SumsConfig{-2: true}, Window: stream.IntPtr(1)})
			_, _ = joint.NewCore(&joint.CoreConfig{Sums: joint.SumsConfig{{1, 1}, {1}}, Window: stream.IntPtr(1)})
			_, _ = quantile.New(3, quantile.InterpolationOption(quantile.Interpolation(77)))
			_, _ = quantile.New(-1)
			_, _ = skiplist.New(skiplist.ProbabilityOption(2))
		case 3:
			_, _ = quantile.New(r.Intn(4), quantile.ImplOption(quantile.SkipList, skiplist.ProbabilityOption(0.9), skiplist.MaxLevelOption(2)),
				quantile.InterpolationOption(quantile.Nearest))
			_, _ = skiplist.New(skiplist.MaxLevelOption(1), skiplist.ProbabilityOption(0.01), skiplist.RandOption(rand.New(rand.NewSource(1))))
		case 4:
			c, err := moment.NewCore(&moment.CoreConfig{Window: stream.IntPtr(0), Decay: stream.FloatPtr(0.5)})
			if err == nil {
				_ = c.Push(1)
			}
			j, err := joint.NewCore(&joint.CoreConfig{Window: stream.IntPtr(0), Vars: stream.IntPtr(3), Decay: stream.FloatPtr(0.5)})
			if err == nil {
				_ = j.Push(1, 2, 3)
			}
		}
	}
}

// bareCore asks cores made of configurations that leave things out for more than they track, and
// metrics made with nothing but defaults for their names and values.
func bareCore(k *Case, n int) (string, [][]Obs) {
	r := k.Rng
	var os []Obs
	xs := make([]float64, 12)
	for i := range xs {
		xs[i] = r.NormFloat64()
	}
	flag := func(l string, err error) { os = append(os, Obs{Label: l, Err: err}) }
	switch n % 4 {
	case 0, 1:
		cs := []*moment.CoreConfig{{Window: stream.IntPtr(r.Intn(4))}, {}, {}}
		if n%4 == 1 {
			cs[1].Sums = moment.SumsConfig{2 + r.Intn(3): true}
		}
		m, err := cs[0], error(nil)
		if r.Intn(3) > 0 {
			m, err = moment.MergeConfigs(cs...)
		}
		flag("merge", err)
		c, err := moment.NewCore(m)
		flag("core", err)
		if err != nil {
			return "moment core of a sparse configuration", [][]Obs{os}
		}
		for _, x := range xs {
			flag("push", c.Push(x))
			for s := -1; s < 14; s++ {
				v, err := c.Sum(s)
				os = append(os, obs1(fmt.Sprintf("Sum(%d)", s), v, err))
			}
		}
		return "moment core of a sparse configuration", [][]Obs{os}
	case 2:
		cs := []*joint.CoreConfig{{Window: stream.IntPtr(r.Intn(4)), Vars: stream.IntPtr(2)}, {}, {}}
		if r.Intn(2) == 0 {
			cs[1].Sums = joint.SumsConfig{{1, 1 + r.Intn(2)}}
		}
		m, err := cs[0], error(nil)
		if r.Intn(3) > 0 {
			m, err = joint.MergeConfigs(cs...)
		}
		flag("merge", err)
		c, err := joint.NewCore(m)
		flag("core", err)
		if err != nil {
			return "joint core of a sparse configuration", [][]Obs{os}
		}
		for _, x := range xs {
			flag("push", c.Push(x, -x*x))
			for i := 0; i < 5; i++ {
				for j := 0; j < 5; j++ {
					v, err := c.Sum(i, j)
					os = append(os, obs1(fmt.Sprintf("Sum(%d,%d)", i, j), v, err))
				}
			}
		}
		return "joint core of a sparse configuration", [][]Obs{os}
	}
	q, err := quantile.New(5)
	flag("quantile", err)
	simple := []stream.SimpleMetric{}
	md, err := quantile.NewMedian(5)
	flag("median", err)
	if err == nil {
		simple = append(simple, md)
	}
	iqr, err := quantile.NewIQR(5, quantile.ImplOption(quantile.SkipList))
	flag("iqr", err)
	if err == nil {
		simple = append(simple, iqr)
	}
	std := moment.NewStd(3)
	flag("init", moment.Init(std))
	simple = append(simple, std)
	for _, m := range simple {
		os = append(os, Obs{Label: fmt.Sprint(m)})
	}
	for _, x := range xs {
		if q != nil {
			flag("push", q.Push(x))
			for _, p := range []float64{0.25, 0.3, 0.9} {
				v, err := q.Value(p)
				os = append(os, obs1(fmt.Sprintf("%v %v", q, p), v, err))
			}
		}
		for _, m := range simple {
			flag("push", m.Push(x))
			v, err := m.Value()
			os = append(os, obs1(fmt.Sprint(m), v, err))
		}
	}
	return "metrics with default options", [][]Obs{os}
}

// pristine compares what metrics answer in a process of their own and in one with many others.
func pristine(k *Case) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	seed := k.Rng.Int63()
	run := func(disturb bool) []string {
		cmd := exec.Command(exe, "-pristine", fmt.Sprint(seed), fmt.Sprintf("-disturb=%v", disturb))
		var out, msg bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &msg
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		for {
			select {
			case err := <-done:
				if err != nil {
					lib := strings.Contains(msg.String(), "github.com/alexander-yu/stream")
					if disturb && lib {
						k.Fail("pristine/crash", "metrics used after and among others crash: %s", trimStack(msg.String()))
					}
					if lib {
						k.Fail("pristine/crash", "metrics in a new process crash: %s", trimStack(msg.String()))
					}
					panic(fmt.Sprintf("%v: %s", err, msg.String()))
				}
				return strings.Split(out.String(), "\n")
			case <-time.After(time.Second):
				k.ticks |= 0xfff
				k.tick()
			}
		}
	}
	a, b, c := run(false), run(true), run(false)
	k.logf("processes with seed %d", seed)
	if len(a) != len(c) || len(a) < 100 {
		k.Count("unrepeatable_processes", 1)
		return
	}
	if len(a) != len(b) {
		k.Fail("pristine/answers", "metrics give %d answers in a process of their own and %d after and among others", len(a), len(b))
	}
	n := 0
	for i := range a {
		if a[i] != c[i] {
			k.Count("unrepeatable_answers", 1)
			continue
		}
		n++
		if a[i] != b[i] {
			k.Fail("pristine/not-independent", "in a process of its own: %q; after and among other metrics: %q", a[i], b[i])
		}
	}
	k.Count("answers_compared_across_processes", int64(n))
	k.Eval(n > 0, "pristine", fmt.Sprint(seed))
}
