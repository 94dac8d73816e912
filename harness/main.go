//go:debug randseednop=0
package main

import (
	"encoding/binary"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type propDef struct {
	run  func(c *Ctx)
	rule string
}

var props = map[string]propDef{}

var scratch string

func register(id, rule string, f func(c *Ctx)) { props[id] = propDef{f, rule} }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.String("shard", "0/1", "i/n")
	only := flag.String("case", "", "run only this case")
	out := flag.String("out", "", "result file")
	hb := flag.String("heartbeat", "", "heartbeat file")
	merge := flag.Bool("merge", false, "print the size of the union of digest files")
	pr := flag.String("pristine", "", "seed of a process of metrics that print their answers")
	disturb := flag.Bool("disturb", false, "use other metrics in that process too")
	flag.StringVar(&scratch, "scratch", "", "scratch directory")
	flag.Parse()
	if *pr != "" {
		n, _ := strconv.ParseInt(*pr, 10, 64)
		pristineRun(n, *disturb)
		return
	}
	if *merge {
		mergeDigests(flag.Args())
		return
	}
	var si, sn int
	if p := strings.SplitN(*shard, "/", 2); len(p) == 2 {
		si, _ = strconv.Atoi(p[0])
		sn, _ = strconv.Atoi(p[1])
	}
	def, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	c := newCtx(*prop, *tier, *seed, si, sn, *only)
	if *hb != "" {
		go heartbeat(*hb)
	}
	def.run(c)
	if *out != "" {
		if err := c.write(*out, def.rule); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.writeDigests(*out + ".dig")
	} else {
		fmt.Printf("%s evals=%d distinct=%d cases=%d counters=%v maxima=%v\n", *prop, c.evals, len(c.distinct), c.caseNo, c.counters, c.maxima)
		for _, v := range c.Violations {
			fmt.Printf("VIOL [%s] case=%s %s\n", v.Key, v.Case, v.Detail)
		}
		for _, s := range c.inconcl {
			fmt.Println("INCONCLUSIVE", s)
		}
	}
}

func (c *Ctx) writeDigests(path string) {
	ds := make([]uint64, 0, len(c.distinct))
	for d := range c.distinct {
		ds = append(ds, d)
	}
	b := make([]byte, 8*len(ds))
	for i, d := range ds {
		binary.LittleEndian.PutUint64(b[8*i:], d)
	}
	_ = os.WriteFile(path, b, 0o644)
}

func mergeDigests(paths []string) {
	var ds []uint64
	for _, p := range paths {
		b, err := os.ReadFile(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i := 0; i+8 <= len(b); i += 8 {
			ds = append(ds, binary.LittleEndian.Uint64(b[i:]))
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	n := 0
	for i, d := range ds {
		if i == 0 || d != ds[i-1] {
			n++
		}
	}
	fmt.Println(n)
}

// heartbeat lets the driver tell a slow run from a stuck one: it writes the progress counter and
// the running case; when nothing moves for long it adds the goroutine dump, for the driver to judge.
func heartbeat(path string) {
	last := int64(-1)
	since := time.Now()
	for {
		p := atomic.LoadInt64(&progress)
		cs, _ := curCase.Load().(string)
		if p != last {
			last, since = p, time.Now()
		}
		idle := time.Since(since)
		_ = os.WriteFile(path, []byte(fmt.Sprintf("%d\t%d\t%s\n", p, int(idle.Seconds()), cs)), 0o644)
		if idle > 60*time.Second {
			if f, err := os.Create(path + ".stacks"); err == nil {
				_ = pprof.Lookup("goroutine").WriteTo(f, 2)
				f.Close()
			}
			os.Exit(86)
		}
		time.Sleep(2 * time.Second)
	}
}
