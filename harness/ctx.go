package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
)

// Violation is one refutation of a property, with what is needed to replay it.
type Violation struct {
	Case   string   `json:"case"`
	Key    string   `json:"key"` // stable identification of the failing call site / input class
	Detail string   `json:"detail"`
	Trace  []string `json:"trace,omitempty"`
}

// Ctx is the context of one property run (one shard of it).
type Ctx struct {
	Prop       string
	Tier       string
	Seed       int64
	Shard      int
	Shards     int
	Only       string // run only this case
	caseNo     int
	Violations []Violation
	evals      int64
	distinct   map[uint64]struct{}
	counters   map[string]int64
	maxima     map[string]float64
	samples    []string
	inconcl    []string
	perKey     map[string]int
}

func newCtx(prop, tier string, seed int64, shard, shards int, only string) *Ctx {
	return &Ctx{Prop: prop, Tier: tier, Seed: seed, Shard: shard, Shards: shards, Only: only,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, maxima: map[string]float64{},
		perKey: map[string]int{}}
}

// Thorough reports the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a size by tier.
func (c *Ctx) N(quick, thorough int) int {
	if f := quickFactor[c.Prop]; f > 1 && quick*f < thorough {
		quick *= f
	} else if f > 1 {
		quick = thorough
	}
	if c.Thorough() {
		return thorough
	}
	return quick
}

// quickFactor enlarges the quick tier of checks that take little time.
var quickFactor = map[string]int{
	"C01": 4, "C02": 4, "C03": 5, "C04": 4, "C06": 5, "C07": 4, "C09": 2, "C10": 2, "C11": 4, "C15": 2,
	"C17": 4, "C18": 5, "C19": 4, "C21": 3, "C22": 2, "C24": 2, "C27": 8, "C28": 2,
}

func hashStr(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// progress is bumped by every evaluated step, for the watchdog.
var progress int64
var curCase atomic.Value

// Case runs f as one named case with its own PRNG; a panic in it is a violation.
func (c *Ctx) Case(name string, f func(k *Case)) {
	n := c.caseNo
	c.caseNo++
	if c.Only != "" {
		if name != c.Only {
			return
		}
	} else if c.Shards > 1 && n%c.Shards != c.Shard {
		return
	}
	k := &Case{Ctx: c, Name: name, Rng: rand.New(rand.NewSource(c.Seed*1000003 + int64(hashStr(c.Prop, name)>>2)))}
	curCase.Store(name)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			st := string(debug.Stack())
			if strings.Contains(st, "alexander-yu/stream") || strings.Contains(st, "workiva") || strings.Contains(st, "gammazero") {
				k.record("panic", fmt.Sprintf("panic: %v", r), strings.Split(trimStack(st), "\n"))
			} else {
				c.inconcl = append(c.inconcl, fmt.Sprintf("harness panic in case %s: %v\n%s", name, r, st))
			}
		}
	}()
	f(k)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Case is one generated execution.
type Case struct {
	ticks int
	*Ctx
	Name  string
	Rng   *rand.Rand
	Trace []string
	fails int
}

type stopCase struct{}

func (k *Case) logf(format string, args ...interface{}) {
	if len(k.Trace) < 4000 {
		k.Trace = append(k.Trace, fmt.Sprintf(format, args...))
	}
}

func (k *Case) record(key, detail string, trace []string) {
	k.perKey[key]++
	k.counters["violations_total"]++
	if k.perKey[key] > 3 || len(k.Violations) > 60 {
		return
	}
	if len(trace) > 120 {
		trace = append(append([]string{}, trace[:20]...), append([]string{"..."}, trace[len(trace)-99:]...)...)
	}
	k.Violations = append(k.Violations, Violation{Case: k.Name, Key: key, Detail: detail, Trace: trace})
}

// Fail records a violation with the case's trace and abandons the case.
func (k *Case) Fail(key, format string, args ...interface{}) {
	k.record(key, fmt.Sprintf(format, args...), k.Trace)
	panic(stopCase{})
}

// FailGo records a violation and goes on.
func (k *Case) FailGo(key, format string, args ...interface{}) {
	k.record(key, fmt.Sprintf(format, args...), k.Trace)
}

// tick tells the watchdog that a long loop of calls without evaluations is moving.
func (k *Case) tick() {
	if k.ticks++; k.ticks&0xfff == 0 {
		atomic.AddInt64(&progress, 1)
	}
}

// Eval counts one evaluated observation; nontrivial ones are deduplicated by digest.
func (k *Case) Eval(nontrivial bool, digest ...string) {
	atomic.AddInt64(&progress, 1)
	k.evals++
	if nontrivial && len(k.distinct) < 4_000_000 {
		k.distinct[hashStr(digest...)] = struct{}{}
	}
}

// EvalH is Eval with a ready-made digest.
func (k *Case) EvalH(nontrivial bool, h uint64) {
	atomic.AddInt64(&progress, 1)
	k.evals++
	if nontrivial && len(k.distinct) < 4_000_000 {
		k.distinct[h] = struct{}{}
	}
}

// Count adds to a named counter of the evidence.
func (c *Ctx) Count(name string, n int64) { c.counters[name] += n }

// Max keeps a named maximum of the evidence.
func (c *Ctx) Max(name string, v float64) {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return
	}
	if v > c.maxima[name] {
		c.maxima[name] = v
	}
}

// Sample keeps a few written-out cases for the evidence.
func (c *Ctx) Sample(format string, args ...interface{}) {
	if len(c.samples) < 6 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
}

// Inconclusive notes that something could not be decided.
func (c *Ctx) Inconclusive(format string, args ...interface{}) {
	c.inconcl = append(c.inconcl, fmt.Sprintf(format, args...))
}

type result struct {
	Prop         string             `json:"prop"`
	Evals        int64              `json:"evals"`
	Distinct     int                `json:"distinct"`
	Cases        int                `json:"cases"`
	Counters     map[string]int64   `json:"counters"`
	Maxima       map[string]float64 `json:"maxima"`
	Samples      []string           `json:"samples"`
	Violations   []Violation        `json:"violations"`
	Inconclusive []string           `json:"inconclusive"`
	Rule         string             `json:"rule"`
}

func (c *Ctx) write(path, rule string) error {
	r := result{Prop: c.Prop, Evals: c.evals, Distinct: len(c.distinct), Cases: c.caseNo,
		Counters: c.counters, Maxima: c.maxima, Samples: c.samples, Violations: c.Violations,
		Inconclusive: c.inconcl, Rule: rule}
	b, err := json.Marshal(r)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

func sortedCopy(xs []float64) []float64 {
	ys := append([]float64(nil), xs...)
	sort.Float64s(ys)
	return ys
}

func mixHash(h uint64, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	return h
}
