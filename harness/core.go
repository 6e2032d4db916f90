// Package main is the runtime-monitoring harness for katydid.
//
// Every property of /verif/properties.jsonl has one check here.  A check is a
// deterministic list of cases (a pure function of VERIF_SEED and the tier);
// each case drives the real code of /repo and an oracle judges what was
// observed.  The supervisor (main.go) runs the cases in a child process, so
// that fatal runtime errors (stack overflow, out of memory, a data race
// report, a hang) of the code under test are observations too.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- randomness

// Rng is a splitmix64 generator: cases must not depend on the Go release.
type Rng struct {
	s           uint64
	big, bigMax int // room for large choices, see scale.go
}

func newRng(seed uint64, parts ...interface{}) *Rng {
	h := fnv.New64a()
	fmt.Fprint(h, seed)
	for _, p := range parts {
		fmt.Fprintf(h, "|%v", p)
	}
	return &Rng{s: h.Sum64()}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/100.
func (r *Rng) P(pct int) bool { return r.Intn(100) < pct }

func (r *Rng) Pick(ss ...string) string { return ss[r.Intn(len(ss))] }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------- reporting

// Violation is one observed breach of the property.
type Violation struct {
	Property string `json:"property"`
	Gen      string `json:"gen"`
	Idx      int    `json:"idx"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Key      string `json:"key"`
	Detail   string `json:"detail"`
}

// Ctx collects what one check observed.
type Ctx struct {
	prop     string
	tier     string
	seed     uint64
	onlyGen  string
	onlyIdx  int
	infoPath string
	journal  *journal
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	skips    map[string]int64
	samples  []string
	viols    []Violation
	nviol    int64
	genCount map[string]int
	div      int // P30 runs the other checks with fewer cases
}

// T is one running case.
type T struct {
	*Rng
	c      *Ctx
	gen    string
	idx    int
	info   string
	counts map[string]int64
}

func (c *Ctx) quick() bool { return c.tier != "thorough" }

// moreOf multiplies the counts of checks that are quick.
var moreOf = map[string]int{
	"P07": 3, "P10": 3, "P14": 2, "P15": 2, "P16": 2, "P17": 3, "P18": 3, "P19": 2, "P20": 3, "P21": 3, "P22": 2, "P23": 3,
	"P24": 4, "P25": 3, "P26": 3, "P29": 3, "P33": 5, "P34": 4, "P35": 4, "P36": 2, "P37": 2, "P38": 2, "P39": 2,
}

// N scales a quick case count for the tier.
func (c *Ctx) N(quick int) int {
	if c.div == 0 {
		if m := moreOf[c.prop]; m > 0 {
			quick *= m
		}
	}
	if c.div > 0 {
		return (quick + c.div - 1) / c.div
	}
	if c.quick() {
		return quick
	}
	return quick * 25
}

// NT gives separate counts for the tiers.
func (c *Ctx) NT(quick, thorough int) int {
	if c.div > 0 {
		return (quick + c.div - 1) / c.div
	}
	if c.quick() {
		return quick
	}
	return thorough
}

const maxViolations = 20

// Run executes n cases of generator gen on all cores.
func (c *Ctx) Run(gen string, n int, f func(t *T)) {
	c.runP(gen, n, runtime.GOMAXPROCS(0), f)
}

// RunSeq executes the cases one after another on one goroutine.
func (c *Ctx) RunSeq(gen string, n int, f func(t *T)) { c.runP(gen, n, 1, f) }

func (c *Ctx) runP(gen string, n, workers int, f func(t *T)) {
	if c.onlyGen != "" && c.onlyGen != gen {
		return
	}
	if os.Getenv("VERIF_PROGRESS") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "%s %s n=%d %.2fs\n", c.prop, gen, n, time.Since(t0).Seconds()) }()
	}
	c.mu.Lock()
	c.genCount[gen] += n
	c.mu.Unlock()
	if c.onlyGen == gen {
		c.one(gen, c.onlyIdx, 0, f)
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || atomic.LoadInt64(&c.nviol) >= maxViolations {
					return
				}
				c.one(gen, i, w, f)
			}
		}(w)
	}
	wg.Wait()
}

func (c *Ctx) one(gen string, i, slot int, f func(t *T)) {
	c.journal.begin(slot, gen, i)
	t := &T{Rng: newRng(c.seed, c.prop, gen, i), c: c, gen: gen, idx: i, counts: map[string]int64{}}
	if os.Getenv("VERIF_PROGRESS") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 3*time.Second {
				fmt.Fprintf(os.Stderr, "slow: %s %s %d took %.1fs: %.300s\n", c.prop, gen, i, d.Seconds(), t.info)
			}
		}()
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				t.report("panic", fmt.Sprintf("panic: %v\n%s\n%s", r, t.info, trimStack(debug.Stack())))
			}
		}()
		f(t)
	}()
	c.journal.end(slot)
	atomic.AddInt64(&c.evals, 1)
	c.mu.Lock()
	for k, v := range t.counts {
		c.counts[k] += v
	}
	c.mu.Unlock()
}

type stopCase struct{}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "katydid") || strings.Contains(l, "panic") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return strings.Join(out, "\n")
}

// Info sets the description that goes with a panic of this case.
func (t *T) Info(format string, args ...interface{}) {
	t.info = fmt.Sprintf(format, args...)
	if t.c.onlyGen != "" {
		// a single case is run, perhaps because it killed the process
		if p := t.c.infoPath; p != "" {
			os.WriteFile(p, []byte(t.info), 0644)
		}
	}
}

func (t *T) report(key, detail string) {
	c := t.c
	if known(c.prop, t.gen+"/"+key) {
		c.mu.Lock()
		c.counts["known_finding_hits"]++
		c.mu.Unlock()
		return
	}
	atomic.AddInt64(&c.nviol, 1)
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viols) < maxViolations {
		if len(detail) > 6000 {
			detail = detail[:6000] + "..."
		}
		c.viols = append(c.viols, Violation{c.prop, t.gen, t.idx, c.seed, c.tier, t.gen + "/" + key, detail})
	}
}

// Fail reports a violation and ends the case.
func (t *T) Fail(format string, args ...interface{}) {
	t.report("fail", fmt.Sprintf(format, args...))
	panic(stopCase{})
}

// FailKey reports a violation that a known finding may list under key.
func (t *T) FailKey(key, format string, args ...interface{}) {
	t.report(key, fmt.Sprintf(format, args...))
}

// Count adds to a measured counter of the evidence.
func (t *T) Count(name string, n int) { t.counts[name] += int64(n) }

// Nontrivial records a distinct non-trivial case.
func (t *T) Nontrivial(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	k := h.Sum64()
	t.c.mu.Lock()
	t.c.distinct[k] = struct{}{}
	t.c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence file.
func (t *T) Sample(format string, args ...interface{}) {
	c := t.c
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 6 && (t.idx%7 == 0 || len(c.samples) == 0) {
		s := fmt.Sprintf(format, args...)
		if len(s) > 500 {
			s = s[:500] + "..."
		}
		c.samples = append(c.samples, fmt.Sprintf("%s[%d]: %s", t.gen, t.idx, s))
	}
}

// ---------------------------------------------------------------- journal

// journal remembers, in a file, which cases are in flight: the supervisor reads
// it when the worker dies.
type journal struct {
	mu    sync.Mutex
	f     *os.File
	start []int64
	name  []string
}

const slotSize = 128

func openJournal(path string) *journal {
	j := &journal{start: make([]int64, 64), name: make([]string, 64)}
	if path != "" {
		f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
		if err != nil {
			panic(err)
		}
		j.f = f
	}
	return j
}

func (j *journal) begin(slot int, gen string, idx int) {
	s := fmt.Sprintf("%s %d", gen, idx)
	j.mu.Lock()
	j.name[slot] = s
	j.mu.Unlock()
	atomic.StoreInt64(&j.start[slot], time.Now().UnixNano())
	if j.f != nil {
		b := []byte(fmt.Sprintf("%-*s\n", slotSize-1, s))
		j.f.WriteAt(b[:slotSize], int64(slot*slotSize))
	}
}

func (j *journal) end(slot int) { atomic.StoreInt64(&j.start[slot], 0) }

// stuck returns the cases that have been running for longer than d.
func (j *journal) stuck(d time.Duration) []string {
	var out []string
	now := time.Now().UnixNano()
	for i := range j.start {
		if s := atomic.LoadInt64(&j.start[i]); s != 0 && now-s > int64(d) {
			j.mu.Lock()
			out = append(out, j.name[i])
			j.mu.Unlock()
		}
	}
	return out
}

// ---------------------------------------------------------------- known findings

// Finding is one entry of /verif/known_findings.json.
type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

var findings []Finding

func loadFindings(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, &findings); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
}

func known(prop, key string) bool {
	for _, f := range findings {
		if f.Property == prop && f.Status == "known" && f.Key == key {
			return true
		}
	}
	return false
}

// result is what a worker hands to the supervisor.
type result struct {
	Evals    int64            `json:"evals"`
	Distinct int              `json:"distinct"`
	Counts   map[string]int64 `json:"counts"`
	Samples  []string         `json:"samples"`
	Viols    []Violation      `json:"viols"`
	Gens     map[string]int   `json:"gens"`
	Stuck    []string         `json:"stuck,omitempty"`
}

func (c *Ctx) result() *result {
	sort.Slice(c.viols, func(i, j int) bool {
		if c.viols[i].Gen != c.viols[j].Gen {
			return c.viols[i].Gen < c.viols[j].Gen
		}
		return c.viols[i].Idx < c.viols[j].Idx
	})
	return &result{Evals: c.evals, Distinct: len(c.distinct), Counts: c.counts, Samples: c.samples, Viols: c.viols, Gens: c.genCount}
}
