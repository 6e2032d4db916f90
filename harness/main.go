package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// check is one property's decision procedure.
type check struct {
	rule    string
	assume  []string
	race    bool
	run     func(c *Ctx)
	noLimit bool
}

var checks = map[string]*check{}

func register(id string, c *check) { checks[id] = c }

const hangAfter = 150 * time.Second

var verifDir = "/verif"

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness run|worker|case PROPERTY [...]")
		os.Exit(3)
	}
	loadFindings(filepath.Join(verifDir, "known_findings.json"))
	prop := os.Args[2]
	ck, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(3)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(prop, ck, seed, tier))
	case "worker":
		worker(prop, ck, seed, tier, os.Args[3:])
	case "replay":
		os.Exit(replay(prop, ck, os.Args[3]))
	default:
		os.Exit(3)
	}
}

// worker JOURNAL RESULT [GEN IDX]
func worker(prop string, ck *check, seed uint64, tier string, args []string) {
	debug.SetMaxStack(256 << 20)
	if !ck.race && !ck.noLimit {
		lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	c := &Ctx{prop: prop, tier: tier, seed: seed, distinct: map[uint64]struct{}{}, counts: map[string]int64{}, skips: map[string]int64{}, genCount: map[string]int{}}
	c.journal = openJournal(args[0])
	if len(args) >= 4 {
		c.onlyGen = args[2]
		c.onlyIdx, _ = strconv.Atoi(args[3])
		c.infoPath = args[0] + ".info"
	}
	done := make(chan struct{})
	go func() {
		ck.run(c)
		close(done)
	}()
	tick := time.NewTicker(2 * time.Second)
	var stuck []string
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			if stuck = c.journal.stuck(hangAfter); len(stuck) > 0 {
				break loop
			}
		}
	}
	c.mu.Lock()
	r := c.result()
	r.Stuck = stuck
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := os.WriteFile(args[1], b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

type outcome struct {
	res     *result
	crashed bool
	stderr  string
	info    string
	flight  []string
}

func spawn(dir, prop string, seed uint64, tier string, extra ...string) outcome {
	jf := filepath.Join(dir, "journal")
	rf := filepath.Join(dir, "result")
	os.Remove(jf)
	os.Remove(rf)
	os.Remove(jf + ".info")
	exe, _ := os.Executable()
	args := append([]string{"worker", prop, jf, rf}, extra...)
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatUint(seed, 10), "VERIF_TIER="+tier, "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=66 history_size=3")
	var eb bytes.Buffer
	cmd.Stdout = &tailWriter{max: 1 << 16, b: &bytes.Buffer{}}
	cmd.Stderr = &tailWriter{max: 1 << 18, b: &eb, pass: os.Getenv("VERIF_PROGRESS") != ""}
	err := cmd.Run()
	o := outcome{stderr: eb.String()}
	if ib, err := os.ReadFile(jf + ".info"); err == nil {
		o.info = string(ib)
	}
	b, rerr := os.ReadFile(rf)
	if rerr == nil {
		r := &result{}
		if json.Unmarshal(b, r) == nil {
			o.res = r
		}
	}
	if err != nil || o.res == nil {
		o.crashed = true
	}
	if jb, err := os.ReadFile(jf); err == nil {
		sc := bufio.NewScanner(bytes.NewReader(jb))
		for sc.Scan() {
			if s := strings.Trim(sc.Text(), " \x00"); s != "" {
				o.flight = append(o.flight, s)
			}
		}
	}
	return o
}

// tailWriter keeps the first max bytes.
type tailWriter struct {
	max  int
	b    *bytes.Buffer
	pass bool
}

func (w *tailWriter) Write(p []byte) (int, error) {
	if w.pass && len(p) < 2000 && (p[0] == 'P' || p[0] == 's') {
		os.Stderr.Write(p)
	}
	if w.b.Len() < w.max {
		n := len(p)
		if n > w.max-w.b.Len() {
			n = w.max - w.b.Len()
		}
		w.b.Write(p[:n])
	}
	return len(p), nil
}

func supervise(prop string, ck *check, seed uint64, tier string) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	o := spawn(dir, prop, seed, tier)
	var viols []Violation
	raced := strings.Contains(o.stderr, "WARNING: DATA RACE") || strings.Contains(o.stderr, "fatal error: concurrent map")
	if o.res != nil {
		viols = append(viols, o.res.Viols...)
	}
	if raced {
		viols = append(viols, Violation{prop, "race", 0, seed, tier, "race", "the race detector reported:\n" + firstN(o.stderr, 5000)})
	} else if o.crashed || len(o.res.Stuck) > 0 {
		// Which of the cases in flight was it?  A fatal error or a hang counts
		// only when it can be observed again.
		flight := o.flight
		if !o.crashed {
			flight = o.res.Stuck
		}
		confirmed := false
		for _, fl := range flight {
			p := strings.Fields(fl)
			if len(p) != 2 {
				continue
			}
			o2 := spawn(dir, prop, seed, tier, p[0], p[1])
			if o2.crashed || len(o2.res.Stuck) > 0 {
				idx, _ := strconv.Atoi(p[1])
				what := "the process died:\n" + firstN(o2.stderr, 500) + "\n...\n" + tailOf(o2.info, 2500)
				if !o2.crashed {
					what = fmt.Sprintf("the case did not terminate within %v\n%s", hangAfter, tailOf(o2.info, 2500))
				}
				viols = append(viols, Violation{prop, p[0], idx, seed, tier, p[0] + "/fatal", what})
				confirmed = true
				break
			}
		}
		if !confirmed {
			o3 := spawn(dir, prop, seed, tier)
			if o3.crashed || len(o3.res.Stuck) > 0 {
				viols = append(viols, Violation{prop, "all", 0, seed, tier, "all/fatal", "the worker process died twice; in flight: " + strings.Join(o3.flight, "; ") + "\n" + firstN(o3.stderr, 3000)})
			} else {
				o = o3
				viols = o3.res.Viols
			}
		}
	}
	res := o.res
	if res == nil {
		res = &result{Counts: map[string]int64{}}
	}
	cov := map[string]interface{}{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                ck.rule,
		"samples":             res.Samples,
		"observed":            res.Counts,
		"generators":          res.Gens,
	}
	if len(res.Samples) == 0 {
		cov["samples"] = []string{"(no case completed)"}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": ck.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(viols),
	}
	if ck.assume == nil {
		ev["assumptions"] = []string{}
	}
	evdir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evdir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, f := range findings {
		if f.Property == prop && f.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
		}
	}
	if len(viols) > 0 {
		rp := filepath.Join(evdir, prop+".replay.json")
		b, _ := json.MarshalIndent(viols, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0644)
		for i, v := range viols {
			if i == 3 {
				break
			}
			fmt.Printf("--- %s case %s[%d]\n%s\n", prop, v.Gen, v.Idx, firstN(v.Detail, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	os.Remove(filepath.Join(evdir, prop+".replay.json"))
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", prop, tier, res.Evals, res.Distinct, time.Since(t0).Seconds())
	return 0
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// replay re-runs the cases recorded in a replay file.
func replay(prop string, ck *check, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var vs []Violation
	if err := json.Unmarshal(b, &vs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	dir, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(dir)
	rc := 0
	for _, v := range vs {
		o := spawn(dir, prop, v.Seed, v.Tier, v.Gen, strconv.Itoa(v.Idx))
		if o.crashed {
			fmt.Printf("%s[%d]: the process died: %s\n", v.Gen, v.Idx, firstN(o.stderr, 2000))
			rc = 1
		} else if len(o.res.Viols) > 0 {
			fmt.Printf("%s[%d]: %s\n", v.Gen, v.Idx, o.res.Viols[0].Detail)
			rc = 1
		} else {
			fmt.Printf("%s[%d]: no violation\n", v.Gen, v.Idx)
		}
	}
	return rc
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
