// Command vh runs one runtime-monitoring check against the sqldef tree in /repo.
//
//	vh <property> [-case N]
//
// Environment: VERIF_SEED, VERIF_TIER, VH_BIN (directory with the built tools),
// VH_SCRATCH (scratch directory), VH_OUT (/verif/evidence), VH_KNOWN (known findings).
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Run is one execution of a check.
type Run struct {
	ID, Tier string
	Seed     int64
	Bin      string
	Scratch  string
	Out      string
	OnlyCase string

	mu       sync.Mutex
	evals    int
	distinct map[uint64]bool
	samples  []interface{}
	counters map[string]int
	states   map[string]map[uint64]bool
	viols    []string
	shown    int
	seenViol map[string]int
	knownHit map[string]bool
	known    []knownEntry
	incon    []string
	rule     string
	assume   []string
	minEvals int
	start    time.Time
	dirN     int64
}

type knownEntry struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed: ..."
}

type checkFn func(*Run)

var checks = map[string]checkFn{}
var levels = map[string]string{}

func register(id, level string, f checkFn) { checks[id] = f; levels[id] = level }

func h64(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

func (r *Run) thorough() bool { return r.Tier == "thorough" }

// N scales a case count by tier.
func (r *Run) N(quick, thorough int) int {
	if r.thorough() {
		return thorough
	}
	return quick
}

// Eval records one evaluated case; key identifies it, nontrivial says whether it counts.
func (r *Run) Eval(key string, nontrivial bool) {
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[h64(key)] = true
	}
	r.mu.Unlock()
}

// Count adds to a measured counter of observed events.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// State records a distinct observed state or event shape of a class.
func (r *Run) State(class, key string) {
	r.mu.Lock()
	m := r.states[class]
	if m == nil {
		m = map[uint64]bool{}
		r.states[class] = m
	}
	m[h64(key)] = true
	r.mu.Unlock()
}

func (r *Run) Sample(v interface{}) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Inconclusive records that a case could not be decided; it fails the run with exit 2.
func (r *Run) Inconclusive(format string, a ...interface{}) {
	r.mu.Lock()
	r.incon = append(r.incon, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Known reports a listed finding. It returns false if the finding is not listed.
func (r *Run) Known(id, detail string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.Property == r.ID && k.ID == id && k.Status == "known" {
			if !r.knownHit[id] {
				r.knownHit[id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.ID, id, k.What)
			}
			return true
		}
	}
	return false
}

// Violation records a violation with everything needed to replay it.
func (r *Run) Violation(kind, caseID string, what string, data map[string]interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.seenViol[kind]++
	r.counters["violations:"+kind]++
	if r.seenViol[kind] > 5 || r.shown >= 40 {
		r.viols = append(r.viols, "")
		return
	}
	r.shown++
	dir := filepath.Join(r.Out, "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", r.ID, kind, r.seenViol[kind]))
	rec := map[string]interface{}{"property": r.ID, "kind": kind, "case": caseID, "seed": r.Seed, "tier": r.Tier,
		"what": what, "rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s -case %q", r.Seed, r.Tier, r.ID, caseID)}
	for k, v := range data {
		rec[k] = v
	}
	var bb bytes.Buffer
	enc := json.NewEncoder(&bb)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(rec)
	os.WriteFile(p, bb.Bytes(), 0o644)
	r.viols = append(r.viols, p)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
	fmt.Printf("  %s [%s]: %s\n", kind, caseID, oneLine(what, 600))
}

func oneLine(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", "\\n")
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

// Rng returns the generator of a named case.
func (r *Run) Rng(name string) *rand.Rand {
	return rand.New(rand.NewSource(int64(h64(fmt.Sprintf("%d/%s/%s", r.Seed, r.ID, name)))))
}

// Cases runs n cases of a family on all cores. Case ids are family#i.
func (r *Run) Cases(family string, n int, f func(id string, g *rand.Rand)) {
	ids := make([]string, n)
	for i := range ids {
		ids[i] = fmt.Sprintf("%s#%d", family, i)
	}
	r.CaseList(ids, f)
}

// refused is the panic of a helper that the code under test failed on a text it accepts.
type refused string

// safe reports a panic of the code under test that no monitor of the case has caught.
func (r *Run) safe(id string, f func()) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		stack := trimStack(string(debug.Stack()))
		if s, ok := e.(refused); ok {
			r.Violation("refused", id, string(s), map[string]interface{}{"stack": stack})
		} else if ofSqldef(stack) {
			r.Violation("panic", id, fmt.Sprint("panic: ", e), map[string]interface{}{"stack": stack})
		} else {
			panic(fmt.Sprintf("%v\n%s", e, stack))
		}
	}()
	f()
}

// ofSqldef says whether a stack was in the code under test when it panicked.
func ofSqldef(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, "main."):
			return false
		case strings.HasPrefix(l, "github.com/k0kubun/sqldef/"):
			return true
		}
	}
	return false
}

func (r *Run) CaseList(ids []string, f func(id string, g *rand.Rand)) {
	if r.OnlyCase != "" {
		for _, id := range ids {
			if id == r.OnlyCase {
				r.safe(id, func() { f(id, r.Rng(id)) })
			}
		}
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(ids) {
					return
				}
				r.safe(ids[i], func() { f(ids[i], r.Rng(ids[i])) })
			}
		}()
	}
	wg.Wait()
}

// TempDir returns a fresh scratch directory.
func (r *Run) TempDir() string {
	d := filepath.Join(r.Scratch, fmt.Sprintf("d%d", atomic.AddInt64(&r.dirN, 1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// Out is the observed behaviour of one tool process.
type Out struct {
	Code           int
	Stdout, Stderr string
	Hung           bool
	Signal         string
	CPU            time.Duration
}

// Crashed says whether the process died from a panic or a signal.
func (o Out) Crashed() bool {
	return o.Signal != "" || strings.Contains(o.Stderr, "goroutine ") && strings.Contains(o.Stderr, "panic") || strings.Contains(o.Stderr, "fatal error:")
}

func (o Out) String() string {
	return fmt.Sprintf("exit=%d stdout=%q stderr=%q", o.Code, o.Stdout, o.Stderr)
}

// Tool runs one of the built command line tools.
func (r *Run) Tool(tool string, args []string, stdin string, env []string, dir string) Out {
	r.Count("tool runs", 1)
	return runProc(filepath.Join(r.Bin, tool), args, stdin, env, dir, 120*time.Second)
}

func runProc(bin string, args []string, stdin string, env []string, dir string, limit time.Duration) Out {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Stdin = strings.NewReader(stdin)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC", "GOTRACEBACK=single"}, env...)
	err := c.Run()
	o := Out{Stdout: so.String(), Stderr: se.String()}
	if c.ProcessState != nil {
		o.Code = c.ProcessState.ExitCode()
		o.CPU = c.ProcessState.UserTime() + c.ProcessState.SystemTime()
		if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.Signal = ws.Signal().String()
		}
	} else if err != nil {
		panic(err)
	}
	if ctx.Err() != nil {
		o.Hung = true
	}
	return o
}

func (r *Run) finish() int {
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.rule,
		"samples":             r.samples,
	}
	for k, v := range r.counters {
		cov["observed: "+k] = v
	}
	for k, v := range r.states {
		cov["distinct: "+k] = len(v)
	}
	var nv int
	for range r.viols {
		nv++
	}
	kn := []string{}
	for k := range r.knownHit {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	if len(kn) > 0 {
		cov["known findings observed"] = kn
	}
	if len(r.incon) > 0 {
		cov["inconclusive"] = len(r.incon)
	}
	if r.samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": levels[r.ID],
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": nv,
	}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	var bb bytes.Buffer
	enc := json.NewEncoder(&bb)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(ev)
	if r.OnlyCase == "" {
		os.MkdirAll(r.Out, 0o755)
		if err := os.WriteFile(filepath.Join(r.Out, r.ID+".json"), bb.Bytes(), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", r.ID, r.Tier, r.evals, len(r.distinct), nv, time.Since(r.start).Seconds())
	if nv > 0 {
		return 1
	}
	if len(r.incon) > 0 {
		for i, s := range r.incon {
			if i < 10 {
				fmt.Println("INCONCLUSIVE:", oneLine(s, 800))
			}
		}
		return 2
	}
	if r.OnlyCase == "" && r.evals < r.minEvals {
		fmt.Printf("INCONCLUSIVE: only %d cases observed, expected at least %d\n", r.evals, r.minEvals)
		return 2
	}
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh PROPERTY [-case ID]")
		os.Exit(2)
	}
	if f, ok := subcommands[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	f := checks[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check for", os.Args[1])
		os.Exit(2)
	}
	r := &Run{ID: os.Args[1], Tier: os.Getenv("VERIF_TIER"), Bin: os.Getenv("VH_BIN"), Scratch: os.Getenv("VH_SCRATCH"),
		Out: os.Getenv("VH_OUT"), distinct: map[uint64]bool{}, counters: map[string]int{}, states: map[string]map[uint64]bool{},
		seenViol: map[string]int{}, knownHit: map[string]bool{}, start: time.Now()}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	for i := 2; i+1 < len(os.Args); i++ {
		if os.Args[i] == "-case" {
			r.OnlyCase = os.Args[i+1]
		}
	}
	if b, err := os.ReadFile(os.Getenv("VH_KNOWN")); err == nil {
		if err := json.Unmarshal(b, &r.known); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(2)
		}
	}
	old, _ := filepath.Glob(filepath.Join(r.Out, "replay", r.ID+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	r.safe("top", func() { f(r) })
	os.Exit(r.finish())
}

var subcommands = map[string]func([]string){}
