// Package mon is the monitoring framework: it drives deterministic case lists
// through the library, records what the monitors observed, and turns oracle
// disagreements into verdicts.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Finding is one observed violation.
type Finding struct {
	Group  string `json:"group"`
	Case   int    `json:"case"`
	Sig    string `json:"sig"`    // stable identification of the failing call
	Detail string `json:"detail"` // inputs, observed, expected
	Kind   string `json:"kind,omitempty"`
}

// Report is what a child process hands back to its parent.
type Report struct {
	Property    string         `json:"property"`
	Evaluations int64          `json:"evaluations"`
	Distinct    int64          `json:"distinct"`
	Rules       []string       `json:"rules"`
	Samples     []string       `json:"samples"`
	Bins        map[string]int `json:"bins"`
	Groups      map[string]int `json:"groups"`
	Findings    []Finding      `json:"findings"`
	NFindings   int            `json:"nfindings"`
	Extra       map[string]any `json:"extra,omitempty"`
}

// Run is the state of one check execution.
type Run struct {
	ID       string
	Tier     string
	Seed     uint64
	Workers  int
	OnlyGrp  string // replay: only this group
	OnlyCase int    // replay: only this case
	Replay   bool
	Progress *Progress

	skip map[string]bool

	mu    sync.Mutex
	rep   Report
	seen  [64]map[uint64]struct{}
	seenL [64]sync.Mutex
	nsamp int
	stop  int32
}

func NewRun(id, tier string, seed uint64, workers int) *Run {
	r := &Run{ID: id, Tier: tier, Seed: seed, Workers: workers}
	r.rep.Property = id
	r.rep.Bins = map[string]int{}
	r.rep.Groups = map[string]int{}
	r.rep.Extra = map[string]any{}
	for i := range r.seen {
		r.seen[i] = map[uint64]struct{}{}
	}
	return r
}

// Thorough reports whether the deep tier was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// depth multiplies the case counts of the properties whose cases are cheap,
// such that every quick run takes some ten seconds on eight cores.
var depth = map[string]int{
	"A01": 3,
	"A02": 3,
	"A03": 4,
	"A04": 2,
	"A05": 3,
	"A06": 8,
	"A07": 4,
	"A08": 5,
	"C01": 6,
	"C02": 6,
	"C03": 2,
	"F01": 3,
	"F02": 8,
	"F03": 3,
	"F04": 2,
	"F05": 8,
	"M01": 6,
	"M02": 2,
	"R01": 3,
	"R05": 3,
	"R06": 3,
	"R07": 4,
	"S01": 6,
	"S02": 8,
	"S03": 8,
	"S04": 8,
	"T01": 5,
	"T02": 3,
	"T03": 2,
	"T04": 3,
	"T05": 3,
	"T06": 8,
	"T07": 5,
	"V01": 4,
	"V02": 8,
	"V03": 8,
	"V04": 7,
}

// shallow is for trying many changes of the library quickly: nominal case
// counts, and the first finding ends the run. No check uses it.
var shallow = os.Getenv("HARNESS_SHALLOW") != ""

// Scale turns a nominal case count into the one for the property and the tier.
func (r *Run) Scale(n int) int {
	if d := depth[r.ID]; d > 1 && !shallow {
		n *= d
	}
	if r.Thorough() {
		return n * 12
	}
	if d, _ := strconv.Atoi(os.Getenv("HARNESS_SHALLOW")); d > 1 {
		return n/d + 1
	}
	return n
}

// SetSkip names cases (group/index, comma separated) that are not to be run.
func (r *Run) SetSkip(s string) {
	r.skip = map[string]bool{}
	for _, k := range strings.Split(s, ",") {
		if k != "" {
			r.skip[k] = true
		}
	}
}

// Rule adds to the description of how cases are made.
func (r *Run) Rule(s string) { r.rep.Rules = append(r.rep.Rules, s) }

// SetExtra records an additional measured figure.
func (r *Run) SetExtra(k string, v any) {
	if f, ok := v.(float64); ok && (math.IsInf(f, 0) || math.IsNaN(f)) {
		v = fmt.Sprint(f) // JSON knows neither
	}
	r.mu.Lock()
	r.rep.Extra[k] = v
	r.mu.Unlock()
}

// T is one case.
type T struct {
	*Rng
	Run   *Run
	Group string
	Idx   int
	w     *worker
	descF string
	descA []any
	fails int
}

type worker struct {
	evals   int64
	bins    map[string]int
	samples []string
	slot    int
}

var maxFindings = 4000

// Desc sets the human readable description of what the case is doing; it goes
// into violation reports when the case dies in a panic.
func (t *T) Desc(format string, a ...any) {
	t.descF, t.descA = format, a
	if t.Run.Replay {
		// also tells what a case that does not return was doing
		fmt.Fprintln(os.Stderr, "case:", t.describe())
	}
}

// Bare makes a case outside of a group, for generating inputs.
func (r *Run) Bare(rng *Rng) *T {
	return &T{Rng: rng, Run: r, w: &worker{bins: map[string]int{}}}
}

// Describe returns what the case said it is doing.
func (t *T) Describe() string { return t.describe() }

func (t *T) describe() string {
	if t.descF == "" {
		return ""
	}
	return fmt.Sprintf(t.descF, t.descA...)
}

// Observe counts one oracle evaluation. key identifies the case for
// distinctness; nontrivial tells whether it exercises the property.
func (t *T) Observe(key string, nontrivial bool) {
	t.w.evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	v := h.Sum64()
	s := v & 63
	r := t.Run
	r.seenL[s].Lock()
	r.seen[s][v] = struct{}{}
	r.seenL[s].Unlock()
}

// Bin counts an observed event class.
func (t *T) Bin(s string) { t.w.bins[s]++ }

// Sample offers a sample for the evidence file.
func (t *T) Sample(format string, a ...any) {
	if len(t.w.samples) < 6 && (t.Idx < 8 || t.Idx%97 == 0) {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.w.samples = append(t.w.samples, t.Group+": "+s)
	}
}

// Fail records a violation. sig names the kind of failure in a stable way.
func (t *T) Fail(sig, format string, a ...any) {
	t.fails++
	d := fmt.Sprintf(format, a...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	t.Run.addFinding(Finding{Group: t.Group, Case: t.Idx, Sig: sig, Detail: d})
}

func (r *Run) addFinding(f Finding) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rep.NFindings++
	if len(r.rep.Findings) < maxFindings {
		r.rep.Findings = append(r.rep.Findings, f)
	}
	if r.rep.NFindings > 4000 || shallow {
		atomic.StoreInt32(&r.stop, 1)
	}
}

// Cases runs n cases of a group, in parallel when par is set.
func (r *Run) Cases(group string, n int, f func(t *T)) { r.cases(group, n, r.Workers, f) }

// CasesSeq runs the cases on one goroutine.
func (r *Run) CasesSeq(group string, n int, f func(t *T)) { r.cases(group, n, 1, f) }

func (r *Run) cases(group string, n, workers int, f func(t *T)) {
	if r.Replay && r.OnlyGrp != "" && r.OnlyGrp != group {
		return
	}
	lo, hi := 0, n
	if r.Replay && r.OnlyGrp != "" && r.OnlyCase >= 0 {
		lo, hi = r.OnlyCase, r.OnlyCase+1
		workers = 1
	}
	var next = int64(lo)
	var wg sync.WaitGroup
	start := time.Now()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			wk := &worker{bins: map[string]int{}, slot: slot}
			for atomic.LoadInt32(&r.stop) == 0 {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= hi {
					break
				}
				if len(r.skip) > 0 && r.skip[fmt.Sprintf("%s/%d", group, i)] {
					continue
				}
				r.Progress.Begin(slot, group, i)
				r.one(wk, group, i, f)
				r.Progress.End(slot)
			}
			r.mu.Lock()
			r.rep.Evaluations += wk.evals
			for k, v := range wk.bins {
				r.rep.Bins[k] += v
			}
			for _, s := range wk.samples {
				if r.nsamp < 40 {
					r.nsamp++
					r.rep.Samples = append(r.rep.Samples, s)
				}
			}
			r.mu.Unlock()
		}(w)
	}
	wg.Wait()
	r.mu.Lock()
	r.rep.Groups[group] += hi - lo
	r.mu.Unlock()
	if os.Getenv("HARNESS_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "[%s] %s: %d cases in %.1fs\n", r.ID, group, hi-lo, time.Since(start).Seconds())
	}
}

func (r *Run) one(wk *worker, group string, i int, f func(t *T)) {
	t := &T{Rng: NewRng(r.Seed, r.ID, group, fmt.Sprint(i)), Run: r, Group: group, Idx: i, w: wk}
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if strings.HasPrefix(fmt.Sprint(e), "ref:") || strings.HasPrefix(fmt.Sprint(e), "harness:") {
				// an oracle limitation is a harness error, never a violation
				fmt.Fprintf(os.Stderr, "HARNESS-ERROR %s/%d: %v\n%s\n", group, i, e, st)
				os.Exit(3)
			}
			t.Fail("panic:"+group, "unexpected panic: %v\ncase: %s\n%s", e, t.describe(), trimStack(st))
		}
	}()
	f(t)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Guard runs f and reports a panic value (nil if none).
func Guard(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Done writes the report for the parent.
func (r *Run) Done(path string) error {
	var d int64
	for i := range r.seen {
		d += int64(len(r.seen[i]))
	}
	r.rep.Distinct = d
	sort.SliceStable(r.rep.Findings, func(i, j int) bool {
		a, b := r.rep.Findings[i], r.rep.Findings[j]
		if a.Group != b.Group {
			return a.Group < b.Group
		}
		return a.Case < b.Case
	})
	b, err := json.Marshal(&r.rep)
	if err != nil {
		r.rep.Extra = map[string]any{"error": err.Error()}
		b, err = json.Marshal(&r.rep)
	}
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
