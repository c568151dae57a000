package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ericlagergren/decimal"

	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

const (
	exitRace     = 66
	exitMismatch = 65
)

// raceReport is what one concurrent process observed.
type raceReport struct {
	Calls    int            `json:"calls"`
	Overlaps int            `json:"overlaps"` // calls that started while another was under way
	Order    uint64         `json:"order"`    // hash of the order in which the calls returned
	Names    map[string]int `json:"names"`
	Mismatch string         `json:"mismatch,omitempty"`
}

var raceScenarios = []string{"same-first-use", "constants", "powers", "mixed", "readers", "elementary", "text"}

// raceCalls selects the calls of a scenario.
func raceCalls(t *mon.Rng, scen string) []*call {
	has := func(c *call, l ...string) bool {
		for _, s := range l {
			if c.name == s {
				return true
			}
		}
		return false
	}
	var out []*call
	for _, c := range calls {
		switch scen {
		case "same-first-use":
			// one random function, by everybody, at once
			if c.slow {
				out = append(out, c)
			}
		case "constants":
			if has(c, "ctx.Pi", "ctx.E", "ctx.Log10", "ctx.Log", "ctx.Atan", "ctx.Atan2", "ctx.Acos", "ctx.Asin", "ctx.Sin", "ctx.Cos", "ctx.Tan", "ctx.Hypot", "ctx.Sqrt", "ctx.Pow", "ctx.Exp") {
				out = append(out, c)
			}
		case "powers":
			if has(c, "ctx.Quantize", "ctx.Add", "ctx.Mul", "ctx.Quo", "ctx.Sub", "big.Cmp", "big.Rat", "big.Int", "ctx.QuoInt", "ctx.Rem", "ctx.FMA", "ctx.Reduce", "big.Float", "ctx.Sqrt") {
				out = append(out, c)
			}
		case "mixed":
			if !c.slow {
				out = append(out, c)
			}
		case "readers":
			if c.kind == kRead || has(c, "ctx.Add", "ctx.Mul", "big.Copy", "ctx.Set") {
				out = append(out, c)
			}
		case "elementary":
			if c.slow {
				out = append(out, c)
			}
		case "text":
			if has(c, "text", "big.Format", "big.SetString", "ctx.SetString", "big.UnmarshalText", "big.Scan", "big.Decompose", "big.Compose", "big.SetRat", "big.SetFloat", "big.SetFloat64", "big.Float64") {
				out = append(out, c)
			}
		}
	}
	if scen == "same-first-use" {
		out = out[t.N(len(out)):][:1]
	}
	return out
}

// RaceMain is a process in which goroutines use the library at the same time,
// before anything else has used it.
func RaceMain(seed uint64, scen string) int {
	rng := mon.NewRng(seed, "race", scen)
	run := mon.NewRun("race", "quick", seed, 1)
	t := run.Bare(rng)
	runtime.GOMAXPROCS(rng.Pick(2, 3, 4, 8, 8, 16))
	type job struct {
		c   *call
		p   *prm
		a   bigs
		got seen
	}
	cs := raceCalls(rng, scen)
	ng := rng.In(2, 8)
	per := 12
	if cs[0].slow && len(cs) == 1 {
		per = 2
	} else if scen == "elementary" || scen == "constants" {
		per = 5
	} else {
		per = 60
	}
	// operands shared by everybody
	var jobs [][]*job
	var shared []*job
	for i := 0; i < per; i++ {
		j := &job{c: cs[rng.N(len(cs))]}
		j.p = newCall(t, j.c)
		if scen == "powers" {
			for k := range j.p.d {
				if d := &j.p.d[k]; d.K == ref.Fin && rng.Bool() {
					d.E = rng.In(-1500, 1500) * rng.Pick(0, 1, 1)
				}
			}
			if j.c.name == "ctx.Quantize" {
				j.p.c = decimal.Context{Precision: 4000}
				j.p.z = ref.Int(int64(rng.In(1, 1000)))
				j.p.n = rng.In(1, 3000)
			}
			if j.p.c.Precision == decimal.UnlimitedPrecision || j.c.name == "ctx.Quo" || j.c.name == "ctx.Sqrt" {
				j.p.c.Precision = rng.Pick(20, 100, 400, 1000)
			} else if rng.Bool() {
				j.p.c = decimal.Context{Precision: rng.Pick(300, 1000, 2000)}
			}
		}
		for _, d := range j.p.d {
			x := roomy(t, d)
			if j.c.kind == kRead {
				x.Context = decimal.Context{}
			}
			j.a = append(j.a, x)
		}
		shared = append(shared, j)
	}
	for g := 0; g < ng; g++ {
		var js []*job
		for range shared {
			s := shared[rng.N(len(shared))]
			js = append(js, &job{c: s.c, p: s.p, a: s.a})
		}
		if scen == "same-first-use" || rng.P(1, 3) { // everybody in the same order
			for i := range js {
				js[i] = &job{c: shared[i].c, p: shared[i].p, a: shared[i].a}
			}
		}
		jobs = append(jobs, js)
	}
	yield := make([][]int, ng)
	for g := range yield {
		for range jobs[g] {
			yield[g] = append(yield[g], rng.Pick(0, 0, 0, 1, 2, 5))
		}
	}
	var (
		start  = make(chan struct{})
		wg     sync.WaitGroup
		spans  = make([][][2]time.Duration, ng)
		origin = time.Now()
	)
	for g := range jobs {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			// no shared counters: they would order the calls and hide races
			local := make([][2]time.Duration, 0, len(jobs[g]))
			for i, j := range jobs[g] {
				for k := 0; k < yield[g][i]; k++ {
					runtime.Gosched()
				}
				z := new(decimal.Big)
				if j.c.kind == kInPlace {
					z = plain(j.p.z)
				}
				from := time.Since(origin)
				j.got = execute(j.c, j.p, z, j.a)
				local = append(local, [2]time.Duration{from, time.Since(origin)})
			}
			spans[g] = local
		}(g)
	}
	close(start)
	wg.Wait()

	rep := raceReport{Names: map[string]int{}}
	rep.Overlaps, rep.Order = interleaving(spans)
	code := 0
	want := map[*prm]seen{}
	for g := range jobs {
		for i, j := range jobs[g] {
			rep.Calls++
			rep.Names[j.c.name]++
			w, ok := want[j.p]
			if !ok {
				w = fresh(j.c, j.p)
				want[j.p] = w
			}
			if !j.got.same(w) && rep.Mismatch == "" {
				rep.Mismatch = fmt.Sprintf("%s %v: goroutine %d, call %d: %v; alone: %v", j.c.name, j.p, g, i, j.got, w)
				code = exitMismatch
			}
		}
	}
	for _, j := range shared {
		for i, x := range j.a {
			if v := lib.Of(x); !ref.Eq(v, j.p.d[i]) && rep.Mismatch == "" {
				rep.Mismatch = fmt.Sprintf("%s %v: shared operand %d is now %v", j.c.name, j.p, i, v)
				code = exitMismatch
			}
		}
	}
	b, _ := json.Marshal(rep)
	os.Stdout.Write(append(b, '\n'))
	return code
}

// interleaving counts the calls that began while another goroutine's call was
// under way, and identifies the order in which calls began and ended.
func interleaving(spans [][][2]time.Duration) (overlaps int, order uint64) {
	type ev struct {
		at  time.Duration
		g   int
		end bool
	}
	var evs []ev
	for g, s := range spans {
		for _, x := range s {
			evs = append(evs, ev{x[0], g, false}, ev{x[1], g, true})
		}
	}
	sort.Slice(evs, func(i, j int) bool {
		a, b := evs[i], evs[j]
		return a.at < b.at || a.at == b.at && (a.end && !b.end || a.end == b.end && a.g < b.g)
	})
	h := fnv.New64a()
	n := 0
	for _, e := range evs {
		if e.end {
			n--
		} else {
			if n > 0 {
				overlaps++
			}
			n++
		}
		h.Write([]byte{byte(e.g)})
	}
	return overlaps, h.Sum64()
}

// raceProcess runs one process and judges it.
func raceProcess(t *mon.T, scen string, seed uint64, st *raceStats) {
	t.Desc("concurrent process %s, seed %d", scen, seed)
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "race", fmt.Sprint(seed), scen)
	cmd.Env = append(os.Environ(), fmt.Sprintf("GORACE=halt_on_error=0 exitcode=%d history_size=3 atexit_sleep_ms=0", exitRace))
	var out, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &se
	err := cmd.Run()
	var rep raceReport
	json.Unmarshal(out.Bytes(), &rep)
	st.add(rep)
	t.Observe(fmt.Sprint(scen, seed), rep.Overlaps > 0)
	t.Bin("process " + scen)
	t.Sample("%s seed %d: %d calls, %d overlapped", scen, seed, rep.Calls, rep.Overlaps)
	what := fmt.Sprintf("goroutines using the library at the same time in a fresh process (scenario %s, seed %d; rerun: harness race %d %s)", scen, seed, seed, scen)
	report := se.String()
	if len(report) > 4000 {
		report = report[:4000] + "..."
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case ctx.Err() != nil:
		t.Fail("concurrency:hang", "%s: did not finish in 3 minutes\n%s", what, report)
	case errors.As(err, &ee) && ee.ExitCode() == exitRace, strings.Contains(report, "WARNING: DATA RACE"):
		t.Fail("concurrency:race", "%s: data race\n%s\n%s", what, rep.Mismatch, report)
	case errors.As(err, &ee) && ee.ExitCode() == exitMismatch:
		t.Fail("concurrency:result", "%s: %s", what, rep.Mismatch)
	case strings.Contains(report, "harness:") || strings.Contains(report, "ref:"):
		panic("harness: " + report)
	default:
		t.Fail("concurrency:crash", "%s: %v\n%s", what, err, report)
	}
}

type raceStats struct {
	mu                         sync.Mutex
	processes, calls, overlaps int
	orders                     map[uint64]bool
	names                      map[string]int
}

func (s *raceStats) add(r raceReport) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.processes++
	s.calls += r.Calls
	s.overlaps += r.Overlaps
	s.orders[r.Order] = true
	for k, v := range r.Names {
		s.names[k] += v
	}
}

func init() {
	Register("R04", func(r *mon.Run) {
		r.Rule("Fresh processes built with the race detector in which 2 to 8 goroutines (on 2 to 16 processors, with random yields) start using the library at the same moment, before anything else used it: everybody calling one elementary function, cached constants, growing tables of powers, mixed operations, readers of shared operands, text conversions. Operands are shared, receivers are not. Every result is compared with the same call executed alone afterwards, and shared operands with what they were. Non-trivial: processes in which calls overlapped.")
		st := &raceStats{orders: map[uint64]bool{}, names: map[string]int{}}
		seed := r.Seed * 1000003
		for _, s := range raceScenarios {
			s := s
			n := 300
			if s == "same-first-use" {
				n = 600
			}
			r.Cases("race-"+s, r.Scale(n), func(t *mon.T) { raceProcess(t, s, seed+uint64(t.Idx), st) })
		}
		r.SetExtra("processes", st.processes)
		r.SetExtra("calls", st.calls)
		r.SetExtra("calls_that_overlapped_another", st.overlaps)
		r.SetExtra("distinct_interleavings", len(st.orders))
		r.SetExtra("calls_by_function", st.names)
	}, "The race detector reports races of executed interleavings only.")
}
