// Package runner supervises check executions: the workload runs in a child
// process so that hangs, fatal runtime errors and memory exhaustion of the code
// under test become verdicts instead of taking the check down.
package runner

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/harness/mon"
	"verif/harness/props"
)

// Known is one entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	Sig      string `json:"sig,omitempty"`
	Input    string `json:"input,omitempty"`
	What     string `json:"what"`
	Line     string `json:"line,omitempty"`
}

type replayFile struct {
	Property string `json:"property"`
	Group    string `json:"group"`
	Case     int    `json:"case"`
	Sig      string `json:"sig"`
	Kind     string `json:"kind"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Detail   string `json:"detail"`
	How      string `json:"how_to_replay"`
}

const (
	// a case normally takes micro- to milliseconds; one that has been running
	// this long is executed again alone, with a limit on its CPU time.
	suspectAfter = 20 * time.Second
	loneCPU      = 60 // seconds of CPU time
)

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

// Child executes the workload.
func Child(args []string) int {
	var id, report, progress, grp string
	only, skip := -1, ""
	for i := 0; i+1 < len(args); i += 2 {
		switch args[i] {
		case "--id":
			id = args[i+1]
		case "--report":
			report = args[i+1]
		case "--progress":
			progress = args[i+1]
		case "--group":
			grp = args[i+1]
		case "--case":
			only, _ = strconv.Atoi(args[i+1])
		case "--skip":
			skip = args[i+1]
		}
	}
	seed, _ := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 2 {
		workers = 2
	}
	r := mon.NewRun(id, env("VERIF_TIER", "quick"), seed, workers)
	if grp != "" {
		r.Replay, r.OnlyGrp, r.OnlyCase = true, grp, only
	}
	r.SetSkip(skip)
	if progress != "" {
		p, err := mon.OpenProgress(progress, false)
		if err != nil {
			fmt.Fprintln(os.Stderr, "progress:", err)
			return 3
		}
		r.Progress = p
	}
	if os.Getenv("HARNESS_RACE") == "" {
		lim := uint64(14) << 30
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	if cpu := os.Getenv("HARNESS_CPU"); cpu != "" {
		n, _ := strconv.ParseUint(cpu, 10, 64)
		syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: n, Max: n + 5})
	}
	f := props.Checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 3
	}
	f(r)
	if err := r.Done(report); err != nil {
		fmt.Fprintln(os.Stderr, "report:", err)
		return 3
	}
	return 0
}

type childResult struct {
	rep      *mon.Report
	exit     int
	err      string
	stderr   string
	inflight []mon.InFlight
	suspect  *mon.InFlight
}

func runChild(dir, id string, extra []string, cpu int, suspect time.Duration) childResult {
	rp, pp := filepath.Join(dir, "report.json"), filepath.Join(dir, "progress")
	os.Remove(rp)
	prog, err := mon.OpenProgress(pp, true)
	if err != nil {
		return childResult{exit: 3, err: err.Error()}
	}
	defer prog.Close()
	args := append([]string{"child", "--id", id, "--report", rp, "--progress", pp}, extra...)
	cmd := exec.Command(os.Args[0], args...)
	var se tail
	cmd.Stderr = &se
	cmd.Stdout = &se
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if cpu > 0 {
		cmd.Env = append(cmd.Env, "HARNESS_CPU="+strconv.Itoa(cpu))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return childResult{exit: 3, err: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	var res childResult
loop:
	for {
		select {
		case err := <-done:
			if err != nil {
				res.err = err.Error()
				res.exit = 1
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
					res.exit = ee.ExitCode()
				}
			}
			break loop
		case <-tick.C:
			if suspect == 0 {
				continue
			}
			for _, f := range prog.List() {
				if time.Since(f.Since) > suspect {
					f := f
					res.suspect = &f
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					<-done
					break loop
				}
			}
		}
	}
	res.inflight = prog.List()
	res.stderr = se.String()
	if b, err := os.ReadFile(rp); err == nil {
		var rep mon.Report
		if json.Unmarshal(b, &rep) == nil {
			res.rep = &rep
		}
	}
	return res
}

// tail keeps the first and last part of a stream.
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 64<<10 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

// Main runs a check: harness run ID [--replay FILE].
func Main(verif, id string, args []string) int {
	start := time.Now()
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 63)
	if err != nil {
		seed = 1
	}
	dir, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)

	var base []string
	replaying := false
	if len(args) == 2 && args[0] == "--replay" {
		b, err := os.ReadFile(args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil || rf.Property != id {
			fmt.Fprintln(os.Stderr, "not a replay file of", id)
			return 3
		}
		replaying = true
		tier, seed = rf.Tier, rf.Seed
		os.Setenv("VERIF_TIER", tier)
		os.Setenv("VERIF_SEED", strconv.FormatUint(seed, 10))
		base = []string{"--group", rf.Group, "--case", strconv.Itoa(rf.Case)}
	}

	var total *mon.Report
	var findings []mon.Finding
	var skip []string
	errs := ""
	suspect := suspectAfter
	for attempt := 0; ; attempt++ {
		extra := append([]string{}, base...)
		if len(skip) > 0 {
			extra = append(extra, "--skip", strings.Join(skip, ","))
		}
		res := runChild(dir, id, extra, 0, suspect)
		if res.exit == 3 {
			fmt.Fprintln(os.Stderr, "check error:", res.err)
			fmt.Fprintln(os.Stderr, res.stderr)
			return 3
		}
		if res.rep != nil && res.suspect == nil && res.exit == 0 {
			total = res.rep
			break
		}
		// the child died or seems stuck: attribute it to a case
		if attempt >= 6 {
			errs = "too many aborted attempts"
			break
		}
		cands := res.inflight
		kind := "crash"
		if res.suspect != nil {
			cands = []mon.InFlight{*res.suspect}
			kind = "hang"
		}
		sort.Slice(cands, func(i, j int) bool { return cands[i].Since.Before(cands[j].Since) })
		hit := false
		for _, c := range cands {
			lone := runChild(dir, id, []string{"--group", c.Group, "--case", strconv.Itoa(c.Case)}, loneCPU, 5*time.Minute)
			if lone.exit == 3 {
				fmt.Fprintln(os.Stderr, "check error:", lone.err, lone.stderr)
				return 3
			}
			if lone.exit == 0 && lone.rep != nil {
				findings = append(findings, lone.rep.Findings...)
				continue
			}
			hit = true
			k := "crash"
			d := "the process running this single case died: " + lone.err
			if lone.suspect != nil {
				k = "hang"
				d = "the case did not finish within 5 minutes"
			} else if strings.Contains(lone.err, "CPU") || strings.Contains(lone.err, "killed") {
				k = "hang"
				d = fmt.Sprintf("the case did not finish within %d s of CPU time (%s)", loneCPU, lone.err)
			}
			findings = append(findings, mon.Finding{Group: c.Group, Case: c.Case, Sig: k + ":" + c.Group, Kind: k,
				Detail: d + "\n" + describe(dir, id, c) + "\n" + head(lone.stderr, 3000)})
			skip = append(skip, fmt.Sprintf("%s/%d", c.Group, c.Case))
		}
		if !hit {
			if kind == "hang" {
				// a slow machine, not a hang: go on without the watchdog being so eager
				suspect *= 4
				continue
			}
			if attempt >= 1 {
				if len(cands) > 0 {
					c := cands[0]
					findings = append(findings, mon.Finding{Group: c.Group, Case: -1, Sig: "crash:" + c.Group, Kind: "crash",
						Detail: "the process died repeatedly while running this group: " + res.err + "\n" + head(res.stderr, 5000)})
				} else {
					errs = "workload process failed: " + res.err + "\n" + head(res.stderr, 5000)
				}
				break
			}
		}
		if hit {
			break // one confirmed witness decides the run
		}
	}
	if errs != "" && len(findings) == 0 {
		fmt.Fprintln(os.Stderr, "check error:", errs)
		return 3
	}
	if total == nil {
		total = &mon.Report{Property: id, Bins: map[string]int{}, Groups: map[string]int{}}
	}
	findings = append(findings, total.Findings...)

	// known findings
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	var fresh []mon.Finding
	hitKnown := map[int]bool{}
	for _, f := range findings {
		matched := false
		for i, k := range known {
			if k.Status == "known" && k.Property == id && k.Sig == f.Sig && k.Input != "" && strings.Contains(f.Detail, k.Input) {
				hitKnown[i] = true
				matched = true
			}
		}
		if !matched {
			fresh = append(fresh, f)
		}
	}
	for i, k := range known {
		if hitKnown[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}

	if !replaying && total.Evaluations == 0 && len(fresh) == 0 {
		fmt.Fprintln(os.Stderr, "check error: the monitors observed nothing")
		return 3
	}
	rdir := filepath.Join(verif, "evidence", "replays")
	code := 0
	if len(fresh) > 0 {
		code = 1
		os.MkdirAll(rdir, 0o755)
		seen := map[string]int{}
		n := 0
		for _, f := range fresh {
			seen[f.Sig]++
			if seen[f.Sig] > 1 || n >= 20 {
				continue
			}
			n++
			rf := replayFile{Property: id, Group: f.Group, Case: f.Case, Sig: f.Sig, Kind: f.Kind, Seed: seed, Tier: tier, Detail: f.Detail}
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, n))
			if replaying {
				path = args[1]
			} else {
				rf.How = fmt.Sprintf("/verif/check.sh %s --replay %s", id, path)
				b, _ := json.MarshalIndent(&rf, "", "  ")
				os.WriteFile(path, append(b, '\n'), 0o644)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  [%s/%d] %s\n  %s\n", f.Group, f.Case, f.Sig, strings.ReplaceAll(head(f.Detail, 1500), "\n", "\n  "))
		}
		fmt.Printf("%d violations, %d kinds\n", len(fresh), len(seen))
	}
	if replaying {
		if code == 0 {
			fmt.Println("replay: no violation")
		}
		return code
	}
	writeEvidence(verif, id, tier, seed, total, len(fresh), time.Since(start))
	if code == 0 {
		fmt.Printf("%s: held on %d evaluations (%d distinct non-trivial cases) in %.1f s\n", id, total.Evaluations, total.Distinct, time.Since(start).Seconds())
	}
	return code
}

// describe asks a child to print what a case is about to do.
func describe(dir, id string, c mon.InFlight) string {
	return fmt.Sprintf("case %s/%d of %s", c.Group, c.Case, id)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func loadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	return ks.Findings
}

func writeEvidence(verif, id, tier string, seed uint64, rep *mon.Report, violations int, wall time.Duration) {
	type m = map[string]any
	cov := m{
		"evaluations":         rep.Evaluations,
		"distinct_nontrivial": rep.Distinct,
		"rule":                strings.Join(rep.Rules, " "),
		"samples":             rep.Samples,
		"observed_classes":    rep.Bins,
		"cases_per_group":     rep.Groups,
	}
	for k, v := range rep.Extra {
		cov[k] = v
	}
	ev := m{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": props.Assumptions(id),
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
}
