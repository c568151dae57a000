// Command harness runs the runtime monitors.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"

	"verif/harness/mon"
	"verif/harness/props"
	"verif/harness/runner"
)

func main() {
	if len(os.Args) > 3 && os.Args[1] == "run" {
		os.Exit(runner.Main(os.Args[2], os.Args[3], os.Args[4:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "child" {
		os.Exit(runner.Child(os.Args[2:]))
	}
	if len(os.Args) > 3 && os.Args[1] == "race" {
		seed, _ := strconv.ParseUint(os.Args[2], 10, 64)
		os.Exit(props.RaceMain(seed, os.Args[3]))
	}
	if len(os.Args) > 2 && os.Args[1] == "cold" {
		seed, _ := strconv.ParseUint(os.Args[2], 10, 64)
		os.Exit(props.ColdMain(seed))
	}
	if len(os.Args) > 3 && os.Args[1] == "oracle" {
		seed, _ := strconv.ParseUint(os.Args[2], 10, 64)
		n, _ := strconv.Atoi(os.Args[3])
		os.Exit(props.OracleMain(seed, n))
	}
	if len(os.Args) > 1 && os.Args[1] == "ids" {
		for _, id := range props.IDs() {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "probe" {
		r := mon.NewRun(os.Args[2], "quick", 1, 8)
		props.Checks[os.Args[2]](r)
		r.Done("/tmp/probe.json")
		b, _ := os.ReadFile("/tmp/probe.json")
		var rep mon.Report
		json.Unmarshal(b, &rep)
		n := map[string]int{}
		ex := map[string]mon.Finding{}
		for _, f := range rep.Findings {
			n[f.Sig]++
			if e, ok := ex[f.Sig]; !ok || len(f.Detail) < len(e.Detail) {
				ex[f.Sig] = f
			}
		}
		var keys []string
		for k := range n {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("%6d %s\n   [%s/%d] %s\n", n[k], k, ex[k].Group, ex[k].Case, ex[k].Detail)
		}
		fmt.Println("evals", rep.Evaluations, "distinct", rep.Distinct, "findings", rep.NFindings)
		return
	}
}
