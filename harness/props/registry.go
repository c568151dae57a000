package props

import (
	"sort"

	"verif/harness/mon"
)

// Checks maps a property to its workload and monitors.
var Checks = map[string]func(r *mon.Run){}

var assumptions = map[string][]string{}

// Register adds a check.
func Register(id string, f func(r *mon.Run), assume ...string) {
	Checks[id] = f
	assumptions[id] = assume
}

var common = []string{
	"The oracle is the harness's own model (ref, hp), cross-checked against CPython's decimal module and against high-precision identities.",
	"Absence of a violation is a statement about the executions listed in coverage, not about all inputs.",
}

// Assumptions lists what a property's check relies on.
func Assumptions(id string) []string {
	return append(append([]string{}, common...), assumptions[id]...)
}

// IDs lists the property checks.
func IDs() []string {
	var out []string
	for k := range Checks {
		if len(k) == 3 {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}
