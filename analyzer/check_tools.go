package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["G02"] = checkG02
	needTools["G02"] = true
}

// G02: the generator and converters fail loudly.
func checkG02(w *World, r *Report) {
	r.Rule = "For every call in the generator and converter programs whose callee can fail, follow every control-flow path on which the error is non-nil: it must reach a call that ends the process with a failure status, set the variable that main passes to os.Exit, or return the error to a caller for which the same holds; and main must pass that variable to os.Exit."
	r.Minimums["programs"] = 3
	r.Minimums["failing calls checked"] = 15
	var names []string
	for n := range w.TProg {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r.Counts["programs"]++
		var fns []*ssa.Function
		fns = append(fns, AllFuncs(w.TProg[n])...)
		errorDiscipline(w, r, "fails-loudly", fns, true)
		exitStatusDiscipline(w, r, "exit-status", fns)
	}
}
