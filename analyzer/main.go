// Command analyzer decides the properties of google/licensecheck listed in
// /verif/properties.jsonl from the repository's source, without running it.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
)

type checkFunc func(w *World, r *Report)

var checks = map[string]checkFunc{}

// hiddenChecks are for debugging the analysis.
var hiddenChecks = map[string]checkFunc{}

// needTools lists the properties that also analyse the generator programs.
var needTools = map[string]bool{}

func main() {
	prop := flag.String("prop", "", "property to check (or all)")
	repo := flag.String("repo", "/repo", "repository to analyse")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	flag.StringVar(&knownFile, "known", "/verif/known-findings.txt", "known findings file")
	dump := flag.String("dump", "", "debug: dump SSA of the named function")
	flag.Parse()
	if f := os.Getenv("CPUPROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var props []string
	if *prop == "all" {
		for p := range checks {
			props = append(props, p)
		}
		sort.Strings(props)
	} else {
		props = strings.Split(*prop, ",")
	}
	if *dump != "" {
		w, err := Load(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, p := range w.SPkg {
			for _, f := range AllFuncs(p) {
				if f.Name() == *dump {
					f.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	code := 0
	debug.SetGCPercent(400)
	for _, p := range props {
		f := checks[p]
		if f == nil {
			f = hiddenChecks[p]
		}
		if f == nil {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", p)
			os.Exit(2)
		}
		c := runCheck(p, f, *repo, *out, tier, seed)
		if c > code {
			code = c
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func runCheck(p string, f checkFunc, repo, out, tier string, seed int) int {
	r := NewReport(p)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.bad("analysis", "checker", "-", fmt.Sprintf("analysis could not complete (undecided): %v\n%s", e, debug.Stack()))
			}
		}()
		w, err := Load(repo)
		if err == nil && needTools[p] {
			err = w.LoadTools()
		}
		if err != nil {
			r.bad("load", "repository", "-", "cannot load and type-check the repository: "+err.Error())
			return
		}
		f(w, r)
	}()
	return r.finish(out, tier, seed)
}
