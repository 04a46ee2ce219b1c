package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// An Obligation is one instance of a rule that a check decided.
// Key identifies it by rule and construct (never by line).
type Obligation struct {
	Rule      string
	Construct string
	Pos       string
	OK        bool
	Detail    string
}

// Report collects what a check analysed and what it found.
type Report struct {
	Prop     string
	Rule     string         // the rule applied, in words
	Counts   map[string]int // what was analysed
	Obls     []Obligation
	Samples  []string
	Assume   []string
	Notes    []string
	Minimums map[string]int // instance counts confirmed by hand; fewer means the check saw too little
	start    time.Time
}

func NewReport(prop string) *Report {
	return &Report{Prop: prop, Counts: map[string]int{}, Minimums: map[string]int{}, start: time.Now()}
}

func (r *Report) ok(rule, construct, pos, detail string) {
	r.Obls = append(r.Obls, Obligation{rule, construct, pos, true, detail})
}

func (r *Report) bad(rule, construct, pos, detail string) {
	r.Obls = append(r.Obls, Obligation{rule, construct, pos, false, detail})
}

func (r *Report) check(cond bool, rule, construct, pos, detail string) bool {
	r.Obls = append(r.Obls, Obligation{rule, construct, pos, cond, detail})
	return cond
}

func (r *Report) sample(f string, args ...interface{}) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, args...))
	}
}

func (r *Report) violations() []Obligation {
	var out []Obligation
	seen := map[string]bool{}
	for _, o := range r.Obls {
		k := o.Rule + "|" + o.Construct + "|" + o.Pos + "|" + o.Detail
		if !o.OK && !seen[k] {
			seen[k] = true
			out = append(out, o)
		}
	}
	return out
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

// finish writes the evidence file and prints the verdict. It returns the exit code.
func (r *Report) finish(outDir, tier string, seed int) int {
	for k, min := range r.Minimums {
		if r.Counts[k] < min {
			r.bad("instance-count", k, "-", fmt.Sprintf("only %d instances analysed, at least %d were confirmed by hand: the anchors no longer resolve", r.Counts[k], min))
		}
	}
	known := loadKnown(r.Prop)
	var viol []Obligation
	for _, v := range r.violations() {
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k)
			continue
		}
		viol = append(viol, v)
	}
	discharged := 0
	rules := map[string]int{}
	for _, o := range r.Obls {
		rules[o.Rule]++
		if o.OK {
			discharged++
		}
	}
	var ruleNames []string
	for k := range rules {
		ruleNames = append(ruleNames, k)
	}
	sort.Strings(ruleNames)
	var ruleList []string
	for _, k := range ruleNames {
		ruleList = append(ruleList, fmt.Sprintf("%s: %d", k, rules[k]))
	}
	samples := r.Samples
	if len(samples) == 0 {
		for _, o := range r.Obls {
			if len(samples) >= 12 {
				break
			}
			samples = append(samples, fmt.Sprintf("%s: %s [%s] %s %s", o.Pos, o.Construct, o.Rule, okWord(o.OK), o.Detail))
		}
	}
	cov := map[string]interface{}{
		"explanation":          r.Rule,
		"analysed":             r.Counts,
		"obligations":          len(r.Obls),
		"discharged":           discharged,
		"obligations_per_rule": ruleList,
		"samples":              samples,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := evidence{Property: r.Prop, Tier: tier, Seed: seed, Level: "other", Coverage: cov,
		Assumptions: r.Assume, WallS: time.Since(r.start).Seconds(), Violations: len(viol)}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(outDir, 0777)
	if err := os.WriteFile(filepath.Join(outDir, r.Prop+".json"), append(data, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %.1fs\n", r.Prop, len(r.Obls), discharged, time.Since(r.start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	replay := filepath.Join(outDir, r.Prop+".violations.txt")
	var b strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&b, "%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Detail)
	}
	os.WriteFile(replay, []byte(b.String()), 0666)
	for i, v := range viol {
		if i >= 20 {
			fmt.Printf("  ... %d more\n", len(viol)-i)
			break
		}
		fmt.Printf("  %s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}

func okWord(b bool) string {
	if b {
		return "holds."
	}
	return "FAILS."
}

// Known findings: lines "KNOWN property=<id> rule=<rule> construct=<construct> :: <text>"
// in /verif/known-findings.txt. Lines starting "fixed:" suppress nothing.
type knownSet []struct{ rule, construct, text string }

var knownFile string

func loadKnown(prop string) knownSet {
	var ks knownSet
	data, err := os.ReadFile(knownFile)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(line, "KNOWN property="+prop+" ")
		if !ok {
			continue
		}
		head, text, ok := strings.Cut(rest, " :: ")
		if !ok {
			continue
		}
		head, ok = strings.CutPrefix(head, "rule=")
		if !ok {
			continue
		}
		rule, construct, ok := strings.Cut(head, " construct=")
		if !ok {
			continue
		}
		ks = append(ks, struct{ rule, construct, text string }{rule, construct, text})
	}
	return ks
}

func (ks knownSet) match(o Obligation) string {
	for _, k := range ks {
		if k.rule == o.Rule && k.construct == o.Construct {
			return k.text
		}
	}
	return ""
}
