package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type entryPoint struct {
	name string
	fn   *ssa.Function
}

func (w *World) entries(r *Report, names ...string) []entryPoint {
	var out []entryPoint
	for _, n := range names {
		var f *ssa.Function
		switch n {
		case "Scan":
			f = w.Func(rootPath, "Scan")
		case "Scanner.Scan":
			f = w.Method(rootPath, "Scanner", "Scan")
		case "NewScanner":
			f = w.Func(rootPath, "NewScanner")
		case "BuiltinLicenses":
			f = w.Func(rootPath, "BuiltinLicenses")
		case "Type.Merge":
			f = w.Method(rootPath, "Type", "Merge")
		case "Type.String":
			f = w.Method(rootPath, "Type", "String")
		case "ParseType":
			f = w.Func(rootPath, "ParseType")
		case "old.Cover":
			f = w.Func(oldPath, "Cover")
		case "old.Checker.Cover":
			f = w.Method(oldPath, "Checker", "Cover")
		case "old.New":
			f = w.Func(oldPath, "New")
		case "old.BuiltinLicenses":
			f = w.Func(oldPath, "BuiltinLicenses")
		}
		if f == nil || len(f.Blocks) == 0 {
			r.bad("anchor", n, "-", "exported API function not found in the source")
			continue
		}
		r.Counts["entry points"]++
		out = append(out, entryPoint{n, f})
	}
	return out
}

func (e *effects) tally(r *Report) {
	r.Counts["function contexts analysed"] += len(e.list)
	r.Counts["instructions analysed"] += e.instrs
	r.Counts["repository call edges"] += e.calls
	for _, n := range e.stdCalls {
		r.Counts["library call sites summarised"] += n
	}
}

func (ev effEvent) construct(entry string) string {
	return entry + ": " + shortFn(ev.ctx.fn)
}

func init() {
	checks["C04"] = checkC04
	checks["C05"] = checkC05
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

// C04: scanning never modifies scanner or package state.
func checkC04(w *World, r *Report) {
	r.Rule = "Context-sensitive points-to and effect analysis from every scanning entry point: each store, map update, append, copy and mutating library call reachable from the entry point, outside a function run by sync.Once, must target memory allocated during the call. Shared memory is everything reachable from the receiver or a package variable."
	r.Minimums["function contexts analysed"] = 20
	r.Minimums["once initialisers"] = 1
	r.Minimums["entry points"] = 4
	for _, ep := range w.entries(r, "Scan", "Scanner.Scan", "old.Cover", "old.Checker.Cover") {
		e := w.analyzeEffects(ep.fn, false)
		e.tally(r)
		bad := map[*effCtx]bool{}
		for _, ev := range e.sortedEvents("write", "retain") {
			sh := ev.target.o.kind == objShared || ev.target.o.kind == objOnce
			if !sh {
				continue
			}
			if ev.ctx.inOnce {
				r.Counts["writes inside once-only initialisation"]++
				continue
			}
			bad[ev.ctx] = true
			r.bad("write-to-shared", ev.construct(ep.name), w.instrPos(ev.in), fmt.Sprintf("%s; call path %s", ev.what, ev.ctx.chain()))
		}
		for _, ev := range e.sortedEvents("call", "unsafe", "badonce") {
			if ev.kind == "call" && !unknownCallee(ev.what) {
				continue
			}
			bad[ev.ctx] = true
			r.bad("unclassified", ev.construct(ep.name), w.instrPos(ev.in), fmt.Sprintf("%s, whose effects on shared state are unknown; call path %s", ev.what, ev.ctx.chain()))
		}
		r.Counts["once initialisers"] += len(e.sortedEvents("once"))
		for _, c := range e.list {
			if !bad[c] {
				r.ok("write-to-shared", ep.name+": "+c.chain(), w.Pos(c.fn.Pos()), "writes only memory allocated during the call")
			}
		}
	}
	r.Assume = append(r.Assume, "standard-library functions behave as summarised in analyzer/stdsum.go", "no other goroutine assigns the library's package variables (they are unexported or never assigned)")
}

// unknownCallee reports whether a call note is about something that might
// write shared memory (rather than output).
func unknownCallee(what string) bool {
	return what != "builtin print writes to standard error" && what != "builtin println writes to standard error"
}

// C05: caller data isolation.
func checkC05(w *World, r *Report) {
	r.Rule = "Points-to and effect analysis: no store, append, copy or mutating call targets memory reachable from an argument; no reference to an argument's memory is stored in shared state; and no memory reachable from a result is shared state or an argument."
	r.Minimums["entry points"] = 7
	r.Minimums["result references checked"] = 5
	for _, ep := range w.entries(r, "Scan", "Scanner.Scan", "NewScanner", "BuiltinLicenses", "old.Checker.Cover", "old.New", "old.BuiltinLicenses") {
		e := w.analyzeEffects(ep.fn, false)
		e.tally(r)
		n := 0
		for _, ev := range e.sortedEvents("write", "retain") {
			if ev.kind == "write" && ev.target.o.kind != objInput {
				continue
			}
			n++
			r.bad("argument-isolation", ev.construct(ep.name), w.instrPos(ev.in), fmt.Sprintf("%s; call path %s", ev.what, ev.ctx.chain()))
		}
		for _, ev := range e.sortedEvents("unsafe") {
			n++
			r.bad("argument-isolation", ev.construct(ep.name), w.instrPos(ev.in), ev.what+" defeats the copy between caller and library")
		}
		for _, ev := range e.sortedEvents("call") {
			if !unknownCallee(ev.what) {
				continue
			}
			n++
			r.bad("unclassified", ev.construct(ep.name), w.instrPos(ev.in), ev.what+", whose effects on the argument are unknown")
		}
		if n == 0 {
			r.ok("argument-isolation", ep.name, w.Pos(ep.fn.Pos()), fmt.Sprintf("%d function contexts neither write nor retain the argument", len(e.list)))
		}
		// Results.
		reach := e.reachableFromResults()
		n = 0
		var keys []string
		by := map[string]reachItem{}
		for _, it := range reach {
			r.Counts["result references checked"]++
			if it.t.o.kind == objShared || it.t.o.kind == objInput || it.t.o.kind == objOnce {
				if ep.name == "NewScanner" || ep.name == "old.New" {
					// A scanner may refer to immutable package state, not to the argument.
					if it.t.o.kind != objInput {
						continue
					}
				}
				k := it.t.o.name
				if _, ok := by[k]; !ok {
					keys = append(keys, k)
					by[k] = it
				}
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			n++
			it := by[k]
			r.bad("result-isolation", ep.name, w.instrPos(it.ret), fmt.Sprintf("the result refers to %s (through %s)", k, it.via))
		}
		if n == 0 {
			r.ok("result-isolation", ep.name, w.Pos(ep.fn.Pos()), fmt.Sprintf("%d result references are all to memory allocated by the call", len(reach)))
		}
	}
	// Retention across calls: fresh objects holding the argument and stored in
	// shared state are caught by write events (C04) and "retain".
	r.Assume = append(r.Assume, "standard-library functions behave as summarised in analyzer/stdsum.go")
}

type reachItem struct {
	t   target
	ret ssa.Instruction
	via string
}

// reachableFromResults lists the locations reachable from the entry point's results.
func (e *effects) reachableFromResults() []reachItem {
	var out []reachItem
	seen := map[target]bool{}
	var walk func(t target, ret ssa.Instruction, via string)
	walk = func(t target, ret ssa.Instruction, via string) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.o.kind == objFunc {
			for loc, set := range e.heap {
				if loc.o == t.o {
					for x := range set {
						walk(x, ret, via+" captured")
					}
				}
			}
			return
		}
		out = append(out, reachItem{t, ret, via})
		if selfClosed(t.o) {
			return
		}
		for loc, set := range e.heap {
			if loc.o == t.o && len(loc.path) >= len(t.path) && loc.path[:len(t.path)] == t.path {
				for x := range set {
					walk(x, ret, via+loc.path)
				}
			}
		}
	}
	for _, ret := range e.returns(e.root) {
		for i, v := range ret.Results {
			for _, l := range leaves(v.Type()) {
				for t := range e.targets(e.root, v, l) {
					walk(t, ret, fmt.Sprintf("result %d%s", i, l))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].t.o.id != out[j].t.o.id {
			return out[i].t.o.id < out[j].t.o.id
		}
		return out[i].t.path < out[j].t.path
	})
	return out
}

// C06: determinism.
func checkC06(w *World, r *Report) {
	r.Rule = "Effect analysis from every exported entry point: no reachable instruction starts a goroutine, uses a channel, select, atomic or lock, ranges over a map in an order-dependent way, calls a time, random, environment, runtime or otherwise unclassified library function, converts pointers to integers, or reads a package variable that is written after initialisation."
	r.Minimums["entry points"] = 11
	r.Minimums["function contexts analysed"] = 60
	written := w.writtenGlobals()
	for _, ep := range w.entries(r, "Scan", "Scanner.Scan", "NewScanner", "BuiltinLicenses", "Type.Merge", "Type.String", "ParseType", "old.Cover", "old.Checker.Cover", "old.New", "old.BuiltinLicenses") {
		e := w.analyzeEffects(ep.fn, true)
		e.tally(r)
		n := 0
		for _, ev := range e.sortedEvents("nondet", "unsafe", "call") {
			n++
			r.bad("nondeterminism", ev.construct(ep.name), w.instrPos(ev.in), fmt.Sprintf("%s; call path %s", ev.what, ev.ctx.chain()))
		}
		// Reads of package variables that change after initialisation.
		for _, c := range e.list {
			flow := e.flowOf(c)
			for _, b := range c.fn.Blocks {
				if !flow.live[b] {
					continue
				}
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || !written[g] || isOnceType(g) {
							continue
						}
						r.Counts["reads of mutable package variables"]++
						if e.onceOnly(g) {
							continue
						}
						n++
						r.bad("mutable-global", ep.name+": "+shortFn(c.fn), w.instrPos(in), fmt.Sprintf("depends on package variable %s, which is modified after initialisation", g))
					}
				}
			}
		}
		for range e.sortedEvents("maprange") {
			r.Counts["order-insensitive map iterations"]++
		}
		if n == 0 {
			r.ok("nondeterminism", ep.name, w.Pos(ep.fn.Pos()), fmt.Sprintf("%d function contexts, no source of nondeterminism", len(e.list)))
		}
	}
	// What package initialisation stores must not differ from run to run either.
	for path, p := range w.SPkg {
		init := p.Func("init")
		if init == nil {
			continue
		}
		e := w.analyzeEffects(init, true)
		e.tally(r)
		n := 0
		for _, ev := range e.sortedEvents("nondet", "unsafe", "call") {
			n++
			r.bad("nondeterminism", "init of "+path+": "+shortFn(ev.ctx.fn), w.instrPos(ev.in), ev.what)
		}
		if n == 0 {
			r.ok("nondeterminism", "init of "+path, "-", "package initialisation computes the same values in every run")
		}
	}
	r.Assume = append(r.Assume, "standard-library functions behave as summarised in analyzer/stdsum.go; sort.Slice is deterministic for equal inputs")
}

func isOnceType(g *ssa.Global) bool {
	return g.Type().String() == "*sync.Once"
}

// onceOnly reports whether every store to g happens inside a once-only initialiser.
func (e *effects) onceOnly(g *ssa.Global) bool {
	o := e.globObj[g]
	n := 0
	for _, ev := range e.sortedEvents("write") {
		if ev.target.o == o {
			if !ev.ctx.inOnce {
				return false
			}
			n++
		}
	}
	// Every store instruction in the program must be one of those.
	stores := 0
	for _, p := range e.w.SPkg {
		for _, fn := range AllFuncs(p) {
			if fn.Synthetic != "" && fn.Name() == "init" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						stores++
						found := false
						for _, ev := range e.sortedEvents("write") {
							if ev.in == in && ev.ctx.inOnce {
								found = true
							}
						}
						if !found {
							return false
						}
					}
				}
			}
		}
	}
	return stores > 0 && n > 0
}

// C07: silence and no I/O.
func checkC07(w *World, r *Report) {
	r.Rule = "Effect analysis from every exported entry point, with constant propagation for never-assigned package variables: no reachable instruction prints, and every call leaving the repository is to a library function known to perform no input or output (no files, network, environment, processes, logging, exit, or locks)."
	r.Minimums["entry points"] = 10
	r.Minimums["library call sites summarised"] = 40
	for _, ep := range w.entries(r, "Scan", "Scanner.Scan", "NewScanner", "BuiltinLicenses", "Type.Merge", "Type.String", "ParseType", "old.Cover", "old.Checker.Cover", "old.New") {
		e := w.analyzeEffects(ep.fn, true)
		e.tally(r)
		n := 0
		for _, ev := range e.sortedEvents("call", "unsafe") {
			n++
			r.bad("output-or-io", ev.construct(ep.name), w.instrPos(ev.in), fmt.Sprintf("%s; call path %s", ev.what, ev.ctx.chain()))
		}
		if n == 0 {
			r.ok("output-or-io", ep.name, w.Pos(ep.fn.Pos()), fmt.Sprintf("%d function contexts, %d distinct library functions, none performs I/O", len(e.list), len(e.stdCalls)))
		}
		var names []string
		for q := range e.stdCalls {
			names = append(names, q)
		}
		sort.Strings(names)
		r.sample("%s calls only: %v", ep.name, names)
	}
	// Package initialisation must be silent too.
	for path, p := range w.SPkg {
		init := p.Func("init")
		if init == nil {
			continue
		}
		e := w.analyzeEffects(init, true)
		e.tally(r)
		n := 0
		for _, ev := range e.sortedEvents("call", "unsafe") {
			n++
			r.bad("output-or-io", "init of "+path+": "+shortFn(ev.ctx.fn), w.instrPos(ev.in), ev.what)
		}
		if n == 0 {
			r.ok("output-or-io", "init of "+path, "-", "package initialisation performs no I/O")
		}
	}
	r.Assume = append(r.Assume, "standard-library functions behave as summarised in analyzer/stdsum.go", "match.TraceDFA (a debugging switch in an internal package that nothing assigns) keeps its initial value 0")
}
