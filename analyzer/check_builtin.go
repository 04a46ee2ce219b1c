package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkC09
}

// C09: the built-in scanner is initialised exactly once, before use, from
// BuiltinLicenses(), by the code NewScanner uses.
func checkC09(w *World, r *Report) {
	r.Rule = "Interprocedural must-analysis over the calls reachable from the package-level Scan: every path to a read of built-in scanner state outside the once-only initialiser first completes (*sync.Once).Do of that initialiser; the initialiser passes the unmodified result of BuiltinLicenses to the same construction routine that NewScanner applies to its argument; NewScanner and the initialiser store to the same scanner fields; a failed initialisation cannot return normally; and no other code depends on whether the receiver is the built-in scanner."
	r.Minimums["once initialisers"] = 1
	r.Minimums["reads of scanner state checked"] = 3
	eps := w.entries(r, "Scan", "NewScanner", "BuiltinLicenses")
	if len(eps) != 3 {
		return
	}
	scan, newScanner, builtinLicenses := eps[0].fn, eps[1].fn, eps[2].fn
	scannerT := w.SPkg[rootPath].Type("Scanner").Type()
	sameScan(w, r, scan)
	e := w.analyzeEffects(scan, false)
	e.tally(r)
	children := map[*effCtx]map[ssa.Instruction][]*effCtx{}
	for _, c := range e.list {
		if c.parent != nil {
			if children[c.parent] == nil {
				children[c.parent] = map[ssa.Instruction][]*effCtx{}
			}
			children[c.parent][c.site] = append(children[c.parent][c.site], c)
		}
	}
	onces := e.sortedEvents("once")
	r.Counts["once initialisers"] = len(onces)
	if len(onces) == 0 {
		r.bad("once", "Scan", w.Pos(scan.Pos()), "the built-in scanner is not initialised under a sync.Once")
		return
	}
	// Package variables written inside the initialiser.
	onceVars := map[*ssa.Global]bool{}
	for _, ev := range e.sortedEvents("write") {
		if ev.ctx.inOnce {
			for g, o := range e.globObj {
				if o == ev.target.o {
					onceVars[g] = true
				}
			}
		}
	}
	// Which Do call initialises scanner state?
	initialises := func(do ssa.Instruction, c *effCtx) bool {
		var found bool
		var rec func(c *effCtx)
		seen := map[*effCtx]bool{}
		rec = func(c *effCtx) {
			if seen[c] {
				return
			}
			seen[c] = true
			for _, b := range c.fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fieldOf(st.Addr, scannerT) >= 0 {
							found = true
						}
						if g, ok := st.Addr.(*ssa.Global); ok && isPtrTo(g.Type().(*types.Pointer).Elem(), scannerT) {
							found = true
						}
					}
				}
			}
			for _, cs := range children[c] {
				for _, x := range cs {
					rec(x)
				}
			}
		}
		for _, x := range children[c][do] {
			if x.inOnce {
				rec(x)
			}
		}
		return found
	}

	// Must-analysis.
	visiting := map[*effCtx]bool{}
	reads := map[ssa.Instruction]bool{}
	var analyze func(c *effCtx, in bool, report bool) bool
	analyze = func(c *effCtx, in bool, report bool) bool {
		if visiting[c] {
			return in
		}
		visiting[c] = true
		defer delete(visiting, c)
		flow := e.flowOf(c)
		out := map[*ssa.BasicBlock]bool{}
		for _, b := range c.fn.Blocks {
			out[b] = true // optimistic
		}
		transfer := func(b *ssa.BasicBlock, st bool, rep bool) bool {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
					g, isG := u.X.(*ssa.Global)
					if fieldOf(u.X, scannerT) >= 0 || isG && onceVars[g] {
						if rep {
							reads[ins] = true
							if !st {
								r.bad("use-before-init", shortFn(c.fn), w.instrPos(ins), "reads built-in scanner state on a path that has not completed the once-only initialisation; call path "+c.chain())
							}
						}
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					if _, isDefer := ins.(*ssa.Defer); isDefer {
						continue
					}
					if f := call.Common().StaticCallee(); f != nil && f.String() == "(*sync.Once).Do" {
						if initialises(ins, c) {
							st = true
						}
						continue
					}
					first, any := true, false
					res := true
					for _, k := range children[c][ins] {
						if k.inOnce && !c.inOnce {
							continue
						}
						any = true
						o := analyze(k, st, rep)
						if first {
							res, first = o, false
						} else {
							res = res && o
						}
					}
					if any {
						st = res
					}
				}
			}
			return st
		}
		inState := func(b *ssa.BasicBlock) bool {
			if b == c.fn.Blocks[0] {
				return in
			}
			st := true
			for _, p := range b.Preds {
				if flow.live[p] && flow.edges[[2]*ssa.BasicBlock{p, b}] {
					st = st && out[p]
				}
			}
			return st
		}
		for changed := true; changed; {
			changed = false
			for _, b := range c.fn.Blocks {
				if !flow.live[b] {
					continue
				}
				o := transfer(b, inState(b), false)
				if o != out[b] {
					out[b] = o
					changed = true
				}
			}
		}
		res := true
		for _, b := range c.fn.Blocks {
			if !flow.live[b] {
				continue
			}
			if report {
				transfer(b, inState(b), true)
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				res = res && out[b]
			}
		}
		return res
	}
	analyze(e.root, false, true)
	r.Counts["reads of scanner state checked"] = len(reads)
	bad := len(r.violations()) > 0
	if !bad {
		r.ok("use-before-init", "Scan", w.Pos(scan.Pos()), fmt.Sprintf("%d reads of scanner state all follow the initialisation", len(reads)))
	}

	// The Once must be one package-level variable.
	for _, ev := range onces {
		call := ev.in.(ssa.CallInstruction).Common()
		_, isGlobal := call.Args[0].(*ssa.Global)
		r.check(isGlobal, "once", shortFn(ev.ctx.fn), w.instrPos(ev.in), "the sync.Once is a package-level variable shared by every call")
	}

	// Construction routine: a function that both NewScanner and the
	// initialiser call with their license list.
	routines := func(root *effCtx, cs map[*effCtx]map[ssa.Instruction][]*effCtx, isList func(c *effCtx, v ssa.Value) bool) map[*ssa.Function]ssa.Instruction {
		out := map[*ssa.Function]ssa.Instruction{}
		var rec func(c *effCtx, depth int)
		rec = func(c *effCtx, depth int) {
			if depth > 5 {
				return
			}
			for site, kids := range cs[c] {
				for _, k := range kids {
					for _, a := range site.(ssa.CallInstruction).Common().Args {
						if isList(c, a) && isLicenseList(a.Type()) {
							out[k.fn] = site
						}
					}
					rec(k, depth+1)
				}
			}
		}
		rec(root, 0)
		return out
	}
	en := w.analyzeEffects(newScanner, false)
	en.tally(r)
	cn := map[*effCtx]map[ssa.Instruction][]*effCtx{}
	for _, c := range en.list {
		if c.parent != nil {
			if cn[c.parent] == nil {
				cn[c.parent] = map[ssa.Instruction][]*effCtx{}
			}
			cn[c.parent][c.site] = append(cn[c.parent][c.site], c)
		}
	}
	var origin func(c *effCtx, v ssa.Value, depth int) (ssa.Value, *effCtx)
	origin = func(c *effCtx, v ssa.Value, depth int) (ssa.Value, *effCtx) {
		switch x := v.(type) {
		case *ssa.Parameter:
			if c.site == nil || c.recursive || depth > 20 {
				return x, c
			}
			args := c.site.Common().Args
			for i, p := range c.fn.Params {
				if p == x && i < len(args) && !c.site.Common().IsInvoke() {
					if f := c.site.Common().StaticCallee(); f == nil || f != c.fn {
						break
					}
					return origin(c.parent, args[i], depth+1)
				}
			}
		case *ssa.ChangeType:
			return origin(c, x.X, depth+1)
		}
		return v, c
	}
	fromParam := routines(en.root, cn, func(c *effCtx, v ssa.Value) bool {
		o, oc := origin(c, v, 0)
		_, isP := o.(*ssa.Parameter)
		return isP && oc == en.root
	})
	fromParam[newScanner] = nil
	isBuiltinList := func(c *effCtx, v ssa.Value) bool {
		o, _ := origin(c, v, 0)
		call, ok := o.(*ssa.Call)
		return ok && call.Call.StaticCallee() == builtinLicenses
	}
	fromBuiltin := map[*ssa.Function]ssa.Instruction{}
	for _, c := range e.list {
		if c.inOnce && c.parent != nil && !c.parent.inOnce {
			for f, site := range routines(c, children, isBuiltinList) {
				fromBuiltin[f] = site
			}
		}
	}
	var shared []*ssa.Function
	for f := range fromBuiltin {
		if _, ok := fromParam[f]; ok {
			shared = append(shared, f)
		}
	}
	if len(shared) == 0 {
		pos := w.Pos(scan.Pos())
		for _, s := range fromBuiltin {
			pos = w.instrPos(s)
		}
		r.bad("same-construction", "built-in initialiser", pos, "the initialiser does not pass the unmodified result of BuiltinLicenses() to the routine that NewScanner uses on its argument")
	} else {
		for _, f := range shared {
			r.ok("same-construction", shortFn(f), w.Pos(f.Pos()), "constructs both the built-in scanner from BuiltinLicenses() and NewScanner's result from its argument")
		}
	}
	// The list must not be modified between BuiltinLicenses and its use.
	blCtx := map[*effCtx]bool{}
	for _, c := range e.list {
		for x := c; x != nil; x = x.parent {
			if x.fn == builtinLicenses {
				blCtx[c] = true
			}
		}
	}
	listObjs := map[*object]bool{}
	for _, c := range e.list {
		if c.fn == builtinLicenses {
			for _, ret := range e.returns(c) {
				for _, v := range ret.Results {
					for t := range e.targets(c, v, "") {
						listObjs[t.o] = true
					}
				}
			}
		}
	}
	n := 0
	for _, ev := range e.sortedEvents("write") {
		if listObjs[ev.target.o] && ev.target.o.kind != objShared && !blCtx[ev.ctx] {
			n++
			r.bad("same-construction", shortFn(ev.ctx.fn), w.instrPos(ev.in), "modifies the list returned by BuiltinLicenses before the built-in scanner is constructed from it")
		}
	}
	if n == 0 {
		r.ok("same-construction", "BuiltinLicenses list", w.Pos(builtinLicenses.Pos()), "not modified between BuiltinLicenses and construction")
	}
	// Nothing else may be changed by the initialiser itself, nor by NewScanner
	// itself, outside the shared construction routine.
	under := func(c *effCtx, fns map[*ssa.Function]bool) bool {
		for x := c; x != nil; x = x.parent {
			if fns[x.fn] {
				return true
			}
		}
		return false
	}
	okFns := map[*ssa.Function]bool{builtinLicenses: true}
	for _, f := range shared {
		okFns[f] = true
	}
	n = 0
	for _, ev := range e.sortedEvents("write") {
		if !ev.ctx.inOnce || ev.target.o.kind != objShared || under(ev.ctx, okFns) {
			continue
		}
		if st, ok := ev.in.(*ssa.Store); ok {
			if isPtrTo(st.Addr.Type(), scannerT) || isPtrTo(st.Val.Type(), scannerT) || isErrorType(st.Val.Type()) {
				continue // installs the constructed scanner
			}
		}
		n++
		r.bad("same-construction", shortFn(ev.ctx.fn), w.instrPos(ev.in), "the initialiser changes scanner state outside the construction routine it shares with NewScanner")
	}
	if n == 0 {
		r.ok("same-construction", "initialiser writes", "-", "the initialiser changes state only through the shared construction routine")
	}

	// Same stores to scanner fields.
	stores := func(e *effects, want func(c *effCtx) bool) map[string]string {
		out := map[string]string{}
		for _, c := range e.list {
			if !want(c) {
				continue
			}
			flow := e.flowOf(c)
			for _, b := range c.fn.Blocks {
				if !flow.live[b] {
					continue
				}
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if f := fieldOf(st.Addr, scannerT); f >= 0 {
							out[fmt.Sprintf("%s:%p", shortFn(c.fn), in)] = w.instrPos(in)
						}
					}
				}
			}
		}
		return out
	}
	sn := stores(en, func(c *effCtx) bool { return true })
	sb := stores(e, func(c *effCtx) bool { return c.inOnce })
	diff := 0
	for k, pos := range sn {
		if _, ok := sb[k]; !ok {
			diff++
			r.bad("same-construction", "scanner field store", pos, "NewScanner performs this store but the built-in initialiser does not")
		}
	}
	for k, pos := range sb {
		if _, ok := sn[k]; !ok {
			diff++
			r.bad("same-construction", "scanner field store", pos, "the built-in initialiser performs this store but NewScanner does not")
		}
	}
	r.Counts["scanner field stores compared"] = len(sn)
	if diff == 0 {
		r.ok("same-construction", "scanner field stores", "-", fmt.Sprintf("%d stores shared by NewScanner and the initialiser", len(sn)))
	}

	// Identity tests on scanners may only guard the initialisation.
	for _, c := range e.list {
		for _, b := range c.fn.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isPtrTo(bo.X.Type(), scannerT) {
					continue
				}
				if isNilConst(bo.X) || isNilConst(bo.Y) {
					continue
				}
				r.Counts["scanner identity tests"]++
				why := w.identityOnlyGuardsOnce(bo)
				r.check(why == "", "identity-independent", shortFn(c.fn), w.instrPos(in), "test for the built-in scanner only guards its initialisation: "+why)
			}
		}
	}
	// Failed initialisation does not return.
	errorDiscipline(w, r, "init-failure", onceClosures(e), false)
}

func onceClosures(e *effects) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, c := range e.list {
		if c.inOnce && c.parent != nil && !c.parent.inOnce && !seen[c.fn] {
			seen[c.fn] = true
			out = append(out, c.fn)
		}
	}
	return out
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// identityOnlyGuardsOnce: the branches controlled by cond contain nothing but
// a call of (*sync.Once).Do.
func (w *World) identityOnlyGuardsOnce(cond *ssa.BinOp) string {
	for _, ref := range *cond.Referrers() {
		iff, ok := ref.(*ssa.If)
		if !ok {
			if _, dbg := ref.(*ssa.DebugRef); dbg {
				continue
			}
			return "the comparison is used as a value"
		}
		b := iff.Block()
		// Blocks controlled by the branch: those dominated by exactly one successor edge.
		joinPhi := map[*ssa.BasicBlock]bool{}
		for _, s := range b.Succs {
			if len(s.Preds) != 1 {
				joinPhi[s] = true
				continue
			}
			for _, x := range b.Parent().Blocks {
				if !s.Dominates(x) {
					continue
				}
				// The fall-through side holds the rest of the function when the
				// other side rejoins it elsewhere; only small closed regions count.
				for _, in := range x.Instrs {
					switch in := in.(type) {
					case *ssa.MakeClosure, *ssa.Jump, *ssa.DebugRef, *ssa.UnOp, *ssa.FieldAddr:
					case *ssa.Call:
						if f := in.Call.StaticCallee(); f == nil || f.String() != "(*sync.Once).Do" && !onlyDoesOnce(f) {
							return "it also controls " + in.String()
						}
					case *ssa.If:
						return "it also controls a further branch"
					case *ssa.Return:
						return "it controls an early return"
					default:
						return "it also controls " + in.String()
					}
				}
				for _, s2 := range x.Succs {
					if !s.Dominates(s2) {
						joinPhi[s2] = true
					}
				}
			}
		}
		for j := range joinPhi {
			for _, in := range j.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					same := true
					for _, e := range p.Edges {
						if e != p.Edges[0] {
							same = false
						}
					}
					if !same {
						return "it selects between values"
					}
				}
			}
		}
	}
	return ""
}

// onlyDoesOnce: f's body consists of (*sync.Once).Do.
func onlyDoesOnce(f *ssa.Function) bool {
	if len(f.Blocks) != 1 || f.Signature.Results().Len() != 0 {
		return false
	}
	n := 0
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			if g := in.Call.StaticCallee(); g == nil || g.String() != "(*sync.Once).Do" {
				return false
			}
			n++
		case *ssa.Store, *ssa.MapUpdate:
			return false
		}
	}
	return n > 0
}

func isPtrTo(t, elem types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), elem)
}

// fieldOf returns the field index if a is the address of (part of) a field of struct type t.
func fieldOf(a ssa.Value, t types.Type) int {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			if isPtrTo(x.X.Type(), t) {
				return x.Field
			}
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		default:
			return -1
		}
	}
}

func isLicenseList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := s.Elem().(*types.Named)
	return ok && n.Obj().Name() == "License"
}

// sameScan: package Scan and Scanner.Scan apply one and the same routine to
// the caller's text and return what it returns.
func sameScan(w *World, r *Report, scan *ssa.Function) {
	eps := w.entries(r, "Scanner.Scan")
	if len(eps) != 1 {
		return
	}
	problem := ""
	chain := func(fn *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		seen := map[*ssa.Function]bool{}
		for fn != nil && !seen[fn] {
			seen[fn] = true
			out = append(out, fn)
			var why string
			fn, why = forwardsText(w, fn)
			if why != "" && problem == "" {
				problem = why
			}
		}
		return out
	}
	a := chain(scan)
	why := problem
	b := chain(eps[0].fn)
	for _, f := range a {
		for _, g := range b {
			if f == g {
				r.ok("same-scan", "Scan", w.Pos(scan.Pos()), "hands its text unchanged to "+shortFn(f)+", as Scanner.Scan does, and returns the result unchanged")
				return
			}
		}
	}
	if why == "" {
		why = "does not end in the routine Scanner.Scan uses"
	}
	r.bad("same-scan", "Scan", w.Pos(scan.Pos()), "does not simply apply Scanner.Scan to its text: "+why)
}

// forwardsText: every return of fn (except a zero result for an empty text)
// returns the result of one call of a repository function to which the text is
// passed unchanged. It yields that function.
func forwardsText(w *World, fn *ssa.Function) (*ssa.Function, string) {
	var text *ssa.Parameter
	for _, p := range fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			text = p
		}
	}
	if text == nil {
		return nil, shortFn(fn) + " has no text parameter"
	}
	same := func(v ssa.Value) bool { return underlyingCopy(v) == ssa.Value(text) }
	var callee *ssa.Function
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == fn.Recover {
			continue
		}
		if len(ret.Results) != 1 {
			return nil, "no single result"
		}
		v := underlyingCopy(ret.Results[0])
		if isZeroValue(v) && guardedByEmpty(b, same) {
			continue
		}
		call, ok := v.(*ssa.Call)
		if !ok {
			return nil, "the return at " + w.instrPos(ret) + " does not return the result of a scan"
		}
		f := call.Call.StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != rootPath {
			return nil, "the return at " + w.instrPos(ret) + " does not return the result of a scan"
		}
		passed := false
		for _, arg := range call.Call.Args {
			if sl, ok := arg.Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
				if !same(arg) {
					return nil, "the text passed at " + w.instrPos(call) + " is not the caller's text"
				}
				passed = true
			}
		}
		if !passed || callee != nil && callee != f {
			return nil, "the returns do not all come from one scan of the caller's text"
		}
		callee = f
	}
	return callee, ""
}

// underlyingCopy looks through local variables that are assigned once.
func underlyingCopy(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return v
			}
			var val ssa.Value
			n := 0
			for _, ref := range nonDebugRefs(al) {
				switch ref := ref.(type) {
				case *ssa.Store:
					if ref.Addr != al {
						return v
					}
					n++
					val = ref.Val
				case *ssa.UnOp:
				default:
					return v
				}
			}
			if n == 0 {
				return ssa.NewConst(nil, x.Type())
			}
			if n != 1 {
				return v
			}
			v = val
			continue
		}
		return v
	}
	return v
}

func isZeroValue(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// guardedByEmpty: b runs only when the text (same) has length 0 or is nil.
func guardedByEmpty(b *ssa.BasicBlock, same func(ssa.Value) bool) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isLen := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && same(c.Call.Args[0])
		}
		isConst := func(v ssa.Value, n int64) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == n
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if !isLen(x) && isLen(y) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		edge := -1
		switch {
		case isLen(x) && isConst(y, 0) && (op == token.EQL || op == token.LEQ), isLen(x) && isConst(y, 1) && op == token.LSS, same(x) && isNilConst(y) && op == token.EQL:
			edge = 0
		case isLen(x) && isConst(y, 0) && (op == token.NEQ || op == token.GTR), isLen(x) && isConst(y, 1) && op == token.GEQ, same(x) && isNilConst(y) && op == token.NEQ:
			edge = 1
		}
		if edge >= 0 && dominatesEdge(d, d.Succs[edge], b) {
			return true
		}
	}
	return false
}
