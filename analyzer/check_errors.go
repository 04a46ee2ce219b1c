package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error discipline: from every call that can fail, follow the control flow
// with the error known to be non-nil. The failure must not be forgotten: every
// path must end in a return of a non-nil error or in a call that does not
// return, before the error variable is overwritten or a success is reported.

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// errPolicy says what counts as handling a failure where no error can be returned.
type errPolicy struct {
	// sinks: calls that report failure loudly and do not return (or record exit status).
	exits func(in ssa.Instruction) bool
	// probe: failing calls whose error is an answer, not a failure.
	probe func(call *ssa.Call) bool
}

func neverFails(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	if alwaysNilError(f, 0) {
		return true
	}
	pkg, name, recv := qualName(f)
	if recv != nil {
		switch pkg + "." + recvName(recv) {
		case "strings.Builder", "bytes.Buffer":
			return name != "ReadByte" && name != "ReadRune" && name != "ReadString" && name != "ReadBytes" && name != "Read" && name != "UnreadByte" && name != "UnreadRune"
		}
	}
	if pkg == "fmt" && (name == "Fprintf" || name == "Fprint" || name == "Fprintln") {
		if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
			switch mi.X.Type().String() {
			case "*strings.Builder", "*bytes.Buffer":
				return true
			}
		}
		if s := call.Call.Args[0].String(); strings.Contains(s, "os.Stderr") || isStderr(call.Call.Args[0]) {
			return true
		}
	}
	if pkg == "fmt" && (name == "Print" || name == "Println" || name == "Printf") {
		return true
	}
	return false
}

func isStderr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Global:
			return x.Name() == "Stderr" || x.Name() == "Stdout"
		default:
			return false
		}
	}
}

// noReturn reports whether in is a call that never returns.
func noReturn(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Panic:
		return true
	case *ssa.Call:
		if f := in.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
				return true
			}
			if len(f.Blocks) > 0 && neverReturns(f, map[*ssa.Function]bool{}) {
				return true
			}
		}
	}
	return false
}

func neverReturns(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	defer delete(seen, f)
	visited := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool // true if a return is reachable
	walk = func(b *ssa.BasicBlock) bool {
		if visited[b] {
			return false
		}
		visited[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Panic:
				return false
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil {
					switch g.String() {
					case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit", "log.Panic", "log.Panicf":
						return false
					}
					if len(g.Blocks) > 0 && neverReturns(g, seen) {
						return false
					}
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return !walk(f.Blocks[0])
}

type errPath struct {
	b       *ssa.BasicBlock
	start   int
	nonnil  map[ssa.Value]bool // error values known non-nil on this path
	isnil   map[ssa.Value]bool
	exitSet bool
	from    *ssa.BasicBlock
}

// errorDiscipline checks every failing call in the given functions. With
// loud=true (tools), setting an exit status or calling a no-return function
// counts as handling; otherwise an error or panic must result.
func errorDiscipline(w *World, r *Report, rule string, fns []*ssa.Function, loud bool) {
	for _, fn := range fns {
		r.Counts["functions checked for error handling"]++
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Call:
					checkErrorCall(w, r, rule, fn, b, i, in, loud)
				case *ssa.Defer, *ssa.Go:
					cc := in.(ssa.CallInstruction).Common()
					if res := cc.Signature().Results(); res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
						if f := cc.StaticCallee(); f != nil && f.Name() == "Close" {
							continue
						}
						r.bad(rule, shortFn(fn), w.instrPos(in), "the error of a deferred call is discarded")
					}
				}
			}
		}
	}
}

func callName(call *ssa.Call) string {
	if f := call.Call.StaticCallee(); f != nil {
		return shortFn(f)
	}
	if call.Call.IsInvoke() {
		return call.Call.Method.FullName()
	}
	return call.Call.Value.Name()
}

// errVals returns the SSA values holding call's error result.
func errVals(call *ssa.Call) (vals []ssa.Value, has bool) {
	res := call.Call.Signature().Results()
	n := res.Len()
	if n == 0 || !isErrorType(res.At(n-1).Type()) {
		return nil, false
	}
	if n == 1 {
		return []ssa.Value{call}, true
	}
	for _, ref := range *call.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == n-1 {
			vals = append(vals, ex)
		}
	}
	return vals, true
}

// makesError: constructors whose error result is the product, not a failure.
func makesError(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "errors.New", "fmt.Errorf", "errors.Join", "errors.Unwrap":
		return true
	}
	// A repository function all of whose returns are non-nil errors and whose
	// only result is the error is a constructor, too.
	if len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
		n := 0
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !definitelyNonNil(ret.Results[0], 0) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

func definitelyNonNil(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		return makesError(x)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != x && !definitelyNonNil(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.ChangeInterface:
		return definitelyNonNil(x.X, depth+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			// sentinel errors
			return strings.HasPrefix(g.Name(), "err") || strings.HasPrefix(g.Name(), "Err") || g.Name() == "EOF"
		}
	}
	return false
}

func isProbe(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "os.Stat", "os.Lstat":
		return true
	}
	return false
}

func checkErrorCall(w *World, r *Report, rule string, fn *ssa.Function, b *ssa.BasicBlock, idx int, call *ssa.Call, loud bool) {
	vals, has := errVals(call)
	if !has || makesError(call) || neverFails(call) || isProbe(call) {
		return
	}
	r.Counts["failing calls checked"]++
	name := callName(call)
	construct := shortFn(fn) + " calls " + name
	discarded := len(vals) == 0 || len(vals) == 1 && len(nonDebugRefs(vals[0])) == 0
	if discarded && !loud {
		r.bad(rule, construct, w.instrPos(call), "the error result is discarded")
		return
	}
	// Explore paths with the error non-nil.
	type stateKey struct {
		b   *ssa.BasicBlock
		key string
	}
	seen := map[stateKey]bool{}
	hasErrResult := false
	res := fn.Signature.Results()
	if n := res.Len(); n > 0 && isErrorType(res.At(n-1).Type()) {
		hasErrResult = true
	}
	problem := ""
	var problemPos string
	fail := func(in ssa.Instruction, msg string) {
		if problem == "" {
			problem = msg
			problemPos = w.instrPos(in)
		}
	}
	steps := 0
	var walk func(p errPath)
	walk = func(p errPath) {
		if problem != "" {
			return
		}
		steps++
		if steps > 20000 {
			fail(call, "too many paths to decide (undecided)")
			return
		}
		b := p.b
		nonnil, isnil, exitSet := p.nonnil, p.isnil, p.exitSet
		if p.from != nil {
			// phis
			nn := map[ssa.Value]bool{}
			for k := range nonnil {
				nn[k] = true
			}
			in2 := map[ssa.Value]bool{}
			for k := range isnil {
				in2[k] = true
			}
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range b.Preds {
					if pr == p.from {
						e := phi.Edges[i]
						delete(nn, phi)
						delete(in2, phi)
						if nonnil[e] {
							nn[phi] = true
						}
						if isnil[e] || isNilConst(e) {
							in2[phi] = true
						}
						if nonzeroConst(e) {
							nn[phi] = true
						}
					}
				}
			}
			nonnil, isnil = nn, in2
			key := ""
			for _, v := range fnErrValues(fn) {
				if nonnil[v] {
					key += v.Name() + ","
				}
				if isnil[v] {
					key += "!" + v.Name() + ","
				}
			}
			key += fmt.Sprint(exitSet)
			k := stateKey{b, key}
			if seen[k] {
				return
			}
			seen[k] = true
		}
		for i := p.start; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == ssa.Instruction(call) {
				if !loud || !exitSet {
					fail(in, "after the failure the call is made again, overwriting the error")
				}
				return
			}
			if noReturn(in) {
				if loud {
					if msg := exitsQuietly(in, exitSet, nonnil, nil); msg != "" {
						fail(in, msg)
					}
				}
				return
			}
			if loud && setsExitStatus(in) {
				exitSet = true
			}
			if loud && clearsExitStatus(in) {
				exitSet = false
			}
			if loud {
				// A fallback: another attempt by the same kind of call, made only
				// after this one failed and checked in its own right.
				if c2, ok := in.(*ssa.Call); ok && c2.Call.StaticCallee() != nil && c2.Call.StaticCallee() == call.Call.StaticCallee() && onlyAfterFailure(c2.Block(), call, vals) {
					return
				}
			}
			switch in := in.(type) {
			case *ssa.Return:
				if exitSet && loud {
					return
				}
				if hasErrResult {
					e := in.Results[len(in.Results)-1]
					if nonnil[e] || definitelyNonNil(e, 0) {
						return
					}
					if isNilConst(e) || isnil[e] {
						fail(in, "after the failure the function returns a nil error")
						return
					}
					// The result of something that consumed the error value.
					if derivesFrom(e, nonnil, 0) {
						return
					}
					fail(in, "after the failure the function may return without reporting it")
					return
				}
				fail(in, "after the failure the function returns normally")
				return
			case *ssa.If:
				cond := in.Cond
				neg := false
				for {
					if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
						cond, neg = u.X, !neg
						continue
					}
					break
				}
				take := -1
				if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					var v ssa.Value
					if isNilConst(bo.Y) {
						v = bo.X
					} else if isNilConst(bo.X) {
						v = bo.Y
					}
					if v != nil && (nonnil[v] || isnil[v]) {
						truth := (bo.Op == token.NEQ) == nonnil[v]
						if neg {
							truth = !truth
						}
						if truth {
							take = 0
						} else {
							take = 1
						}
					}
					// err == io.EOF style tests: the equal branch is a handled answer.
					if v == nil && (nonnil[bo.X] && sentinel(bo.Y) || nonnil[bo.Y] && sentinel(bo.X)) {
						truth := bo.Op == token.NEQ
						if neg {
							truth = !truth
						}
						if truth {
							take = 0
						} else {
							take = 1
						}
					}
				}
				if take >= 0 {
					walk(errPath{b.Succs[take], 0, nonnil, isnil, exitSet, b})
				} else {
					walk(errPath{b.Succs[0], 0, nonnil, isnil, exitSet, b})
					walk(errPath{b.Succs[1], 0, nonnil, isnil, exitSet, b})
				}
				return
			case *ssa.Jump:
				walk(errPath{b.Succs[0], 0, nonnil, isnil, exitSet, b})
				return
			case *ssa.Panic:
				return
			case *ssa.UnOp:
				if al, ok := in.X.(*ssa.Alloc); ok && in.Op == token.MUL && isErrorType(in.Type()) {
					delete(nonnil, in)
					delete(isnil, in)
					if nonnil[al] {
						nonnil[in] = true
					}
					if isnil[al] {
						isnil[in] = true
					}
				}
			case *ssa.Store:
				if al, ok := in.Addr.(*ssa.Alloc); ok && isErrorType(in.Val.Type()) {
					delete(nonnil, al)
					delete(isnil, al)
					if nonnil[in.Val] {
						nonnil[al] = true
					} else if isNilConst(in.Val) || isnil[in.Val] {
						isnil[al] = true
					}
				}
				// Delayed report through a field: handled by the stored-error rule.
				if nonnil[in.Val] {
					if _, ok := in.Addr.(*ssa.FieldAddr); ok {
						return
					}
				}
			case *ssa.Extract:
				if isErrorType(in.Type()) {
					for _, v := range vals {
						if v == in {
							nonnil[in] = true
						}
					}
				}
			}
		}
	}
	nn := map[ssa.Value]bool{}
	for _, v := range vals {
		nn[v] = true
	}
	nils := map[ssa.Value]bool{}
	for _, ref := range nonDebugRefs(call) {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index < call.Call.Signature().Results().Len()-1 && nilOnError(call.Call.StaticCallee(), ex.Index) {
			nils[ex] = true
		}
	}
	walk(errPath{b, idx + 1, nn, nils, false, nil})
	if problem != "" && discarded {
		problem = "the error result is discarded; " + problem
	}
	if problem != "" {
		r.bad(rule, construct, w.instrPos(call), problem+" (at "+problemPos+")")
		return
	}
	r.ok(rule, construct, w.instrPos(call), "every path after a failure reports it")
}

// onlyAfterFailure reports whether block b runs only when call's error is non-nil.
func onlyAfterFailure(b *ssa.BasicBlock, call *ssa.Call, vals []ssa.Value) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || !call.Block().Dominates(p) {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		for _, v := range vals {
			if bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X) {
				take := 0
				if bo.Op == token.EQL {
					take = 1
				}
				if s := p.Succs[take]; s == d && len(s.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func sentinel(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			return ok && x.Op == token.MUL && (g.Name() == "EOF" || strings.HasPrefix(g.Name(), "Err"))
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return false
		}
	}
}

func nonDebugRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

func fnErrValues(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if phi, ok := v.(*ssa.Phi); ok && isInteger(phi.Type()) {
					out = append(out, v)
				}
				if al, isAlloc := v.(*ssa.Alloc); isErrorType(v.Type()) || isAlloc && isErrorType(al.Type().Underlying().(*types.Pointer).Elem()) {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

// derivesFrom: e is computed by a call taking a known non-nil error, such as a
// wrapper whose every return is non-nil for a non-nil argument. Only accept
// calls of repository functions that pass the argument through.
func derivesFrom(e ssa.Value, nonnil map[ssa.Value]bool, depth int) bool {
	call, ok := e.(*ssa.Call)
	if !ok || depth > 3 {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	known := map[ssa.Value]bool{}
	for i, a := range call.Call.Args {
		if nonnil[a] && i < len(f.Params) {
			known[f.Params[i]] = true
		}
	}
	if len(known) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			v := ret.Results[len(ret.Results)-1]
			if known[v] || definitelyNonNil(v, 0) || derivesFrom(v, known, depth+1) {
				continue
			}
			// return nil on the err == nil branch only
			if isNilConst(v) && guardedByNil(b, known) {
				continue
			}
			return false
		}
	}
	return true
}

// guardedByNil: block b is only reached when one of the known values is nil.
func guardedByNil(b *ssa.BasicBlock, known map[ssa.Value]bool) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		v := bo.X
		if isNilConst(bo.X) {
			v = bo.Y
		} else if !isNilConst(bo.Y) {
			continue
		}
		if !known[v] {
			continue
		}
		if bo.Op == token.EQL && dominatesEdge(d, d.Succs[0], b) || bo.Op == token.NEQ && dominatesEdge(d, d.Succs[1], b) {
			return true
		}
	}
	return false
}

// setsExitStatus: stores a non-zero constant to a package variable that main
// passes to os.Exit, or calls a function that always does.
func setsExitStatus(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Store:
		g, ok := in.Addr.(*ssa.Global)
		if !ok {
			return false
		}
		c := constOf(in.Val)
		if c == nil || c.String() == "0" {
			return false
		}
		return passedToExit(g)
	case *ssa.Call:
		f := in.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 {
			return false
		}
		// Every path of f sets it (single dominating block).
		for _, x := range f.Blocks[0].Instrs {
			if _, ok := x.(*ssa.Store); ok && setsExitStatus(x) {
				return true
			}
		}
	}
	return false
}

func passedToExit(g *ssa.Global) bool {
	for _, fn := range AllFuncs(g.Pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if f := call.Call.StaticCallee(); f != nil && f.String() == "os.Exit" {
						if u, ok := call.Call.Args[0].(*ssa.UnOp); ok && u.X == g {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func nonzeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// exitsQuietly says why a call that never returns does not report failure:
// it can reach os.Exit with a status that is not known to be non-zero.
func exitsQuietly(in ssa.Instruction, exitSet bool, known map[ssa.Value]bool, seen []*ssa.Function) string {
	call, ok := in.(*ssa.Call)
	if !ok {
		return ""
	}
	f := call.Call.StaticCallee()
	if f == nil {
		return ""
	}
	if f.String() == "os.Exit" {
		arg := call.Call.Args[0]
		if nonzeroConst(arg) || known[arg] {
			return ""
		}
		if u, ok := arg.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.Global); ok && exitSet {
				return ""
			}
		}
		return "after the failure the process exits with a status that is not set to report it"
	}
	for _, g := range seen {
		if g == f {
			return ""
		}
	}
	sub := map[ssa.Value]bool{}
	for i, a := range call.Call.Args {
		if i < len(f.Params) && (nonzeroConst(a) || known[a]) {
			sub[f.Params[i]] = true
		}
	}
	for _, b := range f.Blocks {
		set := exitSet
		for _, x := range b.Instrs {
			if setsExitStatus(x) {
				set = true
			}
			if clearsExitStatus(x) {
				set = false
			}
			if b != f.Blocks[0] && !set && len(f.Blocks) > 0 {
				for _, y := range f.Blocks[0].Instrs {
					if setsExitStatus(y) {
						set = true
					}
				}
			}
			if noReturn(x) {
				if msg := exitsQuietly(x, set, sub, append(seen, f)); msg != "" {
					return msg
				}
			}
		}
	}
	return ""
}

// clearsExitStatus: a store to the exit status of something that is not a
// non-zero constant.
func clearsExitStatus(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	g, ok := st.Addr.(*ssa.Global)
	return ok && !nonzeroConst(st.Val) && passedToExit(g)
}

// exitStatusDiscipline: an exit status once set is never cleared, and main
// never returns normally after something may have set it.
func exitStatusDiscipline(w *World, r *Report, rule string, fns []*ssa.Function) {
	may := map[*ssa.Function]bool{}
	sets := func(in ssa.Instruction) bool {
		if setsExitStatus(in) {
			return true
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			if f := c.Common().StaticCallee(); f != nil && may[f] {
				return true
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if may[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if sets(in) {
						may[fn], changed = true, true
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && may[mc.Fn.(*ssa.Function)] {
						may[fn], changed = true, true
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if clearsExitStatus(in) && !(fn.Name() == "main" && fn.Parent() == nil && b == fn.Blocks[0]) {
					r.bad(rule, shortFn(fn), w.instrPos(in), "the exit status may be cleared after a failure set it")
				}
			}
		}
		if fn.Name() != "main" || fn.Parent() != nil || !may[fn] {
			continue
		}
		type key struct {
			b   *ssa.BasicBlock
			set bool
		}
		seen := map[key]bool{}
		bad := ""
		var walk func(b *ssa.BasicBlock, set bool)
		walk = func(b *ssa.BasicBlock, set bool) {
			if seen[key{b, set}] {
				return
			}
			seen[key{b, set}] = true
			for _, in := range b.Instrs {
				if noReturn(in) {
					return
				}
				if sets(in) {
					set = true
				}
				if _, ok := in.(*ssa.Return); ok && set {
					bad = w.instrPos(in)
				}
			}
			for _, s := range b.Succs {
				walk(s, set)
			}
		}
		walk(fn.Blocks[0], false)
		if bad != "" {
			r.bad(rule, shortFn(fn), bad, "main may return normally, with status 0, after a failure set the exit status")
		} else {
			r.ok(rule, shortFn(fn)+" exit status", w.Pos(fn.Pos()), "every return of main after the exit status may have been set goes through os.Exit")
		}
	}
}

// alwaysNilError: every return of f yields a nil error.
func alwaysNilError(f *ssa.Function, depth int) bool {
	if len(f.Blocks) == 0 || depth > 3 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover {
			continue
		}
		n++
		last := ret.Results[len(ret.Results)-1]
		if isNilConst(last) {
			continue
		}
		if c, ok := last.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && alwaysNilError(g, depth+1) {
				continue
			}
		}
		return false
	}
	return n > 0
}

// nilOnError: whenever f returns an error that may be non-nil, result k is the
// nil constant.
func nilOnError(f *ssa.Function, k int) bool {
	if f == nil || len(f.Blocks) == 0 || f.Recover != nil {
		return false
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if n := len(ret.Results); !isNilConst(ret.Results[n-1]) && !isNilConst(ret.Results[k]) {
			return false
		}
	}
	return true
}
