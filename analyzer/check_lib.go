package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L02"] = checkL02
}

// L02: construction errors are never swallowed.
func checkL02(w *World, r *Report) {
	r.Rule = "For every call in the library packages whose callee can fail, follow every control-flow path on which the error is non-nil: it must end in a return of a non-nil error or a panic before the error is overwritten or a nil error returned. Errors stored in a field for later must be returned by the function that owns the structure. NewScanner returns either (nil, error) or (non-nil scanner, nil) on every return. A construction step that can succeed with an incomplete result (for an empty list) is only called where that list is known not to be empty."
	r.Minimums["failing calls checked"] = 8
	var fns []*ssa.Function
	for _, path := range []string{rootPath, matchPath} {
		fns = append(fns, AllFuncs(w.SPkg[path])...)
	}
	errorDiscipline(w, r, "error-propagation", fns, false)
	storedErrors(w, r, fns)
	recovers(w, r, fns)
	for _, ep := range w.entries(r, "NewScanner") {
		xorResult(w, r, ep.fn, map[*ssa.Function]bool{})
		usableResults(w, r, ep.fn)
	}
}

// storedErrors: an error parked in a struct field must be returned.
func storedErrors(w *World, r *Report, fns []*ssa.Function) {
	type fieldKey struct {
		t types.Type
		f int
	}
	stored := map[fieldKey]ssa.Instruction{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isErrorType(st.Val.Type()) || isNilConst(st.Val) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				stored[fieldKey{t, fa.Field}] = in
			}
		}
	}
	for k, at := range stored {
		r.Counts["error fields checked"]++
		name := types.TypeString(k.t, nil)
		construct := fmt.Sprintf("field %d of %s", k.f, shortType(name))
		owners := 0
		problem := ""
		for _, fn := range fns {
			var allocs []ssa.Value
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if al, ok := in.(*ssa.Alloc); ok && types.Identical(al.Type().(*types.Pointer).Elem(), k.t) {
						allocs = append(allocs, al)
					}
				}
			}
			if len(allocs) == 0 {
				continue
			}
			owners++
			for _, al := range allocs {
				for _, b := range fn.Blocks {
					ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok {
						continue
					}
					if len(ret.Results) == 0 {
						if !readsField(al.(*ssa.Alloc), k.f) {
							problem = fmt.Sprintf("%s gives up its copy of the structure at %s without looking at the error in it", shortFn(fn), w.instrPos(al.(*ssa.Alloc)))
						}
						continue
					}
					last := ret.Results[len(ret.Results)-1]
					if !isErrorType(last.Type()) {
						problem = shortFn(fn) + " owns the structure but returns no error"
						continue
					}
					if definitelyNonNil(last, 0) {
						continue
					}
					if !al.(*ssa.Alloc).Block().Dominates(b) {
						continue
					}
					if !returnsField(last, al, k.f, b) {
						problem = fmt.Sprintf("%s returns at %s without the stored error", shortFn(fn), w.instrPos(ret))
					}
				}
			}
		}
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if p, ok := st.Addr.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), k.t) {
						if _, local := st.Addr.(*ssa.Alloc); !local || !beforeCalls(st.Addr.(*ssa.Alloc), st) {
							problem = fmt.Sprintf("%s overwrites the structure at %s and with it a stored error", shortFn(fn), w.instrPos(in))
						}
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fa.Field != k.f || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), k.t) || definitelyNonNil(st.Val, 0) {
						continue
					}
					if al, ok := fa.X.(*ssa.Alloc); ok && beforeCalls(al, st) {
						continue
					}
					if !fieldKnownNil(fa, b) {
						problem = fmt.Sprintf("%s may overwrite a stored error with nil at %s", shortFn(fn), w.instrPos(in))
					}
				}
			}
		}
		if owners == 0 {
			problem = "no function owns the structure the error is stored in"
		}
		r.check(problem == "", "stored-error", construct, w.instrPos(at), "the stored error is returned by the owner: "+problem)
	}
}

func shortType(s string) string {
	for _, p := range []struct{ a, b string }{{matchPath + ".", "match."}, {oldPath + ".", "old."}, {rootPath + ".", "licensecheck."}} {
		if len(s) > len(p.a) && s[:len(p.a)] == p.a {
			return p.b + s[len(p.a):]
		}
	}
	return s
}

// readsField: field f of al, or all of it, is read or handed out as a result.
func readsField(al *ssa.Alloc, f int) bool {
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.UnOp:
			return true
		case *ssa.FieldAddr:
			if ref.Field != f {
				continue
			}
			for _, rr := range *ref.Referrers() {
				if u, ok := rr.(*ssa.UnOp); ok && u.Op == token.MUL {
					return true
				}
			}
		case *ssa.Store:
			if ref.Val == al {
				return true
			}
		case *ssa.Phi, *ssa.MakeInterface, *ssa.MakeClosure:
			return true
		}
	}
	return false
}

// returnsField: v is a load of field f of al, made after the last call that
// could store to it; or v is known to be non-nil or guarded by such a load.
func returnsField(v ssa.Value, al ssa.Value, f int, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL || fa.X != al || fa.Field != f {
			return false
		}
		// No call taking al after the load.
		seen := false
		for _, in := range x.Block().Instrs {
			if in == ssa.Instruction(x) {
				seen = true
				continue
			}
			if c, ok := in.(ssa.CallInstruction); ok && seen {
				for _, a := range c.Common().Args {
					if a == al {
						return false
					}
				}
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !returnsField(e, al, f, b) && !definitelyNonNil(e, 0) {
				return false
			}
		}
		return true
	case *ssa.Const:
		// return nil: only where the field was tested to be nil
		for d := b.Idom(); d != nil; d = d.Idom() {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			y := bo.X
			if isNilConst(bo.X) {
				y = bo.Y
			}
			if !returnsField(y, al, f, d) {
				continue
			}
			if _, isC := y.(*ssa.Const); isC {
				continue
			}
			if bo.Op == token.NEQ && dominatesEdge(d, d.Succs[1], b) || bo.Op == token.EQL && dominatesEdge(d, d.Succs[0], b) {
				return true
			}
		}
	}
	return false
}

// xorResult: on every return of fn, exactly one of (pointer, error) is nil.
func xorResult(w *World, r *Report, fn *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		r.Counts["returns checked"]++
		if len(ret.Results) != 2 {
			r.bad("result-xor-error", shortFn(fn), w.instrPos(ret), "unexpected result shape")
			continue
		}
		pos := w.instrPos(ret)
		// return f(...)
		if e0, ok := ret.Results[0].(*ssa.Extract); ok {
			if e1, ok := ret.Results[1].(*ssa.Extract); ok && e0.Tuple == e1.Tuple {
				if call, ok := e0.Tuple.(*ssa.Call); ok {
					if f := call.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
						xorResult(w, r, f, seen)
						r.ok("result-xor-error", shortFn(fn), pos, "forwards the results of "+shortFn(f))
						continue
					}
				}
			}
		}
		type pair struct {
			v, e ssa.Value
			at   *ssa.BasicBlock
		}
		pairs := []pair{{ret.Results[0], ret.Results[1], b}}
		for again := true; again; {
			again = false
			var next []pair
			for _, p := range pairs {
				pv, okv := p.v.(*ssa.Phi)
				pe, oke := p.e.(*ssa.Phi)
				switch {
				case okv && oke && pv.Block() == pe.Block() && len(next) < 64:
					for i := range pv.Edges {
						next = append(next, pair{pv.Edges[i], pe.Edges[i], pv.Block().Preds[i]})
					}
					again = true
				case okv && !oke && len(next) < 64 && pv.Block() == p.at:
					for i := range pv.Edges {
						next = append(next, pair{pv.Edges[i], p.e, pv.Block().Preds[i]})
					}
					again = true
				case oke && !okv && len(next) < 64 && pe.Block() == p.at:
					for i := range pe.Edges {
						next = append(next, pair{p.v, pe.Edges[i], pe.Block().Preds[i]})
					}
					again = true
				default:
					next = append(next, p)
				}
			}
			pairs = next
		}
		for _, p := range pairs {
			errNil := isNilConst(p.e) || guardedByNil(p.at, map[ssa.Value]bool{p.e: true})
			errNon := definitelyNonNil(p.e, 0) || guardedByNonNil(p.at, p.e)
			vNil := isNilConst(p.v)
			_, alloc := p.v.(*ssa.Alloc)
			vNon := alloc
			if u, ok := p.v.(*ssa.UnOp); ok && !vNon {
				_ = u
			}
			switch {
			case errNil && vNon, errNon && vNil:
				r.ok("result-xor-error", shortFn(fn), pos, "exactly one result is nil")
			case errNil && vNil:
				r.bad("result-xor-error", shortFn(fn), pos, "returns neither a scanner nor an error")
			case errNon && vNon:
				r.bad("result-xor-error", shortFn(fn), pos, "returns a scanner together with an error")
			default:
				// e.g. "return v, err" with v from the same call as err
				if ev, ok := p.v.(*ssa.Extract); ok {
					if ee, ok := p.e.(*ssa.Extract); ok && ee.Tuple == ev.Tuple {
						if call, ok := ev.Tuple.(*ssa.Call); ok {
							if f := call.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
								xorResult(w, r, f, seen)
								continue
							}
						}
					}
					// v from a successful earlier call
					if call, ok := ev.Tuple.(*ssa.Call); ok && errNil {
						if f := call.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
							xorResult(w, r, f, seen)
							r.ok("result-xor-error", shortFn(fn), pos, "returns the scanner made by "+shortFn(f))
							continue
						}
					}
				}
				if call, ok := p.v.(*ssa.Call); ok && errNil && allReturnsAlloc(call.Call.StaticCallee()) {
					r.ok("result-xor-error", shortFn(fn), pos, "returns a freshly made scanner")
					continue
				}
				r.bad("result-xor-error", shortFn(fn), pos, "cannot show that exactly one of scanner and error is nil")
			}
		}
	}
}

func allReturnsAlloc(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) == 0 {
				return false
			}
			if _, ok := ret.Results[0].(*ssa.Alloc); !ok {
				return false
			}
		}
	}
	return true
}

// guardedByNonNil: block b is only reached when v != nil.
func guardedByNonNil(b *ssa.BasicBlock, v ssa.Value) bool {
	for d := b; d != nil; d = d.Idom() {
		if d == b && len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				continue
			}
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d == b {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x := bo.X
		if isNilConst(bo.X) {
			x = bo.Y
		} else if !isNilConst(bo.Y) {
			continue
		}
		if x != v {
			continue
		}
		if bo.Op == token.NEQ && dominatesEdge(d, d.Succs[0], b) || bo.Op == token.EQL && dominatesEdge(d, d.Succs[1], b) {
			return true
		}
	}
	return false
}

// beforeCalls: st runs in al's block, after al and before any call.
func beforeCalls(al *ssa.Alloc, st *ssa.Store) bool {
	if al.Block() != st.Block() {
		return false
	}
	seen := false
	for _, in := range al.Block().Instrs {
		if in == ssa.Instruction(al) {
			seen = true
		}
		if in == ssa.Instruction(st) {
			return seen
		}
		if _, ok := in.(*ssa.Call); ok && seen {
			return false
		}
	}
	return false
}

// fieldKnownNil: b runs only where the field fa points at was found to be nil.
func fieldKnownNil(fa *ssa.FieldAddr, b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !isNilConst(bo.X) && !isNilConst(bo.Y) {
			continue
		}
		v := bo.X
		if isNilConst(v) {
			v = bo.Y
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			continue
		}
		ga, ok := u.X.(*ssa.FieldAddr)
		if !ok || ga.X != fa.X || ga.Field != fa.Field {
			continue
		}
		if bo.Op == token.EQL && dominatesEdge(d, d.Succs[0], b) || bo.Op == token.NEQ && dominatesEdge(d, d.Succs[1], b) {
			return true
		}
	}
	return false
}

// recovers: a recovered panic must become an error or a new panic.
func recovers(w *World, r *Report, fns []*ssa.Function) {
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "recover" {
					continue
				}
				r.Counts["recover calls"]++
				bad := false
				seen := map[*ssa.BasicBlock]bool{}
				var walk func(b *ssa.BasicBlock, i int)
				walk = func(b *ssa.BasicBlock, i int) {
					for ; i < len(b.Instrs); i++ {
						switch in := b.Instrs[i].(type) {
						case *ssa.Panic:
							return
						case *ssa.Store:
							if fv, ok := in.Addr.(*ssa.FreeVar); ok && isErrorType(in.Val.Type()) && definitelyNonNil(in.Val, 0) && namedErrorResult(fv) {
								return
							}
						case *ssa.Return:
							bad = true
						case *ssa.If:
							if bo, ok := in.Cond.(*ssa.BinOp); ok && (bo.X == call && isNilConst(bo.Y) || bo.Y == call && isNilConst(bo.X)) {
								n := 0
								if bo.Op == token.EQL {
									n = 1
								}
								if s := b.Succs[n]; !seen[s] {
									seen[s] = true
									walk(s, 0)
								}
								return
							}
						default:
							if noReturn(b.Instrs[i]) {
								return
							}
						}
					}
					for _, s := range b.Succs {
						if !seen[s] {
							seen[s] = true
							walk(s, 0)
						}
					}
				}
				walk(b, i+1)
				r.check(!bad, "recovered-panic", shortFn(fn), w.instrPos(in), "a recovered panic is turned into an error or panics again")
			}
		}
	}
}

// namedErrorResult: fv is bound to the variable the enclosing function returns
// as its error.
func namedErrorResult(fv *ssa.FreeVar) bool {
	fn := fv.Parent()
	outer := fn.Parent()
	if outer == nil {
		return false
	}
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	for _, b := range outer.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			al := mc.Bindings[idx]
			res := outer.Signature.Results()
			if res.Len() == 0 {
				return false
			}
			a, ok := al.(*ssa.Alloc)
			return ok && a.Comment == res.At(res.Len()-1).Name()
		}
	}
	return false
}
