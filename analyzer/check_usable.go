package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// usableResults: a function that reports success with a new structure must set
// every field that its other successful results set; a successful result that
// leaves one out (the "empty list" result) must be excluded at every call on
// the way to NewScanner.
func usableResults(w *World, r *Report, entry *ssa.Function) {
	reach := reachable(entry)
	for fn := range reach {
		if fn.Pkg == nil || !w.InRepo(fn) {
			continue
		}
		type success struct {
			ret   *ssa.Return
			al    *ssa.Alloc
			set   map[int]bool
			block *ssa.BasicBlock
		}
		var succ []success
		union := map[int]bool{}
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) != 2 || !isErrorType(ret.Results[1].Type()) {
				continue
			}
			al, ok := unwrap(ret.Results[0]).(*ssa.Alloc)
			if !ok || !isNilConst(ret.Results[1]) && definitelyNonNil(ret.Results[1], 0) {
				continue
			}
			st, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			s := success{ret, al, map[int]bool{}, b}
			for _, ref := range *al.Referrers() {
				switch ref := ref.(type) {
				case *ssa.FieldAddr:
					for _, rr := range *ref.Referrers() {
						if x, ok := rr.(*ssa.Store); ok && x.Addr == ref && !isNilConst(x.Val) {
							s.set[ref.Field] = true
						}
						if _, ok := rr.(*ssa.Call); ok {
							s.set[ref.Field] = true
						}
					}
				case *ssa.Store:
					if ref.Addr == al {
						for i := 0; i < st.NumFields(); i++ {
							s.set[i] = true
						}
					}
				case *ssa.Call:
					// A method or helper fills it in: count every field it stores.
					if g := ref.Call.StaticCallee(); g != nil {
						for i, a := range ref.Call.Args {
							if a == al && i < len(g.Params) {
								for f := range fieldsStored(g, g.Params[i], 0) {
									s.set[f] = true
								}
							}
						}
					}
				}
			}
			for f := range s.set {
				union[f] = true
			}
			succ = append(succ, s)
		}
		for _, s := range succ {
			r.Counts["successful results checked"]++
			st := s.al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			missing := ""
			for f := range union {
				if !s.set[f] {
					missing = st.Field(f).Name()
				}
			}
			construct := fmt.Sprintf("result of %s", shortFn(fn))
			if missing == "" {
				r.ok("usable-result", construct, w.instrPos(s.ret), "every field set")
				continue
			}
			i := emptyParamGuard(fn, s.block)
			if i < 0 {
				r.bad("usable-result", construct, w.instrPos(s.ret), fmt.Sprintf("success is reported with %s left unset", missing))
				continue
			}
			// Every call on the way must exclude the empty list.
			for g := range reach {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(*ssa.Call)
						if !ok || call.Call.StaticCallee() != fn {
							continue
						}
						arg := call.Call.Args[i]
						r.check(excludesEmpty(b, arg), "usable-result", shortFn(g)+" calls "+shortFn(fn), w.instrPos(in),
							fmt.Sprintf("an empty list gives success with %s unset (%s), so it must be excluded here", missing, w.instrPos(s.ret)))
					}
				}
			}
		}
	}
}

func unwrap(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func fieldsStored(g *ssa.Function, p ssa.Value, depth int) map[int]bool {
	out := map[int]bool{}
	if depth > 3 || p.Referrers() == nil {
		return out
	}
	for _, ref := range *p.Referrers() {
		switch ref := ref.(type) {
		case *ssa.FieldAddr:
			for _, rr := range *ref.Referrers() {
				if x, ok := rr.(*ssa.Store); ok && x.Addr == ref {
					out[ref.Field] = true
				}
			}
		case *ssa.Call:
			if h := ref.Call.StaticCallee(); h != nil {
				for i, a := range ref.Call.Args {
					if a == p && i < len(h.Params) {
						for f := range fieldsStored(h, h.Params[i], depth+1) {
							out[f] = true
						}
					}
				}
			}
		}
	}
	return out
}

// lenOf returns the slice whose length v is.
func lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// lenTest decodes a comparison of len(x) with a small constant: the values of
// len for which it holds, as whether it holds for 0 and whether for 1.
func lenTest(cond ssa.Value) (x ssa.Value, zero, one, ok bool) {
	bo, isB := cond.(*ssa.BinOp)
	if !isB {
		return nil, false, false, false
	}
	l, k, flip := lenOf(bo.X), bo.Y, false
	if l == nil {
		l, k, flip = lenOf(bo.Y), bo.X, true
	}
	c, isC := k.(*ssa.Const)
	if l == nil || !isC || c.Value == nil {
		return nil, false, false, false
	}
	n, exact := constant.Int64Val(c.Value)
	if !exact {
		return nil, false, false, false
	}
	eval := func(len int64) bool {
		a, b := len, n
		if flip {
			a, b = b, a
		}
		switch bo.Op {
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		return false
	}
	return l, eval(0), eval(1), true
}

// emptyParamGuard: block b is reached only when parameter i is empty.
func emptyParamGuard(fn *ssa.Function, b *ssa.BasicBlock) int {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		x, zero, one, ok := lenTest(iff.Cond)
		if !ok || zero == one {
			continue
		}
		p, isP := x.(*ssa.Parameter)
		if !isP {
			continue
		}
		succ := d.Succs[0]
		if !zero {
			succ = d.Succs[1]
		}
		if dominatesEdge(d, succ, b) {
			return paramIndex(p)
		}
	}
	return -1
}

// excludesEmpty: block b is reached only when slice x is not empty.
func excludesEmpty(b *ssa.BasicBlock, x ssa.Value) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		y, zero, one, ok := lenTest(iff.Cond)
		if !ok || zero == one || y != x {
			continue
		}
		succ := d.Succs[1]
		if !zero {
			succ = d.Succs[0]
		}
		if dominatesEdge(d, succ, b) {
			return true
		}
	}
	return false
}
