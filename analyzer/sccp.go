package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Sparse conditional constant propagation over one function, given constant
// parameters and (optionally) the constant initial values of package variables
// that nothing ever writes. It yields the blocks that can execute.

type constEnv struct {
	w       *World
	params  map[ssa.Value]constant.Value // known constant parameters
	globals bool                         // treat never-written globals as their initial constants
	// eq, if set, may decide a comparison that constants cannot.
	eq func(x, y ssa.Value) (equal, known bool)
}

type latVal struct {
	kind byte // 0 = undefined, 1 = constant, 2 = varying
	v    constant.Value
}

type sccpResult struct {
	live  map[*ssa.BasicBlock]bool
	edges map[[2]*ssa.BasicBlock]bool
	vals  map[ssa.Value]latVal
}

func constOf(v ssa.Value) constant.Value {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return c.Value
	}
	return nil
}

// globalConst returns the constant a never-written package variable holds.
func (w *World) globalConst(g *ssa.Global) constant.Value {
	if w.writtenGlobals()[g] || g.Pkg == nil || w.SPkg[g.Pkg.Pkg.Path()] != g.Pkg {
		return nil
	}
	// An exported variable of a non-internal package can be assigned by its importers.
	if g.Object() == nil {
		return nil
	}
	path := g.Pkg.Pkg.Path()
	if token.IsExported(g.Name()) && (path == rootPath || path == oldPath) {
		return nil
	}
	var found constant.Value
	n := 0
	if init := g.Pkg.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == g {
						n++
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							found = constOf(st.Val)
						}
					}
				}
			}
		}
	}
	if n == 0 {
		return zeroConst(g.Type().(*types.Pointer).Elem())
	}
	if n == 1 {
		return found
	}
	return nil
}

func zeroConst(t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false)
	case b.Info()&types.IsInteger != 0:
		return constant.MakeInt64(0)
	case b.Info()&types.IsString != 0:
		return constant.MakeString("")
	}
	return nil
}

func sccp(fn *ssa.Function, env *constEnv) *sccpResult {
	res := &sccpResult{live: map[*ssa.BasicBlock]bool{}, edges: map[[2]*ssa.BasicBlock]bool{}, vals: map[ssa.Value]latVal{}}
	if len(fn.Blocks) == 0 {
		return res
	}
	get := func(v ssa.Value) latVal {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				return latVal{kind: 2}
			}
			return latVal{1, v.Value}
		case *ssa.Parameter, *ssa.FreeVar:
			if c, ok := env.params[v]; ok && c != nil {
				return latVal{1, c}
			}
			return latVal{kind: 2}
		case *ssa.Global, *ssa.Function, *ssa.Builtin:
			return latVal{kind: 2}
		}
		return res.vals[v]
	}
	changed := true
	res.live[fn.Blocks[0]] = true
	if fn.Recover != nil {
		res.live[fn.Recover] = true
	}
	set := func(v ssa.Value, n latVal) {
		o := res.vals[v]
		if o.kind == 2 {
			return
		}
		if o.kind == 1 && n.kind == 1 && constEqual(o.v, n.v) {
			return
		}
		if o.kind == 1 && n.kind == 1 {
			n = latVal{kind: 2}
		}
		if n.kind != o.kind {
			res.vals[v] = n
			changed = true
		}
	}
	edge := func(a, b *ssa.BasicBlock) {
		k := [2]*ssa.BasicBlock{a, b}
		if !res.edges[k] {
			res.edges[k] = true
			changed = true
		}
		if !res.live[b] {
			res.live[b] = true
			changed = true
		}
	}
	for changed {
		changed = false
		for _, b := range fn.Blocks {
			if !res.live[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Phi:
					n := latVal{}
					for i, e := range in.Edges {
						if !res.edges[[2]*ssa.BasicBlock{b.Preds[i], b}] {
							continue
						}
						x := get(e)
						switch {
						case x.kind == 0:
						case n.kind == 0:
							n = x
						case n.kind == 2 || x.kind == 2 || !constEqual(n.v, x.v):
							n = latVal{kind: 2}
						}
					}
					if n.kind != 0 {
						set(in, n)
					}
				case *ssa.BinOp:
					if env.eq != nil && (in.Op == token.EQL || in.Op == token.NEQ) {
						if eq, known := env.eq(in.X, in.Y); known {
							set(in, latVal{1, constant.MakeBool(eq == (in.Op == token.EQL))})
							continue
						}
					}
					x, y := get(in.X), get(in.Y)
					if x.kind == 1 && y.kind == 1 {
						if v := foldBin(in.Op, x.v, y.v, in.Type()); v != nil {
							set(in, latVal{1, v})
							continue
						}
						set(in, latVal{kind: 2})
					} else if x.kind == 2 || y.kind == 2 {
						set(in, latVal{kind: 2})
					}
				case *ssa.UnOp:
					if in.Op == token.MUL {
						if g, ok := in.X.(*ssa.Global); ok && env.globals {
							if c := env.w.globalConst(g); c != nil {
								set(in, latVal{1, c})
								continue
							}
						}
						set(in, latVal{kind: 2})
						continue
					}
					x := get(in.X)
					if x.kind == 1 && in.Op == token.NOT {
						set(in, latVal{1, constant.MakeBool(!constant.BoolVal(x.v))})
					} else if x.kind == 1 && in.Op == token.SUB {
						set(in, latVal{1, constant.UnaryOp(token.SUB, x.v, 0)})
					} else if x.kind != 0 {
						set(in, latVal{kind: 2})
					}
				case *ssa.Convert, *ssa.ChangeType:
					var op ssa.Value
					if c, ok := in.(*ssa.Convert); ok {
						op = c.X
					} else {
						op = in.(*ssa.ChangeType).X
					}
					x := get(op)
					if x.kind == 1 && (x.v.Kind() == constant.Int || x.v.Kind() == constant.Bool) && isIntOrBool(in.(ssa.Value).Type()) && isIntOrBool(op.Type()) {
						set(in.(ssa.Value), x)
					} else if x.kind != 0 {
						set(in.(ssa.Value), latVal{kind: 2})
					}
				case *ssa.If:
					c := get(in.Cond)
					switch c.kind {
					case 1:
						if constant.BoolVal(c.v) {
							edge(b, b.Succs[0])
						} else {
							edge(b, b.Succs[1])
						}
					case 2:
						edge(b, b.Succs[0])
						edge(b, b.Succs[1])
					}
				case *ssa.Jump:
					edge(b, b.Succs[0])
				case ssa.Value:
					set(in, latVal{kind: 2})
				}
			}
		}
	}
	return res
}

func isIntOrBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func constEqual(a, b constant.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	return constant.Compare(a, token.EQL, b)
}

func foldBin(op token.Token, x, y constant.Value, t types.Type) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.MakeBool(constant.Compare(x, op, y))
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(y)
		if !ok || s > 64 {
			return nil
		}
		v = constant.Shift(x, op, uint(s))
	case token.QUO:
		if x.Kind() == constant.Int && y.Kind() == constant.Int {
			if constant.Sign(y) == 0 {
				return nil
			}
			op = token.QUO_ASSIGN
		}
		v = constant.BinaryOp(x, op, y)
	default:
		v = constant.BinaryOp(x, op, y)
	}
	// Only fold when the result is representable without wrapping.
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v != nil {
		if n, exact := constant.Int64Val(v); !exact || n < -1<<31 || n > 1<<31-1 {
			return nil
		}
		if b.Info()&types.IsUnsigned != 0 && constant.Sign(v) < 0 {
			return nil
		}
		if b.Kind() == types.Uint8 || b.Kind() == types.Int8 || b.Kind() == types.Int16 || b.Kind() == types.Uint16 {
			return nil
		}
	}
	return v
}
