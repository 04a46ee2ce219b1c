package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L04"] = checkL04
}

// intRange returns the bit width of an integer type on the narrowest platform
// and whether it is signed.
func intRange(t types.Type) (bits int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int64:
		return 64, true, true
	case types.Int:
		return 32, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64:
		return 64, false, true
	case types.Uint, types.Uintptr:
		return 32, false, true
	}
	return 0, false, false
}

type fieldRef struct {
	t *types.Struct
	i int
}

// L04: a count written in a pattern is used exactly as written or rejected.
func checkL04(w *World, r *Report) {
	r.Rule = "Forward value-flow from every number parsed out of pattern text, through parameters, results, struct fields and cells: each conversion must hold every value the parse can deliver (its bitSize argument, or the bounds of the tests that dominate the conversion), no operation may change the value before it is stored, it may not be merged with another value, the parse error must be tested, and every field it is stored in may be read only as the bound of a loop that counts up from zero by one, in tests, in error text, or in value-preserving arithmetic."
	r.Minimums["numbers parsed"] = 1
	r.Minimums["conversions checked"] = 1
	r.Minimums["loops and limits from the count"] = 1
	var fns []*ssa.Function
	reach := map[*ssa.Function]bool{}
	for _, ep := range w.entries(r, "NewScanner") {
		for f := range reachable(ep.fn) {
			reach[f] = true
		}
	}
	for f := range reach {
		if w.InRepo(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	c := &countFlow{w: w, r: r, fns: fns, fields: map[fieldRef]int{}, seen: map[ssa.Value]bool{}}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				bits := 0
				switch call.Call.StaticCallee().String() {
				case "strconv.ParseInt", "strconv.ParseUint":
					if k, ok := call.Call.Args[2].(*ssa.Const); ok {
						n, _ := constant.Int64Val(k.Value)
						bits = int(n)
					} else {
						bits = 64
					}
					if bits == 0 {
						bits = 64
					}
					if call.Call.StaticCallee().String() == "strconv.ParseUint" {
						bits++ // as many values as a signed number with one more bit
					}
					if k, ok := call.Call.Args[1].(*ssa.Const); !ok || k.Value == nil || constant.Compare(k.Value, token.NEQ, constant.MakeInt64(10)) {
						r.bad("decimal", shortFn(f), w.instrPos(in), "a count must be read as a decimal number")
					}
				case "strconv.Atoi":
					bits = 64
				default:
					continue
				}
				r.Counts["numbers parsed"]++
				for _, ref := range *call.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
						c.flow(ex, bits, f)
					}
				}
			}
		}
	}
	// Fields that hold a count.
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var fr fieldRef
					var v ssa.Value
					switch in := in.(type) {
					case *ssa.UnOp:
						fa, ok := in.X.(*ssa.FieldAddr)
						if !ok || in.Op != token.MUL {
							continue
						}
						fr, v = countField(fa), in
					case *ssa.Field:
						fr, v = fieldRef{in.X.Type().Underlying().(*types.Struct), in.Field}, in
					default:
						continue
					}
					bits, ok := c.fields[fr]
					if !ok || c.seen[v] {
						continue
					}
					changed = true
					r.Counts["field reads"]++
					c.flow(v, bits, f)
				}
			}
		}
	}
	r.check(len(c.fields) > 0 || r.Counts["loops and limits from the count"] > 0, "count-used", "parsed count", "-", "the parsed count reaches the syntax tree")
}

func countField(fa *ssa.FieldAddr) fieldRef {
	return fieldRef{fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct), fa.Field}
}

type countFlow struct {
	w      *World
	r      *Report
	fns    []*ssa.Function
	fields map[fieldRef]int
	seen   map[ssa.Value]bool
}

// flow follows a count with the given value width.
func (c *countFlow) flow(v ssa.Value, bits int, f *ssa.Function) {
	if c.seen[v] {
		return
	}
	c.seen[v] = true
	if v.Referrers() == nil {
		return
	}
	for _, ref := range *v.Referrers() {
		pos := c.w.instrPos(ref)
		name := shortFn(f)
		switch ref := ref.(type) {
		case *ssa.DebugRef, *ssa.MakeInterface:
		case *ssa.Convert:
			tb, signed, ok := intRange(ref.Type())
			if !ok {
				continue
			}
			c.r.Counts["conversions checked"]++
			have := bits
			if g := guardBits(ref.Block(), v); g < have {
				have = g
			}
			limit := tb
			if !signed {
				limit++
			}
			if c.r.check(have <= limit, "exact-conversion", name, pos, fmt.Sprintf("a count of up to %d bits is converted to %s", have, ref.Type())) {
				c.flow(ref, have, f)
			}
		case *ssa.ChangeType:
			c.flow(ref, bits, f)
		case *ssa.Store:
			if ref.Val != v {
				continue
			}
			switch a := ref.Addr.(type) {
			case *ssa.FieldAddr:
				fr := countField(a)
				if old, ok := c.fields[fr]; !ok || old < bits {
					c.fields[fr] = bits
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if from, ok := u.X.(*ssa.FieldAddr); ok && countField(from) == fr && inList(a.X) && from.X != a.X {
						c.r.bad("unchanged", name, pos, "the count of a wildcard that is already in the list is replaced by another's")
						continue
					}
				}
				c.r.ok("stored-unchanged", name, pos, "the count is stored unchanged")
			case *ssa.Alloc:
				for _, rr := range *a.Referrers() {
					if u, ok := rr.(*ssa.UnOp); ok {
						c.flow(u, bits, f)
					}
					if st, ok := rr.(*ssa.Store); ok && st.Val != v && !isZero(st.Val) {
						c.r.bad("unchanged", name, c.w.instrPos(rr), "the count may be replaced by another value before it is used")
					}
				}
			}
		case *ssa.Phi:
			if start, step, ok := inductionVar(ref); ok && start == v {
				c.countdown(ref, step, f)
				continue
			}
			if same := mergedWith(ref, v); same != nil {
				c.r.bad("unchanged", name, pos, fmt.Sprintf("the count may be replaced by %s before it is used", same))
				continue
			}
			c.flow(ref, bits, f)
		case *ssa.BinOp:
			switch ref.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				c.test(ref, v, f)
			case token.ADD, token.SUB, token.MUL, token.SHL:
				// Arithmetic is fine as long as the result is not used as the count itself.
				c.derived(ref, v, f, map[ssa.Value]bool{})
			default:
				c.r.bad("unchanged", name, pos, "the count is changed by "+ref.String())
			}
		case *ssa.Call:
			g := ref.Call.StaticCallee()
			if g == nil || len(g.Blocks) == 0 {
				continue
			}
			for i, a := range ref.Call.Args {
				if a == v && i < len(g.Params) {
					c.flow(g.Params[i], bits, g)
				}
			}
		case *ssa.Return:
			for i, x := range ref.Results {
				if x != v {
					continue
				}
				for _, h := range c.fns {
					for _, b := range h.Blocks {
						for _, in := range b.Instrs {
							call, ok := in.(*ssa.Call)
							if !ok || call.Call.StaticCallee() != f {
								continue
							}
							if len(ref.Results) == 1 {
								c.flow(call, bits, h)
								continue
							}
							for _, rr := range *call.Referrers() {
								if ex, ok := rr.(*ssa.Extract); ok && ex.Index == i {
									c.flow(ex, bits, h)
								}
							}
						}
					}
				}
			}
		}
	}
}

// countdown: a loop that starts from the count.
func (c *countFlow) countdown(phi *ssa.Phi, step int64, f *ssa.Function) {
	for _, ref := range *phi.Referrers() {
		cmp, ok := ref.(*ssa.BinOp)
		if !ok || cmp.X != phi {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		default:
			continue
		}
		k, ok := cmp.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			continue
		}
		n, _ := constant.Int64Val(k.Value)
		c.r.Counts["loops and limits from the count"]++
		good := step == -1 && (n == 0 && (cmp.Op == token.GTR || cmp.Op == token.NEQ || cmp.Op == token.LEQ || cmp.Op == token.EQL) || n == 1 && (cmp.Op == token.GEQ || cmp.Op == token.LSS))
		c.r.check(good, "counting-loop", shortFn(f), c.w.instrPos(cmp), fmt.Sprintf("a loop counts down from the count by %d until %s: it must run exactly count times", step, cmp))
	}
}

// derived: a number computed from the count must not be stored as a count.
func (c *countFlow) derived(v, count ssa.Value, f *ssa.Function, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if fa, ok := ref.Addr.(*ssa.FieldAddr); ok && ref.Val == v {
				if _, is := c.fields[countField(fa)]; is {
					c.r.bad("unchanged", shortFn(f), c.w.instrPos(ref), "a value computed from the count is stored in its place")
				}
			}
		case *ssa.BinOp:
			switch ref.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
				if !induction(ref, v) {
					c.r.Counts["loops and limits from the count"]++
				} else if c.steps(ref, v, count) {
					c.r.Counts["loops and limits from the count"]++
					c.r.ok("counting-loop", shortFn(f), c.w.instrPos(ref), "a loop to a multiple of the count, by steps of as much")
				} else {
					c.r.bad("counting-loop", shortFn(f), c.w.instrPos(ref), "a loop runs to a value computed from the count instead of the count")
				}
			default:
				c.derived(ref, count, f, seen)
			}
		case *ssa.Convert:
			c.derived(ref, count, f, seen)
		case *ssa.Phi:
			c.derived(ref, count, f, seen)
		}
	}
}

func isZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && (k.Value == nil || constant.Compare(k.Value, token.EQL, constant.MakeInt64(0)))
}

// mergedWith: a value other than v that phi may take. The zero that goes with
// a failed parse is fine (the error is tested, rule L02), as is v itself.
func mergedWith(phi *ssa.Phi, v ssa.Value) ssa.Value {
	for _, e := range phi.Edges {
		if e == v || e == phi || isZero(e) {
			continue
		}
		return e
	}
	return nil
}

// induction: cmp compares v with a value that changes around a loop by a constant.
func induction(cmp *ssa.BinOp, v ssa.Value) bool {
	o := cmp.X
	if o == v {
		o = cmp.Y
	}
	_, _, ok := inductionVar(o)
	return ok
}

// steps: a loop whose counter goes from s, k at a time, to s + k*count.
func (c *countFlow) steps(cmp *ssa.BinOp, limit, count ssa.Value) bool {
	op, o := cmp.Op, cmp.X
	if cmp.X == limit {
		op, o = flip(cmp.Op), cmp.Y
	}
	phi, ok := o.(*ssa.Phi)
	if !ok || op != token.LSS && op != token.NEQ && op != token.GEQ {
		return false
	}
	start, step, ok := inductionVar(phi)
	if !ok || step <= 0 {
		return false
	}
	lin := map[ssa.Value]int64{}
	var k int64
	var add func(v ssa.Value, f int64)
	add = func(v ssa.Value, f int64) {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil {
				k += f * x.Int64()
			}
			return
		case *ssa.Convert:
			if isInt(x.X.Type()) && isInt(x.Type()) {
				add(x.X, f)
				return
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD:
				add(x.X, f)
				add(x.Y, f)
				return
			case token.SUB:
				add(x.X, f)
				add(x.Y, -f)
				return
			case token.MUL, token.SHL:
				for i, y := range [2]ssa.Value{x.Y, x.X} {
					if n, isK := y.(*ssa.Const); isK && n.Value != nil && (i == 0 || x.Op == token.MUL) {
						m := n.Int64()
						if x.Op == token.SHL {
							m = 1 << uint(m&31)
						}
						add([2]ssa.Value{x.X, x.Y}[i], f*m)
						return
					}
				}
			}
		}
		lin[v] += f
	}
	add(limit, 1)
	add(start, -1)
	for v, f := range lin {
		if f != 0 && !(v == count && f == step) {
			return false
		}
	}
	return k == 0 && lin[count] == step
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// loopPhi is the loop variable behind a counter.
func loopPhi(o ssa.Value) (*ssa.Phi, bool) {
	if b, ok := o.(*ssa.BinOp); ok {
		o = b.X
	}
	phi, ok := o.(*ssa.Phi)
	return phi, ok
}

// inductionVar: the start and step of a loop counter.
func inductionVar(o ssa.Value) (start ssa.Value, step int64, ok bool) {
	post := int64(0)
	if b, isB := o.(*ssa.BinOp); isB && b.Op == token.ADD {
		if k, isK := b.Y.(*ssa.Const); isK {
			if p, isP := b.X.(*ssa.Phi); isP {
				post, _ = constant.Int64Val(k.Value)
				o = p
			}
		}
	}
	_ = post
	phi, isPhi := o.(*ssa.Phi)
	if !isPhi {
		return nil, 0, false
	}
	found := false
	for _, e := range phi.Edges {
		b, isB := e.(*ssa.BinOp)
		if isB && (b.Op == token.ADD || b.Op == token.SUB) && b.X == phi {
			k, isK := b.Y.(*ssa.Const)
			if !isK {
				return nil, 0, false
			}
			step, _ = constant.Int64Val(k.Value)
			if b.Op == token.SUB {
				step = -step
			}
			found = true
			continue
		}
		if start != nil && start != e {
			return nil, 0, false
		}
		start = e
	}
	return start, step, found && start != nil
}

// test: the count is compared with something.
func (c *countFlow) test(cmp *ssa.BinOp, v ssa.Value, f *ssa.Function) {
	op := cmp.Op
	o := cmp.Y
	if cmp.Y == v {
		o = cmp.X
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	// The count is compared with a counter: v op o.
	start, step, ok := inductionVar(o)
	if !ok {
		if _, isK := o.(*ssa.Const); !isK {
			// A computed limit: nothing to check here.
			c.r.Counts["other tests"]++
		}
		return
	}
	c.r.Counts["loops and limits from the count"]++
	pos := c.w.instrPos(cmp)
	k, isK := start.(*ssa.Const)
	s := int64(-1)
	if isK && k.Value != nil {
		s, _ = constant.Int64Val(k.Value)
	}
	good := isK && step == 1 && (s == 0 && (op == token.GTR || op == token.NEQ || op == token.LEQ || op == token.EQL) || s == 1 && (op == token.GEQ || op == token.LSS))
	// A while-style exit test (count <= i) is the negation of (i < count).
	c.r.check(good, "counting-loop", shortFn(f), pos, fmt.Sprintf("a loop counts from %s by %d and compares with the count (%s): it must run exactly count times", start.Name(), step, cmp))
	if phi, ok := loopPhi(o); ok && good {
		if b := leavesEarly(phi.Block(), cmp); b != nil {
			c.r.bad("counting-loop", shortFn(f), c.w.instrPos(b.Instrs[len(b.Instrs)-1]), "a loop that runs count times can be left before")
		}
	}
}

// inList: v is a pointer found in a list.
func inList(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	_, ok = u.X.(*ssa.IndexAddr)
	return ok
}

// leavesEarly: a block of the loop, other than the one that compares with the
// count, from which the loop is left for the code after it. Leaving because of
// an error, or by a return or a panic, is not meant.
func leavesEarly(head *ssa.BasicBlock, cmp *ssa.BinOp) *ssa.BasicBlock {
	loop := naturalLoop(head)
	if !loop[cmp.Block()] {
		return nil
	}
	for _, b := range head.Parent().Blocks {
		if !loop[b] || b == cmp.Block() {
			continue
		}
		for _, s := range b.Succs {
			if loop[s] {
				continue
			}
			for len(s.Succs) == 1 && len(s.Preds) == 1 {
				s = s.Succs[0]
			}
			if len(s.Succs) == 0 && len(s.Preds) == 1 {
				continue
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if c, ok := iff.Cond.(*ssa.BinOp); ok && types.Identical(c.X.Type(), types.Universe.Lookup("error").Type()) {
					continue
				}
			}
			return b
		}
	}
	return nil
}

// guardBits: the width that dominating tests of v against constants leave.
func guardBits(b *ssa.BasicBlock, v ssa.Value) int {
	best := 99
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, k := bo.Op, bo.Y
		if bo.X != v {
			if bo.Y != v {
				continue
			}
			k = bo.X
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		kc, ok := k.(*ssa.Const)
		if !ok || kc.Value == nil {
			continue
		}
		n, exact := constant.Int64Val(kc.Value)
		if !exact || n < 0 {
			continue
		}
		upper := int64(-1)
		if dominatesEdge(d, d.Succs[0], b) {
			switch op {
			case token.LSS:
				upper = n - 1
			case token.LEQ, token.EQL:
				upper = n
			}
		} else if dominatesEdge(d, d.Succs[1], b) {
			switch op {
			case token.GTR:
				upper = n
			case token.GEQ:
				upper = n - 1
			}
		}
		if upper >= 0 {
			w := 1
			for upper > 0 {
				upper >>= 1
				w++
			}
			if w < best {
				best = w
			}
		}
	}
	return best
}
