package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = checkC11
}

// C11: patterns and texts are split by the same rules, and every word is
// normalised before it is compared.
func checkC11(w *World, r *Report) {
	r.Rule = "(1) Two-run comparison of word splitting: the value that tells pattern compilation (adding unknown words) from scanning may influence only word IDs and the dictionary; at every branch on it both sides must be straight-line code with equal effects up to word IDs, and every merge after it must join equal values up to word IDs. (2) Backward data-flow from every dictionary lookup, insertion and word comparison: text reaches it only through the case-folding function or an exact constant. (3) The evaluated rewrite table is functional and has no chains."
	r.Minimums["split entry points"] = 2
	r.Minimums["branches on the mode"] = 1
	r.Minimums["dictionary keys traced"] = 2
	r.Minimums["raw text uses traced"] = 2
	r.Minimums["rewrites"] = 1
	ins := w.Method(matchPath, "Dict", "InsertSplit")
	spl := w.Method(matchPath, "Dict", "Split")
	if ins == nil || spl == nil {
		r.bad("anchors", "Dict.InsertSplit/Split", "-", "split entry points not found")
		return
	}
	r.Counts["split entry points"] = 2
	c := &splitCheck{w: w, r: r, seen: map[string]bool{}}
	c.sameEntry(ins, spl)
	c.folded(ins, spl)
	c.rewrites()
	c.splitArgs(ins, spl)
}

type splitCheck struct {
	w    *World
	r    *Report
	seen map[string]bool
}

func (c *splitCheck) isWordID(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "WordID" && n.Obj().Pkg().Path() == matchPath
}

// sameEntry compares the two entry methods: both must return the result of one
// shared routine applied to the same arguments except for boolean constants.
func (c *splitCheck) sameEntry(a, b *ssa.Function) {
	ca, cb := singleCall(a), singleCall(b)
	pos := c.w.Pos(a.Pos())
	if ca == nil || cb == nil || ca.Call.StaticCallee() == nil || ca.Call.StaticCallee() != cb.Call.StaticCallee() {
		c.r.bad("same-rules", "InsertSplit and Split", pos, "the two entry points do not share one splitting routine, so their rules cannot be compared (undecided)")
		return
	}
	f := ca.Call.StaticCallee()
	taint := map[int]bool{}
	for i := range ca.Call.Args {
		x, y := ca.Call.Args[i], cb.Call.Args[i]
		px, okx := x.(*ssa.Parameter)
		py, oky := y.(*ssa.Parameter)
		if okx && oky && paramIndex(px) == paramIndex(py) {
			continue
		}
		if kx, ky := constOf(x), constOf(y); kx != nil && ky != nil {
			if kx.ExactString() != ky.ExactString() {
				taint[i] = true
			}
			continue
		}
		c.r.bad("same-rules", fmt.Sprintf("argument %d of %s", i, shortFn(f)), pos, "the two entry points pass different values")
	}
	c.r.check(len(taint) == 1, "same-rules", "InsertSplit and Split", pos, "the entry points differ in exactly one constant argument of "+shortFn(f))
	for i := range taint {
		c.twoRun(f, i)
	}
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if p == q {
			return i
		}
	}
	return -1
}

// singleCall returns the call whose result f returns, if f is a mere wrapper.
func singleCall(f *ssa.Function) *ssa.Call {
	if len(f.Blocks) != 1 {
		return nil
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil
	}
	call, _ := ret.Results[0].(*ssa.Call)
	return call
}

// twoRun checks that parameter i of f influences only word IDs.
func (c *splitCheck) twoRun(f *ssa.Function, i int) {
	key := fmt.Sprintf("%s#%d", f, i)
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	construct := fmt.Sprintf("%s, parameter %s", shortFn(f), f.Params[i].Name())
	c.r.Counts["functions compared"]++
	// Data taint: values computed from the parameter.
	taint := map[ssa.Value]bool{}
	work := []ssa.Value{f.Params[i]}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if taint[v] {
			continue
		}
		taint[v] = true
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.If:
				c.r.Counts["branches on the mode"]++
				c.branch(f, construct, ref)
			case *ssa.UnOp:
				if ref.Op == token.NOT {
					work = append(work, ref)
					continue
				}
				c.r.bad("same-rules", construct, c.w.instrPos(ref), "the mode flows into "+ref.String())
			case *ssa.Phi:
				work = append(work, ref)
			case *ssa.BinOp:
				if b, ok := ref.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					work = append(work, ref)
					continue
				}
				c.r.bad("same-rules", construct, c.w.instrPos(ref), "the mode flows into "+ref.String())
			case *ssa.Call:
				g := ref.Call.StaticCallee()
				if g == nil || len(g.Blocks) == 0 {
					c.r.bad("same-rules", construct, c.w.instrPos(ref), "the mode is passed to "+callName(ref))
					continue
				}
				for j, a := range ref.Call.Args {
					if a == v {
						c.twoRun(g, j)
					}
				}
			default:
				c.r.bad("same-rules", construct, c.w.instrPos(ref), "the mode flows into "+ref.String())
			}
		}
	}
}

// branch compares the two sides of a branch on the mode.
func (c *splitCheck) branch(f *ssa.Function, construct string, iff *ssa.If) {
	b := iff.Block()
	ea, ta, enda := straight(b, b.Succs[0])
	eb, tb, endb := straight(b, b.Succs[1])
	pos := c.w.instrPos(iff)
	if enda == nil || endb == nil {
		// Both may end in returns.
		if enda == nil && endb == nil && len(ta) > 0 && len(tb) > 0 {
			ra, oka := ta[len(ta)-1].(*ssa.Return)
			rb, okb := tb[len(tb)-1].(*ssa.Return)
			if oka && okb {
				ok := c.effectsEqual(ta, tb)
				for i := range ra.Results {
					ok = ok && c.related(ra.Results[i], rb.Results[i], 0)
				}
				c.r.check(ok, "same-rules", construct, pos, "both sides of the branch on the mode return equal results up to word IDs")
				return
			}
		}
		c.r.bad("same-rules", construct, pos, "the sides of the branch on the mode are not comparable straight-line code (undecided)")
		return
	}
	// Follow both chains until they meet.
	meet := enda
	if enda != endb {
		// One side may fall through into further code that the other skipped.
		c.r.bad("same-rules", construct, pos, "after the branch on the mode, one mode executes code that the other does not: "+c.w.Pos(blockPos(enda))+" against "+c.w.Pos(blockPos(endb)))
		return
	}
	ok := c.effectsEqual(ta, tb)
	c.r.check(ok, "same-rules", construct, pos, "both sides of the branch on the mode have equal effects up to word IDs")
	for _, in := range meet.Instrs {
		phi, isPhi := in.(*ssa.Phi)
		if !isPhi {
			break
		}
		va, vb := edgeValue(phi, ea), edgeValue(phi, eb)
		c.r.check(va != nil && vb != nil && c.related(va, vb, 0), "same-rules", construct+", value "+phiName(phi), pos, "the modes agree on this value up to word IDs")
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func edgeValue(phi *ssa.Phi, from *ssa.BasicBlock) ssa.Value {
	for i, p := range phi.Block().Preds {
		if p == from {
			return phi.Edges[i]
		}
	}
	return nil
}

// straight follows the chain of single-successor blocks from succ until the
// block that has another predecessor; it returns the last block of the chain,
// the instructions executed, and the meeting block.
func straight(from, succ *ssa.BasicBlock) (last *ssa.BasicBlock, ins []ssa.Instruction, end *ssa.BasicBlock) {
	last = from
	b := succ
	for n := 0; n < 100; n++ {
		if len(b.Preds) > 1 {
			return last, ins, b
		}
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Jump, *ssa.DebugRef:
				continue
			case *ssa.If:
				return b, ins, nil
			}
			ins = append(ins, in)
		}
		if len(b.Succs) != 1 {
			return b, ins, nil
		}
		last, b = b, b.Succs[0]
	}
	return last, ins, nil
}

// effectsEqual compares the effects (stores, calls) of the two sides.
func (c *splitCheck) effectsEqual(a, b []ssa.Instruction) bool {
	fa, fb := c.effectsOf(a), c.effectsOf(b)
	if len(fa) != len(fb) {
		return false
	}
	for i := range fa {
		sa, oka := fa[i].(*ssa.Store)
		sb, okb := fb[i].(*ssa.Store)
		if !oka || !okb || !c.related(sa.Addr, sb.Addr, 0) || !c.related(sa.Val, sb.Val, 0) {
			return false
		}
	}
	return true
}

func (c *splitCheck) effectsOf(ins []ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	for _, in := range ins {
		switch in := in.(type) {
		case *ssa.Store:
			if localArray(in.Addr) {
				continue // argument list of append; compared through related
			}
			out = append(out, in)
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
			// Calls that only give an ID: the dictionary itself.
			if f := in.Call.StaticCallee(); f != nil && f.Signature.Results().Len() == 1 && c.isWordID(f.Signature.Results().At(0).Type()) {
				continue
			}
			out = append(out, in)
		case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
			out = append(out, in)
		}
	}
	return out
}

func localArray(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.FieldAddr:
			a = x.X
		default:
			return false
		}
	}
}

// related: equal in both modes up to word IDs.
func (c *splitCheck) related(a, b ssa.Value, depth int) bool {
	if a == b || c.isWordID(a.Type()) && c.isWordID(b.Type()) {
		return true
	}
	if depth > 12 || !types.Identical(a.Type(), b.Type()) {
		return false
	}
	if ka, kb := constOf(a), constOf(b); ka != nil && kb != nil {
		return ka.ExactString() == kb.ExactString()
	}
	switch x := a.(type) {
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		bx, okx := x.Call.Value.(*ssa.Builtin)
		by, oky := y.Call.Value.(*ssa.Builtin)
		if !okx || !oky || bx.Name() != by.Name() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		for i := range x.Call.Args {
			if !c.related(x.Call.Args[i], y.Call.Args[i], depth+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		y, ok := b.(*ssa.Slice)
		if !ok {
			return false
		}
		for _, p := range [][2]ssa.Value{{x.Low, y.Low}, {x.High, y.High}, {x.Max, y.Max}} {
			if (p[0] == nil) != (p[1] == nil) || p[0] != nil && !c.related(p[0], p[1], depth+1) {
				return false
			}
		}
		return c.related(x.X, y.X, depth+1)
	case *ssa.Alloc:
		y, ok := b.(*ssa.Alloc)
		if !ok {
			return false
		}
		return c.sameContents(x, y, depth+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && c.related(x.X, y.X, depth+1)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && c.related(x.X, y.X, depth+1)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && c.related(x.X, y.X, depth+1) && c.related(x.Y, y.Y, depth+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && c.related(x.X, y.X, depth+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && c.related(x.X, y.X, depth+1) && c.related(x.Index, y.Index, depth+1)
	}
	return false
}

// sameContents compares what is stored in two local temporaries.
func (c *splitCheck) sameContents(a, b *ssa.Alloc, depth int) bool {
	sa, oka := cellStores(a, "")
	sb, okb := cellStores(b, "")
	if !oka || !okb || len(sa) != len(sb) {
		return false
	}
	for p, va := range sa {
		vb, ok := sb[p]
		if !ok || !c.related(va, vb, depth) {
			return false
		}
	}
	return true
}

func cellStores(a ssa.Value, path string) (map[string]ssa.Value, bool) {
	out := map[string]ssa.Value{}
	for _, ref := range *a.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr != a {
				return nil, false
			}
			if _, dup := out[path]; dup {
				return nil, false
			}
			// A whole-struct store of a loaded temporary: descend.
			if u, ok := ref.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if al, ok := u.X.(*ssa.Alloc); ok {
					sub, ok := cellStores(al, path)
					if !ok {
						return nil, false
					}
					for k, v := range sub {
						out[k] = v
					}
					continue
				}
			}
			out[path] = ref.Val
		case *ssa.FieldAddr:
			sub, ok := cellStores(ref, fmt.Sprintf("%s.%d", path, ref.Field))
			if !ok {
				return nil, false
			}
			for k, v := range sub {
				out[k] = v
			}
		case *ssa.IndexAddr:
			k := constOf(ref.Index)
			if k == nil {
				return nil, false
			}
			sub, ok := cellStores(ref, fmt.Sprintf("%s[%s]", path, k))
			if !ok {
				return nil, false
			}
			for k, v := range sub {
				out[k] = v
			}
		case *ssa.UnOp, *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, true
}

// folded checks that text reaches dictionary keys and comparisons only
// through the folding function.
func (c *splitCheck) folded(entries ...*ssa.Function) {
	p := c.w.SPkg[matchPath]
	// The folding functions: those from which unicode.SimpleFold (or another
	// case mapping of package unicode) is reachable through a rune parameter.
	fold := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range AllFuncs(p) {
			if fold[f] || !takesOnlyText(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := call.Call.StaticCallee()
					if g == nil {
						continue
					}
					if g.String() == "unicode.SimpleFold" || g.String() == "unicode.ToLower" || g.String() == "unicode.ToUpper" || fold[g] {
						if !fold[f] {
							fold[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	var names []string
	for f := range fold {
		names = append(names, shortFn(f))
	}
	sort.Strings(names)
	c.r.Notes = append(c.r.Notes, "folding functions: "+strings.Join(names, ", "))
	c.r.Counts["folding functions"] = len(fold)
	if len(fold) == 0 {
		c.r.bad("anchors", "folding", "-", "no case-folding function found")
		return
	}
	// Inside folding functions over runes: the rune must not reach the output
	// buffer without the fold.
	reach := map[*ssa.Function]bool{}
	for _, e := range entries {
		for f := range reachable(e) {
			reach[f] = true
		}
	}
	var fns []*ssa.Function
	for f := range reach {
		if f.Pkg == p {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	isDict := func(v ssa.Value) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && c.isWordID(m.Elem())
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var keyv ssa.Value
				what := ""
				switch in := in.(type) {
				case *ssa.Lookup:
					if isDict(in.X) {
						keyv, what = in.Index, "dictionary lookup"
					}
				case *ssa.Call:
					if g := in.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && (g.Name() == "Insert" || g.Name() == "Lookup") && reach[g] {
						keyv, what = in.Call.Args[len(in.Call.Args)-1], "call of "+shortFn(g)
					}
				}
				if keyv == nil || rawParamKey(keyv) {
					continue // Insert(w) itself: its callers are traced
				}
				c.r.Counts["dictionary keys traced"]++
				bad := rawText(keyv, fold, map[ssa.Value]bool{})
				c.r.check(bad == "", "folded-before-lookup", shortFn(f)+" "+what, c.w.instrPos(in), orText(bad, "text reaches the key only through folding"))
			}
		}
	}
	// Fold functions that build a buffer: no appended byte may bypass the fold.
	for f := range fold {
		if f.Signature.Results().Len() != 1 {
			continue
		}
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if _, isRune := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); isRune && f.Signature.Results().At(0).Type().Underlying().(*types.Basic).Kind() != types.String {
				continue
			}
			c.r.Counts["folded buffers traced"]++
			bad := rawText(ret.Results[0], foldExcept(fold, f), map[ssa.Value]bool{})
			c.r.check(bad == "", "folded-output", shortFn(f), c.w.instrPos(ret), orText(bad, "every byte produced comes through folding"))
		}
	}
	// Matching: raw text substrings only go to folding or tracing.
	m := c.w.Method(matchPath, "MultiLRE", "Match")
	if m == nil {
		c.r.bad("anchors", "MultiLRE.Match", "-", "method not found")
		return
	}
	splitters := map[*ssa.Function]bool{}
	for _, e := range entries {
		for f := range reachable(e) {
			splitters[f] = true
		}
	}
	for f := range reachable(m) {
		if f.Pkg != p || splitters[f] || fold[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				sl, ok := in.(*ssa.Slice)
				if !ok || !isString(sl.X.Type()) || sl.Type() == nil {
					continue
				}
				if !fromTextParam(sl.X) {
					continue
				}
				c.r.Counts["raw text uses traced"]++
				bad := ""
				for _, ref := range nonDebugRefs(sl) {
					if call, ok := ref.(*ssa.Call); ok {
						if g := call.Call.StaticCallee(); g != nil && (fold[g] || onlyFolds(g, call, sl, fold)) {
							continue
						}
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println" || bi.Name() == "len") {
							continue
						}
					}
					bad = "a piece of the unfolded text is used by " + ref.String()
				}
				c.r.check(bad == "", "folded-before-compare", shortFn(f), c.w.instrPos(sl), orText(bad, "text pieces are folded before use"))
			}
		}
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// onlyFolds: g passes the parameter bound to v only to folding functions (after slicing).
func onlyFolds(g *ssa.Function, call *ssa.Call, v ssa.Value, fold map[*ssa.Function]bool) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	for i, a := range call.Call.Args {
		if a != v {
			continue
		}
		for _, ref := range nonDebugRefs(g.Params[i]) {
			c2, ok := ref.(*ssa.Call)
			if !ok || c2.Call.StaticCallee() == nil || !fold[c2.Call.StaticCallee()] {
				return false
			}
		}
	}
	return true
}

func foldExcept(fold map[*ssa.Function]bool, f *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for g := range fold {
		if g != f {
			m[g] = true
		}
	}
	return m
}

func takesOnlyText(f *ssa.Function) bool {
	if f.Signature.Recv() != nil || len(f.Params) == 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	n := 0
	for _, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			if t.Kind() != types.Int32 && t.Info()&types.IsString == 0 {
				return false
			}
			n++
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

// rawParamKey: the key is (a conversion of) a parameter of the enclosing
// dictionary method; callers are traced instead.
func rawParamKey(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Parameter:
			f := x.Parent()
			return f.Signature.Recv() != nil && isString(x.Type()) && (f.Name() == "Insert" || f.Name() == "Lookup")
		case *ssa.Convert:
			v = x.X
		default:
			return false
		}
	}
}

// fromTextParam: the string is (part of) a string parameter.
func fromTextParam(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			return x.Name() != "want" && isString(x.Type()) && len(x.Parent().Params) >= 3 || strings.Contains(x.Name(), "text")
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// rawText walks the data dependences of a byte or string value backwards and
// reports a path on which text parameters reach it without folding.
func rawText(v ssa.Value, fold map[*ssa.Function]bool, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return ""
	case *ssa.Parameter:
		if isString(x.Type()) {
			return "bytes of the string " + x.Name() + " reach it without folding"
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return "the rune " + x.Name() + " reaches it without folding"
		}
		return ""
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := rawText(e, fold, seen); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Convert:
		return rawText(x.X, fold, seen)
	case *ssa.ChangeType:
		return rawText(x.X, fold, seen)
	case *ssa.Slice:
		return rawText(x.X, fold, seen)
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			if s := rawStores(ref, x, fold, seen); s != "" {
				return s
			}
		}
		return ""
	case *ssa.UnOp:
		return rawText(x.X, fold, seen)
	case *ssa.FieldAddr:
		return rawText(x.X, fold, seen)
	case *ssa.Field:
		return rawText(x.X, fold, seen)
	case *ssa.IndexAddr:
		return rawText(x.X, fold, seen)
	case *ssa.Index:
		return rawText(x.X, fold, seen)
	case *ssa.Lookup:
		return rawText(x.X, fold, seen)
	case *ssa.BinOp:
		if s := rawText(x.X, fold, seen); s != "" {
			return s
		}
		return rawText(x.Y, fold, seen)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return rawText(rg.X, fold, seen)
			}
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return rawCall(call, fold, seen)
		}
		return rawText(x.Tuple, fold, seen)
	case *ssa.MakeSlice:
		return ""
	case *ssa.Call:
		return rawCall(x, fold, seen)
	}
	return "depends on " + v.String() + " (undecided)"
}

func rawStores(ref ssa.Instruction, a ssa.Value, fold map[*ssa.Function]bool, seen map[ssa.Value]bool) string {
	switch ref := ref.(type) {
	case *ssa.Store:
		if ref.Addr == a {
			return rawText(ref.Val, fold, seen)
		}
	case *ssa.IndexAddr:
		for _, r2 := range *ref.Referrers() {
			if s := rawStores(r2, ref, fold, seen); s != "" {
				return s
			}
		}
	case *ssa.FieldAddr:
		for _, r2 := range *ref.Referrers() {
			if s := rawStores(r2, ref, fold, seen); s != "" {
				return s
			}
		}
	}
	return ""
}

func rawCall(call *ssa.Call, fold map[*ssa.Function]bool, seen map[ssa.Value]bool) string {
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range call.Call.Args {
				if s := rawText(a, fold, seen); s != "" {
					return s
				}
			}
		}
		return ""
	}
	g := call.Call.StaticCallee()
	if g == nil {
		return "depends on a dynamic call (undecided)"
	}
	if fold[g] {
		// Buffer arguments continue the trace; runes and strings are folded.
		for _, a := range call.Call.Args {
			if _, ok := a.Type().Underlying().(*types.Slice); ok {
				if s := rawText(a, fold, seen); s != "" {
					return s
				}
			}
		}
		return ""
	}
	if g.String() == "unicode/utf8.DecodeRuneInString" || len(g.Blocks) == 0 {
		for _, a := range call.Call.Args {
			if s := rawText(a, fold, seen); s != "" {
				return s
			}
		}
		return ""
	}
	// A helper: its result, with parameters traced into the arguments.
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, res := range ret.Results {
			switch t := res.Type().Underlying().(type) {
			case *types.Basic:
				if t.Info()&types.IsString == 0 {
					continue
				}
			case *types.Slice:
			default:
				continue
			}
			if s := rawText(res, fold, map[ssa.Value]bool{}); s != "" {
				// Parameters that are themselves untainted at the call are fine.
				ok := true
				for _, a := range call.Call.Args {
					if rawText(a, fold, map[ssa.Value]bool{}) != "" {
						ok = false
					}
				}
				if !ok {
					return "through " + shortFn(g) + ": " + s
				}
			}
		}
	}
	for _, a := range call.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			if s := rawText(a, fold, seen); s != "" {
				return s
			}
		}
	}
	return ""
}

// rewrites checks the canonical rewrite table.
func (c *splitCheck) rewrites() {
	p := c.w.SPkg[matchPath]
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		sl, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		st, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok || st.NumFields() != 2 || !isString(st.Field(0).Type()) || !isString(st.Field(1).Type()) {
			continue
		}
		rows, info, ok := c.w.tableRows(g)
		if !ok {
			c.r.bad("rewrite-table", g.Name(), c.w.Pos(g.Pos()), "the table is not a constant literal")
			continue
		}
		to := map[string]string{}
		type row struct{ x, y, pos string }
		var rs []row
		for _, rw := range rows {
			x, ok1 := constString(info, structField(info, rw.val, 0))
			y, ok2 := constString(info, structField(info, rw.val, 1))
			if !ok1 || !ok2 {
				c.r.bad("rewrite-table", g.Name(), c.w.Pos(rw.val.Pos()), "entry is not constant")
				continue
			}
			rs = append(rs, row{x, y, c.w.Pos(rw.val.Pos())})
		}
		for _, e := range rs {
			c.r.Counts["rewrites"]++
			prev, dup := to[e.y]
			c.r.check(!dup, "rewrite-functional", e.y, e.pos, "rewritten to one word only; also to "+prev)
			to[e.y] = e.x
			c.r.check(e.x == strings.ToLower(e.x) && e.y == strings.ToLower(e.y) && e.x != "" && e.y != "", "rewrite-folded", e.x+" "+e.y, e.pos, "both words are in folded form, as the lookup sees them")
			for _, o := range rs {
				c.r.check(e.x != o.y, "rewrite-no-chain", e.x+" <- "+e.y, e.pos, "the replacement is not itself rewritten")
			}
		}
	}
	_ = constant.String
}

// splitArgs: what is split is the caller's text or pattern itself, or a piece
// of it, at every call of the splitting entry points.
func (c *splitCheck) splitArgs(entries ...*ssa.Function) {
	isEntry := map[*ssa.Function]bool{}
	for _, f := range entries {
		isEntry[f] = true
	}
	callers := map[*ssa.Function][]*ssa.Call{}
	for _, path := range []string{rootPath, matchPath} {
		for _, f := range AllFuncs(c.w.SPkg[path]) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil {
						callers[call.Call.StaticCallee()] = append(callers[call.Call.StaticCallee()], call)
					}
				}
			}
		}
	}
	seen := map[ssa.Value]bool{}
	var origin func(v ssa.Value, depth int) string
	origin = func(v ssa.Value, depth int) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		if depth > 40 {
			return "too deep to follow"
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.FreeVar, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Next:
			return ""
		case *ssa.Parameter:
			f := x.Parent()
			i := paramIndex(x)
			for _, call := range callers[f] {
				if i < len(call.Call.Args) {
					if s := origin(call.Call.Args[i], depth+1); s != "" {
						return s
					}
				}
			}
			return ""
		case *ssa.Phi:
			for _, e := range x.Edges {
				if s := origin(e, depth+1); s != "" {
					return s
				}
			}
			return ""
		case *ssa.Slice:
			return origin(x.X, depth+1)
		case *ssa.Convert:
			return origin(x.X, depth+1)
		case *ssa.ChangeType:
			return origin(x.X, depth+1)
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				return c.originCall(call, x.Index, origin, depth)
			}
			return ""
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range nonDebugRefs(al) {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						if s := origin(st.Val, depth+1); s != "" {
							return s
						}
					}
				}
			}
			return ""
		case *ssa.Call:
			return c.originCall(x, 0, origin, depth)
		case *ssa.BinOp:
			return "is put together from parts (" + c.w.instrPos(x) + ")"
		}
		return "is not the given text (undecided)"
	}
	for _, f := range entries {
		for _, call := range callers[f] {
			c.r.Counts["calls of the splitting entry points"]++
			why := origin(call.Call.Args[len(call.Call.Args)-1], 0)
			c.r.check(why == "", "text-as-given", shortFn(call.Parent())+" calls "+shortFn(f), c.w.instrPos(call), orText(why, "the text split is the given text or a piece of it"))
		}
	}
}

func (c *splitCheck) originCall(call *ssa.Call, res int, origin func(ssa.Value, int) string, depth int) string {
	f := call.Call.StaticCallee()
	if f == nil {
		return ""
	}
	switch f.String() {
	case "strings.TrimSpace", "strings.Clone", "strings.Cut", "bytes.TrimSpace", "bytes.Clone":
		return origin(call.Call.Args[0], depth+1)
	}
	if len(f.Blocks) == 0 || f.Pkg == nil || c.w.SPkg[f.Pkg.Pkg.Path()] != f.Pkg {
		return "is changed by " + f.String() + " at " + c.w.instrPos(call) + " in this role only"
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(ret.Results) {
			if s := origin(ret.Results[res], depth+1); s != "" {
				return s
			}
		}
	}
	return ""
}
