package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = checkC08
}

type attr struct {
	w *World
	r *Report
	p *prov
	// outer: headers of loops around the construct being decided
	outer map[*ssa.BasicBlock]bool
}

// around notes the loops that a block of a frame is in.
func (a *attr) around(b *ssa.BasicBlock, fr *pframe) {
	a.outer = map[*ssa.BasicBlock]bool{}
	for fr != nil {
		for _, h := range b.Parent().Blocks {
			for _, q := range h.Preds {
				if h.Dominates(q) && naturalLoop(h)[b] {
					a.outer[h] = true
				}
			}
		}
		if fr.call == nil {
			break
		}
		b, fr = fr.call.Block(), fr.parent
	}
}

// C08: each match carries the ID and Type of the license that matched.
func checkC08(w *World, r *Report) {
	r.Rule = "Provenance over access paths, through helpers: the ID and Type of every reported match come from one entry, which is the one at the position of the pattern that matched or the one listed for the URL that matched; the list of compiled patterns and the list of licenses are built in step; the program, the DFA and the match carry the pattern's position unchanged."
	a := &attr{w: w, r: r}
	a.results()
	a.lists()
	a.compiled()
	a.carried()
	a.old()
}

func (a *attr) undecided(what, why string) {
	a.r.bad("anchors", what, "-", why+" (undecided)")
}

func (a *attr) name(fr *pframe) string { return fr.fn.RelString(nil) }

func frameName(fr *pframe) string {
	s := fr.fn.RelString(fr.fn.Pkg.Pkg)
	return s
}

// structPtr returns the named struct an address points to.
func isPtrToNamed(t types.Type, pkg, name string) bool {
	q, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(q.Elem(), pkg, name)
}

// builds groups the stores to fields of the given struct type in a frame by
// the place written.
type build struct {
	place *pterm
	fr    *pframe
	sets  map[string][]*ssa.Store
	first *ssa.Store
}

func (a *attr) builds(fr *pframe, pkg, typ string) []*build {
	by := map[string]*build{}
	var order []string
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isPtrToNamed(fa.X.Type(), pkg, typ) {
				continue
			}
			pl := a.p.place(fa.X, fr)
			k := pl.key()
			if by[k] == nil {
				by[k] = &build{place: pl, fr: fr, sets: map[string][]*ssa.Store{}, first: st}
				order = append(order, k)
			}
			f := fieldName(fa.X.Type(), fa.Field)
			f = f[strings.LastIndex(f, ".")+1:]
			by[k].sets[f] = append(by[k].sets[f], st)
		}
	}
	var out []*build
	for _, k := range order {
		out = append(out, by[k])
	}
	return out
}

// knownTrue reports that the condition v holds whenever block b of the same function runs.
func knownTrue(b *ssa.BasicBlock, v ssa.Value, want bool) bool {
	for _, c := range b.Parent().Blocks {
		iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, val := iff.Cond, true
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, val = u.X, !val
		}
		if cond != v {
			continue
		}
		i := 0
		if val != want {
			i = 1
		}
		if dominatesEdge(c, c.Succs[i], b) {
			return true
		}
	}
	return false
}

// blockIn gives the block of frame at that is running when block b of frame fr runs.
func blockIn(b *ssa.BasicBlock, fr, at *pframe) *ssa.BasicBlock {
	for ; fr != nil; fr = fr.parent {
		if fr == at {
			return b
		}
		if fr.call != nil {
			b = fr.call.Block()
		}
	}
	return nil
}

// found decides whether an origin reached through a call or merge is excluded
// by the found/ok result known at the use. It returns "" when the origin can
// occur, a reason when it cannot.
func (a *attr) excluded(o origin, b *ssa.BasicBlock, fr *pframe) bool {
	for _, v := range o.via {
		switch {
		case v.ret != nil:
			// A return with a constant false in its last result, where that
			// result is known to be true.
			call := v.t.v.(*ssa.Call)
			last := len(v.ret.Results) - 1
			if last < 1 || !isBoolType(v.ret.Results[last].Type()) {
				continue
			}
			if !a.falseAt(v.ret.Results[last]) {
				continue
			}
			ub := blockIn(b, fr, v.t.fr)
			if ub == nil {
				// the use is not below the call: through a return of the
				// function making the call
				for _, w := range o.via {
					if w.ret != nil && w.fr == v.t.fr {
						ub = w.ret.Block()
					}
				}
			}
			if ub == nil {
				continue
			}
			for _, u := range *call.Referrers() {
				if ex, ok := u.(*ssa.Extract); ok && ex.Index == last && knownTrue(ub, ex, true) {
					return true
				}
			}
			// Handed on together: return f(x)
			for _, w := range o.via {
				if w.ret != nil && w.fr == v.t.fr {
					l2 := len(w.ret.Results) - 1
					if ex, ok := w.ret.Results[l2].(*ssa.Extract); ok && ex.Tuple == ssa.Value(call) && ex.Index == last {
						if a.callKnown(w, l2, b, fr, o) {
							return true
						}
					}
				}
			}
		case v.t.op == "phi":
			phi := v.t.v.(*ssa.Phi)
			ub := blockIn(b, fr, v.t.fr)
			for _, in := range phi.Block().Instrs {
				q, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isBoolType(q.Type()) && a.falseAt(q.Edges[v.edge]) {
					if ub != nil && knownTrue(ub, q, true) {
						return true
					}
					for _, w := range o.via {
						if w.ret != nil && w.fr == v.t.fr {
							l2 := len(w.ret.Results) - 1
							if w.ret.Results[l2] == ssa.Value(q) && a.callKnown(w, l2, b, fr, o) {
								return true
							}
							if knownTrue(w.ret.Block(), q, true) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// callKnown: result k of the call w goes back to is known true at the use.
func (a *attr) callKnown(w via, k int, b *ssa.BasicBlock, fr *pframe, o origin) bool {
	call := w.t.v.(*ssa.Call)
	ub := blockIn(b, fr, w.t.fr)
	if ub == nil {
		for _, x := range o.via {
			if x.ret != nil && x.fr == w.t.fr {
				ub = x.ret.Block()
				l2 := len(x.ret.Results) - 1
				if ex, ok := x.ret.Results[l2].(*ssa.Extract); ok && ex.Tuple == ssa.Value(call) && ex.Index == k {
					return a.callKnown(x, l2, b, fr, o)
				}
			}
		}
	}
	if ub == nil {
		return false
	}
	for _, u := range *call.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == k && knownTrue(ub, ex, true) {
			return true
		}
	}
	return false
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// falseAt: v is the constant false.
func (a *attr) falseAt(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value)
}

// lookupKnown: a comma-ok lookup's ok result is known true where it is used:
// at the use, or at the return through which the value left its function, or
// it is the found result returned along with it.
func (a *attr) lookupKnown(o origin, b *ssa.BasicBlock, fr *pframe) bool {
	l, ok := o.t.v.(*ssa.Lookup)
	if !ok {
		return false
	}
	var oks []ssa.Value
	for _, u := range *l.Referrers() {
		if ex, isE := u.(*ssa.Extract); isE && ex.Index == 1 {
			oks = append(oks, ex)
		}
	}
	at := func(blk *ssa.BasicBlock) bool {
		if blk == nil {
			return false
		}
		for _, v := range oks {
			if knownTrue(blk, v, true) {
				return true
			}
		}
		return false
	}
	if at(blockIn(b, fr, o.t.fr)) {
		return true
	}
	for _, v := range o.via {
		if v.ret != nil && v.fr == o.t.fr {
			if at(v.ret.Block()) {
				return true
			}
			last := len(v.ret.Results) - 1
			for _, okv := range oks {
				if v.ret.Results[last] == okv && a.callKnown(v, last, b, fr, o) {
					return true
				}
			}
			// the found result merged along with the value
			if q, isPhi := v.ret.Results[last].(*ssa.Phi); isPhi && a.callKnown(v, last, b, fr, o) {
				for _, e := range q.Edges {
					for _, okv := range oks {
						if e == okv {
							return true
						}
					}
				}
			}
		}
		if v.t.op == "phi" && v.t.fr == o.t.fr {
			phi := v.t.v.(*ssa.Phi)
			if at(phi.Block().Preds[v.edge]) {
				return true
			}
			for _, in := range phi.Block().Instrs {
				q, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				for _, okv := range oks {
					if q.Edges[v.edge] == okv && (at(phi.Block()) || knownTrue(orBlock(blockIn(b, fr, o.t.fr), phi.Block()), q, true)) {
						return true
					}
				}
			}
		}
	}
	return false
}

func orBlock(b, c *ssa.BasicBlock) *ssa.BasicBlock {
	if b != nil {
		return b
	}
	return c
}

// results: the ID and Type of each reported match.
func (a *attr) results() {
	scan := a.w.Method(rootPath, "Scanner", "Scan")
	if scan == nil {
		a.undecided("Scanner.Scan", "method not found")
		return
	}
	a.p = newProv(a.w, rootPath)
	a.p.tree(scan)
	n := 0
	for _, fr := range a.p.nodes {
		for _, b := range a.builds(fr, rootPath, "Match") {
			pos := a.w.Pos(b.first.Pos())
			ids, typs := b.sets["ID"], b.sets["Type"]
			if len(ids) == 0 && len(typs) == 0 {
				if b.place.op == "alloc" && a.wholeSet(b.place.v.(*ssa.Alloc)) {
					continue // a copy of a match with other fields changed
				}
				if b.place.op != "alloc" {
					continue
				}
				a.r.bad("match-entry", frameName(fr), pos, "a match is built without the ID and Type of a license")
				continue
			}
			pairs := [][2]*ssa.Store{}
			ok := len(ids) == len(typs)
			for _, i := range ids {
				found := false
				for _, t := range typs {
					if len(ids) == 1 && len(typs) == 1 || i.Block() == t.Block() {
						pairs = append(pairs, [2]*ssa.Store{i, t})
						found = true
						break
					}
				}
				ok = ok && found
			}
			if !ok {
				a.r.bad("match-entry", frameName(fr), pos, "ID and Type of a match are not set together")
				continue
			}
			for _, pr := range pairs {
				n++
				id := a.p.norm(pr[0].Val, fr)
				a.entry(fr, pr[0].Block(), id, a.p.norm(pr[1].Val, fr), a.w.Pos(pr[0].Pos()))
				if len(pairs) == 1 {
					a.span(fr, b, id, a.w.Pos(pr[0].Pos()))
				}
			}
		}
	}
	a.r.Counts["matches built"] = n
	a.r.Minimums["matches built"] = 2
	// The table of URLs: each entry under its own URL.
	k := 0
	for _, f := range AllFuncs(a.w.SPkg[rootPath]) {
		fr := &pframe{fn: f, id: a.p.id(), kids: map[ssa.CallInstruction]*pframe{}}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mt, ok := mu.Map.Type().Underlying().(*types.Map)
				if !ok || !isNamed(derefType(mt.Elem()), rootPath, "License") || !isString(mt.Key()) {
					continue
				}
				k++
				frs := a.callers(f, fr)
				for _, c := range frs {
					v := a.p.norm(mu.Value, c)
					if v.op == "addr" {
						v = v.args[0]
					}
					key := a.p.norm(mu.Key, c)
					want := a.fieldNamed(v, "URL")
					okk := want != nil && key.key() == want.key()
					a.r.check(okk, "url-entry", frameName(fr), a.w.instrPos(in), fmt.Sprintf("the entry stored for a URL is the one listing it: [%s] = %s", key, v))
				}
			}
		}
	}
	a.r.Counts["URL table updates"] = k
	a.r.Minimums["URL table updates"] = 1
}

func derefType(t types.Type) types.Type {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		return q.Elem()
	}
	return t
}

// callers gives one frame per static call of f when f is unexported and takes
// parameters, so that its parameters have values; otherwise fr itself.
func (a *attr) callers(f *ssa.Function, fr *pframe) []*pframe {
	var out []*pframe
	if len(f.Params) > 0 && f.Object() != nil && !f.Object().Exported() {
		for _, g := range AllFuncs(f.Pkg) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if ok && c.Common().StaticCallee() == f {
						up := &pframe{fn: g, id: a.p.id(), kids: map[ssa.CallInstruction]*pframe{}}
						out = append(out, &pframe{fn: f, parent: up, call: c, id: a.p.id(), kids: map[ssa.CallInstruction]*pframe{}})
					}
				}
			}
		}
	}
	if len(out) == 0 {
		out = []*pframe{fr}
	}
	return out
}

func (a *attr) wholeSet(al *ssa.Alloc) bool {
	whole, _, _ := a.p.allocStores(al)
	return len(whole) > 0
}

// entry decides one (ID, Type) pair.
func (a *attr) entry(fr *pframe, b *ssa.BasicBlock, id, typ *pterm, pos string) {
	where := frameName(fr)
	pairs := a.pairs(id, typ, 0)
	for _, pr := range pairs {
		i, t := pr[0].t, pr[1].t
		o := pr[0]
		if i.op != "field" || t.op != "field" || i.args[0].key() != t.args[0].key() {
			if a.excluded(o, b, fr) {
				continue
			}
			a.r.bad("match-entry", where, pos, fmt.Sprintf("ID is %s but Type is %s: not the same entry", i, t))
			continue
		}
		if !strings.HasSuffix(i.name, ".ID") || !strings.HasSuffix(t.name, ".Type") {
			a.r.bad("match-entry", where, pos, fmt.Sprintf("ID is %s and Type is %s", i, t))
			continue
		}
		a.r.ok("match-entry", where, pos, fmt.Sprintf("ID and Type are those of %s", i.args[0]))
		for _, q := range a.p.origins(i.args[0]) {
			q.via = append(append([]via(nil), o.via...), q.via...)
			a.base(fr, b, q, pos)
		}
	}
}

// reads lists the values of a struct type (by access path) that v depends on.
func (a *attr) reads(v ssa.Value, fr *pframe, pkg, typ string, out map[string]*pterm, seen map[string]bool) {
	if v == nil {
		return
	}
	k := fmt.Sprintf("%p@%d", v, fr.id)
	if seen[k] {
		return
	}
	seen[k] = true
	switch x := v.(type) {
	case *ssa.Field:
		if isNamed(x.X.Type(), pkg, typ) {
			t := a.canon(a.p.norm(x.X, fr))
			out[t.key()] = t
			return
		}
	case *ssa.FieldAddr:
		if isPtrToNamed(x.X.Type(), pkg, typ) {
			t := a.canon(a.p.place(x.X, fr))
			out[t.key()] = t
			return
		}
	case *ssa.Parameter:
		if fr.call != nil {
			for i, q := range fr.fn.Params {
				if q == x {
					a.reads(fr.call.Common().Args[i], fr.parent, pkg, typ, out, seen)
				}
			}
		}
		return
	case *ssa.Call:
		if a.readsResult(x, 0, fr, pkg, typ, out, seen) {
			return
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && a.readsResult(c, x.Index, fr, pkg, typ, out, seen) {
			return
		}
	}
	if phi, ok := v.(*ssa.Phi); ok {
		// What an earlier round of the loop left is of an earlier match.
		for i, e := range phi.Edges {
			if !phi.Block().Dominates(phi.Block().Preds[i]) || !a.outer[phi.Block()] {
				a.reads(e, fr, pkg, typ, out, seen)
			}
		}
		return
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			a.reads(*op, fr, pkg, typ, out, seen)
		}
	}
}

// readsResult follows a result of a helper into it.
func (a *attr) readsResult(c *ssa.Call, i int, fr *pframe, pkg, typ string, out map[string]*pterm, seen map[string]bool) bool {
	kid := fr.kids[c]
	if kid == nil {
		return false
	}
	for _, b := range kid.fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			a.reads(ret.Results[i], kid, pkg, typ, out, seen)
		}
	}
	return true
}

// canon is the value a local variable was first given, if it was given one.
func (a *attr) canon(t *pterm) *pterm {
	for d := 0; d < 8 && t.op == "alloc"; d++ {
		whole, _, _ := a.p.allocStores(t.v.(*ssa.Alloc))
		if len(whole) != 1 {
			break
		}
		t = a.p.norm(whole[0].Val, t.fr)
	}
	return t
}

// linear form of an integer: coefficients by the key of what it is made of.
func (a *attr) linear(v ssa.Value, fr *pframe, c int64, out map[string]int64, depth int) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && isInt(x.Type()) {
			out[""] += c * x.Int64()
			return
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) && isInt(x.Type()) {
			a.linear(x.X, fr, c, out, depth)
			return
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isInt(x.Type()) {
			a.linear(x.X, fr, c, out, depth)
			a.linear(x.Y, fr, c, out, depth)
			return
		}
		if x.Op == token.SUB {
			a.linear(x.X, fr, c, out, depth)
			a.linear(x.Y, fr, -c, out, depth)
			return
		}
	case *ssa.Parameter:
		if fr.call != nil && depth < 8 {
			for i, q := range fr.fn.Params {
				if q == x {
					a.linear(fr.call.Common().Args[i], fr.parent, c, out, depth+1)
					return
				}
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && fr.kids[call] != nil && depth < 8 {
			kid := fr.kids[call]
			if rets := returnsOf(kid.fn); len(rets) == 1 {
				a.linear(rets[0].Results[x.Index], kid, c, out, depth+1)
				return
			}
		}
	}
	out[a.p.norm(v, fr).key()] += c
}

func linString(m map[string]int64) string {
	var ks []string
	for k, c := range m {
		if c != 0 {
			ks = append(ks, fmt.Sprintf("%d*%s", c, k))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

// bytesAt finds the part of the scanned text a string is: [lo, hi) as linear forms.
func (a *attr) bytesAt(v ssa.Value, fr *pframe) (lo, hi map[string]int64, ok bool) {
	for d := 0; d < 12; d++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Parameter:
			moved := false
			if fr.call != nil {
				for i, q := range fr.fn.Params {
					if q == x {
						v, fr, moved = fr.call.Common().Args[i], fr.parent, true
						break
					}
				}
			}
			if moved {
				continue
			}
			if hi == nil {
				return nil, nil, false
			}
			return lo, hi, true // the text itself
		case *ssa.Slice:
			l := map[string]int64{}
			if x.Low != nil {
				a.linear(x.Low, fr, 1, l, 0)
			}
			if hi == nil {
				if x.High == nil {
					return nil, nil, false
				}
				lo, hi = map[string]int64{}, map[string]int64{}
				a.linear(x.High, fr, 1, hi, 0)
				for k, c := range l {
					lo[k] += c
				}
			} else {
				for k, c := range l {
					lo[k] += c
					hi[k] += c
				}
			}
			v = x.X
			continue
		}
		break
	}
	return nil, nil, false
}

// span: the extent reported is that of the match or URL the entry is for.
func (a *attr) span(fr *pframe, b *build, id *pterm, pos string) {
	if id.op != "field" || len(b.sets["Start"]) != 1 || len(b.sets["End"]) != 1 {
		return
	}
	where := frameName(fr)
	base := id.args[0]
	if base.op == "deref" {
		base = base.args[0]
	}
	for base.op == "addr" {
		base = base.args[0]
	}
	start, end := b.sets["Start"][0], b.sets["End"][0]
	switch base.op {
	case "elem":
		want := base.args[1]
		if want.op != "field" {
			return
		}
		m := a.canon(want.args[0])
		a.around(start.Block(), fr)
		for _, st := range []*ssa.Store{start, end} {
			got := map[string]*pterm{}
			a.reads(st.Val, fr, matchPath, "Match", got, map[string]bool{})
			good := len(got) > 0
			for k := range got {
				good = good && k == m.key()
			}
			a.r.check(good, "match-span", where, a.w.Pos(st.Pos()), "the extent reported is that of the pattern match whose license is reported")
		}
	case "result":
		c, ok := base.v.(*ssa.Call)
		if !ok {
			return
		}
		for _, arg := range c.Call.Args {
			if !isString(arg.Type()) && arg.Type().String() != "[]byte" {
				continue
			}
			lo, hi, ok := a.bytesAt(arg, base.fr)
			if !ok {
				continue
			}
			s, e := map[string]int64{}, map[string]int64{}
			a.linear(start.Val, fr, 1, s, 0)
			a.linear(end.Val, fr, 1, e, 0)
			a.r.check(linString(s) == linString(lo) && linString(e) == linString(hi), "match-span", where, pos, "the extent reported for a URL is that of the text looked up")
		}
	}
}

// pairs resolves two terms together, merge by merge.
func (a *attr) pairs(x, y *pterm, depth int) [][2]origin {
	same := x.op == y.op && x.v != nil && x.v == y.v && x.fr == y.fr
	if depth < 6 && !(x.op == "field" && y.op == "field" && x.args[0].key() == y.args[0].key()) {
		if x.op == "phi" && y.op == "phi" && x.fr == y.fr && x.v.(*ssa.Phi).Block() == y.v.(*ssa.Phi).Block() ||
			x.op == "result" && y.op == "result" && same {
			ex, ok1 := a.p.expand(x)
			ey, ok2 := a.p.expand(y)
			if ok1 && ok2 && len(ex) == len(ey) {
				var out [][2]origin
				for i := range ex {
					for _, pr := range a.pairs(ex[i].t, ey[i].t, depth+1) {
						pr[0].via = append(append([]via(nil), ex[i].via...), pr[0].via...)
						out = append(out, pr)
					}
				}
				return out
			}
		}
	}
	return [][2]origin{{{t: x}, {t: y}}}
}

// base decides where the entry a match is attributed to comes from.
func (a *attr) base(fr *pframe, b *ssa.BasicBlock, o origin, pos string) {
	where := frameName(fr)
	t := o.t
	if t.op == "deref" {
		t = t.args[0]
	}
	switch t.op {
	case "const", "alloc":
		if t.op == "alloc" {
			whole, fields, esc := a.p.allocStores(t.v.(*ssa.Alloc))
			if esc || len(whole) > 0 || len(fields) > 0 {
				break
			}
		}
		a.r.check(a.excluded(o, b, fr), "match-entry-known", where, pos, "a match is not reported from an empty entry (the lookup is known to have found one)")
		return
	case "elem":
		s, x := t.args[0], t.args[1]
		if s.op == "field" && isScannerField(s.name) {
			bad := ""
			for _, xo := range a.p.origins(x) {
				if xo.t.op == "field" && strings.HasSuffix(xo.t.name, "internal/match.Match.ID") {
					continue
				}
				bad = xo.t.String()
			}
			a.r.check(bad == "", "match-position", where, pos, fmt.Sprintf("the entry is the one at the position of the pattern that matched: %s %s", t, bad))
			return
		}
	case "leaf":
		// An entry met while looking through the table of URLs.
		if ex, ok := t.v.(*ssa.Extract); ok && ex.Index == 2 {
			if nx, ok := ex.Tuple.(*ssa.Next); ok && !nx.IsString {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					s := a.p.norm(rg.X, t.fr)
					if s.op == "field" && isScannerField(s.name) {
						a.r.ok("match-url", where, pos, "the entry is one in the table of URLs")
						return
					}
				}
			}
		}
	case "lookup":
		s := t.args[0]
		if s.op == "field" && isScannerField(s.name) {
			if t.v != nil {
				a.r.check(a.lookupKnown(origin{t, o.via}, b, fr), "match-entry-known", where, pos, "the URL lookup is known to have found the entry")
			}
			a.r.ok("match-url", where, pos, fmt.Sprintf("the entry is the one listed for the URL: %s", t))
			return
		}
	}
	if a.excluded(o, b, fr) {
		return
	}
	a.r.bad("match-source", where, pos, fmt.Sprintf("the entry a match is attributed to is %s, which is neither the entry of the pattern that matched nor that of the URL that matched (undecided)", t))
}

func isScannerField(name string) bool {
	return strings.HasPrefix(name, rootPath+".Scanner.")
}

// ---- the lists built in step ----

// A seqFlow is how a sequence value comes to be.
type seqFlow struct {
	appends []seqAppend
	other   []*pterm
	values  map[string]bool
}

type seqAppend struct {
	fr   *pframe
	call *ssa.Call
}

// flowOf walks back from a slice value through merges, calls, returns and appends.
func (a *attr) flowOf(v ssa.Value, fr *pframe, self string) *seqFlow {
	fl := &seqFlow{values: map[string]bool{}}
	var walk func(v ssa.Value, fr *pframe)
	walk = func(v ssa.Value, fr *pframe) {
		k := fmt.Sprintf("%p@%d", v, fr.id)
		if fl.values[k] {
			return
		}
		fl.values[k] = true
		switch v := v.(type) {
		case *ssa.Const:
			return
		case *ssa.MakeSlice:
			if isConstInt(v.Len, 0) {
				return
			}
		case *ssa.Slice:
			if al, ok := v.X.(*ssa.Alloc); ok && v.Low == nil {
				at, _ := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				if at != nil && (at.Len() == 0 || v.High != nil && isConstInt(v.High, 0)) {
					return
				}
			}
			if v.Low == nil && v.High != nil && isConstInt(v.High, 0) {
				return // s[:0]
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, fr)
			}
			return
		case *ssa.Parameter:
			if fr.call != nil {
				for i, q := range fr.fn.Params {
					if q == v {
						walk(fr.call.Common().Args[i], fr.parent)
					}
				}
				return
			}
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				if kid := fr.kids[c]; kid != nil {
					for _, r := range returnsOf(kid.fn) {
						walk(r.Results[v.Index], kid)
					}
					return
				}
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				pl := a.p.place(v.X, fr)
				if self != "" && pl.op == "field" && pl.name == self {
					return // the field itself: its other stores are walked on their own
				}
				if pl.op == "alloc" {
					whole, fields, esc := a.p.allocStores(pl.v.(*ssa.Alloc))
					if !esc && len(fields) == 0 {
						for _, s := range whole {
							walk(s.Val, pl.fr)
						}
						return
					}
				}
				if pl.op == "field" && pl.args[0].op == "alloc" {
					// a field of a local struct (a builder)
					al := pl.args[0].v.(*ssa.Alloc)
					_, fields, esc := a.p.allocStores(al)
					if !esc {
						for _, s := range fields[pl.k] {
							walk(s.Val, pl.args[0].fr)
						}
						return
					}
				}
				if pl.op == "field" {
					n := 0
					for _, f2 := range a.p.nodes {
						for _, b := range f2.fn.Blocks {
							for _, in := range b.Instrs {
								if st, ok := in.(*ssa.Store); ok {
									if sp := a.fieldPlace(st.Addr, f2); sp != nil && sp.name == pl.name {
										walk(st.Val, f2)
										n++
									}
								}
							}
						}
					}
					if n > 0 {
						return
					}
				}
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				fl.appends = append(fl.appends, seqAppend{fr, v})
				walk(v.Call.Args[0], fr)
				return
			}
			if kid := fr.kids[v]; kid != nil {
				for _, r := range returnsOf(kid.fn) {
					walk(r.Results[0], kid)
				}
				return
			}
		}
		fl.other = append(fl.other, a.p.norm(v, fr))
	}
	walk(v, fr)
	return fl
}

func (a *attr) fieldPlace(addr ssa.Value, fr *pframe) *pterm {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	return mkTerm("field", fieldName(fa.X.Type(), fa.Field), a.p.place(fa.X, fr)).withField(fa.Field)
}

// appended lists the values one append call adds; nil when it adds a whole slice.
func appended(c *ssa.Call) []ssa.Value {
	if len(c.Call.Args) != 2 {
		return nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out = make([]ssa.Value, at.Len())
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, x := range *ia.Referrers() {
			if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				out[c.Int64()] = st.Val
			}
		}
	}
	for _, v := range out {
		if v == nil {
			return nil
		}
	}
	return out
}

// lists: Scanner.licenses and the list of patterns given to NewMultiLRE.
func (a *attr) lists() {
	newS := a.w.Func(rootPath, "NewScanner")
	multi := a.w.Func(matchPath, "NewMultiLRE")
	if newS == nil || multi == nil {
		a.undecided("NewScanner", "NewScanner or NewMultiLRE not found")
		return
	}
	a.p = newProv(a.w, rootPath)
	a.p.tree(newS)
	inTree := map[*ssa.Function]bool{}
	for _, fr := range a.p.nodes {
		inTree[fr.fn] = true
	}
	// Everything that builds a scanner is below NewScanner.
	var self string
	for _, f := range AllFuncs(a.w.SPkg[rootPath]) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == multi && !inTree[f] {
					a.r.bad("lists-anchor", f.RelString(f.Pkg.Pkg), a.w.instrPos(in), "patterns are compiled outside NewScanner's call tree (undecided)")
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isPtrToNamed(fa.X.Type(), rootPath, "Scanner") && isSliceOf(st.Val.Type(), rootPath, "License") {
						self = fieldName(fa.X.Type(), fa.Field)
						if !inTree[f] {
							a.r.bad("lists-anchor", f.RelString(f.Pkg.Pkg), a.w.instrPos(in), "the scanner's licenses are set outside NewScanner's call tree")
						}
					}
				}
			}
		}
	}
	if self == "" {
		a.undecided("Scanner's licenses", "no store of a []License to a field of Scanner found")
		return
	}
	// The two sequences.
	var lic, pat *seqFlow
	var multiAt *pframe
	var multiCall ssa.CallInstruction
	merge := func(x, y *seqFlow) *seqFlow {
		if x == nil {
			return y
		}
		for k := range y.values {
			x.values[k] = true
		}
		have := map[string]bool{}
		for _, s := range x.appends {
			have[fmt.Sprintf("%p%d", s.call, s.fr.id)] = true
		}
		for _, s := range y.appends {
			if !have[fmt.Sprintf("%p%d", s.call, s.fr.id)] {
				x.appends = append(x.appends, s)
			}
		}
		x.other = append(x.other, y.other...)
		return x
	}
	for _, fr := range a.p.nodes {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fp := a.fieldPlace(in.Addr, fr); fp != nil && fp.name == self {
						lic = merge(lic, a.flowOf(in.Val, fr, self))
					}
				case *ssa.Call:
					if in.Call.StaticCallee() == multi {
						pat = merge(pat, a.flowOf(in.Call.Args[0], fr, ""))
						multiAt, multiCall = fr, in
					}
				}
			}
		}
	}
	if lic == nil || pat == nil {
		a.undecided("Scanner", "the lists of licenses and patterns were not found")
		return
	}
	a.untouched(lic, pat, self)
	for _, o := range pat.other {
		a.r.bad("lists-in-step", "list of patterns", a.posOf(o), "part of the list of patterns comes from "+o.String()+" (undecided)")
	}
	if len(pat.appends) == 0 {
		a.r.bad("lists-in-step", "list of patterns", "-", "no pattern is ever added to the list (undecided)")
		return
	}
	// The loop in which patterns are added.
	pa := pat.appends[0]
	lf, head, body := a.loopOf(pa.fr, pa.call.Block())
	if lf == nil {
		a.r.bad("lists-in-step", frameName(pa.fr), a.w.Pos(pa.call.Pos()), "patterns are not added in a loop (undecided)")
		return
	}
	ev := map[ssa.Instruction]string{}
	isEv := map[string]seqAppend{}
	reg := func(kind string, s seqAppend) {
		isEv[fmt.Sprintf("%p@%d", s.call, s.fr.id)] = s
		ev[s.call] = kind
	}
	for _, s := range pat.appends {
		reg("pattern", s)
	}
	inLoop := 0
	for _, s := range lic.appends {
		reg("license", s)
		if b := blockIn(s.call.Block(), s.fr, lf); b != nil && body[b] {
			inLoop++
		}
	}
	pw := &pathWalk{a: a, ev: ev, isEv: isEv, head: head, body: body, loopFr: lf}
	pw.target(multiAt, multiCall.(ssa.Instruction))
	iters := pw.iterations()
	a.r.Counts["paths through one step of the list-building loop"] = len(iters)
	a.r.Minimums["paths through one step of the list-building loop"] = 1
	where, pos := frameName(lf), a.w.Pos(pa.call.Pos())
	if pw.failed != "" {
		a.r.bad("lists-in-step", where, pos, pw.failed+" (undecided)")
		return
	}
	if inLoop > 0 {
		for _, o := range lic.other {
			a.r.bad("lists-in-step", where, a.posOf(o), "part of the list of licenses comes from "+o.String()+" (undecided)")
		}
		if inLoop != len(lic.appends) {
			a.r.bad("lists-in-step", where, pos, "licenses are added to the scanner outside the loop that adds patterns")
		}
	} else {
		// The patterns are made from the finished list of licenses.
		whole := false
		for _, b := range lf.fn.Blocks {
			if !body[b] {
				continue
			}
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok {
					seq, full := a.p.fullRange(head, body, ia.Index, lf)
					if !full {
						continue
					}
					if a.isLicenses(seq, lic, self) && a.p.norm(ia.X, lf).key() == seq.key() {
						whole = true
						pw.elem = mkTerm("elem", "", seq, a.p.norm(ia.Index, lf))
					}
				}
			}
		}
		a.r.check(whole, "lists-in-step", where, pos, "patterns are added in a loop over all the scanner's licenses, or in the loop that adds those")
		if !whole {
			return
		}
	}
	for _, it := range iters {
		var ls, ps []*pathEvent
		for _, e := range it.events {
			if e.kind == "license" {
				ls = append(ls, e)
			} else {
				ps = append(ps, e)
			}
		}
		if it.exit == "return-error" {
			continue
		}
		how := "to the next license"
		if it.exit != "" {
			how = "leaving the loop"
		}
		if inLoop == 0 {
			if it.exit != "" {
				a.r.check(it.exit == "header" && len(ps) == 0, "lists-in-step", where, pos, "the loop over the scanner's licenses is not left early")
				continue
			}
			a.r.check(len(ps) == 1, "lists-in-step", where, pos, fmt.Sprintf("each license adds one pattern (%d on a path %s)", len(ps), how))
			if len(ps) == 1 {
				a.textOf(ps[0], pw.elem, pos)
			}
			continue
		}
		a.r.check(len(ls) == len(ps) && len(ls) <= 1, "lists-in-step", where, pos, fmt.Sprintf("a step adds as many licenses (%d) as patterns (%d) on each path %s", len(ls), len(ps), how))
		if len(ls) == 1 && len(ps) == 1 {
			a.textOf(ps[0], a.p.norm(ls[0].val, ls[0].fr), pos)
			a.unmixed(a.p.norm(ls[0].val, ls[0].fr), pos)
		}
	}
}

func (a *attr) posOf(t *pterm) string {
	if t.v != nil {
		return a.w.Pos(t.v.Pos())
	}
	return "-"
}

func isSliceOf(t types.Type, pkg, name string) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), pkg, name)
}

func (a *attr) isLicenses(t *pterm, lic *seqFlow, self string) bool {
	if t.op == "field" && t.name == self {
		return true
	}
	if t.v != nil && t.fr != nil {
		return lic.values[fmt.Sprintf("%p@%d", t.v, t.fr.id)]
	}
	for _, o := range lic.other {
		if o.key() == t.key() {
			return true
		}
	}
	return false
}

// fieldNamed is the named field of the License t.
func (a *attr) fieldNamed(t *pterm, name string) *pterm {
	lt := a.w.SPkg[rootPath].Type("License")
	if lt == nil {
		return nil
	}
	st, ok := lt.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return a.p.fieldTerm(t, fieldName(lt.Type(), i), i)
		}
	}
	return nil
}

// unmixed: a local copy of a license has no field set from another license.
func (a *attr) unmixed(t *pterm, pos string) {
	if t.op != "alloc" {
		return
	}
	whole, fields, _ := a.p.allocStores(t.v.(*ssa.Alloc))
	own := map[string]bool{t.key(): true}
	for _, s := range whole {
		own[a.p.norm(s.Val, t.fr).key()] = true
	}
	for _, ss := range fields {
		for _, s := range ss {
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value) string
			walk = func(v ssa.Value) string {
				if seen[v] || v == nil {
					return ""
				}
				seen[v] = true
				var base *pterm
				switch x := v.(type) {
				case *ssa.Field:
					if isNamed(x.X.Type(), rootPath, "License") {
						base = a.p.norm(x.X, t.fr)
					}
				case *ssa.FieldAddr:
					if isPtrToNamed(x.X.Type(), rootPath, "License") {
						base = a.p.place(x.X, t.fr)
					}
				}
				if base != nil {
					if !own[base.key()] {
						return base.String()
					}
					return ""
				}
				in, ok := v.(ssa.Instruction)
				if !ok {
					return ""
				}
				for _, op := range in.Operands(nil) {
					if bad := walk(*op); bad != "" {
						return bad
					}
				}
				return ""
			}
			bad := walk(s.Val)
			a.r.check(bad == "" || len(whole) == 0, "license-unmixed", frameName(t.fr), a.w.Pos(s.Pos()), "no field of a license is set from another license "+bad)
		}
	}
}

// textOf: the pattern added is parsed from the LRE text of the license entry.
func (a *attr) textOf(e *pathEvent, entry *pterm, pos string) {
	if entry.op == "addr" {
		entry = entry.args[0]
	}
	for _, o := range a.p.origins(a.p.norm(e.val, e.fr)) {
		if o.t.op == "const" {
			continue
		}
		c, ok := o.t.v.(*ssa.Call)
		if o.t.op != "result" || !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee() != a.w.Func(matchPath, "ParseLRE") {
			a.r.bad("pattern-of-license", frameName(e.fr), pos, "a pattern in the list is "+o.t.String()+", not a parsed license (undecided)")
			continue
		}
		txt := a.p.norm(c.Call.Args[2], o.t.fr)
		want := a.fieldNamed(entry, "LRE")
		a.r.check(want != nil && txt.key() == want.key(), "pattern-of-license", frameName(e.fr), a.w.Pos(c.Pos()), fmt.Sprintf("the pattern added with license %s is parsed from that license's text (%s)", entry, txt))
	}
}

// untouched: neither list is reordered or otherwise changed after being built.
func (a *attr) untouched(lic, pat *seqFlow, self string) {
	isList := func(v ssa.Value, fr *pframe) string {
		k := fmt.Sprintf("%p@%d", v, fr.id)
		if pat.values[k] {
			return "patterns"
		}
		if lic.values[k] {
			return "licenses"
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			pl := a.p.place(u.X, fr)
			if pl.op == "field" && pl.name == self {
				return "licenses"
			}
			if pl.op == "alloc" {
				whole, _, _ := a.p.allocStores(pl.v.(*ssa.Alloc))
				for _, s := range whole {
					k := fmt.Sprintf("%p@%d", s.Val, pl.fr.id)
					if pat.values[k] {
						return "patterns"
					}
					if lic.values[k] {
						return "licenses"
					}
				}
			}
		}
		return ""
	}
	for _, fr := range a.p.nodes {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if _, isC := (*op).(*ssa.Const); isC {
						continue
					}
					what := isList(*op, fr)
					if what == "" {
						continue
					}
					bad := ""
					switch in := in.(type) {
					case *ssa.Phi, *ssa.Store, *ssa.Return, *ssa.DebugRef, *ssa.ChangeType, *ssa.Extract, *ssa.If, *ssa.BinOp, *ssa.FieldAddr, *ssa.UnOp:
					case *ssa.IndexAddr:
						if !readOnlyPtr(in, map[ssa.Value]bool{}) {
							bad = "an element is changed"
						}
					case *ssa.Slice:
						if !(in.Low == nil && in.High == nil) && !(in.High != nil && isConstInt(in.High, 0)) {
							bad = "it is resliced"
						}
					case *ssa.MakeInterface:
						bad = "it is handed to other code"
					case ssa.CallInstruction:
						c := in.Common()
						if bi, ok := c.Value.(*ssa.Builtin); ok {
							if bi.Name() == "copy" && c.Args[0] == *op {
								bad = "it is copied over"
							}
							break
						}
						if call, ok := in.(*ssa.Call); ok && fr.kids[call] != nil {
							break
						}
						if g := c.StaticCallee(); g != nil && g == a.w.Func(matchPath, "NewMultiLRE") {
							break
						}
						if g := c.StaticCallee(); g != nil {
							bad = "it is handed to " + g.Name()
						} else {
							bad = "it is handed to other code"
						}
					}
					if bad != "" {
						a.r.bad("lists-untouched", frameName(fr), a.w.instrPos(in), "the list of "+what+": "+bad+" (undecided)")
					}
				}
			}
		}
	}
	a.r.ok("lists-untouched", "NewScanner", "-", "uses of the two lists: appended to, read, and handed to NewMultiLRE")
}

// loopOf finds the innermost loop around a block, in its own frame or a calling one.
func (a *attr) loopOf(fr *pframe, b *ssa.BasicBlock) (*pframe, *ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	for fr != nil {
		if h, body := loopAround(b); h != nil {
			return fr, h, body
		}
		if fr.call == nil {
			return nil, nil, nil
		}
		b, fr = fr.call.Block(), fr.parent
	}
	return nil, nil, nil
}

// ---- paths through one step of a loop, helpers included ----

type pathEvent struct {
	kind string
	fr   *pframe
	val  ssa.Value
}

type path struct {
	events []*pathEvent
	exit   string // "" back to the header; "header", "exit", "return", "return-error"
	errs   map[string]bool
}

type pathWalk struct {
	a      *attr
	ev     map[ssa.Instruction]string
	isEv   map[string]seqAppend
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	loopFr *pframe
	reach  map[*ssa.BasicBlock]bool // blocks of the loop's function from which the consumer is reached
	elem   *pterm
	failed string
	n      int
}

// target marks the blocks of the loop's function from which the call at in (in frame fr) follows.
func (w *pathWalk) target(fr *pframe, in ssa.Instruction) {
	w.reach = map[*ssa.BasicBlock]bool{}
	b := blockIn(in.Block(), fr, w.loopFr)
	if b == nil {
		// The consumer is outside: every return may reach it.
		for _, r := range returnsOf(w.loopFr.fn) {
			w.mark(r.Block())
		}
		return
	}
	w.mark(b)
}

func (w *pathWalk) mark(b *ssa.BasicBlock) {
	if w.reach[b] {
		return
	}
	w.reach[b] = true
	for _, p := range b.Preds {
		w.mark(p)
	}
}

func (w *pathWalk) iterations() []path {
	ps := w.walk(w.loopFr, w.head, nil, path{errs: map[string]bool{}}, map[*ssa.BasicBlock]bool{}, true)
	return ps
}

// hasEvents reports whether any event is at or below the frame.
func (w *pathWalk) hasEvents(fr *pframe) bool {
	for _, s := range w.isEv {
		for x := s.fr; x != nil; x = x.parent {
			if x == fr {
				return true
			}
		}
	}
	return false
}

func (p path) clone() path {
	q := path{exit: p.exit, errs: map[string]bool{}}
	q.events = append(q.events, p.events...)
	for k, v := range p.errs {
		q.errs[k] = v
	}
	return q
}

// walk follows the paths from block b; inLoop says that b is in the loop being stepped through.
func (w *pathWalk) walk(fr *pframe, b, from *ssa.BasicBlock, p path, seen map[*ssa.BasicBlock]bool, top bool) []path {
	w.n++
	if w.n > 20000 {
		w.failed = "too many paths"
		return nil
	}
	if seen[b] {
		// An inner loop: going around again must not add anything.
		return nil
	}
	s2 := map[*ssa.BasicBlock]bool{b: true}
	for k := range seen {
		s2[k] = true
	}
	cur := []path{p}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			if _, isEv := w.isEv[fmt.Sprintf("%p@%d", in, fr.id)]; isEv {
				vals := appended(in)
				kind := w.ev[in]
				if vals == nil {
					w.failed = "several elements are added to the list of " + kind + "s at once"
					return nil
				}
				if h, body := loopAround(b); h != nil && (!top || h != w.head) && !(top && len(body) > len(w.body)) {
					w.failed = "the list of " + kind + "s grows in an inner loop"
					return nil
				}
				for i := range cur {
					cur[i] = cur[i].clone()
					for _, v := range vals {
						cur[i].events = append(cur[i].events, &pathEvent{kind, fr, v})
					}
				}
				continue
			}
			kid := fr.kids[in]
			if kid == nil || !w.hasEvents(kid) {
				continue
			}
			var next []path
			for _, c := range cur {
				for _, q := range w.walk(kid, kid.fn.Blocks[0], nil, c.clone(), map[*ssa.BasicBlock]bool{}, false) {
					key := fmt.Sprintf("%p@%d", in, fr.id)
					switch q.exit {
					case "return-error":
						q.errs[key] = true
					case "return-ok":
						q.errs[key] = false
					}
					q.exit = ""
					next = append(next, q)
				}
			}
			cur = next
		case *ssa.Return:
			for i := range cur {
				cur[i] = cur[i].clone()
				cur[i].exit = w.outcome(in, fr, cur[i])
			}
			return cur
		case *ssa.Panic:
			return nil
		}
	}
	var out []path
	for _, c := range cur {
		for i, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if w.pruned(iff, i, fr, c) {
					continue
				}
			}
			n := c.clone()
			w.learn(b, i, fr, &n)
			if top {
				if s == w.head {
					n.exit = ""
					out = append(out, n)
					continue
				}
				if !w.body[s] {
					// Out of the loop.
					if !w.reach[s] {
						n.exit = "return-error"
					} else if b == w.head {
						n.exit = "header"
					} else {
						n.exit = w.afterExit(fr, s, n)
					}
					out = append(out, n)
					continue
				}
			}
			out = append(out, w.walk(fr, s, b, n, s2, top)...)
		}
	}
	return out
}

// afterExit: where the code after an early exit of the loop leads.
func (w *pathWalk) afterExit(fr *pframe, s *ssa.BasicBlock, p path) string {
	if r, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
		if w.outcome(r, fr, p) == "return-error" {
			return "return-error"
		}
		return "return"
	}
	return "exit"
}

// nilTest decodes v == nil / v != nil.
func nilTest(cond ssa.Value) (v ssa.Value, nilIs bool, ok bool) {
	val := true
	for {
		u, isU := cond.(*ssa.UnOp)
		if !isU || u.Op != token.NOT {
			break
		}
		cond, val = u.X, !val
	}
	b, isB := cond.(*ssa.BinOp)
	if !isB || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, false, false
	}
	x, y := b.X, b.Y
	if c, isC := x.(*ssa.Const); isC && c.IsNil() {
		x, y = y, x
	}
	c, isC := y.(*ssa.Const)
	if !isC || !c.IsNil() {
		return nil, false, false
	}
	return x, (b.Op == token.EQL) == val, true
}

func (w *pathWalk) errKey(v ssa.Value, fr *pframe) string {
	switch v := v.(type) {
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return fmt.Sprintf("%p@%d", c, fr.id)
		}
	case *ssa.Call:
		return fmt.Sprintf("%p@%d", v, fr.id)
	}
	return fmt.Sprintf("%p@%d", v, fr.id)
}

func (w *pathWalk) pruned(iff *ssa.If, i int, fr *pframe, p path) bool {
	v, nilIs, ok := nilTest(iff.Cond)
	if !ok || !isErrorType(v.Type()) {
		return false
	}
	isErr, known := p.errs[w.errKey(v, fr)]
	if !known {
		return false
	}
	takesNil := (i == 0) == nilIs
	return takesNil == isErr
}

func (w *pathWalk) learn(b *ssa.BasicBlock, i int, fr *pframe, p *path) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	v, nilIs, ok := nilTest(iff.Cond)
	if !ok || !isErrorType(v.Type()) {
		return
	}
	takesNil := (i == 0) == nilIs
	p.errs[w.errKey(v, fr)] = !takesNil
}

func (w *pathWalk) outcome(r *ssa.Return, fr *pframe, p path) string {
	for _, v := range r.Results {
		if !isErrorType(v.Type()) {
			continue
		}
		switch v := v.(type) {
		case *ssa.Const:
			return "return-ok"
		case *ssa.MakeInterface:
			return "return-error"
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "fmt" || g.Pkg.Pkg.Path() == "errors") {
				return "return-error"
			}
		}
		if isErr, known := p.errs[w.errKey(v, fr)]; known {
			if isErr {
				return "return-error"
			}
			return "return-ok"
		}
	}
	return "return"
}

// ---- the compiled program ----

// compiled: the pattern's position in the list given to NewMultiLRE is the
// argument of its match instructions, and nothing else is changed.
func (a *attr) compiled() {
	multi := a.w.Func(matchPath, "NewMultiLRE")
	if multi == nil {
		return
	}
	a.p = newProv(a.w, matchPath)
	root := a.p.tree(multi)
	var listParam *ssa.Parameter
	for _, q := range multi.Params {
		if s, ok := q.Type().Underlying().(*types.Slice); ok {
			if isNamed(derefType(s.Elem()), matchPath, "LRE") {
				listParam = q
			}
		}
	}
	if listParam == nil {
		a.undecided("NewMultiLRE", "no parameter of type []*LRE")
		return
	}
	list := a.p.norm(listParam, root)
	isMatch := a.instMatchConst()
	if isMatch == nil {
		a.undecided("instMatch", "constant not found")
		return
	}
	// seqs: sequences that follow the list, element by element.
	// elemOf(t) tells whether t is the program of the element at the current
	// position of a full range over the list, and gives that position.
	follow := map[string]func(base *pterm) bool{}
	follow[list.key()] = func(b *pterm) bool { return true }
	n, progs := 0, 0
	type pending struct {
		fr    *pframe
		calls []*ssa.Call
	}
	// (1) Sequences of programs built from the list.
	for _, fr := range a.p.nodes {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := c.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || !isProgs(c.Type()) {
					continue
				}
				progs++
				where, pos := frameName(fr), a.w.Pos(c.Pos())
				head, body := loopAround(b)
				vals := appended(c)
				if head == nil || len(vals) != 1 {
					a.r.bad("programs-in-order", where, pos, "programs are not added one by one in a loop (undecided)")
					continue
				}
				e := a.p.norm(vals[0], fr)
				idx := a.elemIndex(e, list)
				if idx == nil {
					a.r.bad("programs-in-order", where, pos, "the program added is "+e.String()+", not that of the pattern at the loop's position")
					continue
				}
				seq, full := a.p.fullRange(head, body, idx, fr)
				pw := &pathWalk{a: a, ev: map[ssa.Instruction]string{c: "program"}, isEv: map[string]seqAppend{fmt.Sprintf("%p@%d", c, fr.id): {fr, c}}, head: head, body: body, loopFr: fr}
				pw.reach = map[*ssa.BasicBlock]bool{}
				for _, r := range returnsOf(fr.fn) {
					pw.mark(r.Block())
				}
				okAll := full && seq.key() == list.key()
				for _, it := range pw.iterations() {
					switch it.exit {
					case "":
						okAll = okAll && len(it.events) == 1
					case "header":
						okAll = okAll && len(it.events) == 0
					case "return-error":
					default:
						okAll = false
					}
				}
				a.r.check(okAll && pw.failed == "", "programs-in-order", where, pos, "each pattern of the list, in order, adds its own program exactly once")
			}
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || !isProgs(ia.X.Type()) {
					continue
				}
				progs++
				where, pos := frameName(fr), a.w.Pos(st.Pos())
				e := a.p.norm(st.Val, fr)
				idx := a.elemIndex(e, list)
				good := false
				if head, body := loopAround(b); head != nil && idx != nil {
					seq, full := a.p.fullRange(head, body, idx, fr)
					good = full && seq.key() == list.key() && a.p.norm(ia.Index, fr).key() == a.p.norm(idx, fr).key() && dominatesBackEdges(b, head)
				}
				a.r.check(good, "programs-in-order", where, pos, "the program of each pattern is stored at that pattern's position")
			}
		}
	}
	// (2) The instructions of the combined program.
	for _, fr := range a.p.nodes {
		if !a.buildsCombined(fr) {
			continue
		}
		n += a.combine(fr, list, isMatch)
	}
	a.r.Counts["instructions added to the combined program"] = n
	a.r.Minimums["instructions added to the combined program"] = 1
	a.r.Counts["sequences of programs"] = progs
}

func dominatesBackEdges(b, head *ssa.BasicBlock) bool {
	for _, q := range head.Preds {
		if head.Dominates(q) && !b.Dominates(q) {
			return false
		}
	}
	return true
}

func isProgs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), matchPath, "reProg")
}

func isInstSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), matchPath, "reInst")
}

func (a *attr) instMatchConst() constant.Value {
	o := a.w.SPkg[matchPath].Pkg.Scope().Lookup("instMatch")
	if c, ok := o.(*types.Const); ok {
		return c.Val()
	}
	return nil
}

// elemIndex: t is the program of list[i]; gives i.
func (a *attr) elemIndex(t, list *pterm) ssa.Value {
	if t.op == "field" && strings.HasSuffix(t.name, ".LRE.prog") {
		t = t.args[0]
	}
	for t.op == "deref" {
		t = t.args[0]
	}
	if t.op != "elem" {
		return nil
	}
	i := t.args[1]
	if i.v == nil || t.args[0].key() != list.key() && !isProgs2(t.args[0]) {
		return nil
	}
	return i.v
}

func isProgs2(t *pterm) bool {
	return t.v != nil && isProgs(t.v.Type())
}

// buildsCombined: a function that adds to a program instructions taken from
// programs it ranges over.
func (a *attr) buildsCombined(fr *pframe) bool {
	has := false
	for _, q := range fr.fn.Params {
		if isProgs(q.Type()) {
			has = true
		}
		if s, ok := q.Type().Underlying().(*types.Slice); ok && isNamed(derefType(s.Elem()), matchPath, "LRE") {
			has = true
		}
	}
	if !has {
		return false
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && isInstSlice(c.Type()) {
					return true
				}
				if kid := fr.kids[c]; kid != nil && c.Call.StaticCallee() != nil && returnsInsts(c) && takesInsts(c) {
					return true
				}
			}
		}
	}
	return false
}

func returnsInsts(c *ssa.Call) bool {
	if isInstSlice(c.Type()) {
		return true
	}
	return false
}

func takesInsts(c *ssa.Call) bool {
	for _, x := range c.Call.Args {
		if isInstSlice(x.Type()) {
			return true
		}
	}
	return false
}

// combine decides the instructions added while joining the programs.
func (a *attr) combine(fr *pframe, list *pterm, isMatch constant.Value) int {
	n := 0
	// The outer loop: a full range over the programs.
	var frames []*pframe
	var add func(f *pframe)
	add = func(f *pframe) {
		frames = append(frames, f)
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && f.kids[c] != nil && (takesInsts(c) || isNamed(c.Type(), matchPath, "reInst")) {
					add(f.kids[c])
				}
			}
		}
	}
	add(fr)
	patched := false
	for _, f := range frames {
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				// Stores to the argument of an instruction already in a program.
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isPtrToNamed(fa.X.Type(), matchPath, "reInst") {
					continue
				}
				if _, isIA := fa.X.(*ssa.IndexAddr); !isIA {
					continue
				}
				if a.opAt(fa.X, b, f, isMatch) == 1 {
					patched = true
					n++
					a.position(st.Val, f, fr, list, a.w.Pos(st.Pos()))
				}
			}
		}
	}
	for _, f := range frames {
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := c.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || !isInstSlice(c.Type()) {
					continue
				}
				n++
				vals := appended(c)
				pos := a.w.Pos(c.Pos())
				if vals == nil {
					a.r.check(patched, "match-argument", frameName(f), pos, "a program added whole has the argument of its match instructions replaced by the pattern's position")
					continue
				}
				for _, v := range vals {
					a.inst(v, c.Block(), c, f, fr, list, isMatch, patched, pos)
				}
			}
		}
	}
	return n
}

// position: v is the position in the list of the pattern whose program is being added.
func (a *attr) position(v ssa.Value, f, outer *pframe, list *pterm, pos string) {
	for {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
			continue
		}
		if q, ok := v.(*ssa.Parameter); ok && f.call != nil && f != outer {
			moved := false
			for i, x := range f.fn.Params {
				if x == q {
					v, f, moved = f.call.Common().Args[i], f.parent, true
					break
				}
			}
			if moved {
				continue
			}
		}
		break
	}
	good := false
	why := "the argument of a match instruction is not the position of a pattern in the list"
	// The programs joined are the elements, at this position, of the list or of
	// a sequence made from it.
	iv, isI := v.(ssa.Instruction)
	if isI {
		uses := 0
		good = true
		for _, b := range iv.Parent().Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				seq := a.p.norm(ia.X, f)
				if !(seq.key() == list.key() || isProgs(ia.X.Type())) {
					continue
				}
				uses++
				good = good && a.p.norm(ia.Index, f).key() == a.p.norm(v, f).key()
			}
		}
		good = good && uses > 0
	}
	a.r.check(good, "match-argument", frameName(f), pos, map[bool]string{true: "a match instruction carries its pattern's position in the list", false: why}[good])
}

// opAt: what is known of the op field of the instruction at the address, at
// block b: 1 it is instMatch, -1 it is not, 0 unknown.
func (a *attr) opAt(addr ssa.Value, b *ssa.BasicBlock, f *pframe, isMatch constant.Value) int {
	return a.opKnown(a.p.place(addr, f), b, f, isMatch)
}

func (a *attr) opKnown(pl *pterm, b *ssa.BasicBlock, f *pframe, isMatch constant.Value) int {
	want := a.p.content(mkTerm("field", "", pl)) // compare by base
	_ = want
	for _, c := range f.fn.Blocks {
		iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, val := iff.Cond, true
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, val = u.X, !val
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		x, y := bo.X, bo.Y
		k, isK := y.(*ssa.Const)
		if !isK {
			x, y = y, x
			k, isK = y.(*ssa.Const)
		}
		if !isK || k.Value == nil || !a.isOpOf(x, pl, f) {
			continue
		}
		for i, s := range c.Succs {
			if !dominatesEdge(c, s, b) {
				continue
			}
			eq := ((i == 0) == val) == (bo.Op == token.EQL)
			same := constant.Compare(k.Value, token.EQL, isMatch)
			switch {
			case eq && same:
				return 1
			case eq != same:
				return -1
			}
		}
	}
	return 0
}

// isOpOf: x is the op field of the instruction at (or copied from) place pl.
func (a *attr) isOpOf(x ssa.Value, pl *pterm, f *pframe) bool {
	t := a.p.norm(x, f)
	if t.op != "field" || !strings.HasSuffix(t.name, ".reInst.op") {
		return false
	}
	return t.args[0].key() == pl.key() || t.args[0].key() == a.p.content(pl).key() || a.copyOf(pl) == t.args[0].key()
}

// copyOf: a local variable first set from another place: that place.
func (a *attr) copyOf(pl *pterm) string {
	if pl.op != "alloc" {
		return ""
	}
	whole, _, _ := a.p.allocStores(pl.v.(*ssa.Alloc))
	if len(whole) == 1 {
		return a.p.norm(whole[0].Val, pl.fr).key()
	}
	return ""
}

// inst decides one instruction appended to the combined program.
func (a *attr) inst(v ssa.Value, b *ssa.BasicBlock, c *ssa.Call, f, outer *pframe, list *pterm, isMatch constant.Value, patched bool, pos string) {
	where := frameName(f)
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			a.inst(e, x.Block().Preds[i], c, f, outer, list, isMatch, patched, pos)
		}
		return
	case *ssa.Call:
		if kid := f.kids[x]; kid != nil {
			for _, r := range returnsOf(kid.fn) {
				a.inst(r.Results[0], r.Block(), c, kid, outer, list, isMatch, patched, pos)
			}
			return
		}
	case *ssa.Parameter:
		if f.call != nil && f != outer {
			// A copy of what the caller passed: nothing is known of its op there,
			// but the callee may have tested it.
			switch a.opKnown(a.p.norm(v, f), b, f, isMatch) {
			case -1:
				a.r.ok("match-argument", where, pos, "an instruction that is not a match is copied unchanged")
				return
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				a.localInst(al, x, b, f, outer, list, isMatch, patched, pos)
				return
			}
		}
	}
	t := a.p.norm(v, f)
	if a.opKnown(t, b, f, isMatch) == -1 || patched {
		a.r.ok("match-argument", where, pos, "an instruction that is not a match is copied unchanged")
		return
	}
	a.r.bad("match-argument", where, pos, "a match instruction may be added with its argument not set to its pattern's position: "+t.String())
}

// localInst decides an instruction built in, or copied to, a local variable.
func (a *attr) localInst(al *ssa.Alloc, at *ssa.UnOp, b *ssa.BasicBlock, f, outer *pframe, list *pterm, isMatch constant.Value, patched bool, pos string) {
	where := frameName(f)
	whole, fields, esc := a.p.allocStores(al)
	if esc {
		a.r.bad("match-argument", where, pos, "an instruction is built where other code can change it (undecided)")
		return
	}
	st, _ := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	opF, argF := -1, -1
	for i := 0; st != nil && i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "op":
			opF = i
		case "arg":
			argF = i
		}
	}
	if opF < 0 || argF < 0 {
		a.undecided("reInst", "no fields op and arg")
		return
	}
	pl := a.p.place(al, f)
	if len(whole) == 0 {
		// A literal.
		ops := fields[opF]
		if len(ops) == 0 {
			// op 0
			zero := constant.MakeInt64(0)
			if !constant.Compare(zero, token.EQL, isMatch) {
				a.r.ok("match-argument", where, pos, "an instruction that is not a match")
				return
			}
		}
		for _, o := range ops {
			k, isK := o.Val.(*ssa.Const)
			switch {
			case isK && k.Value != nil && !constant.Compare(k.Value, token.EQL, isMatch):
				a.r.ok("match-argument", where, pos, "an instruction that is not a match")
				continue
			case isK && k.Value != nil:
			default:
				// op copied from another instruction
				kn := 0
				if t := a.p.norm(o.Val, f); t.op == "field" {
					kn = a.opKnown(t.args[0], b, f, isMatch)
				}
				if kn == -1 {
					a.r.ok("match-argument", where, pos, "an instruction that is not a match")
					continue
				}
			}
			if len(fields[argF]) == 0 {
				if patched {
					continue
				}
				a.r.bad("match-argument", where, pos, "a match instruction is added without its pattern's position")
				continue
			}
			for _, s := range fields[argF] {
				a.position(s.Val, f, outer, list, pos)
			}
		}
		return
	}
	// A copy: on paths where it is a match its argument must have been replaced.
	if patched {
		a.r.ok("match-argument", where, pos, "an instruction copied, its argument replaced afterwards")
		return
	}
	if k := a.opKnown(pl, b, f, isMatch); k == -1 && len(fields[argF]) == 0 {
		a.r.ok("match-argument", where, pos, "an instruction that is not a match is copied unchanged")
		return
	}
	if len(fields[argF]) == 0 {
		a.r.bad("match-argument", where, pos, "a match instruction is added with its argument not set to its pattern's position")
		return
	}
	for _, s := range fields[argF] {
		k := a.opKnown(pl, s.Block(), f, isMatch)
		if k == -1 {
			a.r.bad("match-argument", where, a.w.Pos(s.Pos()), "the argument of an instruction that is not a match is changed")
			continue
		}
		a.position(s.Val, f, outer, list, a.w.Pos(s.Pos()))
		// Every way to the append on which it is a match goes through the store.
		a.r.check(a.coversMatch(s, al, at, pl, f, isMatch), "match-argument", where, a.w.Pos(s.Pos()), "every match instruction copied has its argument replaced")
	}
}

// coversMatch: the block that sets the argument is the one entered whenever the
// instruction is a match: it is the target of the test itself, and the test is
// on every path from the copy to the append.
func (a *attr) coversMatch(s *ssa.Store, al *ssa.Alloc, at *ssa.UnOp, pl *pterm, f *pframe, isMatch constant.Value) bool {
	if s.Block().Dominates(at.Block()) {
		return true
	}
	for _, q := range s.Block().Preds {
		iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(a.isOpOf(bo.X, pl, f) || a.isOpOf(bo.Y, pl, f)) || !q.Dominates(at.Block()) {
			return false
		}
	}
	return len(s.Block().Preds) > 0
}

// ---- from the DFA to the match ----

// carried: the value in match.Match.ID is one read from the DFA as a state's
// match value, and the values put there are arguments of match instructions.
func (a *attr) carried() {
	find := a.w.Method(matchPath, "MultiLRE", "Match")
	multi := a.w.Func(matchPath, "NewMultiLRE")
	if find == nil || multi == nil {
		a.undecided("MultiLRE.Match", "method not found")
		return
	}
	a.p = newProv(a.w, matchPath)
	a.p.tree(find)
	n := 0
	for _, fr := range a.p.nodes {
		for _, b := range a.builds(fr, matchPath, "Match") {
			for _, st := range b.sets["ID"] {
				n++
				for _, o := range a.p.origins(a.p.norm(st.Val, fr)) {
					good := o.t.op == "const" && strings.HasPrefix(o.t.name, "-1") || a.dfaElem(o.t)
					a.r.check(good, "match-value", frameName(fr), a.w.Pos(st.Pos()), "the match's ID is a match value of the DFA: "+o.t.String())
				}
			}
			if len(b.sets["ID"]) == 0 && (len(b.sets["Start"]) > 0 || len(b.sets["End"]) > 0) && b.place.op == "alloc" && !a.wholeSet(b.place.v.(*ssa.Alloc)) {
				a.r.bad("match-value", frameName(fr), a.w.Pos(b.first.Pos()), "a match is built without the ID of a pattern")
			}
		}
	}
	a.r.Counts["pattern matches built"] = n
	a.r.Minimums["pattern matches built"] = 1
	// The values put into the DFA.
	a.p = newProv(a.w, matchPath)
	a.p.tree(multi)
	seen := 0
	for _, fr := range a.p.nodes {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || !isNamed(ia.X.Type(), matchPath, "reDFA") {
					continue
				}
				arg, oth := 0, 0
				for _, o := range a.p.origins(a.p.norm(st.Val, fr)) {
					switch {
					case o.t.op == "field" && strings.HasSuffix(o.t.name, ".reInst.arg"):
						arg++
					case o.t.op == "const" && strings.HasPrefix(o.t.name, "-1"):
					default:
						oth++
					}
				}
				if arg > 0 && oth == 0 {
					seen++
					a.r.ok("match-value", frameName(fr), a.w.Pos(st.Pos()), "a state's match value is the argument of a match instruction")
				}
			}
		}
	}
	// Appends of the value to the DFA.
	for _, fr := range a.p.nodes {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := c.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || !isNamed(c.Type(), matchPath, "reDFA") {
					continue
				}
				for _, v := range appended(c) {
					arg, oth := 0, 0
					for _, o := range a.p.origins(a.p.norm(v, fr)) {
						switch {
						case o.t.op == "field" && strings.HasSuffix(o.t.name, ".reInst.arg"):
							arg++
						case o.t.op == "const":
						default:
							oth++
						}
					}
					if arg > 0 && oth == 0 {
						seen++
						a.r.ok("match-value", frameName(fr), a.w.Pos(c.Pos()), "a state's match value is the argument of a match instruction")
					}
				}
			}
		}
	}
	a.r.check(seen > 0, "match-value", "reDFA", "-", "the DFA is given the arguments of match instructions, unchanged, as match values")
	// What the state's match value can be: only instMatch arguments.
	for _, fr := range a.p.nodes {
		if fr.fn.Signature.Recv() == nil || fr.fn.Name() != "match" {
			continue
		}
		for _, r := range returnsOf(fr.fn) {
			for _, v := range r.Results {
				if !isInt(v.Type()) {
					continue
				}
				for _, o := range a.p.origins(a.p.norm(v, fr)) {
					good := o.t.op == "const" && strings.HasPrefix(o.t.name, "-1") || o.t.op == "field" && strings.HasSuffix(o.t.name, ".reInst.arg")
					a.r.check(good, "match-value", frameName(fr), a.w.Pos(r.Pos()), "the match value of a set of NFA states is the argument of one of its match instructions: "+o.t.String())
				}
			}
		}
	}
}

// dfaElem: an element of a DFA.
func (a *attr) dfaElem(t *pterm) bool {
	if t.op != "elem" {
		return false
	}
	s := t.args[0]
	if s.op == "field" {
		return strings.HasSuffix(s.name, ".dfa")
	}
	return s.v != nil && isNamed(s.v.Type(), matchPath, "reDFA")
}

var _ = sort.Strings
