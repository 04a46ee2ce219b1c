package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Provenance: where a value comes from, as a term over access paths.
//
// A frame is one place in the tree of calls below a root function, so that a
// value inside a helper is described in terms of what its callers passed.

type pframe struct {
	fn     *ssa.Function
	parent *pframe
	call   ssa.CallInstruction // in parent
	id     int
	depth  int
	kids   map[ssa.CallInstruction]*pframe
}

type pterm struct {
	op   string // const, field, elem, lookup, deref, addr, result, phi, alloc, param, op, leaf
	name string
	args []*pterm
	v    ssa.Value
	fr   *pframe
	k    int
	str  string
}

func (t *pterm) key() string {
	if t.str != "" {
		return t.str
	}
	var b strings.Builder
	b.WriteString(t.op)
	if t.name != "" {
		b.WriteString(":" + t.name)
	}
	if t.v != nil {
		fmt.Fprintf(&b, "#%p@%d.%d", t.v, t.fr.id, t.k)
	}
	if len(t.args) > 0 {
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.key())
		}
		b.WriteByte(')')
	}
	t.str = b.String()
	return t.str
}

// String is a readable form for reports.
func (t *pterm) String() string {
	switch t.op {
	case "const":
		return t.name
	case "field":
		return t.args[0].String() + "." + t.name[strings.LastIndex(t.name, ".")+1:]
	case "elem":
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case "lookup":
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case "deref":
		return t.args[0].String()
	case "addr":
		return "&" + t.args[0].String()
	}
	if t.v != nil {
		n := t.v.Name()
		switch v := t.v.(type) {
		case *ssa.Call:
			n = "result of " + calleeName(v)
		case *ssa.Alloc:
			if v.Comment != "" {
				n = v.Comment
			}
		case *ssa.Phi:
			if v.Comment != "" {
				n = v.Comment
			}
		case *ssa.BinOp:
			n = "a computed value (" + v.Op.String() + ")"
		}
		return n
	}
	return t.op
}

func calleeName(c *ssa.Call) string {
	if f := c.Call.StaticCallee(); f != nil {
		return f.Name()
	}
	return c.Call.Value.Name()
}

type prov struct {
	w      *World
	pkgs   map[*ssa.Package]bool // functions of these packages are followed
	next   int
	memo   map[string]*pterm
	nodes  []*pframe
	opaque func(*ssa.Function) bool // functions not followed
}

func newProv(w *World, paths ...string) *prov {
	p := &prov{w: w, pkgs: map[*ssa.Package]bool{}, memo: map[string]*pterm{}}
	for _, x := range paths {
		p.pkgs[w.SPkg[x]] = true
	}
	return p
}

// tree builds the frames below root. Recursive calls are not followed.
func (p *prov) tree(root *ssa.Function) *pframe {
	fr := &pframe{fn: root, id: p.id(), kids: map[ssa.CallInstruction]*pframe{}}
	p.nodes = append(p.nodes, fr)
	p.grow(fr)
	return fr
}

func (p *prov) id() int { p.next++; return p.next }

func (p *prov) grow(fr *pframe) {
	if fr.depth > 7 || p.next > 4000 {
		return
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || len(g.Blocks) == 0 || !p.pkgs[funcPkg(g)] || p.opaque != nil && p.opaque(g) {
				continue
			}
			rec := false
			for x := fr; x != nil; x = x.parent {
				rec = rec || x.fn == g
			}
			if rec {
				continue
			}
			k := &pframe{fn: g, parent: fr, call: c, id: p.id(), depth: fr.depth + 1, kids: map[ssa.CallInstruction]*pframe{}}
			fr.kids[c] = k
			p.nodes = append(p.nodes, k)
			p.grow(k)
		}
	}
}

func funcPkg(f *ssa.Function) *ssa.Package {
	for f.Pkg == nil && f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg
}

func mkTerm(op, name string, args ...*pterm) *pterm {
	return &pterm{op: op, name: name, args: args}
}

func leaf(op string, v ssa.Value, fr *pframe, k int) *pterm {
	return &pterm{op: op, v: v, fr: fr, k: k}
}

// fieldOf names field i of the struct type (or pointer to struct) t.
func fieldName(t types.Type, i int) string {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	name := t.String()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return name + "." + st.Field(i).Name()
}

func derefTerm(t *pterm) *pterm {
	if t.op == "addr" {
		return t.args[0]
	}
	return mkTerm("deref", "", t)
}

func addrTerm(t *pterm) *pterm {
	if t.op == "deref" {
		return t.args[0]
	}
	return mkTerm("addr", "", t)
}

// norm describes v, as seen in frame fr.
func (p *prov) norm(v ssa.Value, fr *pframe) *pterm {
	key := fmt.Sprintf("%p@%d", v, fr.id)
	if t := p.memo[key]; t != nil {
		return t
	}
	p.memo[key] = leaf("leaf", v, fr, 0) // cycles end here
	t := p.norm1(v, fr)
	p.memo[key] = t
	return t
}

func (p *prov) norm1(v ssa.Value, fr *pframe) *pterm {
	switch v := v.(type) {
	case *ssa.Const:
		return mkTerm("const", v.String())
	case *ssa.ChangeType:
		return p.norm(v.X, fr)
	case *ssa.Convert:
		if isInt(v.X.Type()) && isInt(v.Type()) || types.Identical(v.X.Type().Underlying(), v.Type().Underlying()) {
			return p.norm(v.X, fr)
		}
		return &pterm{op: "op", name: "convert", args: []*pterm{p.norm(v.X, fr)}, v: v, fr: fr}
	case *ssa.Parameter:
		if fr.call != nil {
			for i, q := range fr.fn.Params {
				if q == v && i < len(fr.call.Common().Args) {
					return p.norm(fr.call.Common().Args[i], fr.parent)
				}
			}
		}
		return leaf("param", v, fr, 0)
	case *ssa.Global:
		return addrTerm(mkTerm("global", v.String()))
	case *ssa.Field:
		return p.fieldTerm(p.norm(v.X, fr), fieldName(v.X.Type(), v.Field), v.Field)
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc:
		return addrTerm(p.place(v, fr))
	case *ssa.Index:
		return mkTerm("elem", "", p.norm(v.X, fr), p.norm(v.Index, fr))
	case *ssa.Lookup:
		if !v.CommaOk {
			return &pterm{op: "lookup", args: []*pterm{p.norm(v.X, fr), p.norm(v.Index, fr)}}
		}
		return leaf("tuple", v, fr, 0)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return p.content(p.place(v.X, fr))
		}
		return &pterm{op: "op", name: v.Op.String(), v: v, fr: fr}
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok {
			if v.Index == 0 {
				return &pterm{op: "lookup", args: []*pterm{p.norm(l.X, fr), p.norm(l.Index, fr)}, v: l, fr: fr}
			}
			return leaf("ok", l, fr, 0)
		}
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return p.result(c, v.Index, fr)
		}
		return leaf("leaf", v, fr, 0)
	case *ssa.Call:
		return p.result(v, 0, fr)
	case *ssa.Phi:
		var same *pterm
		for _, e := range v.Edges {
			if e == ssa.Value(v) {
				continue
			}
			t := p.norm(e, fr)
			if t.v == ssa.Value(v) && t.fr == fr {
				continue
			}
			if same != nil && same.key() != t.key() {
				return leaf("phi", v, fr, 0)
			}
			same = t
		}
		if same == nil || mentions(same, v) {
			return leaf("phi", v, fr, 0)
		}
		return same
	case *ssa.BinOp:
		return leaf("op", v, fr, 0)
	case *ssa.Slice:
		if v.Low == nil && v.High == nil && v.Max == nil {
			if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
				return p.norm(v.X, fr)
			}
		}
		return leaf("slice", v, fr, 0)
	}
	return leaf("leaf", v, fr, 0)
}

func mentions(t *pterm, v ssa.Value) bool {
	if t.v == v {
		return true
	}
	for _, a := range t.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// result describes result k of a call.
func (p *prov) result(c *ssa.Call, k int, fr *pframe) *pterm {
	kid := fr.kids[c]
	if kid == nil {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return &pterm{op: "len", v: c, fr: fr}
		}
		return leaf("result", c, fr, k)
	}
	rets := returnsOf(kid.fn)
	if n := 0; len(rets) == 1 && k < len(rets[0].Results) {
		// A value returned along with whether it was found stays tied to it.
		if n = len(rets[0].Results); n > 1 && k < n-1 && isBoolType(rets[0].Results[n-1].Type()) {
			return leaf("result", c, fr, k)
		}
		return p.norm(rets[0].Results[k], kid)
	}
	return leaf("result", c, fr, k)
}

func returnsOf(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if b == f.Recover {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// place describes the memory an address refers to.
func (p *prov) place(v ssa.Value, fr *pframe) *pterm {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		// The field of a local variable with a single whole value is the
		// field of that value.
		return mkTerm("field", fieldName(v.X.Type(), v.Field), p.place(v.X, fr)).withField(v.Field)
	case *ssa.IndexAddr:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return mkTerm("elem", "", p.place(v.X, fr), p.norm(v.Index, fr))
		}
		return mkTerm("elem", "", p.norm(v.X, fr), p.norm(v.Index, fr))
	case *ssa.Alloc:
		return leaf("alloc", v, fr, 0)
	}
	return derefTerm(p.norm(v, fr))
}

func (t *pterm) withField(i int) *pterm { t.k = i; return t }

// content describes what is stored at a place.
func (p *prov) content(t *pterm) *pterm {
	switch t.op {
	case "field":
		return p.fieldTerm(p.content(t.args[0]), t.name, t.k)
	case "alloc":
		whole, fields, esc := p.allocStores(t.v.(*ssa.Alloc))
		if !esc && len(whole) == 1 && len(fields) == 0 {
			return p.norm(whole[0].Val, t.fr)
		}
	}
	return t
}

// fieldTerm is field f of the value t.
func (p *prov) fieldTerm(t *pterm, f string, k int) *pterm {
	if t.op == "alloc" {
		vals, ok := p.fieldStores(t, k)
		if ok && len(vals) == 1 {
			return vals[0]
		}
	}
	return mkTerm("field", f, t).withField(k)
}

// fieldStores lists what field k of a local variable may hold.
func (p *prov) fieldStores(t *pterm, k int) ([]*pterm, bool) {
	al := t.v.(*ssa.Alloc)
	whole, fields, esc := p.allocStores(al)
	if esc {
		return nil, false
	}
	var out []*pterm
	et := al.Type().Underlying().(*types.Pointer).Elem()
	for _, s := range whole {
		out = append(out, p.fieldTerm(p.norm(s.Val, t.fr), fieldName(et, k), k))
	}
	for _, s := range fields[k] {
		out = append(out, p.norm(s.Val, t.fr))
	}
	return out, true
}

// allocStores lists the stores to a local variable, whole and per field;
// esc reports that it may be written in some other way.
func (p *prov) allocStores(al *ssa.Alloc) (whole []*ssa.Store, fields map[int][]*ssa.Store, esc bool) {
	fields = map[int][]*ssa.Store{}
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == ssa.Value(al) {
				whole = append(whole, u)
			} else {
				esc = true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, x := range *u.Referrers() {
				switch x := x.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(u) {
						fields[u.Field] = append(fields[u.Field], x)
					} else {
						esc = true
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
					// an array or struct within: its own contents only
				default:
					esc = esc || !readOnlyUse(x, u, map[ssa.Value]bool{})
				}
			}
		default:
			esc = esc || !readOnlyUse(u, al, map[ssa.Value]bool{})
		}
	}
	return
}

// readOnlyUse reports whether the instruction, which uses the address v, only reads through it.
func readOnlyUse(in ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool) bool {
	switch in := in.(type) {
	case *ssa.UnOp, *ssa.DebugRef:
		return true
	case *ssa.FieldAddr:
		return readOnlyPtr(in, seen)
	case *ssa.IndexAddr:
		return readOnlyPtr(in, seen)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if b == v && !readOnlyPtr(fn.FreeVars[i], seen) {
				return false
			}
		}
		return true
	case ssa.CallInstruction:
		g := in.Common().StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return false
		}
		for i, a := range in.Common().Args {
			if a == v && (i >= len(g.Params) || !readOnlyPtr(g.Params[i], seen)) {
				return false
			}
		}
		return true
	}
	return false
}

func readOnlyPtr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		if !readOnlyUse(u, v, seen) {
			return false
		}
	}
	return true
}

// An origin is one place a value can come from, and under what results of
// calls and merges (the path taken back to it).
type origin struct {
	t   *pterm
	via []via
}

type via struct {
	t    *pterm // the merge or the call
	edge int    // which edge
	ret  *ssa.Return
	fr   *pframe // frame of the returned values
}

// origins resolves merges, calls with several returns and variables with
// several stores.
func (p *prov) origins(t *pterm) []origin {
	var out []origin
	seen := map[string]bool{}
	var walk func(t *pterm, vs []via)
	walk = func(t *pterm, vs []via) {
		if len(out) > 200 {
			return
		}
		exps, ok := p.expand(t)
		if !ok {
			out = append(out, origin{t, vs})
			return
		}
		if seen[t.key()] {
			return
		}
		seen[t.key()] = true
		for _, e := range exps {
			walk(e.t, append(append([]via(nil), vs...), e.via...))
		}
	}
	walk(t, nil)
	return out
}

// expand gives the terms a term may be one step back.
func (p *prov) expand(t *pterm) ([]origin, bool) {
	switch t.op {
	case "phi":
		phi := t.v.(*ssa.Phi)
		var out []origin
		for i, e := range phi.Edges {
			out = append(out, origin{p.norm(e, t.fr), []via{{t: t, edge: i}}})
		}
		return out, true
	case "result":
		kid := t.fr.kids[t.v.(ssa.CallInstruction)]
		if kid == nil {
			return nil, false
		}
		var out []origin
		for i, r := range returnsOf(kid.fn) {
			if t.k < len(r.Results) {
				out = append(out, origin{p.norm(r.Results[t.k], kid), []via{{t: t, edge: i, ret: r, fr: kid}}})
			}
		}
		return out, true
	case "alloc":
		whole, fields, esc := p.allocStores(t.v.(*ssa.Alloc))
		if esc || len(fields) > 0 || len(whole) == 0 {
			return nil, false
		}
		var out []origin
		for _, s := range whole {
			out = append(out, origin{p.norm(s.Val, t.fr), nil})
		}
		return out, true
	case "field":
		if t.args[0].op == "alloc" {
			vals, ok := p.fieldStores(t.args[0], t.k)
			if !ok || len(vals) == 0 {
				return nil, false
			}
			var out []origin
			for _, v := range vals {
				out = append(out, origin{v, nil})
			}
			return out, true
		}
		in, ok := p.expand(t.args[0])
		if !ok {
			return nil, false
		}
		var out []origin
		for _, o := range in {
			out = append(out, origin{p.fieldTerm(o.t, t.name, t.k), o.via})
		}
		return out, true
	case "deref":
		in, ok := p.expand(t.args[0])
		if !ok {
			return nil, false
		}
		var out []origin
		for _, o := range in {
			out = append(out, origin{p.content(derefTerm(o.t)), o.via})
		}
		return out, true
	case "elem":
		in, ok := p.expand(t.args[0])
		if !ok {
			return nil, false
		}
		var out []origin
		for _, o := range in {
			out = append(out, origin{mkTerm("elem", "", o.t, t.args[1]), o.via})
		}
		return out, true
	}
	return nil, false
}

// loopAround returns the natural loop of the innermost loop header around b, if any.
func loopAround(b *ssa.BasicBlock) (head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	for _, h := range b.Parent().Blocks {
		isHead := false
		for _, q := range h.Preds {
			isHead = isHead || h.Dominates(q)
		}
		if !isHead {
			continue
		}
		l := naturalLoop(h)
		if !l[b] {
			continue
		}
		if body == nil || len(l) < len(body) {
			head, body = h, l
		}
	}
	return
}

// fullRange reports whether idx runs over 0..len(s)-1, one by one, in the loop
// with the given header, for the sequence s the term of which is given.
func (p *prov) fullRange(head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, idx ssa.Value, fr *pframe) (seq *pterm, ok bool) {
	start, step, good := inductionVar(idx)
	if !good || step != 1 {
		return nil, false
	}
	first := int64(0)
	if _, isB := idx.(*ssa.BinOp); isB {
		first = -1 // the counter is stepped before it is used
	}
	if !isConstInt(start, first) {
		return nil, false
	}
	// The loop's only normal exit: idx < len(s) fails at the header.
	iff, isIf := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false
	}
	cmp, isCmp := iff.Cond.(*ssa.BinOp)
	if !isCmp {
		return nil, false
	}
	x, y := cmp.X, cmp.Y
	op := cmp.Op
	if op == token.GTR {
		x, y, op = y, x, token.LSS
	}
	if op != token.LSS && op != token.NEQ || x != idx || !body[head.Succs[0]] || body[head.Succs[1]] {
		return nil, false
	}
	s := lenOf(y)
	if s == nil {
		return nil, false
	}
	return p.norm(s, fr), true
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && isInt(c.Type()) && c.Int64() == n
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
