package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["B01"] = checkB01
}

// B01: BuiltinLicenses is the whole built-in list.
func checkB01(w *World, r *Report) {
	r.Rule = "Provenance of the list returned: it holds the whole table of built-in patterns, in order and unaltered, and then one entry per built-in URL, added on every path through the loop over that table, its ID and URL unaltered and its Type looked up under its own ID among the built-in patterns (Unknown only where the ID has none)."
	fn := w.Func(rootPath, "BuiltinLicenses")
	lres, urls := w.SPkg[rootPath].Var("builtinLREs"), w.SPkg[rootPath].Var("builtinURLs")
	a := &attr{w: w, r: r}
	if fn == nil || lres == nil || urls == nil {
		a.undecided("BuiltinLicenses", "BuiltinLicenses, builtinLREs or builtinURLs not found")
		return
	}
	a.p = newProv(w, rootPath)
	root := a.p.tree(fn)
	for _, ret := range returnsOf(fn) {
		l := &listWalk{a: a, lres: lres, urls: urls, fl: &seqFlow{}}
		fl := a.flowOf(ret.Results[0], root, "")
		l.fl = fl
		pos := w.Pos(ret.Pos())
		bulk, viaLoop := 0, 0
		for _, o := range fl.other {
			switch {
			case l.copied(o):
				bulk++
			default:
				r.bad("list-source", "BuiltinLicenses", a.posOf(o), "part of the list comes from "+o.String()+" (undecided)")
			}
		}
		for _, ap := range fl.appends {
			vals := appended(ap.call)
			if vals == nil {
				t := a.p.norm(ap.call.Call.Args[1], ap.fr)
				if l.table(t, lres) {
					bulk++
					h, _ := loopAround(ap.call.Block())
					r.check(h == nil && ap.call.Block().Dominates(lastBlock(ap, ret)), "patterns-listed", "BuiltinLicenses", w.Pos(ap.call.Pos()), "the whole table of built-in patterns is added once")
					continue
				}
				// A whole list made elsewhere in the tree: follow it.
				sub := a.flowOf(ap.call.Call.Args[1], ap.fr, "")
				for _, s := range sub.appends {
					if v := appended(s.call); len(v) == 1 {
						viaLoop += l.element(s, v[0])
						continue
					}
					r.bad("list-source", "BuiltinLicenses", w.Pos(s.call.Pos()), "a list of unknown contents is added (undecided)")
				}
				for _, o := range sub.other {
					r.bad("list-source", "BuiltinLicenses", a.posOf(o), "part of the list comes from "+o.String()+" (undecided)")
				}
				continue
			}
			if len(vals) != 1 {
				r.bad("list-source", "BuiltinLicenses", w.Pos(ap.call.Pos()), "several entries are added at once (undecided)")
				continue
			}
			n := l.element(ap, vals[0])
			if n == 2 {
				bulk++
			} else {
				viaLoop += n
			}
		}
		// Elements changed in place afterwards.
		l.inPlace()
		r.check(bulk == 1, "patterns-listed", "BuiltinLicenses", pos, fmt.Sprintf("the list holds the table of built-in patterns exactly once (%d)", bulk))
		r.check(viaLoop == 1, "urls-listed", "BuiltinLicenses", pos, fmt.Sprintf("the list holds the built-in URLs exactly once (%d)", viaLoop))
	}
	r.Counts["functions"] = len(a.p.nodes)
	r.Counts["returns"] = len(returnsOf(fn))
	r.Minimums["returns"] = 1
}

func lastBlock(ap seqAppend, ret *ssa.Return) *ssa.BasicBlock {
	if ap.fr.call == nil {
		return ret.Block()
	}
	rs := returnsOf(ap.fr.fn)
	return rs[len(rs)-1].Block()
}

type listWalk struct {
	a          *attr
	lres, urls *ssa.Global
	fl         *seqFlow
}

// table: the term is the contents of the global table.
func (l *listWalk) table(t *pterm, g *ssa.Global) bool {
	return t.key() == mkTerm("global", g.String()).key()
}

// copied: a slice made with the length of the table of patterns, into which
// the table is copied whole.
func (l *listWalk) copied(o *pterm) bool {
	ms, ok := o.v.(*ssa.MakeSlice)
	if !ok {
		return false
	}
	s := lenOf(ms.Len)
	if s == nil || !l.table(l.a.p.norm(s, o.fr), l.lres) {
		return false
	}
	for _, u := range *ms.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok {
			continue
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if ok && b.Name() == "copy" && c.Call.Args[0] == ssa.Value(ms) && l.table(l.a.p.norm(c.Call.Args[1], o.fr), l.lres) {
			return true
		}
	}
	return false
}

// element decides an entry added in a loop: 1 for the URLs, 2 for the
// patterns, 0 when it is neither.
func (l *listWalk) element(ap seqAppend, v ssa.Value) int {
	a := l.a
	r := a.r
	pos := a.w.Pos(ap.call.Pos())
	lf, head, body := a.loopOf(ap.fr, ap.call.Block())
	if lf == nil {
		r.bad("list-source", frameName(ap.fr), pos, "an entry is added outside a loop over a table (undecided)")
		return 0
	}
	t := a.p.norm(v, ap.fr)
	base := t
	if t.op == "alloc" {
		base = a.canon(t)
		if base == t {
			base = nil
			// A literal: its ID says which element it is.
			if id := a.fieldNamed(t, "ID"); id.op == "field" {
				base = id.args[0]
			}
		}
	}
	for base != nil && base.op == "deref" {
		base = base.args[0]
	}
	if base == nil || base.op != "elem" || base.args[1].v == nil {
		r.bad("list-source", frameName(ap.fr), pos, "the entry added is "+t.String()+", not an element of a built-in table (undecided)")
		return 0
	}
	seq, full := a.p.fullRange(head, body, base.args[1].v, lf)
	isURLs, isLREs := l.table(base.args[0], l.urls), l.table(base.args[0], l.lres)
	if !full || !isURLs && !isLREs || !(l.table(seq, l.urls) && isURLs || l.table(seq, l.lres) && isLREs) {
		r.bad("urls-listed", frameName(ap.fr), pos, "entries are not added in a loop over a whole built-in table (undecided)")
		return 0
	}
	pw := &pathWalk{a: a, ev: map[ssa.Instruction]string{ap.call: "entry"}, isEv: map[string]seqAppend{fmt.Sprintf("%p@%d", ap.call, ap.fr.id): ap}, head: head, body: body, loopFr: lf}
	pw.reach = map[*ssa.BasicBlock]bool{}
	for _, x := range returnsOf(lf.fn) {
		pw.mark(x.Block())
	}
	n := 0
	for _, it := range pw.iterations() {
		n++
		switch it.exit {
		case "":
			r.check(len(it.events) == 1, "urls-listed", frameName(ap.fr), pos, fmt.Sprintf("each element of the table is added exactly once (%d on a path to the next)", len(it.events)))
		case "header":
			r.check(len(it.events) == 0, "urls-listed", frameName(ap.fr), pos, "nothing is added when the table is exhausted")
		default:
			r.bad("urls-listed", frameName(ap.fr), pos, "the loop over the table is left early")
		}
	}
	if pw.failed != "" {
		r.bad("urls-listed", frameName(ap.fr), pos, pw.failed+" (undecided)")
	}
	r.Counts["paths through a loop step"] += n
	for _, f := range []string{"ID", "URL", "LRE"} {
		have, want := a.fieldNamed(t, f), a.fieldNamed(base, f)
		same := have.key() == want.key()
		if f == "LRE" && isURLs && t.op == "alloc" && a.canon(t) == t {
			same = true // a literal without a pattern, as in the table
			if have.op != "field" || have.args[0] != t {
				same = have.key() == want.key()
			}
		}
		r.check(same, "entry-unaltered", frameName(ap.fr), pos, "the entry's "+f+" is the table's: "+have.String())
	}
	if isLREs {
		have, want := a.fieldNamed(t, "Type"), a.fieldNamed(base, "Type")
		r.check(have.key() == want.key(), "entry-unaltered", frameName(ap.fr), pos, "the entry's Type is the table's: "+have.String())
		return 2
	}
	l.typeOf(t, base, ap, pos)
	return 1
}

// typeOf decides the Type given to a URL entry.
func (l *listWalk) typeOf(t, base *pterm, ap seqAppend, pos string) {
	a := l.a
	where := frameName(ap.fr)
	type src struct {
		o  origin
		b  *ssa.BasicBlock
		f  *pframe
		st *ssa.Store
	}
	var srcs []src
	if t.op == "alloc" {
		_, fields, esc := a.p.allocStores(t.v.(*ssa.Alloc))
		k := a.fieldNamed(mkTerm("x", ""), "Type").k
		if esc || len(fields[k]) == 0 {
			a.r.bad("url-type", where, pos, "the Type of a URL entry is not set (undecided)")
			return
		}
		for _, st := range fields[k] {
			for _, o := range a.p.origins(a.p.norm(st.Val, t.fr)) {
				srcs = append(srcs, src{o, st.Block(), t.fr, st})
			}
		}
	} else {
		a.r.bad("url-type", where, pos, "the Type of a URL entry is left as in the URL table")
		return
	}
	found := 0
	for _, s := range srcs {
		switch o := s.o; {
		case o.t.op == "const":
			a.r.check(strings.HasPrefix(o.t.name, "0:"), "url-type", where, pos, "the only constant type given to a URL entry is Unknown: "+o.t.name)
			ok := false
			for _, x := range srcs {
				if x.o.t.op == "lookup" {
					lk, isL := x.o.t.v.(*ssa.Lookup)
					if isL && (a.notFound(lk, o, s.b) || s.st != x.st && precedes(s.st, x.st) && (x.st.Block().Dominates(ap.call.Block()) || a.onlyIfFound(lk, x.b))) {
						ok = true
					}
				} else if x.o.t.op == "field" {
					ok = true
				}
			}
			a.r.check(ok, "url-type", where, pos, "a URL entry is Unknown only where its ID has no built-in pattern")
		case o.t.op == "lookup":
			found++
			id := a.fieldNamed(base, "ID")
			a.r.check(o.t.args[1].key() == id.key(), "url-type", where, pos, "the type of a URL entry is looked up under its own ID: "+o.t.args[1].String())
			if lk, isL := o.t.v.(*ssa.Lookup); isL && a.notFound(lk, o, s.b) {
				a.r.bad("url-type", where, pos, "the type of a URL entry is taken from a failed lookup")
			}
			if s.f == ap.fr && !s.b.Dominates(ap.call.Block()) {
				lk, isL := o.t.v.(*ssa.Lookup)
				other := false
				for _, x := range srcs {
					if x.st != s.st && x.o.t.op == "const" && isL && a.notFound(lk, x.o, x.b) {
						other = true
					}
				}
				a.r.check(other || isL && a.onlyIfFound(lk, s.b), "url-type", where, pos, "the type found is given to the URL entry whenever there is one")
			}
			l.typeMap(o.t.args[0], pos)
		case o.t.op == "field" && strings.HasSuffix(o.t.name, ".License.Type"):
			found++
			e := o.t.args[0]
			// An element of the patterns found to have the same ID.
			good := e.op == "elem" && (l.table(e.args[0], l.lres) || l.isList(e.args[0]))
			eid, uid := a.fieldNamed(e, "ID"), a.fieldNamed(base, "ID")
			if good {
				good = l.sameID(eid, uid, s.o, s.b, s.f)
			}
			a.r.check(good, "url-type", where, pos, "the type of a URL entry is that of the built-in pattern with its ID: "+o.t.String())
		default:
			a.r.bad("url-type", where, pos, "the type of a URL entry is "+o.t.String()+" (undecided)")
		}
	}
	a.r.check(found > 0, "url-type", where, pos, "a URL entry gets the type of the built-in pattern with its ID")
}

// sameID: a test that the two IDs are equal holds where the type is taken.
func (l *listWalk) sameID(x, y *pterm, o origin, b *ssa.BasicBlock, f *pframe) bool {
	a := l.a
	blocks := map[*pframe][]*ssa.BasicBlock{f: {b}}
	for _, v := range o.via {
		if v.ret != nil {
			blocks[v.fr] = append(blocks[v.fr], v.ret.Block())
		}
		if v.t.op == "phi" {
			blocks[v.t.fr] = append(blocks[v.t.fr], v.t.v.(*ssa.Phi).Block().Preds[v.edge])
		}
	}
	for fr, bs := range blocks {
		for _, blk := range fr.fn.Blocks {
			for _, in := range blk.Instrs {
				c, ok := in.(*ssa.BinOp)
				if !ok || !isBoolType(c.Type()) {
					continue
				}
				m, n := a.p.norm(c.X, fr).key(), a.p.norm(c.Y, fr).key()
				if !(m == x.key() && n == y.key() || m == y.key() && n == x.key()) {
					continue
				}
				for _, at := range bs {
					if c.Op.String() == "==" && knownTrue(at, c, true) || c.Op.String() == "!=" && knownTrue(at, c, false) {
						return true
					}
				}
			}
		}
	}
	return false
}

// precedes: x is executed before y whenever y is.
func precedes(x, y *ssa.Store) bool {
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, in := range x.Block().Instrs {
		if in == ssa.Instruction(x) {
			return true
		}
		if in == ssa.Instruction(y) {
			return false
		}
	}
	return false
}

// onlyIfFound: the block is entered exactly when the lookup succeeded.
func (a *attr) onlyIfFound(lk *ssa.Lookup, b *ssa.BasicBlock) bool {
	if !lk.CommaOk || len(b.Preds) != 1 {
		return false
	}
	p := b.Preds[0]
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] != b {
		return false
	}
	ex, ok := iff.Cond.(*ssa.Extract)
	return ok && ex.Tuple == ssa.Value(lk) && ex.Index == 1 && p == lk.Block()
}

// notFound: the lookup is known to have failed where the value is used.
func (a *attr) notFound(lk *ssa.Lookup, o origin, b *ssa.BasicBlock) bool {
	if !lk.CommaOk {
		return false
	}
	blocks := []*ssa.BasicBlock{b}
	for _, v := range o.via {
		if v.ret != nil {
			blocks = append(blocks, v.ret.Block())
		}
		if v.t.op == "phi" {
			phi := v.t.v.(*ssa.Phi)
			blocks = append(blocks, phi.Block().Preds[v.edge])
			// the edge itself may be the failed side of the test
			p := phi.Block().Preds[v.edge]
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Tuple == ssa.Value(lk) && p.Succs[1] == phi.Block() && p.Succs[0] != phi.Block() {
					return true
				}
			}
		}
	}
	for _, u := range *lk.Referrers() {
		ex, ok := u.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		for _, blk := range blocks {
			if blk.Parent() == ex.Parent() && knownTrue(blk, ex, false) {
				return true
			}
		}
	}
	return false
}

func (l *listWalk) isList(t *pterm) bool {
	return t.v != nil && t.fr != nil && l.fl.values[fmt.Sprintf("%p@%d", t.v, t.fr.id)]
}

// typeMap: the map looked up holds the type of each built-in pattern under its ID.
func (l *listWalk) typeMap(m *pterm, pos string) {
	a := l.a
	n := 0
	for _, fr := range a.p.nodes {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || a.p.norm(mu.Map, fr).key() != m.key() {
					continue
				}
				n++
				where, p := frameName(fr), a.w.instrPos(in)
				k, v := a.p.norm(mu.Key, fr), a.p.norm(mu.Value, fr)
				good := k.op == "field" && v.op == "field" && k.args[0].key() == v.args[0].key() && strings.HasSuffix(k.name, ".License.ID") && strings.HasSuffix(v.name, ".License.Type")
				a.r.check(good, "type-by-id", where, p, fmt.Sprintf("the type of each pattern is recorded under its own ID: [%s] = %s", k, v))
				if !good {
					continue
				}
				e := k.args[0]
				head, body := loopAround(b)
				whole := false
				if e.op == "elem" && e.args[1].v != nil && head != nil {
					seq, full := a.p.fullRange(head, body, e.args[1].v, fr)
					whole = full && seq.key() == e.args[0].key() && (l.table(seq, l.lres) || l.isList(seq) || l.copied(seq)) && dominatesBackEdges(b, head)
				}
				a.r.check(whole, "type-by-id", where, p, "the types of all built-in patterns are recorded")
			}
		}
	}
	a.r.check(n == 1, "type-by-id", "BuiltinLicenses", pos, fmt.Sprintf("the table of types is filled from the built-in patterns (%d)", n))
}

// inPlace: no entry is changed after being added.
func (l *listWalk) inPlace() {
	a := l.a
	for _, fr := range a.p.nodes {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				addr := st.Addr
				if fa, ok := addr.(*ssa.FieldAddr); ok {
					addr = fa.X
				}
				ia, ok := addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				s, ok := ia.X.Type().Underlying().(*types.Slice)
				if !ok || !isNamed(s.Elem(), rootPath, "License") {
					continue
				}
				if sl, ok := ia.X.(*ssa.Slice); ok {
					if _, isAl := sl.X.(*ssa.Alloc); isAl {
						continue
					}
				}
				a.r.bad("entry-unaltered", frameName(fr), a.w.instrPos(in), "an entry already in the list is changed (undecided)")
			}
		}
	}
}
