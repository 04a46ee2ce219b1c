package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// old: in the older package, the words indexed under a license's position are
// that license's, an entry's fields all come from one listed license, and a
// match names the license whose words matched.
func (a *attr) old() {
	if a.w.SPkg[oldPath] == nil {
		return
	}
	newC := a.w.Func(oldPath, "New")
	cover := a.w.Method(oldPath, "Checker", "Cover")
	if newC == nil || cover == nil {
		a.undecided("old.New", "old.New or Checker.Cover not found")
		return
	}
	a.p = newProv(a.w, oldPath)
	a.p.opaque = func(f *ssa.Function) bool {
		if f.Signature.Results().Len() != 1 {
			return false
		}
		t := derefType(f.Signature.Results().At(0).Type())
		return isNamed(t, oldPath, "Type") || isNamed(t, oldPath, "document")
	}
	a.p.tree(newC)
	a.oldIndex()
	a.oldEntries()
	a.oldURLs()
	op := a.p.opaque
	a.p = newProv(a.w, oldPath)
	a.p.opaque = op
	a.p.tree(cover)
	a.oldMatches()
}

// oldIndex: updateIndex's position and words belong together.
func (a *attr) oldIndex() {
	n := 0
	for _, fr := range a.p.nodes {
		for _, b := range a.builds(fr, oldPath, "indexEntry") {
			for _, st := range b.sets["licenseID"] {
				n++
				id := a.p.norm(st.Val, fr)
				where, pos := frameName(fr), a.w.Pos(st.Pos())
				var words []*pterm
				seen := map[string]bool{}
				for _, blk := range fr.fn.Blocks {
					for _, in := range blk.Instrs {
						for _, op := range in.Operands(nil) {
							if *op == nil || !isInt32Slice((*op).Type()) {
								continue
							}
							switch (*op).(type) {
							case *ssa.Const, *ssa.Slice, *ssa.Phi:
								continue
							}
							t := a.p.norm(*op, fr)
							if !seen[t.key()] {
								seen[t.key()] = true
								words = append(words, t)
							}
						}
					}
				}
				if len(words) == 0 {
					a.r.bad("index-words", where, pos, "the words indexed were not found (undecided)")
				}
				for _, w := range words {
					idx := a.wordsAt(w)
					if idx == nil {
						a.r.bad("index-words", where, pos, "the words indexed are "+w.String()+", not those of a license in the list (undecided)")
						continue
					}
					good := idx.key() == id.key() || a.lastPos(idx) && a.lastPos(id)
					a.r.check(good, "index-words", where, pos, fmt.Sprintf("words are indexed under the position of the license they are from (words of licenses[%s], under %s)", idx, id))
				}
			}
		}
	}
	a.r.Counts["old: index entries"] = n
	a.r.Minimums["old: index entries"] = 1
}

func isInt32Slice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// wordsAt: t is the words of the document of licenses[i]: gives i.
func (a *attr) wordsAt(t *pterm) *pterm {
	if t.op != "field" || !strings.HasSuffix(t.name, ".document.words") {
		return nil
	}
	d := t.args[0]
	if d.op == "deref" {
		d = d.args[0]
	}
	if d.op == "field" && strings.HasSuffix(d.name, ".license.doc") {
		return a.listPos(d.args[0])
	}
	// The document stored in a license.
	for _, fr := range a.p.nodes {
		for _, b := range a.builds(fr, oldPath, "license") {
			for _, st := range b.sets["doc"] {
				if a.p.norm(st.Val, fr).key() == d.key() {
					return a.listPos(b.place)
				}
			}
		}
	}
	return nil
}

// listPos: the position in the list of licenses of a place.
func (a *attr) listPos(pl *pterm) *pterm {
	if pl.op == "deref" {
		pl = pl.args[0]
	}
	switch pl.op {
	case "elem":
		s := pl.args[0]
		if s.op == "field" && strings.HasPrefix(s.name, oldPath+".Checker.") || s.v != nil && isSliceOf(s.v.Type(), oldPath, "license") {
			return pl.args[1]
		}
	case "alloc":
		// A local license appended to the list.
		for _, fr := range a.p.nodes {
			for _, blk := range fr.fn.Blocks {
				for _, in := range blk.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || !isSliceOf(c.Type(), oldPath, "license") {
						continue
					}
					for _, v := range appended(c) {
						t := a.p.norm(v, fr)
						if t.key() == pl.key() {
							return &pterm{op: "appended", v: c, fr: fr}
						}
					}
				}
			}
		}
	}
	return nil
}

// lastPos: t is the position of the license being added: the length of the list
// before it is added, or the length after, less one.
func (a *attr) lastPos(t *pterm) bool {
	if t.op == "appended" {
		return true
	}
	v := t.v
	minus := false
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.SUB && isConstInt(b.Y, 1) {
		v, minus = b.X, true
	}
	s := lenOf(v)
	if s == nil || !isSliceOf(s.Type(), oldPath, "license") {
		return false
	}
	at := v.(ssa.Instruction)
	// The one change of the list in this function.
	var grow *ssa.Store
	for _, b := range at.Parent().Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && isSliceOf(st.Val.Type(), oldPath, "license") {
				if _, isMk := st.Val.(*ssa.MakeSlice); isMk {
					continue
				}
				if sl, isSl := st.Val.(*ssa.Slice); isSl {
					if _, isAl := sl.X.(*ssa.Alloc); isAl {
						continue
					}
				}
				if grow != nil {
					return false
				}
				grow = st
			}
		}
	}
	if grow == nil {
		return false
	}
	before := instrBefore(at, grow)
	if minus {
		return instrBefore(grow, at)
	}
	return before
}

// instrBefore: x runs before y whenever y runs.
func instrBefore(x, y ssa.Instruction) bool {
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, in := range x.Block().Instrs {
		if in == x {
			return true
		}
		if in == y {
			return false
		}
	}
	return false
}

// licensesRead lists the listed licenses (by access path) a value depends on.
func (a *attr) licensesRead(v ssa.Value, fr *pframe, group *build, out map[string]*pterm, seen map[string]bool) {
	if v == nil {
		return
	}
	k := fmt.Sprintf("%p@%d", v, fr.id)
	if seen[k] {
		return
	}
	seen[k] = true
	switch x := v.(type) {
	case *ssa.Field:
		if isNamed(x.X.Type(), oldPath, "License") {
			t := a.p.norm(x.X, fr)
			out[t.key()] = t
			return
		}
	case *ssa.FieldAddr:
		if isPtrToNamed(x.X.Type(), oldPath, "License") {
			t := a.p.place(x.X, fr)
			if t.op == "alloc" {
				t = a.p.content(t)
			}
			out[t.key()] = t
			return
		}
		if isPtrToNamed(x.X.Type(), oldPath, "license") && a.p.place(x.X, fr).key() == group.place.key() {
			name := fieldName(x.X.Type(), x.Field)
			for _, st := range group.sets[name[strings.LastIndex(name, ".")+1:]] {
				a.licensesRead(st.Val, group.fr, group, out, seen)
			}
			return
		}
	case *ssa.Parameter:
		if fr.call != nil {
			for i, q := range fr.fn.Params {
				if q == x {
					a.licensesRead(fr.call.Common().Args[i], fr.parent, group, out, seen)
				}
			}
		}
		return
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	for _, op := range in.Operands(nil) {
		a.licensesRead(*op, fr, group, out, seen)
	}
}

// oldEntries: each entry's fields come from one listed license.
func (a *attr) oldEntries() {
	n := 0
	for _, fr := range a.p.nodes {
		for _, b := range a.builds(fr, oldPath, "license") {
			n++
			pos := a.w.Pos(b.first.Pos())
			all := map[string]*pterm{}
			for _, f := range []string{"name", "typ", "text", "doc"} {
				for _, st := range b.sets[f] {
					got := map[string]*pterm{}
					a.licensesRead(st.Val, fr, b, got, map[string]bool{})
					for k, t := range got {
						all[k] = t
					}
					a.r.check(len(got) > 0, "entry-of-license", frameName(fr), a.w.Pos(st.Pos()), "the entry's "+f+" comes from a listed license")
				}
			}
			for _, f := range []string{"name", "typ", "doc"} {
				if len(b.sets[f]) == 0 {
					a.r.bad("entry-of-license", frameName(fr), pos, "an entry is added without its "+f)
				}
			}
			for _, st := range b.sets["name"] {
				t := a.p.norm(st.Val, fr)
				a.r.check(t.op == "field" && strings.HasSuffix(t.name, ".License.Name"), "entry-of-license", frameName(fr), a.w.Pos(st.Pos()), "the entry's name is the license's: "+t.String())
			}
			for _, st := range b.sets["typ"] {
				a.oldTypeOf(st, fr, b)
			}
			a.r.check(len(all) == 1, "entry-of-license", frameName(fr), pos, fmt.Sprintf("all fields of an entry come from one listed license (%d)", len(all)))
		}
	}
	a.r.Counts["old: entries added"] = n
	a.r.Minimums["old: entries added"] = 1
}

// oldTypeOf: the type is that of the entry's name.
func (a *attr) oldTypeOf(st *ssa.Store, fr *pframe, b *build) {
	t := a.p.norm(st.Val, fr)
	c, ok := t.v.(*ssa.Call)
	if t.op != "result" || !ok || len(c.Call.Args) != 1 {
		a.r.bad("entry-of-license", frameName(fr), a.w.Pos(st.Pos()), "the entry's type is "+t.String()+", not the type of its name (undecided)")
		return
	}
	arg := a.p.norm(c.Call.Args[0], t.fr)
	good := arg.op == "field" && (strings.HasSuffix(arg.name, ".License.Name") || strings.HasSuffix(arg.name, ".license.name") && arg.args[0].key() == b.place.key())
	for _, s := range b.sets["name"] {
		good = good || a.p.norm(s.Val, fr).key() == arg.key()
	}
	a.r.check(good, "entry-of-license", frameName(fr), a.w.Pos(st.Pos()), "the entry's type is the type of its name: "+arg.String())
}

func (a *attr) oldURLs() {
	n := 0
	for _, fr := range a.p.nodes {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mt, ok := mu.Map.Type().Underlying().(*types.Map)
				if !ok || !isString(mt.Key()) || !isString(mt.Elem()) {
					continue
				}
				n++
				k, v := a.p.norm(mu.Key, fr), a.p.norm(mu.Value, fr)
				good := k.op == "field" && v.op == "field" && strings.HasSuffix(k.name, ".License.URL") && strings.HasSuffix(v.name, ".License.Name") && k.args[0].key() == v.args[0].key()
				a.r.check(good, "url-entry", frameName(fr), a.w.instrPos(in), fmt.Sprintf("the name stored for a URL is that of the license listing it: [%s] = %s", k, v))
			}
		}
	}
	a.r.Counts["old: URL table updates"] = n
	a.r.Minimums["old: URL table updates"] = 1
}

func (a *attr) oldMatches() {
	n := 0
	for _, fr := range a.p.nodes {
		for _, b := range a.builds(fr, oldPath, "Match") {
			where, pos := frameName(fr), a.w.Pos(b.first.Pos())
			names, typs := b.sets["Name"], b.sets["Type"]
			if len(names) == 0 && len(typs) == 0 {
				if b.place.op == "alloc" && !a.wholeSet(b.place.v.(*ssa.Alloc)) {
					a.r.bad("match-entry", where, pos, "a match is built without the name and type of a license")
				}
				continue
			}
			if len(names) != 1 || len(typs) != 1 {
				a.r.bad("match-entry", where, pos, "Name and Type of a match are not set together")
				continue
			}
			n++
			nm, ty := a.p.norm(names[0].Val, fr), a.p.norm(typs[0].Val, fr)
			blk := names[0].Block()
			if nm.op == "field" && ty.op == "field" {
				good := nm.args[0].key() == ty.args[0].key() && strings.HasSuffix(nm.name, ".license.name") && strings.HasSuffix(ty.name, ".license.typ")
				if !a.r.check(good, "match-entry", where, pos, fmt.Sprintf("Name (%s) and Type (%s) are those of one license", nm, ty)) {
					continue
				}
				a.oldSpan(fr, b, nm.args[0], pos)
				continue
			}
			// A URL match.
			c, ok := ty.v.(*ssa.Call)
			good := ty.op == "result" && ok && len(c.Call.Args) == 1 && a.p.norm(c.Call.Args[0], ty.fr).key() == nm.key()
			a.r.check(good, "match-entry", where, pos, fmt.Sprintf("Type is the type of the Name reported (%s)", nm))
			for _, o := range a.p.origins(nm) {
				switch {
				case o.t.op == "lookup" && o.t.args[0].op == "field" && strings.HasPrefix(o.t.args[0].name, oldPath+".Checker."):
					if o.t.v != nil {
						a.r.check(a.lookupKnown(o, blk, fr), "match-entry-known", where, pos, "the URL lookup is known to have found the name")
					}
				case o.t.op == "const":
					a.r.check(a.excluded(o, blk, fr), "match-entry-known", where, pos, "a match is not reported for a URL that is not known")
				default:
					if !a.excluded(o, blk, fr) {
						a.r.bad("match-source", where, pos, "the name of a match is "+o.t.String()+", not one listed for the URL (undecided)")
					}
				}
			}
		}
	}
	a.r.Counts["old: matches built"] = n
	a.r.Minimums["old: matches built"] = 2
	// Runs of words carry the license of the index entry they began from.
	k := 0
	for _, fr := range a.p.nodes {
		for _, b := range a.builds(fr, oldPath, "submatch") {
			for _, st := range b.sets["licenseID"] {
				k++
				for _, o := range a.p.origins(a.p.norm(st.Val, fr)) {
					good := o.t.op == "field" && strings.HasSuffix(o.t.name, ".indexEntry.licenseID")
					a.r.check(good, "run-license", frameName(fr), a.w.Pos(st.Pos()), "a run of words belongs to the license of its index entry: "+o.t.String())
				}
			}
			if len(b.sets["licenseID"]) == 0 && b.place.op == "alloc" && !a.wholeSet(b.place.v.(*ssa.Alloc)) {
				a.r.bad("run-license", frameName(fr), a.w.Pos(b.first.Pos()), "a run of words is recorded without its license")
			}
		}
		// Entries of the list are chosen by a license's position only.
		for _, blk := range fr.fn.Blocks {
			for _, in := range blk.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || !isSliceOf(ia.X.Type(), oldPath, "license") {
					continue
				}
				for _, o := range a.p.origins(a.p.norm(ia.Index, fr)) {
					good := o.t.op == "field" && (strings.HasSuffix(o.t.name, ".indexEntry.licenseID") || strings.HasSuffix(o.t.name, ".submatch.licenseID"))
					a.r.check(good, "run-license", frameName(fr), a.w.instrPos(in), "the license compared with, or reported, is chosen by the position in an index entry or a run: "+o.t.String())
				}
			}
		}
	}
	a.r.Counts["old: runs of words built"] = k
	a.r.Minimums["old: runs of words built"] = 1
}

// oldSpan: the license reported is the one at the run's position, and the
// match's extent is that of the same run.
func (a *attr) oldSpan(fr *pframe, b *build, lic *pterm, pos string) {
	where := frameName(fr)
	if lic.op == "deref" {
		lic = lic.args[0]
	}
	if lic.op != "elem" {
		a.r.bad("match-source", where, pos, "the license reported is "+lic.String()+", not an element of the list (undecided)")
		return
	}
	idx := lic.args[1]
	if idx.op != "field" || !strings.HasSuffix(idx.name, ".submatch.licenseID") {
		a.r.bad("match-source", where, pos, "the license reported is at "+idx.String()+", not the position in the run of words that matched (undecided)")
		return
	}
	a.around(b.first.Block(), fr)
	run := a.canon(idx.args[0]).key()
	for _, f := range []string{"Start", "End"} {
		for _, st := range b.sets[f] {
			runs := map[string]*pterm{}
			a.reads(st.Val, fr, oldPath, "submatch", runs, map[string]bool{})
			good := true
			for k := range runs {
				good = good && k == run
			}
			a.r.check(good, "match-span", where, a.w.Pos(st.Pos()), "the match's "+f+" is that of the run whose license is reported")
		}
	}
}
