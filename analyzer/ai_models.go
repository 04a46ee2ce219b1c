package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Calls: the repository's functions are followed, library functions are
// modelled by what their documentation guarantees.

// prep frees the names an instruction is about to define.
func (e *engine) prep(fr *frame, st *state, in ssa.Instruction) {
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	switch x := in.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Extract, *ssa.Field, *ssa.Alloc, *ssa.MakeClosure:
		return
	case *ssa.BinOp:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			switch x.Op.String() {
			case "+", "-", "==", "!=", "<", "<=", ">", ">=":
				return
			}
		}
	}
	if fr.info.inner[in.Block()] == nil && fr.depth == 0 {
		return
	}
	key := fr.name(v, "")
	match := func(n string) bool {
		for {
			switch {
			case strings.HasPrefix(n, "len:"), strings.HasPrefix(n, "cap:"), strings.HasPrefix(n, "str:"):
				n = n[4:]
				continue
			}
			break
		}
		if !strings.HasPrefix(n, key) {
			return false
		}
		if len(n) == len(key) {
			return true
		}
		c := n[len(key)]
		return !(c >= '0' && c <= '9' || c == ':' || c >= 'a' && c <= 'z' || c == '\'')
	}
	ls := st.used()
	var inCons map[sym]bool
	ms := map[sym]lin{}
	mb := map[baseID]baseID{}
	for s := range ls.syms {
		n := symName(s)
		if !match(n) {
			continue
		}
		if inCons == nil {
			inCons = map[sym]bool{}
			for _, c := range st.cons {
				for _, x := range c.s {
					inCons[x] = true
				}
			}
		}
		for {
			n += "'"
			if t := symFor(n); !ls.syms[t] && !inCons[t] {
				break
			}
		}
		ms[s] = lv(symFor(n))
	}
	for b := range ls.bases {
		n := string(b)
		if !match(n) {
			continue
		}
		for {
			n += "'"
			if !ls.bases[baseID(n)] {
				break
			}
		}
		mb[b] = baseID(n)
	}
	if len(ms)+len(mb) > 0 {
		st.rename(ms, mb, nil)
	}
}

func (e *engine) call(fr *frame, st *state, in *ssa.Call) []*state {
	c := in.Common()
	var args []aval
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	if c.IsInvoke() {
		e.undecided("%s: dynamic method call", e.w.instrPos(in))
		return e.one(st, in, e.unknownResult(fr, st, in))
	}
	if e.onCall != nil {
		if ss, ok := e.onCall(e, fr, st, in, args); ok {
			return ss
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, in, b.Name(), args)
	}
	fn := c.StaticCallee()
	var bind []aval
	if fn == nil {
		if f, ok := e.val(fr, st, c.Value).(fnv); ok {
			fn, bind = f.fn, f.bind
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			bind = append(bind, e.val(fr, st, b))
		}
	}
	if fn == nil {
		e.undecided("%s: call of an unknown function", e.w.instrPos(in))
		return e.one(st, in, e.unknownResult(fr, st, in))
	}
	if e.w.InRepo(fn) && len(fn.Blocks) > 0 {
		return e.callFn(fr, in, fn, args, bind, st)
	}
	return e.model(fr, st, in, fn, args)
}

func (e *engine) unknownResult(fr *frame, st *state, in *ssa.Call) aval {
	switch t := in.Type().(type) {
	case *types.Tuple:
		var r tuplev
		for i := 0; i < t.Len(); i++ {
			r = append(r, e.unknownOf(st, fr.name(in, fmt.Sprintf("#%d", i)), t.At(i).Type()))
		}
		return r
	}
	return e.unknownOf(st, fr.name(in, ""), in.Type())
}

func (e *engine) builtin(fr *frame, st *state, in *ssa.Call, name string, args []aval) []*state {
	a := in.Call.Args
	switch name {
	case "len":
		switch a[0].Type().Underlying().(type) {
		case *types.Basic, *types.Slice:
			return e.one(st, in, e.slVal(fr, st, a[0]).n)
		case *types.Map:
			l := e.freshInt(st, fr.name(in, ""), in.Type())
			st.cons = append(st.cons, l)
			return e.one(st, in, l)
		}
		if arr, ok := deref(a[0].Type()).Underlying().(*types.Array); ok {
			return e.one(st, in, lc(arr.Len()))
		}
	case "cap":
		if _, ok := a[0].Type().Underlying().(*types.Slice); ok {
			s := e.slVal(fr, st, a[0])
			return e.one(st, in, st.capEnd(s.base).sub(s.off))
		}
		if arr, ok := deref(a[0].Type()).Underlying().(*types.Array); ok {
			return e.one(st, in, lc(arr.Len()))
		}
	case "append":
		return e.append(fr, st, in)
	case "copy":
		d, s := e.slVal(fr, st, a[0]), e.slVal(fr, st, a[1])
		n := e.freshInt(st, fr.name(in, ""), in.Type())
		st.cons = append(st.cons, n, d.n.sub(n), s.n.sub(n))
		e.storeElem(st, elemv{base: d.base}, in.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
		return e.one(st, in, n)
	case "print", "println", "delete":
		return e.one(st, in, nil)
	case "min", "max":
		x, ok1 := args[0].(lin)
		if ok1 && len(args) == 2 {
			if y, ok := args[1].(lin); ok {
				d := x.sub(y)
				if name == "max" {
					d = d.neg()
				}
				// x-y <= 0: the minimum is x.
				o := st.clone()
				var out []*state
				if st.add(d.neg()) && e.settle(st) {
					st.env[in] = x
					out = append(out, st)
				}
				if o.add(d.addc(-1)) && e.settle(o) {
					o.env[in] = y
					out = append(out, o)
				}
				return out
			}
		}
	}
	e.undecided("%s: builtin %s is not modelled", e.w.instrPos(in), name)
	return e.one(st, in, e.unknownResult(fr, st, in))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *engine) append(fr *frame, st *state, in *ssa.Call) []*state {
	a := in.Call.Args
	x := e.slVal(fr, st, a[0])
	y := e.slVal(fr, st, a[1])
	n := x.n.add(y.n)
	base := e.newBase(fr, st, in, false)
	// newBase may rename what x and y refer to; prep made that impossible.
	et := in.Type().Underlying().(*types.Slice).Elem()
	var q *seqInfo
	if !isByte(et) {
		q = e.extend(fr, in, st, x, y, et)
		if q == nil && e.onAppend != nil {
			e.onAppend(e, fr, st, in, et, nil, nil)
		}
		if q == nil && e.trace2 {
			fmt.Printf("append at %s loses its elements: x=%s y=%s seq=%v\n%s", e.w.instrPos(in), slText(x), slText(y), st.seqs[x.base], st)
		}
	}
	// The backing array of x may be written beyond its end.
	if !immutableBase(x.base) {
		if e.guard[x.base] {
			e.writes++
		}
		if old := st.seqs[x.base]; old != nil && !old.top && !st.eq0(old.n.sub(x.end())) {
			st.seqs[x.base] = &seqInfo{top: true}
		}
		var el []elemFact
		for _, f := range st.elems {
			if f.base == x.base && !st.ge0(x.end().sub(f.idx).addc(-1)) {
				continue
			}
			el = append(el, f)
		}
		st.elems = el
		if strings.HasPrefix(string(x.base), "obj:") {
			e.havocObj(st, string(x.base)[4:])
		}
	}
	if q != nil {
		st.seqs[base] = q
	}
	st.newCapSafe(base, n)
	return e.one(st, in, &slv{base, lc(0), n})
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// leafPaths lists the integer and boolean leaves of an element type.
func leafPaths(t types.Type, path string, ints, bools *[]string) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			*ints = append(*ints, path)
		} else if u.Info()&types.IsBoolean != 0 {
			*bools = append(*bools, path)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leafPaths(u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), ints, bools)
		}
	}
}

// extend summarises x followed by the elements of y.
func (e *engine) extend(fr *frame, in ssa.Instruction, st *state, x, y *slv, et types.Type) *seqInfo {
	var q *seqInfo
	switch {
	case x.base == nilBase || x.n.isConst() && x.n.c == 0 || st.eq0(x.n):
		q = &seqInfo{n: lc(0), empty: true}
	case x.off.isConst() && x.off.c == 0:
		q = st.seqs[x.base]
		if q == nil || q.top || !st.eq0(q.n.sub(x.n)) {
			return nil
		}
	default:
		return nil
	}
	if !strings.HasPrefix(string(y.base), "obj:") || !y.n.isConst() || !y.off.isConst() || y.n.c > 4 {
		if y.n.isConst() && y.n.c == 0 {
			return q
		}
		return nil
	}
	var ints, bools []string
	leafPaths(et, "", &ints, &bools)
	if len(ints) == 0 || len(ints) > 12 {
		return nil
	}
	obj := string(y.base)[4:]
	for i := int64(0); i < y.n.c; i++ {
		f := map[string]aval{}
		pre := fmt.Sprintf("[%d]", y.off.c+i)
		for _, p := range ints {
			l, ok := st.heap[cellKey{obj, pre + p}].(lin)
			if !ok {
				return nil
			}
			f[p] = l
		}
		for _, p := range bools {
			c, ok := st.heap[cellKey{obj, pre + p}].(*cond)
			if ok && c.op == cConst {
				f[p] = c
			}
		}
		if e.onAppend != nil {
			e.onAppend(e, fr, st, in, et, f, q)
		}
		q = e.extendOne(st, q, ints, f)
		if q == nil {
			return nil
		}
	}
	return q
}

func className(ints []string, f map[string]aval) string {
	var s []string
	for _, p := range ints {
		if l, ok := f[p].(lin); ok && l.isConst() && l.c < 0 {
			s = append(s, fmt.Sprintf("%s=%d", p, l.c))
		}
	}
	for p, v := range f {
		if c, ok := v.(*cond); ok && c.op == cConst {
			s = append(s, fmt.Sprintf("%s=%v", p, c.b))
		}
	}
	sortStrings(s)
	return strings.Join(s, ",")
}

// stableTerms are quantities elements are compared with: lengths.
func (st *state) lengthTerms() []lin {
	have := map[string]bool{}
	var out []lin
	add := func(l lin) {
		if l.isConst() {
			return
		}
		k := l.addc(-l.c).String()
		if !have[k] {
			have[k] = true
			out = append(out, l)
		}
	}
	var walk func(v aval)
	walk = func(v aval) {
		switch v := v.(type) {
		case *slv:
			if v.base != nilBase {
				if v.off.isConst() {
					add(v.n)
				} else {
					add(v.end())
				}
			}
		case structv:
			for _, x := range v {
				walk(x)
			}
		}
	}
	for _, fr := range st.stack {
		for _, x := range fr {
			walk(x)
		}
	}
	for _, x := range st.env {
		walk(x)
	}
	for k, x := range st.heap {
		if !strings.HasPrefix(k.obj, "cap:") {
			walk(x)
		}
	}
	for _, n := range sizeNames {
		if l := lv(symFor(n)); st.limits(l) {
			add(l)
		}
	}
	var keys []string
	by := map[string]lin{}
	for _, l := range out {
		by[l.String()] = l
		keys = append(keys, l.String())
	}
	sortStrings(keys)
	out = nil
	for _, k := range keys {
		out = append(out, by[k])
	}
	return out
}

// sizeNames are the sizes of the tables a client gives.
var sizeNames []string

// limits reports whether something is compared with l, other than a constant.
func (st *state) limits(l lin) bool {
	for _, c := range st.cons {
		if len(c.s) < 2 {
			continue
		}
		for _, s := range c.s {
			if s == l.s[0] {
				return true
			}
		}
	}
	return false
}

func (e *engine) extendOne(st *state, q *seqInfo, ints []string, f map[string]aval) *seqInfo {
	k := className(ints, f)
	r := &seqInfo{n: q.n.addc(1), fields: ints, cls: map[string][]lin{}, adj: map[[2]string][]lin{}, last: map[string]lin{}, lastC: k, kind: q.kind}
	for c, cs := range q.cls {
		r.cls[c] = cs
	}
	for c, cs := range q.adj {
		r.adj[c] = cs
	}
	m := map[sym]lin{}
	for i, p := range ints {
		r.last[p] = f[p].(lin)
		m[curField(i)] = f[p].(lin)
		m[prevField(i)] = q.lastOf(p)
	}
	old, had := q.cls[k]
	var cs []lin
	try := func(dst *[]lin, prev []lin, had bool, c lin) {
		v, ok := st.lb(c.substAll(m))
		if !ok || v < -1<<31 {
			return
		}
		if had {
			w, ok := st.lbWith(prev, c)
			if !ok {
				return
			}
			if w < v {
				v = w
			}
		}
		if v > 1<<31 {
			v = 1 << 31
		}
		if len(c.s) > 1 && (v < -farBound || v > farBound) {
			return
		}
		*dst = addCons(*dst, c.addc(-v))
	}
	terms := st.lengthTerms()
	for i, p := range ints {
		if _, c := classConst(k, p); c {
			continue
		}
		x := lv(curField(i))
		try(&cs, old, had, x)
		for _, t := range terms {
			try(&cs, old, had, t.sub(x))
		}
		for g := range ints {
			if g != i {
				if _, c := classConst(k, ints[g]); !c {
					try(&cs, old, had, x.sub(lv(curField(g))))
				}
			}
		}
	}
	r.cls[k] = cs
	// Consecutive elements.
	prevs := []string{q.lastC}
	if q.empty {
		prevs = []string{""}
	}
	if q.lastC == "?" {
		prevs = nil
		for c := range q.cls {
			prevs = append(prevs, c)
		}
		sortStrings(prevs)
		if had := len(q.cls) > 0; !had {
			prevs = []string{""}
		}
		// The sequence may still be empty.
		if _, ok := q.cls[""]; !ok {
			prevs = append(prevs, "")
		}
	}
	for _, pc := range prevs {
		key := [2]string{pc, k}
		olda, hada := q.adj[key]
		var as []lin
		for i := range ints {
			for g := range ints {
				try(&as, olda, hada, lv(curField(i)).sub(lv(prevField(g))))
			}
		}
		r.adj[key] = as
	}
	return r
}

// Library functions.

var runeSets = map[string]func(r rune) bool{
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsNumber": unicode.IsNumber,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl, "unicode.IsMark": unicode.IsMark,
	"unicode.IsSymbol": unicode.IsSymbol, "unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsTitle": unicode.IsTitle,
}

func (e *engine) setCond(fr *frame, st *state, in *ssa.Call, x aval, f func(r rune) bool) *cond {
	l, ok := x.(lin)
	if ok {
		if l.isConst() {
			return boolConst(f(rune(l.c)))
		}
		if len(l.s) == 1 && l.c == 0 && l.k[0] == 1 {
			if _, has := st.sets[l.s[0]]; has {
				var y bset
				n := bset{other: true}
				y.other = true
				for v := int64(0); v < 256; v++ {
					if f(rune(v)) {
						y.put(v)
					} else {
						n.put(v)
					}
				}
				return &cond{op: cSet, s: l.s[0], yes: y, no: n}
			}
		}
	}
	return e.opaque(fr, st, in)
}

func (e *engine) model(fr *frame, st *state, in *ssa.Call, fn *ssa.Function, args []aval) []*state {
	name := fn.String()
	a := in.Call.Args
	if f, ok := runeSets[name]; ok {
		return e.one(st, in, e.setCond(fr, st, in, args[0], f))
	}
	switch name {
	case "unicode.Is":
		if u, ok := a[0].(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "unicode" {
				if tab := unicodeTable(g.Name()); tab != nil {
					return e.one(st, in, e.setCond(fr, st, in, args[1], func(r rune) bool { return unicode.Is(tab, r) }))
				}
			}
		}
		return e.one(st, in, e.opaque(fr, st, in))

	case "unicode.In":
		if tabs := rangeTables(a[1]); tabs != nil {
			return e.one(st, in, e.setCond(fr, st, in, args[0], func(r rune) bool { return unicode.In(r, tabs...) }))
		}
		return e.one(st, in, e.opaque(fr, st, in))

	case "unicode.SimpleFold", "unicode.ToLower", "unicode.ToUpper", "unicode.ToTitle":
		// A valid rune gives a valid rune.
		x := e.intVal(fr, st, a[0])
		if x.isConst() && x.c >= 0 && x.c < unicode.MaxRune {
			var r rune
			switch name {
			case "unicode.SimpleFold":
				r = unicode.SimpleFold(rune(x.c))
			case "unicode.ToLower":
				r = unicode.ToLower(rune(x.c))
			case "unicode.ToUpper":
				r = unicode.ToUpper(rune(x.c))
			default:
				r = unicode.ToTitle(rune(x.c))
			}
			return e.one(st, in, lc(int64(r)))
		}
		valid := st.validRune(x)
		l := e.freshInt(st, fr.name(in, ""), in.Type())
		if valid {
			st.flags[l.s[0]] = fValid
			st.cons = append(st.cons, l)
		}
		return e.one(st, in, l)

	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		s := e.slVal(fr, st, a[0])
		var out []*state
		em := st.clone()
		if e.assumeEq(em, s.n) {
			em.env[in] = tuplev{lc(0xFFFD), lc(0)}
			out = append(out, em)
		}
		if st.add(s.n.addc(-1)) && e.settle(st) {
			rs, sz, ss := e.decodeRune(fr, st, in, s, in.Type().(*types.Tuple).At(0).Type())
			for i, x := range ss {
				x.env[in] = tuplev{rs[i], sz[i]}
				out = append(out, x)
			}
		}
		return out

	case "unicode/utf8.RuneLen":
		x := e.intVal(fr, st, a[0])
		if st.validRune(x) {
			return e.one(st, in, e.runeLen(st, x))
		}
		l := e.freshInt(st, fr.name(in, ""), in.Type())
		st.cons = append(st.cons, l.addc(1), lc(4).sub(l))
		return e.one(st, in, l)

	case "unicode/utf8.EncodeRune":
		s := e.slVal(fr, st, a[0])
		x := e.intVal(fr, st, a[1])
		need := lc(4)
		if st.validRune(x) {
			need = e.runeLen(st, x)
		}
		e.oblige(fr, in, "utf8.EncodeRune", st.ge0(s.n.sub(need)), func() string { return "the buffer passed to utf8.EncodeRune may be too short" })
		l := e.freshInt(st, fr.name(in, ""), in.Type())
		st.cons = append(st.cons, l.addc(-1), need.sub(l))
		e.storeElem(st, elemv{base: s.base}, types.Typ[types.Uint8])
		return e.one(st, in, l)
	case "unicode/utf8.AppendRune":
		s := e.slVal(fr, st, a[0])
		b := e.newBase(fr, st, in, false)
		l := e.freshInt(st, fr.name(in, "#n"), types.Typ[types.Int])
		st.cons = append(st.cons, l.sub(s.n).addc(-1), s.n.addc(4).sub(l))
		st.newCapSafe(b, l)
		e.storeElem(st, elemv{base: s.base}, types.Typ[types.Uint8])
		return e.one(st, in, &slv{b, lc(0), l})
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		s := e.slVal(fr, st, a[0])
		l := e.freshInt(st, fr.name(in, ""), in.Type())
		st.cons = append(st.cons, l, s.n.sub(l))
		return e.one(st, in, l)
	case "unicode/utf8.ValidString", "unicode/utf8.Valid", "unicode/utf8.ValidRune", "unicode/utf8.FullRune", "unicode/utf8.FullRuneInString",
		"strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.EqualFold", "bytes.Contains", "bytes.ContainsAny", "bytes.EqualFold":
		return e.one(st, in, e.opaque(fr, st, in))
	case "bytes.Equal":
		x, y := e.slVal(fr, st, a[0]), e.slVal(fr, st, a[1])
		return e.one(st, in, &cond{op: cStrEq, x: x, y: y})

	case "strings.HasPrefix", "bytes.HasPrefix":
		s, p := e.slVal(fr, st, a[0]), e.slVal(fr, st, a[1])
		return e.one(st, in, e.partCond(fr, st, in, s, p, s.off))
	case "strings.HasSuffix", "bytes.HasSuffix":
		s, p := e.slVal(fr, st, a[0]), e.slVal(fr, st, a[1])
		return e.one(st, in, e.partCond(fr, st, in, s, p, s.end().sub(p.n)))

	case "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimSuffix":
		s, p := e.slVal(fr, st, a[0]), e.slVal(fr, st, a[1])
		suffix := strings.HasSuffix(name, "Suffix")
		at := s.off
		if suffix {
			at = s.end().sub(p.n)
		}
		c := e.partCond(fr, st, in, s, p, at)
		n := st.clone()
		var out []*state
		if e.assume(st, c, true) {
			r := &slv{s.base, s.off, s.n.sub(p.n)}
			if !suffix {
				r.off = s.off.add(p.n)
			}
			out = append(out, e.one(st, in, r)...)
		}
		if e.assume(n, c, false) {
			out = append(out, e.one(n, in, s)...)
		}
		return out

	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc",
		"bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight":
		s := e.slVal(fr, st, a[0])
		n := symFor("len:" + fr.name(in, ""))
		st.killSym(n)
		st.cons = append(st.cons, lv(n), s.n.sub(lv(n)))
		if strings.HasSuffix(name, "Right") {
			return e.one(st, in, &slv{s.base, s.off, lv(n)})
		}
		if strings.HasSuffix(name, "Left") {
			return e.one(st, in, &slv{s.base, s.end().sub(lv(n)), lv(n)})
		}
		o := symFor(fr.name(in, "#off"))
		st.killSym(o)
		st.cons = append(st.cons, lv(o).sub(s.off), s.end().sub(lv(n)).sub(lv(o)))
		return e.one(st, in, &slv{s.base, lv(o), lv(n)})

	case "strings.ToLower", "strings.ToUpper", "strings.Map", "strings.Title", "strings.ReplaceAll", "strings.Replace", "strings.Join", "strings.Repeat",
		"strings.ToTitle", "strings.ToValidUTF8", "strconv.Itoa", "strconv.Quote", "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "(*strings.Builder).String":
		if name == "strings.Repeat" {
			n := e.intVal(fr, st, a[1])
			e.oblige(fr, in, "strings.Repeat", st.ge0(n), func() string { return "the count may be negative" })
		}
		key := "str:" + fr.name(in, "")
		e.freeBase(st, key)
		n := symFor("len:" + key)
		st.killSym(n)
		st.cons = append(st.cons, lv(n))
		if name == "strings.ToLower" || name == "strings.ToUpper" {
			// Empty exactly when the argument is.
			s := e.slVal(fr, st, a[0])
			_ = s
		}
		return e.one(st, in, &slv{baseID(key), lc(0), lv(n)})

	case "bytes.ToLower", "bytes.ToUpper", "bytes.ReplaceAll":
		b := e.newBase(fr, st, in, false)
		n := symFor("len:" + string(b))
		st.killSym(n)
		st.cons = append(st.cons, lv(n))
		st.newCapSafe(b, lv(n))
		return e.one(st, in, &slv{b, lc(0), lv(n)})

	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "bytes.IndexFunc",
		"bytes.Index", "bytes.IndexByte", "bytes.IndexRune", "bytes.IndexAny",
		"strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny", "strings.LastIndexFunc", "bytes.LastIndex", "bytes.LastIndexByte", "bytes.LastIndexAny":
		return e.index(fr, st, in, name, args)

	case "strings.Count", "bytes.Count":
		s := e.slVal(fr, st, a[0])
		l := e.freshInt(st, fr.name(in, ""), in.Type())
		st.cons = append(st.cons, l, s.n.addc(1).sub(l))
		return e.one(st, in, l)
	case "strings.Fields", "strings.Split", "strings.SplitN", "bytes.Fields", "bytes.Split":
		return e.one(st, in, e.unknownOf(st, fr.name(in, ""), in.Type()))
	case "strings.Cut", "bytes.Cut":
		return e.one(st, in, e.unknownResult(fr, st, in))
	case "strings.Compare", "bytes.Compare", "cmp.Compare":
		l := e.freshInt(st, fr.name(in, ""), in.Type())
		st.cons = append(st.cons, l.addc(1), lc(1).sub(l))
		return e.one(st, in, l)

	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune", "(*strings.Builder).Reset", "(*strings.Builder).Len",
		"errors.New", "fmt.Errorf", "(*strings.Builder).Write":
		return e.one(st, in, e.unknownResult(fr, st, in))
	case "(*strings.Builder).Grow":
		n := e.intVal(fr, st, a[1])
		e.oblige(fr, in, "Grow", st.ge0(n), func() string { return "the size may be negative" })
		return e.one(st, in, nil)

	case "(*sync.Once).Do":
		// The function runs at most once and is decided by C09 and L02.
		return e.one(st, in, nil)
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock":
		return e.one(st, in, nil)

	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints":
		// The comparison functions are checked on their own by the caller's obligations.
		if name == "sort.Slice" || name == "sort.SliceStable" {
			e.undecided("%s: sorting with a function is not modelled", e.w.instrPos(in))
		}
		if s, ok := args[0].(*slv); ok {
			e.storeElem(st, elemv{base: s.base}, nil)
		}
		return e.one(st, in, nil)

	case "(*regexp.Regexp).FindIndex", "(*regexp.Regexp).FindStringIndex":
		return e.findIndex(fr, st, in, args)
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
		return e.one(st, in, e.opaque(fr, st, in))
	case "(*regexp.Regexp).FindString", "(*regexp.Regexp).Find":
		s := e.slVal(fr, st, a[1])
		n, o := symFor("len:"+fr.name(in, "")), symFor(fr.name(in, "#off"))
		st.killSym(n)
		st.killSym(o)
		st.cons = append(st.cons, lv(n), lv(o).sub(s.off), s.end().sub(lv(n)).sub(lv(o)))
		return e.one(st, in, &slv{s.base, lv(o), lv(n)})
	case "math.Abs", "math.Floor", "math.Ceil", "math.Min", "math.Max", "math.Round":
		return e.one(st, in, nil)
	}
	e.undecided("%s: %s is not modelled", e.w.instrPos(in), name)
	return e.one(st, in, e.unknownResult(fr, st, in))
}

// rangeTables: the tables a call names in its list of arguments.
func rangeTables(v ssa.Value) []*unicode.RangeTable {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok || arr.Comment != "varargs" {
		return nil
	}
	var out []*unicode.RangeTable
	for _, ref := range *arr.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok {
				return nil
			}
			u, ok := st.Val.(*ssa.UnOp)
			if !ok {
				return nil
			}
			g, ok := u.X.(*ssa.Global)
			if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != "unicode" {
				return nil
			}
			t := unicodeTable(g.Name())
			if t == nil {
				return nil
			}
			out = append(out, t)
		}
	}
	return out
}

func unicodeTable(name string) *unicode.RangeTable {
	if t, ok := unicode.Categories[name]; ok {
		return t
	}
	if t, ok := unicode.Properties[name]; ok {
		return t
	}
	if t, ok := unicode.Scripts[name]; ok {
		return t
	}
	switch name {
	case "Letter":
		return unicode.Letter
	case "Number":
		return unicode.Number
	case "Upper":
		return unicode.Upper
	case "Lower":
		return unicode.Lower
	case "Title":
		return unicode.Title
	case "Other":
		return unicode.Other
	case "Punct":
		return unicode.Punct
	case "Space":
		return unicode.Space
	case "Symbol":
		return unicode.Symbol
	case "Digit":
		return unicode.Digit
	case "Mark":
		return unicode.Mark
	}
	return nil
}

func (st *state) validRune(l lin) bool {
	if st.flagOf(l)&fValid != 0 {
		return true
	}
	return st.ge0(l) && st.ge0(lc(0xD7FF).sub(l))
}

func (e *engine) runeLen(st *state, x lin) lin {
	if x.isConst() {
		n := 3
		switch {
		case x.c < 0x80:
			n = 1
		case x.c < 0x800:
			n = 2
		case x.c >= 0x10000:
			n = 4
		}
		return lc(int64(n))
	}
	s := symFor("runelen:" + x.String())
	// The name is a function of the rune, so earlier facts about it hold.
	known := false
	for _, c := range st.cons {
		if c.has(s) {
			known = true
		}
	}
	if !known {
		st.killSym(s)
		st.cons = append(st.cons, lv(s).addc(-1), lc(4).sub(lv(s)))
	}
	return lv(s)
}

// partCond: p is found in s at absolute index at.
func (e *engine) partCond(fr *frame, st *state, in *ssa.Call, s, p *slv, at lin) *cond {
	if p.n.isConst() && p.n.c == 0 {
		return boolConst(true)
	}
	c := e.opaque(fr, st, in)
	sb := *s
	pc := *p
	c.effect = func(e *engine, st *state, truth bool) bool {
		if !truth {
			return true
		}
		if !st.add(sb.n.sub(pc.n)) {
			return false
		}
		x := &slv{sb.base, at, pc.n}
		return e.sameBytes(st, x, &pc)
	}
	return c
}

// decodeRune decodes the first rune of the non-empty s: the ASCII case, where
// the rune is the byte, and the rest.
func (e *engine) decodeRune(fr *frame, st *state, in ssa.Value, s *slv, t types.Type) (rs, sz []lin, out []*state) {
	b := e.byteAt(st, s.base, s.off)
	if b.isConst() {
		if b.c < 0x80 {
			return []lin{b}, []lin{lc(1)}, []*state{st}
		}
	} else {
		set, _ := st.linSet(b)
		lo, hi := set.and(byteRange(0, 0x7F)), set.and(byteRange(0x80, 0xFF))
		if !lo.empty() {
			a := st
			if !hi.empty() {
				a = st.clone()
			}
			a.setSet(b.s[0], lo)
			if e.settleElem(a) {
				a.flags[b.s[0]] |= fValid
				rs, sz, out = append(rs, b), append(sz, lc(1)), append(out, a)
			}
		}
		if hi.empty() {
			return
		}
		st.setSet(b.s[0], hi)
		if !e.settleElem(st) {
			return
		}
	}
	r := symFor(fr.name(in, "#rune"))
	n := symFor(fr.name(in, "#size"))
	st.kill(r)
	st.kill(n)
	set := byteRange(0x80, 0xFF)
	set.other = true
	st.sets[r] = set
	st.flags[r] = fValid
	st.cons = append(st.cons, lv(r).addc(-0x80), lv(n).addc(-1), lc(4).sub(lv(n)))
	if !st.add(s.n.sub(lv(n))) {
		return
	}
	// Every byte of it is outside ASCII; the last one is what matters.
	if !e.narrowByte(st, s.base, s.off.add(lv(n)).addc(-1), byteRange(0x80, 0xFF)) {
		return
	}
	return append(rs, lv(r)), append(sz, lv(n)), append(out, st)
}

// index models the searches that give -1 or a position.
func (e *engine) index(fr *frame, st *state, in *ssa.Call, name string, args []aval) []*state {
	a := in.Call.Args
	s := e.slVal(fr, st, a[0])
	last := strings.Contains(name, "Last")
	// What is searched for: length, and the byte when it is a constant one.
	sep := lc(1)
	ch := int64(-1)
	switch {
	case strings.HasSuffix(name, "IndexByte"):
		if c, ok := args[1].(lin); ok && c.isConst() {
			ch = c.c
		}
	case strings.HasSuffix(name, "IndexRune"):
		if c, ok := args[1].(lin); ok && c.isConst() && c.c < 0x80 {
			ch = c.c
		}
	case strings.HasSuffix(name, "Func"), strings.HasSuffix(name, "Any"):
	default:
		p := e.slVal(fr, st, a[1])
		sep = p.n
		if p.n.isConst() && p.n.c == 1 && p.off.isConst() {
			if b := e.byteAt(st, p.base, p.off); b.isConst() {
				ch = b.c
			}
		}
	}
	// Absent.
	no := st.clone()
	no.env[in] = lc(-1)
	var out []*state
	okNo := true
	if ch >= 0 {
		okNo = e.excludeByte(no, s.base, s.off, s.end(), ch)
	}
	note := func(s2 *state, hi lin) {
		// No newline lies before the first one.
		if ch == '\n' && !last && len(s.off.s) > 0 {
			s2.elems = append(s2.elems[:len(s2.elems):len(s2.elems)], elemFact{baseID("quiet:newline:" + string(s.base)), s.off, map[string]aval{"": hi}})
		}
	}
	if okNo {
		note(no, s.end())
		out = append(out, no)
	}
	// Found at position i.
	i := e.freshInt(st, fr.name(in, ""), in.Type())
	if !st.add(i) || !st.add(s.n.sub(i).sub(sep)) {
		return out
	}
	st.env[in] = i
	if ch >= 0 {
		at := s.off.add(i)
		if ch == '\n' && !st.quiet(s.base, at) {
			return out
		}
		note(st, at)
		if !e.knowByte(st, s.base, at, byte(ch)) {
			return out
		}
		ok := false
		if last {
			ok = e.excludeByte(st, s.base, at.addc(1), s.end(), ch)
		} else {
			ok = e.excludeByte(st, s.base, s.off, at, ch)
		}
		if !ok {
			return out
		}
	}
	return append(out, st)
}

// excludeByte: no byte of b in [lo, hi) is c. Known elements that are c lie outside.
func (e *engine) excludeByte(st *state, b baseID, lo, hi lin, c int64) bool {
	for _, el := range st.elems {
		if el.base != b {
			continue
		}
		set, ok := st.elemSet(el)
		if !ok {
			continue
		}
		v, one := set.single()
		if !one || v != c {
			continue
		}
		// idx < lo or idx >= hi; usable when one side is excluded.
		if st.ge0(hi.sub(el.idx).addc(-1)) {
			if !st.add(lo.sub(el.idx).addc(-1)) {
				return false
			}
		} else if st.ge0(el.idx.sub(lo)) {
			if !st.add(el.idx.sub(hi)) {
				return false
			}
		}
	}
	return true
}

// findIndex models a search for a regular expression.
func (e *engine) findIndex(fr *frame, st *state, in *ssa.Call, args []aval) []*state {
	s := e.slVal(fr, st, in.Call.Args[1])
	pat := e.pattern(in.Call.Args[0])
	minLen, anchored := pat.min, pat.anchored
	no := st.clone()
	no.env[in] = &slv{nilBase, lc(0), lc(0)}
	out := []*state{no}
	lo, hi := symFor(fr.name(in, "#lo")), symFor(fr.name(in, "#hi"))
	st.kill(lo)
	st.kill(hi)
	l, h := lv(lo), lv(hi)
	if anchored {
		l = lc(0)
	} else {
		st.cons = append(st.cons, l)
	}
	if !st.add(h.sub(l).addc(-minLen)) || !st.add(s.n.sub(h)) {
		return out
	}
	b := e.newBase(fr, st, in, false)
	st.heap[cellKey{"cap:" + string(b), ""}] = lc(2)
	st.elems = append(st.elems[:len(st.elems):len(st.elems)], elemFact{b, lc(0), map[string]aval{"": l}}, elemFact{b, lc(1), map[string]aval{"": h}})
	st.env[in] = &slv{b, lc(0), lc(2)}
	if e.onFind != nil && !e.onFind(e, st, pat, s, l, h) {
		return out
	}
	return append(out, st)
}
