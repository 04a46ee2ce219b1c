package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The scan-path analysis: an abstract interpretation of Scanner.Scan for an
// arbitrary text, deciding that no panic is reachable (C02), every loop ends
// (C03), and the reported byte ranges are sane (C01).

type scanClient struct {
	w                   *World
	eng                 *engine
	sym                 map[string]sym
	matchT, licT, wordT types.Type
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

const (
	dfaBase  baseID = "ext:dfa"
	dictBase baseID = "ext:words"
	licBase  baseID = "ext:licenses"
	textBase baseID = "ext:text"
)

var (
	nDict = "number of dictionary words"
	nLic  = "number of licenses"
	nDFA  = "size of the DFA"
)

func (c *scanClient) field(e *engine, st *state, obj, path string, t types.Type) (aval, bool) {
	slice := func(b baseID, name string, min int64) (aval, bool) {
		n := lv(symFor(name))
		st.cons = append(st.cons, n.addc(-min), maxLen().sub(n))
		st.newCapSafe(b, n)
		return &slv{b, lc(0), n}, true
	}
	switch u := t.(type) {
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && lazyObj(obj) && strings.HasPrefix(obj, "ext:") {
			return ptrv{"ext:" + n.Obj().Name(), ""}, true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		if strings.HasPrefix(obj, "ext:") {
			return mapv{obj + path}, true
		}
	case *types.Slice:
		switch {
		case isNamed(u.Elem(), rootPath, "License") && strings.HasPrefix(obj, "ext:"):
			return slice(licBase, nLic, 1)
		case isNamed(t, matchPath, "reDFA"):
			return slice(dfaBase, nDFA, 1)
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String && strings.HasPrefix(obj, "ext:") {
			return slice(dictBase, nDict, 0)
		}
	}
	return nil, false
}

func (c *scanClient) lookup(e *engine, fr *frame, st *state, in *ssa.Lookup, m, key aval) ([]*state, bool) {
	k, ok := key.(structv)
	if !ok || !in.CommaOk {
		return nil, false
	}
	for _, x := range k {
		if l, ok := x.(lin); ok && l.isConst() && l.c < 0 {
			mt := in.X.Type().Underlying().(*types.Map)
			return e.one(st, in, tuplev{e.zero(mt.Elem()), boolConst(false)}), true
		}
	}
	return nil, false
}

// elem reads the compiled automaton.
func (c *scanClient) elem(e *engine, st *state, b baseID, idx lin, t types.Type) ([]*state, []aval, bool) {
	if b != dfaBase {
		return nil, nil, false
	}
	if el := st.findElem(b, idx); el != nil {
		if v, ok := el.f[""]; ok {
			return []*state{st}, []aval{v}, true
		}
	}
	note := func(s *state, v lin) aval {
		s.elems = append(s.elems[:len(s.elems):len(s.elems)], elemFact{b, idx, map[string]aval{"": v}})
		return v
	}
	if st.flagOf(idx)&fState != 0 || idx.isConst() && idx.c == 0 {
		// A state header: 2*transitions + whether it matches.
		var out []*state
		var vs []aval
		for m := int64(0); m <= 1; m++ {
			s := st.clone()
			n := symFor("trans:" + idx.String())
			s.killSym(n)
			if !s.add(lv(n)) || !s.add(lv(symFor(nDFA)).sub(idx).addc(-1-m).sub(lv(n).scale(2))) {
				continue
			}
			out = append(out, s)
			vs = append(vs, note(s, lv(n).scale(2).addc(m)))
		}
		return out, vs, true
	}
	// Part of a state whose header was read.
	for _, h := range st.elems {
		if h.base != b {
			continue
		}
		hv, ok := h.f[""].(lin)
		if !ok || st.flagOf(h.idx)&fState == 0 && !(h.idx.isConst() && h.idx.c == 0) {
			continue
		}
		odd := hv.c&1 != 0
		for _, k := range hv.k {
			if k&1 != 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		d := idx.sub(h.idx).addc(-1)
		m := int64(0)
		if odd {
			m = 1
			if d.isConst() && d.c == 0 {
				v := e.freshInt(st, "matchval:"+idx.String(), types.Typ[types.Int32])
				st.cons = append(st.cons, v, lv(symFor(nLic)).sub(v).addc(-1))
				return []*state{st}, []aval{note(st, v)}, true
			}
		}
		d = d.addc(-m)
		size := hv.addc(-m)
		if !st.ge0(d) || !st.ge0(size.sub(d).addc(-1)) {
			continue
		}
		for _, k := range d.k {
			if k&1 != 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if d.c&1 != 0 {
			v := e.freshInt(st, "next:"+idx.String(), types.Typ[types.Int32])
			st.flags[v.s[0]] |= fState
			st.cons = append(st.cons, v, lv(symFor(nDFA)).sub(v).addc(-1))
			return []*state{st}, []aval{note(st, v)}, true
		}
		v := e.freshInt(st, "word:"+idx.String(), types.Typ[types.Int32])
		first := idx.sub(d)
		maybe := !st.ge0(d.addc(-1))
		if maybe && !(d.isConst() && d.c == 0) {
			if el := st.findElem(b, first); el != nil {
				if l, ok := el.f[""].(lin); ok && st.ge0(l) {
					maybe = false
				}
			}
		}
		var out []*state
		var vs []aval
		if maybe {
			s := st.clone()
			if s.addEq(d) {
				out = append(out, s)
				vs = append(vs, note(s, lc(-2)))
			}
		}
		if st.add(v) && st.add(lv(symFor(nDict)).sub(v).addc(-1)) {
			out = append(out, st)
			vs = append(vs, note(st, v))
		}
		return out, vs, true
	}
	if e.suppress == 0 {
		e.undecided("the DFA is read at %s, which is not a decoded position", idx)
	}
	return nil, nil, false
}

// part tells apart the ways a slice lies in a state of the automaton.
func (c *scanClient) part(st *state, v *slv) string {
	if v.base != dfaBase {
		return ""
	}
	best := ""
	for _, h := range st.elems {
		if h.base != v.base || st.flagOf(h.idx)&fState == 0 {
			continue
		}
		if d := v.off.sub(h.idx); d.isConst() && d.c > 0 {
			if hv, ok := h.f[""].(lin); ok {
				k := fmt.Sprintf("@%d/%d", d.c, hv.c&1)
				// The first word after the header, when it was looked at.
				if el := st.findElem(v.base, h.idx.addc(1+hv.c&1)); el != nil {
					if w, ok := el.f[""].(lin); ok {
						if w.isConst() && w.c == -2 {
							k += "*"
						} else if st.ge0(w) {
							k += "w"
						}
					}
				}
				if best == "" || k < best {
					best = k
				}
			}
		}
	}
	return best
}

// onFind: a match of a pattern that begins with letters ended by a fixed
// character covers the word it begins in, when it begins where the word does.
// (Words of a text end before the first character that no word contains: C11.)
func (c *scanClient) onFind(e *engine, st *state, p *patternInfo, s *slv, lo, hi lin) bool {
	defer func() {
		if p.oneLine {
			st.elems = append(st.elems[:len(st.elems):len(st.elems)], elemFact{quietBase(p, s.base), s.off.add(lo), map[string]aval{"": s.off.add(hi)}})
		}
	}()
	if !p.anchored || !p.word {
		return true
	}
	for _, el := range st.elems {
		if t := e.elemType[el.base]; t == nil || !isNamed(t, matchPath, "Word") {
			continue
		}
		wlo, ok1 := el.f[".1"].(lin)
		whi, ok2 := el.f[".2"].(lin)
		if ok1 && ok2 && s.base == textBase && wlo.eq(s.off) {
			if !st.add(s.off.add(hi).sub(whi)) {
				return false
			}
			// The word consists of letters the pattern begins with, so no
			// match of the same pattern ended within it.
			for _, x := range st.elems {
				end, ok := x.f[""].(lin)
				if !ok || !p.maximal || x.base != quietBase(p, s.base) || x.idx.eq(s.off) {
					continue
				}
				if st.ge0(whi.sub(end).addc(-1)) && !st.add(wlo.sub(end)) {
					return false
				}
			}
		}
	}
	return true
}

// A result type: the fields that delimit it, and the end of what it lies in.
func (c *scanClient) resultType(t types.Type) (lo, hi string, ok bool) {
	if !isNamed(t, rootPath, "Match") && !isNamed(t, matchPath, "Match") {
		return
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "Start":
			lo = fmt.Sprintf(".%d", i)
		case "End":
			hi = fmt.Sprintf(".%d", i)
		}
	}
	return lo, hi, lo != "" && hi != ""
}

// onAppend: every result added to a list of matches delimits part of the text
// (or of its words) and follows the result before it.
func (c *scanClient) onAppend(e *engine, fr *frame, st *state, in ssa.Instruction, t types.Type, f map[string]aval, q *seqInfo) {
	plo, phi, ok := c.resultType(t)
	if !ok || isNamed(t, matchPath, "Match") && in.Parent().Package().Pkg.Path() != matchPath {
		return // (the scanner adds an end mark to the matches it was given)
	}
	show := func() string {
		s := fmt.Sprintf("Start %s, End %s", avText(f[plo]), avText(f[phi]))
		if q != nil && !q.empty {
			s += ", previous End " + q.lastOf(phi).String()
		}
		if e.trace {
			s += "\n" + st.String()
		}
		return s
	}
	lo, ok1 := f[plo].(lin)
	hi, ok2 := f[phi].(lin)
	if !ok1 || !ok2 {
		e.oblige(fr, in, "result-range", false, func() string { return "the limits of the result are not known" })
		return
	}
	if isNamed(t, rootPath, "Match") {
		// The next match follows the word before one known to come after this.
		for _, x := range st.elems[:len(st.elems):len(st.elems)] {
			q, w := st.seqs[x.base], e.elemType[x.base]
			if q == nil || q.top || q.empty || w == nil || !isNamed(w, matchPath, "Word") || len(x.idx.s) == 0 {
				continue
			}
			if wlo, ok := x.f[".1"].(lin); ok && st.ge0(wlo.sub(hi)) {
				e.materialise(st, x.base, x.idx.addc(-1), false)
			}
		}
	}
	limit := lv(symFor("len(text)"))
	if isNamed(t, matchPath, "Match") {
		limit = limit.addc(0) // there are at most as many words as bytes
		e.oblige(fr, in, "result-nonempty", st.ge0(hi.sub(lo).addc(-1)), show)
	} else if id, ok := f[".4"].(*cond); ok && id.op == cConst && id.b {
		e.oblige(fr, in, "result-nonempty", st.ge0(hi.sub(lo).addc(-1)), show)
	}
	e.oblige(fr, in, "result-range", st.ge0(lo) && st.ge0(hi.sub(lo)) && st.ge0(limit.sub(hi)), show)
	if q == nil || q.top {
		e.oblige(fr, in, "result-order", false, func() string { return "the results before it are not known" })
	} else if !q.empty {
		e.oblige(fr, in, "result-order", st.ge0(lo.sub(q.lastOf(phi))), show)
	}
}

// aheadOK: after a URL the loops are followed to where the words lie after it.
func (c *scanClient) aheadOK(st *state) bool {
	for _, q := range st.seqs {
		if !q.top && !q.empty && strings.Contains(q.lastC, ".4=true") {
			return true
		}
	}
	return false
}

// onStore: results are not changed once they are in the list.
func (c *scanClient) onStore(e *engine, fr *frame, in *ssa.Store) {
	t := in.Val.Type()
	if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
		t = fa.X.Type().Underlying().(*types.Pointer).Elem()
	}
	if _, _, ok := c.resultType(t); ok && (!isNamed(t, matchPath, "Match") || in.Parent().Package().Pkg.Path() == matchPath) {
		e.oblige(fr, in, "result-store", false, func() string { return "a result in the list is changed" })
	}
}

func newScanClient(w *World) *scanClient {
	e := newEngine(w)
	c := &scanClient{w: w, eng: e}
	e.field = c.field
	e.lookup = c.lookup
	e.elem = c.elem
	e.part = c.part
	e.onFind = c.onFind
	e.horizon = lv(symFor("len(text)")).addc(1)
	e.onAppend = c.onAppend
	e.aheadOK = c.aheadOK
	e.onStore = c.onStore
	sizeNames = []string{nLic}
	return c
}

func (c *scanClient) run(fn *ssa.Function) []retState {
	st := newState()
	for _, n := range sizeNames {
		st.cons = append(st.cons, lv(symFor(n)), maxLen().sub(lv(symFor(n))))
	}
	var args []aval
	for _, p := range fn.Params {
		var v aval
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if n, ok := t.Elem().(*types.Named); ok {
				v = ptrv{"ext:" + n.Obj().Name(), ""}
			}
		case *types.Slice:
			if isByte(t.Elem()) {
				n := lv(symFor("len(text)"))
				st.cons = append(st.cons, n, maxLen().sub(n))
				st.newCapSafe(textBase, n)
				v = &slv{textBase, lc(0), n}
			} else if isNamed(p.Type(), matchPath, "reDFA") {
				v, _ = c.field(c.eng, st, "ext:MultiLRE", "", p.Type())
			} else if isNamed(t.Elem(), matchPath, "Word") {
				// The words of a text, as Split gives them.
				sl := c.eng.fresh(st, "p:"+p.Name(), p.Type()).(*slv)
				tl := lv(symFor("len(text)"))
				cls := []lin{lv(curField(1)), lv(curField(2)).sub(lv(curField(1))), tl.sub(lv(curField(2)))}
				q := &seqInfo{n: sl.n, fields: []string{".0", ".1", ".2"}, lastC: "?", cls: map[string][]lin{}, adj: map[[2]string][]lin{}}
				for _, a := range []string{"", ".0=-1"} {
					q.cls[a] = cls
					for _, b := range []string{"", ".0=-1"} {
						q.adj[[2]string{a, b}] = []lin{lv(curField(1)).sub(lv(prevField(2)))}
					}
				}
				st.seqs[sl.base] = q
				v = sl
			} else {
				v = c.eng.fresh(st, "p:"+p.Name(), p.Type())
			}
		case *types.Basic:
			if t.Kind() == types.String {
				n := lv(symFor("len(text)"))
				st.cons = append(st.cons, n, maxLen().sub(n))
				v = &slv{textBase, lc(0), n}
			} else {
				v = c.eng.fresh(st, "p:"+p.Name(), p.Type())
			}
		default:
			v = c.eng.fresh(st, "p:"+p.Name(), p.Type())
		}
		args = append(args, v)
	}
	return c.eng.runFn(fn, fn.Name(), 0, args, nil, st)
}

func init() {
	checks["C01"] = checkScanRanges
	checks["C02"] = checkScanPanics
	checks["C03"] = checkScanLoops
	hiddenChecks["SCAN"] = checkScanDebug
}

// scanRuns holds the analysis of a repository, which three checks share.
var scanRuns = map[string]*scanRun{}

type scanRun struct {
	c    *scanClient
	fn   *ssa.Function
	rets []retState
}

func runScan(w *World, r *Report) *scanRun {
	x := scanRuns[w.Repo]
	if x == nil {
		if ov := elementCopies(w); len(ov) > 0 {
			if w1, err := loadWith(w.Repo, ov); err == nil {
				w = w1
			}
		}
		x = &scanRun{c: newScanClient(w)}
		for _, f := range AllFuncs(w.SPkg[rootPath]) {
			if f.Name() == "Scan" && f.Signature.Recv() != nil && f.Parent() == nil {
				x.fn = f
			}
		}
		if x.fn == nil {
			r.bad("scan", "Scanner.Scan", "-", "no method Scan to analyse")
			return nil
		}
		x.rets = x.c.run(x.fn)
		scanRuns[w.Repo] = x
	}
	e := x.c.eng
	for _, s := range e.why {
		r.bad("undecided", shortFn(x.fn), x.c.w.Pos(x.fn.Pos()), s)
	}
	r.Counts["functions analysed"] = len(e.calls)
	r.Counts["abstract steps"] = e.steps
	r.Counts["functions given a contract"] = len(e.contracts)
	var fns []string
	for f := range e.calls {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	r.sample("analysed from Scanner.Scan with an arbitrary text and an arbitrary compiled scanner: %s", strings.Join(fns, ", "))
	r.Assume = append(r.Assume,
		"the compiled automaton decodes as the builder writes it (header, match value, word/next pairs; offsets of states; match values below the number of licenses)",
		"a regexp match lies within its input and satisfies what its pattern's syntax tree implies (leftmost, minimum length, anchoring)",
		"lengths are below 2^31 (words hold 32-bit offsets)",
		"sync.Once.Do runs its function at most once and has completed when it returns (its contents: C09, L02)")
	return x
}

// report turns the engine's obligations of the given kinds into obligations.
func (x *scanRun) report(r *Report, want func(kind string) bool) {
	e := x.c.eng
	for k, o := range e.obs {
		if !want(k.kind) {
			continue
		}
		r.Counts["obligations"]++
		d := o.detail
		if i := strings.IndexByte(d, '\n'); i >= 0 {
			d = d[:i]
		}
		r.check(o.ok, k.kind, shortFn(k.in.Parent()), x.c.w.instrPos(k.in), d)
	}
	sort.SliceStable(r.Obls, func(i, j int) bool {
		a, b := r.Obls[i], r.Obls[j]
		if a.Pos != b.Pos {
			return a.Pos < b.Pos
		}
		return a.Rule < b.Rule
	})
}

func checkScanPanics(w *World, r *Report) {
	r.Rule = "abstract interpretation of Scanner.Scan over every text and every compiled scanner: each index, slice, division, dereference, conversion and explicit panic is shown safe or unreachable"
	x := runScan(w, r)
	if x == nil {
		return
	}
	x.report(r, func(k string) bool { return !strings.HasPrefix(k, "result-") })
	r.Minimums["obligations"] = 60
}

func checkScanLoops(w *World, r *Report) {
	r.Rule = "abstract interpretation of Scanner.Scan: every loop has a measure over its variables that is bounded below and decreases on every iteration, and no call chain recurs"
	x := runScan(w, r)
	if x == nil {
		return
	}
	e := x.c.eng
	var hs []*ssa.BasicBlock
	for h := range e.loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool {
		return e.loopPos(e.info(hs[i].Parent()).loops[hs[i]]) < e.loopPos(e.info(hs[j].Parent()).loops[hs[j]])
	})
	for _, h := range hs {
		o := e.loops[h]
		r.Counts["loops"]++
		r.check(o.ok, "loop-ends", shortFn(h.Parent()), e.loopPos(e.info(h.Parent()).loops[h]), o.detail)
		r.sample("%s at %s: %s", shortFn(h.Parent()), e.loopPos(e.info(h.Parent()).loops[h]), o.detail)
	}
	r.Minimums["loops"] = 8
}

func checkScanRanges(w *World, r *Report) {
	r.Rule = "abstract interpretation of Scanner.Scan: 0 <= Start <= End <= len(text) for every match appended (and Start < End for URLs and word matches), word matches do not overlap, and 0 <= Percent <= 100 at every return"
	x := runScan(w, r)
	if x == nil {
		return
	}
	x.report(r, func(k string) bool { return strings.HasPrefix(k, "result-") })
	r.Minimums["obligations"] = 6
	// Percent.
	t, ok := x.fn.Signature.Results().At(0).Type().Underlying().(*types.Struct)
	at := -1
	for i := 0; ok && i < t.NumFields(); i++ {
		if t.Field(i).Name() == "Percent" {
			at = i
		}
	}
	if at < 0 {
		r.bad("percent", shortFn(x.fn), x.c.w.Pos(x.fn.Pos()), "the result has no field Percent")
		return
	}
	for _, rs := range x.rets {
		r.Counts["return states"]++
		var v aval
		if sv, ok := rs.vals[0].(structv); ok {
			v = sv[at]
		}
		f, ok := v.(*fltv)
		good := false
		if ok {
			good = percentOK(rs.st, f)
		}
		r.check(good, "percent", shortFn(x.fn), x.c.w.Pos(x.fn.Pos()), "Percent = "+avText(v)+" is not shown to lie in 0..100")
	}
	r.Minimums["return states"] = 2
}

// percentOK shows 0 <= f <= 100 for a product or quotient of constants and
// converted integers. Rounding is monotonic, and 100*n is exact for n < 2^46.
func percentOK(st *state, f *fltv) bool {
	k := 1.0
	var num, den []lin
	ok := true
	var walk func(f *fltv, inv bool)
	walk = func(f *fltv, inv bool) {
		switch {
		case f == nil:
			ok = false
		case f.op == "const" && !inv:
			k *= f.c
		case f.op == "const" && f.c != 0:
			k /= f.c
		case f.op == "int" && inv:
			den = append(den, f.i)
		case f.op == "int":
			num = append(num, f.i)
		case f.op == "*":
			walk(f.x, inv)
			walk(f.y, inv)
		case f.op == "/":
			walk(f.x, inv)
			walk(f.y, !inv)
		default:
			ok = false
		}
	}
	walk(f, false)
	switch {
	case !ok || k < 0 || k > 100:
		return false
	case k == 0 || len(num) == 0 && len(den) == 0:
		return len(den) == 0
	case len(num) != 1 || len(den) != 1:
		return false
	}
	return st.ge0(den[0].addc(-1)) && st.ge0(num[0]) && st.ge0(den[0].sub(num[0]))
}

func checkScanDebug(w *World, r *Report) {
	name := os.Getenv("AIENTRY")
	if name == "" {
		name = "Scan"
	}
	c := newScanClient(w)
	for path, p := range w.SPkg {
		if path == oldPath {
			continue
		}
		for _, f := range AllFuncs(p) {
			if f.Name() != name && shortFn(f) != name || name == "Scan" && f.Signature.Recv() == nil {
				continue
			}
			rets := c.run(f)
			fmt.Printf("== %s: %d steps, %d returns\n", shortFn(f), c.eng.steps, len(rets))
			if c.eng.trace {
				for _, rs := range rets {
					fmt.Printf("-- return %s\n%s", avTexts(rs.vals), rs.st)
				}
			}
		}
	}
	c.dump()
}

func (c *scanClient) dump() {
	e := c.eng
	var out []string
	good := 0
	for k, o := range e.obs {
		if o.ok {
			good++
			continue
		}
		out = append(out, fmt.Sprintf("FAIL %s %s %s (%s): %s", c.w.instrPos(k.in), shortFn(k.in.Parent()), k.kind, o.ctx, o.detail))
	}
	for h, o := range e.loops {
		if o.ok {
			good++
			out = append(out, fmt.Sprintf("loop %s: %s", e.loopPos(e.info(h.Parent()).loops[h]), o.detail))
		} else {
			out = append(out, fmt.Sprintf("LOOP %s: %s", e.loopPos(e.info(h.Parent()).loops[h]), o.detail))
		}
	}
	for _, s := range e.why {
		out = append(out, "UNDECIDED "+s)
	}
	sort.Strings(out)
	fmt.Println(strings.Join(out, "\n"))
	var cs []string
	for n, k := range e.calls {
		cs = append(cs, fmt.Sprintf("%s:%d", n, k))
	}
	sort.Strings(cs)
	fmt.Println("good", good, "calls", cs)
}
