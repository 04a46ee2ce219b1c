package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values of the scan-path analysis. nil means unknown.
type aval interface{}

type baseID string

const nilBase baseID = "nil"

// slv is a string or slice: elements [off, off+n) of base.
type slv struct {
	base   baseID
	off, n lin
}

func (s *slv) end() lin { return s.off.add(s.n) }

// ptrv points to a cell of an object; elemv points to (part of) an element of a base.
type ptrv struct {
	obj  string
	path string
}
type elemv struct {
	base baseID
	idx  lin
	path string
}
type nilv struct{}
type structv []aval
type tuplev []aval
type fnv struct {
	fn   *ssa.Function
	bind []aval
}
type mapv struct{ obj string }
type iterv struct {
	key string
	s   *slv // string iteration
}

// fltv is a float term: an integer converted, a constant, or an operation.
type fltv struct {
	op   string // "int", "const", "*", "/", "+", "-"
	i    lin
	c    float64
	x, y *fltv
}

// A condition.
type condOp int

const (
	cConst condOp = iota
	cGE           // l >= 0
	cEQ           // l == 0
	cSet          // sym s in set yes (value not in the set: set no); both may hold for uncertain members
	cOpaque
	cStrEq
	cNil
)

type cond struct {
	op      condOp
	neg     bool
	b       bool
	l       lin
	s       sym
	yes, no bset
	key     string
	x, y    *slv
	effect  func(e *engine, st *state, truth bool) bool
}

func boolConst(b bool) *cond { return &cond{op: cConst, b: b} }

func (c *cond) not() *cond {
	d := *c
	if d.op == cConst {
		d.b = !d.b
		return &d
	}
	d.neg = !d.neg
	return &d
}

func (c *cond) text() string {
	n := ""
	if c.neg {
		n = "!"
	}
	switch c.op {
	case cConst:
		return fmt.Sprint(c.b)
	case cGE:
		return n + c.l.String() + ">=0"
	case cEQ:
		return n + c.l.String() + "=0"
	case cSet:
		return n + fmt.Sprintf("set(%s,%x%v,%x%v)", symName(c.s), c.yes.w, c.yes.other, c.no.w, c.no.other)
	case cStrEq:
		return n + "eq(" + slText(c.x) + "," + slText(c.y) + ")"
	}
	return n + c.key
}

func slText(s *slv) string { return fmt.Sprintf("%s[%s:+%s]", s.base, s.off, s.n) }

func avText(v aval) string {
	switch v := v.(type) {
	case nil:
		return "?"
	case lin:
		return v.String()
	case *slv:
		return slText(v)
	case *cond:
		return v.text()
	case ptrv:
		return "&" + v.obj + v.path
	case elemv:
		return fmt.Sprintf("&%s[%s]%s", v.base, v.idx, v.path)
	case nilv:
		return "nil"
	case structv:
		return "{" + avTexts(v) + "}"
	case tuplev:
		return "(" + avTexts(v) + ")"
	case fnv:
		return v.fn.Name() + "(" + avTexts(v.bind) + ")"
	case mapv:
		return "map:" + v.obj
	case iterv:
		return "iter:" + v.key
	case *fltv:
		return v.text()
	}
	return fmt.Sprintf("%T", v)
}

func (f *fltv) text() string {
	switch f.op {
	case "int":
		return "float(" + f.i.String() + ")"
	case "const":
		return fmt.Sprint(f.c)
	}
	return "(" + f.x.text() + f.op + f.y.text() + ")"
}

func avTexts(vs []aval) string {
	var s []string
	for _, v := range vs {
		s = append(s, avText(v))
	}
	return strings.Join(s, ",")
}

// bset is a set over values 0..255 and "any other value".
type bset struct {
	w     [4]uint64
	other bool
}

func (b bset) has(v int64) bool {
	if v < 0 || v > 255 {
		return b.other
	}
	return b.w[v>>6]>>(uint(v)&63)&1 != 0
}
func (b *bset) put(v int64) { b.w[v>>6] |= 1 << (uint(v) & 63) }
func (b bset) and(c bset) bset {
	for i := range b.w {
		b.w[i] &= c.w[i]
	}
	b.other = b.other && c.other
	return b
}
func (b bset) or(c bset) bset {
	for i := range b.w {
		b.w[i] |= c.w[i]
	}
	b.other = b.other || c.other
	return b
}
func (b bset) empty() bool { return b == bset{} }
func (b bset) single() (int64, bool) {
	if b.other {
		return 0, false
	}
	n, v := 0, int64(0)
	for i := int64(0); i < 256; i++ {
		if b.has(i) {
			n++
			v = i
		}
	}
	return v, n == 1
}
func (b bset) bounds() (lo, hi int64) {
	lo, hi = 256, -1
	for i := int64(0); i < 256; i++ {
		if b.has(i) {
			if i < lo {
				lo = i
			}
			hi = i
		}
	}
	return
}
func byteRange(lo, hi int64) (b bset) {
	for i := lo; i <= hi; i++ {
		b.put(i)
	}
	return
}

var allBytes = byteRange(0, 255)

// elemFact records what is known of one element of a base: its leaf fields.
type elemFact struct {
	base baseID
	idx  lin
	f    map[string]aval
}

// seqInfo summarises the elements of a growable sequence. Immutable.
type seqInfo struct {
	n      lin // number of elements
	empty  bool
	top    bool             // nothing known
	cls    map[string][]lin // class -> constraints over field symbols (curField) and outer symbols
	consts map[string]map[string]int64
	adj    map[[2]string][]lin // (class of previous, class) -> constraints over prevField and curField
	fields []string            // integer leaf paths
	last   map[string]lin      // fields of the last element (zeros when empty)
	lastC  string              // class of the last element ("" when empty, "?" unknown)
	// Axioms attached by the client.
	kind string
}

func curField(i int) sym  { return sym(-1 - i) }
func prevField(i int) sym { return sym(-101 - i) }

type cellKey struct{ obj, path string }

type state struct {
	cons  []lin
	neq   []lin
	heap  map[cellKey]aval
	seqs  map[baseID]*seqInfo
	elems []elemFact
	sets  map[sym]bset
	flags map[sym]uint8 // fValid, fState
	truth map[string]bool
	env   map[ssa.Value]aval   // current frame
	stack []map[ssa.Value]aval // callers' frames (immutable maps)
}

func newState() *state {
	return &state{heap: map[cellKey]aval{}, seqs: map[baseID]*seqInfo{}, sets: map[sym]bset{}, flags: map[sym]uint8{}, truth: map[string]bool{}, env: map[ssa.Value]aval{}}
}

func (st *state) clone() *state {
	n := &state{
		cons: st.cons[:len(st.cons):len(st.cons)], neq: st.neq[:len(st.neq):len(st.neq)],
		elems: st.elems[:len(st.elems):len(st.elems)], stack: st.stack[:len(st.stack):len(st.stack)],
		heap:  make(map[cellKey]aval, len(st.heap)),
		seqs:  make(map[baseID]*seqInfo, len(st.seqs)),
		sets:  make(map[sym]bset, len(st.sets)),
		flags: make(map[sym]uint8, len(st.flags)),
		truth: make(map[string]bool, len(st.truth)),
		env:   make(map[ssa.Value]aval, len(st.env)),
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.seqs {
		n.seqs[k] = v
	}
	for k, v := range st.sets {
		n.sets[k] = v
	}
	for k, v := range st.flags {
		n.flags[k] = v
	}
	for k, v := range st.truth {
		n.truth[k] = v
	}
	for k, v := range st.env {
		n.env[k] = v
	}
	return n
}

// lower bound of g in st, using set bounds too.
func (st *state) lb(g lin) (int64, bool) {
	if g.isConst() {
		return g.c, true
	}
	for _, c := range st.cons {
		if c.eq(g) {
			// g >= 0 at least; fall through to get the exact bound only when needed
			break
		}
	}
	c, ok, inf := lowerBound(st.withSets(g), g)
	if inf {
		return 1 << 40, true
	}
	return c, ok
}

// withSets returns the constraints extended by interval facts from value sets.
func (st *state) withSets(g lin) []lin {
	if len(st.sets) == 0 {
		return st.cons
	}
	in := map[sym]bool{}
	for _, s := range g.s {
		in[s] = true
	}
	for _, c := range st.cons {
		for _, s := range c.s {
			in[s] = true
		}
	}
	out := st.cons[:len(st.cons):len(st.cons)]
	for s := range in {
		if b, ok := st.sets[s]; ok && !b.other {
			lo, hi := b.bounds()
			out = append(out, lv(s).addc(-lo), lv(s).neg().addc(hi))
		}
	}
	return out
}

func (st *state) ge0(g lin) bool {
	if g.isConst() {
		return g.c >= 0
	}
	for _, c := range st.cons {
		if c.sameShape(g) && c.c <= g.c {
			return true
		}
	}
	c, ok := st.lb(g)
	if ok && c >= 0 {
		return true
	}
	if st.useNeq(g) {
		c, ok = st.lb(g)
		return ok && c >= 0
	}
	return false
}

// useNeq strengthens disequalities that touch a bound; reports any change.
func (st *state) useNeq(g lin) bool {
	changed := false
	for again := true; again; {
		again = false
		for i, d := range st.neq {
			if d.isConst() {
				continue
			}
			var add lin
			if c, ok := st.lb(d); ok && c >= 0 {
				if c > 0 {
					st.dropNeq(i)
					again = true
					break
				}
				add = d.addc(-1)
			} else if c, ok := st.lb(d.neg()); ok && c >= 0 {
				if c > 0 {
					st.dropNeq(i)
					again = true
					break
				}
				add = d.neg().addc(-1)
			} else {
				continue
			}
			st.dropNeq(i)
			st.cons = append(st.cons, add.tighten())
			changed, again = true, true
			break
		}
	}
	return changed
}

func (st *state) dropNeq(i int) {
	n := append([]lin{}, st.neq[:i]...)
	st.neq = append(n, st.neq[i+1:]...)
}

func (st *state) eq0(g lin) bool { return st.ge0(g) && st.ge0(g.neg()) }

// add adds g >= 0; false if st becomes infeasible.
func (st *state) add(g lin) bool {
	g = g.tighten()
	if g.isConst() {
		return g.c >= 0
	}
	for _, c := range st.cons {
		if c.sameShape(g) && c.c <= g.c {
			return true
		}
	}
	// Refine a value set.
	if len(g.s) == 1 && (g.k[0] == 1 || g.k[0] == -1) {
		if b, ok := st.sets[g.s[0]]; ok {
			n := bset{other: b.other}
			for v := int64(0); v < 256; v++ {
				if b.has(v) && g.c+g.k[0]*v >= 0 {
					n.put(v)
				}
			}
			if n.other && g.k[0] == -1 && g.c <= 255 {
				// x <= c <= 255: other values are those outside 0..255, which
				// are only the large ones for runes and bytes.
				n.other = false
			}
			if n.empty() {
				return false
			}
			st.setSet(g.s[0], n)
		}
	}
	st.cons = append(st.cons, g)
	if infeasibleCons(st.withSets(g), g) {
		return false
	}
	return true
}

func (st *state) addEq(g lin) bool { return st.add(g) && st.add(g.neg()) }

func (st *state) addNeq(g lin) bool {
	if g.isConst() {
		return g.c != 0
	}
	if len(g.s) == 1 && (g.k[0] == 1 || g.k[0] == -1) {
		if b, ok := st.sets[g.s[0]]; ok {
			v := -g.c * g.k[0]
			if v >= 0 && v <= 255 {
				n := b
				n.w[v>>6] &^= 1 << (uint(v) & 63)
				if n.empty() {
					return false
				}
				st.setSet(g.s[0], n)
				return true
			}
		}
	}
	for _, d := range st.neq {
		if d.eq(g) || d.eq(g.neg()) {
			return true
		}
	}
	if st.eq0(g) {
		return false
	}
	st.neq = append(st.neq, g)
	return true
}

// setSet narrows the value set of a symbol and separates element indexes whose
// values cannot be equal.
func (st *state) setSet(s sym, b bset) {
	st.sets[s] = b
	var mine []elemFact
	for _, e := range st.elems {
		if l, ok := e.f[""].(lin); ok && len(l.s) == 1 && l.s[0] == s && l.c == 0 {
			mine = append(mine, e)
		}
	}
	for _, m := range mine {
		for _, e := range st.elems {
			if e.base != m.base || e.idx.sameShape(m.idx) {
				continue
			}
			c, ok := st.elemSet(e)
			if ok && c.and(b).empty() {
				d := e.idx.sub(m.idx)
				dup := false
				for _, x := range st.neq {
					if x.eq(d) || x.eq(d.neg()) {
						dup = true
					}
				}
				if !dup {
					st.neq = append(st.neq, d)
				}
			}
		}
	}
}

func (st *state) elemSet(e elemFact) (bset, bool) {
	l, ok := e.f[""].(lin)
	if !ok {
		return bset{}, false
	}
	return st.linSet(l)
}

func (st *state) linSet(l lin) (bset, bool) {
	if l.isConst() {
		var b bset
		if l.c < 0 || l.c > 255 {
			b.other = true
		} else {
			b.put(l.c)
		}
		return b, true
	}
	if len(l.s) == 1 && l.k[0] == 1 && l.c == 0 {
		b, ok := st.sets[l.s[0]]
		return b, ok
	}
	return bset{}, false
}

func (st *state) findElem(base baseID, idx lin) *elemFact {
	for i := range st.elems {
		e := &st.elems[i]
		if e.base == base && e.idx.eq(idx) {
			return e
		}
	}
	for i := range st.elems {
		e := &st.elems[i]
		if e.base == base && !e.idx.sameShape(idx) && shareSym(e.idx, idx) && st.eq0(e.idx.sub(idx)) {
			return e
		}
	}
	return nil
}

func elemName(x elemFact) string { return string(x.base) + "[" + x.idx.String() }

// sameFields: the two are the same element.
func (st *state) sameFields(x, y elemFact) bool {
	var ps []string
	for p := range x.f {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		a, ok1 := x.f[p].(lin)
		b, ok2 := y.f[p].(lin)
		if ok1 && ok2 && !a.eq(b) && !st.addEq(a.sub(b)) {
			return false
		}
	}
	return true
}

func shareSym(a, b lin) bool { return true }

// capEnd is the absolute index in base up to which it may be resliced.
func (st *state) capEnd(b baseID) lin {
	if b == nilBase {
		return lc(0)
	}
	if v, ok := st.heap[cellKey{"cap:" + string(b), ""}]; ok {
		return v.(lin)
	}
	return lv(symFor("cap:" + string(b)))
}

// liveSyms collects the symbols of live values.
type liveSet struct {
	syms  map[sym]bool
	bases map[baseID]bool
	objs  map[string]bool
	at    map[elemKey]bool // elements at constant indexes that are pointed to
}

type elemKey struct {
	base baseID
	idx  int64
}

func (ls *liveSet) lin(l lin) {
	for _, s := range l.s {
		ls.syms[s] = true
	}
}

func (ls *liveSet) val(v aval) {
	switch v := v.(type) {
	case lin:
		ls.lin(v)
	case *slv:
		ls.lin(v.off)
		ls.lin(v.n)
		ls.bases[v.base] = true
		if strings.HasPrefix(string(v.base), "obj:") {
			ls.objs[string(v.base)[4:]] = true
		}
	case *cond:
		ls.lin(v.l)
		if v.op == cSet {
			ls.syms[v.s] = true
		}
		if v.x != nil {
			ls.val(v.x)
			ls.val(v.y)
		}
	case ptrv:
		ls.objs[v.obj] = true
	case elemv:
		ls.bases[v.base] = true
		ls.lin(v.idx)
		if v.idx.isConst() {
			if ls.at == nil {
				ls.at = map[elemKey]bool{}
			}
			ls.at[elemKey{v.base, v.idx.c}] = true
		}
	case structv:
		for _, x := range v {
			ls.val(x)
		}
	case tuplev:
		for _, x := range v {
			ls.val(x)
		}
	case fnv:
		for _, x := range v.bind {
			ls.val(x)
		}
	case mapv:
		ls.objs[v.obj] = true
	case iterv:
		ls.syms[symFor(v.key)] = true
		if v.s != nil {
			ls.val(v.s)
		}
	case *fltv:
		if v.op == "int" {
			ls.lin(v.i)
		}
		if v.x != nil {
			ls.val(v.x)
			ls.val(v.y)
		}
	}
}

// live computes what is reachable from the frames. Objects named "param:..."
// and globals stay live.
func (st *state) live(extra ...aval) *liveSet {
	ls := &liveSet{syms: map[sym]bool{}, bases: map[baseID]bool{}, objs: map[string]bool{}}
	for _, n := range sizeNames {
		ls.syms[symFor(n)] = true
	}
	for _, v := range st.env {
		ls.val(v)
	}
	for _, fr := range st.stack {
		for _, v := range fr {
			ls.val(v)
		}
	}
	for _, v := range extra {
		ls.val(v)
	}
	done := map[cellKey]bool{}
	for again := true; again; {
		again = false
		for k, v := range st.heap {
			if done[k] || strings.HasPrefix(k.obj, "cap:") {
				continue
			}
			if _, ok := rereadable(k, v); ok {
				continue
			}
			if ls.objs[k.obj] || !strings.HasPrefix(k.obj, "alloc:") {
				done[k] = true
				ls.val(v)
				again = true
			}
		}
	}
	for k, v := range st.heap {
		if sl, ok := rereadable(k, v); ok && (ls.bases[sl.base] || ls.syms[sl.n.s[0]]) {
			ls.val(v)
		}
	}
	for b := range ls.bases {
		ls.lin(st.capEnd(b))
		if q := st.seqs[b]; q != nil {
			ls.lin(q.n)
			for _, l := range q.last {
				ls.lin(l)
			}
			for _, cs := range q.cls {
				for _, c := range cs {
					ls.lin(c)
				}
			}
		}
	}
	for _, e := range st.elems {
		if strings.HasPrefix(string(e.base), "quiet:") {
			ls.bases[e.base] = true
		}
	}
	// Elements of live bases at live indexes carry live symbols.
	for again := true; again; {
		again = false
		for _, e := range st.elems {
			if !ls.bases[e.base] {
				continue
			}
			ok := ls.wants(st, e)
			for _, s := range e.idx.s {
				if !ls.syms[s] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for _, v := range e.f {
				if l, isL := v.(lin); isL {
					for _, s := range l.s {
						if !ls.syms[s] {
							ls.syms[s] = true
							again = true
						}
					}
				}
			}
		}
	}
	return ls
}

// wants: an element at a constant index of a sequence matters as long as
// something refers to its fields.
func (ls *liveSet) wants(st *state, e elemFact) bool {
	if q := st.seqs[e.base]; !e.idx.isConst() || q == nil || q.top || q.empty {
		return true
	}
	if ls.at[elemKey{e.base, e.idx.c}] {
		return true
	}
	for _, v := range e.f {
		if l, ok := v.(lin); ok {
			for _, s := range l.s {
				if ls.syms[s] {
					return true
				}
			}
		}
	}
	return false
}

// gc drops dead objects and facts and eliminates dead symbols.
// rereadable: the cell holds what reading the package variable gives.
func rereadable(k cellKey, v aval) (*slv, bool) {
	if !strings.HasPrefix(k.obj, "global:") {
		return nil, false
	}
	sl, ok := v.(*slv)
	if !ok || sl.base != baseID(k.obj+k.path) || !sl.off.eq(lc(0)) || !sl.n.eq(lv(symFor("len:"+k.obj+k.path))) {
		return nil, false
	}
	return sl, true
}

func (st *state) gc(extra ...aval) {
	ls := st.live(extra...)
	if st.renameDead(ls) {
		ls = st.live(extra...)
	}
	for k := range st.heap {
		if strings.HasPrefix(k.obj, "alloc:") && !ls.objs[k.obj] {
			delete(st.heap, k)
		}
		if strings.HasPrefix(k.obj, "cap:") && !ls.bases[baseID(k.obj[4:])] {
			delete(st.heap, k)
		}
	}
	for k, v := range st.heap {
		if sl, ok := rereadable(k, v); ok && !ls.bases[sl.base] {
			delete(st.heap, k)
		}
	}
	for b := range st.seqs {
		if !ls.bases[b] {
			delete(st.seqs, b)
		}
	}
	var el []elemFact
	for _, e := range st.elems {
		ok := ls.bases[e.base] && ls.wants(st, e)
		for _, s := range e.idx.s {
			if !ls.syms[s] {
				ok = false
			}
		}
		if ok {
			el = append(el, e)
		}
	}
	st.elems = el
	for s := range st.sets {
		if !ls.syms[s] {
			// Keep as an interval if it bounds anything? Dead symbols only.
			delete(st.sets, s)
		}
	}
	for s := range st.flags {
		if !ls.syms[s] {
			delete(st.flags, s)
		}
	}
	var nq []lin
	for _, d := range st.neq {
		ok := true
		for _, s := range d.s {
			if !ls.syms[s] {
				ok = false
			}
		}
		if ok {
			nq = append(nq, d)
		}
	}
	st.neq = nq
	st.cons = eliminate(st.cons, ls.syms)
}

// renameDead states the positions of elements by live symbols where a dead one
// equals them.
func (st *state) renameDead(ls *liveSet) bool {
	ms := map[sym]lin{}
	for _, x := range st.elems {
		if !ls.bases[x.base] {
			continue
		}
		for _, s := range x.idx.s {
			if _, done := ms[s]; done || ls.syms[s] {
				continue
			}
			for _, c := range st.cons {
				k := c.coef(s)
				if k != 1 && k != -1 {
					continue
				}
				ok := true
				for _, t := range c.s {
					if t != s && !ls.syms[t] {
						ok = false
					}
				}
				if !ok {
					continue
				}
				neg := false
				for _, d := range st.cons {
					if d.eq(c.neg()) {
						neg = true
					}
				}
				if neg {
					// c == 0: s = s - k*c
					ms[s] = lv(s).sub(c.scale(k))
					break
				}
			}
		}
	}
	if len(ms) == 0 {
		return false
	}
	old := st.elems
	el := append([]elemFact{}, st.elems...)
	moved := map[string]bool{}
	for i := range el {
		el[i].idx = el[i].idx.substAll(ms)
		if !el[i].idx.eq(old[i].idx) {
			moved[elemName(el[i])] = true
		}
	}
	st.elems = el
	var cs []lin
	for _, c := range st.cons {
		c = c.substAll(ms)
		if !c.isConst() {
			cs = addCons(cs, c)
		}
	}
	st.cons = cs
	// They may be the same as others, or next to others, now.
	el = nil
	for _, x := range st.elems {
		dup := false
		for i, y := range el {
			if y.base == x.base && y.idx.eq(x.idx) {
				dup = true
				st.sameFields(x, y)
				f := map[string]aval{}
				for p, v := range x.f {
					f[p] = v
				}
				for p, v := range y.f {
					f[p] = v
				}
				el[i].f = f
			}
		}
		if !dup {
			el = append(el, x)
		}
	}
	st.elems = el
	for _, x := range st.elems {
		if q := st.seqs[x.base]; q != nil && !q.top && !q.empty && moved[elemName(x)] {
			(*engine)(nil).linkElem(st, x.base, q, x, "")
		}
	}
	return true
}

// quietBase holds facts about text: an element at lo with value hi says that
// [lo, hi) matched p, which matches no newline.
func quietBase(p *patternInfo, b baseID) baseID {
	return baseID("quiet:" + p.text + ":" + string(b))
}

// quiet uses these facts: a newline is at position at.
func (st *state) quiet(b baseID, at lin) bool {
	for _, x := range st.elems {
		if !strings.HasPrefix(string(x.base), "quiet:") || !strings.HasSuffix(string(x.base), ":"+string(b)) {
			continue
		}
		hi, ok := x.f[""].(lin)
		if !ok {
			continue
		}
		if st.ge0(at.sub(x.idx)) {
			if !st.add(at.sub(hi)) {
				return false
			}
		} else if st.ge0(hi.sub(at).addc(-1)) {
			if !st.add(x.idx.sub(at).addc(-1)) {
				return false
			}
		}
	}
	return true
}

// eliminate projects the constraints onto the given symbols (Fourier-Motzkin
// while it stays small, otherwise dropping constraints, which is sound).
func eliminate(cons []lin, keep map[sym]bool) []lin {
	dead := map[sym]bool{}
	for _, c := range cons {
		for _, s := range c.s {
			if !keep[s] {
				dead[s] = true
			}
		}
	}
	out := append([]lin{}, cons...)
	for len(dead) > 0 {
		// Pick the cheapest dead symbol.
		best, bestCost := sym(0), 1<<30
		for _, s := range sortSyms(dead) {
			p, n := 0, 0
			for _, c := range out {
				if k := c.coef(s); k > 0 {
					p++
				} else if k < 0 {
					n++
				}
			}
			if cost := p*n - p - n; cost < bestCost {
				best, bestCost = s, cost
			}
		}
		delete(dead, best)
		var pos, neg, rest []lin
		for _, c := range out {
			switch k := c.coef(best); {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(pos)*len(neg) <= 24 {
			for _, p := range pos {
				for _, n := range neg {
					kp, kn := p.coef(best), -n.coef(best)
					g := gcd64(kp, kn)
					c := linComb(p, kn/g, n, kp/g).tighten()
					if c.isConst() || len(c.s) > 6 {
						if c.isConst() && c.c < 0 {
							rest = append(rest, c)
						}
						continue
					}
					rest = addCons(rest, c)
				}
			}
		}
		out = rest
	}
	return out
}

func addCons(cons []lin, c lin) []lin {
	for i, d := range cons {
		if d.sameShape(c) {
			if d.c <= c.c {
				return cons
			}
			out := append([]lin{}, cons...)
			out[i] = c
			return out
		}
	}
	return append(cons, c)
}

func (st *state) String() string {
	var b strings.Builder
	for _, c := range st.cons {
		fmt.Fprintf(&b, "  %s >= 0\n", c)
	}
	for _, c := range st.neq {
		fmt.Fprintf(&b, "  %s != 0\n", c)
	}
	var ks []string
	for k, v := range st.heap {
		ks = append(ks, fmt.Sprintf("  %s%s = %s\n", k.obj, k.path, avText(v)))
	}
	for k, v := range st.env {
		ks = append(ks, fmt.Sprintf("  %s = %s\n", k.Name(), avText(v)))
	}
	for k, v := range st.seqs {
		ks = append(ks, fmt.Sprintf("  seq %s = %s\n", k, v))
	}
	for _, e := range st.elems {
		var fs []string
		for p, v := range e.f {
			s := avText(v)
			if l, ok := v.(lin); ok {
				if set, ok := st.linSet(l); ok {
					s += fmt.Sprintf("%x", set.w)
				}
			}
			fs = append(fs, p+":"+s)
		}
		sort.Strings(fs)
		ks = append(ks, fmt.Sprintf("  elem %s[%s] = %s\n", e.base, e.idx, strings.Join(fs, " ")))
	}
	for s, x := range st.sets {
		ks = append(ks, fmt.Sprintf("  set %s = %x%v\n", symName(s), x.w, x.other))
	}
	for s, x := range st.flags {
		if x != 0 {
			ks = append(ks, fmt.Sprintf("  flags %s = %d\n", symName(s), x))
		}
	}
	for t, x := range st.truth {
		ks = append(ks, fmt.Sprintf("  %s = %v\n", t, x))
	}
	for i, fr := range st.stack {
		for k, v := range fr {
			ks = append(ks, fmt.Sprintf("  frame%d.%s = %s\n", i, k.Name(), avText(v)))
		}
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ""))
	return b.String()
}

func (q *seqInfo) String() string {
	if q.top {
		return "top"
	}
	if q.empty {
		return "empty"
	}
	var out []string
	for c, cs := range q.cls {
		var l []string
		for _, x := range cs {
			l = append(l, x.String())
		}
		out = append(out, fmt.Sprintf("class{%s}: %s", c, strings.Join(l, "; ")))
	}
	for k, cs := range q.consts {
		for p, c := range cs {
			out = append(out, fmt.Sprintf("const{%s}%s=%d", k, p, c))
		}
	}
	for k, cs := range q.adj {
		var l []string
		for _, x := range cs {
			l = append(l, x.String())
		}
		out = append(out, fmt.Sprintf("adj{%s>%s}: %s", k[0], k[1], strings.Join(l, "; ")))
	}
	sort.Strings(out)
	return fmt.Sprintf("n=%s fields=%v last=%v(%s) %s", q.n, q.fields, q.last, q.lastC, strings.Join(out, " | "))
}

// intLeaves lists the paths of integer-typed leaves of t (and constants of booleans).
func intLeaves(t types.Type, path string, out *[]string) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			*out = append(*out, path)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			intLeaves(u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), out)
		}
	}
}
