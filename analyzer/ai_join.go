package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// The join of two states. Values that differ are replaced by symbols named for
// their position; constraints are kept when both states entail them.

type strideInfo struct {
	base lin
	step int64
	bad  bool
}

type joinCtx struct {
	at     string
	round  int
	stride map[string]*strideInfo
	shift  map[string]ssa.Value // loop variables used as an offset from a fixed value
}

func newJoinCtx(at string) *joinCtx { return &joinCtx{at: at, stride: map[string]*strideInfo{}} }

// shifts finds the loop variables x that the loop uses only, or mainly, as
// x+b for one b fixed in the loop: the sum is what has a meaning of its own,
// and is what the join makes a symbol of.
func (l *loopInfo) shifts() map[string]ssa.Value {
	var m map[string]ssa.Value
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phi.Referrers() == nil {
			continue
		}
		var base ssa.Value
		sums, other := 0, 0
		for _, r := range *phi.Referrers() {
			if !l.blocks[r.Block()] {
				continue
			}
			b, ok := r.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					other++
				}
				continue
			}
			y := b.X
			if y == phi {
				y = b.Y
			}
			if _, c := y.(*ssa.Const); c {
				continue // the step
			}
			if d, ok := y.(ssa.Instruction); ok && l.blocks[d.Block()] || base != nil && base != y {
				other++
				continue
			}
			base = y
			sums++
		}
		if base != nil && sums > 0 && other == 0 {
			if m == nil {
				m = map[string]ssa.Value{}
			}
			m[phi.Name()] = base
		}
	}
	return m
}

type joiner struct {
	e      *engine
	a, b   *state
	j      *state
	jc     *joinCtx
	r      map[sym]bool    // symbols that mean something else in j than in a or b
	rb     map[baseID]bool // likewise for bases
	sa, sb map[sym]lin
	memo   map[string]lin
	bmemo  map[string]baseID
	ba, bb map[baseID]*slv // bases of j -> what they are in a and b (zero length view)
	leaves []sym
	pairs  []joinPair
	grew   bool
}

// rename replaces symbols, bases and objects throughout a state.
func (st *state) rename(ms map[sym]lin, mb map[baseID]baseID, mo map[string]string) {
	var rv func(v aval) aval
	base := func(b baseID) baseID {
		if n, ok := mb[b]; ok {
			return n
		}
		if strings.HasPrefix(string(b), "obj:") {
			if n, ok := mo[string(b)[4:]]; ok {
				return baseID("obj:" + n)
			}
		}
		return b
	}
	obj := func(o string) string {
		if n, ok := mo[o]; ok {
			return n
		}
		if strings.HasPrefix(o, "cap:") {
			if n, ok := mb[baseID(o[4:])]; ok {
				return "cap:" + string(n)
			}
		}
		return o
	}
	rsl := func(s *slv) *slv {
		if s == nil {
			return nil
		}
		return &slv{base(s.base), s.off.substAll(ms), s.n.substAll(ms)}
	}
	rv = func(v aval) aval {
		switch v := v.(type) {
		case lin:
			return v.substAll(ms)
		case *slv:
			return rsl(v)
		case *cond:
			if v.op == cConst {
				return v
			}
			d := *v
			d.l = v.l.substAll(ms)
			if v.op == cSet {
				if x, ok := ms[v.s]; ok {
					if len(x.s) == 1 && x.c == 0 && x.k[0] == 1 {
						d.s = x.s[0]
					} else {
						return &cond{op: cOpaque}
					}
				}
			}
			if v.effect != nil {
				// The effect refers to the state it was made in.
				if len(ms) > 0 || len(mb) > 0 {
					d.effect = nil
				}
			}
			d.x, d.y = rsl(v.x), rsl(v.y)
			return &d
		case ptrv:
			return ptrv{obj(v.obj), v.path}
		case elemv:
			return elemv{base(v.base), v.idx.substAll(ms), v.path}
		case structv:
			n := make(structv, len(v))
			for i := range v {
				n[i] = rv(v[i])
			}
			return n
		case tuplev:
			n := make(tuplev, len(v))
			for i := range v {
				n[i] = rv(v[i])
			}
			return n
		case fnv:
			n := fnv{fn: v.fn}
			for _, x := range v.bind {
				n.bind = append(n.bind, rv(x))
			}
			return n
		case mapv:
			return mapv{obj(v.obj)}
		case iterv:
			return iterv{obj(v.key), rsl(v.s)}
		case *fltv:
			return rflt(v, ms)
		}
		return v
	}
	for i, c := range st.cons {
		n := c.substAll(ms)
		if !n.eq(c) {
			st.cons = append(append(append([]lin{}, st.cons[:i]...), n), st.cons[i+1:]...)
		}
	}
	for i, c := range st.neq {
		n := c.substAll(ms)
		if !n.eq(c) {
			st.neq = append(append(append([]lin{}, st.neq[:i]...), n), st.neq[i+1:]...)
		}
	}
	nh := make(map[cellKey]aval, len(st.heap))
	for k, v := range st.heap {
		nh[cellKey{obj(k.obj), k.path}] = rv(v)
	}
	// Capacity symbols are implicit: make them explicit when their base is renamed.
	for b, n := range mb {
		k := cellKey{"cap:" + string(n), ""}
		if _, ok := nh[k]; !ok && b != nilBase {
			nh[k] = lv(symFor("cap:" + string(b))).substAll(ms)
		}
	}
	st.heap = nh
	nq := make(map[baseID]*seqInfo, len(st.seqs))
	for b, q := range st.seqs {
		nq[base(b)] = q.subst(ms)
	}
	st.seqs = nq
	var el []elemFact
	for _, x := range st.elems {
		n := elemFact{base(x.base), x.idx.substAll(ms), make(map[string]aval, len(x.f))}
		for p, v := range x.f {
			n.f[p] = rv(v)
		}
		el = append(el, n)
	}
	st.elems = el
	one := func(s sym) (sym, bool) {
		x, ok := ms[s]
		if !ok {
			return s, true
		}
		if len(x.s) == 1 && x.c == 0 && x.k[0] == 1 {
			return x.s[0], true
		}
		return 0, false
	}
	ns := make(map[sym]bset, len(st.sets))
	for s, x := range st.sets {
		if t, ok := one(s); ok {
			ns[t] = x
		}
	}
	st.sets = ns
	nf := make(map[sym]uint8, len(st.flags))
	for s, x := range st.flags {
		if t, ok := one(s); ok {
			nf[t] = x
		}
	}
	st.flags = nf
	for b, n := range mb {
		if t, ok := st.truth["nonnil:"+string(b)]; ok {
			delete(st.truth, "nonnil:"+string(b))
			st.truth["nonnil:"+string(n)] = t
		}
	}
	for v, x := range st.env {
		st.env[v] = rv(x)
	}
	var ns2 []map[ssa.Value]aval
	for _, fr := range st.stack {
		m := make(map[ssa.Value]aval, len(fr))
		for v, x := range fr {
			m[v] = rv(x)
		}
		ns2 = append(ns2, m)
	}
	st.stack = ns2
}

func rflt(f *fltv, ms map[sym]lin) *fltv {
	if f == nil {
		return nil
	}
	n := *f
	n.i = f.i.substAll(ms)
	n.x, n.y = rflt(f.x, ms), rflt(f.y, ms)
	return &n
}

func (q *seqInfo) subst(ms map[sym]lin) *seqInfo {
	if q == nil || q.top {
		return q
	}
	n := *q
	n.n = q.n.substAll(ms)
	sub := func(cs []lin) []lin {
		var out []lin
		for _, c := range cs {
			out = append(out, c.substAll(ms))
		}
		return out
	}
	n.cls = map[string][]lin{}
	for k, cs := range q.cls {
		n.cls[k] = sub(cs)
	}
	n.adj = map[[2]string][]lin{}
	for k, cs := range q.adj {
		n.adj[k] = sub(cs)
	}
	n.last = map[string]lin{}
	for p, l := range q.last {
		n.last[p] = l.substAll(ms)
	}
	return &n
}

// used collects every symbol and base a state's values mention (not constraints).
func (st *state) used() *liveSet {
	ls := &liveSet{syms: map[sym]bool{}, bases: map[baseID]bool{}, objs: map[string]bool{}}
	for _, v := range st.env {
		ls.val(v)
	}
	for _, fr := range st.stack {
		for _, v := range fr {
			ls.val(v)
		}
	}
	for k, v := range st.heap {
		ls.val(v)
		ls.objs[k.obj] = true
		if strings.HasPrefix(k.obj, "cap:") {
			ls.bases[baseID(k.obj[4:])] = true
		}
	}
	for b, q := range st.seqs {
		ls.bases[b] = true
		ls.lin(q.n)
		for _, l := range q.last {
			ls.lin(l)
		}
		for _, cs := range q.cls {
			for _, c := range cs {
				ls.lin(c)
			}
		}
		for _, cs := range q.adj {
			for _, c := range cs {
				ls.lin(c)
			}
		}
	}
	for _, x := range st.elems {
		ls.bases[x.base] = true
		ls.lin(x.idx)
		for _, v := range x.f {
			ls.val(v)
		}
	}
	for b := range ls.bases {
		if _, ok := st.heap[cellKey{"cap:" + string(b), ""}]; !ok && b != nilBase {
			ls.syms[symFor("cap:"+string(b))] = true
		}
	}
	for s := range ls.syms {
		if s < 0 {
			delete(ls.syms, s)
		}
	}
	return ls
}

// retire renames leftovers of an earlier visit so that names made at "at" are free.
func (st *state) retire(at string) {
	pre := at + ":"
	ls := st.used()
	ms := map[sym]lin{}
	mb := map[baseID]baseID{}
	for _, c := range st.cons {
		for _, s := range c.s {
			ls.syms[s] = true
		}
	}
	for s := range ls.syms {
		n := symName(s)
		if strings.HasPrefix(n, pre) || strings.HasPrefix(n, "len:"+pre) || strings.HasPrefix(n, "cap:"+pre) {
			for {
				n += "'"
				if !ls.syms[symFor(n)] {
					break
				}
			}
			ms[s] = lv(symFor(n))
		}
	}
	for b := range ls.bases {
		n := string(b)
		if strings.HasPrefix(n, pre) {
			for {
				n += "'"
				if !ls.bases[baseID(n)] {
					break
				}
			}
			mb[b] = baseID(n)
		}
	}
	if len(ms)+len(mb) > 0 {
		st.rename(ms, mb, nil)
	}
	for k := range st.truth {
		if strings.HasPrefix(k, pre) {
			st.killKey(k)
		}
	}
}

// killKey makes old uses of an opaque condition unrelated to its name.
func (st *state) killKey(key string) {
	delete(st.truth, key)
	var f func(v aval) aval
	f = func(v aval) aval {
		switch v := v.(type) {
		case *cond:
			if v.key == key && v.op != cConst {
				return &cond{op: cOpaque}
			}
		case structv:
			for i := range v {
				if x := f(v[i]); !sameAval(x, v[i]) {
					n := append(structv{}, v...)
					n[i] = x
					return f(n)
				}
			}
		case tuplev:
			for i := range v {
				if x := f(v[i]); !sameAval(x, v[i]) {
					n := append(tuplev{}, v...)
					n[i] = x
					return f(n)
				}
			}
		}
		return v
	}
	for v, x := range st.env {
		st.env[v] = f(x)
	}
	for k, x := range st.heap {
		st.heap[k] = f(x)
	}
	var ns []map[ssa.Value]aval
	for _, fr := range st.stack {
		m := make(map[ssa.Value]aval, len(fr))
		for v, x := range fr {
			m[v] = f(x)
		}
		ns = append(ns, m)
	}
	st.stack = ns
}

func sameAval(a, b aval) bool {
	ca, ok1 := a.(*cond)
	cb, ok2 := b.(*cond)
	if ok1 && ok2 {
		return ca == cb
	}
	return avText(a) == avText(b)
}

func (e *engine) join(a, b *state, jc *joinCtx) *state {
	// Cells that appear when first used exist in both.
	for k := range a.heap {
		if _, ok := b.heap[k]; !ok && lazyObj(k.obj) {
			e.cell(b, k)
		}
	}
	for k := range b.heap {
		if _, ok := a.heap[k]; !ok && lazyObj(k.obj) {
			e.cell(a, k)
		}
	}
	j := &joiner{e: e, a: a, b: b, jc: jc, r: map[sym]bool{}, rb: map[baseID]bool{}}
	for n := 0; ; n++ {
		if n > 40 {
			panic("join does not settle at " + jc.at)
		}
		if !j.walk() {
			break
		}
	}
	j.constraints()
	return j.j
}

func lazyObj(o string) bool {
	return strings.HasPrefix(o, "ext:") || strings.HasPrefix(o, "global:")
}

func (j *joiner) mentions(l lin) bool {
	for _, s := range l.s {
		if j.r[s] {
			return true
		}
	}
	return false
}

// walk builds the joined values; true if it must be repeated.
func (j *joiner) walk() bool {
	j.j = newState()
	j.sa, j.sb = map[sym]lin{}, map[sym]lin{}
	j.memo = map[string]lin{}
	j.bmemo = map[string]baseID{}
	j.ba, j.bb = map[baseID]*slv{}, map[baseID]*slv{}
	j.leaves = nil
	j.pairs = nil
	j.grew = false
	a, b := j.a, j.b
	frame := func(pre string, x, y map[ssa.Value]aval) map[ssa.Value]aval {
		m := map[ssa.Value]aval{}
		var vs []ssa.Value
		for v := range x {
			if _, ok := y[v]; ok {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, k int) bool { return vs[i].Name() < vs[k].Name() })
		for _, v := range vs {
			if base := j.jc.shift[v.Name()]; base != nil && pre == "" {
				xv, ok1 := x[v].(lin)
				yv, ok2 := y[v].(lin)
				xb, ok3 := x[base].(lin)
				yb, ok4 := y[base].(lin)
				if ok1 && ok2 && ok3 && ok4 && !(xv.eq(yv) && !j.mentions(xv)) {
					m[v] = j.int(v.Name(), xv.add(xb), yv.add(yb)).sub(j.int(base.Name(), xb, yb))
					continue
				}
			}
			m[v] = j.val(pre+v.Name(), x[v], y[v])
		}
		return m
	}
	j.j.env = frame("", a.env, b.env)
	for i := range a.stack {
		j.j.stack = append(j.j.stack, frame(fmt.Sprintf("f%d.", i), a.stack[i], b.stack[i]))
	}
	var ks []cellKey
	for k := range a.heap {
		if _, ok := b.heap[k]; ok && !strings.HasPrefix(k.obj, "cap:") {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, k int) bool {
		if ks[i].obj != ks[k].obj {
			return ks[i].obj < ks[k].obj
		}
		return ks[i].path < ks[k].path
	})
	for _, k := range ks {
		j.j.heap[k] = j.val(k.obj+k.path, a.heap[k], b.heap[k])
	}
	// Bases that are the same in both.
	seen := map[baseID]bool{}
	var bs []baseID
	note := func(x baseID) {
		if !seen[x] && !j.rb[x] && x != nilBase {
			seen[x] = true
			bs = append(bs, x)
		}
	}
	for x := range a.seqs {
		if b.seqs[x] != nil {
			note(x)
		}
	}
	for k := range a.heap {
		if strings.HasPrefix(k.obj, "cap:") {
			note(baseID(k.obj[4:]))
		}
	}
	for k := range b.heap {
		if strings.HasPrefix(k.obj, "cap:") {
			note(baseID(k.obj[4:]))
		}
	}
	sort.Slice(bs, func(i, k int) bool { return bs[i] < bs[k] })
	for _, x := range bs {
		if _, ok := j.ba[x]; ok {
			continue
		}
		_, ca := a.heap[cellKey{"cap:" + string(x), ""}]
		_, cb := b.heap[cellKey{"cap:" + string(x), ""}]
		if ca || cb {
			j.j.heap[cellKey{"cap:" + string(x), ""}] = j.int("cap:"+string(x), a.capEnd(x), b.capEnd(x))
		}
		if a.seqs[x] != nil && b.seqs[x] != nil {
			j.j.seqs[x] = j.seq(string(x), a.seqs[x], b.seqs[x])
		}
	}
	// Joined bases.
	var nb []baseID
	for x := range j.ba {
		nb = append(nb, x)
	}
	sort.Slice(nb, func(i, k int) bool { return nb[i] < nb[k] })
	for _, x := range nb {
		va, vb := j.ba[x], j.bb[x]
		j.j.heap[cellKey{"cap:" + string(x), ""}] = j.int("cap:"+string(x), a.capEnd(va.base).sub(va.off), b.capEnd(vb.base).sub(vb.off))
		qa, qb := a.seqOf(va), b.seqOf(vb)
		if qa != nil && qb != nil {
			j.j.seqs[x] = j.seq(string(x), qa, qb)
		}
	}
	j.elems()
	// Symbols that now mean something else.
	for s := range j.sa {
		if !j.sa[s].eq(lv(s)) || !j.sb[s].eq(lv(s)) {
			if !j.r[s] {
				j.r[s] = true
				j.grew = true
			}
		}
	}
	return j.grew
}

// seqOf is the summary of the elements of a whole base.
func (st *state) seqOf(s *slv) *seqInfo {
	if s.base == nilBase {
		return &seqInfo{n: lc(0), empty: true}
	}
	if !s.off.isConst() || s.off.c != 0 {
		return nil
	}
	return st.seqs[s.base]
}

func (j *joiner) int(pos string, a, b lin) lin {
	if a.eq(b) && !j.mentions(a) {
		return a
	}
	key := a.String() + "|" + b.String()
	if l, ok := j.memo[key]; ok {
		return l
	}
	// A constant distance from a value already joined.
	if !(a.isConst() && b.isConst()) {
		for _, p := range j.pairs {
			if p.a.sameShape(a) && p.b.sameShape(b) && a.c-p.a.c == b.c-p.b.c {
				l := p.l.addc(a.c - p.a.c)
				j.memo[key] = l
				return l
			}
		}
	}
	s := symFor(j.jc.at + ":" + pos)
	// Both multiples of a number two or more, apart from the same remainder.
	if g := congruence(a, b); g >= 2 {
		r := ((a.c % g) + g) % g
		ka, ok1 := divLin(a.addc(-r), g)
		kb, ok2 := divLin(b.addc(-r), g)
		if ok1 && ok2 {
			l := lv(s).scale(g).addc(r)
			j.define(s, ka, kb)
			j.memo[key] = l
			j.pairs = append(j.pairs, joinPair{a, b, l})
			return l
		}
	}
	if sd := j.jc.stride[pos]; sd == nil {
		d := b.sub(a)
		// Look for a fixed stride of two or more.
		if d.isConst() && (d.c >= 2 || d.c <= -2) && !a.has(s) {
			j.jc.stride[pos] = &strideInfo{base: a, step: d.c}
		} else if j.jc.round >= 1 {
			j.jc.stride[pos] = &strideInfo{bad: true}
		}
	}
	if sd := j.jc.stride[pos]; sd != nil && !sd.bad {
		ka, ok1 := divLin(a.sub(sd.base), sd.step)
		kb, ok2 := divLin(b.sub(sd.base), sd.step)
		if ok1 && ok2 && !j.mentionsOther(sd.base, s) {
			l := sd.base.add(lv(s).scale(sd.step))
			j.define(s, ka, kb)
			j.memo[key] = l
			j.pairs = append(j.pairs, joinPair{a, b, l})
			return l
		}
		sd.bad = true
		j.grew = true
	}
	j.define(s, a, b)
	j.memo[key] = lv(s)
	j.pairs = append(j.pairs, joinPair{a, b, lv(s)})
	return lv(s)
}

// congruence is the largest g dividing every coefficient of a and b and the
// difference of their constants (0 when both are constant).
func congruence(a, b lin) int64 {
	if a.isConst() && b.isConst() {
		return 0
	}
	gcd := func(x, y int64) int64 {
		for y != 0 {
			x, y = y, x%y
		}
		if x < 0 {
			x = -x
		}
		return x
	}
	g := a.c - b.c
	for _, k := range a.k {
		g = gcd(g, k)
	}
	for _, k := range b.k {
		g = gcd(g, k)
	}
	return gcd(g, 0)
}

// joinPair: the values a and b are joined as l.
type joinPair struct{ a, b, l lin }

func (j *joiner) mentionsOther(l lin, s sym) bool {
	for _, x := range l.s {
		if x == s || j.r[x] {
			return true
		}
	}
	return false
}

func divLin(l lin, k int64) (lin, bool) {
	if l.c%k != 0 {
		return lin{}, false
	}
	r := lin{c: l.c / k, s: l.s}
	for _, x := range l.k {
		if x%k != 0 {
			return lin{}, false
		}
		r.k = append(r.k, x/k)
	}
	return r, true
}

func (j *joiner) define(s sym, a, b lin) {
	j.sa[s], j.sb[s] = a, b
	j.leaves = append(j.leaves, s)
}

func (j *joiner) base(pos string, a, b *slv) (baseID, bool) {
	if a.base == b.base && !j.rb[a.base] {
		return a.base, true
	}
	key := slKey(a) + "|" + slKey(b)
	if x, ok := j.bmemo[key]; ok {
		return x, false
	}
	x := baseID(j.jc.at + ":" + pos)
	j.bmemo[key] = x
	j.ba[x], j.bb[x] = &slv{a.base, a.off, lc(0)}, &slv{b.base, b.off, lc(0)}
	if !(a.base == x && a.off.eq(lc(0)) && b.base == x && b.off.eq(lc(0))) && !j.rb[x] {
		j.rb[x] = true
		j.grew = true
	}
	return x, false
}

func slKey(s *slv) string { return string(s.base) + "[" + s.off.String() }

func (j *joiner) slice(pos string, a, b *slv) *slv {
	// Empty constant strings are the empty part of anything.
	x, same := j.base(pos, a, b)
	if same {
		off := j.int(pos+".off", a.off, b.off)
		end := j.int(pos+".end", a.end(), b.end())
		return &slv{x, off, end.sub(off)}
	}
	return &slv{x, lc(0), j.int(pos+".n", a.n, b.n)}
}

func (j *joiner) val(pos string, a, b aval) aval {
	switch x := a.(type) {
	case lin:
		if y, ok := b.(lin); ok {
			return j.int(pos, x, y)
		}
	case *slv:
		if y, ok := b.(*slv); ok {
			return j.slice(pos, x, y)
		}
	case *cond:
		if y, ok := b.(*cond); ok {
			if x.text() == y.text() && x.op != cSet && !j.condMoves(x) && !(x.op == cOpaque && x.key == "") {
				return x
			}
			return &cond{op: cOpaque, key: ""}
		}
	case ptrv:
		if y, ok := b.(ptrv); ok && x == y {
			return x
		}
	case elemv:
		if y, ok := b.(elemv); ok && x.base == y.base && x.path == y.path && !j.rb[x.base] {
			return elemv{x.base, j.int(pos+".idx", x.idx, y.idx), x.path}
		}
	case nilv:
		if _, ok := b.(nilv); ok {
			return x
		}
	case structv:
		if y, ok := b.(structv); ok && len(x) == len(y) {
			var r structv
			for i := range x {
				r = append(r, j.val(fmt.Sprintf("%s.%d", pos, i), x[i], y[i]))
			}
			return r
		}
	case tuplev:
		if y, ok := b.(tuplev); ok && len(x) == len(y) {
			var r tuplev
			for i := range x {
				r = append(r, j.val(fmt.Sprintf("%s#%d", pos, i), x[i], y[i]))
			}
			return r
		}
	case fnv:
		if y, ok := b.(fnv); ok && x.fn == y.fn && len(x.bind) == len(y.bind) {
			r := fnv{fn: x.fn}
			for i := range x.bind {
				r.bind = append(r.bind, j.val(fmt.Sprintf("%s^%d", pos, i), x.bind[i], y.bind[i]))
			}
			return r
		}
	case mapv:
		if y, ok := b.(mapv); ok {
			if x == y {
				return x
			}
			return mapv{"ext:?"}
		}
	case iterv:
		if y, ok := b.(iterv); ok && x.key == y.key && (x.s == nil) == (y.s == nil) {
			r := iterv{key: x.key}
			if x.s != nil {
				r.s = j.slice(pos, x.s, y.s)
			}
			return r
		}
	case *fltv:
		if y, ok := b.(*fltv); ok {
			if r := j.flt(pos, x, y); r != nil {
				return r
			}
		}
	}
	return nil
}

func (j *joiner) flt(pos string, a, b *fltv) *fltv {
	if a.op != b.op {
		return nil
	}
	switch a.op {
	case "int":
		return &fltv{op: "int", i: j.int(pos+".f", a.i, b.i)}
	case "const":
		if a.c == b.c {
			return a
		}
		return nil
	}
	x, y := j.flt(pos+".x", a.x, b.x), j.flt(pos+".y", a.y, b.y)
	if x == nil || y == nil {
		return nil
	}
	return &fltv{op: a.op, x: x, y: y}
}

func (j *joiner) condMoves(c *cond) bool {
	if j.mentions(c.l) {
		return true
	}
	for _, s := range []*slv{c.x, c.y} {
		if s != nil && (j.rb[s.base] || j.mentions(s.off) || j.mentions(s.n)) {
			return true
		}
	}
	return c.effect != nil
}

// seq joins two summaries; values (n and the last element) become leaves.
func (j *joiner) seq(pos string, a, b *seqInfo) *seqInfo {
	if a.top || b.top {
		return &seqInfo{top: true}
	}
	if a.empty && b.empty {
		return a
	}
	fs := a.fields
	if a.empty {
		fs = b.fields
	}
	if !a.empty && !b.empty && strings.Join(a.fields, ",") != strings.Join(b.fields, ",") {
		return &seqInfo{top: true}
	}
	r := &seqInfo{fields: fs, cls: map[string][]lin{}, adj: map[[2]string][]lin{}, last: map[string]lin{}, kind: a.kind}
	if a.empty {
		r.kind = b.kind
	}
	r.n = j.int("#"+pos+".n", a.n, b.n)
	for _, f := range fs {
		r.last[f] = j.int("#"+pos+".last"+f, a.lastOf(f), b.lastOf(f))
	}
	r.lastC = a.lastC
	if a.lastC != b.lastC {
		r.lastC = "?"
	}
	// Class constraints are filled in once the substitutions are known.
	return r
}

func (q *seqInfo) lastOf(f string) lin {
	if q.empty {
		return lc(0)
	}
	return q.last[f]
}

// elems joins the facts about single elements.
func (j *joiner) elems() {
	type cand struct {
		jb  baseID
		idx lin
	}
	done := map[string]bool{}
	offs := map[baseID][]lin{}
	for _, v := range j.j.env {
		if sl, ok := v.(*slv); ok && !sl.off.isConst() {
			keep := true
			for _, s := range sl.off.s {
				if _, leaf := j.sa[s]; leaf {
					keep = false
				}
			}
			if keep {
				offs[sl.base] = append(offs[sl.base], sl.off)
			}
		}
	}
	side := func(st *state, sg map[sym]lin, bm map[baseID]*slv) {
		for _, x := range st.elems {
			var jbs []baseID
			var rel []lin
			if !j.rb[x.base] {
				jbs, rel = append(jbs, x.base), append(rel, lc(0))
			}
			for jb, v := range bm {
				if v.base == x.base {
					jbs, rel = append(jbs, jb), append(rel, v.off)
				}
			}
			for i, jb := range jbs {
				idx := x.idx.sub(rel[i])
				var cs []lin
				if !j.mentions(idx) {
					cs = append(cs, idx)
				}
				for _, s := range j.leaves {
					d := idx.sub(sg[s])
					if d.isConst() && d.c >= -1 && d.c <= 1 {
						cs = append(cs, lv(s).add(d))
						continue
					}
					// Relative to where a string starts.
					for _, o := range offs[jb] {
						if k := d.sub(o); k.isConst() && k.c >= -1 && k.c <= 1 {
							cs = append(cs, lv(s).add(d))
							break
						}
					}
				}
				for _, c := range cs {
					k := string(jb) + "[" + c.String()
					if done[k] {
						continue
					}
					done[k] = true
					j.elem(jb, c)
				}
			}
		}
	}
	side(j.a, j.sa, j.ba)
	side(j.b, j.sb, j.bb)
}

func (j *joiner) elem(jb baseID, idx lin) {
	av, bv := &slv{base: jb}, &slv{base: jb}
	if x, ok := j.ba[jb]; ok {
		av, bv = x, j.bb[jb]
	}
	ea := j.a.findElemV(av.base, av.off.add(idx.substAll(j.sa)))
	eb := j.b.findElemV(bv.base, bv.off.add(idx.substAll(j.sb)))
	if ea == nil || eb == nil {
		return
	}
	f := map[string]aval{}
	var ps []string
	for p := range ea.f {
		if _, ok := eb.f[p]; ok {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		x, ok1 := ea.f[p].(lin)
		y, ok2 := eb.f[p].(lin)
		if !ok1 || !ok2 {
			continue
		}
		if x.eq(y) && !j.mentions(x) {
			f[p] = x
			continue
		}
		// Only worth keeping when something is known of both.
		f[p] = j.int("@"+string(jb)+"["+idx.String()+"]"+p, x, y)
	}
	if len(f) > 0 {
		j.j.elems = append(j.j.elems, elemFact{jb, idx, f})
	}
}

// findElemV is findElem without searching for provably equal indexes by more
// than one query per fact, and with the zero element before the first.
func (st *state) findElemV(b baseID, idx lin) *elemFact {
	if b == nilBase {
		return nil
	}
	// Strings are thought of as preceded by a zero byte, which no program can read.
	if idx.isConst() && idx.c == -1 && (b == textBase || strings.HasPrefix(string(b), "str:")) {
		return &elemFact{b, idx, map[string]aval{"": lc(0)}}
	}
	return st.findElem(b, idx)
}

func (j *joiner) constraints() {
	a, b, r := j.a, j.b, j.j
	seen := map[string]bool{}
	type cand struct {
		c, ca, cb lin
		la, lb    int64
		ok        bool
	}
	ba, bb := newBounder(a), newBounder(b)
	bounds := func(cs []cand, has bool) {
		parallel(len(cs), func(i int) {
			x := &cs[i]
			x.ca, x.cb = x.c.substAll(j.sa), x.c.substAll(j.sb)
			if x.lb, x.ok = bb.lb(x.cb, has); !x.ok {
				return
			}
			x.la, x.ok = ba.lb(x.ca, has)
		})
	}
	var cs []cand
	keep := func(c lin) {
		c = c.tighten()
		if c.isConst() {
			return
		}
		k := c.String()
		if seen[k] {
			return
		}
		seen[k] = true
		cs = append(cs, cand{c: c})
	}
	fromA := 0
	changed := false
	for _, s := range j.leaves {
		if !j.sa[s].eq(lv(s)) {
			changed = true
		}
	}
	for _, c := range a.cons {
		own := true
		for _, s := range c.s {
			if x, ok := j.sa[s]; ok && !x.eq(lv(s)) {
				own = false
			} else if !ok && j.r[s] {
				own = false
			}
		}
		if own {
			keep(c)
		}
	}
	fromA = len(cs)
	bounds(cs, true)
	for i, x := range cs {
		if i < fromA && (!x.ok || x.la < 0 || x.lb < 0) {
			changed = true
		}
	}
	if changed {
		n := len(cs)
		for _, c := range b.cons {
			if !j.mentions(c) {
				keep(c)
			}
		}
		bounds(cs[n:], true)
	}
	for _, x := range cs {
		if !x.ok {
			continue
		}
		m := x.la
		if x.lb < m {
			m = x.lb
		}
		c := x.c
		if m < 0 {
			// Weaken the constant while the analysis is young.
			if m < -8 || j.jc.round > 3 {
				continue
			}
			c = c.addc(-m)
		}
		r.cons = addCons(r.cons, c)
	}
	// Templates.
	var terms []lin
	have := map[string]bool{}
	addTerm := func(l lin) {
		k := l.addc(-l.c).String()
		if !have[k] {
			have[k] = true
			terms = append(terms, l.addc(-l.c))
		}
	}
	var nl []lin
	for _, s := range j.leaves {
		if j.sa[s].eq(lv(s)) && j.jc.round > 3 {
			// An old leaf: its constraints are those a has.
		}
		nl = append(nl, lv(s))
	}
	outer := j.outerTerms()
	for _, t := range outer {
		addTerm(t)
	}
	if len(terms) > 48 {
		terms = terms[:48]
	}
	cs = nil
	tmpl := func(c lin) {
		k := "t" + c.String()
		if seen[k] {
			return
		}
		seen[k] = true
		cs = append(cs, cand{c: c})
	}
	if changed {
		for i, x := range nl {
			tmpl(x)
			tmpl(x.neg())
			for k, y := range nl {
				if k > i {
					tmpl(x.sub(y))
					tmpl(y.sub(x))
				}
			}
			for _, t := range terms {
				if !t.eq(x) {
					tmpl(x.sub(t))
					tmpl(t.sub(x))
				}
			}
		}
	}
	bounds(cs, false)
	for _, x := range cs {
		if !x.ok {
			continue
		}
		m := x.la
		if x.lb < x.la {
			m = x.lb
			if j.jc.round > 3 {
				// Widen, stopping at the usual distances.
				switch {
				case j.jc.round > 8:
					continue
				case m >= 1:
					m = 1
				case m < 0:
					continue
				}
			}
		}
		if m < -1<<31 || m > 1<<31 {
			continue
		}
		if len(x.c.s) > 1 && (m < -farBound || m > farBound) {
			// Follows from the ranges of the two.
			continue
		}
		r.cons = addCons(r.cons, x.c.addc(-m).tighten())
	}
	if changed {
		r.cons = prune(r.cons)
	}
	// Value sets and flags.
	syms := map[sym]bool{}
	for s := range r.used().syms {
		syms[s] = true
	}
	for s := range syms {
		xa, xb := lv(s), lv(s)
		if x, ok := j.sa[s]; ok {
			xa, xb = x, j.sb[s]
		} else if j.r[s] {
			continue
		}
		ba, ok1 := a.linSet(xa)
		bb, ok2 := b.linSet(xb)
		if ok1 && ok2 {
			r.sets[s] = ba.or(bb)
		}
		if f := a.flagOf(xa) & b.flagOf(xb); f != 0 {
			r.flags[s] = f
		}
	}
	// Disequalities.
	for i, src := range []*state{a, b} {
		for _, d := range src.neq {
			if i == 0 {
				own := true
				for _, s := range d.s {
					if x, ok := j.sa[s]; ok && !x.eq(lv(s)) {
						own = false
					} else if !ok && j.r[s] {
						own = false
					}
				}
				if !own {
					continue
				}
			} else if j.mentions(d) {
				continue
			}
			if a.isNeq(d.substAll(j.sa)) && b.isNeq(d.substAll(j.sb)) {
				dup := false
				for _, x := range r.neq {
					if x.eq(d) || x.eq(d.neg()) {
						dup = true
					}
				}
				if !dup {
					r.neq = append(r.neq, d)
				}
			}
		}
	}
	for k, t := range a.truth {
		if u, ok := b.truth[k]; ok && t == u {
			r.truth[k] = t
		}
	}
	// Sequence summaries.
	for x, q := range r.seqs {
		if q.top || q.empty {
			continue
		}
		qa, qb := a.seqs[x], b.seqs[x]
		if va, ok := j.ba[x]; ok {
			qa, qb = a.seqOf(va), b.seqOf(j.bb[x])
		}
		j.classes(q, qa, qb)
	}
}

// outerTerms lists expressions that other values are compared with.
func (j *joiner) outerTerms() []lin {
	var out []lin
	add := func(l lin) {
		if !l.isConst() && !j.mentionsLeaf(l) && len(l.s) <= 3 {
			out = append(out, l)
		}
	}
	var walk func(v aval)
	walk = func(v aval) {
		switch v := v.(type) {
		case lin:
			add(v)
		case *slv:
			add(v.off)
			add(v.end())
			add(v.n)
		case structv:
			for _, x := range v {
				walk(x)
			}
		case elemv:
			add(v.idx)
		}
	}
	var ks []cellKey
	for k := range j.j.heap {
		if !strings.HasPrefix(k.obj, "cap:") && !strings.HasPrefix(k.obj, "global:") {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, k int) bool {
		return ks[i].obj+ks[i].path < ks[k].obj+ks[k].path
	})
	for _, k := range ks {
		walk(j.j.heap[k])
	}
	var vs []ssa.Value
	for v := range j.j.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, k int) bool { return vs[i].Name() < vs[k].Name() })
	for _, v := range vs {
		walk(j.j.env[v])
	}
	var bs []string
	for b := range j.j.seqs {
		bs = append(bs, string(b))
	}
	sort.Strings(bs)
	for _, b := range bs {
		q := j.j.seqs[baseID(b)]
		if q.top || q.empty {
			continue
		}
		add(q.n)
		for _, f := range q.fields {
			add(q.last[f])
		}
	}
	for _, x := range j.j.elems {
		add(x.idx)
		var ps []string
		for p := range x.f {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			if l, ok := x.f[p].(lin); ok {
				if len(l.s) == 1 {
					if _, isByte := j.j.sets[l.s[0]]; isByte {
						continue
					}
					if strings.HasPrefix(symName(l.s[0]), "by:") {
						continue
					}
				}
				add(l)
			}
		}
	}
	for _, n := range sizeNames {
		if l := lv(symFor(n)); j.a.limits(l) || j.b.limits(l) {
			add(l)
		}
	}
	for i := len(j.j.stack) - 1; i >= 0; i-- {
		vs = nil
		for v := range j.j.stack[i] {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, k int) bool { return vs[i].Name() < vs[k].Name() })
		for _, v := range vs {
			walk(j.j.stack[i][v])
		}
	}
	return out
}

func (j *joiner) mentionsLeaf(l lin) bool {
	// A single leaf is covered by the pairs of leaves.
	if len(l.s) == 1 && (l.k[0] == 1 || l.k[0] == -1) {
		_, ok := j.sa[l.s[0]]
		return ok
	}
	return false
}

func (st *state) flagOf(l lin) uint8 {
	if l.isConst() {
		var f uint8
		if l.c == 0 {
			f |= fState
		}
		if l.c >= 0 && l.c < 0xD800 {
			f |= fValid
		}
		return f
	}
	if len(l.s) == 1 && l.c == 0 && l.k[0] == 1 {
		return st.flags[l.s[0]]
	}
	return 0
}

func (st *state) isNeq(d lin) bool {
	if d.isConst() {
		return d.c != 0
	}
	for _, x := range st.neq {
		if x.eq(d) || x.eq(d.neg()) {
			return true
		}
	}
	if c, ok := st.lb(d); ok && c > 0 {
		return true
	}
	if c, ok := st.lb(d.neg()); ok && c > 0 {
		return true
	}
	return false
}

// prune drops constraints that others entail (syntactically cheap cases only).
func prune(cons []lin) []lin {
	var out []lin
	for _, c := range cons {
		out = addCons(out, c)
	}
	if len(out) < 12 {
		return out
	}
	// Remove constraints implied by the rest, largest first. Only those that
	// all the others imply can go.
	maybe := make([]bool, len(out))
	all := out
	parallel(len(all), func(i int) {
		rest := append(append([]lin{}, all[:i]...), all[i+1:]...)
		c, ok, inf := lowerBound(rest, all[i])
		maybe[i] = ok && !inf && c >= 0
	})
	for i := len(out) - 1; i >= 0; i-- {
		if !maybe[i] {
			continue
		}
		rest := append(append([]lin{}, out[:i]...), out[i+1:]...)
		if c, ok, inf := lowerBound(rest, out[i]); ok && !inf && c >= 0 {
			out = rest
		}
	}
	return out
}

// classes joins the per-class constraints of two summaries into q.
func (j *joiner) classes(q, qa, qb *seqInfo) {
	own := func(c lin) bool {
		for _, s := range c.s {
			if s >= 0 && j.r[s] {
				return false
			}
		}
		return true
	}
	joinCons := func(ca, cb []lin, ina, inb bool) []lin {
		var out []lin
		try := func(c lin) {
			if !own(c) {
				return
			}
			la, lb := int64(0), int64(0)
			if ina {
				x, ok := j.a.lbWith(ca, c.substAll(j.sa))
				if !ok {
					return
				}
				la = x
			}
			if inb {
				x, ok := j.b.lbWith(cb, c.substAll(j.sb))
				if !ok {
					return
				}
				lb = x
			}
			m := la
			if lb < m {
				m = lb
			}
			if m < 0 {
				if m < -4 || j.jc.round > 3 {
					return
				}
				c = c.addc(-m)
			}
			out = addCons(out, c)
		}
		for _, c := range ca {
			try(c)
		}
		for _, c := range cb {
			try(c)
		}
		return out
	}
	names := map[string]bool{}
	for k := range qa.cls {
		names[k] = true
	}
	for k := range qb.cls {
		names[k] = true
	}
	for k := range names {
		ca, ina := qa.cls[k]
		cb, inb := qb.cls[k]
		q.cls[k] = joinCons(ca, cb, ina, inb)
	}
	pairs := map[[2]string]bool{}
	for k := range qa.adj {
		pairs[k] = true
	}
	for k := range qb.adj {
		pairs[k] = true
	}
	for k := range pairs {
		ca, ina := qa.adj[k]
		cb, inb := qb.adj[k]
		q.adj[k] = joinCons(ca, cb, ina, inb)
	}
}

// A bounder answers many questions about one state.
type bounder struct {
	st   *state
	cons []lin
	pos  map[sym]bool // symbols with a positive coefficient in some constraint
	neg  map[sym]bool
}

func newBounder(st *state) *bounder {
	b := &bounder{st: st, cons: st.cons[:len(st.cons):len(st.cons)], pos: map[sym]bool{}, neg: map[sym]bool{}}
	for s, v := range st.sets {
		if !v.other {
			lo, hi := v.bounds()
			b.cons = append(b.cons, lv(s).addc(-lo), lv(s).neg().addc(hi))
		}
	}
	for _, c := range b.cons {
		for i, s := range c.s {
			if c.k[i] > 0 {
				b.pos[s] = true
			} else {
				b.neg[s] = true
			}
		}
	}
	return b
}

// lb is a lower bound of g; with has, 0 suffices when a constraint says so.
func (b *bounder) lb(g lin, has bool) (int64, bool) {
	if g.isConst() {
		return g.c, true
	}
	if has {
		for _, c := range b.cons {
			if c.sameShape(g) && c.c <= g.c {
				return 0, true
			}
		}
	}
	for i, s := range g.s {
		if g.k[i] > 0 && !b.pos[s] || g.k[i] < 0 && !b.neg[s] {
			return 0, false
		}
	}
	c, ok, inf := lowerBound(b.cons, g)
	if inf {
		return 1 << 40, true
	}
	return c, ok
}

func parallel(n int, f func(i int)) {
	if n < 8 {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	var wg sync.WaitGroup
	var next int64 = -1
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Relations between quantities further apart than farBound are not kept.
const farBound = 1 << 16

// lbWith bounds g given extra constraints.
func (st *state) lbWith(extra []lin, g lin) (int64, bool) {
	for _, c := range extra {
		if c.sameShape(g) {
			if c.c <= g.c {
				return g.c - c.c, true
			}
		}
	}
	all := append(append([]lin{}, st.withSets(g)...), extra...)
	c, ok, inf := lowerBound(all, g)
	if inf {
		return 1 << 40, true
	}
	return c, ok
}
