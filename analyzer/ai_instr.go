package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Instruction semantics.

func lowBits(b *types.Basic) (lo, hi lin, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return lc(-128), lc(127), true
	case types.Int16:
		return lc(-1 << 15), lc(1<<15 - 1), true
	case types.Int32:
		return lc(-1 << 31), lc(1<<31 - 1), true
	case types.Uint8:
		return lc(0), lc(255), true
	case types.Uint16:
		return lc(0), lc(1<<16 - 1), true
	case types.Uint32:
		return lc(0), lc(1<<32 - 1), true
	case types.Uint, types.Uint64, types.Uintptr:
		return lc(0), lc(1 << 61), true
	}
	return lin{}, lin{}, false
}

// fit returns l if a value of type t can hold it, and otherwise an arbitrary value.
func (e *engine) fit(fr *frame, st *state, v ssa.Value, l lin, t types.Type) aval {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return l
	}
	lo, hi, ok := lowBits(b)
	if !ok {
		return l
	}
	if st.ge0(l.sub(lo)) && st.ge0(hi.sub(l)) {
		return l
	}
	return e.freshInt(st, fr.name(v, ""), t)
}

func (e *engine) one(st *state, v ssa.Value, x aval) []*state {
	st.env[v] = x
	return []*state{st}
}

func (e *engine) instr(fr *frame, st *state, in ssa.Instruction) []*state {
	switch in := in.(type) {
	case *ssa.Alloc:
		obj := "alloc:" + fr.ctx + ":" + in.Name()
		e.retireObj(fr, st, obj, in)
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok && a.Len() > 16 {
			st.env[in] = nil
			b := e.newBase(fr, st, in, false)
			st.env[in] = &slv{b, lc(0), lc(a.Len())}
			st.heap[cellKey{"cap:" + string(b), ""}] = lc(a.Len())
			return []*state{st}
		}
		e.storeCell(st, obj, "", t, e.zero(t))
		return e.one(st, in, ptrv{obj, ""})

	case *ssa.FieldAddr:
		x := e.val(fr, st, in.X)
		e.nonNil(fr, st, in, in.X, x)
		return e.one(st, in, fieldAddrOf(x, in.Field))

	case *ssa.Field:
		x, _ := e.val(fr, st, in.X).(structv)
		if x == nil || in.Field >= len(x) {
			return e.one(st, in, e.fresh(st, fr.name(in, ""), in.Type()))
		}
		return e.one(st, in, x[in.Field])

	case *ssa.IndexAddr:
		return e.indexAddr(fr, st, in)

	case *ssa.Index:
		idx := e.intVal(fr, st, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Array); ok {
			x, _ := e.val(fr, st, in.X).(structv)
			n := in.X.Type().Underlying().(*types.Array).Len()
			e.bound(fr, st, in, idx, lc(n))
			if x != nil && idx.isConst() && idx.c >= 0 && int(idx.c) < len(x) {
				return e.one(st, in, x[idx.c])
			}
			return e.one(st, in, e.fresh(st, fr.name(in, ""), in.Type()))
		}
		return e.strIndex(fr, st, in, in.X, idx)

	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return e.strIndex(fr, st, in, in.X, e.intVal(fr, st, in.Index))
		}
		return e.mapLookup(fr, st, in)

	case *ssa.UnOp:
		return e.unop(fr, st, in)

	case *ssa.BinOp:
		return e.binop(fr, st, in)

	case *ssa.Store:
		p := e.val(fr, st, in.Addr)
		e.nonNil(fr, st, in, in.Addr, p)
		v := e.val(fr, st, in.Val)
		switch p := p.(type) {
		case ptrv:
			if !strings.HasPrefix(p.obj, "alloc:") {
				e.writes++
			}
			e.storeCell(st, p.obj, p.path, in.Val.Type(), v)
		case elemv:
			if e.onStore != nil {
				e.onStore(e, fr, in)
			}
			if !e.storeField(st, p, v) {
				e.storeElem(st, p, in.Val.Type())
			}
		default:
			e.havocHeap(st)
		}
		return []*state{st}

	case *ssa.Slice:
		return e.slice(fr, st, in)

	case *ssa.Convert:
		return e.one(st, in, e.convert(fr, st, in, in.X, in.Type()))
	case *ssa.ChangeType:
		return e.one(st, in, e.val(fr, st, in.X))
	case *ssa.ChangeInterface, *ssa.MakeInterface:
		return e.one(st, in.(ssa.Value), nil)

	case *ssa.Extract:
		t, _ := e.val(fr, st, in.Tuple).(tuplev)
		if t == nil || in.Index >= len(t) {
			return e.one(st, in, e.fresh(st, fr.name(in, ""), in.Type()))
		}
		return e.one(st, in, t[in.Index])

	case *ssa.MakeSlice:
		n := e.intVal(fr, st, in.Len)
		c := e.intVal(fr, st, in.Cap)
		e.oblige(fr, in, "make", st.ge0(n) && st.ge0(c.sub(n)), func() string { return "make: length " + n.String() + ", capacity " + c.String() })
		b := e.newBase(fr, st, in, false)
		st.heap[cellKey{"cap:" + string(b), ""}] = c
		return e.one(st, in, &slv{b, lc(0), n})
	case *ssa.MakeMap:
		return e.one(st, in, mapv{"alloc:" + fr.ctx + ":" + in.Name()})
	case *ssa.MakeClosure:
		var bind []aval
		for _, b := range in.Bindings {
			bind = append(bind, e.val(fr, st, b))
		}
		return e.one(st, in, fnv{fn: in.Fn.(*ssa.Function), bind: bind})
	case *ssa.MapUpdate:
		x := e.val(fr, st, in.Map)
		_, isMap := x.(mapv)
		e.oblige(fr, in, "nil map", isMap, func() string { return "assignment to an entry of a map that may be nil" })
		return []*state{st}

	case *ssa.Range:
		key := "iter:" + fr.ctx + ":" + in.Name()
		if s, ok := e.val(fr, st, in.X).(*slv); ok {
			st.heap[cellKey{key, ""}] = s.off
			return e.one(st, in, iterv{key, s})
		}
		return e.one(st, in, iterv{key: key})
	case *ssa.Next:
		return e.next(fr, st, in)

	case *ssa.TypeAssert:
		e.oblige(fr, in, "type assertion", in.CommaOk, func() string { return "a type assertion may fail" })
		return e.one(st, in, e.fresh(st, fr.name(in, ""), in.Type()))

	case *ssa.Call:
		return e.call(fr, st, in)

	case *ssa.RunDefers:
		return []*state{st}
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
		e.undecided("%s: %T is not modelled", e.w.instrPos(in), in)
		if v, ok := in.(ssa.Value); ok {
			st.env[v] = nil
		}
		return []*state{st}
	case ssa.Value:
		st.env[in] = e.fresh(st, fr.name(in, ""), in.Type())
		return []*state{st}
	}
	e.undecided("%s: %T is not modelled", e.w.instrPos(in), in)
	return []*state{st}
}

func fieldAddrOf(x aval, i int) aval {
	switch x := x.(type) {
	case ptrv:
		return ptrv{x.obj, fmt.Sprintf("%s.%d", x.path, i)}
	case elemv:
		return elemv{x.base, x.idx, fmt.Sprintf("%s.%d", x.path, i)}
	}
	return nil
}

// nonNil obliges a pointer to be non-nil.
func (e *engine) nonNil(fr *frame, st *state, in ssa.Instruction, v ssa.Value, x aval) {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
		return
	}
	ok := false
	switch x.(type) {
	case ptrv, elemv, *slv:
		ok = true
	}
	if !ok {
		if t, is := st.truth["nonnil:"+fr.name(v, "")]; is && t {
			ok = true
		}
	}
	e.oblige(fr, in, "nil dereference", ok, func() string { return v.Name() + " may be nil" })
}

// retireObj frees the name of an object that an earlier execution created.
func (e *engine) retireObj(fr *frame, st *state, obj string, in ssa.Instruction) {
	used := false
	for k := range st.heap {
		if k.obj == obj {
			used = true
		}
	}
	if !used {
		return
	}
	live := fr.info.liveAfter(in)
	for v := range st.env {
		if !live[v] {
			delete(st.env, v)
		}
	}
	ls := st.used()
	n := obj
	for {
		n += "'"
		if !ls.objs[n] {
			break
		}
	}
	st.rename(nil, nil, map[string]string{obj: n})
	st.gcObjs()
}

// gcObjs drops objects that nothing refers to.
func (st *state) gcObjs() {
	ls := st.live()
	for k := range st.heap {
		if strings.HasPrefix(k.obj, "alloc:") && !ls.objs[k.obj] {
			delete(st.heap, k)
		}
	}
}

// newBase frees and returns the base named for an instruction.
func (e *engine) newBase(fr *frame, st *state, v ssa.Value, str bool) baseID {
	key := fr.name(v, "")
	if str {
		key = "str:" + key
	}
	e.freeBase(st, key)
	return baseID(key)
}

func (e *engine) freeBase(st *state, key string) {
	b := baseID(key)
	ls := st.used()
	if ls.bases[b] {
		n := key
		for {
			n += "'"
			if !ls.bases[baseID(n)] {
				break
			}
		}
		c := symFor("cap:" + key)
		st.rename(map[sym]lin{c: lv(symFor("cap:" + n))}, map[baseID]baseID{b: baseID(n)}, nil)
	}
	st.killBase(b)
	st.killSym(symFor("cap:" + key))
}

// killSym frees a symbol, renaming old uses.
func (st *state) killSym(s sym) {
	ls := st.used()
	if ls.syms[s] {
		inCons := map[sym]bool{}
		for _, c := range st.cons {
			for _, x := range c.s {
				inCons[x] = true
			}
		}
		n := symName(s)
		for {
			n += "'"
			t := symFor(n)
			if !ls.syms[t] && !inCons[t] {
				break
			}
		}
		st.rename(map[sym]lin{s: lv(symFor(n))}, nil, nil)
		return
	}
	st.kill(s)
}

// Cells.

func (e *engine) cell(st *state, k cellKey) aval {
	if v, ok := st.heap[k]; ok {
		return v
	}
	t := e.cellT[k]
	if t == nil {
		return nil
	}
	var v aval
	ok := false
	if e.field != nil {
		v, ok = e.field(e, st, k.obj, k.path, t)
	}
	if !ok {
		v = e.fresh(st, k.obj+k.path, t)
	}
	st.heap[k] = v
	return v
}

func (e *engine) loadCell(fr *frame, st *state, v ssa.Value, obj, path string, t types.Type) aval {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var s structv
		for i := 0; i < u.NumFields(); i++ {
			s = append(s, e.loadCell(fr, st, v, obj, fmt.Sprintf("%s.%d", path, i), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 16 {
			var s structv
			for i := int64(0); i < u.Len(); i++ {
				s = append(s, e.loadCell(fr, st, v, obj, fmt.Sprintf("%s[%d]", path, i), u.Elem()))
			}
			return s
		}
		return nil
	}
	k := cellKey{obj, path}
	if x, ok := st.heap[k]; ok {
		return x
	}
	if lazyObj(obj) {
		e.cellT[k] = t
		return e.cell(st, k)
	}
	return e.fresh(st, fr.name(v, path), t)
}

func (e *engine) storeCell(st *state, obj, path string, t types.Type, v aval) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, _ := v.(structv)
		for i := 0; i < u.NumFields(); i++ {
			var x aval
			if s != nil {
				x = s[i]
			}
			e.storeCell(st, obj, fmt.Sprintf("%s.%d", path, i), u.Field(i).Type(), x)
		}
		return
	case *types.Array:
		if u.Len() <= 16 {
			s, _ := v.(structv)
			for i := int64(0); i < u.Len(); i++ {
				var x aval
				if s != nil {
					x = s[i]
				}
				e.storeCell(st, obj, fmt.Sprintf("%s[%d]", path, i), u.Elem(), x)
			}
		}
		return
	}
	k := cellKey{obj, path}
	e.cellT[k] = t
	if v == nil {
		// Unknown: forget the cell; reading it invents a value.
		v = e.unknownOf(st, "cell:"+obj+path, t)
	}
	st.heap[k] = v
}

// unknownOf is an arbitrary value; nil where the type has no useful representation.
func (e *engine) unknownOf(st *state, key string, t types.Type) aval {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return nil
	}
	return e.fresh(st, key, t)
}

// storeElem forgets what a write to an element of type t (nil: any) may change.
func (e *engine) storeElem(st *state, p elemv, t types.Type) {
	if p.base == "" || e.guard[p.base] {
		e.writes++
	}
	if strings.HasPrefix(string(p.base), "ext:") {
		e.undecided("a write to shared memory %s", p.base)
	}
	if t != nil && isByte(t) && p.path == "" && !strings.HasPrefix(string(p.base), "obj:") {
		// Summarised sequences and struct elements do not share memory with bytes.
		var el []elemFact
		for _, x := range st.elems {
			_, plain := x.f[""]
			if !plain || immutableBase(x.base) {
				el = append(el, x)
			}
		}
		st.elems = el
		return
	}
	// Any element of a slice may have changed.
	for b := range st.seqs {
		if !immutableBase(b) {
			st.seqs[b] = &seqInfo{top: true}
		}
	}
	var el []elemFact
	for _, x := range st.elems {
		if immutableBase(x.base) {
			el = append(el, x)
		}
	}
	st.elems = el
	if strings.HasPrefix(string(p.base), "obj:") {
		e.havocObj(st, string(p.base)[4:])
	}
}

// storeField changes an integer field of a known element of a summarised
// sequence, when all that is known of the sequence's elements stays true.
func (e *engine) storeField(st *state, p elemv, v aval) bool {
	q := st.seqs[p.base]
	val, ok := v.(lin)
	if !ok || q == nil || q.top || q.empty || e.guard[p.base] || immutableBase(p.base) {
		return false
	}
	fi := -1
	for i, f := range q.fields {
		if f == p.path {
			fi = i
		}
	}
	el := st.findElem(p.base, p.idx)
	if fi < 0 || el == nil || len(el.f) < len(q.fields) {
		return false
	}
	for k := range q.cls {
		if _, c := classConst(k, p.path); c {
			return false
		}
	}
	old := *el
	now := elemFact{p.base, old.idx, map[string]aval{}}
	for f, x := range old.f {
		now.f[f] = x
	}
	now.f[p.path] = val
	// mayBe: the element may be of class k.
	mayBe := func(x elemFact, k string) bool {
		for _, f := range q.fields {
			if c, is := classConst(k, f); is {
				if l, ok := x.f[f].(lin); ok && (st.ge0(l.addc(-c-1)) || st.ge0(lc(c-1).sub(l))) {
					return false
				}
			}
		}
		return true
	}
	cur := q.fieldMap(now.f, curField)
	for k, cs := range q.cls {
		if !mayBe(now, k) {
			continue
		}
		for _, c := range cs {
			if c.has(curField(fi)) && !st.ge0(c.substAll(cur)) {
				return false
			}
		}
	}
	isLast := 0 // unknown
	if st.ge0(q.n.addc(-2).sub(old.idx)) {
		isLast = -1
	} else if st.eq0(q.n.addc(-1).sub(old.idx)) {
		isLast = 1
	} else {
		for f, l := range q.last {
			if x, ok := old.f[f].(lin); ok {
				if d := x.sub(l); st.ge0(d.addc(-1)) || st.ge0(d.neg().addc(-1)) {
					isLast = -1
				}
			}
		}
	}
	if isLast == 0 {
		return false
	}
	// of is the state where the element is of class k (nil: it cannot be).
	of := func(x elemFact, k string) *state {
		if !mayBe(x, k) {
			return nil
		}
		s := st.clone()
		for _, c := range q.cls[k] {
			if !s.add(c.substAll(q.fieldMap(x.f, curField))) {
				return nil
			}
		}
		return s
	}
	// The change may only make a relation hold by more.
	kept := func(c lin, field sym) bool {
		was, ok := old.f[p.path].(lin)
		return ok && st.ge0(val.sub(was).scale(c.coef(field)))
	}
	first := st.ge0(old.idx.neg())
	for kk, cs := range q.adj {
		for _, c := range cs {
			if c.has(curField(fi)) && !first && mayBe(now, kk[1]) && !kept(c, curField(fi)) {
				pv := st.findElem(p.base, old.idx.addc(-1))
				if pv == nil {
					return false
				}
				if s := of(*pv, kk[0]); s != nil && !s.ge0(c.substAll(q.fieldMap(pv.f, prevField)).substAll(cur)) {
					return false
				}
			}
			if c.has(prevField(fi)) && isLast < 0 && mayBe(now, kk[0]) && !kept(c, prevField(fi)) {
				nx := st.findElem(p.base, old.idx.addc(1))
				if nx == nil {
					return false
				}
				if s := of(*nx, kk[1]); s != nil && !s.ge0(c.substAll(q.fieldMap(now.f, prevField)).substAll(q.fieldMap(nx.f, curField))) {
					return false
				}
			}
		}
	}
	if p.base == "" {
		e.writes++
	}
	// Slices of the same type may share the memory.
	for b := range st.seqs {
		if b != p.base && !immutableBase(b) {
			if t, u := e.elemType[b], e.elemType[p.base]; t == nil || u == nil || types.Identical(t, u) {
				st.seqs[b] = &seqInfo{top: true}
			}
		}
	}
	var keep []elemFact
	for _, x := range st.elems {
		if x.base == p.base {
			d := x.idx.sub(old.idx)
			if st.eq0(d) {
				continue
			}
			if st.ge0(d.addc(-1)) || st.ge0(d.neg().addc(-1)) {
				keep = append(keep, x)
			}
			continue
		}
		if q := st.seqs[x.base]; q == nil || !q.top {
			keep = append(keep, x)
		}
	}
	st.elems = append(keep, now)
	if isLast > 0 {
		nq := *q
		nq.last = map[string]lin{}
		for f, l := range q.last {
			nq.last[f] = l
		}
		nq.last[p.path] = val
		st.seqs[p.base] = &nq
	}
	return true
}

func immutableBase(b baseID) bool {
	return strings.HasPrefix(string(b), "str:") || strings.HasPrefix(string(b), "const:") || strings.HasPrefix(string(b), "ext:") || b == nilBase
}

func (e *engine) havocObj(st *state, obj string) {
	for k := range st.heap {
		if k.obj == obj {
			st.heap[k] = e.unknownOf(st, "cell:"+k.obj+k.path, e.cellT[k])
		}
	}
}

func (e *engine) havocHeap(st *state) {
	for k := range st.heap {
		if !strings.HasPrefix(k.obj, "cap:") && !strings.HasPrefix(k.obj, "iter:") {
			st.heap[k] = e.unknownOf(st, "cell:"+k.obj+k.path, e.cellT[k])
		}
	}
	e.storeElem(st, elemv{}, nil)
}

// Indexing.

func (e *engine) bound(fr *frame, st *state, in ssa.Instruction, idx, n lin) {
	ok := st.ge0(idx) && st.ge0(n.sub(idx).addc(-1))
	e.oblige(fr, in, "index", ok, func() string {
		d := ""
		if e.trace {
			d = "\n" + st.String()
		}
		return fmt.Sprintf("index %s is not shown to be within length %s%s", idx, n, d)
	})
	// Execution continues only when the index was in range.
	st.assumeIn(idx, n)
}

func (st *state) assumeIn(idx, n lin) {
	st.cons = st.cons[:len(st.cons):len(st.cons)]
	if !st.ge0(idx) {
		st.add(idx)
	}
	if g := n.sub(idx).addc(-1); !st.ge0(g) {
		st.add(g)
	}
}

func (e *engine) indexAddr(fr *frame, st *state, in *ssa.IndexAddr) []*state {
	idx := e.intVal(fr, st, in.Index)
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		x := e.val(fr, st, in.X)
		e.nonNil(fr, st, in, in.X, x)
		n := p.Elem().Underlying().(*types.Array).Len()
		e.bound(fr, st, in, idx, lc(n))
		switch x := x.(type) {
		case ptrv:
			if idx.isConst() {
				return e.one(st, in, ptrv{x.obj, fmt.Sprintf("%s[%d]", x.path, idx.c)})
			}
			return e.one(st, in, elemv{baseID("obj:" + x.obj + x.path), idx, ""})
		case *slv:
			return e.one(st, in, elemv{x.base, x.off.add(idx), ""})
		}
		return e.one(st, in, nil)
	}
	s := e.slVal(fr, st, in.X)
	e.bound(fr, st, in, idx, s.n)
	at := s.off.add(idx)
	if sl, ok := in.X.Type().Underlying().(*types.Slice); ok {
		if t, seen := e.elemType[s.base]; !seen {
			e.elemType[s.base] = sl.Elem()
		} else if t != nil && !types.Identical(t, sl.Elem()) {
			e.elemType[s.base] = nil
		}
	}
	if strings.HasPrefix(string(s.base), "obj:") && at.isConst() {
		return e.one(st, in, ptrv{string(s.base)[4:], fmt.Sprintf("[%d]", at.c)})
	}
	return e.one(st, in, elemv{s.base, at, ""})
}

func (e *engine) strIndex(fr *frame, st *state, in ssa.Instruction, x ssa.Value, idx lin) []*state {
	s := e.slVal(fr, st, x)
	e.bound(fr, st, in, idx, s.n)
	v := in.(ssa.Value)
	return e.one(st, v, e.byteAt(st, s.base, s.off.add(idx)))
}

// loadElem reads part of an element; the states may split.
func (e *engine) loadElem(fr *frame, st *state, v ssa.Value, p elemv, t types.Type) ([]*state, []aval) {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && p.path == "" {
		return []*state{st}, []aval{e.byteAt(st, p.base, p.idx)}
	}
	if e.elem != nil {
		if ss, vs, ok := e.elem(e, st, p.base, p.idx, t); ok {
			return ss, vs
		}
	}
	if q := st.seqs[p.base]; q != nil && !q.top {
		ss := e.readSeq(st, p.base, q, p.idx)
		var vs []aval
		for _, s := range ss {
			vs = append(vs, e.fromFields(fr, s, v, p, p.path, t))
		}
		return ss, vs
	}
	return []*state{st}, []aval{e.fromFields(fr, st, v, p, p.path, t)}
}

func (e *engine) fromFields(fr *frame, st *state, v ssa.Value, p elemv, path string, t types.Type) aval {
	if u, ok := t.Underlying().(*types.Struct); ok {
		var s structv
		for i := 0; i < u.NumFields(); i++ {
			s = append(s, e.fromFields(fr, st, v, p, fmt.Sprintf("%s.%d", path, i), u.Field(i).Type()))
		}
		return s
	}
	if el := st.findElem(p.base, p.idx); el != nil {
		if x, ok := el.f[path]; ok {
			return x
		}
	}
	if e.elemLeaf != nil {
		if x, ok := e.elemLeaf(e, st, p.base, p.idx, path, t); ok {
			return x
		}
	}
	x := e.unknownOf(st, fr.name(v, path), t)
	if l, ok := x.(lin); ok && p.base != nilBase {
		e.noteElem(st, p.base, p.idx, path, l)
	}
	return x
}

func (e *engine) noteElem(st *state, b baseID, idx lin, path string, v aval) {
	if el := st.findElem(b, idx); el != nil {
		n := elemFact{el.base, el.idx, map[string]aval{}}
		for k, x := range el.f {
			n.f[k] = x
		}
		n.f[path] = v
		var out []elemFact
		for i := range st.elems {
			if &st.elems[i] == el {
				out = append(out, n)
			} else {
				out = append(out, st.elems[i])
			}
		}
		st.elems = out
		return
	}
	st.elems = append(st.elems[:len(st.elems):len(st.elems)], elemFact{b, idx, map[string]aval{path: v}})
}

// readSeq makes the facts about one element available, one state per class.
func (e *engine) readSeq(st *state, b baseID, q *seqInfo, idx lin) []*state {
	if el := st.findElem(b, idx); el != nil {
		have := 0
		for _, f := range q.fields {
			if _, ok := el.f[f]; ok {
				have++
			}
		}
		if have == len(q.fields) {
			// The order of the indexes may have become known since.
			if !e.linkElem(st, b, q, *el, "") {
				return nil
			}
			return []*state{st}
		}
	}
	if q.empty {
		return []*state{st}
	}
	var out []*state
	var names []string
	for k := range q.cls {
		names = append(names, k)
	}
	sortStrings(names)
	for i, k := range names {
		s := st
		if i+1 < len(names) {
			s = st.clone()
		}
		f := map[string]aval{}
		m := map[sym]lin{}
		ok := true
		for fi, p := range q.fields {
			if c, isC := classConst(k, p); isC {
				if el := s.findElem(b, idx); el != nil {
					// (it was made before the class was known)
					if l, had := el.f[p].(lin); had && !s.addEq(l.addc(-c)) {
						ok = false
					}
				}
				f[p] = lc(c)
				m[curField(fi)] = lc(c)
				continue
			}
			if el := s.findElem(b, idx); el != nil {
				if _, had := el.f[p].(lin); had {
					continue
				}
			}
			x := symFor("el:" + string(b) + "[" + idx.String() + "]" + p)
			s.killSym(x)
			f[p] = lv(x)
			m[curField(fi)] = lv(x)
		}
		// killSym may have renamed the symbols of the summary.
		q := s.seqs[b]
		var rest []elemFact
		old := s.findElem(b, idx)
		for fi, p := range q.fields {
			if _, done := f[p]; !done {
				f[p] = old.f[p]
				m[curField(fi)] = old.f[p].(lin)
			}
		}
		for i := range s.elems {
			if x := &s.elems[i]; x != old {
				rest = append(rest, *x)
			}
		}
		s.elems = rest
		for _, c := range q.cls[k] {
			if !s.add(c.substAll(m)) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		s.elems = append(s.elems[:len(s.elems):len(s.elems)], elemFact{b, idx, f})
		// An element of a class that no element follows is the last.
		if q.final(k) && !s.addEq(q.n.addc(-1).sub(idx)) {
			continue
		}
		if !e.linkElem(s, b, q, elemFact{b, idx, f}, k) {
			continue
		}
		out = append(out, s)
	}
	return out
}

// final reports whether no element follows one of class k.
func (q *seqInfo) final(k string) bool {
	for p := range q.adj {
		if p[0] == k {
			return false
		}
	}
	return len(q.adj) > 0
}

// ahead makes the elements that the loop will look at first known, so that the
// loop invariant can speak of them.
func (e *engine) ahead(l *loopInfo, st *state) {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			sl, ok := ia.X.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if _, ok := sl.Elem().Underlying().(*types.Struct); !ok {
				continue
			}
			idx, moves, ok := headIndex(l, st, ia.Index, 0)
			if !ok || !moves {
				continue
			}
			var bases []string
			for x, q := range st.seqs {
				if t := e.elemType[x]; !q.top && !q.empty && t != nil && types.Identical(t, sl.Elem()) {
					bases = append(bases, string(x))
				}
			}
			sort.Strings(bases)
			for _, x := range bases {
				e.materialise(st, baseID(x), idx, true)
			}
		}
	}
}

// headIndex is the value that v will have when the body of the loop begins: a
// sum of loop variables, values fixed in the loop and small constants.
func headIndex(l *loopInfo, st *state, v ssa.Value, depth int) (x lin, moves, ok bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			if k, exact := constant.Int64Val(constant.ToInt(v.Value)); exact && k >= -2 && k <= 2 {
				return lc(k), false, true
			}
		}
		return lin{}, false, false
	case *ssa.Phi:
		if v.Block() == l.head {
			x, ok := st.env[v].(lin)
			return x, true, ok
		}
	case *ssa.BinOp:
		if l.blocks[v.Block()] {
			if v.Op != token.ADD && v.Op != token.SUB || depth > 2 {
				return lin{}, false, false
			}
			x, m1, ok1 := headIndex(l, st, v.X, depth+1)
			y, m2, ok2 := headIndex(l, st, v.Y, depth+1)
			if !ok1 || !ok2 {
				return lin{}, false, false
			}
			if v.Op == token.SUB {
				y = y.neg()
			}
			return x.add(y), m1 || m2, true
		}
	}
	if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return lin{}, false, false
	}
	x, ok = st.env[v].(lin)
	return x, false, ok
}

// materialise introduces the element at idx without telling its class: only
// what holds for every class is said of it. With past, idx may also be one past
// the last; there it stands for an element later than any other.
func (e *engine) materialise(st *state, b baseID, idx lin, past bool) {
	q := st.seqs[b]
	if el := st.findElem(b, idx); el != nil {
		// The order of the indexes may have become known since.
		if past {
			e.linkElem(st, b, q, *el, "")
		}
		return
	}
	if !st.ge0(idx) || !st.ge0(q.n.sub(idx)) || !past && !st.ge0(q.n.sub(idx).addc(-1)) {
		return
	}
	f := map[string]aval{}
	m := map[sym]lin{}
	for i, p := range q.fields {
		isC := false
		for k := range q.cls {
			if _, c := classConst(k, p); c {
				isC = true
			}
		}
		if isC {
			continue
		}
		x := symFor("el:" + string(b) + "[" + idx.String() + "]" + p)
		st.killSym(x)
		f[p] = lv(x)
		m[curField(i)] = lv(x)
	}
	q = st.seqs[b]
	// Differences of fields that every class bounds.
	for i := range q.fields {
		for k := range q.fields {
			if m[curField(i)].isConst() || m[curField(k)].isConst() || i == k {
				continue
			}
			g := lv(curField(i)).sub(lv(curField(k)))
			low, all, first := int64(0), true, true
			for _, cs := range q.cls {
				found := false
				for _, c := range cs {
					if c.sameShape(g) {
						found = true
						if first || -c.c < low {
							low = -c.c
						}
						first = false
					}
				}
				if !found {
					all = false
				}
			}
			if all && !first {
				st.add(g.addc(-low).substAll(m))
			}
		}
	}
	x := elemFact{b, idx, f}
	if past && len(e.horizon.s) > 0 && st.ge0(idx.sub(q.n)) {
		for _, v := range f {
			st.add(v.(lin).sub(e.horizon))
		}
	}
	st.elems = append(st.elems[:len(st.elems):len(st.elems)], x)
	e.linkElem(st, b, q, x, "")
}

func sortStrings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func classConst(k, p string) (int64, bool) {
	for _, part := range strings.Split(k, ",") {
		if strings.HasPrefix(part, p+"=") {
			var c int64
			fmt.Sscan(part[len(p)+1:], &c)
			return c, true
		}
	}
	return 0, false
}

func (q *seqInfo) fieldMap(f map[string]aval, sy func(int) sym) map[sym]lin {
	m := map[sym]lin{}
	for i, p := range q.fields {
		if l, ok := f[p].(lin); ok {
			m[sy(i)] = l
		}
	}
	return m
}

// linkElem relates a new element to those already known.
func (e *engine) linkElem(st *state, b baseID, q *seqInfo, x elemFact, k string) bool {
	for _, y := range st.elems {
		if y.base != b || y.idx.eq(x.idx) {
			continue
		}
		d := x.idx.sub(y.idx)
		if d.isConst() && (d.c == 1 || d.c == -1) || st.eq0(d.addc(-1)) {
			pv, cv := y, x
			if d.isConst() && d.c == -1 {
				pv, cv = x, y
			}
			if len(pv.f) < len(q.fields) || len(cv.f) < len(q.fields) {
				// Not known to be an element, but later all the same.
				if !e.applyChain(st, q, pv.f, cv.f, false) {
					return false
				}
			} else if !e.applyAdj(st, q, pv.f, cv.f) {
				return false
			}
			if d.isConst() {
				continue
			}
		}
		if st.ge0(d.addc(-1)) {
			if !e.applyChain(st, q, y.f, x.f, false) {
				return false
			}
		} else if st.ge0(d.neg().addc(-1)) {
			if !e.applyChain(st, q, x.f, y.f, false) {
				return false
			}
		} else if st.ge0(d) && st.ge0(d.neg()) {
			if !st.sameFields(x, y) {
				return false
			}
		} else if st.ge0(d) {
			if !e.applyChain(st, q, y.f, x.f, true) {
				return false
			}
		} else if st.ge0(d.neg()) {
			if !e.applyChain(st, q, x.f, y.f, true) {
				return false
			}
		}
	}
	// The last element.
	if d := q.n.addc(-1).sub(x.idx); st.eq0(d) {
		for p, l := range q.last {
			if v, ok := x.f[p].(lin); ok {
				if !st.addEq(v.sub(l)) {
					return false
				}
			}
		}
	} else if st.ge0(d.addc(-1)) {
		if !e.applyChain(st, q, x.f, q.lastVals(), false) {
			return false
		}
	} else if st.ge0(d) {
		if !e.applyChain(st, q, x.f, q.lastVals(), true) {
			return false
		}
	}
	return true
}

func (q *seqInfo) lastVals() map[string]aval {
	f := map[string]aval{}
	for p, l := range q.last {
		f[p] = l
	}
	return f
}

func (q *seqInfo) classOf(f map[string]aval) string {
	var s []string
	for _, p := range q.fields {
		if l, ok := f[p].(lin); ok && l.isConst() && l.c < 0 {
			s = append(s, fmt.Sprintf("%s=%d", p, l.c))
		}
	}
	return strings.Join(s, ",")
}

func (e *engine) applyAdj(st *state, q *seqInfo, prev, cur map[string]aval) bool {
	cs, ok := q.adj[[2]string{q.classOf(prev), q.classOf(cur)}]
	if !ok {
		return len(q.adj) == 0 || false
	}
	m := q.fieldMap(cur, curField)
	for s, l := range q.fieldMap(prev, prevField) {
		m[s] = l
	}
	for _, c := range cs {
		d := c.substAll(m)
		if complete(d) && !st.add(d) {
			return false
		}
	}
	return true
}

func complete(l lin) bool {
	for _, s := range l.s {
		if s < 0 {
			return false
		}
	}
	return true
}

// applyChain relates elements i < j (or i <= j: same) through the steps between them.
func (e *engine) applyChain(st *state, q *seqInfo, x, y map[string]aval, same bool) bool {
	n := len(q.fields)
	// local[f][g]: field f <= field g in every element; step: in consecutive elements.
	mat := func() [][]bool {
		m := make([][]bool, n)
		for i := range m {
			m[i] = make([]bool, n)
		}
		return m
	}
	local, step := mat(), mat()
	all := func(sets [][]lin, g lin) bool {
		for _, cs := range sets {
			ok := false
			for _, c := range cs {
				if c.sameShape(g) && c.c <= g.c {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	var cls, adj [][]lin
	for _, cs := range q.cls {
		cls = append(cls, cs)
	}
	for _, cs := range q.adj {
		adj = append(adj, cs)
	}
	for f := 0; f < n; f++ {
		for g := 0; g < n; g++ {
			local[f][g] = f == g || all(cls, lv(curField(g)).sub(lv(curField(f))))
			step[f][g] = all(adj, lv(curField(g)).sub(lv(prevField(f))))
		}
	}
	mul := func(a, b [][]bool) [][]bool {
		c := mat()
		for i := range a {
			for k := range b {
				if a[i][k] {
					for j := range b {
						if b[k][j] {
							c[i][j] = true
						}
					}
				}
			}
		}
		return c
	}
	s1 := mul(mul(local, step), local)
	p, inter := s1, s1
	for i := 0; i < 12; i++ {
		p = mul(p, s1)
		nx := mat()
		for f := range nx {
			for g := range nx {
				nx[f][g] = inter[f][g] && p[f][g]
			}
		}
		inter = nx
	}
	for f := 0; f < n; f++ {
		for g := 0; g < n; g++ {
			if !inter[f][g] || same && !local[f][g] {
				continue
			}
			a, ok1 := x[q.fields[f]].(lin)
			b, ok2 := y[q.fields[g]].(lin)
			if ok1 && ok2 && !st.add(b.sub(a)) {
				return false
			}
		}
	}
	return true
}

// Unary operations.

func (e *engine) unop(fr *frame, st *state, in *ssa.UnOp) []*state {
	switch in.Op {
	case token.MUL:
		p := e.val(fr, st, in.X)
		e.nonNil(fr, st, in, in.X, p)
		switch p := p.(type) {
		case ptrv:
			if g, ok := in.X.(*ssa.Global); ok {
				if v, ok := e.globalVal(st, g); ok {
					return e.one(st, in, v)
				}
			}
			return e.one(st, in, e.loadCell(fr, st, in, p.obj, p.path, in.Type()))
		case elemv:
			ss, vs := e.loadElem(fr, st, in, p, in.Type())
			for i, s := range ss {
				s.env[in] = vs[i]
			}
			return ss
		}
		return e.one(st, in, e.unknownOf(st, fr.name(in, ""), in.Type()))
	case token.NOT:
		return e.one(st, in, e.cond(fr, st, in.X).not())
	case token.SUB:
		switch x := e.val(fr, st, in.X).(type) {
		case lin:
			return e.one(st, in, e.fit(fr, st, in, x.neg(), in.Type()))
		case *fltv:
			return e.one(st, in, &fltv{op: "-", x: &fltv{op: "const"}, y: x})
		}
	}
	return e.one(st, in, e.unknownOf(st, fr.name(in, ""), in.Type()))
}

func (e *engine) globalVal(st *state, g *ssa.Global) (aval, bool) {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if !e.written[g] {
		// Never assigned, not even by its declaration: the zero value.
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return e.zero(t), true
		}
	}
	return nil, false
}

// Binary operations.

func (e *engine) binop(fr *frame, st *state, in *ssa.BinOp) []*state {
	t := in.X.Type().Underlying()
	b, _ := t.(*types.Basic)
	switch in.Op {
	case token.EQL, token.NEQ:
		c := e.equal(fr, st, in)
		if in.Op == token.NEQ {
			c = c.not()
		}
		return e.one(st, in, c)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if b != nil && b.Info()&types.IsInteger != 0 {
			x, y := e.intVal(fr, st, in.X), e.intVal(fr, st, in.Y)
			var l lin
			switch in.Op {
			case token.LSS:
				l = y.sub(x).addc(-1)
			case token.LEQ:
				l = y.sub(x)
			case token.GTR:
				l = x.sub(y).addc(-1)
			case token.GEQ:
				l = x.sub(y)
			}
			if l.isConst() {
				return e.one(st, in, boolConst(l.c >= 0))
			}
			return e.one(st, in, &cond{op: cGE, l: l})
		}
		return e.one(st, in, e.opaque(fr, st, in))
	}
	if b != nil && b.Info()&types.IsFloat != 0 {
		x, _ := e.val(fr, st, in.X).(*fltv)
		y, _ := e.val(fr, st, in.Y).(*fltv)
		if x == nil || y == nil {
			return e.one(st, in, nil)
		}
		return e.one(st, in, &fltv{op: in.Op.String(), x: x, y: y})
	}
	if b == nil || b.Info()&types.IsInteger == 0 {
		if b != nil && b.Info()&types.IsString != 0 && in.Op == token.ADD {
			x, y := e.slVal(fr, st, in.X), e.slVal(fr, st, in.Y)
			if strings.HasPrefix(string(x.base), "const:") && strings.HasPrefix(string(y.base), "const:") && x.n.isConst() && y.n.isConst() && x.off.isConst() && y.off.isConst() {
				return e.one(st, in, e.strConst(st, string(x.base)[6:][x.off.c:x.off.c+x.n.c]+string(y.base)[6:][y.off.c:y.off.c+y.n.c]))
			}
			n := x.n.add(y.n)
			return e.one(st, in, &slv{e.newBase(fr, st, in, true), lc(0), n})
		}
		return e.one(st, in, e.unknownOf(st, fr.name(in, ""), in.Type()))
	}
	x, y := e.intVal(fr, st, in.X), e.intVal(fr, st, in.Y)
	return e.one(st, in, e.arith(fr, st, in, in.Op, x, y, in.Type()))
}

func (e *engine) opaque(fr *frame, st *state, v ssa.Value) *cond {
	key := fr.name(v, "")
	st.killKey(key)
	return &cond{op: cOpaque, key: key}
}

func (e *engine) arith(fr *frame, st *state, in ssa.Value, op token.Token, x, y lin, t types.Type) aval {
	fresh := func() lin { return e.freshInt(st, fr.name(in, ""), t) }
	switch op {
	case token.ADD:
		return e.fit(fr, st, in, x.add(y), t)
	case token.SUB:
		return e.fit(fr, st, in, x.sub(y), t)
	case token.MUL:
		if y.isConst() {
			return e.fit(fr, st, in, x.scale(y.c), t)
		}
		if x.isConst() {
			return e.fit(fr, st, in, y.scale(x.c), t)
		}
	case token.SHL:
		if y.isConst() && y.c >= 0 && y.c < 31 {
			return e.fit(fr, st, in, x.scale(1<<uint(y.c)), t)
		}
	case token.QUO, token.REM, token.SHR, token.AND:
		i, _ := in.(ssa.Instruction)
		var d int64
		switch op {
		case token.QUO, token.REM:
			ok := st.isNeq(y)
			if i != nil {
				e.oblige(fr, i, "division", ok, func() string { return "the divisor may be zero" })
			}
			if !y.isConst() || y.c <= 0 {
				if st.ge0(x) && st.ge0(y.addc(-1)) && op == token.REM {
					r := fresh()
					st.cons = append(st.cons, r, y.addc(-1).sub(r))
					return r
				}
				return fresh()
			}
			d = y.c
		case token.SHR:
			if !y.isConst() || y.c < 0 || y.c > 31 {
				return fresh()
			}
			d = 1 << uint(y.c)
		case token.AND:
			if x.isConst() && !y.isConst() {
				x, y = y, x
			}
			if !y.isConst() || y.c < 0 {
				return fresh()
			}
			if y.c&(y.c+1) != 0 {
				r := fresh()
				st.cons = append(st.cons, lv(r.s[0]), lc(y.c).sub(r))
				return r
			}
			d = y.c + 1
		}
		if x.isConst() {
			switch op {
			case token.QUO:
				return lc(x.c / d)
			case token.REM:
				return lc(x.c % d)
			case token.SHR:
				return lc(x.c >> uint(y.c))
			case token.AND:
				return lc(x.c & (d - 1))
			}
		}
		if (op == token.QUO || op == token.REM) && !st.ge0(x) {
			return fresh()
		}
		// Split x into a part divisible by d and a small rest.
		div, rest := lc(0), lc(0)
		c := x.c % d
		if c < 0 {
			c += d
		}
		rest = lc(c)
		div = lc((x.c - c) / d)
		for k, s := range x.s {
			if x.k[k]%d == 0 {
				div = div.add(lv(s).scale(x.k[k] / d))
			} else {
				rest = rest.add(lv(s).scale(x.k[k]))
			}
		}
		if st.ge0(rest) && st.ge0(lc(d-1).sub(rest)) {
			if op == token.QUO || op == token.SHR {
				return div
			}
			return rest
		}
		// Name the quotient.
		q := symFor(fr.name(in, "/"))
		st.killSym(q)
		qv := lv(q)
		st.cons = append(st.cons, x.sub(qv.scale(d)), qv.scale(d).addc(d-1).sub(x))
		if op == token.QUO || op == token.SHR {
			return qv
		}
		return x.sub(qv.scale(d))
	case token.OR, token.XOR, token.AND_NOT:
		if x.isConst() && y.isConst() {
			switch op {
			case token.OR:
				return lc(x.c | y.c)
			case token.XOR:
				return lc(x.c ^ y.c)
			case token.AND_NOT:
				return lc(x.c &^ y.c)
			}
		}
		if op == token.AND_NOT && st.ge0(x) {
			r := fresh()
			st.cons = append(st.cons, r, x.sub(r))
			return r
		}
	}
	return fresh()
}

func (e *engine) equal(fr *frame, st *state, in *ssa.BinOp) *cond {
	x, y := e.val(fr, st, in.X), e.val(fr, st, in.Y)
	switch a := x.(type) {
	case lin:
		if b, ok := y.(lin); ok {
			d := a.sub(b)
			if d.isConst() {
				return boolConst(d.c == 0)
			}
			return &cond{op: cEQ, l: d}
		}
	case *cond:
		if b, ok := y.(*cond); ok {
			if b.op == cConst {
				if b.b {
					return a
				}
				return a.not()
			}
			if a.op == cConst {
				if a.b {
					return b
				}
				return b.not()
			}
		}
	case *slv:
		if b, ok := y.(*slv); ok {
			if _, isStr := in.X.Type().Underlying().(*types.Basic); isStr {
				if a.base == b.base && a.off.eq(b.off) && a.n.eq(b.n) {
					return boolConst(true)
				}
				if a.n.isConst() && b.n.isConst() && a.n.c != b.n.c {
					return boolConst(false)
				}
				if a.n.isConst() && a.n.c == 0 {
					return &cond{op: cEQ, l: b.n}
				}
				if b.n.isConst() && b.n.c == 0 {
					return &cond{op: cEQ, l: a.n}
				}
				return &cond{op: cStrEq, x: a, y: b}
			}
			// A slice compared with nil.
			if a.n.isConst() && a.n.c > 0 || b.n.isConst() && b.n.c > 0 {
				return boolConst(false)
			}
			if a.base == nilBase && b.base == nilBase {
				return boolConst(true)
			}
			s := a
			if a.base == nilBase {
				s = b
			}
			c := e.opaque(fr, st, in)
			n := s.n
			c.effect = func(e *engine, st *state, truth bool) bool {
				if truth {
					return e.assumeEq(st, n)
				}
				return true
			}
			return c
		}
	case ptrv, elemv, fnv:
		if _, ok := y.(nilv); ok {
			return boolConst(false)
		}
		if x == y {
			if _, isP := x.(ptrv); isP {
				return boolConst(true)
			}
		}
	case nilv:
		switch y.(type) {
		case nilv:
			return boolConst(true)
		case ptrv, elemv, fnv:
			return boolConst(false)
		}
	}
	c := e.opaque(fr, st, in)
	// A nil test of an unknown pointer.
	v, k := in.X, in.Y
	if _, ok := k.(*ssa.Const); !ok {
		v, k = in.Y, in.X
	}
	if kc, ok := k.(*ssa.Const); ok && kc.Value == nil && isVar(v) {
		name := "nonnil:" + fr.name(v, "")
		if t, ok := st.truth[name]; ok {
			return boolConst(!t)
		}
		c.effect = func(e *engine, st *state, truth bool) bool {
			st.truth[name] = !truth
			return true
		}
	}
	return c
}

// Slicing.

func (e *engine) slice(fr *frame, st *state, in *ssa.Slice) []*state {
	var s *slv
	capEnd := lin{}
	isStr := false
	switch t := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		x := e.val(fr, st, in.X)
		e.nonNil(fr, st, in, in.X, x)
		n := lc(t.Elem().Underlying().(*types.Array).Len())
		switch x := x.(type) {
		case ptrv:
			s = &slv{baseID("obj:" + x.obj + x.path), lc(0), n}
			st.heap[cellKey{"cap:" + string(s.base), ""}] = n
		case *slv:
			s = x
		default:
			s = &slv{e.newBase(fr, st, in, false), lc(0), n}
			st.heap[cellKey{"cap:" + string(s.base), ""}] = n
		}
		capEnd = st.capEnd(s.base)
	case *types.Basic:
		isStr = true
		s = e.slVal(fr, st, in.X)
		capEnd = s.end()
	default:
		s = e.slVal(fr, st, in.X)
		capEnd = st.capEnd(s.base)
	}
	lo, hi := lc(0), s.n
	if in.Low != nil {
		lo = e.intVal(fr, st, in.Low)
	}
	if in.High != nil {
		hi = e.intVal(fr, st, in.High)
	}
	if in.Max != nil {
		e.undecided("%s: three-index slice", e.w.instrPos(in))
	}
	ok := st.ge0(lo) && st.ge0(hi.sub(lo))
	if ok && in.High != nil {
		ok = st.ge0(s.n.sub(hi)) || !isStr && st.ge0(capEnd.sub(s.off).sub(hi))
	}
	e.oblige(fr, in, "slice", ok, func() string {
		d := ""
		if e.trace {
			d = "\n" + st.String()
		}
		return fmt.Sprintf("slice bounds [%s:%s] are not shown to be within length %s%s", lo, hi, s.n, d)
	})
	for _, g := range []lin{lo, hi.sub(lo)} {
		if !g.isConst() && !st.ge0(g) {
			st.add(g)
		}
	}
	if in.High != nil {
		g := s.n.sub(hi)
		if !isStr {
			g = capEnd.sub(s.off).sub(hi)
		}
		if !g.isConst() && !st.ge0(g) {
			st.add(g)
		}
	}
	return e.one(st, in, &slv{s.base, s.off.add(lo), hi.sub(lo)})
}

// Conversions.

func (e *engine) convert(fr *frame, st *state, in ssa.Value, xv ssa.Value, t types.Type) aval {
	x := e.val(fr, st, xv)
	to := t.Underlying()
	switch v := x.(type) {
	case lin:
		if b, ok := to.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return e.fit(fr, st, in, v, t)
			case b.Info()&types.IsFloat != 0:
				return &fltv{op: "int", i: v}
			case b.Info()&types.IsString != 0:
				n := symFor("len:str:" + fr.name(in, ""))
				base := e.newBase(fr, st, in, true)
				st.killSym(n)
				st.cons = append(st.cons, lv(n).addc(-1), lc(4).sub(lv(n)))
				return &slv{base, lc(0), lv(n)}
			}
		}
	case *slv:
		b, isStr := to.(*types.Basic)
		if isStr && b.Info()&types.IsString != 0 || !isStr {
			fromBytes := true
			for _, u := range []types.Type{to, xv.Type().Underlying()} {
				if sl, ok := u.(*types.Slice); ok {
					if eb, ok := sl.Elem().Underlying().(*types.Basic); !ok || eb.Kind() != types.Uint8 {
						fromBytes = false
					}
				}
			}
			if fromBytes {
				if immutableBase(v.base) && isStr {
					return v
				}
				base := e.newBase(fr, st, in, isStr)
				r := &slv{base, lc(0), v.n}
				if !isStr {
					st.newCapSafe(base, v.n)
				}
				if strings.HasPrefix(string(v.base), "const:") && v.n.isConst() && v.n.c <= 16 {
					e.sameBytes(st, r, v)
				}
				return r
			}
			// Runes.
			base := e.newBase(fr, st, in, isStr)
			n := symFor("len:" + string(base))
			st.killSym(n)
			st.cons = append(st.cons, lv(n))
			if !isStr {
				st.cons = append(st.cons, v.n.sub(lv(n)))
				st.newCapSafe(base, lv(n))
			}
			return &slv{base, lc(0), lv(n)}
		}
	case *fltv:
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return v
		}
	}
	return e.unknownOf(st, fr.name(in, ""), t)
}

// newCapSafe sets an unknown capacity of at least end for a base whose name is free.
func (st *state) newCapSafe(b baseID, end lin) {
	c := symFor("cap:" + string(b))
	st.killSym(c)
	delete(st.heap, cellKey{"cap:" + string(b), ""})
	st.cons = append(st.cons, lv(c).sub(end))
}

// Iteration.

func (e *engine) next(fr *frame, st *state, in *ssa.Next) []*state {
	it, ok := e.val(fr, st, in.Iter).(iterv)
	if !ok || !in.IsString || it.s == nil {
		tt := in.Type().(*types.Tuple)
		r := tuplev{e.opaque(fr, st, in)}
		for i := 1; i < tt.Len(); i++ {
			var x aval
			if b, ok := tt.At(i).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				x = e.unknownOf(st, fr.name(in, fmt.Sprintf("#%d", i)), tt.At(i).Type())
			}
			r = append(r, x)
		}
		return e.one(st, in, r)
	}
	k := cellKey{it.key, ""}
	pos, _ := st.heap[k].(lin)
	// Done.
	fin := st.clone()
	var out []*state
	if e.assumeEq(fin, it.s.end().sub(pos)) {
		fin.env[in] = tuplev{boolConst(false), lc(0), lc(0)}
		out = append(out, fin)
	}
	if st.add(it.s.end().sub(pos).addc(-1)) && e.settle(st) {
		t := in.Type().(*types.Tuple).At(2).Type()
		s := e.slAt(it.s, pos)
		rs, sz, ss := e.decodeRune(fr, st, in, s, t)
		for i, s2 := range ss {
			// Names may have changed; read the position again.
			p2 := s2.heap[k].(lin)
			s2.heap[k] = p2.add(sz[i])
			it2 := e.val(fr, s2, in.Iter).(iterv)
			s2.env[in] = tuplev{boolConst(true), p2.sub(it2.s.off), rs[i]}
			out = append(out, s2)
		}
	}
	return out
}

func (e *engine) slAt(s *slv, pos lin) *slv { return &slv{s.base, pos, s.end().sub(pos)} }

// Maps.

func (e *engine) mapLookup(fr *frame, st *state, in *ssa.Lookup) []*state {
	mt := in.X.Type().Underlying().(*types.Map)
	m := e.val(fr, st, in.X)
	key := e.val(fr, st, in.Index)
	if e.lookup != nil {
		if ss, ok := e.lookup(e, fr, st, in, m, key); ok {
			return ss
		}
	}
	v := e.unknownOf(st, fr.name(in, ""), mt.Elem())
	if in.CommaOk {
		return e.one(st, in, tuplev{v, e.opaque(fr, st, in)})
	}
	return e.one(st, in, v)
}

func constInt(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return constant.Int64Val(c.Value)
	}
	return 0, false
}
