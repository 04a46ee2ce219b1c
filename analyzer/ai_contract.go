package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions over a token sequence (a slice of structs) that return plain
// values are analysed once for arbitrary slices of that sequence, and their
// calls are replaced by what that shows. The result is the same as analysing
// the body at each call, less exact but once. A function that writes memory
// it did not create, or that is not shown free of panics in general, is
// analysed at its calls as usual.

type contract struct {
	ok     bool
	params map[sym]bool // the generalised arguments
	keep   map[sym]bool // symbols with the same meaning at the call
	rets   []retState
}

func plainType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (e *engine) contractable(fn *ssa.Function) bool {
	sig := fn.Signature
	if len(fn.FreeVars) > 0 || sig.Results().Len() == 0 || sig.Variadic() {
		return false
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !plainType(sig.Results().At(i).Type()) {
			return false
		}
	}
	seq := false
	for _, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok {
			if _, ok := s.Elem().Underlying().(*types.Struct); ok {
				seq = true
			}
		}
	}
	return seq
}

// byContract replaces a call by the contract of fn, if it has one.
func (e *engine) byContract(fr *frame, in *ssa.Call, fn *ssa.Function, args []aval, st *state) ([]*state, bool) {
	if !e.contractable(fn) {
		return nil, false
	}
	bail := func(why string) ([]*state, bool) {
		if e.trace {
			fmt.Printf("== contract of %s does not apply: %s (%s)\n", shortFn(fn), why, avTexts(args))
			if e.trace2 {
				fmt.Print(st)
			}
		}
		return nil, false
	}
	// The generalised arguments and what they stand for here.
	gst := newState()
	actual := map[sym]lin{}
	var gargs []aval
	bases := map[baseID]baseID{}
	gen := func(name string, l lin) lin {
		s := symFor("any:" + fn.Name() + ":" + name)
		actual[s] = l
		return lv(s)
	}
	// Sizes of what is shared have the same meaning everywhere.
	sharedSym := func(s sym) bool {
		n := symName(s)
		return n == "len(text)" || n == nDict || n == nLic || n == nDFA || strings.HasPrefix(n, "cap:ext:")
	}
	shared := func(l lin) bool {
		for _, s := range l.s {
			if !sharedSym(s) {
				return false
			}
		}
		return true
	}
	for _, c := range st.cons {
		if shared(c) && !(len(c.s) == 1 && c.k[0] == 1) {
			gst.cons = append(gst.cons, c)
		}
	}
	for _, n := range []string{"len(text)", nDict, nLic, nDFA} {
		gst.cons = append(gst.cons, lv(symFor(n))) // sizes
	}
	gst.cons = append(gst.cons, lv(symFor(nDFA)).addc(-1))
	sort.Slice(gst.cons, func(i, j int) bool { return gst.cons[i].String() < gst.cons[j].String() })
	for i, p := range fn.Params {
		if i >= len(args) {
			return bail("missing argument")
		}
		switch v := args[i].(type) {
		case lin:
			l := gen(p.Name(), v)
			if b, ok := p.Type().Underlying().(*types.Basic); ok {
				if lo, hi, ok := lowBits(b); ok {
					gst.cons = append(gst.cons, l.sub(lo), hi.sub(l))
				}
			}
			gargs = append(gargs, l)
		case *slv:
			if v.base == nilBase || shared(v.off) && shared(v.n) && strings.HasPrefix(string(v.base), "ext:") {
				gargs = append(gargs, v)
				break
			}
			b := v.base
			if !strings.HasPrefix(string(b), "ext:") {
				if bases[b] == "" {
					bases[b] = baseID(fmt.Sprintf("any:%s%d", fn.Name(), len(bases)))
				}
				b = bases[b]
			}
			off, n := gen(p.Name()+".off", v.off), gen(p.Name()+".len", v.n)
			end := off.add(n)
			// True of every slice.
			gst.cons = append(gst.cons, off, n, maxLen().sub(n), gst.capEnd(b).sub(end))
			if q := st.seqs[v.base]; q != nil && !q.top && !q.empty {
				if !st.ge0(q.n.sub(v.end())) {
					return bail("a slice beyond the sequence")
				}
				if gst.seqs[b] == nil {
					g := *q
					g.n = lv(symFor("any:len:" + string(b)))
					g.lastC = "?"
					g.last = map[string]lin{}
					for _, f := range q.fields {
						g.last[f] = lv(symFor("any:last:" + string(b) + f))
					}
					g.cls = map[string][]lin{}
					for c, cs := range q.cls {
						g.cls[c] = nil
						for _, x := range cs {
							if fieldsAnd(x, sharedSym) {
								g.cls[c] = append(g.cls[c], x)
							}
						}
					}
					g.adj = map[[2]string][]lin{}
					for c, cs := range q.adj {
						g.adj[c] = nil
						for _, x := range cs {
							if fieldsAnd(x, sharedSym) {
								g.adj[c] = append(g.adj[c], x)
							}
						}
					}
					gst.seqs[b] = &g
					gst.cons = append(gst.cons, g.n, maxLen().sub(g.n))
				}
				gst.cons = append(gst.cons, gst.seqs[b].n.sub(end))
			}
			gargs = append(gargs, &slv{b, off, n})
		case ptrv:
			if !strings.HasPrefix(v.obj, "ext:") {
				return bail("a pointer to local memory")
			}
			gargs = append(gargs, v)
		case nilv, mapv:
			gargs = append(gargs, v)
		case *cond:
			if v.op == cConst {
				gargs = append(gargs, v)
			} else {
				gargs = append(gargs, &cond{op: cOpaque, key: "any:" + fn.Name() + ":" + p.Name()})
			}
		default:
			return bail("an unknown argument")
		}
	}
	// What the caller stored in shared objects.
	for k, v := range st.heap {
		if strings.HasPrefix(k.obj, "ext:") {
			if x, ok := v.(*slv); ok && !strings.HasPrefix(string(x.base), "ext:") && x.base != nilBase {
				return bail("local memory in a shared object")
			}
		}
	}
	key := fn.String() + "\n" + avTexts(gargs) + "\n" + gst.String()
	c := e.contracts[key]
	if c == nil {
		if e.trace {
			fmt.Printf("== contract wanted for %s\n%s", shortFn(fn), key)
		}
		c = e.makeContract(fn, gargs, gst)
		c.params = map[sym]bool{}
		for s := range actual {
			c.params[s] = true
		}
		e.contracts[key] = c
	}
	if !c.ok {
		return nil, false
	}
	var out []*state
	for i, r := range c.rets {
		s := st.clone()
		ms := map[sym]lin{}
		k := 0
		put := func(l lin) lin {
			for _, x := range l.s {
				if _, done := ms[x]; done || c.keep[x] {
					continue
				}
				if a, ok := actual[x]; ok {
					ms[x] = a
					continue
				}
				if x < 0 {
					continue
				}
				n := symFor(fmt.Sprintf("%s#%d.%d", fr.name(in, ""), i, k))
				k++
				s.killSym(n)
				ms[x] = lv(n)
			}
			return l.substAll(ms)
		}
		var vals []aval
		for _, v := range r.vals {
			switch v := v.(type) {
			case lin:
				vals = append(vals, put(v))
			case *cond:
				if v.op == cConst {
					vals = append(vals, v)
				} else {
					vals = append(vals, e.opaque(fr, s, in))
				}
			default:
				vals = append(vals, nil)
			}
		}
		ok := true
		for _, g := range r.st.cons {
			if !s.add(put(g)) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for x, f := range r.st.flags {
			if l, ok := ms[x]; ok && len(l.s) == 1 && l.c == 0 && l.k[0] == 1 {
				s.flags[l.s[0]] |= f
			}
		}
		if len(vals) == 1 {
			s.env[in] = vals[0]
		} else {
			s.env[in] = tuplev(vals)
		}
		out = append(out, s)
	}
	return e.reduce(fr, fr.name(in, "ret"), out), true
}

// fieldsAnd reports whether l is over element fields and symbols satisfying f.
func fieldsAnd(l lin, f func(sym) bool) bool {
	for _, s := range l.s {
		if s >= 0 && !f(s) {
			return false
		}
	}
	return true
}

func (e *engine) makeContract(fn *ssa.Function, gargs []aval, gst *state) *contract {
	c := &contract{keep: map[sym]bool{}}
	for s := range gst.used().syms {
		c.keep[s] = true
	}
	for _, g := range gst.cons {
		for _, s := range g.s {
			c.keep[s] = true
		}
	}
	for s := range c.keep {
		n := symName(s)
		if strings.HasPrefix(n, "any:") || strings.HasPrefix(n, "cap:any:") {
			delete(c.keep, s)
		}
	}
	sub := *e
	sub.obs, sub.loops, sub.why = map[obKey]*obResult{}, map[*ssa.BasicBlock]*obResult{}, nil
	sub.solved, sub.suppress, sub.calls = nil, 0, map[string]int{}
	sub.writes = 0
	sub.guard = map[baseID]bool{}
	for b := range gst.used().bases {
		sub.guard[b] = true
	}
	for b := range gst.seqs {
		sub.guard[b] = true
	}
	start := gst.clone()
	keep := map[ssa.Value]aval{}
	for i, p := range fn.Params {
		keep[p] = gargs[i]
	}
	start.stack = []map[ssa.Value]aval{keep} // the arguments stay visible
	rets := sub.runFn(fn, fn.Name()+"*", 1, gargs, nil, start)
	e.steps = sub.steps
	no := func(f string, args ...interface{}) {
		if e.trace {
			fmt.Printf("== no contract for %s: %s\n", shortFn(fn), fmt.Sprintf(f, args...))
		}
	}
	if sub.writes > 0 || len(sub.why) > 0 {
		no("%d writes, %v", sub.writes, sub.why)
		return c
	}
	for _, o := range sub.obs {
		if !o.ok {
			no("%s", o.detail)
			return c
		}
	}
	for _, o := range sub.loops {
		if !o.ok {
			no("%s", o.detail)
			return c
		}
	}
	c.ok = true
	for k, o := range sub.obs {
		if e.obs[k] == nil {
			e.obs[k] = o
		}
	}
	for k, o := range sub.loops {
		if e.loops[k] == nil {
			e.loops[k] = o
		}
	}
	for n, k := range sub.calls {
		e.calls[n] += k
	}
	for _, r := range rets {
		r.st.env = map[ssa.Value]aval{}
		r.st.gc(append(append([]aval{}, gargs...), r.vals...)...)
		// Only facts about the results matter.
		res := map[sym]bool{}
		for _, v := range r.vals {
			if l, ok := v.(lin); ok {
				for _, s := range l.s {
					res[s] = true
				}
			}
		}
		var cons []lin
		for _, g := range r.st.withAllSets() {
			use := false
			for _, s := range g.s {
				if res[s] {
					use = true
				}
			}
			if use {
				cons = append(cons, g)
			}
		}
		r.st.cons = cons
		c.rets = append(c.rets, r)
	}
	return c
}

// withAllSets is the constraints and the ranges of the value sets.
func (st *state) withAllSets() []lin {
	out := st.cons[:len(st.cons):len(st.cons)]
	for s, b := range st.sets {
		if !b.other {
			lo, hi := b.bounds()
			out = append(out, lv(s).addc(-lo), lv(s).neg().addc(hi))
		}
	}
	return out
}
