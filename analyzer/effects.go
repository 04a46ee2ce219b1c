package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects analysis: a context-sensitive (call-string cloning, recursion
// collapsed), field-sensitive inclusion-based points-to analysis starting at
// one entry point, recording every write, call out of the repository, and
// source of nondeterminism that the entry point can reach.

type objKind int

const (
	objFresh  objKind = iota // allocated during the call
	objShared                // reachable from the receiver or a package variable before the call
	objInput                 // reachable from a caller-supplied argument
	objFunc                  // a function or closure value
	objOnce                  // allocated inside a sync.Once initialiser
)

type object struct {
	kind objKind
	name string
	fn   *ssa.Function // objFunc
	ctx  *effCtx       // allocation context (objFunc closures)
	id   int
	pos  token.Pos
	init string // constant initial contents (never-written []byte package variables)
	has  bool   // init is known
}

func (o *object) String() string { return o.name }

// target is a location: path within an object.
type target struct {
	o    *object
	path string
}

type effCtx struct {
	fn     *ssa.Function
	parent *effCtx
	site   ssa.CallInstruction
	consts map[ssa.Value]constant.Value
	flow   *sccpResult
	inOnce bool
	n      int

	recursive bool
}

func (c *effCtx) chain() string {
	var s []string
	for x := c; x != nil; x = x.parent {
		s = append(s, shortFn(x.fn))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " -> ")
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, matchPath+".", "match.")
	s = strings.ReplaceAll(s, oldPath+".", "old.")
	s = strings.ReplaceAll(s, rootPath+".", "licensecheck.")
	return s
}

type vnode struct {
	c *effCtx
	v ssa.Value
	p string
}

type tset map[target]bool

type effEvent struct {
	kind   string // write, call, nondet, block, unsafe, panic
	ctx    *effCtx
	in     ssa.Instruction
	target target
	what   string
}

type effects struct {
	w          *World
	constGlob  bool // use constants of never-written globals to prune
	recvGlobal *ssa.Global
	globObj    map[*ssa.Global]*object

	pts   map[vnode]tset
	heap  map[target]tset // content of locations (pointerful leaves)
	ctxs  map[string]*effCtx
	list  []*effCtx
	objs  map[string]*object
	nobj  int
	root  *effCtx
	dirty bool

	shared, input *object
	events        map[string]effEvent
	final         bool // recording pass
	calls         int
	instrs        int
	stdCalls      map[string]int
}

// analyzeEffects runs the analysis from entry. Receivers are shared state;
// other parameters are caller data.
func (w *World) analyzeEffects(entry *ssa.Function, constGlob bool) *effects {
	e := &effects{
		w: w, constGlob: constGlob,
		pts: map[vnode]tset{}, heap: map[target]tset{}, ctxs: map[string]*effCtx{}, objs: map[string]*object{},
		globObj: map[*ssa.Global]*object{}, events: map[string]effEvent{}, stdCalls: map[string]int{},
	}
	e.shared = &object{kind: objShared, name: "scanner/package state"}
	e.input = &object{kind: objInput, name: "caller's data"}
	e.root = e.context(nil, nil, entry, nil, false)
	for i, p := range entry.Params {
		o := e.input
		if i == 0 && entry.Signature.Recv() != nil {
			o = e.shared
		}
		for _, leaf := range leaves(p.Type()) {
			e.addPts(e.root, p, leaf, target{o, ""})
		}
	}
	for iter := 0; ; iter++ {
		e.dirty = false
		for i := 0; i < len(e.list); i++ {
			e.visit(e.list[i])
		}
		if !e.dirty {
			break
		}
		if iter > 200 {
			panic("effects analysis does not converge")
		}
	}
	e.final = true
	for i := 0; i < len(e.list); i++ {
		e.visit(e.list[i])
	}
	return e
}

// leaves lists the access paths of t that hold pointers.
func leaves(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []string{""}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return []string{""}
		}
		return nil
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, fmt.Sprintf(".%d%s", i, l))
			}
		}
		return out
	case *types.Array:
		var out []string
		for _, l := range leaves(u.Elem()) {
			out = append(out, "[]"+l)
		}
		return out
	case *types.Tuple:
		var out []string
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, fmt.Sprintf("#%d%s", i, l))
			}
		}
		return out
	}
	return nil
}

func (e *effects) context(parent *effCtx, site ssa.CallInstruction, fn *ssa.Function, consts map[ssa.Value]constant.Value, inOnce bool) *effCtx {
	// Collapse recursion: reuse an ancestor context for the same function.
	for x := parent; x != nil; x = x.parent {
		if x.fn == fn {
			if !x.recursive {
				x.recursive = true
				x.flow = nil
				e.dirty = true
			}
			if len(x.consts) > 0 {
				for p, v := range x.consts {
					if c, ok := consts[p]; !ok || !constEqual(c, v) {
						delete(x.consts, p)
						x.flow = nil
						e.dirty = true
					}
				}
			}
			return x
		}
	}
	key := fmt.Sprintf("%p|%p|%p|%v", parent, site, fn, inOnce)
	c := e.ctxs[key]
	if c == nil {
		c = &effCtx{fn: fn, parent: parent, site: site, consts: consts, inOnce: inOnce, n: len(e.list)}
		e.ctxs[key] = c
		e.list = append(e.list, c)
		e.dirty = true
		return c
	}
	for p, v := range c.consts {
		if x, ok := consts[p]; !ok || !constEqual(x, v) {
			delete(c.consts, p)
			c.flow = nil
			e.dirty = true
		}
	}
	return c
}

func (e *effects) object(kind objKind, c *effCtx, at interface{}, name string, pos token.Pos) *object {
	key := fmt.Sprintf("%d|%p|%p|%s", kind, c, at, name)
	o := e.objs[key]
	if o == nil {
		if c != nil && c.inOnce && kind == objFresh {
			kind = objOnce
		}
		e.nobj++
		o = &object{kind: kind, name: name, id: e.nobj, pos: pos}
		e.objs[key] = o
	}
	return o
}

func (e *effects) addSet(m tset, t target) bool {
	if m[t] {
		return false
	}
	m[t] = true
	e.dirty = true
	return true
}

func (e *effects) addPts(c *effCtx, v ssa.Value, p string, t target) {
	k := vnode{c, v, p}
	m := e.pts[k]
	if m == nil {
		m = tset{}
		e.pts[k] = m
	}
	e.addSet(m, t)
}

// global returns the object for a package variable's own cell.
func (e *effects) global(g *ssa.Global) *object {
	o := e.globObj[g]
	if o == nil {
		o = &object{kind: objShared, name: "package variable " + g.String(), pos: g.Pos()}
		e.globObj[g] = o
		// Its contents before the call: shared state. A never-written []byte
		// with constant contents gets its own object so that guards comparing
		// its contents can be used.
		var content *object = e.shared
		if sl, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && !e.w.writtenGlobals()[g] {
				if s, ok := e.w.bytesInit(g); ok {
					content = &object{kind: objShared, name: "contents of package variable " + g.String(), pos: g.Pos(), init: s, has: true}
				}
			}
		}
		for _, l := range leaves(g.Type().(*types.Pointer).Elem()) {
			e.heapAdd(target{o, l}, target{content, ""})
		}
	}
	return o
}

// bytesInit returns the constant contents of a package variable initialised
// by converting a string constant to []byte.
func (w *World) bytesInit(g *ssa.Global) (string, bool) {
	init := g.Pkg.Func("init")
	if init == nil {
		return "", false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				if cv, ok := st.Val.(*ssa.Convert); ok {
					if c := constOf(cv.X); c != nil && c.Kind() == constant.String {
						return constant.StringVal(c), true
					}
				}
			}
		}
	}
	return "", false
}

func (e *effects) heapAdd(loc, t target) {
	m := e.heap[loc]
	if m == nil {
		m = tset{}
		e.heap[loc] = m
	}
	e.addSet(m, t)
}

func selfClosed(o *object) bool {
	return o.kind == objInput || o.kind == objShared && !strings.HasPrefix(o.name, "package variable ")
}

// targets returns the points-to set of v at path p.
func (e *effects) targets(c *effCtx, v ssa.Value, p string) tset {
	switch v := v.(type) {
	case *ssa.Global:
		return tset{target{e.global(v), ""}: true}
	case *ssa.Function:
		o := e.object(objFunc, nil, v, v.String(), v.Pos())
		o.fn = v
		return tset{target{o, ""}: true}
	case *ssa.Const, *ssa.Builtin:
		return nil
	}
	return e.pts[vnode{c, v, p}]
}

func (e *effects) load(c *effCtx, dst ssa.Value, dp string, loc target) {
	if selfClosed(loc.o) {
		o := loc.o
		if loc.o.has {
			o = e.shared
		}
		e.addPts(c, dst, dp, target{o, ""})
		return
	}
	for t := range e.heap[loc] {
		e.addPts(c, dst, dp, t)
	}
}

func (e *effects) store(c *effCtx, in ssa.Instruction, loc target, leavesOf types.Type, src ssa.Value, sub string) {
	e.writeEvent(c, in, loc, "store")
	for _, l := range leaves(leavesOf) {
		for t := range e.targets(c, src, sub+l) {
			e.escape(c, in, loc, t)
			if !selfClosed(loc.o) {
				e.heapAdd(target{loc.o, loc.path + l}, t)
			}
		}
	}
}

// escape records that a pointer to t is stored into loc.
func (e *effects) escape(c *effCtx, in ssa.Instruction, loc, t target) {
	if !e.final {
		return
	}
	if (loc.o.kind == objShared || loc.o.kind == objInput) && t.o.kind == objInput {
		e.record(effEvent{"retain", c, in, loc, "stores a reference to " + t.o.name + " into " + loc.o.name})
	}
}

func (e *effects) writeEvent(c *effCtx, in ssa.Instruction, loc target, how string) {
	if !e.final {
		return
	}
	if loc.o.kind == objShared || loc.o.kind == objInput || loc.o.kind == objOnce {
		e.record(effEvent{"write", c, in, loc, how + " to " + loc.o.name})
	}
}

func (e *effects) record(ev effEvent) {
	key := fmt.Sprintf("%s|%d|%p|%s|%s", ev.kind, ev.ctx.n, ev.in, ev.target.o, ev.what)
	e.events[key] = ev
}

func (e *effects) note(kind string, c *effCtx, in ssa.Instruction, what string) {
	if e.final {
		e.record(effEvent{kind, c, in, target{e.shared, ""}, what})
	}
}

// sortedEvents returns the recorded events of the given kinds in source order.
func (e *effects) sortedEvents(kinds ...string) []effEvent {
	want := map[string]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	var out []effEvent
	for _, ev := range e.events {
		if want[ev.kind] {
			out = append(out, ev)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.in.Pos() != b.in.Pos() {
			return a.in.Pos() < b.in.Pos()
		}
		if a.ctx.n != b.ctx.n {
			return a.ctx.n < b.ctx.n
		}
		return a.what < b.what
	})
	return out
}

func (e *effects) flowOf(c *effCtx) *sccpResult {
	if c.flow == nil {
		env := &constEnv{w: e.w, params: c.consts, globals: e.constGlob}
		env.eq = func(x, y ssa.Value) (bool, bool) {
			gx, gy := e.originGlobal(c, x), e.originGlobal(c, y)
			if gx != nil && gx == gy {
				return true, true
			}
			return false, false
		}
		c.flow = sccp(c.fn, env)
	}
	return c.flow
}

// originGlobal returns the never-written package variable whose (pointer)
// value v is, following parameters to the call site of the context.
func (e *effects) originGlobal(c *effCtx, v ssa.Value) *ssa.Global {
	for c != nil {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if g, ok := x.X.(*ssa.Global); ok && !e.w.writtenGlobals()[g] {
					if _, ptr := x.Type().Underlying().(*types.Pointer); ptr {
						return g
					}
				}
			}
			return nil
		case *ssa.Parameter:
			if c.site == nil || c.recursive {
				return nil
			}
			args := c.site.Common().Args
			idx := -1
			for i, p := range c.fn.Params {
				if p == x {
					idx = i
				}
			}
			if idx < 0 || idx >= len(args) || c.site.Common().IsInvoke() {
				return nil
			}
			v, c = args[idx], c.parent
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func (e *effects) copyVal(c *effCtx, dst ssa.Value, dp string, src ssa.Value, sp string, t types.Type) {
	for _, l := range leaves(t) {
		for x := range e.targets(c, src, sp+l) {
			e.addPts(c, dst, dp+l, x)
		}
	}
}

func (e *effects) fresh(c *effCtx, in ssa.Value, tag string) *object {
	name := fmt.Sprintf("%s allocated at %s", tag, e.w.Pos(in.Pos()))
	return e.object(objFresh, c, in, name, in.Pos())
}

func (e *effects) visit(c *effCtx) {
	flow := e.flowOf(c)
	for _, b := range c.fn.Blocks {
		if !flow.live[b] {
			continue
		}
		for _, in := range b.Instrs {
			if e.final {
				e.instrs++
			}
			e.instr(c, flow, in)
		}
	}
}

func (e *effects) instr(c *effCtx, flow *sccpResult, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		e.addPts(c, in, "", target{e.fresh(c, in, "variable"), ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		if _, ok := in.(*ssa.MakeChan); ok {
			e.note("nondet", c, in, "creates a channel")
		}
		e.addPts(c, v, "", target{e.fresh(c, v, "value"), ""})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := e.object(objFunc, c, in, fn.String(), in.Pos())
		o.fn, o.ctx = fn, c
		e.addPts(c, in, "", target{o, ""})
		for i, b := range in.Bindings {
			for _, l := range leaves(b.Type()) {
				for t := range e.targets(c, b, l) {
					e.heapAdd(target{o, fmt.Sprintf("b%d%s", i, l)}, t)
				}
			}
		}
	case *ssa.MakeInterface:
		for _, l := range leaves(in.X.Type()) {
			for t := range e.targets(c, in.X, l) {
				e.addPts(c, in, "", t)
			}
		}
	case *ssa.ChangeInterface:
		e.copyVal(c, in, "", in.X, "", in.Type())
	case *ssa.ChangeType:
		e.copyVal(c, in, "", in.X, "", in.Type())
	case *ssa.SliceToArrayPointer:
		e.copyVal(c, in, "", in.X, "", in.Type())
	case *ssa.Convert:
		_, ptr := in.Type().Underlying().(*types.Pointer)
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer || ptr {
			e.note("unsafe", c, in, "unsafe pointer conversion")
			e.copyVal(c, in, "", in.X, "", in.Type())
		} else if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			e.note("unsafe", c, in, "unsafe pointer conversion")
		} else if _, ok := in.Type().Underlying().(*types.Slice); ok {
			e.addPts(c, in, "", target{e.fresh(c, in, "conversion"), ""})
		}
	case *ssa.TypeAssert:
		pre := ""
		if in.CommaOk {
			pre = "#0"
		}
		for _, l := range leaves(in.AssertedType) {
			for t := range e.targets(c, in.X, "") {
				e.addPts(c, in, pre+l, t)
			}
		}
	case *ssa.Phi:
		for i, x := range in.Edges {
			if flow.edges[[2]*ssa.BasicBlock{in.Block().Preds[i], in.Block()}] {
				e.copyVal(c, in, "", x, "", in.Type())
			}
		}
	case *ssa.Extract:
		for _, l := range leaves(in.Type()) {
			for t := range e.targets(c, in.Tuple, fmt.Sprintf("#%d%s", in.Index, l)) {
				e.addPts(c, in, l, t)
			}
		}
	case *ssa.Field:
		e.copyVal(c, in, "", in.X, fmt.Sprintf(".%d", in.Field), in.Type())
	case *ssa.Index:
		e.copyVal(c, in, "", in.X, "[]", in.Type())
	case *ssa.FieldAddr:
		for t := range e.targets(c, in.X, "") {
			e.addPts(c, in, "", e.sub(t, fmt.Sprintf(".%d", in.Field)))
		}
	case *ssa.IndexAddr:
		for t := range e.targets(c, in.X, "") {
			e.addPts(c, in, "", e.sub(t, "[]"))
		}
	case *ssa.Slice:
		for t := range e.targets(c, in.X, "") {
			e.addPts(c, in, "", t)
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			for t := range e.targets(c, in.X, "") {
				for _, l := range leaves(in.Type()) {
					e.load(c, in, l, target{t.o, t.path + l})
				}
			}
		case token.ARROW:
			e.note("nondet", c, in, "receives from a channel")
		}
	case *ssa.Store:
		for t := range e.targets(c, in.Addr, "") {
			e.store(c, in, t, in.Val.Type(), in.Val, "")
		}
	case *ssa.MapUpdate:
		for t := range e.targets(c, in.Map, "") {
			e.store(c, in, e.sub(t, "{v}"), in.Value.Type(), in.Value, "")
			e.store(c, in, e.sub(t, "{k}"), in.Key.Type(), in.Key, "")
		}
	case *ssa.Lookup:
		m, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		pre := ""
		if in.CommaOk {
			pre = "#0"
		}
		for t := range e.targets(c, in.X, "") {
			for _, l := range leaves(m.Elem()) {
				s := e.sub(t, "{v}")
				e.load(c, in, pre+l, target{s.o, s.path + l})
			}
		}
	case *ssa.Range:
		e.copyVal(c, in, "", in.X, "", in.X.Type())
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			if why := mapRangeOrderDependent(in); why != "" {
				e.note("nondet", c, in, "iterates over a map in unspecified order: "+why)
			} else {
				e.note("maprange", c, in, "order-insensitive map iteration")
			}
		}
	case *ssa.Next:
		if in.IsString {
			return
		}
		r, ok := in.Iter.(*ssa.Range)
		if !ok {
			return
		}
		m := r.X.Type().Underlying().(*types.Map)
		for t := range e.targets(c, r.X, "") {
			for _, l := range leaves(m.Key()) {
				s := e.sub(t, "{k}")
				e.load(c, in, "#1"+l, target{s.o, s.path + l})
			}
			for _, l := range leaves(m.Elem()) {
				s := e.sub(t, "{v}")
				e.load(c, in, "#2"+l, target{s.o, s.path + l})
			}
		}
	case *ssa.Call:
		e.call(c, in, in)
	case *ssa.Defer:
		e.call(c, in, nil)
	case *ssa.Go:
		e.note("nondet", c, in, "starts a goroutine")
		e.call(c, in, nil)
	case *ssa.Select:
		e.note("nondet", c, in, "select statement")
	case *ssa.Send:
		e.note("nondet", c, in, "sends on a channel")
	case *ssa.MultiConvert:
		e.note("unsafe", c, in, "unsupported generic conversion")
	}
}

func (e *effects) sub(t target, p string) target {
	if selfClosed(t.o) {
		return target{t.o, ""}
	}
	if len(t.path) > 200 {
		return t
	}
	return target{t.o, t.path + p}
}

func (e *effects) call(c *effCtx, in ssa.CallInstruction, res ssa.Value) {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		e.builtin(c, in, b, res)
		return
	}
	if cc.IsInvoke() {
		e.invoke(c, in, res)
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			e.callFn(c, in, fn, nil, cc.Args, res)
			return
		}
	}
	ts := e.targets(c, cc.Value, "")
	n := 0
	for t := range ts {
		if t.o.fn != nil {
			n++
			e.callFn(c, in, t.o.fn, t.o, cc.Args, res)
		} else if t.o.kind == objShared || t.o.kind == objInput {
			e.note("call", c, in, "calls a function value that is not known statically")
		}
	}
	if n == 0 && len(ts) == 0 {
		e.note("deadcall", c, in, "calls a nil function value")
	}
}

// callFn calls fn, whose free variables come from closure object clo.
func (e *effects) callFn(c *effCtx, in ssa.CallInstruction, fn *ssa.Function, clo *object, args []ssa.Value, res ssa.Value) {
	if len(fn.Blocks) == 0 {
		e.stdCall(c, in, fn, args, res)
		return
	}
	e.enter(c, in, fn, clo, args, res, c.inOnce)
}

func (e *effects) enter(c *effCtx, in ssa.CallInstruction, fn *ssa.Function, clo *object, args []ssa.Value, res ssa.Value, inOnce bool) *effCtx {
	consts := map[ssa.Value]constant.Value{}
	flow := e.flowOf(c)
	for i, p := range fn.Params {
		if i < len(args) {
			if k := constOf(args[i]); k != nil {
				consts[p] = k
			} else if lv := flow.vals[args[i]]; lv.kind == 1 {
				consts[p] = lv.v
			} else if k := c.consts[args[i]]; k != nil {
				consts[p] = k
			}
		}
	}
	cc := e.context(c, in, fn, consts, inOnce)
	if e.final {
		e.calls++
	}
	for i, p := range fn.Params {
		if i >= len(args) {
			continue
		}
		for _, l := range leaves(p.Type()) {
			for t := range e.targets(c, args[i], l) {
				e.addPts(cc, p, l, t)
			}
		}
	}
	if clo != nil {
		for i, fv := range fn.FreeVars {
			for _, l := range leaves(fv.Type()) {
				for t := range e.heap[target{clo, fmt.Sprintf("b%d%s", i, l)}] {
					e.addPts(cc, fv, l, t)
				}
			}
		}
	}
	if res != nil {
		for _, ret := range e.returns(cc) {
			for i, r := range ret.Results {
				pre := ""
				if len(ret.Results) > 1 {
					pre = fmt.Sprintf("#%d", i)
				}
				for _, l := range leaves(r.Type()) {
					for t := range e.targets(cc, r, l) {
						e.addPts(c, res, pre+l, t)
					}
				}
			}
		}
	}
	return cc
}

func (e *effects) returns(c *effCtx) []*ssa.Return {
	var out []*ssa.Return
	flow := e.flowOf(c)
	for _, b := range c.fn.Blocks {
		if flow.live[b] && len(b.Instrs) > 0 {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, r)
			}
		}
	}
	return out
}

func (e *effects) builtin(c *effCtx, in ssa.CallInstruction, b *ssa.Builtin, res ssa.Value) {
	args := in.Common().Args
	switch b.Name() {
	case "append":
		sl, ok := res.Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		o := e.fresh(c, res, "slice")
		e.addPts(c, res, "", target{o, ""})
		for t := range e.targets(c, args[0], "") {
			if t.o.has && e.guardExcludes(c, in, args[0], t.o) {
				continue
			}
			e.addPts(c, res, "", t)
			if provablyEmptyAppend(args) {
				continue
			}
			if !fullCap(args[0]) {
				e.writeEvent(c, in, e.sub(t, "[]"), "append (into spare capacity)")
			}
			for _, l := range leaves(sl.Elem()) {
				e.copyHeap(target{o, "[]" + l}, e.sub(t, "[]"), l)
			}
		}
		if len(args) > 1 {
			if _, ok := args[1].Type().Underlying().(*types.Slice); ok {
				for t := range e.targets(c, args[1], "") {
					for _, l := range leaves(sl.Elem()) {
						for r := range e.targets(c, res, "") {
							if !selfClosed(r.o) {
								e.copyHeap(target{r.o, r.path + "[]" + l}, e.sub(t, "[]"), l)
							} else if t.o.kind == objInput {
								e.escape(c, in, r, t)
							}
						}
					}
				}
			}
		}
	case "copy":
		for t := range e.targets(c, args[0], "") {
			e.writeEvent(c, in, e.sub(t, "[]"), "copy")
			sl, ok := args[0].Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			for s := range e.targets(c, args[1], "") {
				for _, l := range leaves(sl.Elem()) {
					if !selfClosed(t.o) {
						e.copyHeap(target{t.o, t.path + "[]" + l}, e.sub(s, "[]"), l)
					}
				}
			}
		}
	case "delete", "clear":
		for t := range e.targets(c, args[0], "") {
			e.writeEvent(c, in, t, b.Name())
		}
	case "print", "println":
		e.note("call", c, in, "builtin "+b.Name()+" writes to standard error")
	case "panic":
	case "recover":
		e.note("recover", c, in, "recovers from panics")
	case "close":
		e.note("nondet", c, in, "closes a channel")
	case "ssa:wrapnilchk":
		e.copyVal(c, res, "", args[0], "", res.Type())
	case "len", "cap", "min", "max", "real", "imag", "complex":
	default:
		e.note("unsafe", c, in, "builtin "+b.Name())
	}
}

func (e *effects) copyHeap(dst target, src target, leaf string) {
	if selfClosed(src.o) {
		e.heapAdd(dst, target{e.closed(src.o), ""})
		return
	}
	for t := range e.heap[target{src.o, src.path + leaf}] {
		e.heapAdd(dst, t)
	}
}

func (e *effects) closed(o *object) *object {
	if o.has {
		return e.shared
	}
	return o
}

// provablyEmptyAppend reports whether append adds nothing.
func provablyEmptyAppend(args []ssa.Value) bool {
	if len(args) < 2 {
		return true
	}
	if c, ok := args[1].(*ssa.Const); ok && c.IsNil() {
		return true
	}
	return false
}

// fullCap reports whether v is a full slice expression x[a:b:b], or a fresh
// empty literal, so that append must copy.
func fullCap(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil || s.High == nil {
		return false
	}
	return s.Max == s.High || sameLen(s.Max, s.High) || constEq(s.Max, s.High)
}

func constEq(a, b ssa.Value) bool {
	x, y := constOf(a), constOf(b)
	return x != nil && y != nil && constEqual(x, y)
}

func sameLen(a, b ssa.Value) bool {
	arg := func(v ssa.Value) ssa.Value {
		c, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		if bl, ok := c.Call.Value.(*ssa.Builtin); !ok || bl.Name() != "len" {
			return nil
		}
		return c.Call.Args[0]
	}
	x, y := arg(a), arg(b)
	return x != nil && x == y
}

// guardExcludes reports whether, at instruction in, the slice v cannot be the
// constant byte slice o, because a dominating condition says that string(v)
// is one of a set of constants that does not include o's contents.
func (e *effects) guardExcludes(c *effCtx, in ssa.Instruction, v ssa.Value, o *object) bool {
	base := v
	for {
		if s, ok := base.(*ssa.Slice); ok {
			base = s.X
			continue
		}
		break
	}
	for cx, at := c, in; cx != nil; {
		if set, ok := e.dominatingStrings(cx, at, base); ok {
			for _, s := range set {
				if s == o.init {
					return false
				}
			}
			return true
		}
		// Continue in the caller if base is a parameter.
		p, ok := base.(*ssa.Parameter)
		if !ok || cx.parent == nil {
			return false
		}
		idx := -1
		for i, q := range cx.fn.Params {
			if q == p {
				idx = i
			}
		}
		args := cx.site.Common().Args
		if idx < 0 || idx >= len(args) {
			return false
		}
		base = args[idx]
		at = cx.site
		cx = cx.parent
		for {
			if s, ok := base.(*ssa.Slice); ok {
				base = s.X
				continue
			}
			break
		}
	}
	return false
}

// dominatingStrings finds a condition dominating at that bounds string(base)
// to a finite set of constants.
func (e *effects) dominatingStrings(c *effCtx, at ssa.Instruction, base ssa.Value) ([]string, bool) {
	isConv := func(v ssa.Value) bool {
		cv, ok := v.(*ssa.Convert)
		if !ok {
			return false
		}
		x := cv.X
		for {
			if s, ok := x.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
				x = s.X
				continue
			}
			break
		}
		return x == base
	}
	for b := at.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			return nil, false
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		onTrue := d.Succs[0] != d.Succs[1] && dominatesEdge(d, d.Succs[0], at.Block())
		onFalse := d.Succs[0] != d.Succs[1] && dominatesEdge(d, d.Succs[1], at.Block())
		cond := iff.Cond
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond = u.X
				onTrue, onFalse = onFalse, onTrue
				continue
			}
			break
		}
		switch x := cond.(type) {
		case *ssa.BinOp:
			if x.Op == token.EQL && onTrue || x.Op == token.NEQ && onFalse {
				if isConv(x.X) {
					if set, ok := e.w.stringSet(x.Y); ok {
						return set, true
					}
				}
				if isConv(x.Y) {
					if set, ok := e.w.stringSet(x.X); ok {
						return set, true
					}
				}
			}
		case *ssa.Extract:
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && onTrue && isConv(lk.Index) {
				if set, ok := e.w.mapKeySet(lk.X); ok {
					return set, true
				}
			}
		case *ssa.Lookup: // map[string]bool
			if onTrue && isConv(x.Index) {
				if set, ok := e.w.mapKeySet(x.X); ok {
					return set, true
				}
			}
		}
	}
	return nil, false
}

// dominatesEdge reports whether every path to b goes through the edge from->to.
func dominatesEdge(from, to, b *ssa.BasicBlock) bool {
	if !to.Dominates(b) {
		return false
	}
	for _, p := range to.Preds {
		if p != from && !to.Dominates(p) {
			return false
		}
	}
	return true
}

// mapRangeOrderDependent reports why the result of ranging over a map may
// depend on iteration order, or "".
func mapRangeOrderDependent(r *ssa.Range) string {
	// Find the loop: the block with Next, and the blocks it dominates that can reach it.
	var next *ssa.Next
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			if next != nil {
				return "several iterations"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	loop := naturalLoop(head)
	for b := range loop {
		for _, s := range b.Succs {
			if !loop[s] && b != head {
				// Early exit: the element at which it happens depends on the order.
				if why := exitDependsOnElement(loop, b, s); why != "" {
					return why
				}
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				if b != head {
					continue
				}
				if isCommutativePhi(in, loop) {
					continue
				}
				if isSortedAppendPhi(in, loop) {
					continue
				}
				return "the loop carries " + in.Comment + " from one element to the next"
			case *ssa.Store:
				if _, local := in.Addr.(*ssa.Alloc); local {
					if loop[in.Addr.(*ssa.Alloc).Block()] {
						continue
					}
				}
				if isAddrInside(in.Addr, loop) {
					continue
				}
				return "the loop body stores to memory that outlives the iteration"
			case *ssa.MapUpdate:
				continue // keyed by element; distinct keys commute
			case ssa.CallInstruction:
				if bl, ok := in.Common().Value.(*ssa.Builtin); ok {
					switch bl.Name() {
					case "len", "cap", "append", "delete", "min", "max":
						continue
					}
				}
				if f := in.Common().StaticCallee(); f != nil && f.Pkg != nil && purePkg[f.Pkg.Pkg.Path()] && f.Signature.Recv() == nil {
					continue
				}
				if f := in.Common().StaticCallee(); f != nil && len(f.Blocks) == 0 && f.Object() != nil && f.Object().Pkg() != nil && purePkg[f.Object().Pkg().Path()] && f.Signature.Recv() == nil {
					continue
				}
				return "the loop body calls a function whose effects may depend on the order"
			}
		}
	}
	return ""
}

func naturalLoop(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{head: true}
	var stack []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		stack = append(stack, b.Preds...)
	}
	return loop
}

func exitDependsOnElement(loop map[*ssa.BasicBlock]bool, b, s *ssa.BasicBlock) string {
	// A pure existence test (constant results on exit) is order-insensitive.
	for {
		for _, in := range s.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				for _, r := range in.Results {
					if _, ok := r.(*ssa.Const); !ok {
						return "the loop returns a value that depends on the element reached first"
					}
				}
				return ""
			case *ssa.Jump, *ssa.DebugRef:
			case *ssa.Phi:
				for i, p := range s.Preds {
					if p == b {
						if _, ok := in.Edges[i].(*ssa.Const); !ok {
							return "the loop exits early with a value that depends on the element reached first"
						}
					}
				}
				return ""
			default:
				return "the loop can exit early at an element that depends on the order"
			}
		}
		if len(s.Succs) != 1 {
			return "the loop can exit early at an element that depends on the order"
		}
		b, s = s, s.Succs[0]
	}
}

func isAddrInside(a ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.Alloc:
			return loop[x.Block()]
		default:
			return false
		}
	}
}

func isCommutativePhi(phi *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	b, ok := phi.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	var okVal func(v ssa.Value, depth int) bool
	op := token.ILLEGAL
	okVal = func(v ssa.Value, depth int) bool {
		if v == phi {
			return true
		}
		if depth > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return b.Info()&types.IsBoolean != 0
		case *ssa.Phi:
			if !loop[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !okVal(e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
				if op != token.ILLEGAL && op != x.Op {
					return false
				}
				op = x.Op
				return okVal(x.X, depth+1) && !dependsOn(x.Y, phi, 0) || okVal(x.Y, depth+1) && !dependsOn(x.X, phi, 0)
			}
		}
		return false
	}
	for i, p := range phi.Block().Preds {
		if loop[p] && !okVal(phi.Edges[i], 0) {
			return false
		}
	}
	return true
}

func dependsOn(v, phi ssa.Value, depth int) bool {
	if v == phi || depth > 8 {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok {
		return true
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, phi, depth+1) {
			return true
		}
	}
	return false
}

// isSortedAppendPhi: the loop only appends to the slice, and after the loop the
// slice is sorted before anything else looks at it.
func isSortedAppendPhi(phi *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	var inLoopOK func(v ssa.Value, depth int) bool
	inLoopOK = func(v ssa.Value, depth int) bool {
		if v == phi {
			return true
		}
		if depth > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !inLoopOK(e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if bl, ok := x.Call.Value.(*ssa.Builtin); ok && bl.Name() == "append" {
				return inLoopOK(x.Call.Args[0], depth+1)
			}
		}
		return false
	}
	for i, p := range phi.Block().Preds {
		if loop[p] && !inLoopOK(phi.Edges[i], 0) {
			return false
		}
	}
	var sorts []ssa.Instruction
	var others []ssa.Instruction
	for _, ref := range *phi.Referrers() {
		if loop[ref.Block()] {
			continue
		}
		if isSortOf(ref, phi) {
			sorts = append(sorts, ref)
			continue
		}
		if mi, ok := ref.(*ssa.MakeInterface); ok {
			all := true
			for _, r2 := range *mi.Referrers() {
				if isSortOf(r2, mi) {
					sorts = append(sorts, r2)
				} else {
					all = false
				}
			}
			if all {
				continue
			}
		}
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		others = append(others, ref)
	}
	for _, o := range others {
		ok := false
		for _, s := range sorts {
			if s.Block() == o.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						ok = true
						break
					}
					if in == o {
						break
					}
				}
			} else if s.Block().Dominates(o.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(sorts) > 0
}

func isSortOf(in ssa.Instruction, v ssa.Value) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || len(call.Call.Args) == 0 || call.Call.Args[0] != v {
		return false
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	if o.Object() == nil || o.Object().Pkg() == nil {
		return false
	}
	switch o.Object().Pkg().Path() + "." + o.Object().Name() {
	case "sort.Strings", "sort.Ints", "slices.Sort":
		return true
	}
	return false
}
