package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const (
	fValid uint8 = 1 // a valid code point
	fState uint8 = 2 // the offset of a state in a compiled table
)

type frame struct {
	fn    *ssa.Function
	info  *fnInfo
	ctx   string
	depth int
}

type retState struct {
	st   *state
	vals []aval
}

type edgeState struct {
	from, to *ssa.BasicBlock
	st       *state
}

type obKey struct {
	in   ssa.Instruction
	kind string
}

type obResult struct {
	ok     bool
	detail string
	ctx    string
}

type loopKey struct {
	head *ssa.BasicBlock
}

type engine struct {
	w         *World
	infos     map[*ssa.Function]*fnInfo
	suppress  int
	obs       map[obKey]*obResult
	loops     map[*ssa.BasicBlock]*obResult
	why       []string
	steps     int
	ctxs      map[string]string
	solved    map[string]*solved
	contracts map[string]*contract
	guard     map[baseID]bool // bases a contract must not write
	writes    int             // writes to memory that existed before
	written   map[*ssa.Global]bool
	// client hooks
	field     func(e *engine, st *state, obj, path string, t types.Type) (aval, bool)
	onCall    func(e *engine, fr *frame, st *state, call *ssa.Call, args []aval) ([]*state, bool)
	elem      func(e *engine, st *state, base baseID, idx lin, t types.Type) ([]*state, []aval, bool)
	onNext    func(e *engine, st *state, q *seqInfo, base baseID)
	elemLeaf  func(e *engine, st *state, base baseID, idx lin, path string, t types.Type) (aval, bool)
	lookup    func(e *engine, fr *frame, st *state, in *ssa.Lookup, m, key aval) ([]*state, bool)
	onFind    func(e *engine, st *state, p *patternInfo, s *slv, lo, hi lin) bool
	horizon   lin // more than any field of an element of a sequence, or zero
	onAppend  func(e *engine, fr *frame, st *state, in ssa.Instruction, t types.Type, f map[string]aval, q *seqInfo)
	aheadOK   func(st *state) bool
	onStore   func(e *engine, fr *frame, in *ssa.Store)
	elemType  map[baseID]types.Type // what slices of the base hold; nil when mixed
	part      func(st *state, s *slv) string
	patterns  map[*ssa.Global]*patternInfo
	cellT     map[cellKey]types.Type
	calls     map[string]int
	trace     bool
	trace2    bool
	traceFn   string
	noPanicIn map[*ssa.Function]bool
	sums      map[*ssa.Function]bool // whether the function is summarised
}

type patternInfo struct {
	text     string
	min      int64
	anchored bool
	oneLine  bool   // matches contain no newline
	letters  []rune // the letters it may begin with (word)
	maximal  bool   // no match is followed by one of letters
	word     bool   // begins with letters that a fixed other character ends
}

// pattern describes the regular expression a value holds.
func (e *engine) pattern(v ssa.Value) *patternInfo {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			p := e.patterns[g]
			if p == nil {
				p = &patternInfo{}
				if text, ok := e.w.regexpPattern(g); ok {
					p = parsePattern(text)
				}
				e.patterns[g] = p
			}
			return p
		}
	}
	return &patternInfo{}
}

// parsePattern derives what is known of the matches of a pattern.
func parsePattern(text string) *patternInfo {
	p := &patternInfo{text: text}
	re, err := syntax.Parse(text, syntax.Perl)
	if err != nil {
		return p
	}
	p.min = minMatch(re)
	p.oneLine = oneLine(re)
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	}
	if subs[0].Op != syntax.OpBeginText {
		return p
	}
	p.anchored = true
	letters := 0
	for _, x := range subs[1:] {
		all := func(x *syntax.Regexp) bool {
			var rs []rune
			switch x.Op {
			case syntax.OpLiteral:
				for _, r := range x.Rune {
					rs = append(rs, r)
					for f := unicode.SimpleFold(r); f != r && x.Flags&syntax.FoldCase != 0; f = unicode.SimpleFold(f) {
						rs = append(rs, f)
					}
				}
			case syntax.OpCharClass:
				for i := 0; i < len(x.Rune); i += 2 {
					if x.Rune[i+1] > x.Rune[i]+64 {
						return false
					}
					for r := x.Rune[i]; r <= x.Rune[i+1]; r++ {
						rs = append(rs, r)
					}
				}
			default:
				return false
			}
			for _, r := range rs {
				if !unicode.IsLetter(r) {
					return false
				}
			}
			p.letters = append(p.letters, rs...)
			return true
		}
		switch {
		case all(x):
			letters++
		case (x.Op == syntax.OpQuest || x.Op == syntax.OpStar || x.Op == syntax.OpPlus) && all(x.Sub[0]):
		case x.Op == syntax.OpLiteral:
			for _, r := range x.Rune {
				if !unicode.IsLetter(r) {
					// An ASCII character that is no part of any word.
					p.maximal = maximalTail(subs, p.letters)
					p.word = letters > 0 && r < 0x80 && r > 0x20 && !(r >= '0' && r <= '9') && r != '_' && r != '-' && r != '\'' && r != '&'
					return p
				}
				letters++
				p.letters = append(p.letters, r)
				for f := unicode.SimpleFold(r); f != r && x.Flags&syntax.FoldCase != 0; f = unicode.SimpleFold(f) {
					p.letters = append(p.letters, f)
				}
			}
		default:
			return p
		}
	}
	return p
}

// maximalTail reports whether the pattern ends in a repetition that goes on as
// long as one of letters follows: (d c+)+ d? with every letter in c, greedy.
func maximalTail(subs []*syntax.Regexp, letters []rune) bool {
	n := len(subs)
	single := func(x *syntax.Regexp) (rune, bool) {
		for x.Op == syntax.OpCapture {
			x = x.Sub[0]
		}
		if x.Op == syntax.OpLiteral && len(x.Rune) == 1 {
			return x.Rune[0], true
		}
		return 0, false
	}
	greedy := func(x *syntax.Regexp) bool { return x.Flags&syntax.NonGreedy == 0 }
	var end rune
	if x := subs[n-1]; x.Op == syntax.OpQuest && greedy(x) {
		r, ok := single(x.Sub[0])
		if !ok {
			return false
		}
		end = r
		n--
	}
	x := subs[n-1]
	if x.Op == syntax.OpPlus || x.Op == syntax.OpStar {
		y := x.Sub[0]
		for y.Op == syntax.OpCapture {
			y = y.Sub[0]
		}
		if y.Op == syntax.OpConcat && len(y.Sub) == 2 {
			d, ok := single(y.Sub[0])
			if !ok || !greedy(x) || end != 0 && d != end {
				return false
			}
			x = y.Sub[1]
		} else if end != 0 {
			return false
		}
	}
	if x.Op != syntax.OpPlus && x.Op != syntax.OpStar || !greedy(x) || x.Sub[0].Op != syntax.OpCharClass {
		return false
	}
	c := x.Sub[0]
	for _, r := range letters {
		in := false
		for i := 0; i < len(c.Rune); i += 2 {
			if c.Rune[i] <= r && r <= c.Rune[i+1] {
				in = true
			}
		}
		if !in {
			return false
		}
	}
	return len(letters) > 0
}

// oneLine reports whether no match contains a newline.
func oneLine(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpAnyChar:
		return false
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			if r == '\n' {
				return false
			}
		}
	case syntax.OpCharClass:
		for i := 0; i < len(re.Rune); i += 2 {
			if re.Rune[i] <= '\n' && '\n' <= re.Rune[i+1] {
				return false
			}
		}
	}
	for _, x := range re.Sub {
		if !oneLine(x) {
			return false
		}
	}
	return true
}

// minMatch is a lower bound for the length of a match, in bytes.
func minMatch(re *syntax.Regexp) int64 {
	switch re.Op {
	case syntax.OpLiteral:
		return int64(len(re.Rune))
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minMatch(re.Sub[0])
	case syntax.OpRepeat:
		return minMatch(re.Sub[0]) * int64(re.Min)
	case syntax.OpConcat:
		n := int64(0)
		for _, x := range re.Sub {
			n += minMatch(x)
		}
		return n
	case syntax.OpAlternate:
		n := minMatch(re.Sub[0])
		for _, x := range re.Sub[1:] {
			if m := minMatch(x); m < n {
				n = m
			}
		}
		return n
	}
	return 0
}

func newEngine(w *World) *engine {
	return &engine{w: w, infos: map[*ssa.Function]*fnInfo{}, obs: map[obKey]*obResult{}, loops: map[*ssa.BasicBlock]*obResult{}, ctxs: map[string]string{},
		written: w.writtenGlobals(), cellT: map[cellKey]types.Type{}, patterns: map[*ssa.Global]*patternInfo{}, elemType: map[baseID]types.Type{}, calls: map[string]int{}, contracts: map[string]*contract{}, trace: os.Getenv("AITRACE") != "", trace2: os.Getenv("AITRACE") == "2", traceFn: os.Getenv("AIFN")}
}

func (e *engine) undecided(f string, args ...interface{}) {
	if e.suppress > 0 {
		return
	}
	s := fmt.Sprintf(f, args...)
	for _, w := range e.why {
		if w == s {
			return
		}
	}
	e.why = append(e.why, s)
}

func (e *engine) info(fn *ssa.Function) *fnInfo {
	fi := e.infos[fn]
	if fi == nil {
		fi = newFnInfo(fn)
		e.infos[fn] = fi
	}
	return fi
}

func (e *engine) oblige(fr *frame, in ssa.Instruction, kind string, ok bool, detail func() string) {
	if e.suppress > 0 {
		return
	}
	k := obKey{in, kind}
	o := e.obs[k]
	if o == nil {
		o = &obResult{ok: true}
		e.obs[k] = o
	}
	if !ok && o.ok {
		o.ok = false
		o.ctx = fr.ctx
		o.detail = detail()
	}
}

func (e *engine) subctx(ctx string, in ssa.Instruction, fn *ssa.Function) string {
	key := ctx + "/" + fmt.Sprintf("%p", in) + fn.Name()
	c, ok := e.ctxs[key]
	if !ok {
		c = fmt.Sprintf("%s%d", fn.Name(), len(e.ctxs))
		e.ctxs[key] = c
	}
	return c
}

func (fr *frame) name(v ssa.Value, part string) string {
	return fr.ctx + ":" + v.Name() + part
}

// call runs fn on st and returns the states after it, with the caller's frame restored.
func (e *engine) callFn(fr *frame, in *ssa.Call, fn *ssa.Function, args, bind []aval, st *state) []*state {
	if fr.depth > 16 {
		e.undecided("call chain too deep at %s", e.w.instrPos(in))
		st.env[in] = nil
		return []*state{st}
	}
	if fn.Recover != nil {
		e.undecided("%s recovers from panics", shortFn(fn))
	}
	if e.summarised(fn) {
		t := in.Type()
		key := fr.name(in, "")
		if tt, ok := t.(*types.Tuple); ok {
			tv := make(tuplev, tt.Len())
			for i := range tv {
				tv[i] = e.fresh(st, fmt.Sprintf("%s#%d", key, i), tt.At(i).Type())
			}
			st.env[in] = tv
		} else {
			st.env[in] = e.fresh(st, key, t)
		}
		return []*state{st}
	}
	if out, ok := e.byContract(fr, in, fn, args, st); ok {
		return out
	}
	live := fr.info.liveAfter(in)
	saved := map[ssa.Value]aval{}
	for v, x := range st.env {
		if live[v] {
			saved[v] = x
		}
	}
	st.stack = append(st.stack[:len(st.stack):len(st.stack)], saved)
	ctx := e.subctx(fr.ctx, in, fn)
	rets := e.runFn(fn, ctx, fr.depth+1, args, bind, st)
	var out []*state
	for _, r := range rets {
		s := r.st
		s.stack = s.stack[:len(s.stack)-1]
		s.env = make(map[ssa.Value]aval, len(saved)+1)
		for v, x := range saved {
			s.env[v] = x
		}
		switch len(r.vals) {
		case 0:
			s.env[in] = nil
		case 1:
			s.env[in] = r.vals[0]
		default:
			s.env[in] = tuplev(r.vals)
		}
		out = append(out, s)
	}
	return e.reduce(fr, fr.name(in, "ret"), out)
}

func (e *engine) runFn(fn *ssa.Function, ctx string, depth int, args, bind []aval, st *state) []retState {
	fi := e.info(fn)
	e.calls[shortFn(fn)]++
	if fi.irred {
		e.undecided("%s has irreducible control flow", shortFn(fn))
	}
	fr := &frame{fn: fn, info: fi, ctx: ctx, depth: depth}
	st.env = map[ssa.Value]aval{}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			st.env[p] = bind[i]
		}
	}
	_, _, rets := e.region(fr, nil, fn.Blocks[0], []*state{st})
	return rets
}

func (e *engine) region(fr *frame, l *loopInfo, start *ssa.BasicBlock, states []*state) (backs, exits []edgeState, rets []retState) {
	pending := map[*ssa.BasicBlock][]edgeState{}
	route := func(es edgeState) {
		switch {
		case l != nil && es.to == l.head:
			backs = append(backs, es)
		case l == nil || l.blocks[es.to]:
			pending[es.to] = append(pending[es.to], es)
		default:
			exits = append(exits, es)
		}
	}
	for _, b := range fr.info.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		inner := fr.info.loops[b]
		if b == start && (l == nil || l.head == b) {
			if l == nil && inner != nil {
				// The entry block is a loop head.
				e.undecided("%s starts with a loop", shortFn(fr.fn))
				continue
			}
			for _, st := range states {
				o, r := e.block(fr, b, st)
				for _, es := range o {
					route(es)
				}
				rets = append(rets, r...)
			}
			continue
		}
		p := pending[b]
		if len(p) == 0 {
			continue
		}
		delete(pending, b)
		if inner != nil {
			ex, r := e.loop(fr, inner, p)
			for _, es := range ex {
				route(es)
			}
			rets = append(rets, r...)
			continue
		}
		for _, st := range e.merge(fr, b, p) {
			o, r := e.block(fr, b, st)
			for _, es := range o {
				route(es)
			}
			rets = append(rets, r...)
		}
	}
	return
}

// phis evaluates the phis of an edge and restricts the frame to live values.
func (e *engine) phis(fr *frame, es edgeState) *state {
	st := es.st
	upd := map[ssa.Value]aval{}
	for _, in := range es.to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range es.to.Preds {
			if p == es.from {
				upd[phi] = e.val(fr, st, phi.Edges[i])
				break
			}
		}
	}
	live := fr.info.liveIn[es.to]
	for v := range st.env {
		if !live[v] {
			delete(st.env, v)
		}
	}
	for v, x := range upd {
		st.env[v] = x
	}
	return st
}

func (e *engine) merge(fr *frame, b *ssa.BasicBlock, es []edgeState) []*state {
	var out []*state
	for _, x := range es {
		out = append(out, e.phis(fr, x))
	}
	return e.reduce(fr, fmt.Sprintf("%s:b%d", fr.ctx, b.Index), out)
}

const maxStates = 12

// reduce joins states with equal values, and more when there are too many.
func (e *engine) reduce(fr *frame, at string, in []*state) []*state {
	if len(in) <= 1 {
		return in
	}
	var order []string
	groups := map[string][]*state{}
	for _, st := range in {
		st.gc()
		k := e.signature(st)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], st)
	}
	var out []*state
	for _, k := range order {
		out = append(out, e.joinAll(at, groups[k]))
	}
	if len(out) <= maxStates {
		return out
	}
	order = nil
	groups = map[string][]*state{}
	for _, st := range out {
		k := e.partKey(fr, nil, st)
		if e.trace2 {
			fmt.Printf("reduce %s: key %q\n%s", at, k, st)
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], st)
	}
	out = nil
	for _, k := range order {
		out = append(out, e.joinAll(at, groups[k]))
	}
	if len(out) > maxStates*2 {
		if e.trace2 {
			fmt.Printf("reduce %s: %d states joined into one\n", at, len(out))
			for _, k := range order {
				fmt.Printf("  key %q\n", k)
			}
		}
		return []*state{e.joinAll(at, out)}
	}
	return out
}

func (e *engine) joinAll(at string, in []*state) *state {
	r := in[0]
	if len(in) == 1 {
		return r
	}
	jc := newJoinCtx(at)
	for _, st := range in {
		st.retire(at)
	}
	r = in[0]
	for i, st := range in[1:] {
		jc.round = i
		r = e.join(r, st, jc)
	}
	return r
}

// signature renders every value the rest of the program can see.
func (e *engine) signature(st *state) string {
	var s []string
	for v, x := range st.env {
		s = append(s, v.Name()+"="+avText(x))
		if sl, ok := x.(*slv); ok && e.part != nil {
			s = append(s, v.Name()+e.part(st, sl))
		}
	}
	for k, x := range st.heap {
		s = append(s, k.obj+k.path+"="+avText(x))
	}
	for b, q := range st.seqs {
		s = append(s, fmt.Sprintf("%s#%s%v%s", b, q.n, q.last, q.lastC))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// partKey is the partition of a state: the sentinel values it holds.
func (e *engine) partKey(fr *frame, l *loopInfo, st *state) string {
	var s []string
	for v, x := range st.env {
		if phi, ok := v.(*ssa.Phi); ok && isInduction(phi) {
			continue
		}
		if l != nil && l.parent == nil {
			// Values from before the outermost loop do not change in it.
			if in, ok := v.(ssa.Instruction); !ok || !l.blocks[in.Block()] {
				continue
			}
		}
		e.partText(v.Name(), x, st, &s)
	}
	// A position at the very end of a sequence: nothing can follow.
	atEnd := func(name string, x aval) {
		v, ok := x.(lin)
		if !ok || v.isConst() {
			return
		}
		for b, q := range st.seqs {
			if !q.top && !q.empty && len(q.fields) > 1 && q.lastC == "?" && st.eq0(v.sub(q.n)) {
				s = append(s, fmt.Sprintf("%s=len(%s)", name, b))
			}
		}
	}
	if len(e.horizon.s) > 0 && l == nil {
		for k, x := range st.heap {
			if strings.HasPrefix(k.obj, "alloc:") {
				atEnd(k.obj+k.path, x)
			}
		}
	} else if len(e.horizon.s) > 0 && l.parent == nil {
		for _, in := range l.head.Instrs {
			if phi, ok := in.(*ssa.Phi); ok && !isInduction(phi) {
				atEnd(phi.Name(), st.env[phi])
			}
		}
	}
	for k, x := range st.heap {
		if strings.HasPrefix(k.obj, "cap:") || strings.HasPrefix(k.obj, "iter:mark:") {
			continue
		}
		if l != nil && l.parent == nil && !l.appends(e.cellT[k]) {
			// Nor do sequences that nothing is added to.
			if sl, ok := x.(*slv); ok && st.seqs[sl.base] != nil {
				continue
			}
		}
		e.partText(k.obj+k.path, x, st, &s)
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// appends reports whether the loop itself appends to slices of type t.
func (l *loopInfo) appends(t types.Type) bool {
	if t == nil {
		return true
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Builtin); ok && f.Name() == "append" && types.Identical(c.Type().Underlying(), t.Underlying()) {
					return true
				}
			}
		}
	}
	return false
}

func isInduction(phi *ssa.Phi) bool {
	for _, ed := range phi.Edges {
		if b, ok := ed.(*ssa.BinOp); ok && b.X == phi {
			if _, ok := b.Y.(*ssa.Const); ok {
				return true
			}
		}
	}
	return false
}

func (e *engine) partText(pos string, v aval, st *state, out *[]string) {
	switch v := v.(type) {
	case lin:
		if v.isConst() && v.c < 0 {
			*out = append(*out, fmt.Sprintf("%s=%d", pos, v.c))
		}
	case *cond:
		if v.op == cConst {
			*out = append(*out, fmt.Sprintf("%s=%v", pos, v.b))
		}
	case *slv:
		if e.part != nil {
			if k := e.part(st, v); k != "" {
				*out = append(*out, pos+k)
			}
		}
		if q := st.seqs[v.base]; q != nil && !q.top && !q.empty && q.lastC != "" {
			*out = append(*out, pos+"~"+q.lastC)
		}
		// A known first byte of a string that some quantity has already passed.
		if strings.HasPrefix(string(v.base), "const:") {
			return
		}
		for _, el := range st.elems {
			if el.base != v.base || !el.idx.eq(v.off) {
				continue
			}
			if x, ok := el.f[""].(lin); ok {
				if set, ok := st.linSet(x); ok {
					if c, one := set.single(); one && st.passed(v.off) {
						*out = append(*out, fmt.Sprintf("%s[0]=%d", pos, c))
					}
				}
			}
		}
	case structv:
		for i, x := range v {
			e.partText(fmt.Sprintf("%s.%d", pos, i), x, st, out)
		}
	case nilv:
		*out = append(*out, pos+"=nil")
	}
}

// passed: an integer of the frame or of the end of a sequence lies just past idx.
func (st *state) passed(idx lin) bool {
	past := func(l lin) bool {
		if l.isConst() || !l.sameShape(idx) {
			return false
		}
		d := l.c - idx.c
		return d >= 1 && d <= 2
	}
	for _, x := range st.env {
		if l, ok := x.(lin); ok && past(l) {
			return true
		}
	}
	for _, q := range st.seqs {
		for _, l := range q.last {
			if past(l) {
				return true
			}
		}
	}
	return false
}

// loop computes invariants at a loop head per partition and then runs the body
// once from each, giving the exits.
func (e *engine) loop(fr *frame, l *loopInfo, entries []edgeState) (exits []edgeState, rets []retState) {
	at := fmt.Sprintf("%s:L%d", fr.ctx, l.head.Index)
	var parts []*part
	byKey := map[string]*part{}
	merged := false
	shifts := l.shifts()
	loopCtx := func() *joinCtx {
		jc := newJoinCtx(at)
		jc.shift = shifts
		return jc
	}
	add := func(st *state, round int) {
		if e.aheadOK != nil && e.aheadOK(st) {
			e.ahead(l, st)
		}
		st.gc()
		k := ""
		if !merged {
			k = e.partKey(fr, l, st)
		}
		p := byKey[k]
		if p == nil && e.trace2 {
			fmt.Printf("loop %s round %d: partition %q\n", at, round, k)
		}
		if p == nil {
			if len(parts) >= 32 {
				// Too many partitions: join everything.
				merged = true
				old := parts
				parts = nil
				byKey = map[string]*part{}
				p = &part{key: "", head: old[0].head, dirty: true, jc: loopCtx()}
				parts = append(parts, p)
				byKey[""] = p
				for _, o := range old[1:] {
					p.head = e.join(p.head, o.head, p.jc)
				}
				p.head = e.join(p.head, st, p.jc)
				return
			}
			p = &part{key: k, head: st, dirty: true, jc: loopCtx()}
			parts = append(parts, p)
			byKey[k] = p
			return
		}
		before := p.head.String()
		if e.trace2 {
			fmt.Printf("loop %s round %d: joining into %q\n%s", at, round, k, st)
		}
		if p.joined != round {
			p.joined = round
			p.jc.round++
		}
		p.head = e.join(p.head, st, p.jc)
		if e.trace2 {
			fmt.Printf("loop %s round %d: joined %q\n%s", at, round, k, p.head)
		}
		if p.head.String() != before {
			p.dirty = true
		}
	}
	var ins []*state
	memo := at
	for _, es := range entries {
		st := e.phis(fr, es)
		st.retire(at)
		st.gc()
		ins = append(ins, st)
		memo += "\n--\n" + st.String()
	}
	known := e.solved[memo]
	if known == nil {
		for _, st := range ins {
			add(st, 0)
		}
	} else {
		parts, merged = known.parts, known.merged
	}
	if known != nil && e.suppress > 0 && known.done {
		for _, x := range known.exits {
			exits = append(exits, edgeState{x.from, x.to, x.st.clone()})
		}
		for _, x := range known.rets {
			rets = append(rets, retState{x.st.clone(), x.vals})
		}
		return exits, rets
	}
	e.suppress++
	round := 0
	failed := false
	for known == nil {
		var p *part
		for _, x := range parts {
			if x.dirty && (p == nil || x.ran < p.ran) {
				p = x
			}
		}
		if p == nil {
			break
		}
		p.dirty = false
		round++
		p.ran = round
		if round > 60+4*len(parts) {
			failed = true
			break
		}
		backs, _, _ := e.region(fr, l, l.head, []*state{p.head.clone()})
		for _, es := range backs {
			add(e.phis(fr, es), round)
		}
	}
	e.suppress--
	if known == nil {
		if e.solved == nil {
			e.solved = map[string]*solved{}
		}
		known = &solved{parts: parts, merged: merged, failed: failed}
		e.solved[memo] = known
	}
	if known.failed {
		e.undecided("no loop invariant found at %s", e.loopPos(l))
	}
	if e.trace && e.suppress == 0 {
		fmt.Printf("== loop %s (%s): %d rounds, %d parts\n", at, e.loopPos(l), round, len(parts))
		for _, p := range parts {
			fmt.Printf("-- part %q\n%s", p.key, p.head)
		}
	}
	var trans []transition
	for _, p := range parts {
		start := p.head.clone()
		mark := "iter:mark:" + at
		if e.suppress == 0 {
			// Remember what the head merges, to measure progress at the back edges.
			for pos, v := range start.headPositions(l.head) {
				start.heap[cellKey{mark, pos}] = v
			}
		}
		backs, ex, rs := e.region(fr, l, l.head, []*state{start})
		for _, x := range ex {
			x.st.unmark(mark)
			if e.aheadOK != nil && e.aheadOK(x.st) {
				e.ahead(l, x.st)
			}
		}
		for _, x := range rs {
			x.st.unmark(mark)
		}
		exits = append(exits, ex...)
		rets = append(rets, rs...)
		if e.suppress == 0 {
			for _, es := range backs {
				st := e.phis(fr, es)
				was := st.unmark(mark)
				k := ""
				if !merged {
					k = e.partKey(fr, l, st)
				}
				trans = append(trans, transition{p.key, k, p.head, st, was})
			}
		}
	}
	if e.suppress == 0 {
		e.rank(fr, l, trans)
	} else if !known.done {
		known.done = true
		for _, x := range exits {
			known.exits = append(known.exits, edgeState{x.from, x.to, x.st.clone()})
		}
		for _, x := range rets {
			known.rets = append(known.rets, retState{x.st.clone(), x.vals})
		}
	}
	return exits, rets
}

func (e *engine) loopPos(l *loopInfo) string {
	for _, b := range append([]*ssa.BasicBlock{l.head}, sortedBlocks(l.blocks)...) {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				if _, ok := in.(*ssa.Phi); !ok {
					return shortFn(b.Parent()) + " " + e.w.instrPos(in)
				}
			}
		}
	}
	return shortFn(l.head.Parent())
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b := range m {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}

type transition struct {
	from, to string
	h, b     *state
	was      map[string]lin // what the head merged, in terms of b
}

// part is a partition of the states at a loop head.
type part struct {
	key    string
	head   *state
	dirty  bool
	jc     *joinCtx
	ran    int // the last round that ran it
	joined int // the last round that joined into it
}

// solved is a loop's invariant for given entries.
type solved struct {
	parts          []*part
	merged, failed bool
	done           bool
	exits          []edgeState
	rets           []retState
}

// headPositions lists the quantities merged by the phis of a loop head.
func (st *state) headPositions(head *ssa.BasicBlock) map[string]lin {
	m := map[string]lin{}
	all := st.positions()
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for pos, l := range all {
			if pos == phi.Name() || strings.HasPrefix(pos, phi.Name()+".") {
				m[pos] = l
			}
		}
	}
	return m
}

// unmark removes and returns the quantities remembered under a name.
func (st *state) unmark(mark string) map[string]lin {
	m := map[string]lin{}
	for k, v := range st.heap {
		if k.obj == mark {
			if l, ok := v.(lin); ok {
				m[k.path] = l
			}
			delete(st.heap, k)
		}
	}
	return m
}

// positions lists the integer quantities of a state by position.
func (st *state) positions() map[string]lin {
	m := map[string]lin{"0": lc(0)}
	var walk func(pos string, v aval)
	walk = func(pos string, v aval) {
		switch v := v.(type) {
		case lin:
			m[pos] = v
		case *slv:
			m[pos+".off"] = v.off
			m[pos+".end"] = v.end()
			if !strings.HasPrefix(string(v.base), "const:") {
				m[pos+".cap"] = st.capEnd(v.base)
			}
		case structv:
			for i, x := range v {
				walk(fmt.Sprintf("%s.%d", pos, i), x)
			}
		case elemv:
			m[pos+".idx"] = v.idx
		case iterv:
			if v.s != nil {
				m[pos+".off"] = v.s.off
				m[pos+".end"] = v.s.end()
			}
		}
	}
	for v, x := range st.env {
		walk(v.Name(), x)
	}
	for k, x := range st.heap {
		if !strings.HasPrefix(k.obj, "cap:") && !strings.HasPrefix(k.obj, "iter:mark:") {
			walk(k.obj+k.path, x)
		}
	}
	return m
}

// rank looks for a quantity that is bounded below and decreases on every back edge.
func (e *engine) rank(fr *frame, l *loopInfo, trans []transition) {
	o := e.loops[l.head]
	if o == nil {
		o = &obResult{ok: true}
		e.loops[l.head] = o
	}
	if len(trans) == 0 {
		if o.detail == "" {
			o.detail = "never repeats"
		}
		return
	}
	if why := axiomaticLoop(l); why != "" {
		o.detail = why
		return
	}
	hp := make([]map[string]lin, len(trans))
	bp := make([]map[string]lin, len(trans))
	changing := map[string]bool{}
	for i, t := range trans {
		hp[i], bp[i] = t.h.positions(), t.b.positions()
		for pos, v := range t.was {
			hp[i][pos] = v
		}
		for p, x := range bp[i] {
			if y, ok := hp[i][p]; ok && !x.eq(y) {
				changing[p] = true
			}
		}
	}
	var ch, all []string
	for p := range changing {
		ch = append(ch, p)
	}
	for p := range hp[0] {
		all = append(all, p)
	}
	sort.Strings(ch)
	sort.Strings(all)
	try := func(f func(m map[string]lin) (lin, bool)) bool {
		zero := map[string][]string{}
		for i, t := range trans {
			x, ok1 := f(hp[i])
			y, ok2 := f(bp[i])
			if !ok1 || !ok2 {
				return false
			}
			d, ok := t.b.lb(x.sub(y))
			if !ok || d < 0 {
				return false
			}
			if _, ok := t.b.lb(x); !ok {
				return false
			}
			if d == 0 {
				if t.from == t.to {
					return false
				}
				zero[t.from] = append(zero[t.from], t.to)
			}
		}
		return acyclic(zero)
	}
	for _, p := range ch {
		for _, q := range all {
			if p == q {
				continue
			}
			for _, sg := range []int64{1, -1} {
				sg := sg
				f := func(m map[string]lin) (lin, bool) {
					a, ok1 := m[p]
					b, ok2 := m[q]
					return a.sub(b).scale(sg), ok1 && ok2
				}
				if try(f) {
					if o.detail == "" {
						if sg > 0 {
							o.detail = p + " - " + q + " decreases"
						} else {
							o.detail = q + " - " + p + " decreases"
						}
					}
					return
				}
			}
		}
	}
	o.ok = false
	o.detail = "no bounded quantity is seen to decrease on every repetition"
	if e.trace {
		for _, t := range trans {
			fmt.Printf("-- back edge %q -> %q\n%s", t.from, t.to, t.b)
		}
	}
}

func acyclic(g map[string][]string) bool {
	state := map[string]int{}
	var dfs func(s string) bool
	dfs = func(s string) bool {
		switch state[s] {
		case 1:
			return false
		case 2:
			return true
		}
		state[s] = 1
		for _, t := range g[s] {
			if !dfs(t) {
				return false
			}
		}
		state[s] = 2
		return true
	}
	for s := range g {
		if !dfs(s) {
			return false
		}
	}
	return true
}

// axiomaticLoop: loops that end by a property of the library.
func axiomaticLoop(l *loopInfo) string {
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			if r, ok := n.Iter.(*ssa.Range); ok && !l.blocks[r.Block()] {
				return "map iteration"
			}
		}
		// x = SimpleFold(x) until it comes back to where it started.
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL || cmp.X != phi && cmp.Y != phi {
			continue
		}
		stop := cmp.Y
		if cmp.Y == phi {
			stop = cmp.X
		}
		good := true
		for i, ed := range phi.Edges {
			c, ok := ed.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "unicode.SimpleFold" {
				good = false
				break
			}
			if l.blocks[phi.Block().Preds[i]] {
				good = good && c.Call.Args[0] == phi
			} else {
				good = good && c.Call.Args[0] == stop
			}
		}
		if good {
			return "walks a case-fold orbit back to its start"
		}
	}
	return ""
}

// block executes b; st is at its start, phis done.
func (e *engine) block(fr *frame, b *ssa.BasicBlock, st *state) (outs []edgeState, rets []retState) {
	states := []*state{st}
	for _, in := range b.Instrs {
		if e.traceFn == fr.fn.Name() {
			fmt.Printf("@@ %s block %d: %s\n", fr.ctx, b.Index, in)
			for _, s := range states {
				fmt.Print(s)
			}
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			for _, s := range states {
				c := e.cond(fr, s, in.Cond)
				t, f := s, s.clone()
				if e.assume(t, c, true) {
					outs = append(outs, edgeState{b, b.Succs[0], t})
				}
				if e.assume(f, c, false) {
					outs = append(outs, edgeState{b, b.Succs[1], f})
				}
			}
			// Two edges to one block would confuse the phis.
			return outs, nil
		case *ssa.Jump:
			for _, s := range states {
				outs = append(outs, edgeState{b, b.Succs[0], s})
			}
			return outs, nil
		case *ssa.Return:
			for _, s := range states {
				var vals []aval
				for _, r := range in.Results {
					vals = append(vals, e.val(fr, s, r))
				}
				rets = append(rets, retState{s, vals})
			}
			return nil, rets
		case *ssa.Panic:
			for range states {
				e.oblige(fr, in, "panic", false, func() string { return "an explicit panic may be reached" })
			}
			return nil, nil
		}
		var next []*state
		for _, s := range states {
			e.steps++
			e.prep(fr, s, in)
			next = append(next, e.instr(fr, s, in)...)
		}
		states = next
		if len(states) == 0 {
			// Record obligations of explicit panics as reached only.
			return nil, nil
		}
	}
	return outs, rets
}

func maxLen() lin { return lc(1<<31 - 1) }

// val evaluates an SSA value.
func (e *engine) val(fr *frame, st *state, v ssa.Value) aval {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(st, v)
	case *ssa.Global:
		return ptrv{"global:" + v.String(), ""}
	case *ssa.Function:
		return fnv{fn: v}
	case *ssa.Builtin:
		return nil
	}
	return st.env[v]
}

func (e *engine) constVal(st *state, v *ssa.Const) aval {
	if v.Value == nil {
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			return &slv{nilBase, lc(0), lc(0)}
		case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
			return nilv{}
		default:
			return e.zero(u)
		}
	}
	switch v.Value.Kind() {
	case constant.Int:
		if n, ok := constant.Int64Val(v.Value); ok {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return &fltv{op: "const", c: float64(n)}
			}
			return lc(n)
		}
	case constant.Bool:
		return boolConst(constant.BoolVal(v.Value))
	case constant.String:
		return e.strConst(st, constant.StringVal(v.Value))
	case constant.Float:
		f, _ := constant.Float64Val(v.Value)
		return &fltv{op: "const", c: f}
	}
	return nil
}

func (e *engine) strConst(st *state, s string) *slv {
	return &slv{baseID("const:" + s), lc(0), lc(int64(len(s)))}
}

func (e *engine) zero(t types.Type) aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return lc(0)
		case u.Info()&types.IsBoolean != 0:
			return boolConst(false)
		case u.Info()&types.IsString != 0:
			return &slv{"const:", lc(0), lc(0)}
		case u.Info()&types.IsFloat != 0:
			return &fltv{op: "const"}
		}
	case *types.Slice:
		return &slv{nilBase, lc(0), lc(0)}
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return nilv{}
	case *types.Struct:
		var s structv
		for i := 0; i < u.NumFields(); i++ {
			s = append(s, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 16 {
			var s structv
			for i := int64(0); i < u.Len(); i++ {
				s = append(s, e.zero(u.Elem()))
			}
			return s
		}
	}
	return nil
}

// fresh makes an arbitrary value of a type, named by key.
func (e *engine) fresh(st *state, key string, t types.Type) aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return e.freshInt(st, key, t)
		case u.Info()&types.IsBoolean != 0:
			return &cond{op: cOpaque, key: key}
		case u.Info()&types.IsString != 0:
			return e.freshSlice(st, key, true)
		}
		return nil
	case *types.Slice:
		return e.freshSlice(st, key, false)
	case *types.Struct:
		var s structv
		for i := 0; i < u.NumFields(); i++ {
			s = append(s, e.fresh(st, fmt.Sprintf("%s.%d", key, i), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 16 {
			var s structv
			for i := int64(0); i < u.Len(); i++ {
				s = append(s, e.fresh(st, fmt.Sprintf("%s[%d]", key, i), u.Elem()))
			}
			return s
		}
	case *types.Tuple:
		var s tuplev
		for i := 0; i < u.Len(); i++ {
			s = append(s, e.fresh(st, fmt.Sprintf("%s#%d", key, i), u.At(i).Type()))
		}
		return s
	}
	return nil
}

func (e *engine) freshInt(st *state, key string, t types.Type) lin {
	s := symFor(key)
	st.killSym(s)
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			st.sets[s] = allBytes
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			st.cons = append(st.cons, lv(s))
		}
	}
	return lv(s)
}

func (e *engine) freshSlice(st *state, key string, str bool) *slv {
	if str {
		key = "str:" + key
	}
	n := symFor("len:" + key)
	b := baseID(key)
	e.freeBase(st, key)
	st.killSym(n)
	st.cons = append(st.cons, lv(n), maxLen().sub(lv(n)))
	if !str {
		st.newCap(b, lv(n))
	}
	return &slv{b, lc(0), lv(n)}
}

func (st *state) newCap(b baseID, end lin) {
	c := symFor("cap:" + string(b))
	st.killSym(c)
	delete(st.heap, cellKey{"cap:" + string(b), ""})
	st.cons = append(st.cons, lv(c).sub(end))
}

// kill forgets a symbol that is about to be redefined.
func (st *state) kill(s sym) {
	hit := false
	for _, c := range st.cons {
		if c.has(s) {
			hit = true
		}
	}
	if hit {
		keep := map[sym]bool{}
		for _, c := range st.cons {
			for _, x := range c.s {
				if x != s {
					keep[x] = true
				}
			}
		}
		st.cons = eliminate(st.cons, keep)
	}
	var nq []lin
	for _, d := range st.neq {
		if !d.has(s) {
			nq = append(nq, d)
		}
	}
	st.neq = nq
	delete(st.sets, s)
	delete(st.flags, s)
	var el []elemFact
	for _, x := range st.elems {
		ok := !x.idx.has(s)
		for _, v := range x.f {
			if l, is := v.(lin); is && l.has(s) {
				ok = false
			}
		}
		if ok {
			el = append(el, x)
		}
	}
	st.elems = el
}

func (st *state) killBase(b baseID) {
	delete(st.seqs, b)
	delete(st.truth, "nonnil:"+string(b))
	var el []elemFact
	for _, x := range st.elems {
		if x.base != b {
			el = append(el, x)
		}
	}
	st.elems = el
}

// intVal evaluates an integer, inventing a value when unknown.
func (e *engine) intVal(fr *frame, st *state, v ssa.Value) lin {
	x := e.val(fr, st, v)
	if l, ok := x.(lin); ok {
		return l
	}
	l := e.freshInt(st, fr.name(v, "?"), v.Type())
	if isVar(v) {
		st.env[v] = l
	}
	return l
}

func (e *engine) slVal(fr *frame, st *state, v ssa.Value) *slv {
	x := e.val(fr, st, v)
	if s, ok := x.(*slv); ok {
		return s
	}
	_, isStr := v.Type().Underlying().(*types.Basic)
	s := e.freshSlice(st, fr.name(v, "?"), isStr)
	if isVar(v) {
		st.env[v] = s
	}
	return s
}

func (e *engine) cond(fr *frame, st *state, v ssa.Value) *cond {
	x := e.val(fr, st, v)
	if c, ok := x.(*cond); ok {
		return c
	}
	return &cond{op: cOpaque, key: fr.name(v, "?")}
}

// assume restricts st to cond == truth; false if that is impossible.
func (e *engine) assume(st *state, c *cond, truth bool) bool {
	if c.neg {
		truth = !truth
	}
	switch c.op {
	case cConst:
		return c.b == truth
	case cGE:
		if truth {
			return st.add(c.l) && e.settle(st) && st.separate(c.l) && e.beyond(st, c.l)
		}
		return st.add(c.l.neg().addc(-1)) && e.settle(st) && st.separate(c.l) && e.beyond(st, c.l)
	case cEQ:
		if truth {
			return e.assumeEq(st, c.l)
		}
		return st.addNeq(c.l) && e.settle(st)
	case cSet:
		b, ok := st.sets[c.s]
		if !ok {
			return true
		}
		if truth {
			b = b.and(c.yes)
		} else {
			b = b.and(c.no)
		}
		if b.empty() {
			return false
		}
		st.setSet(c.s, b)
		return true
	case cOpaque, cNil:
		if old, ok := st.truth[c.key]; ok && c.key != "" {
			if old != truth {
				return false
			}
			return true
		}
		if c.key != "" {
			st.truth[c.key] = truth
		}
		if c.effect != nil {
			return c.effect(e, st, truth)
		}
		return true
	case cStrEq:
		if truth {
			if !st.addEq(c.x.n.sub(c.y.n)) {
				return false
			}
			return e.sameBytes(st, c.x, c.y) && e.sameBytes(st, c.y, c.x)
		}
		return true
	}
	return true
}

func (e *engine) assumeEq(st *state, l lin) bool {
	// Intersect value sets when two symbols are equal.
	if len(l.s) == 2 && l.c == 0 && l.k[0] == -l.k[1] && (l.k[0] == 1 || l.k[0] == -1) {
		a, ok1 := st.sets[l.s[0]]
		b, ok2 := st.sets[l.s[1]]
		switch {
		case ok1 && ok2:
			a = a.and(b)
		case ok2:
			a, ok1 = b, true
		}
		if ok1 {
			if a.empty() {
				return false
			}
			st.setSet(l.s[0], a)
			st.setSet(l.s[1], a)
		}
	}
	for _, d := range st.neq {
		if d.eq(l) || d.eq(l.neg()) {
			return false
		}
	}
	return st.addEq(l) && e.settle(st)
}

// beyond: an element found to be one past the last is later than any other.
func (e *engine) beyond(st *state, by lin) bool {
	if len(e.horizon.s) == 0 {
		return true
	}
	for _, x := range st.elems {
		q := st.seqs[x.base]
		if q == nil || q.top || q.empty || len(x.f) == len(q.fields) {
			continue
		}
		near := false
		for _, s := range x.idx.s {
			near = near || by.has(s)
		}
		if !near || !st.ge0(x.idx.sub(q.n)) {
			continue
		}
		for _, v := range x.f {
			if l, ok := v.(lin); ok && !st.add(l.sub(e.horizon)) {
				return false
			}
		}
	}
	return true
}

// separate: elements of a sequence whose fields were found to differ are
// different elements.
func (st *state) separate(by lin) bool {
	n := len(st.elems)
	for i := 0; i < n; i++ {
		x := st.elems[i]
		if st.seqs[x.base] == nil {
			continue
		}
		for p, v := range x.f {
			l, ok := v.(lin)
			if !ok || len(l.s) != 1 || !by.has(l.s[0]) {
				continue
			}
			for k := 0; k < n; k++ {
				y := st.elems[k]
				m, ok := y.f[p].(lin)
				if k == i || y.base != x.base || !ok || l.eq(m) {
					continue
				}
				d := x.idx.sub(y.idx)
				if d.isConst() || st.ge0(d.addc(-1)) || st.ge0(d.neg().addc(-1)) {
					continue
				}
				if !st.ge0(l.sub(m).addc(-1)) && !st.ge0(m.sub(l).addc(-1)) {
					continue
				}
				switch {
				case st.ge0(d):
					ok = st.add(d.addc(-1))
				case st.ge0(d.neg()):
					ok = st.add(d.neg().addc(-1))
				}
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

// settle applies disequalities that a new constraint has made sharp.
func (e *engine) settle(st *state) bool {
	if len(st.neq) == 0 || len(st.cons) == 0 {
		return true
	}
	last := st.cons[len(st.cons)-1]
	touch := false
	for _, d := range st.neq {
		for _, s := range d.s {
			if last.has(s) {
				touch = true
			}
		}
	}
	if !touch {
		return true
	}
	n := len(st.cons)
	if st.useNeq(lin{}) {
		for _, c := range st.cons[n:] {
			if infeasibleCons(st.withSets(c), c) {
				return false
			}
		}
	}
	// A disequality that is forced to equality.
	for _, d := range st.neq {
		if st.ge0Plain(d) && st.ge0Plain(d.neg()) {
			return false
		}
	}
	return true
}

func (st *state) ge0Plain(g lin) bool {
	c, ok := st.lb(g)
	return ok && c >= 0
}

// sameBytes copies what is known of the bytes of a constant y to x.
func (e *engine) sameBytes(st *state, x, y *slv) bool {
	if !strings.HasPrefix(string(y.base), "const:") || !y.off.isConst() || !y.n.isConst() || y.n.c > 16 || strings.HasPrefix(string(x.base), "const:") {
		return true
	}
	text := string(y.base)[6:]
	for i := int64(0); i < y.n.c; i++ {
		if !e.knowByte(st, x.base, x.off.addc(i), text[y.off.c+i]) {
			return false
		}
	}
	return true
}

func (e *engine) knowByte(st *state, b baseID, idx lin, c byte) bool {
	var one bset
	one.put(int64(c))
	return e.narrowByte(st, b, idx, one)
}

func (e *engine) narrowByte(st *state, b baseID, idx lin, set bset) bool {
	s := e.byteAt(st, b, idx)
	if s.isConst() {
		return set.has(s.c)
	}
	old, ok := st.linSet(s)
	if !ok {
		return true
	}
	n := old.and(set)
	if n.empty() {
		return false
	}
	st.setSet(s.s[0], n)
	return e.settleElem(st)
}

func (e *engine) settleElem(st *state) bool {
	if len(st.neq) > 0 {
		n := len(st.cons)
		if st.useNeq(lin{}) {
			for _, c := range st.cons[n:] {
				if infeasibleCons(st.withSets(c), c) {
					return false
				}
			}
		}
		for _, d := range st.neq {
			if st.ge0Plain(d) && st.ge0Plain(d.neg()) {
				return false
			}
		}
	}
	return true
}

// byteAt is the byte of a string or byte slice at an absolute index.
func (e *engine) byteAt(st *state, b baseID, idx lin) lin {
	if strings.HasPrefix(string(b), "const:") && idx.isConst() {
		text := string(b)[6:]
		if idx.c >= 0 && idx.c < int64(len(text)) {
			return lc(int64(text[idx.c]))
		}
	}
	if el := st.findElem(b, idx); el != nil {
		if l, ok := el.f[""].(lin); ok {
			return l
		}
	}
	s := symFor("by:" + string(b) + "[" + idx.String() + "]")
	st.killSym(s)
	st.sets[s] = allBytes
	st.elems = append(st.elems, elemFact{b, idx, map[string]aval{"": lv(s)}})
	return lv(s)
}

// summarised reports whether calls of fn are replaced by an arbitrary result:
// fn takes and returns only strings and booleans, touches nothing else, and
// was proved free of panics and endless loops for arbitrary arguments.
func (e *engine) summarised(fn *ssa.Function) bool {
	if ok, done := e.sums[fn]; done {
		return ok
	}
	if e.sums == nil {
		e.sums = map[*ssa.Function]bool{}
	}
	e.sums[fn] = false
	plain := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsString|types.IsBoolean) != 0
	}
	sig := fn.Signature
	if sig.Recv() != nil || len(fn.FreeVars) > 0 || sig.Results().Len() == 0 {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !plain(sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !plain(sig.Results().At(i).Type()) {
			return false
		}
	}
	if !e.selfContained(fn, map[*ssa.Function]bool{}) {
		return false
	}
	sub := newEngine(e.w)
	sub.infos, sub.sums, sub.written, sub.patterns = e.infos, e.sums, e.written, e.patterns
	sub.trace = false
	st := newState()
	var args []aval
	for _, p := range fn.Params {
		args = append(args, sub.fresh(st, "sum:"+p.Name(), p.Type()))
	}
	sub.runFn(fn, "sum:"+fn.Name(), 0, args, nil, st)
	e.steps += sub.steps
	if len(sub.why) > 0 {
		return false
	}
	for _, o := range sub.obs {
		if !o.ok {
			return false
		}
	}
	for _, o := range sub.loops {
		if !o.ok {
			return false
		}
	}
	for k, o := range sub.obs {
		if e.obs[k] == nil {
			e.obs[k] = o
		}
	}
	for k, o := range sub.loops {
		if e.loops[k] == nil {
			e.loops[k] = o
		}
	}
	for n, k := range sub.calls {
		e.calls[n] += k
	}
	e.sums[fn] = true
	return true
}

// selfContained reports whether fn and what it calls in the repository use no
// package variable beyond reading plain ones, and call nothing dynamically.
func (e *engine) selfContained(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if fn.Blocks == nil {
		return true // modelled by name, or undecided in the analysis of the body
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && e.w.SPkg[g.Pkg.Pkg.Path()] != nil {
					u, ok := in.(*ssa.UnOp)
					if !ok {
						return false
					}
					if _, ok := u.Type().Underlying().(*types.Basic); !ok {
						return false
					}
				}
			}
			switch in := in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				c := in.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					return false
				}
				if !e.selfContained(f, seen) {
					return false
				}
			}
		}
	}
	return true
}
