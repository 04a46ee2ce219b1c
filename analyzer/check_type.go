package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["T01"] = checkT01
	checks["T02"] = checkT02
	checks["T03"] = checkT03
}

// The documented requirement bits, weakest to strongest, then the two that
// combine by union.
var shareOrder = []string{"Unrestricted", "Notice", "ShareChanges", "ShareProgram", "ShareServer"}
var unionBits = []string{"NonCommercial", "Discouraged"}

func (w *World) typeConsts() map[string]uint64 {
	out := map[string]uint64{}
	p := w.SPkg[rootPath]
	T := p.Type("Type")
	if T == nil {
		return nil
	}
	for _, m := range p.Members {
		if c, ok := m.(*ssa.NamedConst); ok && types.Identical(c.Type(), T.Type()) && token.IsExported(c.Name()) {
			if n, exact := constant.Uint64Val(c.Value.Value); exact {
				out[c.Name()] = n
			}
		}
	}
	return out
}

// T01: the Type constants form a bit set and every name table agrees with them.
func checkT01(w *World, r *Report) {
	r.Rule = "Evaluate the exported constants of type Type and every package-level table that pairs a Type with a name: Unknown is 0, every other constant is one distinct bit, the documented constants exist, and each table of (Type, name) pairs lists every constant exactly once under its own name; String writes each constant as its name and ParseType reads it back (known-bits interpretation of both on each constant)."
	r.Minimums["type constants"] = 8
	r.Minimums["name table rows"] = 8
	cs := w.typeConsts()
	r.Counts["type constants"] = len(cs)
	var names []string
	for n := range cs {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[uint64]string{}
	for _, n := range names {
		v := cs[n]
		pos := w.Pos(w.SPkg[rootPath].Const(n).Pos())
		if n == "Unknown" {
			r.check(v == 0, "constant", n, pos, "Unknown is zero")
		} else {
			r.check(v != 0 && v&(v-1) == 0, "constant", n, pos, fmt.Sprintf("%#x is a single bit", v))
		}
		if o, dup := seen[v]; dup {
			r.bad("constant", n, pos, "has the same value as "+o)
		}
		seen[v] = n
	}
	for _, n := range append(append([]string{"Unknown"}, shareOrder...), unionBits...) {
		if _, ok := cs[n]; !ok {
			r.bad("constant", n, "-", "documented constant is missing")
		}
	}
	// Tables.
	used := map[string]bool{}
	for _, m := range w.SPkg[rootPath].Members {
		g, ok := m.(*ssa.Global)
		if !ok || g.Object() == nil {
			continue
		}
		rows, ok := w.typeNameTable(g)
		if !ok {
			continue
		}
		used[g.Name()] = true
		r.check(!w.writtenGlobals()[g], "name-table", g.Name(), w.Pos(g.Pos()), "the table is never modified")
		count := map[string]int{}
		for _, row := range rows {
			r.Counts["name table rows"]++
			want, ok := cs[row.name]
			r.check(ok && want == row.val, "name-table", g.Name()+" row "+row.name, w.Pos(row.pos), fmt.Sprintf("pairs %q with the constant of that name (value %#x)", row.name, row.val))
			count[row.name]++
		}
		for _, n := range names {
			r.check(count[n] == 1, "name-table", g.Name()+" covers "+n, w.Pos(g.Pos()), fmt.Sprintf("lists %s exactly once (%d)", n, count[n]))
		}
	}
	// String and ParseType use these names.
	vi, why := w.newVinterp(w.SPkg[rootPath])
	for _, ep := range w.entries(r, "Type.String", "ParseType") {
		for _, n := range names {
			var got interface{}
			stop := viStop{why: why}
			if why == "" {
				stop = vi.try(func() {
					if ep.name == "ParseType" {
						got = vi.call(ep.fn, []interface{}{vlit(n)}, nil, 0)
					} else {
						got = vi.call(ep.fn, []interface{}{kconst(cs[n])}, nil, 0)
					}
				})
			}
			ok := false
			what := stop.why
			if what == "" {
				what = fmt.Sprintf("value %#x and name %q go together", cs[n], n)
			}
			if t, is := got.(vtuple); is && len(t) == 2 {
				k, _ := t[0].(kbits)
				ok = k == kconst(cs[n]) && t[1] == (vnil{})
			} else if s, is := got.(vstr); is {
				l, isLit := s.literal()
				ok = isLit && l == n
			}
			r.check(ok, "names-used", ep.name+" of "+n, w.Pos(ep.fn.Pos()), what)
		}
	}
	// Every combination of documented bits is printed as its names, each once,
	// with a number only for bits that have no name.
	var bits []string
	var all uint64
	for _, n := range names {
		if cs[n] != 0 {
			bits = append(bits, n)
			all |= cs[n]
		}
	}
	extra := uint64(1) << 40
	if all&extra != 0 || len(bits) > 12 || why != "" {
		return
	}
	for _, ep := range w.entries(r, "Type.String") {
		bad, n := "", 0
		for m := 1; m < 1<<uint(len(bits)) && bad == ""; m++ {
			var val uint64
			var want []string
			for i, b := range bits {
				if m>>uint(i)&1 != 0 {
					val |= cs[b]
					want = append(want, b)
				}
			}
			for _, x := range []uint64{0, extra} {
				n++
				w2 := append([]string{}, want...)
				if x != 0 {
					w2 = append(w2, fmt.Sprintf("Type(%#x)", x))
				}
				var got interface{}
				if stop := vi.try(func() { got = vi.call(ep.fn, []interface{}{kconst(val | x)}, nil, 0) }); stop.why != "" {
					bad = fmt.Sprintf("%#x: %s", val|x, stop.why)
					break
				}
				sv, is := got.(vstr)
				l, isLit := "", false
				if is {
					l, isLit = sv.literal()
				}
				if is && !isLit && x != 0 {
					// The number is kept symbolic: compare what comes before it.
					l, isLit = strings.SplitN(sv.String(), "Type(", 2)[0]+w2[len(w2)-1], true
				}
				gotParts := strings.Split(l, "|")
				sort.Strings(gotParts)
				sort.Strings(w2)
				if !isLit || strings.Join(gotParts, "|") != strings.Join(w2, "|") {
					bad = fmt.Sprintf("%#x is printed as %v, want %s", val|x, got, strings.Join(w2, "|"))
				}
			}
		}
		r.Counts["type combinations printed"] = n
		r.check(bad == "", "names-of-set-bits", ep.name, w.Pos(ep.fn.Pos()), orText(bad, fmt.Sprintf("%d combinations print the names of exactly the bits that are set", n)))
	}
}

type typeNameRow struct {
	val  uint64
	name string
	pos  token.Pos
}

// typeNameTable decodes a package variable that pairs Type values with names:
// a slice or array of structs with one Type and one string field, a
// map[Type]string, or a map[string]Type.
func (w *World) typeNameTable(g *ssa.Global) ([]typeNameRow, bool) {
	T := w.SPkg[rootPath].Type("Type").Type()
	isT := func(t types.Type) bool { return types.Identical(t, T) }
	isS := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	gt := g.Type().(*types.Pointer).Elem().Underlying()
	init, info := w.globalInit(g.Object())
	if init == nil {
		return nil, false
	}
	var tf, sf = -1, -1
	kind := ""
	switch u := gt.(type) {
	case *types.Map:
		if isT(u.Key()) && isS(u.Elem()) {
			kind = "ts"
		} else if isS(u.Key()) && isT(u.Elem()) {
			kind = "st"
		}
	case *types.Slice, *types.Array:
		var el types.Type
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
		} else {
			el = u.(*types.Array).Elem()
		}
		if p, ok := el.Underlying().(*types.Pointer); ok {
			el = p.Elem()
		}
		if st, ok := el.Underlying().(*types.Struct); ok && st.NumFields() == 2 {
			for i := 0; i < 2; i++ {
				if isT(st.Field(i).Type()) {
					tf = i
				}
				if isS(st.Field(i).Type()) {
					sf = i
				}
			}
			if tf >= 0 && sf >= 0 {
				kind = "struct"
			}
		}
	}
	if kind == "" {
		return nil, false
	}
	rows, info2, ok := w.literalRows(g)
	if !ok {
		return nil, false
	}
	_ = info
	var out []typeNameRow
	for _, row := range rows {
		var te, se = row.key, row.val
		switch kind {
		case "st":
			te, se = row.val, row.key
		case "struct":
			te, se = structField(info2, row.val, tf), structField(info2, row.val, sf)
		}
		var x typeNameRow
		x.pos = row.val.Pos()
		if te != nil {
			tv := info2.Types[te]
			if tv.Value == nil {
				return nil, false
			}
			x.val, _ = constant.Uint64Val(constant.ToInt(tv.Value))
		}
		if se != nil {
			s, ok := constString(info2, se)
			if !ok {
				return nil, false
			}
			x.name = s
		}
		out = append(out, x)
	}
	return out, true
}

// T02: Merge follows its documented rules for every pair of types.
func checkT02(w *World, r *Report) {
	r.Rule = "Abstract interpretation of Merge over known bits: the input pairs are partitioned by zero-ness and by which documented bits are set where the rule needs it; all other bits stay unknown. On each partition every execution path is interpreted with unknown branches split, and the known bits of the result must equal the documented rule."
	r.Minimums["input partitions"] = 40
	eps := w.entries(r, "Type.Merge")
	cs := w.typeConsts()
	if len(eps) == 0 || len(cs) < 8 {
		return
	}
	fn := eps[0].fn
	var all uint64
	for _, v := range cs {
		all |= v
	}
	vi, why := w.newVinterp(w.SPkg[rootPath])
	if why != "" {
		r.bad("merge-rule", "package initialisation", w.Pos(fn.Pos()), why)
		return
	}
	run := func(name string, t, u kbits, want kbits) {
		r.Counts["input partitions"]++
		ip := &kbInterp{vi: vi}
		outs, err := ip.split(fn, []kbits{t, u}, want)
		r.Counts["abstract paths"] += ip.paths
		if err != "" {
			r.bad("merge-rule", name, w.Pos(fn.Pos()), err)
			return
		}
		_ = outs
		r.ok("merge-rule", name, w.Pos(fn.Pos()), fmt.Sprintf("result bits known as documented on all %d abstract paths", ip.paths))
	}
	// Bits above the documented ones may be set too; they never survive.
	const bit0 = 1
	unk := func(set, clear uint64) kbits { return kbits{one: set, zero: clear | bit0} }
	zero := kbits{zero: ^uint64(0)}
	// Unknown is absorbing. The other operand: zero, or each single bit known set with the rest unknown.
	run("Unknown with Unknown", zero, zero, zero)
	var bits []string
	bits = append(append(bits, shareOrder...), unionBits...)
	for _, b := range bits {
		run("Unknown with "+b+"|...", zero, unk(cs[b], 0), zero)
		run(b+"|... with Unknown", unk(cs[b], 0), zero, zero)
	}
	// Both non-zero: by strongest share bit (who has it) and the union bits.
	who := []string{"left", "right", "both"}
	for hi := -1; hi < len(shareOrder); hi++ {
		var higher uint64
		for i := hi + 1; i < len(shareOrder); i++ {
			higher |= cs[shareOrder[i]]
		}
		for w1 := 0; w1 < 3; w1++ {
			if hi < 0 && w1 > 0 {
				continue
			}
			for nc := 0; nc < 4; nc++ {
				for dc := 0; dc < 4; dc++ {
					t, u := unk(0, higher), unk(0, higher)
					var res kbits
					res.zero = higher | ^all
					name := "no share bit"
					if hi >= 0 {
						b := cs[shareOrder[hi]]
						name = "strongest " + shareOrder[hi] + " (" + who[w1] + ")"
						if w1 != 1 {
							t.one |= b
						} else {
							t.zero |= b
						}
						if w1 != 0 {
							u.one |= b
						} else {
							u.zero |= b
						}
						res.one |= b
						for i := 0; i < hi; i++ {
							res.zero |= cs[shareOrder[i]]
						}
					}
					set := func(b uint64, mode int, label string) {
						if mode&1 != 0 {
							t.one |= b
						} else {
							t.zero |= b
						}
						if mode&2 != 0 {
							u.one |= b
						} else {
							u.zero |= b
						}
						if mode != 0 {
							res.one |= b
							name += ", " + label + " " + []string{"", "left", "right", "both"}[mode]
						} else {
							res.zero |= b
						}
					}
					set(cs["NonCommercial"], nc, "NonCommercial")
					set(cs["Discouraged"], dc, "Discouraged")
					if hi == 0 && nc != 0 {
						// NonCommercial drops Unrestricted.
						res.one &^= cs["Unrestricted"]
						res.zero |= cs["Unrestricted"]
					}
					// Exclude the zero operands: covered above.
					for _, sp := range nonZeroSplits(t, ^uint64(bit0)) {
						for _, sq := range nonZeroSplits(u, ^uint64(bit0)) {
							run(name, sp, sq, res)
						}
					}
				}
			}
		}
	}
	r.Assume = append(r.Assume, "the bit below Unrestricted, which no constant uses, is clear in both operands")
}

// nonZeroSplits partitions the non-zero members of k: if no bit is known set,
// by the highest set bit.
func nonZeroSplits(k kbits, all uint64) []kbits {
	if k.one != 0 {
		return []kbits{k}
	}
	var out []kbits
	free := all &^ k.zero
	for b := uint64(1) << 63; b != 0; b >>= 1 {
		if free&b == 0 {
			continue
		}
		x := k
		x.one |= b
		out = append(out, x)
		k.zero |= b
	}
	return out
}

// kbits is a set of machine words described by known-one and known-zero bits.
type kbits struct{ one, zero uint64 }

func (k kbits) const_() (uint64, bool) {
	if k.one|k.zero == ^uint64(0) {
		return k.one, true
	}
	return 0, false
}

func kconst(v uint64) kbits { return kbits{v, ^v} }

type kbInterp struct {
	vi    *vinterp
	paths int
}

// kboolUnknown is a boolean that depends on the given input bits.
type kboolUnknown uint64

// run interprets fn; returns (result, "", 0), or ("split", bits to split on).
func (ip *kbInterp) run(fn *ssa.Function, args []kbits) (res kbits, problem string, bit uint64) {
	stop := ip.vi.try(func() {
		var as []interface{}
		for _, a := range args {
			as = append(as, a)
		}
		k, ok := ip.vi.call(fn, as, nil, 0).(kbits)
		if !ok {
			panic(viStop{why: "the result is not known (undecided)"})
		}
		res = k
	})
	return res, stop.why, stop.bits
}

func kbCall(name string, as []kbits) (interface{}, bool, uint64) {
	hi := func(k kbits) (int, bool, uint64) { // bits.Len
		for b := 63; b >= 0; b-- {
			m := uint64(1) << uint(b)
			if k.one&m != 0 {
				return b + 1, true, 0
			}
			if k.zero&m == 0 {
				return 0, false, m
			}
		}
		return 0, true, 0
	}
	switch name {
	case "math/bits.Len", "math/bits.Len64":
		n, ok, need := hi(as[0])
		return kconst(uint64(n)), ok, need
	case "math/bits.LeadingZeros", "math/bits.LeadingZeros64":
		n, ok, need := hi(as[0])
		return kconst(uint64(64 - n)), ok, need
	}
	return nil, false, 0
}

func kbinop(op token.Token, x, y kbits) interface{} {
	cx, okx := x.const_()
	cy, oky := y.const_()
	if okx && oky {
		switch op {
		case token.ADD:
			return kconst(cx + cy)
		case token.SUB:
			return kconst(cx - cy)
		case token.MUL:
			return kconst(cx * cy)
		case token.LSS:
			return cx < cy
		case token.GTR:
			return cx > cy
		case token.LEQ:
			return cx <= cy
		case token.GEQ:
			return cx >= cy
		}
	}
	unknown := kboolUnknown(^(x.one | x.zero) | ^(y.one | y.zero))
	switch op {
	case token.AND:
		return kbits{x.one & y.one, x.zero | y.zero}
	case token.OR:
		return kbits{x.one | y.one, x.zero & y.zero}
	case token.XOR:
		k := (x.one | x.zero) & (y.one | y.zero)
		v := (x.one ^ y.one) & k
		return kbits{v, k &^ v}
	case token.AND_NOT:
		return kbits{x.one & y.zero, x.zero | y.one}
	case token.SHL, token.SHR:
		if !oky || cy > 63 {
			if oky {
				return kconst(0)
			}
			return nil
		}
		if op == token.SHL {
			return kbits{x.one << cy, x.zero<<cy | (1<<cy - 1)}
		}
		return kbits{x.one >> cy, x.zero>>cy | ^(^uint64(0) >> cy)}
	case token.EQL, token.NEQ:
		if x.one&y.zero|x.zero&y.one != 0 {
			return op == token.NEQ
		}
		if okx && oky {
			return (cx == cy) == (op == token.EQL)
		}
		return unknown
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		minx, maxx := x.one, ^x.zero
		miny, maxy := y.one, ^y.zero
		switch op {
		case token.LSS:
			if maxx < miny {
				return true
			}
			if minx >= maxy {
				return false
			}
		case token.GTR:
			if minx > maxy {
				return true
			}
			if maxx <= miny {
				return false
			}
		case token.LEQ:
			if maxx <= miny {
				return true
			}
			if minx > maxy {
				return false
			}
		case token.GEQ:
			if minx >= maxy {
				return true
			}
			if maxx < miny {
				return false
			}
		}
		return unknown
	case token.SUB:
		// x - y with y's ones a subset of x's ones: no borrow.
		if oky && x.one&cy == cy {
			return kbits{x.one &^ cy, x.zero | cy}
		}
		if okx {
			return nil
		}
	case token.ADD:
		// disjoint bits: no carry
		if ^x.zero&^y.zero == 0 {
			return kbits{x.one | y.one, x.zero & y.zero}
		}
	}
	return nil
}

// split interprets fn on args; if an unknown branch makes the result imprecise
// the branch is split both ways (refining the tested bits when possible).
func (ip *kbInterp) split(fn *ssa.Function, args []kbits, want kbits) ([]kbits, string) {
	var outs []kbits
	errs := ""
	var rec func(args []kbits, depth int)
	rec = func(args []kbits, depth int) {
		if errs != "" {
			return
		}
		res, problem, bit := ip.run(fn, args)
		if problem == "split" {
			if depth > 20 {
				errs = "cannot decide (undecided)"
				return
			}
			for i := range args {
				if unknown := ^(args[i].one | args[i].zero); unknown&bit != 0 {
					b := unknown & bit
					b &= -b
					a1 := append([]kbits{}, args...)
					a1[i].one |= b
					rec(a1, depth+1)
					a2 := append([]kbits{}, args...)
					a2[i].zero |= b
					if a2[i].one != 0 || a2[i].zero != ^uint64(0) {
						rec(a2, depth+1)
					} else {
						rec(a2, depth+1)
					}
					return
				}
			}
			errs = "cannot decide a branch (undecided)"
			return
		}
		if problem != "" {
			errs = problem
			return
		}
		ip.paths++
		outs = append(outs, res)
		if res.one&want.zero != 0 {
			errs = fmt.Sprintf("result has bits %#x that the documented rule clears (inputs with bits %#x and %#x set)", res.one&want.zero, args[0].one, args[1].one)
			return
		}
		if res.zero&want.one != 0 {
			errs = fmt.Sprintf("result lacks bits %#x that the documented rule sets (inputs with bits %#x and %#x set)", res.zero&want.one, args[0].one, args[1].one)
			return
		}
		miss := (want.one &^ res.one) | (want.zero &^ res.zero)
		if miss != 0 {
			// Imprecise: split on an unknown input bit.
			for i := range args {
				if unknown := ^(args[i].one | args[i].zero); unknown != 0 && depth <= 20 {
					b := unknown & miss
					if b == 0 {
						b = unknown
					}
					b &= -b
					ip.paths--
					a1 := append([]kbits{}, args...)
					a1[i].one |= b
					rec(a1, depth+1)
					a2 := append([]kbits{}, args...)
					a2[i].zero |= b
					rec(a2, depth+1)
					return
				}
			}
			errs = fmt.Sprintf("bits %#x of the result are not determined", miss)
		}
	}
	rec(args, 0)
	return outs, errs
}

// T03: formatting a type and parsing the text gives the type back.
func checkT03(w *World, r *Report) {
	r.Rule = "Abstract interpretation of String and ParseType over known bits and structured strings (literal pieces and written-out numbers): the types are partitioned by every combination of documented bits and by the highest undocumented bit, the lower ones staying unknown; on each part ParseType of the result of String must be the same type and a nil error. Each undocumented bit in turn is then made known to show that it comes back in its own place. Lists of names and numbers in any order must give the union; a part that is neither must give an error."
	r.Minimums["round trips"] = 128
	cs := w.typeConsts()
	var str, parse *ssa.Function
	for _, ep := range w.entries(r, "Type.String", "ParseType") {
		if ep.name == "ParseType" {
			parse = ep.fn
		} else {
			str = ep.fn
		}
	}
	if str == nil || parse == nil || len(cs) < 8 {
		return
	}
	vi, why := w.newVinterp(w.SPkg[rootPath])
	if why != "" {
		r.bad("round-trip", "package initialisation", w.Pos(str.Pos()), why)
		return
	}
	var all uint64
	var names []string
	for n, v := range cs {
		all |= v
		names = append(names, n)
	}
	sort.Strings(names)
	describe := func(t kbits) string {
		s := ""
		for _, n := range names {
			if cs[n] != 0 && t.one&cs[n] != 0 {
				s += "|" + n
			}
		}
		if rest := t.one &^ all; rest != 0 {
			s += fmt.Sprintf("|%#x...", rest)
		} else if t.zero|t.one != ^uint64(0) {
			s += "|..."
		}
		if s == "" {
			return "Unknown"
		}
		return s[1:]
	}
	parseOf := func(s vstr) (k kbits, failed bool, why string) {
		stop := vi.try(func() {
			t, ok := vi.call(parse, []interface{}{s}, nil, 0).(vtuple)
			if !ok || len(t) != 2 {
				panic(viStop{why: "ParseType's result is not known (undecided)"})
			}
			switch t[1].(type) {
			case vnil:
			case viface:
				failed = true
			default:
				panic(viStop{why: "ParseType's error is not known (undecided)"})
			}
			if k, ok = t[0].(kbits); !ok && !failed {
				panic(viStop{why: "ParseType's result is not known (undecided)"})
			}
		})
		return k, failed, stop.why
	}
	problem := func(why string) string {
		if why == "split" {
			return "depends on bits that are not known (undecided)"
		}
		return why
	}
	// trip checks one part; only the bits in mask need to come back known.
	trip := func(t kbits, mask uint64) {
		r.Counts["round trips"]++
		name := describe(t)
		var s vstr
		stop := vi.try(func() {
			var ok bool
			if s, ok = vi.call(str, []interface{}{t}, nil, 0).(vstr); !ok {
				panic(viStop{why: "the text is not known (undecided)"})
			}
		})
		if stop.why != "" {
			r.bad("round-trip", name, w.Pos(str.Pos()), "String: "+problem(stop.why))
			return
		}
		k, failed, why := parseOf(s)
		switch {
		case why != "":
			r.bad("round-trip", name, w.Pos(parse.Pos()), "ParseType of "+s.String()+": "+problem(why))
		case failed:
			r.bad("round-trip", name, w.Pos(parse.Pos()), "ParseType of "+s.String()+" fails")
		case k.one&t.zero|k.zero&t.one != 0:
			r.bad("round-trip", name, w.Pos(parse.Pos()), fmt.Sprintf("ParseType of %s gives another type: bits %#x differ", s, k.one&t.zero|k.zero&t.one))
		case (t.one|t.zero)&^(k.one|k.zero)&mask != 0:
			r.bad("round-trip", name, w.Pos(parse.Pos()), fmt.Sprintf("ParseType of %s: bits %#x are not determined", s, (t.one|t.zero)&^(k.one|k.zero)))
		default:
			r.ok("round-trip", name, w.Pos(str.Pos()), "formats as "+s.String()+" and parses back")
		}
	}
	docs := []uint64{0}
	for _, n := range names {
		if cs[n] != 0 {
			for _, d := range docs {
				docs = append(docs, d|cs[n])
			}
		}
	}
	for _, d := range docs {
		t := kbits{one: d, zero: ^d}
		trip(t, ^uint64(0))
		for _, x := range nonZeroSplits(kbits{zero: all}, ^uint64(0)) {
			t := kbits{one: d | x.one, zero: x.zero&^all | all&^d}
			trip(t, ^uint64(0))
			if d != 0 && d != all {
				continue
			}
			for b := uint64(1); b != 0; b <<= 1 {
				if (t.one|t.zero)&b == 0 {
					trip(kbits{t.one | b, t.zero}, ^uint64(0))
					trip(kbits{t.one, t.zero | b}, ^uint64(0))
				}
			}
		}
	}
	// Lists.
	type part struct {
		s    vstr
		want kbits
	}
	var parts []part
	for _, n := range names {
		parts = append(parts, part{vlit(n), kconst(cs[n])})
	}
	for _, x := range []kbits{{}, {one: 1 << 40}, kconst(6)} {
		num := vstr{{num: &numText{x, 16}}}
		if c, ok := x.const_(); ok {
			num = vlit(fmt.Sprintf("%x", c))
		}
		parts = append(parts, part{vlit("Type(0x").concat(num).concat(vlit(")")), x})
	}
	check := func(list ...part) {
		r.Counts["lists"]++
		var s vstr
		want := kconst(0)
		for i, p := range list {
			if i > 0 {
				s = s.concat(vlit("|"))
			}
			s = s.concat(p.s)
			want = kbits{want.one | p.want.one, want.zero & p.want.zero}
		}
		k, failed, why := parseOf(s)
		switch {
		case why != "":
			r.bad("list", s.String(), w.Pos(parse.Pos()), "ParseType of "+s.String()+": "+problem(why))
		case failed:
			r.bad("list", s.String(), w.Pos(parse.Pos()), "ParseType of "+s.String()+" fails")
		case k != want:
			r.bad("list", s.String(), w.Pos(parse.Pos()), fmt.Sprintf("ParseType of %s gives bits %#x set and %#x clear, want %#x and %#x", s, k.one, k.zero, want.one, want.zero))
		default:
			r.ok("list", s.String(), w.Pos(parse.Pos()), "gives the union of its parts")
		}
	}
	for _, p := range parts {
		check(p)
		for _, q := range parts {
			check(p, q)
			for _, o := range parts {
				check(p, q, o)
			}
		}
	}
	other := vstr{{num: &numText{}}}
	bad := []vstr{other, other.concat(vlit("|Notice")), vlit("Notice|").concat(other), vlit(""), vlit("Notice|"), vlit("|Notice"), vlit("Type()"), vlit("Type(0xz)"), vlit("Type(0x10000000000000000)")}
	for _, n := range names {
		bad = append(bad, vlit(strings.ToLower(n)), vlit(strings.ToUpper(n)), vlit(n[1:]), vlit(n[:len(n)-1]), vlit(n).concat(other))
	}
	for _, s := range bad {
		vi.every(func() bool {
			_, failed, why := parseOf(s)
			switch {
			case why != "":
				r.bad("error", s.String(), w.Pos(parse.Pos()), "ParseType of "+s.String()+": "+problem(why))
			case !failed:
				r.bad("error", s.String(), w.Pos(parse.Pos()), "ParseType of "+s.String()+" must be an error")
			default:
				r.ok("error", s.String(), w.Pos(parse.Pos()), "is an error")
				return true
			}
			return false
		})
	}
	// A single bit is written as its name, a number as Type(number).
	for _, n := range names {
		var s vstr
		stop := vi.try(func() { s, _ = vi.call(str, []interface{}{kconst(cs[n])}, nil, 0).(vstr) })
		got, ok := s.literal()
		r.check(stop.why == "" && ok && got == n, "name", n, w.Pos(str.Pos()), "is written as its name: "+s.String())
	}
}

func (a vstr) String() string {
	s := ""
	for _, p := range a {
		switch {
		case p.num == nil:
			s += p.lit
		case p.num.base == 0:
			s += "<other text>"
		default:
			s += "<number>"
		}
	}
	return fmt.Sprintf("%q", s)
}
