package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = checkC12
}

// The table domain: an abstract value is a partial map from the members of an
// input class to constants. A class is interpreted once, all members together;
// a branch whose condition differs between members splits the class.
type tval struct {
	k     []int64 // one value per member; booleans are 0 and 1
	bytes [][]byte
	str   []string
}

type tableInterp struct {
	w     *World
	why   string
	steps int
	unk   map[string]bool
}

type tclass struct {
	members []int // indexes of the class members on this path
}

func (ti *tableInterp) fail(f string, args ...interface{}) {
	if ti.why == "" {
		ti.why = fmt.Sprintf(f, args...)
	}
}

// run interprets f for a class; args[i] gives the values of parameter i per member.
// It returns the results per member.
func (ti *tableInterp) run(f *ssa.Function, n int, args [][]int64, depth int) []int64 {
	res := make([]int64, n)
	if depth > 6 || len(f.Blocks) == 0 {
		ti.fail("call of %s cannot be interpreted (undecided)", shortFn(f))
		return res
	}
	env := map[ssa.Value][]int64{}
	for i, p := range f.Params {
		if i < len(args) && args[i] != nil {
			env[p] = args[i]
		}
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	ti.block(f, f.Blocks[0], nil, all, n, env, res, depth)
	return res
}

func (ti *tableInterp) get(env map[ssa.Value][]int64, v ssa.Value, n int) []int64 {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		var c int64
		switch k.Value.Kind() {
		case constant.Int:
			c, _ = constant.Int64Val(k.Value)
		case constant.Bool:
			if constant.BoolVal(k.Value) {
				c = 1
			}
		default:
			ti.fail("constant %s is outside the domain (undecided)", k)
		}
		out := make([]int64, n)
		for i := range out {
			out[i] = c
		}
		return out
	}
	if x, ok := env[v]; ok {
		return x
	}
	ti.fail("value %s is outside the domain (undecided)", v)
	return make([]int64, n)
}

func (ti *tableInterp) block(f *ssa.Function, b, from *ssa.BasicBlock, mem []int, n int, env map[ssa.Value][]int64, res []int64, depth int) {
	for {
		ti.steps++
		if ti.why != "" {
			return
		}
		if ti.steps > 2000000 {
			ti.fail("does not converge (undecided)")
			return
		}
		if from != nil {
			upd := map[ssa.Value][]int64{}
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				upd[phi] = ti.get(env, edgeValue(phi, from), n)
			}
			for k, v := range upd {
				env[k] = v
			}
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Return:
				v := ti.get(env, in.Results[0], n)
				for _, m := range mem {
					res[m] = v[m]
				}
				return
			case *ssa.Panic:
				ti.fail("%s may panic", shortFn(f))
				return
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := ti.get(env, in.Cond, n)
				var t, e []int
				for _, m := range mem {
					if c[m] != 0 {
						t = append(t, m)
					} else {
						e = append(e, m)
					}
				}
				if len(t) > 0 && len(e) > 0 {
					env2 := map[ssa.Value][]int64{}
					for k, v := range env {
						env2[k] = v
					}
					ti.block(f, b.Succs[0], b, t, n, env, res, depth)
					ti.block(f, b.Succs[1], b, e, n, env2, res, depth)
					return
				}
				if len(t) > 0 {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.BinOp:
				x, y := ti.get(env, in.X, n), ti.get(env, in.Y, n)
				out := make([]int64, n)
				for _, m := range mem {
					out[m] = ti.bin(in.Op, x[m], y[m], in.Type())
				}
				env[in] = out
			case *ssa.UnOp:
				switch in.Op {
				case token.NOT, token.SUB:
					x := ti.get(env, in.X, n)
					out := make([]int64, n)
					for _, m := range mem {
						if in.Op == token.NOT {
							out[m] = 1 - x[m]
						} else {
							out[m] = -x[m]
						}
					}
					env[in] = out
				case token.MUL:
					// A Unicode table: looked at where it is used.
					if gl, ok := in.X.(*ssa.Global); !ok || gl.Pkg == nil || gl.Pkg.Pkg.Path() != "unicode" {
						ti.fail("%s reads memory (undecided)", shortFn(f))
						return
					}
				default:
					ti.fail("%s reads memory (undecided)", shortFn(f))
					return
				}
			case *ssa.Alloc:
				if in.Comment != "varargs" {
					ti.fail("%s in %s is outside the domain (undecided)", in, shortFn(f))
					return
				}
			case *ssa.IndexAddr, *ssa.Slice, *ssa.Store:
				if !varArgs(in) {
					ti.fail("%s in %s is outside the domain (undecided)", in, shortFn(f))
					return
				}
			case *ssa.Convert:
				x := ti.get(env, in.X, n)
				out := make([]int64, n)
				for _, m := range mem {
					out[m] = truncTo(x[m], in.Type())
				}
				env[in] = out
			case *ssa.ChangeType:
				env[in] = ti.get(env, in.X, n)
			case *ssa.Call:
				g := in.Call.StaticCallee()
				if g == nil {
					ti.fail("dynamic call in %s (undecided)", shortFn(f))
					return
				}
				var args [][]int64
				for _, a := range in.Call.Args {
					if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
						args = append(args, ti.get(env, a, n))
					} else {
						args = append(args, nil)
					}
				}
				if fn, ok := unicodeFuncs[g.String()]; ok {
					out := make([]int64, n)
					for _, m := range mem {
						out[m] = fn(rune(args[0][m]))
					}
					env[in] = out
					continue
				}
				if g.String() == "unicode.Is" || g.String() == "unicode.In" {
					var tabs []*unicode.RangeTable
					arg := args[0]
					if g.String() == "unicode.Is" {
						arg = args[1]
						if t := rangeTable(in.Call.Args); t != nil {
							tabs = append(tabs, t)
						}
					} else {
						tabs = rangeTables(in.Call.Args[1])
					}
					if len(tabs) == 0 || arg == nil {
						ti.fail("unknown unicode table in %s (undecided)", shortFn(f))
						return
					}
					out := make([]int64, n)
					for _, m := range mem {
						out[m] = b2i(unicode.In(rune(arg[m]), tabs...))
					}
					env[in] = out
					continue
				}
				if g.String() == "strings.ContainsRune" || g.String() == "strings.IndexRune" {
					k, ok := in.Call.Args[0].(*ssa.Const)
					if !ok || k.Value == nil || args[1] == nil {
						ti.fail("search in an unknown string in %s (undecided)", shortFn(f))
						return
					}
					out := make([]int64, n)
					for _, m := range mem {
						out[m] = int64(strings.IndexRune(constant.StringVal(k.Value), rune(args[1][m])))
						if g.String() == "strings.ContainsRune" {
							out[m] = b2i(out[m] >= 0)
						}
					}
					env[in] = out
					continue
				}
				// A helper: interpret it for the members on this path.
				sub := make([][]int64, len(args))
				for i, a := range args {
					if a == nil {
						continue
					}
					for _, m := range mem {
						sub[i] = append(sub[i], a[m])
					}
				}
				rs := ti.run(g, len(mem), sub, depth+1)
				out := make([]int64, n)
				for i, m := range mem {
					out[m] = rs[i]
				}
				env[in] = out
			default:
				ti.fail("%s in %s is outside the domain (undecided)", in, shortFn(f))
				return
			}
		}
		if next == nil {
			return
		}
		from, b = b, next
	}
}

// varArgs: in belongs to the setting up of a call's list of arguments.
func varArgs(in ssa.Instruction) bool {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.Store:
		ia, ok := x.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		v = ia.X
	case *ssa.IndexAddr:
		v = x.X
	case *ssa.Slice:
		v = x.X
	}
	a, ok := v.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

func rangeTable(args []ssa.Value) *unicode.RangeTable {
	for _, a := range args {
		if u, ok := a.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "unicode" {
				if t := unicodeTable(g.Name()); t != nil {
					return t
				}
			}
		}
	}
	return nil
}

var unicodeFuncs = map[string]func(rune) int64{
	"unicode.SimpleFold": func(r rune) int64 { return int64(unicode.SimpleFold(r)) },
	"unicode.ToLower":    func(r rune) int64 { return int64(unicode.ToLower(r)) },
	"unicode.ToUpper":    func(r rune) int64 { return int64(unicode.ToUpper(r)) },
	"unicode.ToTitle":    func(r rune) int64 { return int64(unicode.ToTitle(r)) },
	"unicode.IsLetter":   func(r rune) int64 { return b2i(unicode.IsLetter(r)) },
	"unicode.IsDigit":    func(r rune) int64 { return b2i(unicode.IsDigit(r)) },
	"unicode.IsUpper":    func(r rune) int64 { return b2i(unicode.IsUpper(r)) },
	"unicode.IsLower":    func(r rune) int64 { return b2i(unicode.IsLower(r)) },
	"unicode.IsSpace":    func(r rune) int64 { return b2i(unicode.IsSpace(r)) },
	"unicode.IsMark":     func(r rune) int64 { return b2i(unicode.IsMark(r)) },
	"unicode.IsPunct":    func(r rune) int64 { return b2i(unicode.IsPunct(r)) },
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func truncTo(x int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(x))
	case types.Uint8:
		return int64(uint8(x))
	case types.Int16:
		return int64(int16(x))
	case types.Uint16:
		return int64(uint16(x))
	case types.Int32:
		return int64(int32(x))
	case types.Uint32:
		return int64(uint32(x))
	}
	return x
}

func (ti *tableInterp) bin(op token.Token, x, y int64, t types.Type) int64 {
	switch op {
	case token.ADD:
		return truncTo(x+y, t)
	case token.SUB:
		return truncTo(x-y, t)
	case token.MUL:
		return truncTo(x*y, t)
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return truncTo(x^y, t)
	case token.AND_NOT:
		return x &^ y
	case token.SHL:
		return truncTo(x<<uint(y&63), t)
	case token.SHR:
		return x >> uint(y&63)
	case token.EQL:
		return b2i(x == y)
	case token.NEQ:
		return b2i(x != y)
	case token.LSS:
		return b2i(x < y)
	case token.LEQ:
		return b2i(x <= y)
	case token.GTR:
		return b2i(x > y)
	case token.GEQ:
		return b2i(x >= y)
	}
	ti.fail("operator %s is outside the domain (undecided)", op)
	return 0
}

// foldClasses lists the classes of runes that differ only in case.
func foldClasses() [][]rune {
	seen := map[rune]bool{}
	var out [][]rune
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if seen[r] {
			continue
		}
		orbit := []rune{r}
		for q := unicode.SimpleFold(r); q != r; q = unicode.SimpleFold(q) {
			orbit = append(orbit, q)
			seen[q] = true
		}
		if len(orbit) > 1 {
			sort.Slice(orbit, func(i, j int) bool { return orbit[i] < orbit[j] })
			out = append(out, orbit)
		}
	}
	return out
}

// C12: case and grave/acute accents do not distinguish words.
func checkC12(w *World, r *Report) {
	r.Rule = "Abstract interpretation of the character-folding function over classes of characters (table domain: one abstract run per class, values per member, branches split the class): every class of characters that Unicode simple folding identifies gets one result; so does every documented class of a vowel with its grave and acute forms; the combining grave and acute accents are dropped; and every lower-case ASCII letter and every digit is kept as it is."
	r.Minimums["case classes"] = 1000
	p := w.SPkg[matchPath]
	// The folding function: rune -> rune, and reaches no other rune -> rune function that does the folding.
	var cands []*ssa.Function
	for _, f := range AllFuncs(p) {
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || f.Parent() != nil {
			continue
		}
		pb, ok1 := sig.Params().At(0).Type().Underlying().(*types.Basic)
		rb, ok2 := sig.Results().At(0).Type().Underlying().(*types.Basic)
		if !ok1 || !ok2 || pb.Kind() != types.Int32 {
			continue
		}
		if rb.Kind() == types.Int32 {
			cands = append(cands, f)
		}
	}
	spl := w.Method(matchPath, "Dict", "Split")
	var fold *ssa.Function
	if spl != nil {
		reach := reachable(spl)
		for _, f := range cands {
			if !reach[f] {
				continue
			}
			// Outermost: not called by another candidate.
			outer := true
			for _, g := range cands {
				if g != f && reach[g] && reachable(g)[f] {
					outer = false
				}
			}
			if outer {
				if fold != nil {
					r.bad("anchors", "folding function", w.Pos(f.Pos()), "more than one rune-to-rune function is reachable from splitting (undecided)")
				}
				fold = f
			}
		}
	}
	if fold == nil {
		r.bad("anchors", "folding function", "-", "no rune-to-rune function is reachable from splitting")
		return
	}
	name := shortFn(fold)
	pos := w.Pos(fold.Pos())
	eval := func(f *ssa.Function, class []rune) ([]int64, string) {
		ti := &tableInterp{w: w}
		arg := make([]int64, len(class))
		for i, c := range class {
			arg[i] = int64(c)
		}
		res := ti.run(f, len(class), [][]int64{arg}, 0)
		return res, ti.why
	}
	classText := func(class []rune) string {
		var s []string
		for _, c := range class {
			s = append(s, fmt.Sprintf("%q", c))
		}
		return strings.Join(s, " ")
	}
	same := func(rule string, f *ssa.Function, class []rune) {
		res, why := eval(f, class)
		if why != "" {
			r.bad(rule, shortFn(f)+" on "+classText(class), w.Pos(f.Pos()), why)
			return
		}
		for i := range res {
			if res[i] != res[0] {
				r.bad(rule, shortFn(f)+" on "+classText(class), w.Pos(f.Pos()), fmt.Sprintf("%q gives %d but %q gives %d", class[0], res[0], class[i], res[i]))
				return
			}
		}
		r.ok(rule, shortFn(f)+" on "+classText(class), w.Pos(f.Pos()), "one result")
	}
	for _, class := range foldClasses() {
		r.Counts["case classes"]++
		same("case-insensitive", fold, class)
	}
	for _, v := range [][]rune{
		[]rune("aAáÁàÀ"), []rune("eEéÉèÈ"), []rune("iIíÍìÌ"), []rune("oOóÓòÒ"), []rune("uUúÚùÙ"),
	} {
		r.Counts["accent classes"]++
		same("accent-insensitive", fold, v)
	}
	acc, why := eval(fold, []rune{'\u0300', '\u0301'})
	r.check(why == "" && acc[0] < 0 && acc[1] < 0, "combining-accents-dropped", name, pos, orText(why, "combining grave and acute accents are dropped"))
	// Distinct ASCII letters and digits stay distinct.
	var letters []rune
	for c := 'a'; c <= 'z'; c++ {
		letters = append(letters, c)
	}
	for c := '0'; c <= '9'; c++ {
		letters = append(letters, c)
	}
	res, why := eval(fold, letters)
	ok := why == ""
	for i := range letters {
		if ok && res[i] != int64(letters[i]) {
			ok = false
			why = fmt.Sprintf("%q becomes %d", letters[i], res[i])
		}
	}
	r.check(ok, "letters-kept", name, pos, orText(why, "lower-case ASCII letters and digits are kept as they are"))
	wordGuards(w, r, spl, fold, func(f *ssa.Function, class []rune) ([]int64, string) { return eval(f, class) })
	r.sample("%s interpreted on %d case classes and %d accent classes", name, r.Counts["case classes"], r.Counts["accent classes"])
}

// wordGuards: the predicates that decide whether a character joins the word
// being folded must accept letters, digits and accented vowels, and one of
// them must accept the combining accents, which otherwise would end the word.
func wordGuards(w *World, r *Report, spl, fold *ssa.Function, eval func(*ssa.Function, []rune) ([]int64, string)) {
	isRune := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int32
	}
	// Folding routines: fold itself and what hands a rune parameter to it.
	folds := map[*ssa.Function]bool{fold: true}
	reach := reachable(spl)
	for f := range reach {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != matchPath {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == fold {
					if _, ok := c.Call.Args[0].(*ssa.Parameter); ok {
						folds[f] = true
					}
				}
			}
		}
	}
	preds := map[*ssa.Function]bool{}
	for f := range reach {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != matchPath {
			continue
		}
		guarded, open := map[*ssa.Function]bool{}, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !folds[c.Call.StaticCallee()] {
					continue
				}
				var ch ssa.Value
				for _, a := range c.Call.Args {
					if _, ok := a.(*ssa.Extract); ok && isRune(a.Type()) {
						ch = a
					}
				}
				if ch == nil {
					open = true
					continue
				}
				found := false
				for d := b.Idom(); d != nil; d = d.Idom() {
					iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					cond, want := iff.Cond, 0
					if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
						cond, want = u.X, 1
					}
					pc, ok := cond.(*ssa.Call)
					if !ok || len(pc.Call.Args) != 1 || pc.Call.Args[0] != ch || pc.Call.StaticCallee() == nil {
						continue
					}
					if !dominatesEdge(d, d.Succs[want], b) {
						continue
					}
					guarded[pc.Call.StaticCallee()] = true
					found = true
				}
				if !found {
					open = true
				}
			}
		}
		if open {
			continue // some site is not guarded by a predicate of the character: not decided here
		}
		for g := range guarded {
			preds[g] = true
		}
	}
	r.Counts["word predicates"] = len(preds)
	if len(preds) == 0 {
		return
	}
	var must []rune
	for c := 'a'; c <= 'z'; c++ {
		must = append(must, c, c-'a'+'A')
	}
	for c := '0'; c <= '9'; c++ {
		must = append(must, c)
	}
	must = append(must, []rune("áÁàÀéÉèÈíÍìÌóÓòÒúÚùÙ")...)
	var names []string
	accents := false
	for g := range preds {
		names = append(names, shortFn(g))
		res, why := eval(g, must)
		if why != "" {
			return // outside the domain: not decided
		}
		bad := ""
		for i, v := range res {
			if v == 0 && bad == "" {
				bad = fmt.Sprintf("%q cannot be part of a word", must[i])
			}
		}
		r.check(bad == "", "word-characters", shortFn(g), w.Pos(g.Pos()), orText(bad, "letters, digits and accented vowels are word characters"))
		res, why = eval(g, []rune{'\u0300', '\u0301'})
		if why != "" {
			return
		}
		if res[0] != 0 && res[1] != 0 {
			accents = true
		}
	}
	sort.Strings(names)
	r.check(accents, "combining-accents-continue", strings.Join(names, ", "), w.Pos(spl.Pos()), "a predicate that admits characters to a word accepts both combining grave and combining acute; otherwise such an accent would end the word")
}
