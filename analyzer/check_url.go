package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["U02"] = checkU02
}

// A structured abstract string: a sequence of literals and opaque pieces.
// An opaque piece stands for any non-empty string without '/', of any case.
type useg struct {
	lit   string
	sym   string // non-empty for an opaque piece
	lower bool   // opaque piece has been lower-cased
}

type ustr []useg

func (s ustr) String() string {
	var b strings.Builder
	for _, g := range s {
		switch {
		case g.sym == "":
			b.WriteString(g.lit)
		case g.lower:
			b.WriteString("lower(" + g.sym + ")")
		default:
			b.WriteString("<" + g.sym + ">")
		}
	}
	return b.String()
}

func (s ustr) norm() ustr {
	var out ustr
	for _, g := range s {
		if g.sym == "" {
			if g.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].sym == "" {
				out[n-1].lit += g.lit
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// upos is an integer: the length of the first n pieces, plus off. With n == 0 it is a constant.
type upos struct {
	n   int
	of  string // the string the position refers to
	off int
}

type uunknown struct{ why string }
type uentry struct{ key string } // the License found under key
type utuple []interface{}
type uptr struct{ cell *ssa.Alloc }
type uslice []interface{}
type uelem struct {
	xs  uslice
	idx int
}

type urlInterp struct {
	w     *World
	keys  []string
	steps int
	depth int
}

type uoutcome struct {
	vals []interface{}
	why  string
}

// U02: every documented way of writing a known URL finds it.
func checkU02(w *World, r *Report) {
	r.Rule = "Abstract interpretation of the URL lookup over structured strings (literal pieces and opaque pieces standing for any text of any case): for every documented way of writing a known URL - either scheme, any case, optional /legalcode, optional trailing slash, optional extra path element for ported licenses - every execution path, with all other keys absent, must look up the canonical key and return that entry."
	r.Minimums["shapes"] = 24
	scan := w.Method(rootPath, "Scanner", "Scan")
	if scan == nil {
		r.bad("anchors", "Scanner.Scan", "-", "method not found")
		return
	}
	var fns []*ssa.Function
	for f := range reachable(scan) {
		if f.Pkg != w.SPkg[rootPath] {
			continue
		}
		if hasLicenseLookup(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	// The entry is the function called with a string that reaches all lookups.
	var entry *ssa.Function
	for f := range reachable(scan) {
		if f.Pkg != w.SPkg[rootPath] || f == scan || f.Signature.Results().Len() < 1 {
			continue
		}
		strs := 0
		for _, p := range f.Params {
			if isString(p.Type()) {
				strs++
			}
		}
		if strs != 1 {
			continue
		}
		all := len(fns) > 0
		rf := reachable(f)
		for _, g := range fns {
			if !rf[g] {
				all = false
			}
		}
		if all && (entry == nil || reachable(f)[entry]) {
			entry = f
		}
	}
	if entry == nil {
		r.bad("anchors", "URL lookup", "-", "no function of one string that performs the URL table lookups (undecided)")
		return
	}
	r.Counts["lookup functions"] = len(fns)
	body := ustr{{sym: "host"}, {lit: "/"}, {sym: "path"}}
	for _, scheme := range []string{"http://", "https://", "HTTP://", "HTTPS://", "Http://", "hTTps://"} {
		for _, tail := range []string{"", "/", "/legalcode", "/legalcode/", "/LegalCode", "/LEGALCODE/"} {
			shapeCheck(w, r, entry, scheme, body, tail, false)
		}
		for _, tail := range []string{"", "/", "/legalcode", "/legalcode/"} {
			shapeCheck(w, r, entry, scheme, body, tail, true)
		}
	}
}

func shapeCheck(w *World, r *Report, entry *ssa.Function, scheme string, body ustr, tail string, ported bool) {
	r.Counts["shapes"]++
	in := append(ustr{{lit: scheme}}, body...)
	if ported {
		in = append(in, useg{lit: "/"}, useg{sym: "port"})
	}
	in = append(in, useg{lit: tail}).norm()
	want := lowerU(body).norm().String()
	ip := &urlInterp{w: w}
	var args []interface{}
	for _, p := range entry.Params {
		if isString(p.Type()) {
			args = append(args, in)
		} else {
			args = append(args, uunknown{"parameter " + p.Name()})
		}
	}
	ip.keys = []string{want}
	outs := ip.call(entry, args)
	construct := "URL written as " + in.String()
	pos := w.Pos(entry.Pos())
	if len(outs) == 0 {
		r.bad("url-variant", construct, pos, "no execution path returns (undecided)")
		return
	}
	for _, o := range outs {
		if o.why != "" {
			r.bad("url-variant", construct, pos, o.why)
			return
		}
		found := false
		for _, v := range o.vals {
			if e, ok := v.(uentry); ok && e.key == want {
				found = true
			}
		}
		for _, v := range o.vals {
			if b, ok := v.(bool); ok && !b {
				found = false
			}
		}
		if !found {
			r.bad("url-variant", construct, pos, fmt.Sprintf("a path does not return the entry for %s; keys looked up: %s", want, strings.Join(ip.keys[1:], ", ")))
			return
		}
	}
	r.ok("url-variant", construct, pos, "finds "+want)
	if r.Counts["shapes"]%7 == 1 {
		r.sample("%s -> keys tried %s", in, strings.Join(ip.keys[1:], ", "))
	}
}

func hasLicenseLookup(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Lookup); ok && isLicenseMap(l.X.Type()) {
				return true
			}
		}
	}
	return false
}

func isLicenseMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	return isString(m.Key()) && strings.Contains(m.Elem().String(), "License")
}

func lowerU(s ustr) ustr {
	var out ustr
	for _, g := range s {
		g.lit = strings.ToLower(g.lit)
		if g.sym != "" {
			g.lower = true
		}
		out = append(out, g)
	}
	return out
}

type uenv struct {
	vals  map[ssa.Value]interface{}
	cells map[*ssa.Alloc]interface{}
}

func (e *uenv) clone() *uenv {
	n := &uenv{map[ssa.Value]interface{}{}, map[*ssa.Alloc]interface{}{}}
	for k, v := range e.vals {
		n.vals[k] = v
	}
	for k, v := range e.cells {
		n.cells[k] = v
	}
	return n
}

func (ip *urlInterp) call(f *ssa.Function, args []interface{}) []uoutcome {
	ip.depth++
	defer func() { ip.depth-- }()
	if ip.depth > 8 || len(f.Blocks) == 0 {
		return []uoutcome{{why: "call of " + shortFn(f) + " cannot be interpreted (undecided)"}}
	}
	env := &uenv{map[ssa.Value]interface{}{}, map[*ssa.Alloc]interface{}{}}
	for i, p := range f.Params {
		if i < len(args) {
			env.vals[p] = args[i]
		}
	}
	var outs []uoutcome
	ip.block(f.Blocks[0], nil, 0, env, &outs)
	return outs
}

func (ip *urlInterp) get(env *uenv, v ssa.Value) interface{} {
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return uunknown{"zero"}
		}
		switch k.Value.Kind() {
		case constant.String:
			return ustr{{lit: constant.StringVal(k.Value)}}.norm()
		case constant.Bool:
			return constant.BoolVal(k.Value)
		case constant.Int:
			n, _ := constant.Int64Val(k.Value)
			return upos{off: int(n)}
		}
		return uunknown{"constant"}
	}
	if x, ok := env.vals[v]; ok {
		return x
	}
	return uunknown{v.Name()}
}

func (ip *urlInterp) block(b, from *ssa.BasicBlock, start int, env *uenv, outs *[]uoutcome) {
	ip.steps++
	if ip.steps > 20000 || len(*outs) > 200 {
		*outs = append(*outs, uoutcome{why: "too many paths (undecided)"})
		return
	}
	if from != nil {
		upd := map[ssa.Value]interface{}{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if e := edgeValue(phi, from); e != nil {
				upd[phi] = ip.get(env, e)
			}
		}
		for k, v := range upd {
			env.vals[k] = v
		}
	}
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Return:
			var vals []interface{}
			for _, v := range in.Results {
				vals = append(vals, ip.get(env, v))
			}
			*outs = append(*outs, uoutcome{vals: vals})
			return
		case *ssa.Panic:
			*outs = append(*outs, uoutcome{why: "the lookup panics"})
			return
		case *ssa.Jump:
			ip.block(b.Succs[0], b, 0, env, outs)
			return
		case *ssa.If:
			switch c := ip.get(env, in.Cond).(type) {
			case bool:
				if c {
					ip.block(b.Succs[0], b, 0, env, outs)
				} else {
					ip.block(b.Succs[1], b, 0, env, outs)
				}
			default:
				e2 := env.clone()
				ip.block(b.Succs[0], b, 0, env, outs)
				ip.block(b.Succs[1], b, 0, e2, outs)
			}
			return
		case *ssa.Store:
			v := ip.get(env, in.Val)
			switch a := in.Addr.(type) {
			case *ssa.Alloc:
				env.cells[a] = v
			case *ssa.IndexAddr:
				if al, ok := a.X.(*ssa.Alloc); ok {
					if k := constOf(a.Index); k != nil {
						n, _ := constant.Int64Val(k)
						xs, _ := env.cells[al].(uslice)
						xs = append(uslice(nil), xs...)
						for len(xs) <= int(n) {
							xs = append(xs, uunknown{"unset"})
						}
						xs[n] = v
						env.cells[al] = xs
					}
				}
			}
		case *ssa.Call:
			if f := in.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && strings.HasPrefix(f.Pkg.Pkg.Path(), rootPath) {
				var args []interface{}
				for _, a := range in.Call.Args {
					args = append(args, ip.get(env, a))
				}
				for _, o := range ip.call(f, args) {
					if o.why != "" {
						*outs = append(*outs, o)
						continue
					}
					e2 := env.clone()
					if len(o.vals) == 1 {
						e2.vals[in] = o.vals[0]
					} else {
						e2.vals[in] = utuple(o.vals)
					}
					ip.block(b, nil, i+1, e2, outs)
				}
				return
			}
			env.vals[in] = ip.lib(env, in)
		case ssa.Value:
			env.vals[in] = ip.value(env, in)
		}
	}
}

func (ip *urlInterp) value(env *uenv, v ssa.Value) interface{} {
	switch x := v.(type) {
	case *ssa.Lookup:
		if isLicenseMap(x.X.Type()) {
			key, ok := ip.get(env, x.Index).(ustr)
			if !ok {
				return uunknown{"lookup of an unknown key"}
			}
			s := key.norm().String()
			ip.keys = append(ip.keys, s)
			var ent interface{} = uunknown{"absent"}
			found := s == ip.keys[0]
			if found {
				ent = uentry{s}
			}
			if x.CommaOk {
				return utuple{ent, found}
			}
			return ent
		}
		if s, ok := ip.get(env, x.X).(ustr); ok {
			if p, ok := ip.get(env, x.Index).(upos); ok {
				if c, ok := byteAt(s.norm(), p); ok {
					return upos{off: int(c)}
				}
			}
		}
		return uunknown{"index"}
	case *ssa.Extract:
		if t, ok := ip.get(env, x.Tuple).(utuple); ok && x.Index < len(t) {
			return t[x.Index]
		}
		return uunknown{"extract"}
	case *ssa.Alloc:
		if x.Comment != "" && env.cells[x] == nil {
			delete(env.cells, x)
		}
		return uptr{x}
	case *ssa.IndexAddr:
		base := ip.get(env, x.X)
		if p, ok := base.(uptr); ok {
			base = env.cells[p.cell]
		}
		if xs, ok := base.(uslice); ok {
			if p, ok := ip.get(env, x.Index).(upos); ok && p.n == 0 && p.off >= 0 && p.off < len(xs) {
				return uelem{xs, p.off}
			}
		}
		return uunknown{"element"}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			switch a := ip.get(env, x.X).(type) {
			case uptr:
				if v, ok := env.cells[a.cell]; ok {
					return v
				}
			case uelem:
				return a.xs[a.idx]
			}
			if g, ok := x.X.(*ssa.Global); ok {
				if ss, ok := ip.w.tableStrings(g, nil, false); ok {
					var xs uslice
					for _, s := range ss {
						xs = append(xs, ustr{{lit: s}}.norm())
					}
					return xs
				}
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if p, ok := ip.get(env, fa.X).(uptr); ok {
					if e, ok := env.cells[p.cell].(uentry); ok {
						return e
					}
				}
			}
			return uunknown{"load"}
		case token.NOT:
			if c, ok := ip.get(env, x.X).(bool); ok {
				return !c
			}
		}
		return uunknown{"operation"}
	case *ssa.BinOp:
		return ip.binop(x.Op, ip.get(env, x.X), ip.get(env, x.Y))
	case *ssa.Slice:
		if p, ok := ip.get(env, x.X).(uptr); ok && x.Low == nil && x.High == nil {
			if xs, ok := env.cells[p.cell].(uslice); ok {
				return xs
			}
		}
		s, ok := ip.get(env, x.X).(ustr)
		if !ok {
			return uunknown{"slice"}
		}
		lo, hi := upos{}, upos{n: len(s.norm()), of: s.norm().String()}
		s = s.norm()
		if x.Low != nil {
			if lo, ok = ip.get(env, x.Low).(upos); !ok {
				return uunknown{"slice bound"}
			}
		}
		if x.High != nil {
			if hi, ok = ip.get(env, x.High).(upos); !ok {
				return uunknown{"slice bound"}
			}
		}
		return cutU(s, lo, hi)
	case *ssa.ChangeType:
		return ip.get(env, x.X)
	case *ssa.Convert:
		return ip.get(env, x.X)
	case *ssa.Field:
		return ip.get(env, x.X)
	}
	return uunknown{v.Name()}
}

func (ip *urlInterp) binop(op token.Token, a, b interface{}) interface{} {
	switch x := a.(type) {
	case upos:
		y, ok := b.(upos)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			if x.n == 0 {
				return upos{y.n, y.of, x.off + y.off}
			}
			if y.n == 0 {
				return upos{x.n, x.of, x.off + y.off}
			}
		case token.SUB:
			if y.n == 0 {
				return upos{x.n, x.of, x.off - y.off}
			}
			if x.n == y.n && x.of == y.of {
				return upos{off: x.off - y.off}
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			lo, hi := -1<<30, 1<<30
			if x.n == y.n && (x.of == y.of || x.n == 0) {
				lo = x.off - y.off
				hi = lo
			} else if y.n == 0 {
				lo = x.off + x.n - y.off // every piece is at least one byte
			} else if x.n == 0 {
				hi = x.off - y.off - y.n
			} else {
				break
			}
			return cmpRange(op, lo, hi)
		}
	case ustr:
		y, ok := b.(ustr)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return append(append(ustr{}, x...), y...).norm()
		case token.EQL, token.NEQ:
			xs, ys := x.norm(), y.norm()
			if xs.String() == ys.String() {
				return op == token.EQL
			}
			if len(ys) == 0 || len(xs) == 0 {
				return op == token.NEQ
			}
			if len(xs) == 1 && len(ys) == 1 && xs[0].sym == "" && ys[0].sym == "" {
				return op == token.NEQ
			}
		}
	case bool:
		if y, ok := b.(bool); ok {
			switch op {
			case token.EQL:
				return x == y
			case token.NEQ:
				return x != y
			}
		}
	}
	return uunknown{"comparison"}
}

func cmpRange(op token.Token, lo, hi int) interface{} {
	switch op {
	case token.EQL:
		if lo == 0 && hi == 0 {
			return true
		}
		if lo > 0 || hi < 0 {
			return false
		}
	case token.NEQ:
		if r, ok := cmpRange(token.EQL, lo, hi).(bool); ok {
			return !r
		}
	case token.LSS:
		if hi < 0 {
			return true
		}
		if lo >= 0 {
			return false
		}
	case token.LEQ:
		if hi <= 0 {
			return true
		}
		if lo > 0 {
			return false
		}
	case token.GTR:
		if r, ok := cmpRange(token.LEQ, lo, hi).(bool); ok {
			return !r
		}
	case token.GEQ:
		if r, ok := cmpRange(token.LSS, lo, hi).(bool); ok {
			return !r
		}
	}
	return uunknown{"comparison"}
}

// cutU slices s at two positions; positions must fall inside literals.
func cutU(s ustr, lo, hi upos) interface{} {
	i, oi, ok1 := locate(s, lo)
	j, oj, ok2 := locate(s, hi)
	if !ok1 || !ok2 {
		return uunknown{"slice position inside an unknown piece"}
	}
	if i > j || i == j && oi > oj {
		return uunknown{"slice bounds reversed"}
	}
	if i == j {
		if oi == oj {
			return ustr{}
		}
		return ustr{{lit: s[i].lit[oi:oj]}}.norm()
	}
	var out ustr
	if oi == 0 {
		out = append(out, s[i])
	} else {
		out = append(out, useg{lit: s[i].lit[oi:]})
	}
	out = append(out, s[i+1:j]...)
	if j < len(s) && oj > 0 {
		out = append(out, useg{lit: s[j].lit[:oj]})
	}
	return out.norm()
}

// locate finds the piece and the offset within it at which p falls.
func locate(s ustr, p upos) (int, int, bool) {
	if p.n > 0 && p.of != s.String() {
		return 0, 0, false
	}
	i, off := p.n, p.off
	for off < 0 {
		i--
		if i < 0 || s[i].sym != "" {
			return 0, 0, false
		}
		off += len(s[i].lit)
	}
	for i < len(s) && off > 0 {
		if s[i].sym != "" {
			return 0, 0, false
		}
		if off < len(s[i].lit) {
			return i, off, true
		}
		off -= len(s[i].lit)
		i++
	}
	return i, off, off == 0
}

func byteAt(s ustr, p upos) (byte, bool) {
	i, off, ok := locate(s, p)
	if !ok || i >= len(s) || s[i].sym != "" || off >= len(s[i].lit) {
		return 0, false
	}
	return s[i].lit[off], true
}

func hasPrefixU(s ustr, p string, foldCase bool) interface{} {
	s = s.norm()
	if p == "" {
		return true
	}
	if len(s) == 0 {
		return false
	}
	if s[0].sym == "" {
		l := s[0].lit
		n := min(len(l), len(p))
		eq := l[:n] == p[:n] || foldCase && strings.EqualFold(l[:n], p[:n])
		if !eq {
			return false
		}
		if len(l) >= len(p) {
			return true
		}
		return uunknown{"prefix"}
	}
	// An opaque piece: assumed not to begin with a scheme or a slash.
	if p[0] == '/' || strings.Contains(p, "://") {
		return false
	}
	return uunknown{"prefix"}
}

func hasSuffixU(s ustr, p string) interface{} {
	s = s.norm()
	if p == "" {
		return true
	}
	if len(s) == 0 {
		return false
	}
	last := s[len(s)-1]
	if last.sym == "" {
		l := last.lit
		n := min(len(l), len(p))
		if l[len(l)-n:] != p[len(p)-n:] {
			return false
		}
		if len(l) >= len(p) {
			return true
		}
		return uunknown{"suffix"}
	}
	// An opaque piece holds no slash and, as the last path element of a known
	// URL or a port name, is not itself a literal suffix that starts with one.
	if i := strings.LastIndexByte(p, '/'); i == len(p)-1 {
		return false
	} else if i >= 0 {
		// p is "...​/word": equal only if the piece is that word; assumed distinct.
		return false
	}
	return uunknown{"suffix"}
}

func (ip *urlInterp) lib(env *uenv, call *ssa.Call) interface{} {
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch x := ip.get(env, call.Call.Args[0]).(type) {
			case ustr:
				x = x.norm()
				return lenU(x)
			case uslice:
				return upos{off: len(x)}
			}
		}
		return uunknown{b.Name()}
	}
	f := call.Call.StaticCallee()
	if f == nil {
		return uunknown{"dynamic call"}
	}
	var args []interface{}
	for _, a := range call.Call.Args {
		args = append(args, ip.get(env, a))
	}
	str := func(i int) (ustr, bool) {
		if i >= len(args) {
			return nil, false
		}
		s, ok := args[i].(ustr)
		return s.norm(), ok
	}
	lit := func(i int) (string, bool) {
		s, ok := str(i)
		if !ok || len(s) > 1 || len(s) == 1 && s[0].sym != "" {
			return "", false
		}
		if len(s) == 0 {
			return "", true
		}
		return s[0].lit, true
	}
	s, ok := str(0)
	if !ok {
		return uunknown{f.String()}
	}
	p, pok := lit(1)
	var hp, hs interface{}
	if pok {
		hp, hs = hasPrefixU(s, p, false), hasSuffixU(s, p)
	}
	trimPre := func() ustr {
		return append(ustr{{lit: s[0].lit[len(p):]}}, s[1:]...).norm()
	}
	trimSuf := func() ustr {
		l := s[len(s)-1].lit
		return append(append(ustr{}, s[:len(s)-1]...), useg{lit: l[:len(l)-len(p)]}).norm()
	}
	switch f.String() {
	case "strings.ToLower":
		return lowerU(s)
	case "strings.HasPrefix":
		if pok {
			return hp
		}
	case "strings.HasSuffix":
		if pok {
			return hs
		}
	case "strings.TrimPrefix", "strings.CutPrefix":
		if h, ok := hp.(bool); ok {
			res := s
			if h && p != "" {
				res = trimPre()
			}
			if f.Name() == "CutPrefix" {
				return utuple{res, h}
			}
			return res
		}
	case "strings.TrimSuffix", "strings.CutSuffix":
		if h, ok := hs.(bool); ok {
			res := s
			if h && p != "" {
				res = trimSuf()
			}
			if f.Name() == "CutSuffix" {
				return utuple{res, h}
			}
			return res
		}
	case "strings.TrimRight":
		if pok && p == "/" {
			for len(s) > 0 && s[len(s)-1].sym == "" && strings.HasSuffix(s[len(s)-1].lit, "/") {
				p = "/"
				s = trimSuf()
			}
			return s
		}
	case "strings.LastIndex", "strings.LastIndexByte":
		if f.Name() == "LastIndexByte" {
			if c, ok := args[1].(upos); ok && c.n == 0 {
				p, pok = string(rune(c.off)), true
			}
		}
		if pok && p == "/" {
			for i := len(s) - 1; i >= 0; i-- {
				if s[i].sym == "" {
					if j := strings.LastIndex(s[i].lit, "/"); j >= 0 {
						return posU(s, i, j)
					}
				}
			}
			return upos{off: -1}
		}
	case "strings.Index", "strings.IndexByte":
		if f.Name() == "IndexByte" {
			if c, ok := args[1].(upos); ok && c.n == 0 {
				p, pok = string(rune(c.off)), true
			}
		}
		if pok && (p == "/" || p == "://" || p == "//") {
			for i := range s {
				if s[i].sym == "" {
					if j := strings.Index(s[i].lit, p); j >= 0 {
						return posU(s, i, j)
					}
				}
			}
			return upos{off: -1}
		}
	case "strings.EqualFold":
		if pok && len(s) == 1 && s[0].sym == "" {
			return strings.EqualFold(s[0].lit, p)
		}
	case "strings.TrimSpace":
		return s
	}
	return uunknown{f.String()}
}

func lenU(s ustr) interface{} {
	if len(s) == 1 && s[0].sym == "" {
		return upos{off: len(s[0].lit)}
	}
	if len(s) == 0 {
		return upos{}
	}
	return upos{n: len(s), of: s.String()}
}

func posU(s ustr, i, j int) upos {
	if i == 0 {
		return upos{off: j}
	}
	return upos{n: i, of: s.String(), off: j}
}
