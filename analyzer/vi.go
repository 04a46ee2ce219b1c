package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of small functions over known bits and structured
// strings: an integer is described by the bits known set and known clear, a
// string is a sequence of literal pieces and of numbers written out.

// numText is a number written out in some base inside a string.
type numText struct {
	k    kbits
	base int // 16 or 10; without prefix; 0: other text, of characters that are in no literal
}

// vpiece is a piece of a string: a literal, or a number if num is set.
type vpiece struct {
	lit string
	num *numText
}

type vstr []vpiece

func vlit(s string) vstr {
	if s == "" {
		return nil
	}
	return vstr{{lit: s}}
}

func (a vstr) concat(b vstr) vstr {
	out := append(vstr{}, a...)
	for _, p := range b {
		if n := len(out); n > 0 && p.num == nil && out[n-1].num == nil {
			out[n-1].lit += p.lit
		} else {
			out = append(out, p)
		}
	}
	return out
}

func (a vstr) literal() (string, bool) {
	switch {
	case len(a) == 0:
		return "", true
	case len(a) == 1 && a[0].num == nil:
		return a[0].lit, true
	}
	return "", false
}

// vlen is a length: n plus the lengths of the numbers.
type vlen struct {
	n    int64
	nums []*numText
}

func (a vstr) length() interface{} {
	l := vlen{}
	for _, p := range a {
		if p.num != nil {
			l.nums = append(l.nums, p.num)
		} else {
			l.n += int64(len(p.lit))
		}
	}
	if len(l.nums) == 0 {
		return kconst(uint64(l.n))
	}
	return l
}

// split cuts a at pos.
func (a vstr) split(pos interface{}) (vstr, vstr, bool) {
	var want vlen
	switch p := pos.(type) {
	case kbits:
		c, ok := p.const_()
		if !ok {
			return nil, nil, false
		}
		want.n = int64(c)
	case vlen:
		want = p
	default:
		return nil, nil, false
	}
	var left vstr
	for i, p := range a {
		if p.num != nil {
			if len(want.nums) == 0 || want.nums[0] != p.num {
				if want.n == 0 && len(want.nums) == 0 {
					return left, append(vstr{}, a[i:]...), true
				}
				return nil, nil, false
			}
			want.nums = want.nums[1:]
			left = append(left, p)
			continue
		}
		if len(want.nums) == 0 && want.n <= int64(len(p.lit)) {
			if want.n < 0 {
				return nil, nil, false
			}
			left = left.concat(vlit(p.lit[:want.n]))
			right := vlit(p.lit[want.n:]).concat(a[i+1:])
			return left, right, true
		}
		want.n -= int64(len(p.lit))
		left = append(left, p)
	}
	if want.n == 0 && len(want.nums) == 0 {
		return left, nil, true
	}
	return nil, nil, false
}

// numChars are the characters a written number can hold.
const numChars = "0123456789abcdef"

// find returns the position of the first sep in a.
func (a vstr) find(sep string) (before, after vstr, found, known bool) {
	if sep == "" || strings.Trim(sep, numChars) != sep && len(sep) > 1 {
		// (may straddle a number)
		if s, ok := a.literal(); ok {
			i := strings.Index(s, sep)
			if i < 0 {
				return a, nil, false, true
			}
			return vlit(s[:i]), vlit(s[i+len(sep):]), true, true
		}
		if sep == "" {
			return nil, a, true, true
		}
	}
	for i, p := range a {
		if p.num != nil {
			if p.num.base != 0 && strings.ContainsAny(sep, numChars) {
				return nil, nil, false, false
			}
			continue
		}
		if j := strings.Index(p.lit, sep); j >= 0 {
			return append(append(vstr{}, a[:i]...), vlit(p.lit[:j])...), vlit(p.lit[j+len(sep):]).concat(a[i+1:]), true, true
		}
	}
	return a, nil, false, true
}

// equal decides whether two strings are the same.
func (a vstr) equal(b vstr) interface{} {
	x, okx := a.literal()
	y, oky := b.literal()
	if okx && oky {
		return x == y
	}
	if okx {
		return b.equal(a)
	}
	if oky {
		// a number never holds other characters.
		rest := y
		for i, p := range a {
			if p.num == nil {
				if !strings.HasPrefix(rest, p.lit) {
					return false
				}
				rest = rest[len(p.lit):]
				continue
			}
			if rest == "" || p.num.base == 0 || !strings.ContainsRune(numChars, rune(rest[0])) {
				return false
			}
			if i == len(a)-1 {
				break
			}
			return kboolUnknown(0)
		}
		return kboolUnknown(0)
	}
	if len(a) == len(b) {
		for i := range a {
			if a[i].num != b[i].num || a[i].lit != b[i].lit {
				return kboolUnknown(0)
			}
		}
		return true
	}
	return kboolUnknown(0)
}

func (a vstr) hasPrefix(s string) interface{} {
	if len(a) == 0 {
		return s == ""
	}
	if a[0].num != nil {
		if s == "" {
			return true
		}
		if a[0].num.base == 0 || !strings.ContainsRune(numChars, rune(s[0])) {
			return false
		}
		return kboolUnknown(0)
	}
	l := a[0].lit
	if len(l) >= len(s) || len(a) == 1 {
		return strings.HasPrefix(l, s)
	}
	if !strings.HasPrefix(s, l) {
		return false
	}
	return a[1:].hasPrefix(s[len(l):])
}

func (a vstr) hasSuffix(s string) interface{} {
	if len(a) == 0 {
		return s == ""
	}
	p := a[len(a)-1]
	if p.num != nil {
		if s == "" {
			return true
		}
		if p.num.base == 0 || !strings.ContainsRune(numChars, rune(s[len(s)-1])) {
			return false
		}
		return kboolUnknown(0)
	}
	if len(p.lit) >= len(s) || len(a) == 1 {
		return strings.HasSuffix(p.lit, s)
	}
	if !strings.HasSuffix(s, p.lit) {
		return false
	}
	return a[:len(a)-1].hasSuffix(s[:len(s)-len(p.lit)])
}

// parseUint reads the string as a number.
func (a vstr) parseUint(base, bits int) (k kbits, ok, known bool) {
	if bits == 0 {
		bits = 64
	}
	if s, lit := a.literal(); lit {
		n, err := strconv.ParseUint(s, base, bits)
		return kconst(n), err == nil, true
	}
	prefix := ""
	if len(a) == 2 && a[0].num == nil && a[1].num != nil {
		prefix = strings.ToLower(a[0].lit)
		a = a[1:]
	}
	for _, p := range a {
		if p.num != nil && p.num.base == 0 {
			return kbits{}, false, true
		}
	}
	if len(a) != 1 || a[0].num == nil {
		return kbits{}, false, false
	}
	num := a[0].num
	switch {
	case num.base == 0:
		return kbits{}, false, true
	case prefix == "0x" && base == 0 && num.base == 16:
	case prefix == "" && base == num.base:
	case prefix == "" && base == 0 && num.base == 10:
		// (written without leading zeros)
	case prefix == "" && base == 0 && num.base == 16, prefix == "0x" && base != 0:
		if prefix == "0x" && base <= 33 {
			return kbits{}, false, true // x is no digit
		}
		return kbits{}, false, false
	default:
		return kbits{}, false, false
	}
	if bits < 64 {
		high := ^uint64(0) << uint(bits)
		if num.k.one&high != 0 {
			return kbits{}, false, true
		}
		if num.k.zero&high != high {
			return kbits{}, false, false
		}
	}
	return num.k, true, true
}

// Memory.

type vcell struct{ v interface{} }

// vagg is an array or a struct.
type vagg []*vcell

type vslice struct {
	arr    vagg
	lo, hi int
	null   bool
}

type vtuple []interface{}

// viface is a non-nil interface value.
type viface struct {
	t types.Type
	v interface{}
}

type vnil struct{}

type vclosure struct {
	fn   *ssa.Function
	free []interface{}
}

type vmap struct {
	keys []interface{}
	vals []interface{}
}

// vbuilder is what a strings.Builder holds.
type vbuilder struct{ s vstr }

type viStop struct {
	why  string // "split", "panic" or why it cannot go on
	bits uint64
}

type vinterp struct {
	w       *World
	globals map[*ssa.Global]*vcell
	steps   int
	lenient bool   // unknown calls give unknown values (package initialisation)
	choice  []bool // at branches that may go either way
	chosen  int
}

func viClone(v interface{}) interface{} {
	if a, ok := v.(vagg); ok {
		b := make(vagg, len(a))
		for i, c := range a {
			b[i] = &vcell{viClone(c.v)}
		}
		return b
	}
	return v
}

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

func viZero(t types.Type) interface{} {
	if isBuilder(t) {
		return &vbuilder{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return kconst(0)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return vstr(nil)
		}
		return nil
	case *types.Struct:
		a := make(vagg, u.NumFields())
		for i := range a {
			a[i] = &vcell{viZero(u.Field(i).Type())}
		}
		return a
	case *types.Array:
		if u.Len() > 1<<16 {
			return nil
		}
		a := make(vagg, u.Len())
		for i := range a {
			a[i] = &vcell{viZero(u.Elem())}
		}
		return a
	case *types.Slice:
		return vslice{null: true}
	case *types.Tuple:
		var t vtuple
		for i := 0; i < u.Len(); i++ {
			t = append(t, viZero(u.At(i).Type()))
		}
		return t
	}
	return vnil{}
}

// wrap brings k into the range of t.
func viWrap(k kbits, t types.Type) kbits {
	bits, signed, ok := 64, false, true
	if b, isB := t.Underlying().(*types.Basic); isB {
		switch b.Kind() {
		case types.Int, types.Int64, types.UntypedInt:
			signed = true
		case types.Uint, types.Uintptr, types.Uint64:
		default:
			bits, signed, ok = intRange(t)
		}
	}
	if !ok || bits >= 64 {
		return k
	}
	high := ^uint64(0) << uint(bits)
	sign := uint64(1) << uint(bits-1)
	k.one &^= high
	k.zero &^= high
	switch {
	case !signed || k.zero&sign != 0:
		k.zero |= high
	case k.one&sign != 0:
		k.one |= high
	}
	return k
}

func viSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func viBinop(op token.Token, x, y kbits, t types.Type) interface{} {
	if viSigned(t) {
		cx, okx := x.const_()
		cy, oky := y.const_()
		a, b := int64(cx), int64(cy)
		if okx && oky {
			switch op {
			case token.LSS:
				return a < b
			case token.GTR:
				return a > b
			case token.LEQ:
				return a <= b
			case token.GEQ:
				return a >= b
			case token.SHR:
				if cy > 63 {
					cy = 63
				}
				return kconst(uint64(a >> cy))
			case token.QUO:
				if b != 0 {
					return kconst(uint64(a / b))
				}
			case token.REM:
				if b != 0 {
					return kconst(uint64(a % b))
				}
			}
		}
		const top = 1 << 63
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if x.zero&top == 0 || y.zero&top == 0 {
				return kboolUnknown(^(x.one | x.zero) | ^(y.one | y.zero))
			}
		case token.SHR:
			if x.zero&top == 0 {
				return nil
			}
		}
	} else {
		cx, okx := x.const_()
		cy, oky := y.const_()
		if okx && oky && cy != 0 {
			switch op {
			case token.QUO:
				return kconst(cx / cy)
			case token.REM:
				return kconst(cx % cy)
			}
		}
	}
	r := kbinop(op, x, y)
	if r == nil {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.SHL, token.SHR, token.QUO, token.REM:
			return kbits{}
		}
	}
	return r
}

func viLenBinop(op token.Token, x, y interface{}) interface{} {
	a, okx := x.(vlen)
	b, oky := y.(vlen)
	if k, ok := x.(kbits); ok {
		if c, ok := k.const_(); ok {
			a, okx = vlen{n: int64(c)}, true
		}
	}
	if k, ok := y.(kbits); ok {
		if c, ok := k.const_(); ok {
			b, oky = vlen{n: int64(c)}, true
		}
	}
	if !okx || !oky {
		return nil
	}
	same := len(a.nums) == len(b.nums)
	for i := 0; same && i < len(a.nums); i++ {
		same = a.nums[i] == b.nums[i]
	}
	// The difference lies in lo..hi.
	lo, hi := a.n-b.n, a.n-b.n
	if !same {
		lo += int64(len(a.nums)) - 20*int64(len(b.nums))
		hi += 20*int64(len(a.nums)) - int64(len(b.nums))
	}
	switch op {
	case token.ADD:
		return vlen{a.n + b.n, append(append([]*numText{}, a.nums...), b.nums...)}
	case token.SUB:
		if same {
			return kconst(uint64(a.n - b.n))
		}
		if len(b.nums) == 0 {
			return vlen{a.n - b.n, a.nums}
		}
		return nil
	case token.LSS:
		if hi < 0 || lo >= 0 {
			return hi < 0
		}
	case token.LEQ:
		if hi <= 0 || lo > 0 {
			return hi <= 0
		}
	case token.GTR:
		if lo > 0 || hi <= 0 {
			return lo > 0
		}
	case token.GEQ:
		if lo >= 0 || hi < 0 {
			return lo >= 0
		}
	case token.EQL:
		if lo > 0 || hi < 0 {
			return false
		}
		if lo == 0 && hi == 0 {
			return true
		}
	case token.NEQ:
		if lo > 0 || hi < 0 {
			return true
		}
		if lo == 0 && hi == 0 {
			return false
		}
	}
	return kboolUnknown(0)
}

func (ip *vinterp) stop(why string, in ssa.Instruction) {
	panic(viStop{why: why + " at " + ip.w.instrPos(in) + " (undecided)"})
}

func (ip *vinterp) constant(v *ssa.Const) interface{} {
	if v.Value == nil {
		return viZero(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(v.Value)
	case constant.String:
		return vlit(constant.StringVal(v.Value))
	case constant.Int:
		if n, ok := constant.Uint64Val(v.Value); ok {
			return kconst(n)
		}
		if n, ok := constant.Int64Val(v.Value); ok {
			return kconst(uint64(n))
		}
	}
	return nil
}

func viConstInt(v interface{}) (int, bool) {
	k, ok := v.(kbits)
	if !ok {
		return 0, false
	}
	c, ok := k.const_()
	return int(c), ok
}

// call interprets fn.
func (ip *vinterp) call(fn *ssa.Function, args, free []interface{}, depth int) interface{} {
	if depth > 20 {
		panic(viStop{why: "call nesting too deep in " + shortFn(fn) + " (undecided)"})
	}
	st := map[ssa.Value]interface{}{}
	for i, p := range fn.Params {
		if i < len(args) {
			st[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			st[p] = free[i]
		}
	}
	get := func(v ssa.Value) interface{} {
		switch v := v.(type) {
		case *ssa.Const:
			return ip.constant(v)
		case *ssa.Global:
			c := ip.globals[v]
			if c == nil {
				c = &vcell{}
				if ip.lenient {
					c.v = viZero(v.Type().(*types.Pointer).Elem())
				}
				ip.globals[v] = c
			}
			return c
		case *ssa.Function:
			return vclosure{fn: v}
		}
		return st[v]
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		ip.steps++
		if ip.steps > 4000000 {
			panic(viStop{why: "does not terminate within the step bound (undecided)"})
		}
		type upd struct {
			v ssa.Value
			x interface{}
		}
		var phis []upd
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for i, p := range b.Preds {
					if p == prev {
						phis = append(phis, upd{phi, get(phi.Edges[i])})
						break
					}
				}
			}
		}
		for _, u := range phis {
			st[u.v] = u.x
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp:
				st[in] = ip.binop(in, get(in.X), get(in.Y))
			case *ssa.UnOp:
				x := get(in.X)
				switch in.Op {
				case token.MUL:
					switch c := x.(type) {
					case *vcell:
						st[in] = viClone(c.v)
					case vagg:
						st[in] = viClone(c)
					default:
						st[in] = nil
						if !ip.lenient {
							ip.stop("reads memory that is not known", in)
						}
					}
				case token.NOT:
					switch x := x.(type) {
					case bool:
						st[in] = !x
					case kboolUnknown:
						st[in] = x
					default:
						st[in] = nil
					}
				case token.XOR:
					st[in] = nil
					if k, ok := x.(kbits); ok {
						st[in] = viWrap(kbits{k.zero, k.one}, in.Type())
					}
				case token.SUB:
					st[in] = nil
					if k, ok := x.(kbits); ok {
						if r, ok := viBinop(token.SUB, kconst(0), k, in.Type()).(kbits); ok {
							st[in] = viWrap(r, in.Type())
						}
					}
				default:
					st[in] = nil
				}
			case *ssa.Convert:
				st[in] = ip.convert(in, get(in.X))
			case *ssa.ChangeType:
				st[in] = get(in.X)
			case *ssa.ChangeInterface:
				st[in] = get(in.X)
			case *ssa.MakeInterface:
				st[in] = viface{in.X.Type(), get(in.X)}
			case *ssa.Alloc:
				t := in.Type().(*types.Pointer).Elem()
				z := viZero(t)
				if a, ok := z.(vagg); ok {
					st[in] = a
				} else if sb, ok := z.(*vbuilder); ok {
					st[in] = sb
				} else {
					st[in] = &vcell{z}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				st[in.(ssa.Value)] = ip.elemAddr(in, get)
			case *ssa.Field:
				st[in] = nil
				if a, ok := get(in.X).(vagg); ok && in.Field < len(a) {
					st[in] = viClone(a[in.Field].v)
				}
			case *ssa.Index:
				st[in] = nil
				i, ok := viConstInt(get(in.Index))
				switch x := get(in.X).(type) {
				case vagg:
					if ok && i >= 0 && i < len(x) {
						st[in] = viClone(x[i].v)
					} else if ok {
						panic(viStop{why: "panic: index out of range at " + ip.w.instrPos(in)})
					}
				case vstr:
					st[in] = ip.strIndex(in, x, get(in.Index))
				}
			case *ssa.Lookup:
				if m, ok := get(in.X).(*vmap); ok {
					st[in] = ip.lookup(in, m, get(in.Index))
				} else if s, ok := get(in.X).(vstr); ok {
					st[in] = ip.strIndex(in, s, get(in.Index))
				} else {
					st[in] = nil
					if !ip.lenient {
						ip.stop("looks up in a table that is not known", in)
					}
				}
			case *ssa.MakeMap:
				st[in] = &vmap{}
			case *ssa.MapUpdate:
				m, ok := get(in.Map).(*vmap)
				if !ok {
					if ip.lenient {
						continue
					}
					ip.stop("writes to a table that is not known", in)
				}
				m.keys = append(m.keys, viClone(get(in.Key)))
				m.vals = append(m.vals, viClone(get(in.Value)))
			case *ssa.MakeSlice:
				n, ok := viConstInt(get(in.Len))
				if !ok || n < 0 || n > 1<<16 {
					st[in] = nil
					continue
				}
				a := make(vagg, n)
				for i := range a {
					a[i] = &vcell{viZero(in.Type().Underlying().(*types.Slice).Elem())}
				}
				st[in] = vslice{arr: a, hi: n}
			case *ssa.Slice:
				st[in] = ip.slice(in, get)
			case *ssa.Store:
				v := viClone(get(in.Val))
				switch p := get(in.Addr).(type) {
				case *vcell:
					p.v = v
				case vagg:
					if a, ok := v.(vagg); ok && len(a) == len(p) {
						for i := range a {
							p[i].v = a[i].v
						}
					}
				case *vbuilder:
					p.s = nil
				default:
					if !ip.lenient {
						ip.stop("writes memory that is not known", in)
					}
				}
			case *ssa.MakeClosure:
				c := vclosure{fn: in.Fn.(*ssa.Function)}
				for _, x := range in.Bindings {
					c.free = append(c.free, get(x))
				}
				st[in] = c
			case *ssa.Extract:
				st[in] = nil
				if t, ok := get(in.Tuple).(vtuple); ok && in.Index < len(t) {
					st[in] = t[in.Index]
				}
			case *ssa.Range:
				st[in] = nil
				if s, ok := get(in.X).(vstr); ok {
					if l, ok := s.literal(); ok {
						st[in] = &vcell{vtuple{l, 0}}
					}
				}
				if st[in] == nil && !ip.lenient {
					ip.stop("ranges over a value that is not known", in)
				}
			case *ssa.Next:
				c, ok := st[in.Iter].(*vcell)
				if !ok {
					ip.stop("ranges over a value that is not known", in)
				}
				t := c.v.(vtuple)
				s, pos := t[0].(string), t[1].(int)
				if pos >= len(s) {
					st[in] = vtuple{false, kconst(0), kconst(0)}
					continue
				}
				for i, r := range s[pos:] {
					if i == 0 {
						st[in] = vtuple{true, kconst(uint64(pos)), viWrap(kconst(uint64(r)), types.Typ[types.Int32])}
						c.v = vtuple{s, pos + len(string(r))}
						if r == 0xFFFD {
							c.v = vtuple{s, pos + 1}
						}
					}
				}
			case *ssa.TypeAssert:
				ip.stop("unsupported type assertion", in)
			case *ssa.Call:
				st[in] = ip.doCall(in, get, depth)
			case *ssa.If:
				switch c := get(in.Cond).(type) {
				case bool:
					if c {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				case kboolUnknown:
					if c != 0 {
						panic(viStop{"split", uint64(c)})
					}
					if ip.decide(in) {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				default:
					ip.stop("branches on a value that is not known", in)
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return nil
				case 1:
					return get(in.Results[0])
				}
				var t vtuple
				for _, x := range in.Results {
					t = append(t, get(x))
				}
				return t
			case *ssa.Panic:
				panic(viStop{why: "panic at " + ip.w.instrPos(in)})
			default:
				if v, ok := in.(ssa.Value); ok && ip.lenient {
					st[v] = nil
					continue
				}
				ip.stop(fmt.Sprintf("unsupported instruction %v", in), in)
			}
		}
		prev, b = b, next
	}
}

func (ip *vinterp) binop(in *ssa.BinOp, x, y interface{}) interface{} {
	t := in.X.Type()
	switch a := x.(type) {
	case kbits:
		switch b := y.(type) {
		case kbits:
			r := viBinop(in.Op, a, b, t)
			if k, ok := r.(kbits); ok {
				return viWrap(k, in.Type())
			}
			return r
		case vlen:
			return viLenBinop(in.Op, x, y)
		}
	case vlen:
		return viLenBinop(in.Op, x, y)
	case bool:
		if b, ok := y.(bool); ok {
			return (a == b) == (in.Op == token.EQL)
		}
	case vstr:
		b, ok := y.(vstr)
		if !ok {
			return nil
		}
		switch in.Op {
		case token.ADD:
			return a.concat(b)
		case token.EQL:
			return a.equal(b)
		case token.NEQ:
			switch r := a.equal(b).(type) {
			case bool:
				return !r
			case kboolUnknown:
				return r
			}
		}
		return nil
	}
	// Comparison with nil.
	nilness := func(v interface{}) (isNil, known bool) {
		switch v := v.(type) {
		case vnil:
			return true, true
		case vslice:
			return v.null, true
		case viface, *vcell, vagg, vclosure, *vmap, *vbuilder:
			return false, true
		}
		return false, false
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		a, ok1 := nilness(x)
		b, ok2 := nilness(y)
		if ok1 && ok2 && (a || b) {
			return (a == b) == (in.Op == token.EQL)
		}
	}
	return nil
}

func (ip *vinterp) convert(in *ssa.Convert, x interface{}) interface{} {
	switch x := x.(type) {
	case kbits:
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return viWrap(x, in.Type())
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if c, ok := x.const_(); ok {
				return vlit(string(rune(c)))
			}
		}
	case vlen:
		return x
	case vstr:
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return x
		}
		if s, ok := in.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			if l, ok := x.literal(); ok {
				a := make(vagg, len(l))
				for i := range a {
					a[i] = &vcell{kconst(uint64(l[i]))}
				}
				return vslice{arr: a, hi: len(a)}
			}
		}
	case vslice:
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			var out []byte
			for _, c := range x.arr[x.lo:x.hi] {
				n, ok := viConstInt(c.v)
				if !ok || n > 255 {
					return nil
				}
				out = append(out, byte(n))
			}
			return vlit(string(out))
		}
	}
	return nil
}

func (ip *vinterp) elemAddr(in ssa.Instruction, get func(ssa.Value) interface{}) interface{} {
	at := func(a vagg, i int) interface{} {
		if inner, ok := a[i].v.(vagg); ok {
			return inner
		}
		if sb, ok := a[i].v.(*vbuilder); ok {
			return sb
		}
		return a[i]
	}
	switch in := in.(type) {
	case *ssa.FieldAddr:
		switch p := get(in.X).(type) {
		case vagg:
			return at(p, in.Field)
		case *vcell:
			if a, ok := p.v.(vagg); ok {
				return at(a, in.Field)
			}
		}
	case *ssa.IndexAddr:
		x := get(in.X)
		if c, ok := x.(*vcell); ok {
			x = c.v
		}
		i, ok := viConstInt(get(in.Index))
		if !ok {
			break
		}
		switch p := x.(type) {
		case vagg:
			if i < 0 || i >= len(p) {
				panic(viStop{why: "panic: index out of range at " + ip.w.instrPos(in)})
			}
			return at(p, i)
		case vslice:
			if i < 0 || i >= p.hi-p.lo {
				panic(viStop{why: "panic: index out of range at " + ip.w.instrPos(in)})
			}
			return at(p.arr, p.lo+i)
		}
	}
	if !ip.lenient {
		ip.stop("takes the address of memory that is not known", in)
	}
	return nil
}

func (ip *vinterp) strIndex(in ssa.Instruction, s vstr, idx interface{}) interface{} {
	_, rest, ok := s.split(idx)
	if !ok {
		if l, isLit := s.literal(); isLit {
			if i, isC := viConstInt(idx); isC && (i < 0 || i >= len(l)) {
				panic(viStop{why: "panic: index out of range at " + ip.w.instrPos(in)})
			}
		}
		return nil
	}
	if len(rest) == 0 {
		panic(viStop{why: "panic: index out of range at " + ip.w.instrPos(in)})
	}
	if rest[0].num != nil && rest[0].num.base == 0 {
		return kbits{zero: ^uint64(0xff)}
	}
	if rest[0].num != nil {
		return kbits{zero: ^uint64(0x7f)}
	}
	return kconst(uint64(rest[0].lit[0]))
}

func (ip *vinterp) slice(in *ssa.Slice, get func(ssa.Value) interface{}) interface{} {
	x := get(in.X)
	if c, ok := x.(*vcell); ok {
		x = c.v
	}
	switch x := x.(type) {
	case vstr:
		if len(x) == 1 && x[0].num != nil && x[0].num.base == 0 {
			return vstr{{num: &numText{}}}
		}
		hi := x
		if in.High != nil {
			l, _, ok := x.split(get(in.High))
			if !ok {
				if lit, isLit := x.literal(); isLit {
					if i, isC := viConstInt(get(in.High)); isC && (i < 0 || i > len(lit)) {
						panic(viStop{why: "panic: slice bounds out of range at " + ip.w.instrPos(in)})
					}
				}
				return nil
			}
			hi = l
		}
		if in.Low == nil {
			return hi
		}
		_, r, ok := hi.split(get(in.Low))
		if !ok {
			if lit, isLit := hi.literal(); isLit {
				if i, isC := viConstInt(get(in.Low)); isC && (i < 0 || i > len(lit)) {
					panic(viStop{why: "panic: slice bounds out of range at " + ip.w.instrPos(in)})
				}
			}
			return nil
		}
		return r
	case vagg:
		x2 := vslice{arr: x, hi: len(x)}
		return ip.sub(in, x2, get)
	case vslice:
		return ip.sub(in, x, get)
	}
	return nil
}

func (ip *vinterp) sub(in *ssa.Slice, x vslice, get func(ssa.Value) interface{}) interface{} {
	lo, hi := 0, x.hi-x.lo
	ok := true
	if in.Low != nil {
		lo, ok = viConstInt(get(in.Low))
	}
	if ok && in.High != nil {
		hi, ok = viConstInt(get(in.High))
	}
	if !ok {
		return nil
	}
	if lo < 0 || hi < lo || x.lo+hi > len(x.arr) {
		panic(viStop{why: "panic: slice bounds out of range at " + ip.w.instrPos(in)})
	}
	return vslice{arr: x.arr, lo: x.lo + lo, hi: x.lo + hi}
}

func viKeyEqual(a, b interface{}) interface{} {
	switch a := a.(type) {
	case kbits:
		if b, ok := b.(kbits); ok {
			return kbinop(token.EQL, a, b)
		}
	case vstr:
		if b, ok := b.(vstr); ok {
			return a.equal(b)
		}
	}
	return nil
}

func (ip *vinterp) lookup(in *ssa.Lookup, m *vmap, key interface{}) interface{} {
	vt := in.Type()
	if t, ok := vt.(*types.Tuple); ok {
		vt = t.At(0).Type()
	}
	val := viZero(vt)
	found := false
	for i := len(m.keys) - 1; i >= 0; i-- {
		switch r := viKeyEqual(m.keys[i], key).(type) {
		case bool:
			if r {
				val, found = m.vals[i], true
			}
		case kboolUnknown:
			panic(viStop{"split", uint64(r)})
		default:
			if ip.lenient {
				return nil
			}
			ip.stop("looks up a key that is not known", in)
		}
		if found {
			break
		}
	}
	if in.CommaOk {
		return vtuple{viClone(val), found}
	}
	return viClone(val)
}

func (ip *vinterp) doCall(in *ssa.Call, get func(ssa.Value) interface{}, depth int) interface{} {
	c := &in.Call
	var args []interface{}
	for _, a := range c.Args {
		args = append(args, get(a))
	}
	if c.IsInvoke() {
		if ip.lenient {
			return nil
		}
		ip.stop("unsupported interface call", in)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ip.builtin(in, b.Name(), args)
	}
	f := c.StaticCallee()
	var free []interface{}
	if cl, ok := get(c.Value).(vclosure); ok {
		f, free = cl.fn, cl.free
	}
	if f == nil {
		if ip.lenient {
			return nil
		}
		ip.stop("call of an unknown function", in)
	}
	if ip.w.InRepo(f) && len(f.Blocks) > 0 {
		if ip.lenient && f.Synthetic == "package initializer" {
			return nil
		}
		return ip.call(f, args, free, depth+1)
	}
	if v, ok := ip.library(in, f.String(), args); ok {
		return v
	}
	if ip.lenient {
		return nil
	}
	ip.stop("unsupported call of "+f.String(), in)
	return nil
}

func (ip *vinterp) builtin(in *ssa.Call, name string, args []interface{}) interface{} {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case vstr:
			return x.length()
		case vslice:
			return kconst(uint64(x.hi - x.lo))
		case *vmap:
			n := 0
			for i := range m0(x) {
				dup := false
				for j := 0; j < i; j++ {
					if r, ok := viKeyEqual(x.keys[i], x.keys[j]).(bool); ok && r {
						dup = true
					}
				}
				if !dup {
					n++
				}
			}
			return kconst(uint64(n))
		}
	case "append":
		x, ok := args[0].(vslice)
		if !ok {
			break
		}
		var more []interface{}
		switch y := args[1].(type) {
		case vslice:
			for _, c := range y.arr[y.lo:y.hi] {
				more = append(more, viClone(c.v))
			}
		case vstr:
			l, lit := y.literal()
			if !lit {
				return nil
			}
			for i := 0; i < len(l); i++ {
				more = append(more, kconst(uint64(l[i])))
			}
		default:
			return nil
		}
		if len(more) == 0 {
			return x
		}
		var a vagg
		for _, c := range x.arr[x.lo:x.hi] {
			a = append(a, c)
		}
		for _, v := range more {
			a = append(a, &vcell{v})
		}
		return vslice{arr: a, hi: len(a)}
	case "copy":
		x, ok1 := args[0].(vslice)
		y, ok2 := args[1].(vslice)
		if ok1 && ok2 {
			n := x.hi - x.lo
			if m := y.hi - y.lo; m < n {
				n = m
			}
			for i := 0; i < n; i++ {
				x.arr[x.lo+i].v = viClone(y.arr[y.lo+i].v)
			}
			return kconst(uint64(n))
		}
	}
	if ip.lenient {
		return nil
	}
	ip.stop("unsupported use of "+name, in)
	return nil
}

func m0(m *vmap) []interface{} { return m.keys }

// format is fmt.Sprintf.
func (ip *vinterp) format(in ssa.Instruction, f vstr, args []interface{}) vstr {
	lit, ok := f.literal()
	if !ok {
		ip.stop("the format is not known", in)
	}
	var out vstr
	for i := 0; i < len(lit); {
		j := strings.IndexByte(lit[i:], '%')
		if j < 0 {
			out = out.concat(vlit(lit[i:]))
			break
		}
		out = out.concat(vlit(lit[i : i+j]))
		i += j + 1
		sharp := i < len(lit) && lit[i] == '#'
		if sharp {
			i++
		}
		if i >= len(lit) {
			ip.stop("unsupported format", in)
		}
		verb := lit[i]
		i++
		if verb == '%' {
			out = out.concat(vlit("%"))
			continue
		}
		if len(args) == 0 {
			ip.stop("unsupported format", in)
		}
		a, ok := args[0].(viface)
		args = args[1:]
		if !ok {
			ip.stop("formats a value that is not known", in)
		}
		// A method could take over.
		if ms := types.NewMethodSet(a.t); ms.Len() > 0 {
			ip.stop("formats a value that has methods", in)
		}
		switch v := a.v.(type) {
		case vstr:
			if verb != 's' && verb != 'v' || sharp {
				ip.stop("unsupported format", in)
			}
			out = out.concat(v)
		case kbits:
			base := 10
			switch {
			case verb == 'x':
				base = 16
			case verb == 'd' || verb == 'v' && !sharp:
			case verb == 'v' && sharp && !viSigned(a.t):
				base = 16
			default:
				ip.stop("unsupported format", in)
			}
			if base == 16 && sharp {
				out = out.concat(vlit("0x"))
			}
			out = out.concat(ip.number(in, v, base, viSigned(a.t)))
		default:
			ip.stop("formats a value that is not known", in)
		}
	}
	return out
}

func (ip *vinterp) number(in ssa.Instruction, k kbits, base int, signed bool) vstr {
	if c, ok := k.const_(); ok {
		if signed {
			return vlit(strconv.FormatInt(int64(c), base))
		}
		return vlit(strconv.FormatUint(c, base))
	}
	if signed && k.zero>>63 == 0 || base != 10 && base != 16 {
		ip.stop("writes a number that may be negative", in)
	}
	return vstr{{num: &numText{k, base}}}
}

func viStrings(v interface{}) ([]vstr, bool) {
	s, ok := v.(vslice)
	if !ok {
		return nil, false
	}
	var out []vstr
	for _, c := range s.arr[s.lo:s.hi] {
		x, ok := c.v.(vstr)
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

func viStringSlice(list []vstr) vslice {
	a := make(vagg, len(list))
	for i := range a {
		a[i] = &vcell{list[i]}
	}
	return vslice{arr: a, hi: len(a)}
}

// library models the functions of the standard library.
func (ip *vinterp) library(in *ssa.Call, name string, args []interface{}) (interface{}, bool) {
	str := func(i int) vstr {
		s, ok := args[i].(vstr)
		if !ok {
			panic(viStop{why: "a string is not known at " + ip.w.instrPos(in) + " (undecided)"})
		}
		return s
	}
	lit := func(i int) string {
		s, ok := str(i).literal()
		if !ok {
			panic(viStop{why: "a string is not known at " + ip.w.instrPos(in) + " (undecided)"})
		}
		return s
	}
	newErr := viface{types.Universe.Lookup("error").Type(), nil}
	variadic := func(i int) []interface{} {
		var out []interface{}
		if s, ok := args[i].(vslice); ok {
			for _, c := range s.arr[s.lo:s.hi] {
				out = append(out, c.v)
			}
		}
		return out
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		return newErr, true
	}
	if ip.lenient {
		// (initialisation: only what tables are made of)
		switch name {
		case "strings.ToLower", "strings.Split", "fmt.Sprintf":
		default:
			return nil, false
		}
		for _, a := range args {
			if a == nil {
				return nil, true
			}
		}
	}
	switch name {
	case "strings.Split", "strings.SplitN":
		sep := lit(1)
		n := -1
		if name == "strings.SplitN" {
			n, _ = viConstInt(args[2])
		}
		if sep == "" || n == 0 {
			break
		}
		s := str(0)
		var out []vstr
		for n < 0 || len(out) < n-1 {
			before, after, found, known := s.find(sep)
			if !known {
				panic(viStop{why: "a string is not known at " + ip.w.instrPos(in) + " (undecided)"})
			}
			if !found {
				break
			}
			out = append(out, before)
			s = after
		}
		return viStringSlice(append(out, s)), true
	case "strings.Cut":
		before, after, found, known := str(0).find(lit(1))
		if known {
			return vtuple{before, after, found}, true
		}
	case "strings.Index", "strings.IndexByte", "strings.Contains", "strings.ContainsRune", "strings.IndexRune":
		sep := ""
		if n, ok := viConstInt(args[1]); ok {
			sep = string(rune(n))
		} else {
			sep = lit(1)
		}
		before, _, found, known := str(0).find(sep)
		if !known {
			break
		}
		if strings.HasPrefix(name, "strings.Contains") {
			return found, true
		}
		if !found {
			return kconst(^uint64(0)), true
		}
		return before.length(), true
	case "strings.HasPrefix":
		return (str(0).hasPrefix(lit(1))), true
	case "strings.HasSuffix":
		return (str(0).hasSuffix(lit(1))), true
	case "strings.TrimPrefix", "strings.CutPrefix", "strings.TrimSuffix", "strings.CutSuffix":
		s, x := str(0), lit(1)
		pre := strings.HasSuffix(name, "Prefix")
		var has interface{}
		if pre {
			has = s.hasPrefix(x)
		} else {
			has = s.hasSuffix(x)
		}
		h, ok := has.(bool)
		if !ok {
			break
		}
		if h && pre {
			_, s, _ = s.split(kconst(uint64(len(x))))
		} else if h {
			l := viLenBinop(token.SUB, s.length(), kconst(uint64(len(x))))
			s, _, _ = s.split(l)
		}
		if strings.HasPrefix(name, "strings.Cut") {
			return vtuple{s, h}, true
		}
		return s, true
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSpace":
		if s, ok := str(0).literal(); ok {
			switch name {
			case "strings.TrimSpace":
				return vlit(strings.TrimSpace(s)), true
			case "strings.Trim":
				return vlit(strings.Trim(s, lit(1))), true
			case "strings.TrimLeft":
				return vlit(strings.TrimLeft(s, lit(1))), true
			default:
				return vlit(strings.TrimRight(s, lit(1))), true
			}
		}
		if name == "strings.TrimSpace" {
			s := append(vstr{}, str(0)...)
			if s[0].num == nil {
				s[0].lit = strings.TrimLeft(s[0].lit, " \t\n\r\v\f")
			}
			if n := len(s) - 1; s[n].num == nil {
				s[n].lit = strings.TrimRight(s[n].lit, " \t\n\r\v\f")
			}
			var out vstr
			for _, p := range s {
				if p.num != nil || p.lit != "" {
					out = append(out, p)
				}
			}
			return out, true
		}
	case "strings.ToLower", "strings.ToUpper":
		if s, ok := str(0).literal(); ok {
			if name == "strings.ToLower" {
				return vlit(strings.ToLower(s)), true
			}
			return vlit(strings.ToUpper(s)), true
		}
		if name == "strings.ToLower" {
			var out vstr
			for _, p := range str(0) {
				out = append(out, vpiece{strings.ToLower(p.lit), p.num})
			}
			return out, true
		}
	case "strings.EqualFold":
		x, okx := str(0).literal()
		y, oky := str(1).literal()
		if okx && oky {
			return strings.EqualFold(x, y), true
		}
		low := func(s vstr) vstr {
			var out vstr
			for _, p := range s {
				out = append(out, vpiece{strings.ToLower(p.lit), p.num})
			}
			return out
		}
		return (low(str(0)).equal(low(str(1)))), true
	case "strings.Join":
		list, ok := viStrings(args[0])
		if !ok {
			break
		}
		var out vstr
		for i, s := range list {
			if i > 0 {
				out = out.concat(str(1))
			}
			out = out.concat(s)
		}
		return out, true
	case "fmt.Sprintf":
		return ip.format(in, str(0), variadic(1)), true
	case "fmt.Fprintf":
		if w, ok := args[0].(viface); ok {
			if sb, ok := w.v.(*vbuilder); ok {
				sb.s = sb.s.concat(ip.format(in, str(1), variadic(2)))
				return vtuple{kbits{zero: 1 << 63}, vnil{}}, true
			}
		}
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Reset", "(*strings.Builder).Grow":
		sb, ok := args[0].(*vbuilder)
		if !ok {
			break
		}
		switch name[len("(*strings.Builder)."):] {
		case "WriteString":
			sb.s = sb.s.concat(str(1))
			return vtuple{str(1).length(), vnil{}}, true
		case "WriteByte":
			n, ok := viConstInt(args[1])
			if !ok {
				return nil, false
			}
			sb.s = sb.s.concat(vlit(string([]byte{byte(n)})))
			return vnil{}, true
		case "WriteRune":
			n, ok := viConstInt(args[1])
			if !ok {
				return nil, false
			}
			sb.s = sb.s.concat(vlit(string(rune(n))))
			return vtuple{kconst(uint64(len(string(rune(n))))), vnil{}}, true
		case "String":
			return append(vstr{}, sb.s...), true
		case "Len":
			return sb.s.length(), true
		case "Reset":
			sb.s = nil
		}
		return nil, true
	case "strconv.FormatUint", "strconv.FormatInt":
		k, ok1 := args[0].(kbits)
		base, ok2 := viConstInt(args[1])
		if ok1 && ok2 {
			return ip.number(in, k, base, name == "strconv.FormatInt"), true
		}
	case "strconv.Itoa":
		if k, ok := args[0].(kbits); ok {
			return ip.number(in, k, 10, true), true
		}
	case "strconv.ParseUint", "strconv.ParseInt":
		base, ok1 := viConstInt(args[1])
		bits, ok2 := viConstInt(args[2])
		if !ok1 || !ok2 {
			break
		}
		if bits == 0 {
			bits = 64
		}
		if name == "strconv.ParseInt" {
			if s, lit := str(0).literal(); lit {
				n, err := strconv.ParseInt(s, base, bits)
				if err != nil {
					return vtuple{kconst(uint64(n)), newErr}, true
				}
				return vtuple{kconst(uint64(n)), vnil{}}, true
			}
			bits--
		}
		k, ok, known := str(0).parseUint(base, bits)
		if !known {
			break
		}
		if !ok {
			return vtuple{kconst(0), newErr}, true
		}
		return vtuple{k, vnil{}}, true
	case "math/bits.Len", "math/bits.Len64", "math/bits.LeadingZeros", "math/bits.LeadingZeros64":
		if k, ok := args[0].(kbits); ok {
			v, ok, need := kbCall(name, []kbits{k})
			if ok {
				return v, true
			}
			panic(viStop{"split", need})
		}
	}
	return nil, false
}

// newVinterp is an interpreter that knows the package-level variables.
func (w *World) newVinterp(pkg *ssa.Package) (*vinterp, string) {
	ip := &vinterp{w: w, globals: map[*ssa.Global]*vcell{}, lenient: true}
	why := ip.try(func() {
		// Initialisation runs once; the guard starts out false.
		ip.call(pkg.Func("init"), nil, nil, 0)
	})
	ip.lenient = false
	for g := range w.writtenGlobals() {
		if c := ip.globals[g]; c != nil && g.Name() != "init$guard" {
			c.v = nil
		}
	}
	return ip, why.why
}

// decide picks a way at a branch that may go either way; every runs them all.
func (ip *vinterp) decide(in ssa.Instruction) bool {
	if ip.choice == nil || len(ip.choice) > 12 {
		ip.stop("branches on a value that is not known", in)
	}
	if ip.chosen == len(ip.choice) {
		ip.choice = append(ip.choice, true)
	}
	ip.chosen++
	return ip.choice[ip.chosen-1]
}

// every runs f once for each way through the branches that may go either way,
// until it returns false.
func (ip *vinterp) every(f func() bool) {
	ip.choice = []bool{}
	for {
		ip.chosen = 0
		if !f() {
			break
		}
		n := len(ip.choice)
		for n > 0 && !ip.choice[n-1] {
			n--
		}
		if n == 0 {
			break
		}
		ip.choice = append(ip.choice[:n-1:n-1], false)
	}
	ip.choice = nil
}

// try runs f and returns why it stopped.
func (ip *vinterp) try(f func()) (s viStop) {
	defer func() {
		if e := recover(); e != nil {
			st, ok := e.(viStop)
			if !ok {
				panic(e)
			}
			s = st
		}
	}()
	ip.steps = 0
	f()
	return viStop{}
}
