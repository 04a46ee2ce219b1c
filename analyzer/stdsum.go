package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summaries of the standard library. Packages listed in purePkg have no
// effect other than the ones named below; anything not covered is reported.
var purePkg = map[string]bool{
	"strings": true, "bytes": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"strconv": true, "errors": true, "math": true, "math/bits": true, "sort": true, "slices": true,
	"cmp": true, "regexp": true, "regexp/syntax": true, "encoding/binary": true, "html": true,
}

// stdWrites: functions that write memory reachable from the argument at the index.
var stdWrites = map[string]int{
	"unicode/utf8.EncodeRune": 0, "unicode/utf8.AppendRune": 0,
	"strconv.AppendInt": 0, "strconv.AppendUint": 0, "strconv.AppendQuote": 0, "strconv.AppendBool": 0, "strconv.AppendFloat": 0, "strconv.AppendQuoteRune": 0,
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Sort": 0, "sort.Stable": 0, "sort.Strings": 0, "sort.Ints": 0, "sort.Float64s": 0,
	"slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0, "slices.Compact": 0, "slices.CompactFunc": 0,
	"slices.Delete": 0, "slices.DeleteFunc": 0, "slices.Insert": 0, "slices.Replace": 0, "slices.Grow": 0,
	"fmt.Append": 0, "fmt.Appendf": 0, "fmt.Appendln": 0, "fmt.Fprint": 0, "fmt.Fprintf": 0, "fmt.Fprintln": 0,
	"encoding/binary.PutUvarint": 0, "encoding/binary.PutVarint": 0, "encoding/binary.AppendUvarint": 0, "encoding/binary.AppendVarint": 0,
}

func qualName(fn *ssa.Function) (pkg, name string, recv types.Type) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Object() == nil || o.Object().Pkg() == nil {
		return "", o.String(), nil
	}
	f := o.Object().(*types.Func)
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil {
		recv = sig.Recv().Type()
	}
	return f.Pkg().Path(), f.Name(), recv
}

func recvName(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (e *effects) stdCall(c *effCtx, in ssa.CallInstruction, fn *ssa.Function, args []ssa.Value, res ssa.Value) {
	if fn.Object() == nil && fn.Name() == "init" {
		return // initialiser of an imported library package
	}
	pkg, name, recv := qualName(fn)
	q := pkg + "." + name
	if recv != nil {
		q = pkg + "." + recvName(recv) + "." + name
	}
	if e.final {
		e.stdCalls[q]++
	}
	aliasResult := func() {
		if res == nil {
			return
		}
		e.stdResult(c, in, res, args)
	}
	writeArg := func(i int) {
		if i >= len(args) {
			return
		}
		for t := range e.targets(c, args[i], "") {
			e.writeEvent(c, in, t, "call of "+q+" writes")
			if t.o.kind == objFresh {
				e.writeEvent(c, in, t, "")
			}
		}
	}
	switch {
	case q == "sync.Once.Do" || q == "sync.OnceFunc" || q == "sync.OnceValue" || q == "sync.OnceValues":
		if q != "sync.Once.Do" {
			e.note("call", c, in, "calls "+q+" (not summarised)")
			return
		}
		for t := range e.targets(c, args[1], "") {
			if t.o.fn != nil {
				e.enter(c, in, t.o.fn, t.o, nil, nil, true)
				e.note("once", c, in, "runs "+shortFn(t.o.fn)+" at most once")
			} else if t.o.kind == objShared || t.o.kind == objInput {
				e.note("call", c, in, "calls a function value that is not known statically")
			}
		}
		for t := range e.targets(c, args[0], "") {
			if t.o.kind != objShared {
				e.note("badonce", c, in, "the sync.Once is not shared by all calls")
			}
		}
		return
	case pkg == "sync" || pkg == "sync/atomic":
		writeArg(0)
		e.note("nondet", c, in, "calls "+q)
		aliasResult()
		return
	case pkg == "fmt" && (name == "Sprint" || name == "Sprintf" || name == "Sprintln" || name == "Errorf" || strings.HasPrefix(name, "Append")):
		e.callMethodsOf(c, in, args)
		if i, ok := stdWrites[q]; ok {
			writeArg(i)
		}
		if name == "Errorf" {
			e.errResult(c, in, res)
			return
		}
		aliasResult()
		return
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"):
		// Allowed only when the writer is an in-memory buffer.
		if mi, ok := args[0].(*ssa.MakeInterface); ok {
			switch mi.X.Type().String() {
			case "*strings.Builder", "*bytes.Buffer":
				writeArg(0)
				return
			}
		}
		e.note("call", c, in, "calls "+q+" with a writer that is not an in-memory buffer")
		return
	case pkg == "encoding/binary" && (strings.HasPrefix(name, "Put")):
		if recv != nil {
			writeArg(1)
		} else {
			writeArg(0)
		}
		return
	case pkg == "encoding/binary" && (name == "Write" || name == "Read"):
		e.note("call", c, in, "calls "+q)
		return
	case (pkg == "errors" && name == "New"):
		e.errResult(c, in, res)
		return
	case pkg == "maps":
		switch name {
		case "Clone", "Equal":
			aliasResult()
		default:
			e.note("nondet", c, in, "calls "+q+" (map iteration order)")
			aliasResult()
		}
		return
	case purePkg[pkg]:
		if i, ok := stdWrites[q]; ok {
			writeArg(i)
		}
		if recv != nil {
			switch recvName(recv) {
			case "Builder", "Buffer", "Reader":
				switch name {
				case "Len", "Cap", "String", "Bytes", "Size", "Available":
				default:
					writeArg(0)
				}
				if name == "WriteTo" || name == "ReadFrom" {
					e.note("call", c, in, "calls "+q)
				}
			case "Regexp":
				if name == "Longest" {
					writeArg(0)
				}
			case "Replacer":
				if name == "WriteString" {
					e.note("call", c, in, "calls "+q)
				}
			}
		}
		// Callbacks.
		for i, a := range args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			for t := range e.targets(c, a, "") {
				if t.o.fn == nil {
					e.note("call", c, in, fmt.Sprintf("%s calls a function value that is not known statically", q))
					continue
				}
				cc := e.enter2(c, in, t.o, args, i)
				_ = cc
			}
		}
		aliasResult()
		return
	}
	e.note("call", c, in, "calls "+q)
	aliasResult()
}

// enter2 analyses a callback: its pointerful parameters may be anything
// reachable from the elements of the other arguments.
func (e *effects) enter2(c *effCtx, in ssa.CallInstruction, clo *object, args []ssa.Value, skip int) *effCtx {
	fn := clo.fn
	if len(fn.Blocks) == 0 {
		return nil
	}
	cc := e.enter(c, in, fn, clo, nil, nil, c.inOnce)
	for _, p := range fn.Params {
		for _, l := range leaves(p.Type()) {
			for j, a := range args {
				if j == skip {
					continue
				}
				for t := range e.targets(c, a, "") {
					if selfClosed(t.o) {
						e.addPts(cc, p, l, target{e.closed(t.o), ""})
					} else {
						for h := range e.heap[target{t.o, t.path + "[]" + l}] {
							e.addPts(cc, p, l, h)
						}
					}
				}
			}
		}
	}
	return cc
}

// callMethodsOf: fmt calls Error/String methods of its operands.
func (e *effects) callMethodsOf(c *effCtx, in ssa.CallInstruction, args []ssa.Value) {
	// Operands are stored into the variadic slice as interfaces; find the
	// concrete types with repository-defined String/Error/Format methods.
	for _, a := range args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok {
					continue
				}
				mi, ok := st.Val.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				for _, m := range []string{"Error", "String", "Format", "GoString"} {
					if f := e.methodOf(mi.X.Type(), m); f != nil && len(f.Blocks) > 0 {
						if m == "Format" {
							e.note("call", c, in, "formats a value with a Format method")
							continue
						}
						e.enter(c, in, f, nil, []ssa.Value{mi.X}, nil, c.inOnce)
					}
				}
			}
		}
	}
}

func (e *effects) methodOf(t types.Type, name string) *ssa.Function {
	ms := e.w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *effects) errResult(c *effCtx, in ssa.CallInstruction, res ssa.Value) {
	if res != nil {
		e.addPts(c, res, "", target{e.fresh(c, res, "error"), ""})
	}
}

// stdResult: results of pure library functions are fresh, except that a
// pointerful result may alias an argument of the same type.
func (e *effects) stdResult(c *effCtx, in ssa.CallInstruction, res ssa.Value, args []ssa.Value) {
	addFor := func(pre string, t types.Type) {
		ls := leaves(t)
		if len(ls) == 0 {
			return
		}
		o := e.fresh(c, res, "result")
		for _, l := range ls {
			e.addPts(c, res, pre+l, target{o, ""})
		}
		for _, a := range args {
			if mayAlias(t, a.Type()) {
				for t2 := range e.targets(c, a, "") {
					for _, l := range ls {
						e.addPts(c, res, pre+l, t2)
						e.heapAdd(target{o, "[]"}, t2)
					}
				}
			}
		}
	}
	if tup, ok := res.Type().(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			addFor(fmt.Sprintf("#%d", i), tup.At(i).Type())
		}
		return
	}
	addFor("", res.Type())
}

// mayAlias reports whether a result of type t can share memory with an argument of type a.
func mayAlias(t, a types.Type) bool {
	elem := func(t types.Type) (types.Type, int) {
		n := 0
		for {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Pointer:
				t = u.Elem()
			default:
				return t, n
			}
			n++
		}
	}
	x, nx := elem(t)
	y, ny := elem(a)
	if ny == 0 || nx == 0 {
		_, i1 := t.Underlying().(*types.Interface)
		return i1 && ny > 0
	}
	return types.Identical(x.Underlying(), y.Underlying())
}

func (e *effects) invoke(c *effCtx, in ssa.CallInstruction, res ssa.Value) {
	cc := in.Common()
	m := cc.Method
	// Methods of error values made by the library are pure.
	if m.Name() == "Error" && types.Identical(cc.Value.Type().Underlying(), types.Universe.Lookup("error").Type().Underlying()) {
		// Repository error types: analyse their Error methods.
		for _, p := range e.w.SPkg {
			for _, mem := range p.Members {
				if t, ok := mem.(*ssa.Type); ok {
					for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
						if types.Implements(T, cc.Value.Type().Underlying().(*types.Interface)) {
							if f := e.methodOf(T, "Error"); f != nil && len(f.Blocks) > 0 {
								e.enter(c, in, f, nil, []ssa.Value{cc.Value}, res, c.inOnce)
							}
						}
					}
				}
			}
		}
		return
	}
	if cc.Value.Type().String() == "encoding/binary.ByteOrder" || cc.Value.Type().String() == "encoding/binary.AppendByteOrder" {
		if strings.HasPrefix(m.Name(), "Put") || strings.HasPrefix(m.Name(), "Append") {
			for t := range e.targets(c, cc.Args[0], "") {
				e.writeEvent(c, in, t, "call of "+m.FullName()+" writes")
			}
		}
		if res != nil {
			e.stdResult(c, in, res, cc.Args)
		}
		return
	}
	// Other interfaces: every repository type that implements it.
	iface, _ := cc.Value.Type().Underlying().(*types.Interface)
	n := 0
	if iface != nil && m.Pkg() != nil && (m.Pkg().Path() == rootPath || strings.HasPrefix(m.Pkg().Path(), rootPath+"/")) {
		for _, p := range e.w.SPkg {
			for _, mem := range p.Members {
				if t, ok := mem.(*ssa.Type); ok {
					for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
						if types.Implements(T, iface) {
							if f := e.methodOf(T, m.Name()); f != nil && len(f.Blocks) > 0 {
								n++
								e.enter(c, in, f, nil, append([]ssa.Value{cc.Value}, cc.Args...), res, c.inOnce)
							}
						}
					}
				}
			}
		}
	}
	if n == 0 {
		e.note("call", c, in, "calls interface method "+m.FullName())
	}
}

// stringSet bounds v to a finite set of string constants.
func (w *World) stringSet(v ssa.Value) ([]string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}, true
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			if _, isPhi := e.(*ssa.Phi); isPhi {
				return nil, false
			}
			s, ok := w.stringSet(e)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return w.addrStrings(x.X, nil)
		}
	case *ssa.Field:
		return w.structStrings(x.X, []int{x.Field})
	case *ssa.Extract:
		// map/range value
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				if g := loadedGlobal(r.X); g != nil {
					return w.tableStrings(g, nil, x.Index == 1)
				}
			}
		}
	}
	return nil, false
}

// structStrings: strings in field path of a struct value.
func (w *World) structStrings(v ssa.Value, path []int) ([]string, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return w.addrStrings(x.X, path)
		}
	case *ssa.Field:
		return w.structStrings(x.X, append([]int{x.Field}, path...))
	case *ssa.Index:
		if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok {
				return w.tableStrings(g, path, false)
			}
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok && x.Index == 2 {
				if g := loadedGlobal(r.X); g != nil {
					return w.tableStrings(g, path, false)
				}
			}
		}
	}
	return nil, false
}

func loadedGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				g, _ := x.X.(*ssa.Global)
				return g
			}
			return nil
		case *ssa.Slice:
			v = x.X
		case *ssa.Global:
			return x
		default:
			return nil
		}
	}
}

// addrStrings: strings stored at address a (then field path).
func (w *World) addrStrings(a ssa.Value, path []int) ([]string, bool) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return w.addrStrings(x.X, append([]int{x.Field}, path...))
	case *ssa.IndexAddr:
		if g := loadedGlobal(x.X); g != nil {
			return w.tableStrings(g, path, false)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			return w.allocStrings(al, path)
		}
	case *ssa.Alloc:
		return w.allocStrings(x, path)
	}
	return nil, false
}

// allocStrings: a local copy of a table element (range variable).
func (w *World) allocStrings(al *ssa.Alloc, path []int) ([]string, bool) {
	var out []string
	n := 0
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != al {
				return nil, false
			}
			n++
			var s []string
			var ok bool
			if len(path) == 0 {
				s, ok = w.stringSet(r.Val)
			} else {
				s, ok = w.structStrings(r.Val, path)
			}
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		case *ssa.FieldAddr:
			if !addrOnlyLoaded(r) {
				return nil, false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, n > 0
}

// tableStrings enumerates the strings at field path of every element of the
// composite literal initialising g, provided g is never written.
func (w *World) tableStrings(g *ssa.Global, path []int, keys bool) ([]string, bool) {
	rows, info, ok := w.tableRows(g)
	if !ok {
		return nil, false
	}
	var out []string
	for _, r := range rows {
		var e ast.Expr
		if keys {
			e = r.key
		} else {
			e = r.val
			for _, f := range path {
				e = structField(info, e, f)
				if e == nil {
					break
				}
			}
		}
		if e == nil {
			if keys {
				return nil, false
			}
			out = append(out, "")
			continue
		}
		s, ok := constString(info, e)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

type tableRow struct {
	key, val ast.Expr
}

// tableRows returns the rows of the composite literal initialising g, provided
// nothing ever writes g.
func (w *World) tableRows(g *ssa.Global) ([]tableRow, *types.Info, bool) {
	if g.Object() == nil || w.writtenGlobals()[g] {
		return nil, nil, false
	}
	return w.literalRows(g)
}

// literalRows decodes the composite literal initialising g.
func (w *World) literalRows(g *ssa.Global) ([]tableRow, *types.Info, bool) {
	if g.Object() == nil {
		return nil, nil, false
	}
	init, info := w.globalInit(g.Object())
	if init == nil {
		return nil, nil, false
	}
	cl, ok := ast.Unparen(init).(*ast.CompositeLit)
	if !ok {
		return nil, nil, false
	}
	var rows []tableRow
	for _, e := range cl.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			rows = append(rows, tableRow{kv.Key, kv.Value})
		} else {
			rows = append(rows, tableRow{nil, e})
		}
	}
	return rows, info, true
}

func structField(info *types.Info, e ast.Expr, field int) ast.Expr {
	cl, ok := ast.Unparen(e).(*ast.CompositeLit)
	if !ok {
		if u, ok2 := ast.Unparen(e).(*ast.UnaryExpr); ok2 && u.Op == token.AND {
			cl, ok = ast.Unparen(u.X).(*ast.CompositeLit)
		}
		if !ok {
			return nil
		}
	}
	t := info.Types[cl].Type
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || field >= st.NumFields() {
		return nil
	}
	for i, el := range cl.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok && id.Name == st.Field(field).Name() {
				return kv.Value
			}
		} else if i == field {
			return el
		}
	}
	return nil
}

// mapKeySet enumerates the keys of a never-written package-level map literal.
func (w *World) mapKeySet(v ssa.Value) ([]string, bool) {
	g := loadedGlobal(v)
	if g == nil {
		return nil, false
	}
	return w.tableStrings(g, nil, true)
}
