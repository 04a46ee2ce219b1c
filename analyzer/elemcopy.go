package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/packages"
)

// elementCopies finds loops of the form
//
//	for i := range x.f { m := &x.f[i]; ... m.F = v ... }
//
// in which m is used only to read and set fields of the element and nothing
// else reads x.f's elements, in or after the loop, and gives the source with
// m made a copy of the element instead. What is then computed is the same:
// each element is visited once, and what is written to it is read back only
// through m. The scan analysis follows copies exactly, but knows elements
// only in summary. (A write that reaches memory others see is C04's and C05's
// to find, on the source as it is.)
func elementCopies(w *World) map[string][]byte {
	out := map[string][]byte{}
	for _, path := range []string{rootPath, matchPath} {
		p := w.PPkg[path]
		for _, file := range p.Syntax {
			var cuts []int
			name := p.Fset.Position(file.Pos()).Filename
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					for _, at := range copyableIn(p, fd) {
						cuts = append(cuts, p.Fset.Position(at).Offset)
					}
				}
			}
			if len(cuts) == 0 {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			good := true
			for _, c := range cuts {
				if c >= len(src) || src[c] != '&' {
					good = false
					break
				}
				src[c] = ' '
			}
			if good {
				out[name] = src
			}
		}
	}
	return out
}

// copyableIn gives the positions of the address operators to drop in a function.
func copyableIn(p *packages.Package, fd *ast.FuncDecl) []token.Pos {
	var out []token.Pos
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		var body *ast.BlockStmt
		var idx types.Object
		var over ast.Expr
		switch s := n.(type) {
		case *ast.RangeStmt:
			key, ok := s.Key.(*ast.Ident)
			if !ok || s.Tok != token.DEFINE || s.Value != nil {
				return true
			}
			body, idx, over = s.Body, p.TypesInfo.Defs[key], s.X
		case *ast.ForStmt:
			init, ok := s.Init.(*ast.AssignStmt)
			if !ok || init.Tok != token.DEFINE || len(init.Lhs) != 1 {
				return true
			}
			key, ok := init.Lhs[0].(*ast.Ident)
			inc, ok2 := s.Post.(*ast.IncDecStmt)
			if !ok || !ok2 || inc.Tok != token.INC {
				return true
			}
			ik, ok := inc.X.(*ast.Ident)
			if !ok {
				return true
			}
			idx = p.TypesInfo.Defs[key]
			if idx == nil || p.TypesInfo.Uses[ik] != idx {
				return true
			}
			body = s.Body
		default:
			return true
		}
		if body == nil || idx == nil {
			return true
		}
		for _, st := range body.List {
			as, ok := st.(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				continue
			}
			id, ok := as.Lhs[0].(*ast.Ident)
			ue, ok2 := as.Rhs[0].(*ast.UnaryExpr)
			if !ok || !ok2 || ue.Op != token.AND {
				continue
			}
			ix, ok := ue.X.(*ast.IndexExpr)
			if !ok {
				continue
			}
			ii, ok := ix.Index.(*ast.Ident)
			if !ok || p.TypesInfo.Uses[ii] != idx {
				continue
			}
			if over != nil && !sameChain(p, over, ix.X) {
				continue
			}
			m := p.TypesInfo.Defs[id]
			root := chainRoot(p, ix.X)
			if m == nil || root == nil || !localVar(p, fd, root) {
				continue
			}
			if onlyFields(p, body, m) && setsField(p, body, m) && !setAgain(p, body, idx) {
				good := true
				for _, alias := range aliases(p, fd, ix.X) {
					r := chainRoot(p, alias)
					good = good && r != nil && localVar(p, fd, r) && !readElsewhere(p, fd, n, r, alias, ix)
				}
				if good {
					out = append(out, ue.OpPos)
				}
			}
		}
		return true
	})
	return out
}

// aliases gives the chains that name the same elements: those the sequence is
// assigned from.
func aliases(p *packages.Package, fd *ast.FuncDecl, e ast.Expr) []ast.Expr {
	list := []ast.Expr{e}
	for i := 0; i < len(list) && i < 20; i++ {
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			as, ok := n.(*ast.AssignStmt)
			if !ok || len(as.Lhs) != len(as.Rhs) {
				return true
			}
			for j, l := range as.Lhs {
				if !defines(p, l, list[i]) {
					continue
				}
				from := as.Rhs[j]
				if c, ok := from.(*ast.CallExpr); ok {
					f, ok := c.Fun.(*ast.Ident)
					if !ok || f.Name != "append" || len(c.Args) == 0 {
						continue
					}
					from = c.Args[0]
				}
				if s, ok := from.(*ast.SliceExpr); ok {
					from = s.X
				}
				known := false
				for _, k := range list {
					known = known || sameChain(p, k, from)
				}
				if !known && chainRoot(p, from) != nil {
					list = append(list, from)
				}
			}
			return true
		})
	}
	return list
}

// defines: the left side l is the chain e, or declares it.
func defines(p *packages.Package, l, e ast.Expr) bool {
	if sameChain(p, l, e) {
		return true
	}
	a, ok := l.(*ast.Ident)
	b, ok2 := e.(*ast.Ident)
	return ok && ok2 && p.TypesInfo.Defs[a] != nil && p.TypesInfo.Defs[a] == p.TypesInfo.Uses[b]
}

// chainRoot is the variable at the head of x.f.g.
func chainRoot(p *packages.Package, e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return p.TypesInfo.Uses[x]
		case *ast.SelectorExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func sameChain(p *packages.Package, a, b ast.Expr) bool {
	switch x := a.(type) {
	case *ast.Ident:
		y, ok := b.(*ast.Ident)
		return ok && p.TypesInfo.Uses[x] != nil && p.TypesInfo.Uses[x] == p.TypesInfo.Uses[y]
	case *ast.SelectorExpr:
		y, ok := b.(*ast.SelectorExpr)
		return ok && x.Sel.Name == y.Sel.Name && sameChain(p, x.X, y.X)
	}
	return false
}

// localVar: a variable of the function itself, not a parameter or receiver.
func localVar(p *packages.Package, fd *ast.FuncDecl, o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && fd.Body.Pos() <= v.Pos() && v.Pos() < fd.Body.End()
}

// parents maps each node of a tree to the one above it.
func parents(root ast.Node) map[ast.Node]ast.Node {
	up := map[ast.Node]ast.Node{}
	var stack []ast.Node
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			up[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		return true
	})
	return up
}

// onlyFields: the pointer is used only to select fields, outside closures,
// and no field's address is taken.
func onlyFields(p *packages.Package, body ast.Node, m types.Object) bool {
	up := parents(body)
	good := true
	ast.Inspect(body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || p.TypesInfo.Uses[id] != m {
			return true
		}
		sel, ok := up[id].(*ast.SelectorExpr)
		if !ok || sel.X != ast.Expr(id) {
			good = false
			return true
		}
		if s := p.TypesInfo.Selections[sel]; s == nil || s.Kind() != types.FieldVal {
			good = false
		}
		path := true // q is still the address of (part of) the field
		var below ast.Node = sel
		for q := up[sel]; q != nil; below, q = q, up[q] {
			switch q := q.(type) {
			case *ast.FuncLit:
				good = false
			case *ast.SelectorExpr, *ast.ParenExpr:
			case *ast.SliceExpr:
				if path && q.X == below {
					good = false // of an array
				}
				path = false
			case *ast.IndexExpr:
				path = path && q.X == below
			case *ast.UnaryExpr:
				if q.Op == token.AND && path {
					good = false
				}
				path = false
			default:
				path = false
			}
		}
		return true
	})
	return good
}

func setsField(p *packages.Package, body ast.Node, m types.Object) bool {
	found := false
	is := func(e ast.Expr) {
		if sel, ok := e.(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok && p.TypesInfo.Uses[id] == m {
				found = true
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				is(l)
			}
		case *ast.IncDecStmt:
			is(s.X)
		}
		return true
	})
	return found
}

// setAgain: the variable is assigned in the body, or its address is taken.
func setAgain(p *packages.Package, body ast.Node, v types.Object) bool {
	found := false
	is := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok && p.TypesInfo.Uses[id] == v {
			found = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				is(l)
			}
		case *ast.IncDecStmt:
			is(s.X)
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				is(s.X)
			}
		}
		return true
	})
	return found
}

// readElsewhere: the variable is used in the loop's body, or anywhere that may
// run after the loop began, other than for the element's address and lengths;
// uses of other fields of it (x.g, for x.f[i]) do not count.
func readElsewhere(p *packages.Package, fd *ast.FuncDecl, loop ast.Node, root types.Object, chain ast.Expr, ix *ast.IndexExpr) bool {
	up := parents(fd)
	// An outer loop would run the loop again.
	for q := up[loop]; q != nil; q = up[q] {
		switch q.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			return true
		}
	}
	found := false
	ast.Inspect(fd, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || p.TypesInfo.Uses[id] != root {
			return true
		}
		inLoop := loop.Pos() <= id.Pos() && id.Pos() < loop.End()
		// The maximal chain x.f.g this use heads.
		var e ast.Expr = id
		for {
			sel, ok := up[e].(*ast.SelectorExpr)
			if !ok || sel.X != e {
				break
			}
			if s := p.TypesInfo.Selections[sel]; s == nil || s.Kind() != types.FieldVal {
				break
			}
			e = sel
		}
		if !inLoop && id.Pos() < loop.Pos() {
			// Before the loop; what is kept there must not be the elements.
			if as, ok := up[e].(*ast.AssignStmt); ok && sameChain(p, e, chain) {
				for i, r := range as.Rhs {
					if r == e && !(i < len(as.Lhs) && defines(p, as.Lhs[i], ix.X)) {
						found = true
					}
				}
			}
			if e == ast.Expr(id) && !sameChain(p, e, chain) {
				// the whole structure: only definitions
				if as, ok := up[e].(*ast.AssignStmt); !ok || !isLHS(as, e) {
					found = true
				}
			}
			return true
		}
		if sameChain(p, e, chain) {
			if up[e] == ast.Node(ix) {
				return true
			}
			if rs, ok := up[e].(*ast.RangeStmt); ok && ast.Node(rs) == loop {
				return true
			}
			if c, ok := up[e].(*ast.CallExpr); ok {
				if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "len" {
					return true
				}
			}
			found = true
			return true
		}
		if e == ast.Expr(id) {
			found = true // the whole structure goes somewhere
		}
		return true
	})
	return found
}

func isLHS(as *ast.AssignStmt, e ast.Expr) bool {
	for _, l := range as.Lhs {
		if l == e {
			return true
		}
	}
	return false
}
