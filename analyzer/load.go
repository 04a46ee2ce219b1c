package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the type-checked program in SSA form, loaded afresh from the
// repository's working tree on every run.
type World struct {
	Repo  string
	Fset  *token.FileSet
	Lib   []*packages.Package          // library packages (./...)
	Tools []*packages.Package          // "+build ignore" generator programs
	Prog  *ssa.Program                 // SSA of Lib
	SPkg  map[string]*ssa.Package      // by import path
	PPkg  map[string]*packages.Package // by import path
	TProg map[string]*ssa.Package      // SSA of tools, by base file name
	TPkg  map[string]*packages.Package

	globalWrites map[*ssa.Global]bool // globals written outside their initialiser
	constGlobals map[types.Object]ast.Expr
}

const (
	rootPath  = "github.com/google/licensecheck"
	matchPath = rootPath + "/internal/match"
	oldPath   = rootPath + "/old"
)

// Load type-checks the repository. Any load or type error is fatal for the check.
func Load(repo string) (*World, error) { return loadWith(repo, nil) }

func loadWith(repo string, overlay map[string][]byte) (*World, error) {
	w := &World{
		Repo: repo, Fset: token.NewFileSet(),
		SPkg: map[string]*ssa.Package{}, PPkg: map[string]*packages.Package{},
		TProg: map[string]*ssa.Package{}, TPkg: map[string]*packages.Package{},
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: env, Fset: w.Fset, Overlay: overlay}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if err := firstErr(ps); err != nil {
		return nil, err
	}
	w.Lib = ps
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	for i, p := range ps {
		if sp[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		w.SPkg[p.PkgPath] = sp[i]
		w.PPkg[p.PkgPath] = p
	}
	prog.Build()
	w.Prog = prog
	if w.SPkg[rootPath] == nil || w.SPkg[matchPath] == nil {
		return nil, fmt.Errorf("package %s or %s not found", rootPath, matchPath)
	}
	return w, nil
}

// LoadTools additionally loads the generator programs that the build
// compiles one file at a time.
func (w *World) LoadTools() error {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	var files []string
	for _, dir := range []string{"", "licenses"} {
		m, _ := filepath.Glob(filepath.Join(w.Repo, dir, "*.go"))
		for _, f := range m {
			data, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			head := string(data[:min(len(data), 4000)])
			if strings.Contains(head, "+build ignore") || strings.Contains(head, "//go:build ignore") {
				rel, _ := filepath.Rel(w.Repo, f)
				files = append(files, rel)
			}
		}
	}
	sort.Strings(files)
	for _, f := range files {
		cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: w.Repo, Env: env, Fset: w.Fset}
		ps, err := packages.Load(cfg, f)
		if err != nil {
			return err
		}
		if err := firstErr(ps); err != nil {
			return err
		}
		if len(ps) != 1 {
			return fmt.Errorf("%s: %d packages", f, len(ps))
		}
		prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
		prog.Build()
		w.TProg[filepath.Base(f)] = sp[0]
		w.TPkg[filepath.Base(f)] = ps[0]
		w.Tools = append(w.Tools, ps[0])
	}
	return nil
}

func firstErr(ps []*packages.Package) error {
	if len(ps) == 0 {
		return fmt.Errorf("no packages loaded")
	}
	var err error
	packages.Visit(ps, nil, func(p *packages.Package) {
		if len(p.Errors) > 0 && err == nil {
			err = fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	})
	return err
}

// Pos renders a position relative to the repository root.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Fset.Position(p)
	if rel, err := filepath.Rel(w.Repo, q.Filename); err == nil {
		q.Filename = rel
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// instrPos finds the best position for an instruction.
func (w *World) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return w.Pos(in.Pos())
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			if _, ok := (*op).(*ssa.Function); !ok {
				return w.Pos((*op).Pos()) + "~"
			}
		}
	}
	if in.Parent() != nil {
		return w.Pos(in.Parent().Pos()) + "~"
	}
	return "-"
}

// Func returns the named package-level function, or nil.
func (w *World) Func(pkg, name string) *ssa.Function {
	p := w.SPkg[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Method returns method name of (possibly pointer to) the named type, or nil.
func (w *World) Method(pkg, typ, name string) *ssa.Function {
	p := w.SPkg[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := w.Prog.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name && len(sel.Index()) == 1 {
				fn := w.Prog.FuncValue(sel.Obj().(*types.Func))
				if fn != nil {
					return fn
				}
			}
		}
	}
	return nil
}

// InRepo reports whether fn's body is part of the analysed repository packages.
func (w *World) InRepo(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0
}

// AllFuncs lists all functions (including methods and closures) of an SSA package.
func AllFuncs(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.Prog.MethodSets.MethodSet(T)
				for i := 0; i < ms.Len(); i++ {
					if fo, ok := ms.At(i).Obj().(*types.Func); ok && fo.Pkg() == p.Pkg {
						add(p.Prog.FuncValue(fo))
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

// writtenGlobals returns the globals of the analysed library packages that are
// stored to (or whose address escapes into anything but a load, a field/index
// address used for loads, or a method call on sync.Once) outside package
// initialisers.
func (w *World) writtenGlobals() map[*ssa.Global]bool {
	if w.globalWrites != nil {
		return w.globalWrites
	}
	g := map[*ssa.Global]bool{}
	for _, p := range w.SPkg {
		for _, fn := range AllFuncs(p) {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch in := in.(type) {
						case *ssa.UnOp:
							continue // load
						case *ssa.FieldAddr, *ssa.IndexAddr:
							if addrOnlyLoaded(in.(ssa.Value)) {
								continue
							}
						case *ssa.DebugRef:
							continue
						}
						g[gl] = true
					}
				}
			}
		}
	}
	w.globalWrites = g
	return g
}

func addrOnlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !addrOnlyLoaded(r) {
				return false
			}
		case *ssa.IndexAddr:
			if r.X != v || !addrOnlyLoaded(r) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// globalInit returns the initialiser expression of a package-level variable
// and the type information of its package.
func (w *World) globalInit(obj types.Object) (ast.Expr, *types.Info) {
	for _, p := range w.Lib {
		if p.Types != obj.Pkg() {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if p.TypesInfo.Defs[n] == obj && i < len(vs.Values) {
							return vs.Values[i], p.TypesInfo
						}
					}
				}
			}
		}
	}
	return nil, nil
}

// constString returns the constant string value of e, if any.
func constString(info *types.Info, e ast.Expr) (string, bool) {
	tv, ok := info.Types[e]
	if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(tv.Value), true
}
