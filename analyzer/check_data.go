package main

import (
	"bytes"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"text/template"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["U01"] = checkU01
	checks["D01"] = checkD01
}

// licenseRow is one evaluated entry of a package-level []License literal.
type licenseRow struct {
	ID, URL, LRE string
	Type         uint64
	HasType      bool
	Pos          string
}

// licenseTables evaluates every package-level variable of type []License in
// the root package that is initialised with a literal.
func (w *World) licenseTables(r *Report) map[string][]licenseRow {
	out := map[string][]licenseRow{}
	p := w.SPkg[rootPath]
	lt := p.Type("License")
	if lt == nil {
		r.bad("anchors", "License", "-", "type License not found")
		return out
	}
	st, ok := lt.Type().Underlying().(*types.Struct)
	if !ok {
		r.bad("anchors", "License", "-", "License is not a struct")
		return out
	}
	fieldAt := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		fieldAt[st.Field(i).Name()] = i
	}
	for name, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		sl, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), lt.Type()) {
			continue
		}
		rows, info, ok := w.tableRows(g)
		if !ok {
			r.bad("table-constant", name, w.Pos(g.Pos()), "the table is not a literal, or is written after initialisation")
			continue
		}
		for _, row := range rows {
			var lr licenseRow
			lr.Pos = w.Pos(row.val.Pos())
			for f, i := range fieldAt {
				e := structField(info, row.val, i)
				if e == nil {
					continue
				}
				v := info.Types[e].Value
				if v == nil {
					r.bad("table-constant", name, lr.Pos, "field "+f+" is not a constant")
					continue
				}
				switch f {
				case "ID":
					lr.ID = constant.StringVal(v)
				case "URL":
					lr.URL = constant.StringVal(v)
				case "LRE":
					lr.LRE = constant.StringVal(v)
				case "Type":
					u, exact := constant.Uint64Val(constant.ToInt(v))
					if exact {
						lr.Type, lr.HasType = u, true
					}
				}
			}
			out[name] = append(out[name], lr)
		}
	}
	return out
}

// constRegexps returns the constant pattern of every package-level regexp of
// pkg that functions reachable from fn use.
func (w *World) usedRegexps(fn *ssa.Function) map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	for f := range reachable(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil {
						continue
					}
					if pat, ok := w.regexpPattern(g); ok {
						out[g] = pat
					}
				}
			}
		}
	}
	return out
}

// regexpPattern finds the constant pattern stored in g by its initialiser.
func (w *World) regexpPattern(g *ssa.Global) (string, bool) {
	if !strings.HasSuffix(g.Type().String(), "*regexp.Regexp") || w.writtenGlobals()[g] {
		return "", false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return "", false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			c, ok := st.Val.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			if n := c.Call.StaticCallee().String(); n != "regexp.MustCompile" {
				continue
			}
			if k := constOf(c.Call.Args[0]); k != nil && k.Kind() == constant.String {
				return constant.StringVal(k), true
			}
		}
	}
	return "", false
}

// reachable returns the repository functions statically reachable from fn.
func reachable(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return seen
}

// U01: every built-in URL entry is one the URL recognizer can produce.
func checkU01(w *World, r *Report) {
	r.Rule = "Evaluate the package-level license tables from the type-checked syntax. Every URL entry must be a constant in the canonical form the lookup produces (lower case, no scheme, no trailing slash, no /legalcode suffix), occur once, name an ID of a built-in pattern, and, behind either scheme in either case and with or without a trailing slash, be matched in full by the constant URL pattern that scanning uses."
	r.Minimums["URL entries"] = 100
	r.Minimums["URL patterns"] = 1
	tables := w.licenseTables(r)
	ids := map[string]bool{}
	var urls []licenseRow
	for name, rows := range tables {
		r.Counts["tables"]++
		for _, row := range rows {
			if row.LRE != "" {
				ids[row.ID] = true
			}
			if row.URL != "" {
				urls = append(urls, row)
			}
			r.check(row.ID != "" && (row.URL != "" || row.LRE != ""), "entry-complete", name+" entry "+row.ID+row.URL, row.Pos, "entry has an ID and a pattern or URL")
		}
	}
	scan := w.Method(rootPath, "Scanner", "Scan")
	if scan == nil {
		r.bad("anchors", "Scanner.Scan", "-", "method not found")
		return
	}
	var res []*regexp.Regexp
	for g, pat := range w.usedRegexps(scan) {
		re, err := regexp.Compile(pat)
		if err != nil {
			r.bad("url-pattern", g.Name(), w.Pos(g.Pos()), err.Error())
			continue
		}
		r.Counts["URL patterns"]++
		res = append(res, re)
		rs, _ := syntax.Parse(pat, syntax.Perl)
		r.sample("URL pattern %s = %q (%d sub-expressions)", g.Name(), pat, len(rs.Sub))
	}
	seen := map[string]string{}
	sort.Slice(urls, func(i, j int) bool { return urls[i].URL < urls[j].URL })
	for _, u := range urls {
		r.Counts["URL entries"]++
		canon := u.URL
		problem := ""
		switch {
		case strings.ToLower(canon) != canon:
			problem = "not lower case: a lookup lower-cases the URL, so the entry can never be found"
		case strings.HasPrefix(canon, "http://") || strings.HasPrefix(canon, "https://"):
			problem = "includes the scheme, which the lookup removes"
		case strings.HasSuffix(canon, "/"):
			problem = "ends in a slash, which the lookup removes"
		case strings.HasSuffix(canon, "/legalcode"):
			problem = "ends in /legalcode, which the lookup removes"
		}
		r.check(problem == "", "canonical-url", u.URL, u.Pos, orText(problem, "canonical"))
		r.check(seen[canon] == "", "unique-url", u.URL, u.Pos, "URL also listed at "+seen[canon])
		seen[canon] = u.Pos
		r.check(ids[u.ID], "known-id", u.URL+" -> "+u.ID, u.Pos, "ID of a built-in pattern")
		for _, prefix := range []string{"http://", "https://", "HTTP://", "HTTPS://"} {
			for _, suffix := range []string{"", "/", "/legalcode"} {
				s := prefix + canon + suffix
				ok := len(res) > 0
				for _, re := range res {
					m := re.FindStringIndex(s)
					if m == nil || m[0] != 0 || m[1] != len(s) {
						ok = false
					}
				}
				r.check(ok, "url-recognized", u.URL, u.Pos, fmt.Sprintf("the scanner's URL pattern matches all of %q", s))
			}
		}
	}
}

func orText(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

var commentRE = regexp.MustCompile(`(?s)//\*\*.*?\*\*//`)

func normLRE(s string) string {
	return strings.Join(strings.Fields(commentRE.ReplaceAllString(s, " ")), " ")
}

// D01: the generated table agrees with the license definitions.
func checkD01(w *World, r *Report) {
	r.Rule = "Expand the license definition templates (licenses/*.lre) from source and compare the result with the evaluated built-in pattern table: the same IDs, each exactly once, with the same declared type and the same pattern up to comments and white space; and where one pattern is documented as a generalisation of another, the more specific one comes first."
	r.Minimums["definitions"] = 400
	consts := w.typeConsts()
	files, _ := filepath.Glob(filepath.Join(w.Repo, "licenses", "*.lre"))
	sort.Strings(files)
	if len(files) == 0 {
		r.bad("anchors", "licenses/*.lre", "-", "no license definitions found")
		return
	}
	for _, f := range files {
		if _, err := os.Stat(f); err != nil {
			r.bad("anchors", f, "-", err.Error())
			return
		}
	}
	var typ uint64
	t, err := template.New("").Funcs(template.FuncMap{
		"list": func(xs ...interface{}) []interface{} {
			var list []interface{}
			for _, x := range xs {
				if l, ok := x.([]interface{}); ok {
					list = append(list, l...)
				} else {
					list = append(list, x)
				}
			}
			return list
		},
		"Type": func(s string) (string, error) {
			typ = 0
			for _, f := range strings.Split(s, "|") {
				v, ok := consts[f]
				if !ok {
					return "", fmt.Errorf("unknown type %q", f)
				}
				typ |= v
			}
			return "", nil
		},
	}).ParseFiles(files...)
	if err != nil {
		r.bad("definitions", "licenses/*.lre", "-", err.Error())
		return
	}
	type def struct {
		typ uint64
		lre string
	}
	defs := map[string]def{}
	for _, t := range t.Templates() {
		name := t.Name()
		if !strings.HasSuffix(name, ".lre") {
			continue
		}
		typ = 0
		var buf bytes.Buffer
		if err := t.Execute(&buf, nil); err != nil {
			r.bad("definitions", name, "-", err.Error())
			continue
		}
		if len(bytes.TrimSpace(buf.Bytes())) == 0 {
			r.Counts["definition-only files"]++
			continue
		}
		defs[strings.TrimSuffix(name, ".lre")] = def{typ, normLRE(buf.String())}
		r.Counts["definitions"]++
	}
	at := map[string]int{}
	n := 0
	for name, rows := range w.licenseTables(r) {
		for _, row := range rows {
			if row.LRE == "" {
				continue
			}
			n++
			_, dup := at[row.ID]
			r.check(!dup, "unique-id", row.ID, row.Pos, "one table entry per ID in "+name)
			at[row.ID] = n
			d, ok := defs[row.ID]
			if !r.check(ok, "defined", row.ID, row.Pos, "the table entry has a definition in licenses/"+row.ID+".lre") {
				continue
			}
			r.check(d.typ == row.Type, "type-agrees", row.ID, row.Pos, fmt.Sprintf("definition has type %#x, table %#x", d.typ, row.Type))
			norm := normLRE(row.LRE)
			r.check(d.lre == norm, "pattern-agrees", row.ID, row.Pos, "pattern in the table equals the expanded definition"+firstDiff(d.lre, norm))
		}
	}
	r.Counts["table entries"] = n
	for id := range defs {
		_, ok := at[id]
		r.check(ok, "listed", id, "licenses/"+id+".lre", "the definition appears in the built-in table")
	}
	before := func(a, b, why string) {
		ia, oka := at[a]
		ib, okb := at[b]
		if oka && okb {
			r.Counts["ordered pairs"]++
			r.check(ia < ib, "specific-first", a+" before "+b, "data.gen.go", why)
		}
	}
	before("BSD-4-Clause-UC", "BSD-4-Clause", "BSD-4-Clause generalises BSD-4-Clause-UC, and the first entry wins")
	for id := range at {
		if strings.HasPrefix(id, "GFDL-") && strings.Contains(id, "-no-invariants-") {
			before(id, strings.Replace(id, "-no-invariants-", "-invariants-", 1), "the invariants pattern generalises the no-invariants one, and the first entry wins")
		}
	}
	r.Minimums["ordered pairs"] = 5
}

func firstDiff(a, b string) string {
	if a == b {
		return ""
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-30)
	return fmt.Sprintf("; first difference: definition %q, table %q", a[lo:min(len(a), i+30)], b[lo:min(len(b), i+30)])
}
