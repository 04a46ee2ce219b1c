package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

// Linear expressions over integer symbols, and entailment between linear
// constraints over the rationals with integer tightening (the numeric part of
// the template-polyhedra domain used by the scan-path analysis).

type sym int

// lin is c + sum(k[i]*s[i]); s is sorted and k has no zeros. Immutable.
type lin struct {
	c int64
	s []sym
	k []int64
}

func lc(c int64) lin { return lin{c: c} }
func lv(s sym) lin   { return lin{s: []sym{s}, k: []int64{1}} }

func (a lin) isConst() bool { return len(a.s) == 0 }

func (a lin) coef(s sym) int64 {
	for i, x := range a.s {
		if x == s {
			return a.k[i]
		}
	}
	return 0
}

func (a lin) has(s sym) bool { return a.coef(s) != 0 }

func linComb(a lin, ka int64, b lin, kb int64) lin {
	r := lin{c: a.c*ka + b.c*kb}
	i, j := 0, 0
	for i < len(a.s) || j < len(b.s) {
		var s sym
		var k int64
		switch {
		case j >= len(b.s) || i < len(a.s) && a.s[i] < b.s[j]:
			s, k = a.s[i], a.k[i]*ka
			i++
		case i >= len(a.s) || b.s[j] < a.s[i]:
			s, k = b.s[j], b.k[j]*kb
			j++
		default:
			s, k = a.s[i], a.k[i]*ka+b.k[j]*kb
			i++
			j++
		}
		if k != 0 {
			r.s = append(r.s, s)
			r.k = append(r.k, k)
		}
	}
	return r
}

func (a lin) add(b lin) lin     { return linComb(a, 1, b, 1) }
func (a lin) sub(b lin) lin     { return linComb(a, 1, b, -1) }
func (a lin) addc(c int64) lin  { return lin{a.c + c, a.s, a.k} }
func (a lin) scale(k int64) lin { return linComb(a, k, lin{}, 0) }
func (a lin) neg() lin          { return a.scale(-1) }
func (a lin) eq(b lin) bool {
	if a.c != b.c || len(a.s) != len(b.s) {
		return false
	}
	for i := range a.s {
		if a.s[i] != b.s[i] || a.k[i] != b.k[i] {
			return false
		}
	}
	return true
}

// sameShape: a-b is a constant.
func (a lin) sameShape(b lin) bool {
	return a.addc(b.c - a.c).eq(b)
}

func (a lin) subst(s sym, e lin) lin {
	k := a.coef(s)
	if k == 0 {
		return a
	}
	return linComb(linComb(a, 1, lv(s), -k), 1, e, k)
}

// substAll replaces symbols simultaneously.
func (a lin) substAll(m map[sym]lin) lin {
	hit := false
	for _, s := range a.s {
		if _, ok := m[s]; ok {
			hit = true
		}
	}
	if !hit {
		return a
	}
	r := lc(a.c)
	for i, s := range a.s {
		if e, ok := m[s]; ok {
			r = linComb(r, 1, e, a.k[i])
		} else {
			r = linComb(r, 1, lv(s), a.k[i])
		}
	}
	return r
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten normalises a constraint a >= 0 over the integers.
func (a lin) tighten() lin {
	if len(a.s) == 0 {
		return a
	}
	g := int64(0)
	for _, k := range a.k {
		g = gcd64(g, k)
	}
	if g <= 1 {
		return a
	}
	r := lin{s: a.s, k: make([]int64, len(a.k))}
	for i, k := range a.k {
		r.k[i] = k / g
	}
	// floor
	r.c = a.c / g
	if a.c%g != 0 && a.c < 0 {
		r.c--
	}
	return r
}

func (a lin) String() string {
	var b strings.Builder
	for i, s := range a.s {
		k := a.k[i]
		switch {
		case k == 1:
			b.WriteString("+")
		case k == -1:
			b.WriteString("-")
		default:
			fmt.Fprintf(&b, "%+d*", k)
		}
		b.WriteString(symName(s))
	}
	if a.c != 0 || len(a.s) == 0 {
		fmt.Fprintf(&b, "%+d", a.c)
	}
	return b.String()
}

// Symbols.
var symNames []string
var symByName = map[string]sym{}

func symFor(name string) sym {
	if s, ok := symByName[name]; ok {
		return s
	}
	s := sym(len(symNames))
	symNames = append(symNames, name)
	symByName[name] = s
	return s
}

func symName(s sym) string {
	if s < 0 {
		return fmt.Sprintf("$%d", -s)
	}
	return symNames[s]
}

// Rationals with overflow detection. Zero may have any denominator.
type rat struct{ n, d int64 }

type ratOverflow struct{}

func mk(n, d int64) rat {
	if d < 0 {
		n, d = -n, -d
	}
	if n == 0 {
		return rat{}
	}
	if d == 1 {
		return rat{n, 1}
	}
	g := gcd64(n, d)
	return rat{n / g, d / g}
}

func mul64(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	ua, ub := uint64(a), uint64(b)
	neg := false
	if a < 0 {
		ua = uint64(-a)
		neg = !neg
	}
	if b < 0 {
		ub = uint64(-b)
		neg = !neg
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<62 {
		panic(ratOverflow{})
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func add64(a, b int64) int64 {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		panic(ratOverflow{})
	}
	return c
}

func (a rat) mul(b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{}
	}
	if a.d == 1 && b.d == 1 {
		return rat{mul64(a.n, b.n), 1}
	}
	return mk(mul64(a.n, b.n), mul64(a.d, b.d))
}
func (a rat) sub(b rat) rat {
	if b.n == 0 {
		return a
	}
	if a.n == 0 {
		return rat{-b.n, b.d}
	}
	if a.d == 1 && b.d == 1 {
		return rat{add64(a.n, -b.n), 1}
	}
	return mk(add64(mul64(a.n, b.d), -mul64(b.n, a.d)), mul64(a.d, b.d))
}
func (a rat) div(b rat) rat { return mk(mul64(a.n, b.d), mul64(a.d, b.n)) }
func (a rat) sign() int {
	switch {
	case a.n > 0:
		return 1
	case a.n < 0:
		return -1
	}
	return 0
}
func (a rat) less(b rat) bool { return a.sub(b).sign() < 0 }

// lowerBound computes the greatest integer c with cons |= g >= c.
// infeasible: the constraints have no rational solution.
// By duality the bound is the maximum of g.c - sum(l_i*b_i) over l >= 0 with
// sum(l_i*a_i) = coefficients of g, where constraint i is a_i.x + b_i >= 0.

func lowerBound(cons []lin, g lin) (c int64, ok, infeasible bool) {
	if len(g.s) == 0 {
		return g.c, true, false
	}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(ratOverflow); !is {
				panic(e)
			}
			c, ok, infeasible = 0, false, false
		}
	}()
	cons = cone(cons, g)
	rows := scratches.Get().(*scratch) // row plus one
	defer rows.free()
	n := 0
	for _, s := range g.s {
		n++
		rows.set(s, int32(n))
	}
	for _, l := range cons {
		for _, s := range l.s {
			if rows.get(s) == 0 {
				n++
				rows.set(s, int32(n))
			}
		}
	}
	m := len(cons)
	w := m + 1 // the artificial columns are never entered again, so they are not kept
	t := make([][]rat, n)
	zero := rat{}
	cells := make([]rat, (n+1)*w)
	for i := range t {
		t[i] = cells[i*w : (i+1)*w]
	}
	for j, l := range cons {
		for i, s := range l.s {
			t[rows.get(s)-1][j] = rat{l.k[i], 1}
		}
	}
	for i, s := range g.s {
		t[rows.get(s)-1][w-1] = rat{g.k[i], 1}
	}
	basis := make([]int, n)
	for i := range t {
		if t[i][w-1].sign() < 0 {
			for j := range t[i] {
				t[i][j].n = -t[i][j].n
			}
		}
		basis[i] = m + i
	}
	// Phase 1: minimise the sum of artificials.
	obj := cells[n*w:]
	for i := range t {
		for j := 0; j < m; j++ {
			if t[i][j].n != 0 {
				obj[j] = obj[j].sub(t[i][j])
			}
		}
		obj[w-1] = obj[w-1].sub(t[i][w-1])
	}
	if !simplex(t, basis, obj, m) {
		return 0, false, false // cannot happen: phase 1 is bounded
	}
	if obj[w-1].sign() != 0 {
		// No dual solution: g is unbounded below, or the constraints are
		// infeasible; the caller asks about feasibility separately.
		return 0, false, false
	}
	// Drive artificials out of the basis where possible.
	for i := range t {
		if basis[i] >= m {
			for j := 0; j < m; j++ {
				if t[i][j].sign() != 0 {
					pivot(t, basis, obj, i, j)
					break
				}
			}
		}
	}
	// Phase 2: minimise sum(l_i*b_i).
	for j := range obj {
		obj[j] = zero
	}
	for j, l := range cons {
		obj[j] = rat{l.c, 1}
	}
	for i, b := range basis {
		if b < m && cons[b].c != 0 {
			k := rat{cons[b].c, 1}
			for j := range obj {
				if t[i][j].n != 0 {
					obj[j] = obj[j].sub(k.mul(t[i][j]))
				}
			}
		}
	}
	if !simplex(t, basis, obj, m) {
		return 0, true, true // unbounded: constraints are infeasible
	}
	// obj[w-1] = -(minimum).
	v := obj[w-1]
	c = g.c + ceilRat(v)
	return c, true, false
}

func ceilRat(v rat) int64 {
	if v.n == 0 {
		return 0
	}
	q := v.n / v.d
	if v.n%v.d != 0 && v.n > 0 {
		q++
	}
	return q
}

// simplex minimises with reduced costs obj over columns < m; false if unbounded.
func simplex(t [][]rat, basis []int, obj []rat, m int) bool {
	for iter := 0; ; iter++ {
		if iter > 2000 {
			panic(ratOverflow{})
		}
		// Bland's rule after a while, steepest first before.
		e := -1
		for j := 0; j < m; j++ {
			if obj[j].sign() < 0 {
				if e < 0 {
					e = j
					if iter > 50 {
						break
					}
				} else if obj[j].less(obj[e]) {
					e = j
				}
			}
		}
		if e < 0 {
			return true
		}
		l := -1
		var best rat
		w := len(obj)
		for i := range t {
			if t[i][e].sign() > 0 {
				q := t[i][w-1].div(t[i][e])
				if l < 0 || q.less(best) || !best.less(q) && basis[i] < basis[l] {
					l, best = i, q
				}
			} else if t[i][e].sign() < 0 && basis[i] >= m && t[i][w-1].sign() == 0 {
				// An artificial at zero must stay at zero.
				l, best = i, rat{}
				break
			}
		}
		if l < 0 {
			return false
		}
		pivot(t, basis, obj, l, e)
	}
}

func pivot(t [][]rat, basis []int, obj []rat, l, e int) {
	p := t[l][e]
	row := t[l]
	nz := make([]int32, 0, 64)
	for j := range row {
		if row[j].n != 0 {
			nz = append(nz, int32(j))
		}
	}
	if p != (rat{1, 1}) {
		if p == (rat{-1, 1}) {
			for _, j := range nz {
				row[j].n = -row[j].n
			}
		} else {
			for _, j := range nz {
				row[j] = row[j].div(p)
			}
		}
	}
	elim := func(r []rat) {
		k := r[e]
		if k.n == 0 {
			return
		}
		if k.d == 1 && (k.n == 1 || k.n == -1) {
			for _, j := range nz {
				x, y := r[j], row[j]
				if x.d == 1 && y.d == 1 {
					if k.n == 1 {
						r[j].n = add64(x.n, -y.n)
					} else {
						r[j].n = add64(x.n, y.n)
					}
				} else if k.n == 1 {
					r[j] = x.sub(y)
				} else {
					r[j] = x.sub(rat{-y.n, y.d})
				}
			}
			return
		}
		for _, j := range nz {
			r[j] = r[j].sub(k.mul(row[j]))
		}
	}
	for i := range t {
		if i != l {
			elim(t[i])
		}
	}
	elim(obj)
	basis[l] = e
}

// A scratch assigns a small number to each symbol.
type scratch struct {
	at  [2][]int32 // by symbol, apart by sign
	all []sym
}

var scratches = sync.Pool{New: func() interface{} { return &scratch{} }}

func (x *scratch) cell(s sym) *int32 {
	k, i := 0, int(s)
	if i < 0 {
		k, i = 1, -i
	}
	for i >= len(x.at[k]) {
		x.at[k] = append(x.at[k], make([]int32, i+64)...)
	}
	return &x.at[k][i]
}

func (x *scratch) get(s sym) int32 { return *x.cell(s) }

func (x *scratch) set(s sym, v int32) {
	c := x.cell(s)
	if *c == 0 {
		x.all = append(x.all, s)
	}
	*c = v
}

func (x *scratch) clear() {
	for _, s := range x.all {
		*x.cell(s) = 0
	}
	x.all = x.all[:0]
}

func (x *scratch) free() {
	x.clear()
	scratches.Put(x)
}

// cone keeps the constraints connected to the symbols of g.
func cone(cons []lin, g lin) []lin {
	x := scratches.Get().(*scratch)
	defer x.free()
	for _, s := range g.s {
		x.set(s, 1)
	}
	used := make([]bool, len(cons))
	for again := true; again; {
		again = false
		for i, l := range cons {
			if used[i] {
				continue
			}
			hit := false
			for _, s := range l.s {
				if x.get(s) != 0 {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				again = true
				for _, s := range l.s {
					x.set(s, 1)
				}
			}
		}
	}
	// A symbol not in g that all constraints bound from the same side can be
	// chosen to satisfy them, so that they say nothing of g.
	const plus, minus, both = 1, 2, 3
	for again := true; again; {
		again = false
		x.clear()
		for _, s := range g.s {
			x.set(s, both)
		}
		for i, l := range cons {
			if !used[i] {
				continue
			}
			for k, s := range l.s {
				if l.k[k] > 0 {
					x.set(s, x.get(s)|plus)
				} else {
					x.set(s, x.get(s)|minus)
				}
			}
		}
		for i, l := range cons {
			if !used[i] {
				continue
			}
			for _, s := range l.s {
				if x.get(s) != both {
					used[i] = false
					again = true
					break
				}
			}
		}
	}
	var out []lin
	for i, l := range cons {
		if used[i] {
			out = append(out, l)
		}
	}
	return out
}

// infeasible reports whether the constraints have no rational solution.
func infeasibleCons(cons []lin, touching lin) (bad bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(ratOverflow); !is {
				panic(e)
			}
			bad = false
		}
	}()
	for _, l := range cons {
		if len(l.s) == 0 && l.c < 0 {
			return true
		}
	}
	// The newest constraint n >= 0 is consistent with the others unless they
	// entail n <= -1, that is -n >= 1.
	c, ok, inf := lowerBound(cons, touching.neg())
	return ok && (inf || c >= 1)
}

func sortSyms(m map[sym]bool) []sym {
	var out []sym
	for s := range m {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
