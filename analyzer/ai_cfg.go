package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Control-flow facts of one function: order, natural loops, liveness.
type fnInfo struct {
	fn      *ssa.Function
	rpo     []*ssa.BasicBlock
	rpoIdx  map[*ssa.BasicBlock]int
	loops   map[*ssa.BasicBlock]*loopInfo // by head
	inner   map[*ssa.BasicBlock]*loopInfo // innermost loop containing the block
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveOut map[*ssa.BasicBlock]map[ssa.Value]bool
	after   map[ssa.Instruction]map[ssa.Value]bool
	irred   bool
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

func isVar(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func newFnInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, rpoIdx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{},
		liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveOut: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpoIdx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.rpoIdx[s] <= fi.rpoIdx[b] {
				if !s.Dominates(b) {
					fi.irred = true
					continue
				}
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return fi.rpoIdx[ls[i].head] < fi.rpoIdx[ls[j].head]
	})
	for i, l := range ls {
		for j := 0; j < i; j++ {
			if ls[j].blocks[l.head] {
				l.parent = ls[j]
			}
		}
		for b := range l.blocks {
			fi.inner[b] = l
		}
	}
	// Liveness.
	for _, b := range fi.rpo {
		fi.liveIn[b] = map[ssa.Value]bool{}
		fi.liveOut[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			out := fi.liveOut[b]
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && isVar(phi.Edges[k]) && !out[phi.Edges[k]] {
							out[phi.Edges[k]] = true
							changed = true
						}
					}
				}
			}
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isVar(*op) {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !fi.liveIn[b][v] {
					fi.liveIn[b][v] = true
					changed = true
				}
			}
		}
	}
	return fi
}

// liveAfter lists the values needed after an instruction.
func (fi *fnInfo) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := fi.after[in]; ok {
		return m
	}
	b := in.Block()
	m := map[ssa.Value]bool{}
	for v := range fi.liveOut[b] {
		m[v] = true
	}
	for j := len(b.Instrs) - 1; j >= 0 && b.Instrs[j] != in; j-- {
		x := b.Instrs[j]
		if _, ok := x.(*ssa.DebugRef); ok {
			continue
		}
		for _, op := range x.Operands(nil) {
			if *op != nil && isVar(*op) {
				m[*op] = true
			}
		}
	}
	fi.after[in] = m
	return m
}
