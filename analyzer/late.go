package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// lateStores are the variables a goroutine shares with the function that
// starts it and that the function assigns again after the start: for each
// captured variable of the closure, the assignment that comes after.
func lateStores(g ssa.Instruction) map[int]ssa.Instruction {
	out := map[int]ssa.Instruction{}
	site, ok := g.(*ssa.Go)
	if !ok {
		return out
	}
	mc, ok := site.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return out
	}
	for n, b := range mc.Bindings {
		a, ok := b.(*ssa.Alloc)
		if !ok || a.Referrers() == nil {
			continue
		}
		for _, u := range *a.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == a && comesAfter(site, s, a) {
				out[n] = s
			}
		}
	}
	return out
}

// comesAfter: there is a way from one instruction to another that does not
// pass fresh, which makes a new variable.
func comesAfter(from, to, fresh ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(is []ssa.Instruction) (found, stop bool)
	scan = func(is []ssa.Instruction) (bool, bool) {
		for _, i := range is {
			if i == to {
				return true, true
			}
			if i == fresh {
				return false, true
			}
		}
		return false, false
	}
	b := from.Block()
	at := 0
	for n, i := range b.Instrs {
		if i == from {
			at = n + 1
		}
	}
	found, stop := scan(b.Instrs[at:])
	if stop {
		return found
	}
	todo := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		found, stop := scan(x.Instrs)
		if found {
			return true
		}
		if !stop {
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

// forgetLate: variables assigned after the start of the goroutine have any
// value in it.
func (w *world) forgetLate(s *State, c *CallInfo) {
	for n := range lateStores(c.Site) {
		if n >= len(c.Bind) {
			continue
		}
		if r, ok := c.Bind[n].(VRef); ok {
			T := deref(r.T)
			if p, ok := r.T.Underlying().(*types.Pointer); ok {
				T = p.Elem()
			}
			s.store(r.K, r.Path, T, w.in.fresh("late", T))
		}
	}
}
