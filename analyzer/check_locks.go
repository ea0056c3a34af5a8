package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", &check{title: "Locks are released and never held across foreign code", run: checkC17,
		tech: "interprocedural lockset dataflow over the SSA control flow graph (all paths, deferred calls included), lock-order graph, field-based points-to for function and channel values",
		assume: []string{"locks are told apart by type and field, two instances of a type are taken to be the same lock", "a channel made with a constant room of at least one has room for what is sent under a lock",
			"listening, closing and printing do not block without bound"},
		expl: []string{"Every function that can be entered from outside (exported functions and methods, goroutines, function values) is followed along all paths into the functions it calls with the set of locks held: no lock may be taken while held, released while not held or held at the end; with a lock held no function given by the user, no event or data handler of another component and no blocking operation (channel operations, network reads, writes, dials and accepts, sleeps) may be reached; the order in which locks are taken must be acyclic."}})
}

// entries are the functions that can be entered without a lock: exported
// functions and methods, goroutines, functions used as values.
func (f *flow) entries() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	ifaceM := map[string]bool{}
	sc := f.p.Pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		if it, ok := sc.Lookup(n).Type().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				ifaceM[it.Method(i).Name()] = true
			}
		}
	}
	for _, fn := range f.p.Funcs {
		switch {
		case fn.Parent() == nil && (fn.Object() != nil && fn.Object().Exported() || ifaceM[fn.Name()] && fn.Signature.Recv() != nil):
			set[fn] = true
		case fn.Parent() == nil && len(f.callers[fn]) == 0 && fn.Name() != "init":
			set[fn] = true
		case fn.Parent() != nil && f.escapes(fn):
			set[fn] = true
		}
		for _, c := range f.callers[fn] {
			if _, ok := c.(*ssa.Go); ok {
				set[fn] = true
			}
		}
	}
	for _, fn := range f.p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					fns, _ := f.callees(g.Common())
					for _, h := range fns {
						if len(h.Blocks) > 0 {
							set[h] = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for fn := range set {
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

// escapes: the function literal is used otherwise than by calling or
// deferring it or handing it to a function of the package or to a function
// that calls it at once.
func (f *flow) escapes(fn *ssa.Function) bool {
	var uses []ssa.Instruction
	var vals []ssa.Value
	for _, c := range f.closures[fn] {
		vals = append(vals, c)
		uses = append(uses, *c.Referrers()...)
	}
	vals = append(vals, fn)
	if fn.Referrers() != nil {
		uses = append(uses, *fn.Referrers()...)
	}
	if len(f.closures[fn]) == 0 && f.uses[fn] == 0 {
		return false // called directly
	}
	is := func(v ssa.Value) bool {
		for _, w := range vals {
			if v == w {
				return true
			}
		}
		return false
	}
	for _, u := range uses {
		switch x := u.(type) {
		case *ssa.Call:
			g := x.Common().StaticCallee()
			if is(x.Common().Value) || g != nil && (g.Pkg == f.p.Pkg || g.Pkg != nil && (g.Pkg.Pkg.Path() == "sync" || g.Pkg.Pkg.Path() == "sort")) {
				continue
			}
		case *ssa.Defer:
			continue
		case *ssa.Store, *ssa.DebugRef:
			if s, ok := x.(*ssa.Store); ok {
				if _, local := s.Addr.(*ssa.Alloc); !local {
					return true
				}
			}
			continue
		case *ssa.MakeClosure:
			continue
		}
		return true
	}
	if len(f.closures[fn]) == 0 { // literal without captured variables
		return f.uses[fn] > 0
	}
	return false
}

func pathOf(w *lockWalk) string {
	var s []string
	for _, g := range w.stack {
		s = append(s, short(g))
	}
	if len(s) > 1 {
		s = s[:len(s)-1]
		return " (reached through " + strings.Join(s, ", ") + ")"
	}
	return ""
}

func (r *Report) place(p *Program, at ssa.Instruction) string {
	pos := p.Fset.Position(instrPos(at))
	f := pos.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	s := short(at.Parent())
	if pos.Line > 0 {
		s += " " + f + ":" + strconv.Itoa(pos.Line)
	}
	return s
}

func checkC17(p *Program, r *Report) {
	f := newFlow(p)
	ents := f.entries()
	type edge struct{ a, b string }
	edges := map[edge]ssa.Instruction{}
	locks := map[string]bool{}
	fns := map[*ssa.Function]bool{}
	for _, root := range ents {
		w := &lockWalk{f: f, root: root, memo: map[string][][]string{}, fns: fns}
		list := func(h []string) string { return strings.Join(h, ", ") }
		w.acquire = func(at ssa.Instruction, class, mode string, held []string) {
			locks[class] = true
			r.Check("taken-once", r.place(p, at), !hasClass(held, class), nil, "the lock %s is taken while it is held%s", class, pathOf(w))
			for _, h := range held {
				if classOf(h) != class {
					if _, ok := edges[edge{classOf(h), class}]; !ok {
						edges[edge{classOf(h), class}] = at
					}
				}
			}
		}
		w.release = func(at ssa.Instruction, class string, ok bool, held []string) {
			r.Check("held", r.place(p, at), ok, nil, "the lock %s is released although it is not held (held: %s)%s", class, list(held), pathOf(w))
		}
		w.foreign = func(at ssa.Instruction, what string, held []string) {
			r.Check("foreign", r.place(p, at), false, nil, "%s is called while %s is held%s", what, list(held), pathOf(w))
		}
		w.blocks = func(at ssa.Instruction, what string, held []string) {
			r.Check("blocks", r.place(p, at), false, nil, "%s may block while %s is held%s", what, list(held), pathOf(w))
		}
		for _, h := range w.walk(root, nil) {
			r.Check("released", short(root), len(h) == 0, nil, "%s can return without releasing %s", short(root), list(h))
		}
		r.Note("paths", w.paths)
	}
	// the order of the locks
	next := map[string][]string{}
	for e := range edges {
		next[e.a] = append(next[e.a], e.b)
	}
	var reach func(a, b string, seen map[string]bool) bool
	reach = func(a, b string, seen map[string]bool) bool {
		if a == b {
			return true
		}
		if seen[a] {
			return false
		}
		seen[a] = true
		for _, n := range next[a] {
			if reach(n, b, seen) {
				return true
			}
		}
		return false
	}
	for e, at := range edges {
		r.Check("order", r.place(p, at), !reach(e.b, e.a, map[string]bool{}), nil, "%s is taken while %s is held, elsewhere it is the other way round", e.b, e.a)
	}
	r.Note("entry points", len(ents))
	r.Note("locks", len(locks))
	r.Note("lock order edges", len(edges))
	for fn := range fns {
		r.fns[fn] = true
	}
	r.Check("present", "package", len(locks) > 0, nil, "no lock is used any more")
}
