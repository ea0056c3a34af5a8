package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", &check{title: "Shared state is only touched under its synchronisation", run: checkC18,
		tech: "static race detection: interprocedural lockset dataflow over the SSA form, lockset intersection per field (Eraser discipline), field-based points-to for maps",
		assume: []string{"options, names and other settings are given before the stack runs (constructors, Set* without a lock, Run)", "buffers, contexts and endpoint data belong to one goroutine at a time",
			"objects made in a function are its own until it hands them on", "locks are told apart by type and field"},
		expl: []string{"Every function that can be entered from outside or runs as a goroutine is followed along all paths with the set of locks held. State that is written while the stack runs (by anything but constructors and settings, or by a setter that takes a lock) must be accessed atomically everywhere or with one common lock held at every access, reads and the contents of maps included. A variable that a goroutine shares with the function that starts it must not be assigned after the start."}})
}

// setting: the function is called while the stack is put together.
func setting(fn *ssa.Function) string {
	for fn.Parent() != nil {
		return ""
	}
	n := fn.Name()
	switch {
	case fn.Signature.Recv() == nil && (strings.HasPrefix(n, "New") || strings.HasPrefix(n, "UBuf") || n == "init"):
		return "make"
	case n == "Run":
		return "run"
	case fn.Signature.Recv() != nil && (strings.HasPrefix(n, "Set") || strings.HasPrefix(n, "Append") || n == "ForServer" || n == "AddFeature"):
		return "set"
	}
	return ""
}

// passive: objects of the type are handed from goroutine to goroutine.
func (p *Program) passive() map[string]bool {
	out := map[string]bool{}
	var add func(T types.Type)
	add = func(T types.Type) {
		n, ok := T.(*types.Named)
		if !ok || out[n.Obj().Name()] || n.Obj().Pkg() != p.Pkg.Pkg {
			return
		}
		s, ok := structOf(n)
		if !ok {
			return
		}
		out[n.Obj().Name()] = true
		for i := 0; i < s.NumFields(); i++ {
			if _, isPtr := s.Field(i).Type().Underlying().(*types.Pointer); isPtr {
				add(deref(s.Field(i).Type()))
			}
		}
	}
	if n := p.Named("UBuf"); n != nil {
		add(n)
	}
	for _, i := range []string{"Context", "EndPointData"} {
		for _, n := range p.Implementers(i) {
			out[n.Obj().Name()] = true
		}
	}
	return out
}

func checkC18(p *Program, r *Report) {
	f := newFlow(p)
	passive := p.passive()
	type seen struct {
		at   ssa.Instruction
		a    fieldAccess
		held []string
		root *ssa.Function
		kind string
		path string
	}
	acc := map[types.Object][]seen{}
	owners := map[types.Object]string{}
	ents := f.entries()
	fns := map[*ssa.Function]bool{}
	n := 0
	for _, root := range ents {
		kind := setting(root)
		w := &lockWalk{f: f, root: root, memo: map[string][][]string{}, fns: fns}
		w.access = func(at ssa.Instruction, a fieldAccess, held []string) {
			if a.owner != "" {
				owners[a.obj] = a.owner
			}
			n++
			acc[a.obj] = append(acc[a.obj], seen{at, a, held, root, kind, pathOf(w)})
		}
		w.walk(root, nil)
	}
	var objs []types.Object
	for o := range acc {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	// a copy of a lock protects nothing
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL && holdsSync(u.Type(), 0) {
					r.Check("lock-copied", r.place(p, u), false, nil, "%s is copied together with its lock (or atomic): what is done to the copy is not synchronised with the original", types.TypeString(u.Type(), shortQ))
				}
			}
		}
	}
	// variables of functions
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				mc, ok := g.Call.Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				late := lateStores(g)
				for n, fv := range mc.Fn.(*ssa.Function).FreeVars {
					used := fv.Referrers() != nil && len(*fv.Referrers()) > 0
					r.Check("captured", r.place(p, g)+" "+fv.Name(), late[n] == nil || !used, nil, "the goroutine shares the variable %s with the function that starts it, which assigns it again afterwards", fv.Name())
				}
			}
		}
	}
	shared := 0
	globals := p.globalTypes()
	for _, o := range objs {
		own := owners[o]
		if own == "" || passive[own] || syncType(o.Type()) || o.Pkg() != p.Pkg.Pkg {
			continue
		}
		// the elements of a list that is never changed in place may be read
		// by whoever got the list
		inPlace := false
		for _, s := range acc[o] {
			inPlace = inPlace || s.a.elem && s.a.write && s.kind == ""
		}
		if !inPlace {
			var rest []seen
			for _, s := range acc[o] {
				if !s.a.elem {
					rest = append(rest, s)
				}
			}
			acc[o] = rest
		}
		locked := map[string]bool{} // locks held somewhere while the stack runs
		for _, s := range acc[o] {
			for _, l := range s.held {
				if s.kind == "" && !s.a.fresh {
					locked[classOf(l)] = true
				}
			}
		}
		why, reads := "", 0
		for _, s := range acc[o] {
			if s.a.fresh || s.kind == "make" {
				continue
			}
			if !s.a.write && !onlyStep(s.at) {
				reads++
			}
			if s.a.write && why == "" && (s.kind == "" || s.kind == "set" && len(s.held) > 0 || s.kind == "run" && anyOf(locked, s.held)) {
				why = short(s.root)
			}
		}
		if why == "" || reads == 0 {
			continue // constant while running, or never looked at
		}
		shared++
		name := own + "." + o.Name()
		if debugLevel == "8" {
			println(name, why)
		}
		// the locks held at every access
		var common map[string]bool
		atom, plain := 0, 0
		for _, s := range acc[o] {
			if s.a.fresh || s.kind == "make" {
				continue
			}
			if s.a.atomic {
				atom++
				continue
			}
			plain++
			h := map[string]bool{}
			for _, l := range s.held {
				if strings.HasSuffix(l, "/r") && s.a.write {
					continue
				}
				if globals[own] && !strings.HasPrefix(l, "var ") {
					continue // the lock of one object does not protect what others share
				}
				h[classOf(l)] = true
			}
			if common == nil {
				common = h
			} else {
				for l := range common {
					if !h[l] {
						delete(common, l)
					}
				}
			}
		}
		switch {
		case plain == 0:
			r.Check("atomic", name, true, nil, "")
		case atom > 0:
			for _, s := range acc[o] {
				if !s.a.fresh && s.kind != "make" && !s.a.atomic {
					r.Check("atomic", r.place(p, s.at), false, nil, "%s is accessed without atomic operation here%s, but with one elsewhere", name, s.path)
				}
			}
		case len(common) > 0:
			for _, s := range acc[o] {
				if !s.a.fresh && s.kind != "make" {
					r.Check("locked", r.place(p, s.at)+" "+name, true, nil, "")
				}
			}
		default:
			// report the accesses that lack the lock most others hold
			cnt, best := map[string]int{}, ""
			for _, s := range acc[o] {
				for _, l := range s.held {
					if globals[own] && !strings.HasPrefix(l, "var ") {
						continue
					}
					if c := classOf(l); !s.a.fresh && s.kind != "make" {
						cnt[c]++
						if best == "" || cnt[c] > cnt[best] {
							best = c
						}
					}
				}
			}
			done := map[string]bool{}
			for _, s := range acc[o] {
				if s.a.fresh || s.kind == "make" || best != "" && hasClass(s.held, best) && !(s.a.write && !hasExact(s.held, best)) {
					continue
				}
				w := r.place(p, s.at)
				if done[w] {
					continue
				}
				done[w] = true
				verb := "read"
				if s.a.write {
					verb = "written"
				}
				lack := "without a lock"
				if best != "" {
					lack = "without " + best
				}
				r.Check("locked", w+" "+name, false, nil, "%s, which changes while the stack runs (%s), is %s %s%s", name, why, verb, lack, s.path)
			}
		}
	}
	// atomic loads and stores do not make an atomic update
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				fv, op := atomicOp(c)
				if fv == nil || !strings.HasPrefix(op, "Store") {
					continue
				}
				from := dependsOnLoad(c.Common().Args[len(c.Common().Args)-1], fv, map[ssa.Value]bool{})
				r.Check("update", r.place(p, i), !from, nil, "%s is read and written back in two steps, updates of other goroutines are lost", fv.Name())
			}
		}
	}
	r.Note("entry points", len(ents))
	r.Note("accesses", n)
	r.Note("fields", len(objs))
	r.Note("shared fields", shared)
	for fn := range fns {
		r.fns[fn] = true
	}
	r.Check("present", "package", shared > 0, nil, "no shared state was found")
}

func anyOf(set map[string]bool, held []string) bool {
	for _, h := range held {
		if set[classOf(h)] {
			return true
		}
	}
	return false
}

func hasExact(held []string, c string) bool {
	for _, h := range held {
		if h == c {
			return true
		}
	}
	return false
}

func syncType(T types.Type) bool {
	n, ok := deref(T).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// holdsSync: values of the type must not be copied.
func holdsSync(T types.Type, depth int) bool {
	if depth > 8 {
		return false
	}
	if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync":
			_, isS := n.Underlying().(*types.Struct)
			return isS
		case "sync/atomic":
			return true
		}
	}
	switch x := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if holdsSync(x.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return holdsSync(x.Elem(), depth+1)
	}
	return false
}

// onlyStep: the value read is only used to compute what is written back.
func onlyStep(at ssa.Instruction) bool {
	u, ok := at.(*ssa.UnOp)
	if !ok || u.Referrers() == nil {
		return false
	}
	for _, r := range *u.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok || b.Referrers() == nil {
			return false
		}
		for _, s := range *b.Referrers() {
			st, ok := s.(*ssa.Store)
			if !ok || st.Val != b {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			ga, ok2 := u.X.(*ssa.FieldAddr)
			if !ok || !ok2 || fieldVar(fa) != fieldVar(ga) {
				return false
			}
		}
	}
	return true
}

// atomicOp: the field an atomic operation works on.
func atomicOp(c *ssa.Call) (*types.Var, string) {
	g := c.Common().StaticCallee()
	if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" || len(c.Common().Args) == 0 {
		return nil, ""
	}
	if a, ok := c.Common().Args[0].(*ssa.FieldAddr); ok {
		return fieldVar(a), g.Name()
	}
	return nil, ""
}

// dependsOnLoad: the value is computed from an atomic load of the field.
func dependsOnLoad(v ssa.Value, fv *types.Var, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		o, op := atomicOp(x)
		return o == fv && strings.HasPrefix(op, "Load")
	case *ssa.BinOp:
		return dependsOnLoad(x.X, fv, seen) || dependsOnLoad(x.Y, fv, seen)
	case *ssa.Convert:
		return dependsOnLoad(x.X, fv, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if dependsOnLoad(e, fv, seen) {
				return true
			}
		}
	}
	return false
}

// globalTypes are the types of objects reachable from global variables.
func (p *Program) globalTypes() map[string]bool {
	out := map[string]bool{"var": true}
	var add func(T types.Type, n int)
	add = func(T types.Type, n int) {
		if n > 6 {
			return
		}
		switch x := T.(type) {
		case *types.Pointer:
			add(x.Elem(), n+1)
		case *types.Slice:
			add(x.Elem(), n+1)
		case *types.Array:
			add(x.Elem(), n+1)
		case *types.Map:
			add(x.Key(), n+1)
			add(x.Elem(), n+1)
		case *types.Named:
			if x.Obj().Pkg() != p.Pkg.Pkg || out[x.Obj().Name()] {
				return
			}
			out[x.Obj().Name()] = true
			if s, ok := structOf(x); ok {
				for i := 0; i < s.NumFields(); i++ {
					add(s.Field(i).Type(), n+1)
				}
			}
		}
	}
	for _, m := range p.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			add(deref(g.Type()), 0)
		}
	}
	return out
}
