package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flow answers where values come from: a field-based, flow-insensitive
// points-to analysis of the package, on demand.
type flow struct {
	p        *Program
	callers  map[*ssa.Function][]ssa.CallInstruction // static calls, go and defer statements included
	closures map[*ssa.Function][]*ssa.MakeClosure
	stores   map[*types.Var][]ssa.Value
	gstores  map[*ssa.Global][]ssa.Value
	mapUps   []*ssa.MapUpdate
	uses     map[*ssa.Function]int // uses of a function as a value
	homesOf  map[ssa.Value][]types.Object
}

func newFlow(p *Program) *flow {
	f := &flow{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, closures: map[*ssa.Function][]*ssa.MakeClosure{},
		stores: map[*types.Var][]ssa.Value{}, gstores: map[*ssa.Global][]ssa.Value{}, uses: map[*ssa.Function]int{}, homesOf: map[ssa.Value][]types.Object{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						f.callers[g] = append(f.callers[g], c)
					}
				}
				switch x := i.(type) {
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					f.closures[g] = append(f.closures[g], x)
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						v := fieldVar(a)
						f.stores[v] = append(f.stores[v], x.Val)
					case *ssa.Global:
						f.gstores[a] = append(f.gstores[a], x.Val)
					}
				case *ssa.MapUpdate:
					f.mapUps = append(f.mapUps, x)
				}
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isCall := i.(ssa.CallInstruction); isCall && c.Common().Value == *op {
							continue
						}
						f.uses[g]++
					}
				}
			}
		}
	}
	return f
}

func fieldVar(a *ssa.FieldAddr) *types.Var {
	s, _ := structOf(deref(a.X.Type()))
	return s.Field(a.Field)
}

// srcs are the instructions that made the value: MakeChan, MakeMap, Alloc,
// Function, Const; nil stands for anything not known.
func (f *flow) srcs(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	f.walk(v, map[ssa.Value]bool{}, func(s ssa.Value) { out[s] = true }, nil)
	return out
}

// homes are the fields and globals the value is loaded from or kept in.
func (f *flow) homes(v ssa.Value) []types.Object {
	if h, ok := f.homesOf[v]; ok {
		return h
	}
	set := map[types.Object]bool{}
	f.walk(v, map[ssa.Value]bool{}, func(s ssa.Value) {
		if s == nil || s.Referrers() == nil {
			return
		}
		for _, r := range *s.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Val == s {
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					set[fieldVar(a)] = true
				case *ssa.Global:
					set[a.Object()] = true
				}
			}
		}
	}, func(o types.Object) bool {
		set[o] = true
		return true
	})
	var out []types.Object
	for o := range set {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	f.homesOf[v] = out
	return out
}

// walk follows a value back to what made it. home is asked at fields and
// globals; if it returns true the walk does not go through them.
func (f *flow) walk(v ssa.Value, seen map[ssa.Value]bool, src func(ssa.Value), home func(types.Object) bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	rec := func(w ssa.Value) { f.walk(w, seen, src, home) }
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			rec(e)
		}
	case *ssa.ChangeType:
		rec(x.X)
	case *ssa.ChangeInterface:
		rec(x.X)
	case *ssa.MakeInterface:
		rec(x.X)
	case *ssa.TypeAssert:
		rec(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			f.elemOf(t.X, seen, src, home)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				f.elemOf(r.X, seen, src, home)
			} else {
				src(nil)
			}
		case *ssa.Call:
			f.results(t, x.Index, seen, src, home)
		case *ssa.TypeAssert:
			rec(t.X)
		default:
			src(nil)
		}
	case *ssa.Lookup:
		f.elemOf(x.X, seen, src, home)
	case *ssa.Call:
		f.results(x, 0, seen, src, home)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			src(nil)
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			fv := fieldVar(a)
			if home != nil && home(fv) {
				return
			}
			for _, s := range f.stores[fv] {
				rec(s)
			}
			if len(f.stores[fv]) == 0 {
				src(nil)
			}
		case *ssa.Global:
			if home != nil && a.Object() != nil && home(a.Object()) {
				return
			}
			for _, s := range f.gstores[a] {
				rec(s)
			}
		case *ssa.Alloc, *ssa.FreeVar:
			f.cell(a, seen, src, home)
		default:
			src(nil)
		}
	case *ssa.Parameter:
		fn := x.Parent()
		n := 0
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, c := range f.callers[fn] {
				if i < len(c.Common().Args) {
					rec(c.Common().Args[i])
					n++
				}
			}
		}
		if n == 0 || f.uses[fn] > 0 || fn.Object() != nil && fn.Object().Exported() {
			src(nil)
		}
	case *ssa.FreeVar:
		f.cell(x, seen, src, home)
	case *ssa.MakeClosure:
		src(x.Fn)
	default:
		src(v)
	}
}

// cell: what a local variable (or captured value) can hold.
func (f *flow) cell(a ssa.Value, seen map[ssa.Value]bool, src func(ssa.Value), home func(types.Object) bool) {
	switch x := a.(type) {
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr == a {
					f.walk(s.Val, seen, src, home)
				}
			case *ssa.MakeClosure: // written by the closure
				g := s.Fn.(*ssa.Function)
				for i, b := range s.Bindings {
					if b == a && i < len(g.FreeVars) {
						f.written(g.FreeVars[i], seen, src, home)
					}
				}
			}
		}
	case *ssa.FreeVar:
		g := x.Parent()
		for i, v := range g.FreeVars {
			if v != x {
				continue
			}
			for _, c := range f.closures[g] {
				b := c.Bindings[i]
				if _, isPtr := b.(*ssa.Alloc); isPtr {
					f.cell(b, seen, src, home)
				} else if _, isFree := b.(*ssa.FreeVar); isFree {
					f.cell(b, seen, src, home)
				} else {
					f.walk(b, seen, src, home)
				}
			}
		}
	}
}

func (f *flow) written(fv *ssa.FreeVar, seen map[ssa.Value]bool, src func(ssa.Value), home func(types.Object) bool) {
	for _, r := range *fv.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == fv {
			f.walk(s.Val, seen, src, home)
		}
	}
}

// elemOf: what is kept in the map (or string) m.
func (f *flow) elemOf(m ssa.Value, seen map[ssa.Value]bool, src func(ssa.Value), home func(types.Object) bool) {
	hs := f.homes(m)
	found := false
	for _, u := range f.mapUps {
		for _, h := range f.homes(u.Map) {
			for _, g := range hs {
				if h == g {
					found = true
					f.walk(u.Value, seen, src, home)
				}
			}
		}
	}
	if !found {
		src(nil)
	}
}

func (f *flow) results(c *ssa.Call, idx int, seen map[ssa.Value]bool, src func(ssa.Value), home func(types.Object) bool) {
	fns, ext := f.callees(c.Common())
	if ext {
		src(nil)
	}
	for _, g := range fns {
		if len(g.Blocks) == 0 {
			src(nil)
			continue
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				f.walk(r.Results[idx], seen, src, home)
			}
		}
	}
}

// callees are the functions of the package a call can run; ext: others too.
func (f *flow) callees(c *ssa.CallCommon) (fns []*ssa.Function, ext bool) {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}, false
	}
	if c.IsInvoke() {
		return f.impls(c.Method, c.Value.Type()), true
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	for s := range f.srcs(c.Value) {
		switch g := s.(type) {
		case *ssa.Function:
			fns = append(fns, g)
		case *ssa.Const: // nil
		default:
			ext = true
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	return fns, ext
}

// impls are the methods of the package that implement an interface method.
func (f *flow) impls(m *types.Func, T types.Type) []*ssa.Function {
	it, ok := T.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	sc := f.p.Pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) || !types.Implements(types.NewPointer(nt), it) {
			continue
		}
		if g := f.p.Method(nt, m.Name()); g != nil {
			out = append(out, g)
		}
	}
	return out
}

// lockClass names the lock a pointer to a mutex stands for.
func (f *flow) lockClass(v ssa.Value) string {
	return f.lockClassN(v, 0)
}

func (f *flow) lockClassN(v ssa.Value, n int) string {
	if n > 8 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		T := types.TypeString(deref(x.X.Type()), func(*types.Package) string { return "" })
		return T + "." + fieldVar(x).Name()
	case *ssa.Global:
		return "var " + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.FreeVar); ok {
				return f.lockClassN(a, n+1)
			}
			return f.lockClassN(x.X, n+1)
		}
	case *ssa.Parameter:
		fn := x.Parent()
		cls := map[string]bool{}
		for i, p := range fn.Params {
			if p == x {
				for _, c := range f.callers[fn] {
					cls[f.lockClassN(c.Common().Args[i], n+1)] = true
				}
			}
		}
		if len(cls) == 1 {
			for c := range cls {
				return c
			}
		}
	case *ssa.FreeVar:
		g := x.Parent()
		for i, w := range g.FreeVars {
			if w == x {
				for _, c := range f.closures[g] {
					return f.lockClassN(c.Bindings[i], n+1)
				}
			}
		}
	case *ssa.MakeInterface:
		return f.lockClassN(x.X, n+1)
	case *ssa.ChangeInterface:
		return f.lockClassN(x.X, n+1)
	case *ssa.Alloc:
		if x.Comment != "" && !strings.Contains(x.Comment, " ") {
			return x.Parent().Name() + "." + x.Comment
		}
	}
	return v.Parent().Name() + "." + v.Name()
}
