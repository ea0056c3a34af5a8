package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- roles
//
// The harness never names private fields.  The role of a field is found by
// interpreting the exported setter or constructor that gives it its value.

type roleRun struct {
	NopClient
	in   *Interp
	end  func(st *State, res Value)
	maps map[string]string // key of a written map key -> map reference
}

func (r *roleRun) MapWrite(st *State, at ssa.Instruction, m Value, k, v Value, del bool) {
	if ref, ok := m.(VRef); ok && k != nil {
		r.maps[k.key()] = ref.K
	}
}

func (r *roleRun) End(st *State, res Value) {
	if r.end != nil {
		r.end(st, res)
	}
}

// setterPath is the path below the receiver of the cell that the one-argument
// setter of *T stores its argument in, or of the map a two-argument setter
// writes to.  Empty if there is none.
func (p *Program) setterPath(T *types.Named, method string) string {
	ck := "setter:" + T.Obj().Name() + "." + method
	if s, ok := p.roles[ck]; ok {
		return s
	}
	p.roles[ck] = ""
	fn := p.Method(T, method)
	if fn == nil || len(fn.Params) < 2 {
		return ""
	}
	rr := &roleRun{maps: map[string]string{}}
	in := newInterp(p, rr)
	rr.in = in
	st := in.newState()
	st.facts["nil:p"] = false
	args := []Value{VRef{K: "p", T: types.NewPointer(T)}}
	for i, q := range fn.Params[1:] {
		args = append(args, in.symbolic(fmt.Sprintf("role%d", i), q.Type()))
	}
	want := args[1].key()
	rr.end = func(s *State, _ Value) {
		for _, k := range sortedKeys(s.heap) {
			if strings.HasPrefix(k, "p.") && s.heap[k].key() == want {
				p.roles[ck] = k[1:]
			}
		}
		if m, ok := rr.maps[want]; ok && strings.HasPrefix(m, "p.") {
			p.roles[ck] = m[1:]
		}
	}
	in.Enter(st, fn, args, nil)
	in.Run(st)
	return p.roles[ck]
}

// getterPath is the path of the cell a getter without arguments returns.
func (p *Program) getterPath(T *types.Named, method string) string {
	ck := "getter:" + T.Obj().Name() + "." + method
	if s, ok := p.roles[ck]; ok {
		return s
	}
	p.roles[ck] = ""
	fn := p.Method(T, method)
	if fn == nil || len(fn.Params) != 1 {
		return ""
	}
	rr := &roleRun{maps: map[string]string{}}
	in := newInterp(p, rr)
	st := in.newState()
	st.facts["nil:p"] = false
	rr.end = func(s *State, res Value) {
		if res == nil {
			return
		}
		for _, k := range sortedKeys(s.heap) {
			if strings.HasPrefix(k, "p.") && s.heap[k].key() == res.key() {
				p.roles[ck] = k[1:]
			}
		}
	}
	in.Enter(st, fn, []Value{VRef{K: "p", T: types.NewPointer(T)}}, nil)
	in.Run(st)
	return p.roles[ck]
}

// constResult is the constant a getter of *T returns on every path.
func (p *Program) constResult(T *types.Named, method string) (int64, bool) {
	fn := p.Method(T, method)
	if fn == nil {
		return 0, false
	}
	var v int64
	n, ok := 0, true
	rr := &roleRun{maps: map[string]string{}}
	in := newInterp(p, rr)
	st := in.newState()
	st.facts["nil:p"] = false
	rr.end = func(s *State, res Value) {
		x, isI := res.(VInt)
		if !isI || !x.L.isConst() || n > 0 && x.L.K != v {
			ok = false
			return
		}
		n++
		v = x.L.K
	}
	in.Enter(st, fn, []Value{VRef{K: "p", T: types.NewPointer(T)}}, nil)
	in.Run(st)
	return v, ok && n > 0
}

// ---------------------------------------------------------------- constructors

// made is the object a constructor leaves behind.
type made struct {
	fn    *ssa.Function
	st    *State
	k     string
	cells map[string]Value // path -> value
}

// constructorsOf lists the exported package functions that return a new *T
// (possibly as an interface).
func (p *Program) constructorsOf(T *types.Named) []made {
	if c, ok := p.ctors[T]; ok {
		return c
	}
	var out []made
	sc := p.Pkg.Pkg.Scope()
	for _, name := range sc.Names() {
		f, ok := sc.Lookup(name).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Results().Len() != 1 {
			continue
		}
		rt := sig.Results().At(0).Type()
		if types.IsInterface(rt) {
			if !types.Implements(types.NewPointer(T), rt.Underlying().(*types.Interface)) {
				continue
			}
		} else if n, ok := ptrToNamed(rt); !ok || n != T {
			continue
		}
		fn := p.Func(name)
		if fn == nil {
			continue
		}
		rr := &roleRun{maps: map[string]string{}}
		in := newInterp(p, rr)
		st := in.newState()
		var args []Value
		for _, q := range fn.Params {
			args = append(args, in.symbolic("arg:"+q.Name(), q.Type()))
		}
		rr.end = func(s *State, res Value) {
			v := res
			if i, ok := v.(VIface); ok {
				if n, ok := ptrToNamed(i.Dyn); !ok || n != T {
					return
				}
				v = i.V
			}
			r, ok := v.(VRef)
			if !ok || !isNew(r.K) || r.Path != "" {
				return
			}
			if n, ok := s.objT[r.K].(*types.Named); !ok || n != T {
				return
			}
			m := made{fn: fn, st: s, k: r.K, cells: map[string]Value{}}
			p.eachCell(T, "", func(path string, FT types.Type) {
				m.cells[path] = s.load(r.K, path, FT)
			})
			out = append(out, m)
		}
		in.Enter(st, fn, args, nil)
		in.Run(st)
	}
	p.ctors[T] = out
	return out
}

// eachCell enumerates the leaf cells of a struct type.
func (p *Program) eachCell(T types.Type, path string, f func(path string, FT types.Type)) {
	s, ok := structOf(T)
	if !ok {
		f(path, T)
		return
	}
	if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg() != p.Pkg.Pkg {
		return // foreign structs are opaque
	}
	for i := 0; i < s.NumFields(); i++ {
		p.eachCell(s.Field(i).Type(), path+"."+s.Field(i).Name(), f)
	}
}

// fieldOf resolves a path like ".ProcBase.options" to the struct field it ends in.
func (p *Program) fieldOf(T types.Type, path string) *types.Var {
	var v *types.Var
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		s, ok := structOf(T)
		if !ok {
			return nil
		}
		v = nil
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				v = s.Field(i)
			}
		}
		if v == nil {
			return nil
		}
		T = v.Type()
	}
	return v
}

// neverNil: every store to the field in the package stores a value that is
// made on the spot.
func (p *Program) neverNil(fv *types.Var) bool {
	if b, ok := p.nonnil[fv]; ok {
		return b
	}
	ok := true
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, isS := i.(*ssa.Store)
				if !isS {
					continue
				}
				fa, isF := s.Addr.(*ssa.FieldAddr)
				if !isF {
					continue
				}
				st, _ := structOf(deref(fa.X.Type()))
				if st == nil || st.Field(fa.Field) != fv {
					continue
				}
				switch s.Val.(type) {
				case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeClosure:
				default:
					ok = false
				}
			}
		}
	}
	p.nonnil[fv] = ok
	return ok
}

// assumeMade records what every constructor of T establishes and nothing
// undoes: maps and channels that exist.
func (in *Interp) assumeMade(st *State, T *types.Named, k string) {
	ms := in.P.constructorsOf(T)
	if len(ms) == 0 {
		return
	}
	in.P.eachCell(T, "", func(path string, FT types.Type) {
		switch FT.Underlying().(type) {
		case *types.Map, *types.Chan, *types.Pointer:
		default:
			return
		}
		for _, m := range ms {
			if b, known := m.st.eval(m.st.nilCond(m.cells[path])); !known || b {
				return
			}
		}
		if fv := in.P.fieldOf(T, path); fv != nil && in.P.neverNil(fv) {
			st.facts["nil:"+k+path] = false
		}
	})
}
