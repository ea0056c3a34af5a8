package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked package under analysis in SSA form.
type Program struct {
	Prog   *ssa.Program
	Pkg    *ssa.Package
	Fset   *token.FileSet
	Sizes  types.Sizes
	Files  int
	Funcs  []*ssa.Function // all functions with bodies, including closures
	strSrc map[string]strSrc
	inv    map[string]bool
	roles  map[string]string
	ctors  map[*types.Named][]made
	nonnil map[*types.Var]bool
}

func loadProgram(dir string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir: dir,
		Env: append(append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GO111MODULE=on"), env...),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package in %s, found %d", dir, len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("package does not type-check: %v", pkgs[0].Errors[0])
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkg: sp[0], Fset: prog.Fset, Sizes: pkgs[0].TypesSizes, Files: len(pkgs[0].Syntax), strSrc: map[string]strSrc{},
		roles: map[string]string{}, ctors: map[*types.Named][]made{}, nonnil: map[*types.Var]bool{}}
	for fn := range ssautil.AllFunctions(prog) {
		q := fn
		for q.Parent() != nil {
			q = q.Parent()
		}
		if q.Pkg == p.Pkg && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	// methods not reachable by AllFunctions
	have := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		have[f] = true
	}
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || have[f] || len(f.Blocks) == 0 || f.Synthetic != "" {
			return
		}
		have[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, m := range p.Pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			addFn(x)
		case *ssa.Type:
			if n, ok := x.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					addFn(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
	if len(p.Funcs) == 0 {
		return nil, fmt.Errorf("no functions found in %s", dir)
	}
	return p, nil
}

func (p *Program) Named(name string) *types.Named {
	o := p.Pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Program) Iface(name string) *types.Interface {
	n := p.Named(name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

func (p *Program) Func(name string) *ssa.Function { return p.Pkg.Func(name) }

// Method returns the method of *T (declared or promoted).
func (p *Program) Method(T *types.Named, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(T))
	s := ms.Lookup(p.Pkg.Pkg, name)
	if s == nil {
		return nil
	}
	return p.Prog.MethodValue(s)
}

// DeclaredMethods lists the methods declared with receiver T or *T.
func (p *Program) DeclaredMethods(T *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < T.NumMethods(); i++ {
		if f := p.Prog.FuncValue(T.Method(i)); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// Implementers are the struct types of the package whose pointer implements iface.
func (p *Program) Implementers(iface string) []*types.Named {
	it := p.Iface(iface)
	if it == nil {
		return nil
	}
	var out []*types.Named
	sc := p.Pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), it) {
			out = append(out, nt)
		}
	}
	return out
}

func isNamed(T types.Type, pkg, name string) bool {
	n, ok := T.(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Name() == name && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == pkg || n.Obj().Pkg().Name() == pkg)
}

func ptrToNamed(T types.Type) (*types.Named, bool) {
	p, ok := T.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	n, ok := p.Elem().(*types.Named)
	return n, ok
}

// ensureObj assumes the invariant of a UBuf that existed before the analysed
// code: 0 <= reader <= writer <= cap == len(bytes), 0 <= reserved <= cap.
func (in *Interp) ensureObj(st *State, k string, T types.Type) {
	if isNew(k) || T == nil {
		return
	}
	if _, ok := st.objT[k]; ok {
		return
	}
	st.objT[k] = T
	if isNamed(T, "ustack", "UBuf") {
		in.matUBuf(st, k)
	}
}

func (in *Interp) matUBuf(st *State, k string) {
	intT := types.Typ[types.Int]
	bytesT := types.NewSlice(types.Typ[types.Byte])
	dk := k + ".data"
	c := symL(in.lenSym(dk + ".bytes#cap"))
	sl := VSlice{Obj: dk + ".bytes", Off: cst(0), Len: c, Cap: c, T: bytesT}
	if _, ok := st.heap[k+".data"]; ok {
		return
	}
	dT := in.P.ubField(func(v *types.Var) bool { return v.Name() == "data" })
	if dT == nil {
		return
	}
	st.heap[k+".data"] = VRef{K: dk, T: dT.Type()}
	st.facts["nil:"+dk] = false
	st.heap[dk+".bytes"] = sl
	st.facts["nil:"+dk+".bytes"] = false
	r := st.load(k, ".readerIndex", intT).(VInt).L
	w := st.load(k, ".writerIndex", intT).(VInt).L
	s := st.load(k, ".reserved", intT).(VInt).L
	st.addGE(r)
	st.addGE(w.sub(r))
	st.addGE(c.sub(w))
	st.addGE(s)
	st.addGE(c.sub(s))
	st.addGE(c.addK(-1))
}

func short(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "ustack.", "")
	return s
}

func (p *Program) ubField(f func(*types.Var) bool) *types.Var {
	n := p.Named("UBuf")
	if n == nil {
		return nil
	}
	s, ok := structOf(n)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if f(s.Field(i)) {
			return s.Field(i)
		}
	}
	return nil
}

func isBool(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ubCow is the path of the flag that marks shared data.
func (p *Program) ubCow() string {
	if v := p.ubField(func(v *types.Var) bool { return isBool(v.Type()) }); v != nil {
		return "." + v.Name()
	}
	return ".copyOnWrite"
}

// rcField is the path of the reference count in the shared data.
func (p *Program) rcField() string {
	d := p.ubField(func(v *types.Var) bool { return v.Name() == "data" })
	if d == nil {
		return ".refCount"
	}
	if s, ok := structOf(deref(d.Type())); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isInt(f.Type()) {
				return "." + f.Name()
			}
			if n, ok := f.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" {
				return "." + f.Name() + ".v"
			}
		}
	}
	return ".refCount"
}

func (p *Program) ubRC(k string) string { return k + p.rcField() }

// ubRole is the path of the read position (r), write position (w) or head
// room (s) of a buffer.
func (p *Program) ubRole(which string) string {
	return map[string]string{"r": ".readerIndex", "w": ".writerIndex", "s": ".reserved"}[which]
}
