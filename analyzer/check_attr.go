package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", &check{title: "Setters and getters agree and chain", run: checkC23,
		tech:   "abstract interpretation of the SSA form: sequences of calls (constructor, setter, getters) on symbolic objects",
		assume: []string{"the public interfaces name the attributes: SetX stores what GetX returns"},
		expl: []string{"For every exported constructor of a context, endpoint data, endpoint, stack, processor, feature or transport: the getters of a new object must return the initial values, and every fluent method of the interface must return the very object, as the type that was created.",
			"For an object in an arbitrary state, every setter and every getter: after SetX(v), GetX must return v and every other getter must return what it returned before; options are compared for the same and for another arbitrary name; setters without getter must store to a cell of their own."}})
}

type callStep struct {
	fn   *ssa.Function
	args func(st *State) []Value
}

// seq interprets the calls one after another; results are in gv "res0"...
func (pr *procRun) seq(st *State, steps []callStep, done func(st *State)) {
	pr.onRet = func(st *State, v Value) {
		i, _ := strconv.Atoi(st.disc["step"])
		s := st.clone()
		if v != nil {
			s.gv["res"+strconv.Itoa(i)] = v
		}
		i++
		if i == len(steps) {
			done(s)
			return
		}
		s.frames = nil
		s.disc["step"] = strconv.Itoa(i)
		pr.in.Enter(s, steps[i].fn, steps[i].args(s), nil)
		pr.in.work = append(pr.in.work, s)
	}
	st.disc["step"] = "0"
	pr.in.Enter(st, steps[0].fn, steps[0].args(st), nil)
	pr.in.Run(st)
	pr.r.absorb(pr.in)
	pr.r.Note("call_sequences", 1)
}

func res(st *State, i int) Value { return st.gv["res"+strconv.Itoa(i)] }

// attrRun is a run of calls on objects of type T.
func attrRun(p *Program, r *Report, T *types.Named) (*procRun, *State) {
	pr := newProcRun(p, r, scene{T: T, name: T.Obj().Name(), kind: "attr"})
	pr.count = 0
	pr.in = newInterp(p, pr)
	pr.world.in = pr.in
	pr.goHook = func(st *State, c *CallInfo) bool { return true }
	st := pr.in.newState()
	return pr, st
}

func (pr *procRun) symArgs(st *State, fn *ssa.Function, pre string) (out []Value) {
	for i, q := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		v := pr.in.symbolic(fmt.Sprintf("%s%d", pre, i), q.Type())
		if x, ok := v.(VRef); ok && (types.IsInterface(q.Type()) && q.Type().Underlying().(*types.Interface).NumMethods() > 0) {
			st.facts["nil:"+x.K] = false
		}
		out = append(out, v)
	}
	return out
}

// isObj: v is the object k of type *T.
func isObj(v Value, k string, T *types.Named) bool {
	i, ok := v.(VIface)
	if ok {
		if n, ok := ptrToNamed(i.Dyn); !ok || n != T {
			return false
		}
		v = i.V
	}
	x, ok := v.(VRef)
	return ok && x.K == k && x.Path == ""
}

func objOf(v Value) (VRef, bool) {
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	x, ok := v.(VRef)
	return x, ok
}

var attrIfaces = []string{"Context", "EndPointData", "EndPoint", "UStack", "DataProcessor", "Feature", "Transport"}

func checkC23(p *Program, r *Report) {
	for _, in := range attrIfaces {
		it := p.Iface(in)
		if it == nil {
			r.Fail("present", in, nil, "the interface does not exist any more")
			continue
		}
		n := 0
		for _, T := range p.Implementers(in) {
			ms := p.constructorsOf(T)
			if len(ms) == 0 {
				continue
			}
			n++
			seen := map[*ssa.Function]bool{}
			for _, m := range ms {
				if !seen[m.fn] {
					seen[m.fn] = true
					fresh(p, r, T, in, it, m.fn)
				}
			}
			if T.Obj().Name() != "ProcBase" && T.Obj().Name() != "FeatBase" || in == "DataProcessor" || in == "Feature" {
				settersOf(p, r, T, in, it)
			}
		}
		r.Check("present", in, n > 0, nil, "nothing implements %s any more", in)
	}
	feature(p, r, true)
	feature(p, r, false)
	for _, b := range []string{"ProcBase", "FeatBase"} {
		embedded(p, r, b)
	}
}

// embedded: the fluent methods of a base return the object it is embedded in.
func embedded(p *Program, r *Report, name string) {
	T := p.Named(name)
	if T == nil {
		return
	}
	path := p.setterPath(T, "SetWhere")
	fn := p.Method(T, "SetWhere")
	if !r.Check("present", name+".SetWhere", path != "" && fn != nil, nil, "the outer object of %s is not kept", name) {
		return
	}
	IT := fn.Params[1].Type()
	it, ok := IT.Underlying().(*types.Interface)
	if !ok {
		return
	}
	outer := VRef{K: "outer", T: IT}
	self := VRef{K: "p", T: types.NewPointer(T)}
	fns := methodsOf(p, T, it)
	fns["SetWhere"] = fn
	for _, m := range sortedKeys(fns) {
		f := fns[m]
		rs := f.Signature.Results()
		if rs.Len() != 1 || !types.Identical(rs.At(0).Type(), IT) {
			continue
		}
		pr, st := attrRun(p, r, T)
		st.facts["nil:p"], st.facts["nil:outer"] = false, false
		pr.in.assumeMade(st, T, "p")
		st.heap["p"+path] = outer
		pr.seq(st, []callStep{{f, func(st *State) []Value {
			if m == "SetWhere" {
				return []Value{self, outer}
			}
			return append([]Value{self}, pr.symArgs(st, f, "v")...)
		}}}, func(st *State) {
			r.Check("outer", short(f), res(st, 0) != nil && st.same(res(st, 0), outer), st, "%s does not return the object the base is embedded in", m)
		})
	}
}

// methods of the interface implemented by *T.
func methodsOf(p *Program, T *types.Named, it *types.Interface) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for i := 0; i < it.NumMethods(); i++ {
		if f := p.Method(T, it.Method(i).Name()); f != nil {
			out[it.Method(i).Name()] = f
		}
	}
	return out
}

func isSetter(name string) bool {
	return strings.HasPrefix(name, "Set") || strings.HasPrefix(name, "Clear") || name == "ForServer"
}

func isGetter(name string, f *ssa.Function) bool {
	return len(f.Params) == 1 && f.Signature.Results().Len() == 1 && (strings.HasPrefix(name, "Get") || strings.HasPrefix(name, "Has") || strings.HasPrefix(name, "Is"))
}

// fresh checks a newly constructed object.
func fresh(p *Program, r *Report, T *types.Named, iface string, it *types.Interface, ctor *ssa.Function) {
	fns := methodsOf(p, T, it)
	made := func(pr *procRun) callStep {
		return callStep{ctor, func(st *State) []Value { return pr.symArgs(st, ctor, "arg") }}
	}
	on := func(pr *procRun, f *ssa.Function) callStep {
		return callStep{f, func(st *State) []Value {
			o, _ := objOf(res(st, 0))
			return append([]Value{VRef{K: o.K, Path: o.Path, T: types.NewPointer(T)}}, pr.symArgs(st, f, "v")...)
		}}
	}
	for _, name := range sortedKeys(fns) {
		f := fns[name]
		rs := f.Signature.Results()
		where := short(f)
		if rs.Len() == 1 && types.Identical(rs.At(0).Type(), p.ifaceT(iface)) && !strings.HasPrefix(name, "Get") {
			pr, st := attrRun(p, r, T)
			pr.seq(st, []callStep{made(pr), on(pr, f)}, func(st *State) {
				o, ok := objOf(res(st, 0))
				if _, isT := ptrToNamed(dynOf(res(st, 0))); !ok || !isT || !isNew(o.K) {
					return // another type's constructor
				}
				if n, _ := ptrToNamed(dynOf(res(st, 0))); n != T {
					return
				}
				r.Check("chain", ctor.Name()+"()."+name, isObj(res(st, 1), o.K, T), st, "%s does not return the object it was called on", name)
				r.Note("chained", 1)
			})
		}
		if !isGetter(name, f) && name != "GetOption" {
			continue
		}
		pr, st := attrRun(p, r, T)
		pr.seq(st, []callStep{made(pr), on(pr, f)}, func(st *State) {
			if n, _ := ptrToNamed(dynOf(res(st, 0))); n != T {
				return
			}
			v := res(st, 1)
			arg := func(T types.Type) Value {
				for i, q := range ctor.Params {
					if types.Identical(q.Type(), T) {
						return pr.in.symbolic(fmt.Sprintf("arg%d", i), q.Type())
					}
				}
				return nil
			}
			ok := true
			switch name {
			case "GetConnection", "GetBuffer", "GetMessage", "GetData", "GetOption":
				ok = v != nil && pr.known(st, st.nilCond(v))
			case "HasDestinationSession":
				b, isB := v.(VBool)
				ok = isB && pr.known(st, b.C.not())
			case "GetName":
				want := arg(types.Typ[types.String])
				if want == nil {
					n := map[bool]string{true: "UStack", false: T.Obj().Name()}[iface == "UStack"]
					want = VStr{Const: &n}
				}
				ok = v != nil && st.same(v, want)
			case "GetSession":
				ok = v != nil && st.same(v, arg(types.Typ[types.Int]))
			case "GetTxChannel", "GetRxChannel":
				ok = v != nil && pr.known(st, st.nilCond(v).not())
			case "GetMTU":
				x, isI := v.(VInt)
				ok = isI && st.eq0(x.L.addK(-2048))
			case "GetOverhead":
				if iface == "UStack" {
					x, isI := v.(VInt)
					ok = isI && st.eq0(x.L)
				}
			case "GetEndPoint", "GetTransport", "GetFeatures":
				s, isS := asSlice(v)
				ok = isS && st.eq0(s.Len)
			}
			r.Check("initial", ctor.Name()+"()."+name, ok, st, "%s of a new object does not return the initial value", where)
		})
	}
	if iface == "DataProcessor" {
		path := p.setterPath(T, "SetEnable")
		pr, st := attrRun(p, r, T)
		pr.seq(st, []callStep{made(pr)}, func(st *State) {
			if n, _ := ptrToNamed(dynOf(res(st, 0))); n != T {
				return
			}
			o, _ := objOf(res(st, 0))
			b, ok := st.load(o.K, o.Path+path, types.Typ[types.Bool]).(VBool)
			r.Check("initial", ctor.Name()+"() enabled", path != "" && ok && pr.known(st, b.C), st, "a new processor is not enabled")
		})
	}
	if tx, rx := fns["GetTxChannel"], fns["GetRxChannel"]; tx != nil && rx != nil {
		pr, st := attrRun(p, r, T)
		pr.seq(st, []callStep{made(pr), on(pr, tx), on(pr, rx)}, func(st *State) {
			a, b := res(st, 1), res(st, 2)
			r.Check("initial", ctor.Name()+"() channels", a != nil && b != nil && !st.maySame(a, b), st, "both channels of an endpoint are the same")
		})
	}
}

func dynOf(v Value) types.Type {
	switch x := v.(type) {
	case VIface:
		return x.Dyn
	case VRef:
		if x.T != nil {
			return x.T
		}
	}
	return types.Typ[types.Invalid]
}

// maySame: the two references could be the same object.
func (s *State) maySame(a, b Value) bool {
	x, ok := a.(VRef)
	y, ok2 := b.(VRef)
	if ok && ok2 && isNew(x.K) && isNew(y.K) {
		return x.K == y.K && x.Path == y.Path
	}
	return true
}

// settersOf checks an object in an arbitrary state.
func settersOf(p *Program, r *Report, T *types.Named, iface string, it *types.Interface) {
	fns := methodsOf(p, T, it)
	self := VRef{K: "p", T: types.NewPointer(T)}
	begin := func() (*procRun, *State) {
		pr, st := attrRun(p, r, T)
		st.facts["nil:p"] = false
		pr.in.assumeMade(st, T, "p")
		if path := p.setterPath(T, "SetWhere"); path != "" {
			st.heap["p"+path] = VIface{Dyn: self.T, V: self}
		}
		return pr, st
	}
	get := func(pr *procRun, f *ssa.Function, args ...Value) callStep {
		return callStep{f, func(st *State) []Value { return append([]Value{self}, args...) }}
	}
	paths := map[string]string{}
	for _, name := range sortedKeys(fns) {
		f := fns[name]
		if !isSetter(name) {
			continue
		}
		if path := p.setterPath(T, name); path != "" {
			if o, dup := paths[path]; dup {
				r.Check("own-cell", short(f), false, nil, "%s and %s store to the same cell", o, name)
			}
			paths[path] = name
		}
		x := strings.TrimPrefix(strings.TrimPrefix(name, "Set"), "Clear")
		if name == "SetOption" {
			optionOf(p, r, T, begin, get, fns)
		}
		for _, g := range sortedKeys(fns) {
			gf := fns[g]
			isOpt := g == "GetOption"
			if !isGetter(g, gf) && !isOpt || name == "SetOption" && isOpt {
				continue
			}
			pr, st := begin()
			var args []Value
			if isOpt {
				args = []Value{pr.in.symbolic("some.name", types.Typ[types.String])}
			}
			var vs []Value
			set := callStep{f, func(st *State) []Value {
				vs = pr.symArgs(st, f, "v")
				return append([]Value{self}, vs...)
			}}
			pr.seq(st, []callStep{get(pr, gf, args...), set, get(pr, gf, args...)}, func(st *State) {
				before, after := res(st, 0), res(st, 2)
				w := short(f) + " / " + g
				switch {
				case strings.HasPrefix(name, "Set") && g == "Get"+x:
					r.Check("agree", w, after != nil && len(vs) == 1 && st.same(after, vs[0]), st, "%s does not return what %s was given", g, name)
					r.Note("set_get_pairs", 1)
				case g == "Has"+x:
					b, ok := after.(VBool)
					want := strings.HasPrefix(name, "Set")
					r.Check("agree", w, ok && pr.known(st, boolIs(b.C, want)), st, "%s is not %v after %s", g, want, name)
				case name == "Clear"+x && g == "Get"+x:
				default:
					r.Check("undisturbed", w, before != nil && after != nil && st.same(before, after), st, "%s changes what %s returns", name, g)
				}
			})
		}
	}
	// no setter changes the cell of another one
	for _, name := range sortedKeys(fns) {
		f := fns[name]
		if !isSetter(name) {
			continue
		}
		pr, st := begin()
		old := map[string]string{}
		T0 := map[string]types.Type{}
		for path := range paths {
			fv := p.fieldOf(T, path)
			if fv == nil || paths[path] == "SetOption" {
				continue
			}
			T0[path] = fv.Type()
			old[path] = st.load("p", path, fv.Type()).key()
		}
		pr.seq(st, []callStep{{f, func(st *State) []Value { return append([]Value{self}, pr.symArgs(st, f, "v")...) }}}, func(st *State) {
			for _, path := range sortedKeys(T0) {
				if paths[path] != name && strings.TrimPrefix(paths[path], "Set") != strings.TrimPrefix(name, "Clear") {
					r.Check("own-cell", short(f), st.load("p", path, T0[path]).key() == old[path], st, "%s changes what %s set", name, paths[path])
				}
			}
		})
	}
}

func boolIs(c Cond, want bool) Cond {
	if want {
		return c
	}
	return c.not()
}

// optionOf: the option set is returned, others are as they were.
func optionOf(p *Program, r *Report, T *types.Named, begin func() (*procRun, *State), get func(*procRun, *ssa.Function, ...Value) callStep, fns map[string]*ssa.Function) {
	sf, gf := fns["SetOption"], fns["GetOption"]
	if sf == nil || gf == nil {
		return
	}
	pr, st := begin()
	str := types.Typ[types.String]
	n0, n1 := pr.in.symbolic("name0", str), pr.in.symbolic("name1", str)
	v := pr.in.symbolic("value", sf.Params[2].Type())
	s := st.clone()
	for _, x := range s.assume(s.eqCond(n0, n1).not()) {
		st = x
	}
	pr.seq(st, []callStep{get(pr, gf, n1), get(pr, sf, n0, v), get(pr, gf, n0), get(pr, gf, n1)}, func(st *State) {
		w := short(sf)
		r.Check("option", w, st.same(res(st, 2), v), st, "GetOption does not return the value set")
		r.Check("option-other", w, st.same(res(st, 0), res(st, 3)), st, "setting an option changes another one")
		r.Note("options", 1)
	})
}

// feature: GetFeature finds the feature of a name.
func feature(p *Program, r *Report, member bool) {
	pr, st := stackRun(p, r)
	if pr == nil {
		return
	}
	c, ok := pr.listOf("Feature")
	if !ok {
		return
	}
	l := pr.list(st, c)
	var v VRef
	if member {
		at := pr.skolem(st, "theone", l)
		v, ok = pr.in.elemVal(l.Obj, at, c.T.Underlying().(*types.Slice).Elem()).(VRef)
		if !ok {
			return
		}
		st.facts["nil:"+v.K] = false
		pr.in.splits[l.Obj] = append(pr.in.splits[l.Obj], watch{at, v})
	}
	want := pr.in.symbolic("wanted", types.Typ[types.String])
	pr.in.elemFact = func(st *State, e elemRef, v VRef) { st.facts["nil:"+v.K] = false }
	name := func(k string) Value {
		if member && k == v.K {
			return want
		}
		return pr.in.symbolic(k+".@name", types.Typ[types.String])
	}
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		if x, ok := c.Recv.(VRef); ok && c.Fn == nil && c.Name == "GetName" {
			return one(st, name(x.K))
		}
		return nil, false
	}
	pr.onRet = func(st *State, got Value) {
		x, ok := got.(VRef)
		if !member && pr.known(st, st.nilCond(got)) {
			return
		}
		good := ok && pr.known(st, st.nilCond(x).not())
		if good {
			cond := st.eqCond(name(x.K), want)
			good = pr.known(st, cond)
		}
		r.Check("feature", "(*DefaultUStack).GetFeature", good, st, "GetFeature returns something else than a feature of that name, or nothing although one was added")
	}
	pr.enterU(st, "GetFeature", want)
}
