package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C24", &check{title: "The stack is wired completely and in order", tech: stackTech, run: checkC24, assume: append([]string{"GetOverhead of a processor returns a constant"}, stackAssume...),
		expl: []string{"Run is interpreted with processor and feature lists of arbitrary length: with no processor, with an arbitrary neighbouring pair, with the first and with the last processor watched. At the end the last neighbours set must be each other (or the decks), and when a watched element is run it must have its neighbours and the stack, once.",
			"Overhead: an arbitrary one, and an arbitrary pair, of processors has arbitrary overheads and all others none; GetOverhead must then return their sum, from any earlier value.",
			"AppendDataProcessor and AddFeature must append their argument to the list."}})
}

// wiring interprets Run and records what the parts of the stack are given.
type wiring struct {
	*procRun
	names map[string]string // element -> what it is
	ov    map[string]Value
}

func wire(p *Program, r *Report) (*wiring, *State) {
	pr, st := stackRun(p, r)
	if pr == nil {
		return nil, nil
	}
	w := &wiring{pr, map[string]string{}, map[string]Value{}}
	pr.other = w.call
	pr.in.elemFact = func(st *State, e elemRef, v VRef) {
		if strings.HasPrefix(e.base, "u.") {
			st.facts["nil:"+v.K] = false
		}
	}
	return w, st
}

// part is the object a call is made on, if it is a part of the stack.
func (w *wiring) part(c *CallInfo) (Value, string) {
	if c.Method != nil && c.Fn == nil {
		if r, ok := c.Recv.(VRef); ok {
			return r, r.K
		}
		return nil, ""
	}
	if c.Fn == nil || len(c.Args) == 0 || c.Fn.Signature.Recv() == nil {
		return nil, ""
	}
	r, ok := c.Args[0].(VRef)
	if !ok || r.Path != "" || !isNew(r.K) {
		return nil, ""
	}
	n, ok := ptrToNamed(c.Fn.Signature.Recv().Type())
	if !ok || n.Obj().Name() != "UpperDeck" && n.Obj().Name() != "LowerDeck" {
		return nil, ""
	}
	return VIface{Dyn: types.NewPointer(n), V: r}, r.K
}

func (w *wiring) call(st *State, c *CallInfo) ([]stVal, bool) {
	v, k := w.part(c)
	if v == nil {
		return nil, false
	}
	name := c.Name
	if c.Fn != nil {
		name = c.Fn.Name()
	}
	if c.Fn == nil {
		ifn := recvIface(c)
		if ifn != "DataProcessor" && ifn != "Feature" {
			return nil, false
		}
		if !w.in.nonNil(st, c.Site, c.Recv, name+" called on nil") {
			return nil, true
		}
		switch name {
		case "SetUpper", "SetLower", "SetUStack":
			if w.names[k] != "" || strings.HasPrefix(k, "u.") && !strings.Contains(k, "[") {
				st.gv[name+":"+k] = c.Args[0]
				st.disc[name+":"+k] = "1"
			}
			return one(st, v)
		case "GetOverhead":
			if o, ok := w.ov[k]; ok {
				st.disc["asked:"+k] = "1"
				return one(st, o)
			}
			return one(st, VInt{cst(0)})
		case "GetName":
			return one(st, w.in.symbolic(k+".@name", types.Typ[types.String]))
		}
	}
	if c.Fn != nil && (name == "SetUpper" || name == "SetLower" || name == "SetUStack") {
		st.disc[name+":"+k] = "1"
	}
	if name != "Run" {
		return nil, false
	}
	what := w.names[k]
	if _, isDeck := v.(VIface); isDeck {
		what = "deck"
	}
	if what != "" {
		at := w.at(c.Site)
		w.r.Check("once", at, st.disc["ran:"+k] == "", st, "the %s is run more than once", what)
		w.r.Check("sync", at, c.Kind != "go" && st.disc["go"] == "", st, "the %s is run by a goroutine, at any time", what)
		w.r.Check("stack-first", at, w.isStack(w.attr(st, v, "SetUStack")), st, "the %s is run before it is given the stack", what)
		if i, ok := v.(VIface); ok {
			if n, ok := ptrToNamed(i.Dyn); ok && n.Obj().Name() == "LowerDeck" {
				for _, x := range sortedKeys(w.names) {
					w.r.Check("lower-last", at, st.disc["ran:"+x] != "", st, "the lower deck brings in connections before the %s is run", w.names[x])
				}
			}
		}
		st.disc["ran:"+k] = "1"
	}
	return one(st, v)
}

// attr is what the element was given last.
func (w *wiring) attr(st *State, v Value, setter string) Value {
	switch x := v.(type) {
	case VRef:
		return st.gv[setter+":"+x.K]
	case VIface:
		r, ok := x.V.(VRef)
		n, ok2 := ptrToNamed(x.Dyn)
		if ok && ok2 {
			if path := w.p.setterPath(n, setter); path != "" {
				if f := w.p.fieldOf(n, path); f != nil {
					return st.load(r.K, r.Path+path, f.Type())
				}
			}
		}
	}
	return nil
}

func (w *wiring) isStack(v Value) bool {
	i, ok := v.(VIface)
	if !ok {
		return false
	}
	r, ok := i.V.(VRef)
	return ok && r.K == "u" && r.Path == ""
}

func (w *wiring) deck(st *State, name string) Value {
	for _, c := range w.decks() {
		v := st.load("u", c.path, c.T)
		if i, ok := v.(VIface); ok {
			if n, ok := ptrToNamed(i.Dyn); ok && n.Obj().Name() == name {
				return v
			}
			continue
		}
		// a deck kept from an earlier Run
		if w.p.roles["deck:"+c.path] == name {
			return v
		}
	}
	return nil
}

// linked: b is the lower neighbour of a and a the upper neighbour of b.
func (w *wiring) linked(st *State, a, b Value, what string) {
	where := "(*DefaultUStack).Run"
	lo, up := w.attr(st, a, "SetLower"), w.attr(st, b, "SetUpper")
	w.r.Check("lower", where, a != nil && b != nil && lo != nil && st.same(lo, b), st, "%s: the lower neighbour of the first is not the second", what)
	w.r.Check("upper", where, a != nil && b != nil && up != nil && st.same(up, a), st, "%s: the upper neighbour of the second is not the first", what)
}

func (w *wiring) ran(st *State, v Value, what string) {
	k := ""
	switch x := v.(type) {
	case VRef:
		k = x.K
	case VIface:
		if r, ok := x.V.(VRef); ok {
			k = r.K
		}
	}
	where := "(*DefaultUStack).Run"
	w.r.Check("run", where, k != "" && st.disc["ran:"+k] == "1", st, "the %s is not run", what)
	w.r.Check("stack", where, w.isStack(w.attr(st, v, "SetUStack")), st, "the %s is not given the stack", what)
}

// element puts a watched element at the index of the list.
func (w *wiring) element(st *State, c cell, at Lin, what string) Value {
	l := w.list(st, c)
	v, ok := w.in.elemVal(l.Obj, at, c.T.Underlying().(*types.Slice).Elem()).(VRef)
	if !ok {
		return nil
	}
	st.facts["nil:"+v.K] = false
	w.in.splits[l.Obj] = append(w.in.splits[l.Obj], watch{at, v})
	w.names[v.K] = what
	return v
}

func checkC24(p *Program, r *Report) {
	where := "(*DefaultUStack).Run"
	// which deck is kept where
	if w, st := wire(p, newReport("-")); w != nil {
		w.onEnd = func(st *State) {
			for _, c := range w.decks() {
				if i, ok := st.load("u", c.path, c.T).(VIface); ok {
					if n, ok := ptrToNamed(i.Dyn); ok {
						p.roles["deck:"+c.path] = n.Obj().Name()
					}
				}
			}
		}
		w.enterU(st, "Run")
	}
	for _, sc := range []string{"none", "pair", "first", "last", "feature"} {
		w, st := wire(p, r)
		if w == nil {
			return
		}
		kind := "DataProcessor"
		if sc == "feature" {
			kind = "Feature"
		}
		c, ok := w.listOf(kind)
		if !ok {
			return
		}
		l := w.list(st, c)
		var a, b Value
		switch sc {
		case "none":
			st.addEQ(l.Len)
		case "pair":
			i := w.skolem(st, "i", l)
			st.addGE(l.Off.add(l.Len).sub(i).addK(-2))
			j := w.skolem(st, "j", l)
			st.addEQ(j.sub(i).addK(-1))
			a, b = w.element(st, c, i, "processor"), w.element(st, c, j, "processor")
		case "first":
			i := w.skolem(st, "i", l)
			st.addEQ(i.sub(l.Off))
			a = w.element(st, c, i, "processor")
		case "last":
			i := w.skolem(st, "i", l)
			st.addEQ(l.Off.add(l.Len).addK(-1).sub(i))
			a = w.element(st, c, i, "processor")
		case "feature":
			a = w.element(st, c, w.skolem(st, "i", l), "feature")
		}
		n := 0
		w.onEnd = func(st *State) {
			n++
			ud, ld := w.deck(st, "UpperDeck"), w.deck(st, "LowerDeck")
			switch sc {
			case "none":
				w.linked(st, ud, ld, "the decks of a stack without processors")
				w.ran(st, ud, "upper deck")
				w.ran(st, ld, "lower deck")
			case "pair":
				w.linked(st, a, b, "a processor and the next one")
				w.ran(st, a, "processor")
				w.ran(st, b, "processor")
			case "first":
				w.linked(st, ud, a, "the upper deck and the first processor")
				w.ran(st, a, "processor")
				w.ran(st, ud, "upper deck")
			case "last":
				w.linked(st, a, ld, "the last processor and the lower deck")
				w.ran(st, a, "processor")
				w.ran(st, ld, "lower deck")
			case "feature":
				w.ran(st, a, "feature")
			}
		}
		w.enterU(st, "Run")
		r.Check("ends", where, n > 0, nil, "Run never returns")
	}
	for _, two := range []bool{false, true} {
		overheads(p, r, two)
	}
	appends(p, r, "AppendDataProcessor", "DataProcessor")
	appends(p, r, "AddFeature", "Feature")
}

// overheads: the stack's overhead is the sum of the processors'.
func overheads(p *Program, r *Report, two bool) {
	w, st := wire(p, r)
	if w == nil {
		return
	}
	c, ok := w.listOf("DataProcessor")
	if !ok {
		return
	}
	l := w.list(st, c)
	i := w.skolem(st, "i", l)
	x := w.element(st, c, i, "processor")
	ox := w.in.symbolic("ov.x", types.Typ[types.Int])
	w.ov[x.(VRef).K] = ox
	sum := ox.(VInt).L
	if two {
		j := w.skolem(st, "j", l)
		st.addGE(j.sub(i).addK(-1))
		y := w.element(st, c, j, "processor")
		oy := w.in.symbolic("ov.y", types.Typ[types.Int])
		w.ov[y.(VRef).K] = oy
		sum = sum.add(oy.(VInt).L)
	}
	get := p.Method(w.sc.T, "GetOverhead")
	if get == nil {
		r.Fail("present", "DefaultUStack.GetOverhead", nil, "the entry point does not exist")
		return
	}
	w.onRet = func(st *State, v Value) {
		if st.disc["phase"] == "" {
			s := st.clone()
			s.frames = nil
			s.disc["phase"] = "2"
			w.in.Enter(s, get, []Value{VRef{K: "u", T: types.NewPointer(w.sc.T)}}, nil)
			w.in.work = append(w.in.work, s)
			return
		}
		n, ok := v.(VInt)
		r.Check("overhead", "(*DefaultUStack).Run", ok && st.eq0(n.L.sub(sum)), st, "the overhead of the stack is not the sum of the overheads of its processors")
	}
	w.enterU(st, "Run")
}
