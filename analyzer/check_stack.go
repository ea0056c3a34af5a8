package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const stackTech = "abstract interpretation of the SSA form of DefaultUStack (linear integer constraints, skolem list elements, ghost delivery counts)"

var stackAssume = []string{"lists of the stack hold no nil entries and no entry twice", "handlers called by the stack return; what they change is changed through the stack's own methods"}

func init() {
	register("C13", &check{title: "Every event reaches every party exactly once", tech: stackTech, run: checkC13, assume: stackAssume,
		expl: []string{"PublishEvent is interpreted with an arbitrary event and lists of arbitrary length, once for each kind of party with an arbitrary (skolem) member of that kind: on every path the member must be called exactly once with the event as it was published, before PublishEvent returns.",
			"Registration (SetEventListener) must append the listener to the list as it is when the lock is held."}})
	register("C14", &check{title: "Adding and removing endpoints and transports", tech: stackTech + "; list content forgotten and replaced by another version whenever the lock is taken", run: checkC14, assume: stackAssume,
		expl: []string{"Each operation is interpreted with the object being a member or not, in the version of the list seen in each critical section; a store to the list must add or remove exactly the object in the version of the current section, and is only allowed where the object is not, or is, a member of that version.",
			"Every party must be told exactly once, after the change, with the matching event type and object; where nothing changes nobody may be told.",
			"No element of an array that was handed out may be written; growing in place is only accepted if no removal keeps the array."}})
}

type cell struct {
	path string
	T    types.Type
}

// stackRun is a run of a method of the default stack, object "u".
func stackRun(p *Program, r *Report) (*procRun, *State) {
	T := p.Named("DefaultUStack")
	if T == nil {
		r.Fail("present", "DefaultUStack", nil, "the type does not exist any more")
		return nil, nil
	}
	pr := newProcRun(p, r, scene{T: T, name: "DefaultUStack", kind: "stack"})
	pr.count = 0
	pr.in = newInterp(p, pr)
	pr.world.in = pr.in
	st := pr.in.newState()
	st.facts["nil:u"] = false
	pr.in.assumeMade(st, T, "u")
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		r.Check("survives", pr.at(at), false, st, "the stack can fail: %s", what)
	}
	return pr, st
}

// cells of the stack whose type satisfies f.
func (pr *procRun) cells(f func(types.Type) bool) (out []cell) {
	pr.p.eachCell(pr.sc.T, "", func(path string, FT types.Type) {
		if f(FT) {
			out = append(out, cell{path, FT})
		}
	})
	return out
}

func (pr *procRun) listOf(name string) (cell, bool) {
	cs := pr.cells(func(T types.Type) bool {
		s, ok := T.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		if name == "listener" {
			_, f := s.Elem().Underlying().(*types.Signature)
			return f
		}
		n, ok := s.Elem().(*types.Named)
		return ok && n.Obj().Name() == name
	})
	if len(cs) != 1 {
		pr.r.Check("list", "DefaultUStack", false, nil, "the list of every %s is not found", name)
		return cell{}, false
	}
	return cs[0], true
}

func (pr *procRun) list(st *State, c cell) VSlice {
	v, ok := asSlice(st.load("u", c.path, c.T))
	if !ok {
		return VSlice{Obj: "?", T: c.T}
	}
	return v
}

// skolem is an arbitrary index of the list.
func (pr *procRun) skolem(st *State, name string, l VSlice) Lin {
	is := pr.in.syms.mk(name)
	pr.in.skolems[is] = true
	st.addGE(symL(is))
	st.addGE(l.Len.sub(symL(is)).addK(-1))
	return l.Off.add(symL(is))
}

func (pr *procRun) enterU(st *State, method string, args ...Value) {
	fn := pr.p.Method(pr.sc.T, method)
	if fn == nil {
		pr.r.Fail("present", pr.sc.name+"."+method, nil, "the entry point does not exist")
		return
	}
	pr.in.Enter(st, fn, append([]Value{VRef{K: "u", T: types.NewPointer(pr.sc.T)}}, args...), nil)
	pr.in.Run(st)
	pr.r.absorb(pr.in)
	pr.r.Note("scenes", 1)
}

// handlers lets got see every delivery of an event to a party.
func (pr *procRun) handlers(got func(st *State, c *CallInfo, key string, ev Value)) {
	old := pr.other
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		if c.Fn == nil && c.Method != nil && c.Name == "OnEvent" && len(c.Args) == 1 {
			if r, ok := c.Recv.(VRef); ok {
				if !pr.in.nonNil(st, c.Site, r, "OnEvent called on nil") {
					return nil, true
				}
				got(st, c, r.K, c.Args[0])
				if st.dead {
					return nil, true
				}
				return one(st, nil)
			}
		}
		if c.Fn == nil && c.FnVal != nil && len(c.Args) == 1 {
			if r, ok := c.FnVal.(VRef); ok {
				if !pr.in.nonNil(st, c.Site, r, "call of a nil listener") {
					return nil, true
				}
				got(st, c, r.K, c.Args[0])
				if st.dead {
					return nil, true
				}
				return one(st, nil)
			}
		}
		if old != nil {
			return old(st, c)
		}
		return nil, false
	}
	pr.in.elemFact = func(st *State, e elemRef, v VRef) {
		if strings.HasPrefix(e.base, "u.") || strings.HasPrefix(e.base, "ver") {
			st.facts["nil:"+v.K] = false
		}
	}
}

// parties are the kinds of receivers of an event.
func parties(pr *procRun) []string {
	ks := []string{"listener", "EndPoint", "Feature", "DataProcessor"}
	for _, c := range pr.decks() {
		ks = append(ks, c.path)
	}
	return ks
}

func (pr *procRun) decks() []cell {
	dp := pr.p.ifaceT("DataProcessor")
	return pr.cells(func(T types.Type) bool { return types.Identical(T, dp) })
}

// party puts an arbitrary receiver of the kind into the state.
func (pr *procRun) party(st *State, kind string) (key string, ok bool) {
	if strings.HasPrefix(kind, ".") {
		key = "deck" + kind
		st.heap["u"+kind] = VRef{K: key, T: pr.p.ifaceT("DataProcessor")}
		st.facts["nil:"+key] = false
		return key, true
	}
	c, ok := pr.listOf(kind)
	if !ok {
		return "", false
	}
	l := pr.list(st, c)
	at := pr.skolem(st, "theone", l)
	v, isRef := pr.in.elemVal(l.Obj, at, c.T.Underlying().(*types.Slice).Elem()).(VRef)
	if !isRef {
		return "", false
	}
	st.facts["nil:"+v.K] = false
	pr.in.splits[l.Obj] = append(pr.in.splits[l.Obj], watch{at, v})
	return v.K, true
}

func checkC13(p *Program, r *Report) {
	pr, _ := stackRun(p, r)
	if pr == nil {
		return
	}
	r.Check("decks", "DefaultUStack", len(pr.decks()) == 2, nil, "the upper and the lower deck of the stack were not found")
	for _, kind := range parties(pr) {
		pr, st := stackRun(p, r)
		key, ok := pr.party(st, kind)
		if !r.Check("party", "DefaultUStack", ok, nil, "receivers of the kind %s were not found", kind) {
			continue
		}
		ev := pr.in.symbolic("ev", p.ifaceT("Event"))
		where := "(*DefaultUStack).PublishEvent"
		pr.handlers(func(st *State, c *CallInfo, k string, e Value) {
			r.Check("unchanged", pr.at(c.Site), st.same(e, ev), st, "a party is given another event than the one published")
			if k == key {
				r.Check("once", pr.at(c.Site), st.disc["got"] == "", st, "an event is delivered twice to the same %s", kind)
				r.Check("sync", pr.at(c.Site), c.Kind != "go", st, "an event is delivered by a goroutine of its own, in any order")
				st.disc["got"] = "1"
			}
		})
		pr.onEnd = func(st *State) {
			r.Check("delivered", where, st.disc["got"] == "1", st, "an event is not delivered to every %s", kind)
		}
		pr.enterU(st, "PublishEvent", ev)
	}
	appends(p, r, "SetEventListener", "listener")
	for _, n := range []int{0, 1, 2} {
		endpointEvent(p, r, n)
	}
}

// endpointEvent: an endpoint passes events on to the listener set last.
func endpointEvent(p *Program, r *Report, sets int) {
	T := p.Named("DefaultEndPoint")
	if T == nil || len(p.constructorsOf(T)) == 0 {
		r.Fail("present", "DefaultEndPoint", nil, "the type or its constructor does not exist any more")
		return
	}
	pr, st := attrRun(p, r, T)
	where := "(*DefaultEndPoint).OnEvent"
	ev := pr.in.symbolic("ev#0", p.ifaceT("Event"))
	fT := p.Method(T, "SetEventListener").Params[1].Type()
	steps := []callStep{construct(p, pr, T)}
	last := ""
	for i := 0; i < sets; i++ {
		last = "eventlistener" + string(rune('1'+i))
		st.facts["nil:"+last] = false
		steps = append(steps, method(p, T, 0, "SetEventListener", VRef{K: last, T: fT}))
	}
	steps = append(steps, method(p, T, 0, "OnEvent", ev))
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		f, ok := c.FnVal.(VRef)
		if c.Fn != nil || !ok || len(c.Args) != 2 || !strings.HasPrefix(f.K, "eventlistener") {
			return nil, false
		}
		at := pr.at(c.Site)
		o, _ := objOf(c.Args[0])
		me, _ := objOf(res(st, 0))
		r.Check("unchanged", at, o.K == me.K && st.same(c.Args[1], ev), st, "the event listener of an endpoint is given another endpoint or event")
		r.Check("once", at, f.K == last && st.disc["got"] == "", st, "an event is passed twice to the listener of an endpoint, or to one that was replaced")
		r.Check("sync", at, c.Kind != "go" && st.disc["go"] == "", st, "an event is passed to the listener of an endpoint by a goroutine of its own, in any order")
		st.disc["got"] = "1"
		return one(st, nil)
	}
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		r.Check("survives", pr.at(at), false, st, "an endpoint without event listener can fail: %s", what)
	}
	pr.seq(st, steps, func(st *State) {
		r.Check("delivered", where, (st.disc["got"] == "1") == (sets > 0), st, "an endpoint does not pass an event to its event listener")
	})
}

// appends: the method adds its argument at the end of the list.
func appends(p *Program, r *Report, method, kind string) {
	pr, st := stackRun(p, r)
	c, ok := pr.listOf(kind)
	if !ok {
		return
	}
	elem := c.T.Underlying().(*types.Slice).Elem()
	x := VRef{K: "x", T: elem}
	st.facts["nil:x"] = false
	pr.versions(c)
	pr.onEnd = func(st *State) {
		where := "(*DefaultUStack)." + method
		cur, now := pr.version(st, c), pr.list(st, c)
		r.Check("registered", where, pr.isPlus(st, cur, now, x, elem), st, "%s does not add its argument to the list", method)
	}
	pr.enterU(st, method, x)
}

// versions replaces the list by another one whenever a lock of the stack is
// taken: others may have changed it.
func (pr *procRun) versions(c cell) {
	pr.lockHook = func(st *State, ci *CallInfo, op, key string) {
		if op != "Lock" && op != "RLock" || !strings.HasPrefix(key, "u.") {
			return
		}
		if len(st.disc["ver"]) < 4 {
			count(st, "ver", "v", 12)
		}
		delete(st.disc, "scan")
		st.heap["u"+c.path] = pr.in.symbolic(pr.verName(st)+c.path, c.T)
	}
}

func (pr *procRun) verName(st *State) string {
	if st.disc["ver"] == "" {
		return "u"
	}
	return fmt.Sprintf("ver%d", len(st.disc["ver"]))
}

// version is the list as it was when the lock was taken last.
func (pr *procRun) version(st *State, c cell) VSlice {
	return pr.in.symbolic(pr.verName(st)+c.path, c.T).(VSlice)
}

// isPlus: b is a followed by x.
func (pr *procRun) isPlus(st *State, a, b VSlice, x Value, elem types.Type) bool {
	if !st.eq0(b.Len.sub(a.Len).addK(-1)) {
		return false
	}
	qa := &Seq{base: a.Obj, elem: elem}
	qb := st.seq(b.Obj, elem)
	if !pr.in.sameBytes(st, qa, a.Off, qb, b.Off, a.Len) {
		return false
	}
	for _, g := range st.clone().seqRead(qb, b.Off.add(a.Len)) {
		if !g.st.same(g.v, x) {
			return false
		}
	}
	return true
}

// isMinus: b is a without the element at index i.
func (pr *procRun) isMinus(st *State, a, b VSlice, i Lin, elem types.Type) bool {
	if !st.eq0(a.Len.sub(b.Len).addK(-1)) {
		return false
	}
	qa := &Seq{base: a.Obj, elem: elem}
	qb := st.seq(b.Obj, elem)
	i = i.sub(a.Off)
	return pr.in.sameBytes(st, qa, a.Off, qb, b.Off, i) &&
		pr.in.sameBytes(st, qa, a.Off.add(i).addK(1), qb, b.Off.add(i), b.Len.sub(i))
}
