package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", &check{title: "No send on a closed channel and no double close", run: checkC19,
		tech:   "typestate of channels by abstract interpretation of the SSA form over the states between lock sections, with a flow analysis of which channels are ever closed",
		assume: []string{"channels the library neither makes nor closes are not closed by others while it sends on them", "objects are made by their constructors"},
		expl: []string{"Every close and every send on a channel that some close may reach is found by value flow. For every type with such operations the states its objects can be in between the sections of their lock (flags, channels nil, open or closed, sync.Once used) are computed from all methods and goroutines in any order; in none of them may a nil or closed channel be closed or a closed channel be sent on.",
			"Closes must be exclusive (object's lock, sync.Once, compare-and-swap, or a channel nobody else can reach), sends on channels that are ever closed must hold the lock that closing holds. A channel closed under the lock must not stay in a table of the object."}})
}

// closeSites are the calls of close in the package.
func closeSites(p *Program) (out []ssa.CallInstruction) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						out = append(out, c)
					}
				}
			}
		}
	}
	return out
}

// reached are the functions called, deferred or started from fn.
func (f *flow) reached(fn *ssa.Function, seen map[*ssa.Function]bool) map[*ssa.Function]bool {
	if seen[fn] {
		return seen
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() {
					continue // another component
				}
				fns, _ := f.callees(c.Common())
				for _, h := range fns {
					f.reached(h, seen)
				}
			}
			if mc, ok := i.(*ssa.MakeClosure); ok {
				if h, ok := mc.Fn.(*ssa.Function); ok {
					f.reached(h, seen)
				}
			}
		}
	}
	return seen
}

func checkC19(p *Program, r *Report) {
	f := newFlow(p)
	closes := closeSites(p)
	closable := map[ssa.Value]bool{}
	for _, c := range closes {
		for s := range f.srcs(c.Common().Args[0]) {
			if s != nil {
				closable[s] = true
			}
		}
	}
	mayClose := func(v ssa.Value) bool {
		for s := range f.srcs(v) {
			if s != nil && closable[s] {
				return true
			}
		}
		return false
	}
	sends := map[ssa.Instruction]bool{} // sends on channels that are closed somewhere
	nsends := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Send:
					nsends++
					if mayClose(x.Chan) {
						sends[x] = true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							nsends++
							if mayClose(s.Chan) {
								sends[x] = true
							}
						}
					}
				}
			}
		}
	}
	r.Note("close_sites", len(closes))
	r.Note("send_sites", nsends)
	r.Note("sends_on_closable", len(sends))
	// the types concerned
	work := map[*ssa.Function]bool{}
	for _, c := range closes {
		work[c.Parent()] = true
	}
	for i := range sends {
		work[i.Parent()] = true
	}
	seen := map[ssa.Instruction]bool{}
	done := map[*types.Named]bool{}
	var names []string
	byName := map[string]*types.Named{}
	var free []*ssa.Function
	for _, fn := range f.entries() {
		hit := false
		for h := range f.reached(fn, map[*ssa.Function]bool{}) {
			hit = hit || work[h]
		}
		if !hit {
			continue
		}
		if recv := fn.Signature.Recv(); recv != nil {
			if n, ok := ptrToNamed(recv.Type()); ok && !done[n] {
				done[n] = true
				names = append(names, n.Obj().Name())
				byName[n.Obj().Name()] = n
			}
		} else if fn.Parent() == nil {
			free = append(free, fn)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		chanMachine(p, r, f, byName[n], sends, mayClose, seen)
	}
	for _, fn := range free {
		chanFree(p, r, fn, sends, seen)
	}
	live := map[*ssa.Function]bool{}
	for _, fn := range f.entries() {
		f.reached(fn, live)
	}
	for _, c := range closes {
		if live[c.Parent()] {
			r.Check("analysed", r.place(p, c), seen[c], nil, "this close was not reached by the analysis of any object")
		}
	}
	for i := range sends {
		if live[i.Parent()] {
			r.Check("analysed", r.place(p, i), seen[i], nil, "this send on a channel that is closed elsewhere was not reached by the analysis of any object")
		}
	}
}

// shutTables are the channels closed that are still in a table of the object.
func (m *machine) tables() (out []string) {
	m.p.eachCell(m.T, "", func(path string, FT types.Type) {
		if mt, ok := FT.Underlying().(*types.Map); ok {
			if _, ok := mt.Elem().Underlying().(*types.Chan); ok {
				out = append(out, path)
			}
		}
	})
	return out
}

func (m *machine) tableElem(path string) types.Type {
	return m.p.fieldOf(m.T, path).Type().Underlying().(*types.Map).Elem()
}

// gone: the channel of this name was taken out of the table.
func (m *machine) gone(st *State, path, ch string) bool {
	tab := st.mapOf("o" + path)
	for _, e := range tab.log {
		if m.in.symbolic(tab.base+"{"+e.k.key()+"}", m.tableElem(path)).key() == "r:"+ch {
			return true
		}
	}
	return false
}

func chanMachine(p *Program, r *Report, f *flow, T *types.Named, sends map[ssa.Instruction]bool, mayClose func(ssa.Value) bool, seen map[ssa.Instruction]bool) {
	if r.survive {
		return // knows nothing but channels
	}
	m := newMachine(p, r, T)
	if !m.start() {
		// no constructor: any state
		r.Fail("analysis", T.Obj().Name(), nil, "no constructor was found for a type that closes channels")
		return
	}
	m.rule = func(rule string, at ssa.Instruction, ok bool, st *State, what string) {
		r.Check(rule, m.at(at), ok, st, "%s", what)
	}
	m.env = func(*State, string) bool { return true }
	tabs := m.tables()
	fromTable := func(st *State, ch string) (string, bool) {
		for _, t := range tabs {
			if strings.HasPrefix(ch, "shared"+t) {
				return t, true
			}
		}
		return "", false
	}
	mine := func(st *State, ch string) bool {
		if isNew(ch) || strings.HasPrefix(ch, "sec:") || strings.HasPrefix(ch, "o.") {
			return true
		}
		_, ok := fromTable(st, ch)
		return ok
	}
	// only channels that exist are kept in tables
	m.onMap = func(st *State, at ssa.Instruction, mv Value, k, v Value, del bool) {
		for _, t := range tabs {
			if refKey(mv)+pathOfRef(mv) == "o"+t && del {
				// whoever takes it out owns it
				st.disc["owned:"+strings.TrimPrefix(m.in.symbolic(st.mapOf("o"+t).base+"{"+k.key()+"}", m.tableElem(t)).key(), "r:")] = "1"
			} else if refKey(mv)+pathOfRef(mv) == "o"+t {
				b, known := st.eval(st.nilCond(v))
				r.Check("kept-open", m.at(at), (known && !b || isNew(refKey(v))) && !isShut(st, refKey(v)), st, "a channel that may be nil or closed is put in a table")
			}
		}
	}
	m.hook()
	shut, send, recv := m.onClose, m.onSend, m.onRecv
	exists := func(st *State, chv Value) {
		if _, ok := fromTable(st, refKey(chv)); ok {
			st.facts["nil:"+refKey(chv)] = false
		}
	}
	local := func(st *State, ch string) bool { return isNew(ch) && st.disc["go"] == "" && st.disc["spawned"] == "" }
	m.onClose = func(st *State, at ssa.Instruction, chv Value) {
		seen[at] = true
		ch := refKey(chv)
		exists(st, chv)
		ok := m.inSection(st) && mine(st, ch) || st.disc["inonce"] != "" || st.disc["cas"] != "" || local(st, ch) || st.disc["owned:"+ch] != ""
		r.Check("close-alone", m.at(at), ok, st, "a channel is closed without the lock of its object, others may close it at the same time")
		shut(st, at, chv)
	}
	m.onSend = func(st *State, at ssa.Instruction, chv, v Value, sel bool) {
		ch := refKey(chv)
		exists(st, chv)
		if sends[at] && !(sel && !mayClose(selChan(at, m, st, ch))) {
			seen[at] = true
			r.Check("send-alone", m.at(at), m.inSection(st) && mine(st, ch) || local(st, ch) || st.disc["owned:"+ch] != "", st, "something is sent on a channel that others may close at the same time")
		}
		send(st, at, chv, v, sel)
	}
	m.onRecv = func(st *State, at ssa.Instruction, chv Value, ET types.Type) Value {
		exists(st, chv)
		return recv(st, at, chv, ET)
	}
	m.goHook = func(st *State, c *CallInfo) bool {
		st.disc["spawned"] = "1"
		return len(st.disc["gon"]) > 1
	}
	m.section = func(st *State) {
		for d := range st.disc {
			ch := strings.TrimPrefix(d, "shut:")
			if ch == d {
				continue
			}
			if t, ok := fromTable(st, ch); ok {
				r.Check("taken-out", "table "+t[1:], m.gone(st, t, ch) || st.disc["owned:"+ch] != "", st, "a channel that was closed stays in the table, it will be closed or sent on again")
			}
		}
	}
	m.explore(calledOf(f, T))
	r.Note("types", 1)
}

func pathOfRef(v Value) string {
	if r, ok := v.(VRef); ok {
		return r.Path
	}
	return ""
}

// selChan is the channel value of the send case that uses channel ch.
func selChan(at ssa.Instruction, m *machine, st *State, ch string) ssa.Value {
	if s, ok := at.(*ssa.Select); ok {
		for _, c := range s.States {
			if c.Dir == types.SendOnly && refKey(m.in.val(st, st.top(), c.Chan)) == ch {
				return c.Chan
			}
		}
	}
	if s, ok := at.(*ssa.Send); ok {
		return s.Chan
	}
	return nil
}

// chanFree analyses a function that is not a method.
func chanFree(p *Program, r *Report, fn *ssa.Function, sends map[ssa.Instruction]bool, seen map[ssa.Instruction]bool) {
	sc := p.Implementers("DataProcessor")
	pr, st := attrRun(p, r, sc[0])
	c := &chanRun{procRun: pr}
	c.env = func(*State, string) bool { return true }
	c.rule = func(rule string, at ssa.Instruction, ok bool, st *State, what string) {
		r.Check(rule, pr.at(at), ok, st, "%s", what)
	}
	c.hook()
	shut, send := pr.onClose, pr.onSend
	pr.onClose = func(st *State, at ssa.Instruction, chv Value) {
		seen[at] = true
		r.Check("close-alone", pr.at(at), isNew(refKey(chv)) && st.disc["spawned"] == "", st, "a channel is closed that others may close at the same time")
		shut(st, at, chv)
	}
	pr.onSend = func(st *State, at ssa.Instruction, chv, v Value, sel bool) {
		if sends[at] {
			seen[at] = true
			r.Check("send-alone", pr.at(at), isNew(refKey(chv)) && st.disc["spawned"] == "", st, "something is sent on a channel that others may close at the same time")
		}
		send(st, at, chv, v, sel)
	}
	pr.goHook = func(st *State, c *CallInfo) bool {
		st.disc["spawned"] = "1"
		return len(st.disc["gon"]) > 1
	}
	pr.in.Enter(st, fn, pr.symArgs(st, fn, "arg"), nil)
	pr.in.Run(st)
	r.absorb(pr.in)
}
