package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", &check{title: "An endpoint's data listener sees data once, in order, one at a time", run: checkC28,
		tech:   "abstract interpretation of the SSA form: state machine of the sections protected by the endpoint's lock, with the number of receiving goroutines",
		assume: []string{"nobody else receives from or closes the receive channel while a listener is set", "Go channels are first in, first out"},
		expl: []string{"The states an endpoint can be in between the sections of its lock (flags, listener set or not) are computed together with the number of goroutines that receive for the listener, from every method in every order: the number must never exceed one and must be one while a listener is set.",
			"In the receiving goroutine every item received must be passed, unchanged and by a direct call, once to the listener read under the lock after the item was received, unless no listener is set then; nothing else may call the listener."}})
}

func checkC28(p *Program, r *Report) {
	T := p.Named("DefaultEndPoint")
	rx := p.getterPath(T, "GetRxChannel")
	lst := p.setterPath(T, "SetDataListener")
	r.Check("present", "(*DefaultEndPoint)", rx != "" && lst != "", nil, "the receive channel or the data listener of an endpoint was not found")
	if rx == "" || lst == "" {
		return
	}
	f := newFlow(p)
	m := newMachine(p, r, T)
	m.ghost = []string{"recv"}
	if !m.start() {
		r.Fail("analysis", "DefaultEndPoint", nil, "no constructor was found")
		return
	}
	m.rule = func(rule string, at ssa.Instruction, ok bool, st *State, what string) {
		r.Check(rule, m.at(at), ok, st, "%s", what)
	}
	rxField := p.fieldOf(T, rx)
	receives := map[*ssa.Function]bool{}
	var reach func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	reach = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var ch ssa.Value
				switch x := i.(type) {
				case *ssa.UnOp:
					if _, ok := x.X.Type().Underlying().(*types.Chan); ok {
						ch = x.X
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && isRx(f, s.Chan, rxField) {
							return true
						}
					}
				case ssa.CallInstruction:
					fns, _ := f.callees(x.Common())
					for _, h := range fns {
						if reach(h, seen) {
							return true
						}
					}
				}
				if ch != nil && isRx(f, ch, rxField) {
					return true
				}
			}
		}
		return false
	}
	receiver := func(fn *ssa.Function) bool {
		v, ok := receives[fn]
		if !ok {
			v = reach(fn, map[*ssa.Function]bool{})
			receives[fn] = v
		}
		return v
	}
	m.env = func(*State, string) bool { return true }
	m.hook()
	started := 0
	m.goHook = func(st *State, c *CallInfo) bool {
		if c.Fn == nil || !receiver(c.Fn) {
			return st.disc["go"] != "" // goroutines of other purpose
		}
		promised := false
		if !m.inSection(st) && st.disc["isrecv"] == "" && st.disc["pend"] != "" {
			// the section before decided to start it
			for _, k := range strings.Split(st.disc["pend"], "|") {
				t := aState{}
				for a, b := range m.memo[k] {
					t[a] = b
				}
				t["@recv"] = "1"
				m.record([]aState{t})
			}
			delete(st.disc, "pend")
			promised = true
		}
		r.Check("starts", m.at(c.Site), promised || m.inSection(st), st, "a receiving goroutine is started without the lock held, the check for another one may be out of date")
		started++
		st.disc["recv"] = strings.Repeat("1", min(len(st.disc["recv"])+1, 2))
		if st.disc["go"] != "" {
			return true
		}
		s := st.clone()
		s.disc["isrecv"] = "1"
		m.spawn(s, c)
		return true
	}
	// a listener is named by when it was read
	m.imposed = func(st *State, site string, s aState) {
		if s[lst] == "set" {
			k := "listener:" + map[bool]string{true: "after", false: "before"}[st.disc["item"] == "1"]
			st.facts["nil:"+k] = false
			st.heap["o"+lst] = VRef{K: k, T: rxListenerT(p, T, lst)}
			st.disc["now"] = "set"
		} else {
			st.disc["now"] = "nil"
		}
		if s["@recv"] == "" && st.disc["isrecv"] == "1" {
			st.dead = true // this one exists
		}
	}
	// what the receiving goroutine leaves is recorded when it is known to go on or to end
	m.hold = func(st *State) bool {
		var ks []string
		for _, s := range m.abstract(st, "o") {
			if st.disc["isrecv"] == "" && (s[lst] != "set" || s["@recv"] != "") {
				m.record([]aState{s})
				continue
			}
			// a listener was set, the goroutine for it may be started next
			ks = append(ks, s.key())
			m.remember(s)
		}
		if len(ks) > 0 {
			st.disc["pend"] = strings.Join(ks, "|")
		}
		return true
	}
	commit := func(st *State, ended bool) {
		for _, k := range strings.Split(st.disc["pend"], "|") {
			s, ok := m.memo[k]
			if !ok {
				continue
			}
			if ended {
				t := aState{}
				for a, b := range s {
					t[a] = b
				}
				t["@recv"] = t["@recv"][:max(len(t["@recv"])-1, 0)]
				s = t
			}
			m.record([]aState{s})
		}
		delete(st.disc, "pend")
	}
	m.lockBefore = func(st *State) { commit(st, false) }
	lost := func(st *State, at string) {
		if st.disc["item"] == "1" {
			r.Check("passed", at, st.disc["passed"] == "1" || st.disc["now"] == "nil", st, "an item received is not passed to the listener although one is set")
		}
		delete(st.disc, "item")
		delete(st.disc, "passed")
		delete(st.disc, "now")
	}
	items := 0
	m.recvs = func(st *State, at ssa.Instruction, ch string, ET types.Type) Value {
		if ch != "sec:start"+rx && ch != "o"+rx && !strings.HasSuffix(ch, rx) {
			return nil
		}
		r.Check("receiver", m.at(at), st.disc["isrecv"] == "1", st, "an endpoint receives its own data outside of the goroutine that serves the listener")
		commit(st, false)
		lost(st, m.at(at))
		items++
		st.disc["item"] = "1"
		v := VRef{K: "item", T: ET}
		st.facts["nil:item"] = false
		st.gv["item"] = v
		st.gv["@recvok"] = VBool{boolC(true)}
		return v
	}
	calls := 0
	m.fnval = func(st *State, c *CallInfo) ([]stVal, bool) {
		v, ok := c.FnVal.(VRef)
		at := m.at(c.Site)
		if !ok || len(c.Args) != 2 || !strings.HasPrefix(v.K, "listener:") {
			if ok && len(c.Args) == 2 && strings.HasSuffix(v.K, lst) {
				r.Check("current", at, false, st, "the listener called was read without the lock or before the item was received")
			}
			if c.Sig.Results().Len() == 0 {
				return one(st, nil)
			}
			return nil, false
		}
		commit(st, false)
		calls++
		r.Check("current", at, v.K == "listener:after", st, "the listener called was read before the item was received")
		r.Check("receiver", at, st.disc["isrecv"] == "1", st, "the listener is called outside of the goroutine that serves it")
		r.Check("sync", at, c.Kind != "go", st, "the listener is called by goroutines of its own, in any order")
		r.Check("once", at, st.disc["item"] == "1" && st.disc["passed"] == "", st, "the listener is called without a new item")
		o, okO := objOf(c.Args[0])
		r.Check("same", at, okO && o.K == "o" && st.gv["item"] != nil && st.same(c.Args[1], st.gv["item"]), st, "the listener does not get the endpoint and the item received")
		r.Check("unlocked", at, !m.inSection(st), st, "the listener is called with the lock of the endpoint held")
		st.disc["passed"] = "1"
		return one(st, nil)
	}
	m.onGoEnd = func(st *State) {
		if st.disc["isrecv"] == "" {
			commit(st, false)
			return
		}
		lost(st, "receiving goroutine")
		commit(st, true)
	}
	set := p.Method(T, "SetDataListener")
	m.section = func(st *State) {
		if st.disc["entry"] == set.Name() && st.disc["go"] == "" {
			want := m.in.symbolic("arg1", set.Params[1].Type())
			if st.same(st.load("o", lst, set.Params[1].Type()), want) {
				st.disc["wasset"] = "1"
			}
		}
	}
	m.onRet = func(st *State, v Value) {
		commit(st, false)
		if st.disc["entry"] == set.Name() {
			r.Check("set", short(set), st.disc["wasset"] == "1", st, "the listener given is not set under the lock")
		}
	}
	m.explore(calledOf(f, T))
	for _, k := range m.order {
		s := m.found[k]
		r.Check("alone", "endpoint states", len(s["@recv"]) <= 1, nil, "two goroutines may receive for the listener at a time (state %s)", k)
		r.Check("served", "endpoint states", s[lst] != "set" || s["@recv"] != "", nil, "a listener is set but no goroutine receives for it (state %s)", k)
	}
	r.Check("receives", "endpoint", started > 0 && items > 0 && calls > 0, nil, "no goroutine was found that receives and calls the listener")
}

func rxListenerT(p *Program, T *types.Named, path string) types.Type {
	return p.fieldOf(T, path).Type()
}

func isRx(f *flow, v ssa.Value, fv *types.Var) bool {
	for _, o := range f.homes(v) {
		if o == fv {
			return true
		}
	}
	return false
}
