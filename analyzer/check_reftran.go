package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// refScene interprets sequences of calls on by-reference transports. Queues
// have their content.
type refScene struct {
	*chanRun
	T, C *types.Named
	r    *Report
	addr Value
	made []int // results that are transports
}

func newRefScene(p *Program, r *Report, T *types.Named) (*refScene, *State) {
	pr, st := attrRun(p, r, T)
	c := &refScene{chanRun: &chanRun{procRun: pr}, T: T, r: r, C: p.Named("ReferenceTransportConnection")}
	c.rule = func(rule string, at ssa.Instruction, ok bool, st *State, what string) {
		r.Check(rule, pr.at(at), ok, st, "%s", what)
	}
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		r.Check("survives", pr.at(at), false, st, "a call of a transport can fail: %s", what)
	}
	c.addr = pr.in.symbolic("addr", types.Typ[types.String])
	count := func(st *State, ch string) int { n, _ := strconv.Atoi(st.disc["qn:"+ch]); return n }
	c.env = func(st *State, ch string) bool { return true }
	c.sends = func(st *State, at ssa.Instruction, ch string, v Value) {
		n := count(st, ch)
		if k, ok := st.heap[ch+".@cap"].(VInt); ok && k.L.isConst() && int64(n) >= k.L.K {
			st.disc["blocked"] = "1"
			st.dead = true
			return
		}
		if n > 9 {
			st.dead = true // endless
			return
		}
		st.gv["q:"+ch+":"+strconv.Itoa(n)] = v
		st.disc["qn:"+ch] = strconv.Itoa(n + 1)
	}
	c.hook()
	pr.onRecv = func(st *State, at ssa.Instruction, chv Value, ET types.Type) Value {
		if b, known := st.eval(st.nilCond(chv)); known && b {
			st.dead = true
			return nil
		}
		ch := refKey(chv)
		if n := count(st, ch); n > 0 {
			v := st.gv["q:"+ch+":0"]
			for i := 1; i < n; i++ {
				st.gv["q:"+ch+":"+strconv.Itoa(i-1)] = st.gv["q:"+ch+":"+strconv.Itoa(i)]
			}
			st.disc["qn:"+ch] = strconv.Itoa(n - 1)
			st.gv["@recvok"] = VBool{boolC(true)}
			return v
		}
		st.gv["@recvok"] = VBool{boolC(false)}
		if !isShut(st, ch) {
			// nothing there: goes on when it is closed, if ever
			if st.disc["waits"] != "" && st.disc["waits"] != ch {
				st.dead = true
				return nil
			}
			st.disc["waits"], st.disc["waitstep"] = ch, st.disc["step"]
		}
		return zeroValue(ET)
	}
	pr.onSelect = func(st *State, at *ssa.Select, idx int) {
		// a case that is ready is taken
		ready := false
		for i, s := range at.States {
			ch := refKey(c.in.val(st, st.top(), s.Chan))
			rdy := s.Dir == types.SendOnly && !isShut(st, ch)
			if s.Dir == types.RecvOnly {
				rdy = isShut(st, ch) || count(st, ch) > 0
			}
			if rdy && i == idx {
				return
			}
			ready = ready || rdy
		}
		if ready || idx >= 0 && !at.Blocking {
			st.dead = true
		}
	}
	return c, st
}

func (c *refScene) on(i int, name string, args ...Value) callStep {
	return callStep{c.p.Method(c.T, name), func(st *State) []Value {
		o, _ := objOf(res(st, i))
		o.T = types.NewPointer(c.T)
		return append([]Value{o}, args...)
	}}
}

func (c *refScene) conn(i int, name string, args ...Value) callStep {
	return callStep{c.p.Method(c.C, name), func(st *State) []Value {
		o, _ := objOf(res(st, i))
		o.T = types.NewPointer(c.C)
		return append([]Value{o}, args...)
	}}
}

func (c *refScene) new() callStep {
	fn := c.p.constructorsOf(c.T)[0].fn
	return callStep{fn, func(st *State) []Value { return c.symArgs(st, fn, "name") }}
}

func refTran(p *Program, r *Report, T *types.Named) {
	if len(p.constructorsOf(T)) == 0 || p.Named("ReferenceTransportConnection") == nil {
		r.Fail("analysis", T.Obj().Name(), nil, "no constructor was found")
		return
	}
	yes, no := VBool{boolC(true)}, VBool{boolC(false)}
	x := VIface{Dyn: types.Typ[types.Int], V: VInt{cst(77)}}
	run, stop, next := short(p.Method(T, "Run")), short(p.Method(T, "Stop")), short(p.Method(T, "NextConnection"))
	// two transports with the same address that nobody else uses: 0 and 1,
	// then the calls given: "R0" Run, "S0" Stop, "N0" NextConnection
	pair := func(what, calls string, more func(c *refScene, nth map[string]int) []callStep, done func(c *refScene, st *State, nth map[string]int, last Value)) {
		c, st := newRefScene(p, r, T)
		ss := []callStep{c.new(), c.new(), c.on(0, "SetAddress", c.addr), c.on(1, "SetAddress", c.addr), c.on(0, "ForServer", yes), c.on(1, "ForServer", no)}
		nth := map[string]int{}
		for i := 0; i+1 < len(calls); i += 2 {
			who := int(calls[i+1] - '0')
			m := map[byte]string{'R': "Run", 'S': "Stop", 'N': "NextConnection"}[calls[i]]
			nth[calls[i:i+2]] = len(ss)
			nth["at"+strconv.Itoa(i/2)] = len(ss)
			ss = append(ss, c.on(who, m))
		}
		if more != nil {
			ss = append(ss, more(c, nth)...)
		}
		c.unused(st)
		n := 0
		c.seq(st, ss, func(st *State) {
			if st.disc["waits"] != "" && st.disc["waitstep"] != strconv.Itoa(len(ss)-1) && !isShut(st, st.disc["waits"]) {
				return // never goes on
			}
			n++
			done(c, st, nth, res(st, len(ss)-1))
		})
		r.Check("returns", what, n > 0, nil, "the calls %s never return", calls)
		r.Note("histories", 1)
	}
	open := func(what, calls, which string) {
		pair(what, calls, func(c *refScene, nth map[string]int) []callStep { return []callStep{c.conn(nth[which], "Closed")} }, func(c *refScene, st *State, nth map[string]int, v Value) {
			b, known := st.eval(st.nilCond(res(st, nth[which])))
			r.Check("connection", what, known && !b && st.disc["waits"] == "", st, "NextConnection of a running transport does not return its connection (%s)", calls)
			r.Check("open", what, boolRes(st, v) == "false", st, "the connection of a running transport is not open (%s)", calls)
		})
	}
	open(run, "R0N0", "N0")
	open(run, "R1N1", "N1")
	open(run, "R0R0N0", "N0")
	open(run, "R0S0R0N0", "N0")
	open(run, "R0N0S0R0N0", "N0")
	open(run, "R0S0S0R0N0", "N0")
	open(stop, "S0R0N0", "N0")
	open(run, "R0R1S1N0", "N0")
	// a connection that was taken is closed by Stop
	for _, calls := range []string{"R0N0S0", "R1N1S1", "R0R1N0S0", "R0S0R0N0S0", "R0R0N0S0", "R0N0S0S0"} {
		calls, which := calls, "N"+calls[1:2]
		pair(stop, calls, func(c *refScene, nth map[string]int) []callStep { return []callStep{c.conn(nth[which], "Closed")} }, func(c *refScene, st *State, nth map[string]int, v Value) {
			r.Check("closes", stop, boolRes(st, v) == "true", st, "Stop does not close the connection handed out (%s)", calls)
		})
	}
	// waiting for another connection ends with nil when the transport is stopped
	for _, calls := range []string{"R0N0N0S0", "R0R0N0N0S0", "R0S0R0N0N0S0", "R1N1N1S1", "R0N0S0N0", "R0N0S0R0N0N0S0"} {
		calls := calls
		pair(next, calls, nil, func(c *refScene, st *State, nth map[string]int, v Value) {
			i := nth["N"+calls[1:2]]
			b, known := st.eval(st.nilCond(res(st, i)))
			r.Check("nil-when-stopped", next, known && b, st, "NextConnection returns a connection it should wait for (%s)", calls)
			if w := st.disc["waits"]; w != "" {
				r.Check("stop-wakes", stop, isShut(st, w), st, "Stop does not end a waiting NextConnection (%s)", calls)
			}
		})
	}
	// both ends use one channel as long as one of them runs
	for _, calls := range []string{"R0R1N0N1", "R1R0N0N1", "R0R1S0R0N0N1", "R0R1S1R1N0N1", "R0R0R1R1N0N1", "R0R1S0S0R0N0N1", "R0R1S0S1R0R1N0N1", "S0R0R1N0N1", "R0R1S0R0S1R1N0N1", "R0R0R1S0R0N0N1"} {
		calls := calls
		pair(run, calls, func(c *refScene, nth map[string]int) []callStep {
			return []callStep{c.conn(nth["N0"], "SetReference", x), c.conn(nth["N1"], "GetReference")}
		}, func(c *refScene, st *State, nth map[string]int, v Value) {
			t, ok := v.(VTuple)
			r.Check("shared", run, ok && st.same(t.V[0], x), st, "transports of the same address do not use the same channel (%s)", calls)
		})
	}
	// what was left in a channel nobody uses any more is gone
	for _, calls := range []string{"R0N0", "R0R0N0", "R0R1N0", "R0R1S1R1N0", "R0R1S1S1N0"} {
		calls := calls
		pair(stop, calls, func(c *refScene, nth map[string]int) []callStep {
			n := 6 + len(calls)/2
			ss := []callStep{c.conn(nth["N0"], "SetReference", x), c.on(0, "Stop"), c.on(1, "Stop"), c.on(1, "Run"), c.on(1, "NextConnection")}
			return append(ss, c.conn(n+4, "GetReference"))
		}, func(c *refScene, st *State, nth map[string]int, v Value) {
			t, ok := v.(VTuple)
			r.Check("released", stop, ok && !st.same(t.V[0], x), st, "the channel of transports that were all stopped is used again with what was left in it (%s)", calls)
		})
	}
	refUsers(p, r, T)
}

// table is the table of channels by address, if there is one.
func (c *refScene) table() (*ssa.Global, types.Type, string) {
	for _, m := range c.p.Pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := deref(g.Type()).Underlying().(*types.Map)
		if !ok {
			continue
		}
		n, ok := ptrToNamed(mt.Elem())
		if !ok {
			continue
		}
		s, ok := structOf(n)
		if !ok {
			continue
		}
		chs, cnt := 0, ""
		for i := 0; i < s.NumFields(); i++ {
			switch u := s.Field(i).Type().Underlying().(type) {
			case *types.Chan:
				chs++
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					cnt = "." + s.Field(i).Name()
				}
			}
		}
		if chs == 2 && cnt != "" {
			return g, mt.Elem(), cnt
		}
	}
	return nil, nil, ""
}

// unused: no address is in use.
func (c *refScene) unused(st *State) {
	for _, m := range c.p.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := deref(g.Type()).Underlying().(*types.Map); ok {
				st.maps["global:"+g.Name()] = &MapC{base: "global:" + g.Name(), empty: true}
			}
		}
	}
}

// refUsers: the address is used by any number of others.
func refUsers(p *Program, r *Report, T *types.Named) {
	for _, calls := range []string{"R", "RR", "RS", "RRS", "RSS", "S", "RSR", "RSRS"} {
		c, st := newRefScene(p, r, T)
		g, ET, cnt := c.table()
		if g == nil {
			return // kept otherwise; the histories above decide
		}
		c.unused(st)
		ch := VRef{K: "chan0", T: ET}
		st.facts["nil:chan0"] = false
		s, _ := structOf(deref(ET))
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
				st.facts["nil:chan0."+s.Field(i).Name()] = false
			}
		}
		n := symL(c.in.lenSym("users"))
		st.addGE(n.addK(-1))
		st.heap["chan0"+cnt] = VInt{n}
		tab := "global:" + g.Name()
		st.maps[tab] = &MapC{base: tab, empty: true, log: []mapEntry{{k: c.addr, v: ch}}}
		ss := []callStep{c.new(), c.on(0, "SetAddress", c.addr)}
		users, running := n, false
		for i := range calls {
			if calls[i] == 'R' {
				ss = append(ss, c.on(0, "Run"))
				running = true
			} else {
				ss = append(ss, c.on(0, "Stop"))
				running = false
			}
		}
		if running {
			users = users.addK(1)
		}
		where := short(p.Method(T, map[bool]string{true: "Run", false: "Stop"}[running]))
		k := 0
		c.seq(st, ss, func(st *State) {
			k++
			for _, g := range st.clone().mapGet(st.mapOf(tab), c.addr, ET) {
				b, known := g.st.eval(g.ok)
				r.Check("kept", where, known && b && refKey(g.v) == "chan0", g.st, "the channel others use is dropped or replaced (%s)", calls)
				v, ok := g.st.load("chan0", cnt, types.Typ[types.Int]).(VInt)
				r.Check("count", where, ok && g.st.eq0(v.L.sub(users)), g.st, "the number of users of the channel is wrong (%s)", calls)
			}
		})
		r.Check("returns", where, k > 0, nil, "the calls %s never return", calls)
		r.Note("histories", 1)
	}
}
