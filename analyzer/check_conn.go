package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", &check{title: "Connections honour their mode and their closed state", run: checkC21,
		tech:   "abstract interpretation of the SSA form: sequences of calls on new connections, channel typestate",
		assume: []string{"net.Conn behaves as documented: Close ends blocked calls", "calls on one connection are analysed in every order of two or three, not interleaved"},
		expl: []string{"For every connection type: a new connection must report its mode and not be Closed; calls of the other mode must return an error and touch neither the network connection nor a queue; Read and Write must be one call of the network connection on the same bytes with the same results; a reference set on the server (client) end must go to the queue the client (server) end gets from, unchanged, and nil must be refused.",
			"After Close (once, twice, three times): Closed must be true, every data call must return an error without touching the network connection or a queue, no channel may be closed twice, the network connection must be closed. Calls waiting on a queue must also wait for what Close closes and return an error then."}})
}

var connModes = map[string]string{"TCPTransportConnection": "stream", "UDSTransportConnection": "stream", "ReferenceTransportConnection": "ref"}

type connRun struct {
	*chanRun
	T   *types.Named
	r   *Report
	ok  bool
	ctr *ssa.Function
}

func connScene(p *Program, r *Report, T *types.Named) (*connRun, *State) {
	pr, st := attrRun(p, r, T)
	c := &connRun{chanRun: &chanRun{procRun: pr}, T: T, r: r}
	ms := p.constructorsOf(T)
	if len(ms) == 0 {
		return nil, nil
	}
	c.ctr = ms[0].fn
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		r.Check("survives", pr.at(at), false, st, "a call of a connection can fail: %s", what)
	}
	c.rule = func(rule string, at ssa.Instruction, ok bool, st *State, what string) {
		r.Check(rule, pr.at(at), ok, st, "%s", what)
	}
	pr.other = func(st *State, ci *CallInfo) ([]stVal, bool) {
		if recvIface(ci) != "Conn" {
			return nil, false
		}
		switch ci.Name {
		case "Read", "Write":
			count(st, "net", ci.Name[:1], 6)
			n := symL(c.in.lenSym(c.in.freshKey("net.n")))
			e := c.in.fresh("net.err", errorT)
			st.gv["net.arg"], st.gv["net.n"], st.gv["net.err"] = ci.Args[0], VInt{n}, e
			return one(st, VTuple{[]Value{VInt{n}, e}})
		case "Close":
			st.disc["netshut"] = "1"
			return one(st, c.in.fresh("net.err", errorT))
		}
		return nil, false
	}
	c.sends = func(st *State, at ssa.Instruction, ch string, v Value) {
		count(st, "net", "S", 6)
		st.disc["sentto"] = ch
		st.gv["sent"] = v
	}
	c.recvs = func(st *State, at ssa.Instruction, ch string, T types.Type) Value {
		if isShut(st, ch) {
			return nil
		}
		if st.disc["sentto"] != "" {
			if st.disc["sentto"] != ch {
				st.disc["crossed"] = "1"
				return nil
			}
			st.disc["got"] = "1"
			return st.gv["sent"]
		}
		count(st, "net", "G", 6)
		return nil
	}
	c.hook()
	return c, st
}

// made calls the constructor with arguments named pre.
func (c *connRun) made(pre string, forServer *bool) callStep {
	return callStep{c.ctr, func(st *State) []Value {
		var out []Value
		for i, q := range c.ctr.Params {
			v := c.in.symbolic("arg"+string(rune('0'+i)), q.Type())
			if x, ok := v.(VRef); ok {
				st.facts["nil:"+x.K] = false
				if n, ok := ptrToNamed(q.Type()); ok { // the queues of the two ends are two
					if s, ok := structOf(n); ok {
						for j := 0; j < s.NumFields(); j++ {
							if _, isCh := s.Field(j).Type().Underlying().(*types.Chan); isCh {
								st.facts["nil:"+x.K+"."+s.Field(j).Name()] = false
							}
						}
					}
				}
			}
			if isBool(q.Type()) && forServer != nil {
				v = VBool{boolC(*forServer)}
			}
			out = append(out, v)
		}
		return out
	}}
}

func (c *connRun) on(i int, name string, args ...Value) callStep {
	fn := c.p.Method(c.T, name)
	return callStep{fn, func(st *State) []Value {
		o, _ := objOf(res(st, i))
		o.T = types.NewPointer(c.T)
		return append([]Value{o}, args...)
	}}
}

func (c *connRun) buf() Value {
	l := symL(c.in.lenSym("p.len"))
	return VSlice{Obj: "pbytes", Off: cst(0), Len: l, Cap: l, T: bytesT}
}

// failed: the last result is an error.
func failed(st *State, v Value) bool {
	if t, ok := v.(VTuple); ok {
		v = t.V[len(t.V)-1]
	}
	b, known := st.eval(st.nilCond(v))
	return known && !b
}

func boolRes(st *State, v Value) string {
	if b, ok := v.(VBool); ok {
		if x, known := st.eval(b.C); known {
			if x {
				return "true"
			}
			return "false"
		}
	}
	return "?"
}

func checkC21(p *Program, r *Report) {
	found := 0
	f := newFlow(p)
	for _, T := range p.Implementers("TransportConnection") {
		mode, ok := connModes[T.Obj().Name()]
		if !ok {
			continue
		}
		found++
		connChecks(p, r, T, mode)
		// several at a time
		chanMachine(p, r, f, T, nil, func(ssa.Value) bool { return false }, map[ssa.Instruction]bool{})
	}
	r.Check("present", "connections", found == len(connModes), nil, "a type of connection does not exist any more")
	for _, fn := range p.Funcs {
		lasts(p, r, fn)
	}
}

// lasts: no deadline is set on a network connection, except by a function
// that closes it; an open connection would fail by itself when it passes.
func lasts(p *Program, r *Report, fn *ssa.Function) {
	closes := false
	var set []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			var name string
			var recv types.Type
			args := c.Common().Args
			if c.Common().IsInvoke() {
				name, recv = c.Common().Method.Name(), c.Common().Value.Type()
			} else if g := c.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil && len(args) > 0 {
				name, recv, args = g.Name(), args[0].Type(), args[1:]
			} else {
				continue
			}
			if !netType(recv, "Conn") {
				continue
			}
			switch name {
			case "Close":
				closes = true
			case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
				if k, ok := args[0].(*ssa.Const); !ok || k.Value != nil {
					set = append(set, c)
				}
			}
		}
	}
	for _, c := range set {
		r.Check("lasts", r.place(p, c), closes, nil, "a deadline is set on a network connection: it fails by itself while it is open")
	}
}

func connChecks(p *Program, r *Report, T *types.Named, mode string) {
	name := T.Obj().Name()
	yes, no := true, false
	each := func(what string, steps func(c *connRun) []callStep, done func(c *connRun, st *State, last Value)) {
		c, st := connScene(p, r, T)
		if c == nil {
			r.Fail("analysis", name, nil, "no constructor was found")
			return
		}
		ss := steps(c)
		n := 0
		c.seq(st, ss, func(st *State) {
			n++
			done(c, st, res(st, len(ss)-1))
		})
		r.Check("returns", "(*"+name+")."+what, n > 0, nil, "%s of a connection never returns", what)
	}
	w := func(m string) string { return "(*" + name + ")." + m }
	for _, sv := range []*bool{&yes, &no} {
		sv := sv
		if mode == "stream" && !*sv {
			continue
		}
		each("UseReference", func(c *connRun) []callStep { return []callStep{c.made("", sv), c.on(0, "UseReference")} }, func(c *connRun, st *State, v Value) {
			want := map[string]string{"stream": "false", "ref": "true"}[mode]
			r.Check("mode", w("UseReference"), boolRes(st, v) == want, st, "UseReference is not %s", want)
		})
		each("UseReference", func(c *connRun) []callStep {
			return []callStep{c.made("", sv), c.on(0, "Close"), c.on(0, "UseReference")}
		}, func(c *connRun, st *State, v Value) {
			want := map[string]string{"stream": "false", "ref": "true"}[mode]
			r.Check("mode", w("UseReference"), boolRes(st, v) == want, st, "UseReference of a closed connection is not %s", want)
		})
		each("Closed", func(c *connRun) []callStep { return []callStep{c.made("", sv), c.on(0, "Closed")} }, func(c *connRun, st *State, v Value) {
			r.Check("open", w("Closed"), boolRes(st, v) == "false", st, "a new connection is not open")
		})
		x := func(c *connRun) Value {
			return VIface{Dyn: types.Typ[types.Int], V: VInt{symL(c.in.syms.mk("value"))}}
		}
		calls := map[string]func(c *connRun) []Value{
			"Read":         func(c *connRun) []Value { return []Value{c.buf()} },
			"Write":        func(c *connRun) []Value { return []Value{c.buf()} },
			"GetReference": func(c *connRun) []Value { return nil },
			"SetReference": func(c *connRun) []Value { return []Value{x(c)} },
		}
		var names []string
		for n := range calls {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, m := range names {
			m := m
			refCall := m == "GetReference" || m == "SetReference"
			if refCall != (mode == "ref") {
				each(m, func(c *connRun) []callStep { return []callStep{c.made("", sv), c.on(0, m, calls[m](c)...)} }, func(c *connRun, st *State, v Value) {
					r.Check("refused", w(m), failed(st, v), st, "%s, which a connection of this mode does not support, returns no error", m)
					r.Check("moves-nothing", w(m), st.disc["net"] == "", st, "%s, which a connection of this mode does not support, moves something", m)
					if t, ok := v.(VTuple); ok {
						z := zeroValue(c.p.Method(T, m).Signature.Results().At(0).Type())
						r.Check("moves-nothing", w(m), st.same(t.V[0], z), st, "%s, which a connection of this mode does not support, claims to have moved something", m)
					}
				})
			}
			for closes := 1; closes <= 3; closes++ {
				closes := closes
				each(m, func(c *connRun) []callStep {
					ss := []callStep{c.made("", sv)}
					for i := 0; i < closes; i++ {
						ss = append(ss, c.on(0, "Close"))
					}
					return append(ss, c.on(0, m, calls[m](c)...))
				}, func(c *connRun, st *State, v Value) {
					r.Check("closed-fails", w(m), failed(st, v), st, "%s of a closed connection returns no error", m)
					r.Check("closed-moves-nothing", w(m), st.disc["net"] == "", st, "%s of a closed connection moves something", m)
				})
			}
		}
		for closes := 1; closes <= 3; closes++ {
			closes := closes
			each("Closed", func(c *connRun) []callStep {
				ss := []callStep{c.made("", sv)}
				for i := 0; i < closes; i++ {
					ss = append(ss, c.on(0, "Close"))
				}
				return append(ss, c.on(0, "Closed"))
			}, func(c *connRun, st *State, v Value) {
				r.Check("closed", w("Closed"), boolRes(st, v) == "true", st, "a connection that was closed does not report it")
				if mode == "stream" {
					r.Check("released", w("Close"), st.disc["netshut"] == "1", st, "Close does not close the network connection")
				}
			})
		}
		if mode == "ref" {
			continue
		}
		for _, m := range []string{"Read", "Write"} {
			m := m
			each(m, func(c *connRun) []callStep { return []callStep{c.made("", sv), c.on(0, m, c.buf())} }, func(c *connRun, st *State, v Value) {
				r.Check("passes", w(m), st.disc["net"] == m[:1], st, "%s of an open connection is not one %s of the network connection", m, m)
				if st.disc["net"] != m[:1] {
					return
				}
				r.Check("same-bytes", w(m), st.same(st.gv["net.arg"], c.buf()), st, "%s of the network connection is called with other bytes", m)
				t, ok := v.(VTuple)
				r.Check("same-result", w(m), ok && st.same(t.V[0], st.gv["net.n"]) && st.same(t.V[1], st.gv["net.err"]), st, "%s does not return the result of the network connection", m)
			})
			for _, first := range []string{"Read", "Write"} {
				first := first
				each(m, func(c *connRun) []callStep {
					return []callStep{c.made("", sv), c.on(0, first, c.buf()), c.on(0, m, c.buf())}
				}, func(c *connRun, st *State, v Value) {
					if st.disc["netshut"] == "1" {
						return
					}
					t, ok := v.(VTuple)
					r.Check("passes", w(m), st.disc["net"] == first[:1]+m[:1], st, "%s after %s of an open connection is not one %s of the network connection", m, first, m)
					r.Check("same-result", w(m), ok && st.same(t.V[0], st.gv["net.n"]) && st.same(t.V[1], st.gv["net.err"]), st, "%s after %s does not return the result of the network connection", m, first)
				})
			}
		}
	}
	if mode != "ref" {
		return
	}
	for _, server := range []bool{true, false} {
		server, client := server, !server
		x := VIface{Dyn: types.Typ[types.Int], V: VInt{cst(77)}}
		each("GetReference", func(c *connRun) []callStep {
			return []callStep{c.made("", &server), c.made("", &client), c.on(0, "SetReference", x), c.on(1, "GetReference")}
		}, func(c *connRun, st *State, v Value) {
			t, ok := v.(VTuple)
			b, known := st.eval(st.nilCond(res(st, 2)))
			r.Check("accepted", w("SetReference"), st.disc["net"] == "S" && known && b, st, "a reference set on an open connection is not queued once")
			r.Check("crosses", w("GetReference"), st.disc["crossed"] == "" && st.disc["got"] == "1", st, "the other end does not get from the queue a reference is put in")
			if st.disc["got"] == "1" && ok {
				e, known := st.eval(st.nilCond(t.V[1]))
				r.Check("unchanged", w("GetReference"), st.same(t.V[0], x) && known && e, st, "the other end does not get the very reference that was set")
			}
		})
		// an end does not get what it set itself
		each("GetReference", func(c *connRun) []callStep {
			return []callStep{c.made("", &server), c.on(0, "SetReference", x), c.on(0, "GetReference")}
		}, func(c *connRun, st *State, v Value) {
			r.Check("own-queue", w("GetReference"), st.disc["got"] == "", st, "a connection gets back the references it set itself")
		})
		each("SetReference", func(c *connRun) []callStep {
			return []callStep{c.made("", &server), c.on(0, "SetReference", VNil{T: anyT})}
		}, func(c *connRun, st *State, v Value) {
			r.Check("nil", w("SetReference"), failed(st, v) && st.disc["net"] == "", st, "nil is accepted as a reference")
		})
		// Close while a call waits
		for _, m := range []string{"GetReference", "SetReference"} {
			m := m
			woken := 0
			each(m, func(c *connRun) []callStep {
				var args []Value
				if m == "SetReference" {
					args = []Value{x}
				}
				waits := func(st *State, at ssa.Instruction, ch string) bool {
					return st.disc["step"] == "1" && st.disc["wait"] == "1" && isNew(ch)
				}
				c.env = func(st *State, ch string) bool { return st.disc["wait"] == "1" }
				rec := c.recvs
				c.recvs = func(st *State, at ssa.Instruction, ch string, T types.Type) Value {
					if waits(st, at, ch) {
						st.disc["woken"] = ch
						return nil
					}
					return rec(st, at, ch, T)
				}
				sel := c.onSelect
				c.onSelect = func(st *State, at *ssa.Select, idx int) {
					if at.Blocking {
						st.disc["wait"] = "1"
					}
					sel(st, at, idx)
				}
				return []callStep{c.made("", &server), c.on(0, m, args...), c.on(0, "Close")}
			}, func(c *connRun, st *State, v Value) {
				if ch := st.disc["woken"]; ch != "" && isShut(st, ch) {
					woken++
					r.Check("woken-fails", w(m), failed(st, res(st, 1)), st, "%s that was waiting when the connection was closed returns no error", m)
				}
			})
			r.Check("woken", w(m), woken > 0, nil, "%s does not stop waiting when the connection is closed", m)
		}
	}
}
