package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", &check{title: "Connection lifecycle", tech: procTech + "; goroutines analysed from their start, tables forgotten when the lock is taken, ownership token per table entry", run: checkC15,
		assume: append([]string{"a transport delivers each connection once", "Write of a connection reports an error when it writes less than it was given"}, procAssume...),
		expl: []string{"The goroutine started for an added transport is interpreted with an arbitrary connection returned by NextConnection; the goroutine that reads from it must start once, pass nothing up before NewConnection was published for exactly this connection, pass up every successful read once with the bytes read, and end by closing and reporting it after a failed or empty read.",
			"ConnectionClosed may only be published by who removed the connection's entry from the table in the critical section in which it found it there; entries are only made once, before NewConnection.",
			"Sending: an arbitrary message must be written once, completely, to its own connection; exactly after an error the connection must be closed and reported.",
			"Adding and removing a transport, and Run with an arbitrary list of transports, must start, serve or stop exactly the transport concerned."}})
}

// lower prepares a run of the lower deck that keeps track of one connection.
// Ghost state: c (a connection was delivered), saved, ann(ounced), reader,
// rd (a read happened whose outcome is pending), closed, tok (this goroutine
// removed the entry), absent (the entry was gone), pub(lished).
func lower(p *Program, r *Report) (*procRun, string) {
	pr := deck(p, r, "LowerDeck", "stream")
	if pr == nil {
		return nil, ""
	}
	table := pr.tableOf("TransportConnection")
	if !r.Check("table", "LowerDeck", table != "", nil, "no table of connections was found in LowerDeck") {
		return nil, ""
	}
	connT := p.ifaceT("TransportConnection")
	isConn := func(st *State, v Value) bool {
		c, ok := st.gv["c"]
		return ok && v != nil && c.key() == v.key()
	}
	newT, _ := p.constValue("UStackEventNewConnection")
	closedT, _ := p.constValue("UStackEventConnectionClosed")
	reader := func(st *State) bool { return len(st.disc["gon"]) >= 2 }

	pr.lockHook = func(st *State, c *CallInfo, op, key string) {
		if op == "Lock" || op == "RLock" {
			pr.shareTables(st, "p", pr.sc.T)
			return
		}
		// the entry was looked for and not there
		if c, ok := st.gv["c"]; ok {
			if has, known := st.facts["has:"+st.mapOf(table).base+"|"+c.key()]; known && !has {
				st.disc["absent"] = "1"
			}
		}
	}
	pr.onMapRead = func(st *State, at ssa.Instruction, m, k Value) {
		// entries are true (see entry-value)
		if m.key() == "r:"+table && boolTable(p, pr.sc.T, table[1:]) {
			st.facts[st.mapOf(table).base+"{"+k.key()+"}"] = true
		}
	}
	pr.count = 1
	pr.goHook = func(st *State, c *CallInfo) bool {
		if st.disc["c"] == "1" {
			r.Check("one-reader", pr.at(c.Site), st.disc["reader"] == "", st, "a connection is served by more than one goroutine")
			st.disc["reader"] = "1"
		} else {
			count(st, "acceptor", "1", 6)
		}
		return len(st.disc["gon"]) > 3
	}
	pr.onMap = func(st *State, at ssa.Instruction, m, k, v Value, del bool) {
		if m.key() != "r:"+table {
			return
		}
		w := pr.at(at)
		if !del {
			if r.Check("entry", w, isConn(st, k) && st.disc["c"] == "1", st, "an entry is made for something that is not a connection just delivered") {
				r.Check("entry-once", w, st.disc["saved"] == "" && st.disc["reader"] == "" || st.disc["saved"] == "" && reader(st), st, "an entry of a connection is made twice: it could be reported closed twice")
				if b, ok := v.(VBool); ok {
					r.Check("entry-value", w, pr.known(st, b.C), st, "the entry of a connection does not mark it as present")
				}
				st.disc["saved"] = "1"
			}
			return
		}
		all, none := true, true
		for _, g := range st.clone().mapGet(st.mapOf(table), k, types.Typ[types.Bool]) {
			yes, known := g.st.eval(g.ok)
			all, none = all && known && yes, none && known && !yes
		}
		if len(held(st)) > 0 && isConn(st, k) {
			if all {
				st.disc["tok"] = "1"
			}
			if none {
				st.disc["absent"] = "1"
			}
		}
	}
	pr.publish = func(st *State, c *CallInfo, ev Value) {
		at := pr.at(c.Site)
		e, ok := ev.(VStruct)
		if !r.Check("event", at, ok, st, "the event published is not known") {
			return
		}
		var typ, data Value
		s, _ := structOf(e.T)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			switch s.Field(i).Name() {
			case "Type":
				typ = e.F[i]
			case "Data":
				data = e.F[i]
			}
		}
		n, ok := typ.(VInt)
		if !r.Check("event", at, ok && n.L.isConst(), st, "the type of the event published is not known") {
			return
		}
		switch n.L.K {
		case newT:
			r.Check("announced", at, isConn(st, data) && st.disc["c"] == "1", st, "NewConnection is published for something that is not a connection just delivered")
			r.Check("announced-once", at, st.disc["ann"] == "", st, "NewConnection is published twice for a connection")
			r.Check("announced-first", at, st.disc["reader"] == "" || reader(st), st, "NewConnection is published after the goroutine that reads from the connection was started: data may be passed up before")
			r.Check("entry-first", at, st.disc["saved"] == "1", st, "NewConnection is published before the connection is entered in the table: its end would not be reported")
			r.Check("announced-open", at, st.disc["closed"] == "", st, "NewConnection is published after the connection was closed")
			st.disc["ann"] = "1"
		case closedT:
			r.Check("reported", at, isConn(st, data), st, "ConnectionClosed is published for another connection")
			r.Check("reported-once", at, st.disc["tok"] == "1" && st.disc["pub"] == "", st, "ConnectionClosed is published although another goroutine may publish it as well (the entry was not found and removed in one critical section)")
			r.Check("reported-closed", at, st.disc["closed"] == "1", st, "ConnectionClosed is published before the connection is closed")
			st.disc["tok"], st.disc["pub"] = "", "1"
		}
	}
	// outcome of the last read: certainly data, certainly none, or neither
	outcome := func(st *State) (data, none bool) {
		e, ok := st.gv["rd.err"]
		if !ok {
			return false, false
		}
		cs := []Cond{st.nilCond(e)}
		switch v := st.gv["rd.val"].(type) {
		case VInt:
			cs = append(cs, geC(v.L.addK(-1)))
		case nil:
			return false, false
		default:
			cs = append(cs, st.nilCond(v).not())
		}
		data = true
		ss := []*State{st.clone()}
		for _, c := range cs {
			v, k := st.eval(c)
			data = data && k && v
			var nx []*State
			for _, s := range ss {
				nx = append(nx, s.assume(c)...)
			}
			ss = nx
		}
		return data, len(ss) == 0
	}
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		recv, isRef := c.Recv.(VRef)
		if !isRef {
			return nil, false
		}
		at := pr.at(c.Site)
		switch recvIface(c) {
		case "Transport":
			switch c.Name {
			case "NextConnection":
				if st.disc["c"] == "1" {
					r.Check("served", at, st.disc["reader"] == "1", st, "no goroutine reads from a connection that was delivered")
				}
				r.Check("own-transport", at, st.gv["tp"] == nil || recv.key() == st.gv["tp"].key(), st, "connections are taken from another transport")
				r.Check("accepts-alone", at, st.disc["go"] != "", st, "the caller waits for connections itself")
				st.disc["accepts"] = "1"
				pr.r.Note("accepts", 1)
				for _, d := range []string{"c", "saved", "ann", "reader", "rd", "closed", "tok", "absent", "pub", "given", "ended"} {
					delete(st.disc, d)
				}
				no := st.clone()
				no.disc["ended"] = "1"
				v := VRef{K: pr.in.freshKey("delivered"), T: connT}
				st.facts["nil:"+v.K] = false
				st.gv["c"] = v
				st.disc["c"] = "1"
				return []stVal{{st, v}, {no, VNil{connT}}}, true
			case "Run", "Stop":
				if !pr.in.nonNil(st, c.Site, c.Recv, "method "+c.Name+" called on a nil transport") {
					return nil, true
				}
				r.Check(c.Name, at, st.gv["tp"] != nil && recv.key() == st.gv["tp"].key(), st, "%s is called on another transport", c.Name)
				count(st, c.Name, "1", 6)
				return one(st, recv)
			}
		case "TransportConnection":
			switch c.Name {
			case "Close":
				r.Check("closes", at, isConn(st, recv), st, "another connection is closed")
				st.disc["closed"] = "1"
			case "Read", "GetReference":
				if !reader(st) {
					r.Check("reads-alone", at, false, st, "the goroutine that accepts connections reads from one")
					return nil, false
				}
				r.Check("reads-own", at, isConn(st, recv), st, "another connection is read")
				r.Check("announced-first", at, st.disc["ann"] == "1", st, "the connection is read before NewConnection is published")
				r.Check("passed-up", at, st.disc["rd"] == "", st, "the outcome of a read is ignored: its data is not passed up, or a failed connection is read again")
				r.Check("reads-open", at, st.disc["closed"] == "", st, "the connection is read after it was closed")
				if c.Name == "Read" {
					if s, ok := asSlice(c.Args[0]); ok {
						g, was := st.gv["given"]
						if was {
							r.Check("own-buffer", at, g.key() != "r:"+s.Obj, st, "a read overwrites the buffer that was passed up before")
						}
					}
				}
				st.disc["rd"] = "1"
				if c.Name == "GetReference" {
					m := pr.in.fresh("message", anyT)
					e := pr.in.fresh("err", errorT)
					st.gv["rd.val"], st.gv["rd.err"] = m, e
					return one(st, VTuple{[]Value{m, e}})
				}
				outs, ok := pr.connRead(st, c)
				return outs, ok
			}
		}
		return nil, false
	}
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		at := pr.at(c.Site)
		if !r.Check("up", at, tok == "U" && reader(st), st, "data is passed %s", dirName(tok)) {
			return
		}
		r.Check("in-order", at, c.Kind != "go", st, "received data is passed up by goroutines of their own, in any order")
		data, _ := outcome(st)
		if !r.Check("only-data", at, st.disc["rd"] == "1" && data, st, "something is passed up although nothing was read, or again, or for a failed or empty read") {
			return
		}
		cn := pr.ctxGet(st, ctx, "Connection")
		r.Check("with-connection", at, cn != nil && isConn(st, cn), st, "data is passed up with another connection")
		if n, isN := st.gv["rd.val"].(VInt); isN {
			b, _, mayNil := pr.buffer(st, ctx)
			if r.Check("read-bytes", at, !mayNil && b.q != nil && st.eq0(b.w.sub(b.r).sub(n.L)) && pr.in.sameBytes(st, b.q, b.off.add(b.r), &Seq{base: refKey(st.gv["rd.data"]), elem: types.Typ[types.Byte]}, cst(0), n.L), st, "the bytes passed up are not those that were read") {
				st.gv["given"] = VRef{K: b.obj, T: anyT}
				st.disc["given"] = "1"
			}
		} else {
			r.Check("read-message", at, st.same(pr.ctxGet(st, ctx, "Message"), st.gv["rd.val"]), st, "the message passed up is not the one received")
		}
		pr.ownContext(st, at, ctx)
		st.disc["rd"] = ""
	}
	pr.onGoEnd = func(st *State) {
		if !reader(st) {
			if st.disc["c"] == "1" && st.disc["ended"] == "" {
				r.Check("served", "LowerDeck", st.disc["reader"] == "1", st, "no goroutine reads from a connection that was delivered")
				r.Check("accepts-on", "LowerDeck", false, st, "the goroutine that accepts connections ends although the transport may deliver more")
			}
			return
		}
		_, none := outcome(st)
		r.Check("announced", "LowerDeck", st.disc["ann"] == "1", st, "NewConnection is not published for a connection")
		r.Check("reads-on", "LowerDeck", st.disc["rd"] == "1" && none, st, "reading from a connection stops although no read failed or came back empty")
		r.Check("closed", "LowerDeck", st.disc["closed"] == "1", st, "a connection that failed is not closed")
		r.Check("reported", "LowerDeck", st.disc["pub"] == "1" || st.disc["absent"] == "1", st, "the end of a connection is not reported")
	}
	return pr, table
}

// connRead is a read that may fail, come back empty, or deliver bytes.
func (pr *procRun) connRead(st *State, c *CallInfo) ([]stVal, bool) {
	in := pr.in
	s, ok := asSlice(c.Args[0])
	if !ok {
		return nil, false
	}
	n := symL(in.lenSym(in.freshKey("rd.n")))
	st.addGE(s.Len.sub(n))
	e := in.fresh("rd.err", errorT)
	d := in.freshKey("netdata")
	in.cl.SeqWrite(st, c.Site, s.Obj, s.Off, s.Len)
	st.seqs[s.Obj] = st.seq(s.Obj, types.Typ[types.Byte]).with(seqEntry{off: s.Off, n: n, src: &Seq{base: d, elem: types.Typ[types.Byte]}, srcOff: cst(0)})
	st.gv["rd.val"], st.gv["rd.err"], st.gv["rd.data"] = VInt{n}, e, VRef{K: d, T: anyT}
	return one(st, VTuple{[]Value{VInt{n}, e}})
}

func checkC15(p *Program, r *Report) {
	for _, typ := range []string{"UStackEventTransportAdded", "UStackEventTransportDeleted", ""} {
		pr, _ := lower(p, r)
		if pr == nil {
			return
		}
		st := pr.begin()
		tp := VRef{K: "tp", T: p.ifaceT("Transport")}
		st.gv["tp"] = tp
		pr.onEnd = func(st *State) {
			switch typ {
			case "UStackEventTransportAdded":
				r.Check("started", "(*LowerDeck).OnEvent", st.disc["Run"] == "1" && st.disc["Stop"] == "", st, "an added transport is not run exactly once")
				r.Check("accepted", "(*LowerDeck).OnEvent", st.disc["acceptor"] == "1", st, "the connections of an added transport are not accepted by exactly one goroutine")
			case "UStackEventTransportDeleted":
				r.Check("stopped", "(*LowerDeck).OnEvent", st.disc["Stop"] == "1" && st.disc["Run"] == "" && st.disc["acceptor"] == "", st, "a removed transport is not stopped exactly once")
			default:
				r.Check("quiet", "(*LowerDeck).OnEvent", st.disc["Stop"] == "" && st.disc["Run"] == "" && st.disc["acceptor"] == "", st, "an event of another type starts or stops a transport")
			}
		}
		if typ == "" {
			ev := pr.eventOf(st, "UStackEventTransportAdded", tp).(VStruct)
			s, _ := structOf(ev.T)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Type" {
					o := pr.in.syms.mkTyped("othertype", types.Typ[types.Int], pr.in.sizes)
					ev.F[i] = VInt{symL(o)}
					for _, n := range []string{"UStackEventTransportAdded", "UStackEventTransportDeleted"} {
						x, _ := p.constValue(n)
						pr.notType = append(pr.notType, x)
					}
					for _, x := range pr.others(st, symL(o)) {
						pr.enter(x, "OnEvent", ev)
					}
				}
			}
			continue
		}
		pr.enter(st, "OnEvent", pr.eventOf(st, typ, tp))
		if typ == "UStackEventTransportAdded" {
			r.Check("accepts", "(*LowerDeck).OnEvent", r.Notes("accepts") > 0, nil, "the connections of an added transport are never accepted")
		}
	}
	lowerRun(p, r)
	for _, k := range []string{"stream", "ref", "nil"} {
		lowerSend(p, r, k)
	}
}

// others splits a state by the ranges a value can be in when it is none of notType.
func (pr *procRun) others(st *State, l Lin) []*State {
	out := []*State{st}
	for _, n := range pr.notType {
		var nx []*State
		for _, s := range out {
			nx = append(nx, s.assume(eqC(l.addK(-n)).not())...)
		}
		out = nx
	}
	return out
}

// lowerRun: Run serves every transport of the stack once.
func lowerRun(p *Program, r *Report) {
	pr := deck(p, r, "LowerDeck", "stream")
	st := pr.begin()
	in := pr.in
	where := "(*LowerDeck).Run"
	tps := in.symbolic("ustack.@GetTransport", types.NewSlice(p.ifaceT("Transport"))).(VSlice)
	is := in.syms.mk("theone")
	in.skolems[is] = true
	st.addGE(symL(is))
	st.addGE(tps.Len.sub(symL(is)).addK(-1))
	one1 := in.watchOne(tps.Obj, tps.Off.add(symL(is)), p.ifaceT("Transport"))
	in.elemFact = func(st *State, e elemRef, v VRef) {
		if e.base == tps.Obj {
			st.facts["nil:"+v.K] = false
		}
	}
	pr.goHook = func(st *State, c *CallInfo) bool { return len(st.disc["gon"]) > 0 }
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		recv, isRef := c.Recv.(VRef)
		if !isRef || recvIface(c) != "Transport" {
			return nil, false
		}
		switch c.Name {
		case "Run", "Stop":
			if recv.K == one1.K {
				count(st, c.Name, "1", 6)
				r.Check("run-once", pr.at(c.Site), st.disc["Run"] == "1" && st.disc["Stop"] == "", st, "Run of the stack does not run a transport once")
			}
			return one(st, recv)
		case "NextConnection":
			if recv.K == one1.K {
				r.Note("serves-all", 1)
			}
			return one(st, VNil{p.ifaceT("TransportConnection")})
		}
		return nil, false
	}
	pr.onEnd = func(st *State) {
		r.Check("runs-all", where, st.disc["Run"] == "1", st, "Run does not start every transport of the stack")
	}
	pr.enter(st, "Run")
	r.Check("serves-all", where, r.Notes("serves-all") > 0, nil, "Run does not accept the connections of every transport")
}

// lowerSend: a message on its way down.
func lowerSend(p *Program, r *Report, kind string) {
	pr, table := lower(p, r)
	if pr == nil {
		return
	}
	pr.sc.conn = kind
	st := pr.begin()
	where := "(*LowerDeck).OnUpperData"
	conn := VRef{K: "conn", T: p.ifaceT("TransportConnection")}
	if kind != "nil" {
		st.gv["c"] = conn
	}
	_ = table
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		r.Check("up", pr.at(c.Site), false, st, "a message sent is passed on to another processor")
	}
	pr.goHook = func(st *State, c *CallInfo) bool {
		r.Check("send-order", pr.at(c.Site), false, st, "sending starts a goroutine: messages may change their order")
		return false
	}
	inner := pr.other
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		if recv, ok := c.Recv.(VRef); ok && recvIface(c) == "TransportConnection" && (c.Name == "Write" || c.Name == "SetReference") {
			at := pr.at(c.Site)
			r.Check("own-connection", at, recv.K == "conn", st, "a message is sent on another connection")
			r.Check("sent-once", at, st.disc["sent"] == "", st, "a message is sent twice")
			r.Check("sent-open", at, st.disc["closed"] == "", st, "a message is sent after the connection was closed")
			st.disc["sent"] = "1"
			e := pr.in.fresh("wr.err", errorT)
			st.gv["wr.err"] = e
			if c.Name == "SetReference" {
				r.Check("sent-mode", at, kind == "ref", st, "a reference is given to a byte-stream connection")
				r.Check("sent-message", at, st.same(c.Args[0], pr.msg0), st, "another message is sent")
				return one(st, e)
			}
			r.Check("sent-mode", at, kind == "stream", st, "bytes are written to a by-reference connection")
			s, ok := asSlice(c.Args[0])
			if !r.Check("sent-bytes", at, ok && st.eq0(s.Len.sub(pr.w0.sub(pr.r0))) && pr.in.sameBytes(st, st.seq(s.Obj, types.Typ[types.Byte]), s.Off, pr.q0, pr.b0.off.add(pr.r0), s.Len), st, "the bytes written are not those of the message") {
				return nil, false
			}
			n := symL(pr.in.lenSym(pr.in.freshKey("wr.n")))
			st.addGE(s.Len.sub(n))
			out := []stVal{}
			for _, g := range st.clone().assume(st.nilCond(e)) {
				g.disc["sent"] = "2"
				out = append(out, stVal{g, VTuple{[]Value{VInt{s.Len}, e}}})
			}
			for _, g := range st.assume(st.nilCond(e).not()) {
				out = append(out, stVal{g, VTuple{[]Value{VInt{n}, e}}})
			}
			return out, true
		}
		return inner(st, c)
	}
	pr.onEnd = func(st *State) {
		if st.disc["sent"] == "" {
			why := kind == "nil" || kind == "stream" && (pr.known(st, st.nilCond(VRef{K: "buf", T: pr.ubT()})) || st.eq0(pr.w0.sub(pr.r0)))
			r.Check("sent", where, why, st, "a message is not sent")
			r.Check("keeps-open", where, st.disc["closed"] == "", st, "a connection is closed although no send failed")
			return
		}
		good, bad := st.clone().split(st.nilCond(st.gv["wr.err"]))
		if len(good) > 0 {
			r.Check("keeps-open", where, st.disc["closed"] == "", st, "a connection is closed although no send failed")
		}
		if len(bad) > 0 {
			r.Check("closed", where, st.disc["closed"] == "1", st, "a connection whose send failed is not closed")
			r.Check("reported", where, st.disc["pub"] == "1" || st.disc["absent"] == "1", st, "the end of a connection whose send failed is not reported")
		}
	}
	pr.enter(st, "OnUpperData", pr.ctxVal("ctx"))
}

func boolTable(p *Program, T *types.Named, path string) bool {
	f := p.fieldOf(T, path)
	if f == nil {
		return false
	}
	m, ok := f.Type().Underlying().(*types.Map)
	return ok && types.Identical(m.Elem().Underlying(), types.Typ[types.Bool])
}

func refKey(v Value) string {
	if r, ok := v.(VRef); ok {
		return r.K
	}
	return "?"
}

// ownContext: each message travels in a context of its own; the layers that
// got the context of an earlier message may have kept it or left something in it.
func (pr *procRun) ownContext(st *State, at string, ctx Value) {
	if i, ok := ctx.(VIface); ok {
		ctx = i.V
	}
	k := refKey(ctx)
	pr.r.Check("own-context", at, st.disc["context"] == "" || refKey(st.gv["context"]) != k, st, "a message is passed on in the context of the message before it")
	st.gv["context"] = VRef{K: k, T: anyT}
	st.disc["context"] = "1"
}
