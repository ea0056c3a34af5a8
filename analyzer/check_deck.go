package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", &check{title: "Data is routed to the endpoint of its session", tech: procTech + "; skolem member of the endpoint table, ghost pending message", run: checkC11,
		assume: append([]string{"GetSession, GetTxChannel and GetRxChannel of an endpoint return constant values", "Run finds no two endpoints with the same session"}, procAssume...),
		expl: []string{"Receiving: every channel send must go to the receive channel of an endpoint that is in the table and whose session provably equals the message's (0 without one), with data and connection of the message, at most once; with an arbitrary (skolem) member of that session in the table every path must send.",
			"Sending: the goroutine started for an endpoint is interpreted with an arbitrary message in its transmit channel; every message received must be passed down exactly once with its own data, connection and destination session or the endpoint's session, before the next is received.",
			"Adding and removing: a new endpoint must enter the table and start one goroutine; one that is a member or has the session of a member must change nothing; removal must leave the table without it and signal the goroutine, which must end on that signal."}})
}

// deck prepares a run of one of the decks.
func deck(p *Program, r *Report, name, conn string) *procRun {
	T := p.Named(name)
	if T == nil {
		r.Fail("present", name, nil, "the processor %s does not exist any more", name)
		return nil
	}
	pr := newProcRun(p, r, scene{T, name, "deck", false, true, conn})
	pr.own = 0
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		r.Check("survives", pr.at(at), false, st, "%s can fail: %s", name, what)
	}
	return pr
}

// tableOf is the map of the processor with the given key type.
func (pr *procRun) tableOf(iface string) string {
	t := ""
	want := pr.p.Pkg.Pkg.Scope().Lookup(iface)
	pr.p.eachCell(pr.sc.T, "", func(path string, FT types.Type) {
		if m, ok := FT.Underlying().(*types.Map); ok && want != nil && types.Identical(m.Key(), want.Type()) {
			t = "p" + path
		}
	})
	return t
}

func (p *Program) ifaceT(name string) types.Type {
	if o := p.Pkg.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return anyT
}

// attr reads an attribute of an object given as an interface.
func (pr *procRun) attr(st *State, v Value, what string) Value {
	switch x := v.(type) {
	case VRef:
		T := types.Type(anyT)
		if it, ok := x.T.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == "Get"+what {
					T = it.Method(i).Type().(*types.Signature).Results().At(0).Type()
				}
			}
		}
		return pr.in.symbolic(x.K+".@Get"+what, T)
	case VIface:
		r, ok := x.V.(VRef)
		n, ok2 := ptrToNamed(x.Dyn)
		if !ok || !ok2 {
			return nil
		}
		path := pr.p.setterPath(n, "Set"+what)
		if path == "" {
			return nil
		}
		if f := pr.p.fieldOf(n, path); f != nil {
			return st.load(r.K, r.Path+path, f.Type())
		}
	}
	return nil
}

func (pr *procRun) session(ep string) Lin {
	v := pr.in.symbolic(ep+".@GetSession", types.Typ[types.Int])
	return v.(VInt).L
}

func (pr *procRun) enter(st *State, method string, args ...Value) {
	fn := pr.p.Method(pr.sc.T, method)
	if fn == nil {
		pr.r.Fail("present", pr.sc.name+"."+method, nil, "the entry point does not exist")
		return
	}
	pr.in.Enter(st, fn, append([]Value{VRef{K: "p", T: types.NewPointer(pr.sc.T)}}, args...), nil)
	pr.in.Run(st)
	pr.r.absorb(pr.in)
	pr.r.Note("scenes", 1)
}

// eventOf makes an event of the given type about an object of interface type.
func (pr *procRun) eventOf(st *State, typ string, data Value) Value {
	n, ok := pr.p.constValue(typ)
	if !ok {
		pr.r.Fail("present", typ, nil, "the event type does not exist any more")
	}
	ET := pr.p.ifaceT("Event")
	s, _ := structOf(ET)
	v := VStruct{T: ET}
	for i := 0; s != nil && i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Type":
			v.F = append(v.F, VInt{cst(n)})
		case "Data":
			v.F = append(v.F, data)
		default:
			v.F = append(v.F, pr.in.symbolic("ev."+s.Field(i).Name(), s.Field(i).Type()))
		}
	}
	if d, ok := data.(VRef); ok {
		st.facts["nil:"+d.K] = false
		for _, i := range []string{"EndPoint", "Transport", "TransportConnection", "Feature", "DataProcessor"} {
			T := pr.p.ifaceT(i)
			st.facts["type:"+d.K+"|"+types.TypeString(T, nil)] = types.Identical(T, d.T)
		}
	}
	return v
}

func checkC11(p *Program, r *Report) {
	for _, s := range []string{"int", "none"} {
		for _, m := range []bool{true, false} {
			routeUp(p, r, s, m)
		}
	}
	sig := removal(p, r)
	for _, how := range []string{"new", "same session", "member"} {
		admission(p, r, how, sig)
	}
	adoption(p, r)
}

// routeUp: a received message and the table of endpoints, with or without an
// endpoint of its session.
func routeUp(p *Program, r *Report, sess string, member bool) {
	pr := deck(p, r, "UpperDeck", "stream")
	if pr == nil {
		return
	}
	where := "(*UpperDeck).OnLowerData"
	table := pr.tableOf("EndPoint")
	if !r.Check("table", "UpperDeck", table != "", nil, "no table of endpoints was found in UpperDeck") {
		return
	}
	st := pr.begin()
	in := pr.in
	opt := "session"
	var s Lin
	if sess == "int" {
		s = symL(in.syms.mkTyped("sess", types.Typ[types.Int], in.sizes))
		st.maps["ctx.@options"] = (&MapC{base: "ctx.@options"}).with(mapEntry{k: VStr{Const: &opt}, v: VIface{Dyn: types.Typ[types.Int], V: VInt{s}}})
	} else {
		s = cst(0)
		st.maps["ctx.@options"] = &MapC{empty: true}
	}
	if member {
		e := VRef{K: "member", T: p.ifaceT("EndPoint")}
		in.members[table] = e
		st.facts["nil:member"] = false
		st.facts["has:"+table+"|r:member"] = true
		st.addEQ(pr.session("member").sub(s))
	}
	pr.onNext = func(st *State, at ssa.Instruction, m, k Value, more bool) {
		if x, ok := k.(VRef); ok && more && m.key() == "r:"+table {
			st.facts["nil:"+x.K] = false // OnEvent and Run only add endpoints
		}
	}
	pr.onSend = func(st *State, at ssa.Instruction, ch, v Value, sel bool) {
		c, ok := ch.(VRef)
		ep := ""
		if ok {
			ep = strings.TrimSuffix(c.K, ".@GetRxChannel")
		}
		w := pr.at(at)
		if !r.Check("receiver", w, ok && ep != c.K, st, "a message is sent to a channel that is not the receive channel of an endpoint") {
			return
		}
		has := st.facts["has:"+table+"|r:"+ep]
		r.Check("attached", w, has, st, "a message is delivered to an endpoint that is not attached")
		r.Check("session", w, st.eq0(pr.session(ep).sub(s)), st, "a message is delivered to an endpoint of another session")
		r.Check("data", w, st.same(pr.attr(st, v, "Data"), pr.msg0), st, "the endpoint is not given the data received")
		cn := pr.attr(st, v, "Connection")
		r.Check("connection", w, cn != nil && cn.key() == "r:conn", st, "the endpoint is not given the connection the data came from")
		r.Check("once", w, st.disc["sent"] == "" && st.disc["go"] == "", st, "a message may be delivered more than once (or in an order of its own)")
		if sel {
			r.Check("reliable", w, false, st, "the delivery may be skipped by a select")
		}
		st.disc["sent"] = "1"
	}
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		r.Check("receiver", pr.at(c.Site), false, st, "a received message is passed on to another processor")
	}
	pr.onEnd = func(st *State) {
		if st.disc["sent"] != "" || !member {
			return
		}
		r.Check("delivered", where, pr.known(st, st.nilCond(pr.msg0)), st, "a message is not delivered although an endpoint of its session is attached")
	}
	pr.enter(st, "OnLowerData", pr.ctxVal("ctx"))
}

// removal of a member; the result is the first signal given on the channel
// kept in the table ("send", "close" or "").
func removal(p *Program, r *Report) (sig Value) {
	where := "(*UpperDeck).OnEvent"
	for _, member := range []bool{true, false} {
		member := member
		pr := deck(p, r, "UpperDeck", "stream")
		if pr == nil {
			return nil
		}
		table := pr.tableOf("EndPoint")
		st := pr.begin()
		ep := VRef{K: "ep", T: p.ifaceT("EndPoint")}
		st.facts["has:"+table+"|r:ep"] = member
		if member {
			pr.in.members[table] = ep
			st.facts["nil:"+table+"{r:ep}"] = false // admission stores a channel
		}
		pr.onSend = func(st *State, at ssa.Instruction, ch, v Value, sel bool) {
			if ch.key() == "r:"+table+"{r:ep}" && st.disc["sig"] == "" {
				st.disc["sig"] = "1"
				st.gv["sig"] = v
			}
		}
		pr.onClose = func(st *State, at ssa.Instruction, ch Value) {
			if ch.key() == "r:"+table+"{r:ep}" && st.disc["sig"] == "" {
				st.disc["sig"] = "1"
			}
		}
		pr.onEnd = func(st *State) {
			m := st.mapOf(table)
			for _, e := range m.log {
				r.Check("remove-other", where, st.same(e.k, ep), st, "removing an endpoint changes the entry of another one")
			}
			if !member {
				return
			}
			for _, g := range st.clone().mapGet(m, ep, anyT) {
				v, known := g.st.eval(g.ok)
				r.Check("remove", where, known && !v, g.st, "a removed endpoint stays attached")
			}
			if r.Check("remove-signal", where, st.disc["sig"] != "", st, "the goroutine serving a removed endpoint is not told to stop") {
				sig = VNil{}
				if v, ok := st.gv["sig"]; ok {
					sig = v
				}
			}
		}
		pr.enter(st, "OnEvent", pr.eventOf(st, "UStackEventEndpointDeleted", ep))
	}
	return sig
}

// admission of an endpoint.
func admission(p *Program, r *Report, how string, sig Value) {
	pr := deck(p, r, "UpperDeck", "stream")
	if pr == nil {
		return
	}
	where := "(*UpperDeck).OnEvent"
	table := pr.tableOf("EndPoint")
	st := pr.begin()
	in := pr.in
	ep := VRef{K: "ep", T: p.ifaceT("EndPoint")}
	st.facts["has:"+table+"|r:ep"] = how == "member"
	switch how {
	case "member":
		in.members[table] = ep
	case "same session":
		e := VRef{K: "member", T: p.ifaceT("EndPoint")}
		in.members[table] = e
		st.facts["nil:member"] = false
		st.facts[orderedAtom("eq", "r:ep", "r:member").A] = false
		st.addEQ(pr.session("member").sub(pr.session("ep")))
	}
	pr.onNext = func(st *State, at ssa.Instruction, m, k Value, more bool) {
		x, ok := k.(VRef)
		if !ok || !more || m.key() != "r:"+table {
			return
		}
		st.facts["nil:"+x.K] = false
		if x.K == "ep" || x.K == "member" {
			return
		}
		st.facts[orderedAtom("eq", "r:ep", x.key()).A] = false
		if how == "new" {
			if ss := st.assume(eqC(pr.session(x.K).sub(pr.session("ep"))).not()); len(ss) == 0 {
				st.dead = true
			}
		}
	}
	served, stops := false, 0
	stored := map[string]bool{} // the channels kept to stop the goroutine
	pr.serve(&served, &stops, "ep", table, sig)
	pr.onEnd = func(st *State) {
		m := st.mapOf(table)
		if how != "new" {
			r.Check("refused", where, len(m.log) == 0 && m.base == table, st, "an endpoint is attached although it or its session (%s) is already there", how)
			r.Check("refused", where, st.disc["spawned"] == "", st, "a second goroutine serves an endpoint or session that is already there (%s)", how)
			return
		}
		for _, e := range m.log {
			r.Check("add-other", where, st.same(e.k, ep), st, "adding an endpoint changes the entry of another one")
		}
		for _, g := range st.clone().mapGet(m, ep, anyT) {
			v, known := g.st.eval(g.ok)
			r.Check("add", where, known && v, g.st, "an added endpoint is not attached")
			ch, isC := g.v.(VRef)
			stored[ch.K] = isC
			r.Check("add-channel", where, isC && pr.known(g.st, g.st.nilCond(ch).not()), g.st, "an added endpoint has no channel to stop its service")
		}
		r.Check("one-sender", where, st.disc["spawned"] == "1", st, "an added endpoint is not served by exactly one goroutine")
	}
	pr.enter(st, "OnEvent", pr.eventOf(st, "UStackEventEndpointAdded", ep))
	if how == "new" {
		r.Check("served", where, served, nil, "the goroutine of an added endpoint never receives from its transmit channel")
		if sig != nil {
			ok := stops > 0
			for k := range stored {
				ok = ok && pr.listened[k]
			}
			r.Check("stoppable", where, ok, nil, "the goroutine of an added endpoint does not listen to the stop channel kept in the table")
		}
	}
}

// serve judges the sender goroutine of an endpoint.
func (pr *procRun) serve(served *bool, stops *int, ep, table string, sig Value) {
	r := pr.r
	pr.listened = map[string]bool{}
	pr.world.goHook = func(st *State, c *CallInfo) bool {
		if len(st.disc["spawned"]) < 3 {
			count(st, "spawned", "1", 6)
		}
		if e := st.maps[table]; e != nil && len(e.log) > 0 {
			st.gv["stopchan"] = e.log[len(e.log)-1].v
		}
		return false
	}
	stopped := func(st *State, at ssa.Instruction) {
		if st.disc["stop"] != "" {
			r.Check("stops", pr.at(at), false, st, "the goroutine of a removed endpoint goes on")
		}
	}
	pr.onRecv = func(st *State, at ssa.Instruction, ch Value, T types.Type) Value {
		stopped(st, at)
		s, kept := st.gv["stopchan"]
		if kept && s.key() == ch.key() || !kept && isNew(refKey(ch)) && st.disc["go"] != "" {
			*stops++
			pr.listened[refKey(ch)] = true
			st.disc["stop"] = "1"
			r.Check("stops", pr.at(at), true, st, "")
			if sig == nil {
				return nil
			}
			if _, closed := sig.(VNil); closed {
				st.gv["@recvok"] = VBool{boolC(false)}
				return zeroValue(T)
			}
			st.gv["@recvok"] = VBool{boolC(true)}
			return sig
		}
		if c, ok := ch.(VRef); ok && strings.HasSuffix(c.K, ".@GetTxChannel") {
			r.Check("own-channel", pr.at(at), c.K == ep+".@GetTxChannel" && st.disc["go"] != "", st, "messages of another endpoint are received")
			r.Check("pending", pr.at(at), st.disc["pending"] == "", st, "a message of an endpoint is dropped")
			*served = true
			v := VRef{K: pr.in.freshKey("epd"), T: T}
			st.facts["nil:"+v.K] = false
			st.gv["pending"] = v
			st.disc["pending"] = "1"
			return v
		}
		return nil
	}
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		at := pr.at(c.Site)
		stopped(st, c.Site)
		if !r.Check("down", at, tok == "D", st, "a message of an endpoint is passed %s", dirName(tok)) {
			return
		}
		if !r.Check("pending", at, st.disc["pending"] == "1", st, "a message of an endpoint is passed down twice") {
			return
		}
		r.Check("in-order", at, c.Kind != "go", st, "messages of an endpoint are passed down by goroutines of their own, in any order")
		e := st.gv["pending"].(VRef)
		r.Check("sent-data", at, st.same(pr.ctxGet(st, ctx, "Message"), pr.attr(st, e, "Data")), st, "a message is passed down with other data")
		r.Check("sent-connection", at, st.same(pr.ctxGet(st, ctx, "Connection"), pr.attr(st, e, "Connection")), st, "a message is passed down with another connection")
		m := pr.ctxOptions(st, ctx)
		ok := m != nil
		opt := "session"
		if ok {
			for _, g := range st.clone().mapGet(m, VStr{Const: &opt}, anyT) {
				i, isI := g.v.(VIface)
				if !isI || !types.Identical(i.Dyn, types.Typ[types.Int]) {
					ok = false
					continue
				}
				yes, no := g.st.split(atomC(e.K + ".@HasDestinationSession"))
				for _, s := range yes {
					ok = ok && s.same(i.V, VInt{pr.in.symbolic(e.K+".@GetDestinationSession", types.Typ[types.Int]).(VInt).L})
				}
				for _, s := range no {
					ok = ok && s.same(i.V, VInt{pr.session(ep)})
				}
			}
		}
		r.Check("sent-session", at, ok, st, "a message is not passed down with its destination session, or else the session of its endpoint")
		pr.ownContext(st, at, ctx)
		st.disc["pending"] = ""
	}
	pr.onGoEnd = func(st *State) {
		r.Check("pending", pr.sc.name, st.disc["pending"] != "1", st, "a message of an endpoint is dropped")
	}
}

// adoption: Run serves every endpoint the stack already has.
func adoption(p *Program, r *Report) {
	pr := deck(p, r, "UpperDeck", "stream")
	if pr == nil {
		return
	}
	where := "(*UpperDeck).Run"
	table := pr.tableOf("EndPoint")
	st := pr.begin()
	in := pr.in
	st.maps[table] = &MapC{empty: true}
	eps := in.symbolic("ustack.@GetEndPoint", types.NewSlice(p.ifaceT("EndPoint"))).(VSlice)
	is := in.syms.mk("theone")
	in.skolems[is] = true
	st.addGE(symL(is))
	st.addGE(eps.Len.sub(symL(is)).addK(-1))
	one := in.watchOne(eps.Obj, eps.Off.add(symL(is)), p.ifaceT("EndPoint")).K
	pr.onNext = func(st *State, at ssa.Instruction, m, k Value, more bool) {
		if more && m.key() == "r:"+table {
			st.dead = true // no endpoint of the same session
		}
	}
	pr.onMap = func(st *State, at ssa.Instruction, m, k, v Value, del bool) {
		if m.key() != "r:"+table {
			return
		}
		e, isR := k.(VRef)
		x, isE := in.elems[e.K]
		if !r.Check("adopted", pr.at(at), isR && isE && x.base == eps.Obj && !del, st, "Run attaches something that is not an endpoint of the stack") {
			return
		}
		if e.K == one {
			r.Check("adopted-once", pr.at(at), st.disc["adopted"] == "", st, "Run attaches an endpoint twice")
			st.disc["adopted"] = "1"
		}
	}
	pr.world.goHook = func(st *State, c *CallInfo) bool { return true }
	in.elemFact = func(st *State, e elemRef, v VRef) {
		if e.base == eps.Obj {
			st.facts["nil:"+v.K] = false // the stack only adds endpoints
		}
	}
	pr.onEnd = func(st *State) {
		r.Check("adopts-all", where, st.disc["adopted"] == "1", st, "Run does not attach every endpoint of the stack")
	}
	pr.enter(st, "Run")
}
