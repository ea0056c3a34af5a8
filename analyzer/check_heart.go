package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", &check{title: "Heartbeat supervises exactly the live connections", run: checkC16,
		tech:   procTech + "; nanosecond clock that stands still during a pass, skolem monitored connection",
		assume: append([]string{"the clock does not move during one pass of the supervision", "TimeoutInSecond and IntervalInSecond are between 1 and 10^6"}, procAssume...),
		expl: []string{"Announcement: OnEvent with a new connection must have it in the table with the present time when it returns and start one goroutine, which on every pass asks whether the connection is closed, then sends one heartbeat on it and waits IntervalInSecond, and which ends only after the connection was closed and with the connection removed. By-reference connections change nothing.",
			"Received heartbeat: the time kept for its connection must be the present.",
			"Supervision: one pass over a table with an arbitrary (skolem) connection: it must be removed only if its age is at least the timeout and always if it is a second more; removed, it must be reported lost exactly once and closed exactly when CloseOnLost is set; kept, neither may happen. The goroutine must not end."}})
}

// evParts splits an event into type and data.
func evParts(ev Value) (typ, data Value) {
	e, ok := ev.(VStruct)
	if !ok {
		return nil, nil
	}
	s, _ := structOf(e.T)
	for i := 0; s != nil && i < s.NumFields() && i < len(e.F); i++ {
		switch s.Field(i).Name() {
		case "Type":
			typ = e.F[i]
		case "Data":
			data = e.F[i]
		}
	}
	return typ, data
}

// ctorCells gives object k the constants every constructor of its type sets.
func (pr *procRun) ctorCells(st *State, k string) {
	ms := pr.p.constructorsOf(pr.sc.T)
	pr.p.eachCell(pr.sc.T, "", func(path string, FT types.Type) {
		if _, set := st.heap[k+path]; set || len(ms) == 0 {
			return
		}
		for _, m := range ms {
			v := m.cells[path]
			switch x := v.(type) {
			case VInt:
				if !x.L.isConst() {
					return
				}
			case VBool:
				if x.C.Kind != cConst {
					return
				}
			default:
				return
			}
			if v.key() != ms[0].cells[path].key() {
				return
			}
		}
		st.heap[k+path] = ms[0].cells[path]
	})
}

// option gives object p an option; a nil value leaves it absent.
func (pr *procRun) option(st *State, name string, v Value) {
	path := pr.p.setterPath(pr.sc.T, "SetOption")
	if path == "" {
		pr.r.Fail("analysis", pr.sc.name+".SetOption", nil, "the options were not found")
		return
	}
	m, ok := st.maps["p"+path]
	if !ok {
		st.facts["nil:p"+path] = false
		m = &MapC{empty: true}
	}
	if v != nil {
		m = m.with(mapEntry{k: VStr{Const: &name}, v: v})
	}
	st.maps["p"+path] = m
}

// smallInt is an arbitrary number between 1 and 10^6.
func (pr *procRun) smallInt(st *State, name string) Lin {
	l := symL(pr.in.syms.mk(name))
	st.addGE(l.addK(-1))
	st.addGE(l.neg().addK(1000000))
	return l
}

func intVal(l Lin) Value { return VIface{Dyn: types.Typ[types.Int], V: VInt{l}} }

// wait recognises a pause and its length.
func wait(c *CallInfo) (Lin, bool) {
	switch c.Name {
	case "time.Sleep", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker":
		if d, ok := c.Args[0].(VInt); ok {
			return d.L, true
		}
		return Lin{}, true
	}
	return Lin{}, false
}

// timerChan: the channel belongs to a timer.
func timerChan(ch Value) bool { return strings.HasPrefix(refKey(ch), "time.") }

func heart(p *Program, r *Report, conn string) (*procRun, *State, string) {
	T := p.Named("Heartbeat")
	if T == nil {
		r.Fail("present", "Heartbeat", nil, "the processor does not exist any more")
		return nil, nil, ""
	}
	pr := newProcRun(p, r, scene{T, "Heartbeat", "tag", false, !r.disabled, conn})
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		r.Check("survives", pr.at(at), false, st, "Heartbeat can fail: %s", what)
	}
	table := pr.tableOf("TransportConnection")
	if !r.Check("table", "Heartbeat", table != "", nil, "no table of connections was found in Heartbeat") {
		return nil, nil, ""
	}
	st := pr.begin()
	pr.ctorCells(st, "p")
	return pr, st, table
}

// timeT is the type of the times kept in the table.
func (pr *procRun) timeT(table string) types.Type {
	var T types.Type
	pr.p.eachCell(pr.sc.T, "", func(path string, FT types.Type) {
		if "p"+path == table {
			T = FT.Underlying().(*types.Map).Elem()
		}
	})
	return T
}

func checkC16(p *Program, r *Report) {
	// being enabled makes no difference to the supervision
	for _, r.disabled = range []bool{false, true} {
		for _, kind := range []string{"stream", "ref"} {
			announced(p, r, kind)
		}
		renewed(p, r)
		for _, cl := range []string{"true", "false"} {
			lost(p, r, "option", cl)
		}
		others(p, r)
	}
	r.disabled = false
}

// announced: a new connection.
func announced(p *Program, r *Report, kind string) {
	pr, st, table := heart(p, r, kind)
	if pr == nil {
		return
	}
	where := "(*Heartbeat).OnEvent"
	TT := pr.timeT(table)
	if !r.Check("times", "Heartbeat", isTime(TT), nil, "the table of connections does not keep times") {
		return
	}
	pr.in.clock = pr.in.symbolic("clock", TT)
	x := pr.smallInt(st, "opt.interval")
	pr.option(st, "IntervalInSecond", intVal(x))
	run, onev := p.Method(pr.sc.T, "Run"), p.Method(pr.sc.T, "OnEvent")
	conn := VRef{K: "conn", T: pr.ctxType("Connection")}
	pr.goHook = func(st *State, c *CallInfo) bool {
		if st.disc["step"] != "1" || st.disc["go"] != "" {
			return true
		}
		r.Check("alone", pr.at(c.Site), kind == "stream", st, "a goroutine is started for a by-reference connection")
		r.Check("one-sender", pr.at(c.Site), st.disc["spawned"] == "", st, "more than one goroutine is started for a connection")
		st.disc["spawned"] = "1"
		return false
	}
	waits, closes, sends := 0, 0, 0
	boundary := func(st *State, at string) {
		waits++
		r.Check("beat", at, st.disc["fwd"] == "D", st, "between two pauses not exactly one heartbeat is sent")
		r.Check("asks", at, st.disc["asked"] == "1", st, "a pass does not ask whether the connection is closed")
		r.Check("ends", at, st.disc["closed"] == "", st, "heartbeats go on although the connection is closed")
		delete(st.disc, "fwd")
		delete(st.disc, "asked")
	}
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		if st.disc["go"] == "" {
			return nil, false
		}
		if d, ok := wait(c); ok {
			at := pr.at(c.Site)
			r.Check("interval", at, st.eq0(d.sub(x.scale(nano))), st, "the pause between heartbeats is not IntervalInSecond")
			if c.Name == "time.Sleep" {
				boundary(st, at)
				return one(st, nil)
			}
			return nil, false
		}
		if recvIface(c) == "TransportConnection" && c.Name == "Closed" && refKey(c.Recv) == "conn" {
			yes := st.clone()
			yes.disc["closed"], yes.disc["asked"], st.disc["asked"] = "1", "1", "1"
			return []stVal{{yes, VBool{boolC(true)}}, {st, VBool{boolC(false)}}}, true
		}
		return nil, false
	}
	pr.onRecv = func(st *State, at ssa.Instruction, ch Value, T types.Type) Value {
		if st.disc["go"] != "" && timerChan(ch) {
			boundary(st, pr.at(at))
		}
		return nil
	}
	pr.count = 2
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		at := pr.at(c.Site)
		sends++
		r.Check("alone", at, kind == "stream", st, "a heartbeat is sent on a by-reference connection")
		r.Check("direction", at, tok == "D" && st.disc["go"] != "", st, "a heartbeat is not sent downward by the goroutine of its connection")
		r.Check("alive", at, st.disc["closed"] == "", st, "a heartbeat is sent on a connection that is closed")
		cn := pr.ctxGet(st, ctx, "Connection")
		r.Check("own", at, cn != nil && refKey(cn) == "conn", st, "a heartbeat is sent on another connection")
	}
	has := func(st *State) (bool, Value) {
		in, v := false, Value(nil)
		for _, g := range st.clone().mapGet(st.mapOf(table), conn, TT) {
			b, known := g.st.eval(g.ok)
			in, v = in || !known || b, g.v
		}
		return in, v
	}
	pr.onGoEnd = func(st *State) {
		closes++
		r.Check("goes-on", where, st.disc["closed"] == "1", st, "the goroutine of a connection ends although it is not closed")
		in, _ := has(st)
		r.Check("forgotten", where, !in, st, "a closed connection may still be monitored when its goroutine ends")
	}
	ev := pr.eventOf(st, "UStackEventNewConnection", conn)
	st.facts["useref:conn"] = kind == "ref"
	st.facts["has:"+table+"|r:conn"] = false
	self := VRef{K: "p", T: types.NewPointer(pr.sc.T)}
	pr.seq(st, []callStep{{run, func(*State) []Value { return []Value{self} }}, {onev, func(*State) []Value { return []Value{self, ev} }}}, func(st *State) {
		in, v := has(st)
		if kind == "ref" {
			r.Check("alone", where, len(st.mapOf(table).log) == 0, st, "a by-reference connection is monitored")
			return
		}
		r.Check("monitored", where, in && v != nil && st.eq0(pr.in.ns(v).sub(pr.in.ns(pr.in.clock))), st, "a new connection is not monitored from now on when the event has been handled")
		r.Check("one-sender", where, st.disc["spawned"] == "1", st, "no goroutine is started for a new connection")
		r.Check("own", where, st.tableKept(table), st, "a new connection replaces the table of all")
		for _, e := range st.mapOf(table).log {
			r.Check("own", where, st.same(e.k, conn), st, "a new connection changes the entry of another one")
		}
	})
	if kind == "stream" {
		r.Check("waits", where, waits > 0 && sends > 0, nil, "no heartbeats are sent on a new connection")
		r.Check("stops", where, closes > 0, nil, "the goroutine of a connection never ends")
	}
}

// renewed: a received heartbeat.
func renewed(p *Program, r *Report) {
	pr, st, table := heart(p, r, "stream")
	if pr == nil {
		return
	}
	TT := pr.timeT(table)
	tag, ok := p.constValue("HeartbeatSelfMessageTag")
	if !isTime(TT) || !r.Check("present", "HeartbeatSelfMessageTag", ok, nil, "the tag of heartbeats does not exist any more") {
		return
	}
	pr.in.clock = pr.in.symbolic("clock", TT)
	st.facts["nil:buf"] = false
	st.addGE(pr.w0.sub(pr.r0).addK(-1))
	st.addEQ(pr.first(st).addK(-tag))
	conn := VRef{K: "conn", T: pr.ctxType("Connection")}
	n := 0
	pr.onEnd = func(st *State) {
		n++
		where := "(*Heartbeat).OnLowerData"
		for _, g := range st.clone().mapGet(st.mapOf(table), conn, TT) {
			b, known := g.st.eval(g.ok)
			r.Check("renewed", where, known && b && st.eq0(pr.in.ns(g.v).sub(pr.in.ns(pr.in.clock))), g.st, "a received heartbeat does not renew the deadline of its connection")
		}
		r.Check("own", where, st.tableKept(table), st, "a heartbeat replaces the table of all connections")
		for _, e := range st.mapOf(table).log {
			r.Check("own", where, st.same(e.k, conn), st, "a heartbeat changes the entry of another connection")
		}
	}
	pr.enter(st, "OnLowerData", pr.ctxVal("ctx"))
	r.Check("received", "(*Heartbeat).OnLowerData", n > 0, nil, "received heartbeats are never handled")
}

// lost: one pass of the supervision, with an arbitrary monitored connection.
// to: TimeoutInSecond is given as "option" or is the "default".
func lost(p *Program, r *Report, to, closeOpt string) {
	pr, st, table := heart(p, r, "stream")
	if pr == nil {
		return
	}
	where := "(*Heartbeat).Run"
	TT := pr.timeT(table)
	if !isTime(TT) {
		return
	}
	in := pr.in
	in.clock = in.symbolic("clock", TT)
	x := cst(30)
	switch to {
	case "option":
		x = pr.smallInt(st, "opt.timeout")
		pr.option(st, "TimeoutInSecond", intVal(x))
	case "wrong":
		pr.option(st, "TimeoutInSecond", VIface{Dyn: types.Typ[types.Int64], V: VInt{pr.smallInt(st, "opt.wrong")}})
		pr.option(st, "IntervalInSecond", intVal(pr.smallInt(st, "opt.interval")))
	default:
		pr.option(st, "TimeoutInSecond", nil)
	}
	closing := true
	if closeOpt == "wrong" {
		pr.option(st, "CloseOnLost", VIface{Dyn: types.Typ[types.Int], V: VInt{cst(0)}})
	} else if closeOpt != "default" {
		closing = closeOpt == "true"
		pr.option(st, "CloseOnLost", VIface{Dyn: types.Typ[types.Bool], V: VBool{boolC(closing)}})
	}
	m := VRef{K: "member", T: pr.ctxType("Connection")}
	in.members[table] = m
	in.pins = []Value{m}
	st.facts["nil:member"] = false
	st.facts["useref:member"] = false
	st.facts["has:"+table+"|r:member"] = true
	age := in.ns(in.clock).sub(in.ns(in.symbolic(table+"{r:member}", TT)))
	st.addGE(age)
	in.trunc(st, age, types.Typ[types.Int])
	evLost, ok := p.constValue("UStackEventHeartbeatLost")
	r.Check("present", "UStackEventHeartbeatLost", ok, nil, "the event type does not exist any more")
	passes := 0
	boundary := func(st *State, at string) bool {
		if st.disc["scanned"] == "" && st.disc["b"] == "" {
			st.disc["b"] = "1"
			return true
		}
		if !r.Check("scans", at, st.disc["scanned"] != "", st, "a pass of the supervision does not look at the connections") {
			return false
		}
		if !r.Check("decided", at, st.disc["gone"] != "?", st, "it is not known whether a connection is still monitored after a pass") {
			return false
		}
		passes++
		if st.disc["gone"] == "" {
			r.Check("in-time", at, st.ge0(x.scale(nano).addK(nano/2).sub(age)), st, "a connection whose deadline has passed stays monitored")
			r.Check("quiet", at, st.disc["pub"] == "", st, "a connection is reported lost but still monitored")
			r.Check("open", at, st.disc["shut"] == "", st, "a connection is closed but still monitored")
			return false
		}
		r.Check("early", at, st.ge0(age.sub(x.scale(nano))), st, "a connection is given up before its deadline")
		r.Check("reported", at, st.disc["pub"] == "1", st, "a connection that is given up is not reported lost exactly once")
		if closing {
			r.Check("closed", at, st.disc["shut"] != "", st, "a lost connection is not closed although CloseOnLost is set")
		} else {
			r.Check("left-open", at, st.disc["shut"] == "", st, "a lost connection is closed although CloseOnLost is not set")
		}
		return false
	}
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		d, pause := wait(c)
		if pause {
			r.Check("pause", pr.at(c.Site), st.ge0(cst(nano).sub(d)), st, "the supervision may pause for more than a second between two looks at the connections")
		}
		if st.disc["go"] == "" {
			return nil, false
		}
		if pause && c.Name == "time.Sleep" {
			if !boundary(st, pr.at(c.Site)) {
				st.dead = true
				return nil, true
			}
			return one(st, nil)
		}
		return nil, false
	}
	pr.onRecv = func(st *State, at ssa.Instruction, ch Value, T types.Type) Value {
		if st.disc["go"] != "" && timerChan(ch) && !boundary(st, pr.at(at)) {
			st.dead = true
		}
		return nil
	}
	pr.onNext = func(st *State, at ssa.Instruction, mv, k Value, more bool) {
		if refKey(mv) == table {
			st.disc["scanned"] = "1"
			if x, ok := k.(VRef); ok && more {
				st.facts["nil:"+x.K] = false // only connections are monitored
				st.facts["useref:"+x.K] = false
			}
		}
	}
	pr.publish = func(st *State, c *CallInfo, ev Value) {
		typ, data := evParts(ev)
		t, ok := typ.(VInt)
		at := pr.at(c.Site)
		if !r.Check("event", at, ok && t.L.isConst(), st, "the event published is not known") || t.L.K != evLost {
			return
		}
		if i, ok := data.(VIface); ok {
			data = i.V
		}
		if refKey(data) == "member" {
			r.Check("once", at, st.disc["pub"] == "", st, "a connection is reported lost more than once")
			st.disc["pub"] = "1"
		}
	}
	pr.connop = func(st *State, c *CallInfo, conn string) {
		if c.Name == "Close" && conn == "member" {
			st.disc["shut"] = "1"
		}
	}
	pr.onMap = func(st *State, at ssa.Instruction, mv, k, v Value, del bool) {
		if refKey(mv) != table {
			return
		}
		switch b, known := st.eval(st.eqCond(k, m)); {
		case !known:
			st.disc["gone"] = "?"
		case b && del:
			st.disc["gone"] = "1"
		case b:
			delete(st.disc, "gone")
		}
	}
	in.elemFact = func(st *State, e elemRef, v VRef) { st.facts["nil:"+v.K] = false }
	pr.onGoEnd = func(st *State) {
		r.Check("goes-on", where, false, st, "the supervision of the connections ends")
	}
	pr.goHook = func(st *State, c *CallInfo) bool {
		st.disc["spawned"] = "1"
		return false
	}
	pr.onEnd = func(st *State) {
		r.Check("supervised", where, st.disc["spawned"] == "1", st, "Run does not start the supervision of the connections")
	}
	pr.enter(st, "Run")
	r.Check("passes", where, passes > 0, nil, "the supervision never completes a pass")
}

// others: an event about one connection leaves the others alone.
func others(p *Program, r *Report) {
	pr, st, table := heart(p, r, "stream")
	if pr == nil {
		return
	}
	conn := VRef{K: "conn", T: pr.ctxType("Connection")}
	ev := pr.eventOf(st, "UStackEventNewConnection", conn)
	s := ev.(VStruct)
	es, _ := structOf(s.T)
	for i := 0; es != nil && i < es.NumFields(); i++ {
		if es.Field(i).Name() == "Type" {
			s.F[i] = pr.in.symbolic("ev.Type", es.Field(i).Type())
		}
	}
	pr.goHook = func(st *State, c *CallInfo) bool { return true }
	pr.onEnd = func(st *State) {
		r.Check("own", "(*Heartbeat).OnEvent", st.tableKept(table), st, "an event about a connection replaces the table of all")
		for _, e := range st.mapOf(table).log {
			r.Check("own", "(*Heartbeat).OnEvent", st.same(e.k, conn), st, "an event about a connection changes the entry of another one")
		}
	}
	pr.enter(st, "OnEvent", ev)
}
