package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", &check{title: "Statistics are collected from exactly the live connections", run: checkC33,
		tech:   procTech + "; product of asking and answering instance",
		assume: append([]string{"Collect.IntervalInSecond is at most 10^6", "a report fits into a message"}, procAssume...),
		expl: []string{"Run and then OnEvent with a new connection are interpreted for a positive, a non-positive and an absent Collect.IntervalInSecond, with byte-stream and by-reference connection. With a positive interval exactly one goroutine must be started, which on every pass asks whether the connection is closed, sends one request on it and pauses for the interval, and which ends only when the connection is closed; otherwise nothing may be started or sent.",
			"The state at each request is continued at a receiving instance, which must answer exactly once, downward and on the connection of the request; the answer is continued at a third instance, which must not answer."}})
}

func checkC33(p *Program, r *Report) {
	for _, kind := range []string{"stream", "ref"} {
		for _, opt := range []string{"positive", "none", "off"} {
			collects(p, r, kind, opt)
		}
	}
	answered(p, r)
}

func collects(p *Program, r *Report, kind, opt string) {
	T := p.Named("StatCounter")
	if T == nil {
		r.Fail("present", "StatCounter", nil, "the processor does not exist any more")
		return
	}
	pr := newProcRun(p, r, scene{T, "StatCounter", "tag", false, true, kind})
	where := "(*StatCounter).OnEvent"
	st := pr.begin()
	pr.ctorCells(st, "p")
	var x Lin
	switch opt {
	case "positive":
		x = pr.smallInt(st, "opt.interval")
	case "off":
		x = symL(pr.in.syms.mk("opt.interval"))
		st.addGE(x.neg())
		st.addGE(x.addK(1000000))
	}
	if opt == "none" {
		pr.option(st, "", nil)
	} else {
		pr.option(st, "Collect.IntervalInSecond", intVal(x))
	}
	asks := kind == "stream" && opt == "positive"
	what := "on a by-reference connection"
	if kind == "stream" {
		what = "although no positive interval is set"
	}
	run, onev := p.Method(T, "Run"), p.Method(T, "OnEvent")
	conn := VRef{K: "conn", T: pr.ctxType("Connection")}
	pr.goHook = func(st *State, c *CallInfo) bool {
		if st.disc["step"] != "1" || st.disc["go"] != "" {
			return true
		}
		r.Check("one-asker", pr.at(c.Site), st.disc["spawned"] == "", st, "more than one goroutine is started for a connection")
		st.disc["spawned"] = "1"
		return false
	}
	waits, closes, sends := 0, 0, 0
	boundary := func(st *State, at string) {
		waits++
		if !asks {
			return
		}
		r.Check("request", at, st.disc["fwd"] == "D", st, "between two pauses not exactly one request is sent")
		r.Check("asks", at, st.disc["asked"] == "1", st, "a pass does not ask whether the connection is closed")
		r.Check("ends", at, st.disc["closed"] == "", st, "requests go on although the connection is closed")
		delete(st.disc, "fwd")
		delete(st.disc, "asked")
	}
	pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		if st.disc["go"] == "" {
			return nil, false
		}
		if d, ok := wait(c); ok {
			at := pr.at(c.Site)
			r.Check("interval", at, !asks || st.eq0(d.sub(x.scale(nano))), st, "the pause between requests is not Collect.IntervalInSecond")
			if c.Name == "time.Sleep" {
				boundary(st, at)
				return one(st, nil)
			}
			return nil, false
		}
		if recvIface(c) == "TransportConnection" && c.Name == "Closed" && refKey(c.Recv) == "conn" {
			yes := st.clone()
			yes.disc["closed"], yes.disc["asked"], st.disc["asked"] = "1", "1", "1"
			return []stVal{{yes, VBool{boolC(true)}}, {st, VBool{boolC(false)}}}, true
		}
		return nil, false
	}
	pr.onRecv = func(st *State, at ssa.Instruction, ch Value, T types.Type) Value {
		if st.disc["go"] != "" && timerChan(ch) {
			boundary(st, pr.at(at))
		}
		return nil
	}
	pr.count = 2
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		at := pr.at(c.Site)
		sends++
		if !r.Check("only", at, asks, st, "statistics are requested %s", what) {
			return
		}
		r.Check("direction", at, tok == "D" && st.disc["go"] != "", st, "a request is not sent downward by the goroutine of its connection")
		r.Check("alive", at, st.disc["closed"] == "", st, "a request is sent on a connection that is closed")
		cn := pr.ctxGet(st, ctx, "Connection")
		r.Check("own", at, cn != nil && refKey(cn) == "conn", st, "a request is sent on another connection")
	}
	pr.onGoEnd = func(st *State) {
		closes++
		if asks {
			r.Check("goes-on", where, st.disc["closed"] == "1", st, "the goroutine of a connection ends although it is not closed")
		}
	}
	ev := pr.eventOf(st, "UStackEventNewConnection", conn)
	st.facts["useref:conn"] = kind == "ref"
	self := VRef{K: "p", T: types.NewPointer(T)}
	ended := 0
	pr.seq(st, []callStep{{run, func(*State) []Value { return []Value{self} }}, {onev, func(*State) []Value { return []Value{self, ev} }}}, func(st *State) {
		ended++
		if asks {
			r.Check("one-asker", where, st.disc["spawned"] == "1", st, "no goroutine is started for a new connection")
		}
	})
	r.Check("handled", where, ended > 0, nil, "the announcement of a connection is never handled completely")
	if asks {
		r.Check("requests", where, waits > 0 && sends > 0, nil, "no statistics are requested from a new connection")
		r.Check("stops", where, closes > 0, nil, "the goroutine of a connection never ends")
	} else {
		r.Check("only", where, sends == 0, nil, "statistics are requested %s", what)
	}
}

// answered: a request is answered once, an answer never.
func answered(p *Program, r *Report) {
	T := p.Named("StatCounter")
	if T == nil {
		return
	}
	pr := newProcRun(p, r, scene{T, "StatCounter", "tag", false, true, "stream"})
	pr.prep = pr.roomy
	n := 0
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		at := pr.at(c.Site)
		b, _, mayNil := pr.buffer(st, ctx)
		switch st.disc["phase"] {
		case "":
			if tok == "D" && b.ok && !mayNil && st.disc["fwd"] == "" {
				pr.receive(st, b, "2", true)
			}
		case "2":
			n++
			cn := pr.ctxGet(st, ctx, "Connection")
			r.Check("answer", at, tok == "D" && st.disc["fwd2"] == "", st, "a request is answered more than once or in the wrong direction")
			r.Check("answer", at, cn != nil && refKey(cn) == "conn2", st, "a request is answered on another connection")
			if tok == "D" && b.ok && !mayNil && st.disc["fwd2"] == "" {
				pr.receive(st, b, "3", true)
			}
		case "3":
			r.Check("no-answer", at, false, st, "an answer is passed %s by its receiver", dirName(tok))
		}
	}
	pr.onEnd = func(st *State) {
		if st.disc["phase"] == "2" {
			r.Check("answer", "(*StatCounter).OnLowerData", st.disc["fwd2"] == "D", st, "a request is not answered exactly once")
		}
	}
	pr.event()
	r.Check("answer", "StatCounter", n > 0, nil, "no request that is answered was found")
}
