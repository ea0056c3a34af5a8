package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", &check{title: "Transports start once, stop completely and can be restarted", run: checkC20,
		tech:   "abstract interpretation of the SSA form: states between lock sections of transports, obligations of listeners and connections followed along all paths; sequences of calls for by-reference transports",
		assume: []string{"net.Listen, Dial and Accept return either a result or an error", "closing a listener ends its Accept"},
		expl: []string{"For transports over the network the states between the sections of their lock are computed from all methods and goroutines in any order (channels nil, open, closed; flags; listener set or not; goroutines of the current and of earlier runs). A state is stopped if Run starts a goroutine in it, running otherwise: new transports must be stopped, Run must change nothing when running and lead from stopped to running by starting one goroutine, Stop must change nothing when stopped and lead from running to stopped, closing the listener, every connection handed out (an arbitrary element of the list) and a channel NextConnection waits for; goroutines of earlier runs must change nothing; goroutines that give up must leave the transport stopped.",
			"Every listener opened must be stored in a running transport or closed; every connection made must be passed to NextConnection or closed; NextConnection must return a connection only when it is recorded in a running transport, otherwise close it and return nil; nil when stopped.",
			"For by-reference transports sequences of Run, Stop and NextConnection are interpreted for an address nobody, or any number of others, uses: the count of users must go up and down by one, the shared channel must be used by all and dropped with the last user."}})
}

func checkC20(p *Program, r *Report) {
	found := 0
	for _, T := range p.Implementers("Transport") {
		switch T.Obj().Name() {
		case "TCPTransport", "UDSTransport":
			found++
			streamTran(p, r, T)
		case "ReferenceTransport":
			found++
			refTran(p, r, T)
		}
	}
	r.Check("present", "transports", found == 3, nil, "a type of transport does not exist any more")
}

type outcome struct {
	entry, from, to string
	chg, same, goes bool
	started         string
	shut            string // paths of the channels closed
	lclosed         bool
	mclosed, member bool
	st              *State
	at              string
}

func (o outcome) key() string {
	b := func(x bool) string {
		if x {
			return "1"
		}
		return "0"
	}
	return strings.Join([]string{o.entry, o.from, o.to, b(o.chg), b(o.same), b(o.goes), o.started, o.shut, b(o.lclosed), b(o.mclosed), b(o.member)}, ";")
}

func netType(T types.Type, name string) bool {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net" && strings.HasSuffix(n.Obj().Name(), name)
}

func streamTran(p *Program, r *Report, T *types.Named) {
	f := newFlow(p)
	m := newMachine(p, r, T)
	name := T.Obj().Name()
	if !m.start() {
		r.Fail("analysis", name, nil, "no constructor was found")
		return
	}
	inits := append([]string{}, m.order...)
	m.rule = func(rule string, at ssa.Instruction, ok bool, st *State, what string) {
		r.Check(rule, m.at(at), ok, st, "%s", what)
	}
	m.env = func(*State, string) bool { return true }
	tcT := p.ifaceT("TransportConnection")
	list := ""
	p.eachCell(T, "", func(path string, FT types.Type) {
		if s, ok := FT.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), tcT) {
			list = path
		}
		if s, ok := FT.Underlying().(*types.Map); ok && types.Identical(s.Key(), tcT) {
			list = path
		}
	})
	// listKey identifies the content of the list
	listKey := func(st *State) string {
		v := st.heap["o"+list]
		switch x := v.(type) {
		case nil:
			return st.mapOf("o" + list).key()
		case VRef:
			return x.key() + "=" + st.mapOf(x.K).key()
		case VSlice:
			if q := st.seqs[x.Obj]; q != nil && len(q.log) > 0 {
				return x.key() + "=" + q.key()
			}
		}
		return v.key()
	}
	listener := ""
	for _, c := range m.cells {
		if c.kind == "nil" && netType(c.T, "Listener") {
			listener = c.path
		}
	}
	r.Check("present", name, list != "" && listener != "", nil, "the listener or the list of connections of the transport was not found")
	if list == "" || listener == "" {
		return
	}
	closable := map[string]bool{}
	for _, c := range closeSites(p) {
		for _, o := range f.homes(c.Common().Args[0]) {
			for _, mc := range m.cells {
				if p.fieldOf(T, mc.path) == o {
					closable[mc.path] = true
				}
			}
		}
	}
	chanPath := func(st *State, ch string) string {
		for _, c := range m.cells {
			if c.kind != "chan" {
				continue
			}
			if strings.HasSuffix(ch, c.path) && !isNew(ch) || refKey(st.load("o", c.path, c.T)) == ch || st.disc["run"+c.path] == ch {
				return c.path
			}
		}
		return ""
	}
	roomy := map[string]bool{} // the channels with a buffer
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.MakeChan)
				if !ok {
					continue
				}
				if c, ok := x.Size.(*ssa.Const); ok && c.Int64() == 0 {
					continue
				}
				for _, o := range f.homes(x) {
					for _, mc := range m.cells {
						if p.fieldOf(T, mc.path) == o {
							roomy[mc.path] = true
						}
					}
				}
			}
		}
	}
	addr := "" // where the transport keeps its address
	if fn := p.Method(T, "GetAddress"); fn != nil {
		for _, b := range fn.Blocks {
			if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(x.Results) == 1 {
				for _, o := range f.homes(x.Results[0]) {
					p.eachCell(T, "", func(path string, FT types.Type) {
						if p.fieldOf(T, path) == o {
							addr = path
						}
					})
				}
			}
		}
	}
	server := "" // the flag ForServer sets
	if fn := p.Method(T, "ForServer"); fn != nil {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if a, ok := x.Addr.(*ssa.FieldAddr); ok && isBool(x.Val.Type()) {
					p.eachCell(T, "", func(path string, FT types.Type) {
						if p.fieldOf(T, path) == fieldVar(a) {
							server = path
						}
					})
				}
			}
		}
	}
	r.Check("present", name, addr != "" && server != "", nil, "the address or the role of the transport was not found")
	where := func(st *State, c *CallInfo, at string) {
		strs := 0
		own := false
		for _, a := range c.Args {
			if s, ok := a.(VStr); ok {
				strs++
				own = own || strings.HasSuffix(s.key(), addr) || st.same(s, st.load("o", addr, types.Typ[types.String]))
			}
		}
		nm := c.Name
		if c.Fn != nil {
			nm = c.Fn.Name()
		}
		if v, ok := st.load("o", server, types.Typ[types.Bool]).(VBool); ok && nm != "Accept" && st.disc["same"] != "" {
			b, known := st.eval(v.C)
			listens := strings.HasPrefix(nm, "Listen")
			r.Check("role", at, known && b == listens, st, "a client listens or a server dials")
		}
		if strs < 2 {
			// not given by strings
		} else if n, ok := c.Args[0].(VStr); ok && n.Const != nil {
			r.Check("network", at, *n.Const == "tcp" || *n.Const == "unix", st, "the transport uses the network %q: it does not reach every address of its kind", *n.Const)
		}
		r.Check("address", at, strs == 0 || own, st, "the transport does not use the address that was set")
	}
	waits := map[string]bool{}
	outs := map[string]outcome{}
	var order []string
	note := func(o outcome) {
		k := o.key()
		if _, ok := outs[k]; !ok {
			outs[k] = o
			order = append(order, k)
		}
	}
	m.hook()
	// ---- sections
	m.imposed = func(st *State, site string, s aState) {
		for _, k := range []string{"chg", "lclosed", "mclosed", "member", "started"} {
			delete(st.disc, k)
		}
		for k := range st.disc {
			if strings.HasPrefix(k, "shut0:") {
				delete(st.disc, k)
			}
		}
		delete(st.disc, "accerr")
		st.disc["sfrom"] = s.key()
		k0 := listKey(st)
		st.gv["list0"] = VStr{Const: &k0}
		for _, c := range m.cells {
			if c.kind == "chan" || c.kind == "nil" {
				st.gv["at"+c.path] = st.heap["o"+c.path]
			}
		}
		if e := st.disc["entry"]; (e == "Stop" || e == "NextConnection") && st.disc["go"] == "" && st.disc["variant"] == "" {
			if mp, ok := st.maps["o"+list]; ok && !isSliceT(p.fieldOf(T, list).Type()) {
				v := VRef{K: "theone" + mp.base, T: tcT}
				m.in.members[mp.base] = v
				st.facts["nil:"+v.K] = false
				st.facts["has:"+mp.base+"|"+v.key()] = true
				st.disc["member"] = v.K
			} else if l, ok := asSlice(st.heap["o"+list]); ok {
				at := m.skolem(st, "theone", l)
				if v, ok := m.in.elemVal(l.Obj, at, tcT).(VRef); ok {
					st.facts["nil:"+v.K] = false
					st.disc["member"] = v.K
					known := false
					for _, w := range m.in.splits[l.Obj] {
						known = known || w.v.key() == v.key()
					}
					if !known {
						m.in.splits[l.Obj] = append(m.in.splits[l.Obj], watch{at, v})
					}
				}
			}
		}
	}
	m.variants = map[string][]string{"Stop": {"any"}} // not known to have a member
	effects := func(st *State) (o outcome) {
		o = outcome{entry: st.disc["entry"], from: st.disc["sfrom"], chg: st.disc["chg"] != "", same: st.disc["same"] != "", goes: st.disc["go"] != "",
			started: st.disc["started"], lclosed: st.disc["lclosed"] != "", mclosed: st.disc["mclosed"] != "", member: st.disc["member"] != "", st: st, to: st.disc["sto"]}
		var sh []string
		for k := range st.disc {
			if strings.HasPrefix(k, "shut0:") {
				sh = append(sh, k[6:])
			}
		}
		sort.Strings(sh)
		o.shut = strings.Join(sh, ",")
		return o
	}
	m.section = func(st *State) {
		ss := m.abstract(st, "o")
		if len(ss) != 1 || ss[0].key() != st.disc["sfrom"] {
			st.disc["chg"] = "1"
		}
		if v, ok := st.gv["list0"].(VStr); ok && *v.Const != listKey(st) {
			st.disc["chg"] = "1"
		}
		for _, c := range m.cells {
			if c.kind == "chan" || c.kind == "nil" {
				if v := st.gv["at"+c.path]; v != nil && v.key() != st.load("o", c.path, c.T).key() {
					st.disc["chg"] = "1"
				}
			}
		}
		// a connection received is recorded
		if v := st.gv["rconn"]; v != nil {
			delete(st.disc, "saved")
			if m.inList(st, list, v) {
				st.disc["saved"] = st.disc["sfrom"]
			}
		}
		// a listener opened is kept
		if v := st.gv["opened"]; v != nil && st.disc["opened"] == "1" && st.same(st.load("o", listener, p.fieldOf(T, listener).Type()), v) {
			st.disc["opened"] = "kept"
			st.disc["keptin"] = st.disc["sfrom"]
			r.Check("listener-run", short(p.Method(T, "Run")), st.disc["same"] != "" || st.disc["go"] == "", st, "a goroutine of an earlier run sets the listener")
		}
		kept := "?"
		if k := st.disc["member"]; k != "" && *st.gv["list0"].(VStr).Const != listKey(st) && st.disc["entry"] != "Stop" {
			v := VRef{K: k, T: tcT}
			if kept = "no"; st.disc["mclosed"] != "" || m.inList(st, list, v) {
				kept = "yes"
			}
		}
		for _, s := range ss {
			st.disc["sto"] = s.key()
			note(effects(st))
			if kept != "?" {
				note(outcome{entry: "@kept", from: st.disc["sfrom"], to: s.key(), chg: kept == "no", st: st})
			}
		}
	}
	// ---- what is opened and made
	owe := func(st *State, at string) {
		r.Check("handed-over", at, st.disc["made"] != "1", st, "a connection is lost: neither passed to NextConnection nor closed")
		r.Check("listener-kept", at, st.disc["opened"] != "1", st, "a listener that was opened is neither kept for Stop nor closed")
	}
	m.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		res := c.Sig.Results()
		if res.Len() == 2 && types.Identical(res.At(1).Type(), errorT) {
			isConn, isL := netType(res.At(0).Type(), "Conn"), netType(res.At(0).Type(), "Listener")
			if !isConn && !isL || c.Fn != nil && m.in.inPkg(c.Fn) {
				return nil, false
			}
			at := m.at(c.Site)
			owe(st, at)
			where(st, c, at)
			if isL {
				st.disc["opened"], st.disc["keptin"] = "", ""
			} else {
				r.Check("ends", at, st.disc["accerr"] == "", st, "accepting or connecting goes on after an error without a look at whether the transport was stopped")
				if nm := c.Name; nm == "Accept" || c.Fn != nil && c.Fn.Name() == "Accept" {
					delete(st.disc, "sent")
				} else {
					r.Check("one-connection", at, st.disc["sent"] == "", st, "another connection is made although one was handed over")
				}
			}
			bad := st.clone()
			if isConn {
				bad.disc["accerr"] = "1"
			}
			k := map[bool]string{true: "netconn", false: "netlistener"}[isConn]
			st.facts["nil:"+k] = false
			v := VRef{K: k, T: res.At(0).Type()}
			if isConn {
				st.disc["made"] = "1"
			} else {
				st.disc["opened"] = "1"
				st.gv["opened"] = v
			}
			nilE := VNil{errorT}
			e := m.in.fresh("net.err", errorT)
			if x, ok := e.(VRef); ok {
				bad.facts["nil:"+x.K] = false
			}
			return []stVal{{st, VTuple{[]Value{v, nilE}}}, {bad, VTuple{[]Value{VNil{res.At(0).Type()}, e}}}}, true
		}
		nm := c.Name
		var recv Value = c.Recv
		if c.Fn != nil && c.Fn.Signature.Recv() != nil && !m.in.inPkg(c.Fn) && len(c.Args) > 0 {
			recv, nm = c.Args[0], c.Fn.Name()
		}
		if nm == "Closed" && m.isMember(st, recv) {
			o := st.clone()
			st.disc["mclosed"] = "1"
			return []stVal{{st, VBool{boolC(true)}}, {o, VBool{boolC(false)}}}, true
		}
		if nm != "Close" || recv == nil {
			return nil, false
		}
		k := refKey(recv)
		st.disc["chg"] = "1"
		switch {
		case k == "netconn":
			delete(st.disc, "made")
		case k == "netlistener":
			delete(st.disc, "opened")
		}
		if v := st.gv["at"+listener]; v != nil && v.key() == recv.key() {
			st.disc["lclosed"] = "1"
		}
		if m.isMember(st, recv) {
			st.disc["mclosed"] = "1"
		}
		if v := st.gv["rconn"]; v != nil && st.same(v, recv) {
			st.disc["rclosed"] = "1"
		}
		if recvIface(c) == "TransportConnection" {
			return one(st, nil)
		}
		if c.Sig.Results().Len() == 1 {
			return one(st, m.in.fresh("close.err", errorT))
		}
		return one(st, nil)
	}
	m.goHook = func(st *State, c *CallInfo) bool {
		if st.disc["go"] != "" {
			return true
		}
		if len(st.disc["started"]) < 3 {
			st.disc["started"] += "1"
		}
		st.disc["chg"] = "1"
		if !m.inSection(st) {
			note(effects(st))
		}
		s := st.clone()
		s.disc["same"] = "1"
		delete(s.disc, "sto")
		delete(s.disc, "sfrom")
		for _, x := range m.cells {
			if x.kind == "chan" {
				s.disc["run"+x.path] = refKey(st.load("o", x.path, x.T))
			}
		}
		m.spawn(s, c)
		return true
	}
	shut := m.onClose
	m.onClose = func(st *State, at ssa.Instruction, chv Value) {
		st.disc["chg"] = "1"
		for _, c := range m.cells {
			if v := st.gv["at"+c.path]; c.kind == "chan" && v != nil && v.key() == chv.key() {
				st.disc["shut0:"+c.path] = "1"
			}
		}
		shut(st, at, chv)
	}
	sel := m.onSelect
	m.onSelect = func(st *State, at *ssa.Select, idx int) {
		sel(st, at, idx)
		if st.dead {
			return
		}
		for _, s := range at.States {
			if s.Dir == types.RecvOnly && closable[chanPath(st, refKey(m.in.val(st, st.top(), s.Chan)))] {
				delete(st.disc, "accerr")
			}
		}
		if st.disc["entry"] == "NextConnection" && st.disc["go"] == "" && at.Blocking {
			for _, s := range at.States {
				if s.Dir == types.RecvOnly {
					waits[chanPath(st, refKey(m.in.val(st, st.top(), s.Chan)))] = true
				}
			}
		}
	}
	m.sends = func(st *State, at ssa.Instruction, ch string, v Value) {
		o, ok := objOf(v)
		if !ok {
			return
		}
		if st.disc["made"] == "1" && m.holdsConn(st, o.K) {
			path := chanPath(st, ch)
			delete(st.disc, "made")
			r.Check("taken", m.at(at), !roomy[path], st, "a connection is left in a buffered channel: when the transport stops before NextConnection takes it, nobody closes it")
			st.disc["sent"] = "1"
			note(outcome{entry: "@sent", to: path, st: st, at: m.at(at)})
			r.Check("own-queue", m.at(at), st.disc["go"] == "" || st.disc["run"+path] == ch, st, "a connection of one run is passed to another run")
		}
	}
	m.recvs = func(st *State, at ssa.Instruction, ch string, ET types.Type) Value {
		path := chanPath(st, ch)
		if st.disc["go"] != "" {
			st.disc["sawshut"] = path
			return nil
		}
		if st.disc["entry"] != "NextConnection" {
			return nil
		}
		waits[path] = true
		st.disc["woke"] = path
		if !types.Identical(ET, tcT) || isShut(st, ch) {
			return nil
		}
		v := VRef{K: "rconn", T: ET}
		if !closable[path] {
			st.facts["nil:rconn"] = false
		}
		st.gv["rconn"] = v
		return v
	}
	next := short(p.Method(T, "NextConnection"))
	// the list of connections has no nil elements
	m.notNil = func(v Value) bool {
		x, ok := v.(VRef)
		return ok && (strings.HasSuffix(m.in.elems[x.K].base, list) || strings.HasPrefix(x.K, "rangekey") && types.Identical(x.T, tcT))
	}
	m.onRet = func(st *State, v Value) {
		if st.disc["entry"] == "Stop" {
			o := effects(st)
			o.entry = "Stop@end"
			note(o)
		}
		if st.disc["entry"] != "NextConnection" {
			return
		}
		isNil, known := st.eval(st.nilCond(v))
		got := st.gv["rconn"]
		if r.survive {
			d := nilElement(st, tcT)
			r.Check("process", next, d == "", st, "a nil connection gets into the list of connections, closing it will fail")
		}
		if got == nil {
			r.Check("nil-when-stopped", next, known && isNil, st, "NextConnection returns a connection it did not wait for")
			return
		}
		if b, k := st.eval(st.nilCond(got)); k && b {
			return
		}
		if known && isNil {
			r.Check("dropped-closed", next, st.disc["rclosed"] == "1", st, "a connection NextConnection took but does not return is not closed")
			return
		}
		r.Check("same-conn", next, st.same(v, got), st, "NextConnection returns another connection than the one it took")
		note(outcome{entry: "@saved", from: st.disc["saved"], chg: st.disc["rclosed"] == "1", st: st, at: next})
	}
	m.onGoEnd = func(st *State) {
		owe(st, "end of the goroutine of a run")
		note(outcome{entry: "@goend", from: st.disc["sfrom"], to: st.disc["sto"], same: st.disc["same"] != "", lclosed: st.disc["sent"] != "", shut: st.disc["sawshut"], st: st, at: st.disc["go"]})
	}
	m.explore(calledOf(f, T))

	// ---- judgement
	started, stopsAll := map[string]bool{}, map[string]bool{}
	for _, k := range order {
		if o := outs[k]; o.entry == "Run" && o.started != "" {
			started[o.from] = true
		}
	}
	run, stop := short(p.Method(T, "Run")), short(p.Method(T, "Stop"))
	for _, s := range inits {
		r.Check("starts", run, started[s], nil, "Run does not start a new transport (state %s)", s)
	}
	first := true
	for _, k := range order {
		o := outs[k]
		if o.entry == "Stop@end" && !started[o.from] && o.from != "" {
			set := map[string]bool{}
			for _, x := range strings.Split(o.shut, ",") {
				set[x] = true
			}
			if first {
				for x := range set {
					stopsAll[x] = true
				}
				first = false
			}
			for x := range stopsAll {
				if !set[x] {
					delete(stopsAll, x)
				}
			}
		}
	}
	wakes := false
	for x := range stopsAll {
		wakes = wakes || x != "" && waits[x]
	}
	r.Check("stop-wakes", stop, wakes, nil, "Stop does not always close a channel NextConnection waits for")
	stopped := 0
	for _, k := range order {
		o := outs[k]
		live := !started[o.from]
		switch {
		case o.entry == "@sent":
			r.Check("own-queue", o.at, waits[o.to], o.st, "a connection is sent on a channel NextConnection does not receive from")
		case o.entry == "@saved":
			r.Check("recorded", o.at, o.from != "" && !started[o.from] && !o.chg, o.st, "NextConnection returns a connection that Stop will not close")
		case o.entry == "@kept":
			r.Check("kept", next, o.from == "" || !live || started[o.to] || !o.chg, o.st, "NextConnection makes the transport forget another connection it handed out, Stop will not close it")
		case o.entry == "@goend":
			ok := o.lclosed || o.shut != "" && stopsAll[o.shut] || !o.same || started[o.to]
			r.Check("gives-up", "goroutine started at "+o.at, ok, o.st, "the goroutine of a run ends without a connection but leaves the transport running, NextConnection waits for ever")
		case o.goes:
			r.Check("earlier-run", "goroutine of a run", o.same || !live || !o.chg, o.st, "a goroutine of an earlier run changes the transport")
		case o.entry == "Run" && live:
			r.Check("run-idle", run, !o.chg, o.st, "Run changes a running transport")
		case o.entry == "Run":
			r.Check("run-once", run, o.started == "1" && !started[o.to], o.st, "Run of a stopped transport does not start one goroutine and leave the transport running")
		case o.entry == "Stop" && !live:
			r.Check("stop-idle", stop, !o.chg, o.st, "Stop changes a transport that is not running")
		case o.entry == "Stop":
			stopped++
			r.Check("stops", stop, started[o.to], o.st, "after Stop the transport can not Run again")
		case o.entry == "Stop@end" && live && o.from != "":
			r.Check("closes-listener", stop, o.lclosed || !strings.Contains(o.from, listener+"=set"), o.st, "Stop does not close the listener")
			r.Check("closes-connections", stop, o.mclosed || !o.member, o.st, "Stop does not close every connection handed out")
		case o.chg && !started[o.to] && started[o.from]:
			r.Check("only-run", o.entry, o.entry == "Run", o.st, "%s starts the transport", o.entry)
		}
	}
	for _, k := range m.order {
		isNew := false
		for _, s := range inits {
			isNew = isNew || s == k
		}
		if !started[k] || isNew {
			continue
		}
		ok := false
		for w := range waits {
			ok = ok || m.found[k][w] == "closed"
		}
		r.Check("stopped-nil", next, ok, nil, "NextConnection of a stopped transport waits for ever (state %s)", k)
	}
	r.Check("stops", stop, stopped > 0, nil, "no running transport was found that Stop stops")
	r.Note("outcomes", len(order))
}

// inList: the list of connections has v in it.
func (m *machine) inList(st *State, list string, v Value) bool {
	if x, ok := st.load("o", list, m.p.fieldOf(m.T, list).Type()).(VRef); ok && !isSliceT(x.T) {
		for _, g := range st.clone().mapGet(st.mapOf(x.K), v, types.Typ[types.Bool]) {
			if has, known := g.st.eval(g.ok); !known || !has {
				return false
			}
		}
		return true
	}
	l, ok := asSlice(st.heap["o"+list])
	if !ok {
		return false
	}
	_, in := st.findIn(l, v)
	return in
}

// isMember: v is the arbitrary connection of the list that is watched.
func (m *machine) isMember(st *State, v Value) bool {
	k := st.disc["member"]
	if k == "" {
		return false
	}
	return st.same(v, VRef{K: k, T: m.p.ifaceT("TransportConnection")})
}

// holdsConn: the object keeps the connection made last.
func (m *machine) holdsConn(st *State, k string) bool {
	for c, v := range st.heap {
		if strings.HasPrefix(c, k+".") && refKey(v) == "netconn" {
			return true
		}
	}
	return false
}

// nilElement finds an element of type T written to a list that may be nil.
func nilElement(st *State, T types.Type) string {
	seen := map[*Seq]bool{}
	var walk func(q *Seq) string
	walk = func(q *Seq) string {
		if q == nil || seen[q] || !types.Identical(q.elem, T) {
			return ""
		}
		seen[q] = true
		for _, e := range q.log {
			if e.val != nil {
				if b, known := st.eval(st.nilCond(e.val)); !known || b {
					return e.val.key()
				}
			}
			if d := walk(e.src); d != "" {
				return d
			}
		}
		return ""
	}
	for _, k := range sortedKeys(st.maps) {
		for _, e := range st.maps[k].log {
			if x, ok := e.k.(VRef); ok && !e.del && types.Identical(x.T, T) {
				if b, known := st.eval(st.nilCond(x)); !known || b {
					return x.key()
				}
			}
		}
	}
	for _, k := range sortedKeys(st.seqs) {
		if d := walk(st.seqs[k]); d != "" {
			return d
		}
	}
	return ""
}

func isSliceT(T types.Type) bool {
	_, ok := T.Underlying().(*types.Slice)
	return ok
}
