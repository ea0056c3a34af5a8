package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", &check{title: "Headers are stripped exactly as they were added", tech: procTech + "; two-instance (sender, receiver) product", run: checkC08, assume: procAssume,
		expl: []string{"Each header-adding processor is interpreted from a symbolic sent message; the state at the call of the lower neighbour is continued with the same processor at the receiver, whose buffer holds symbolically exactly the bytes sent.",
			"The receiver must pass up a buffer whose bytes equal the original payload (universally quantified index) and, for SessionResolver, an equal session option, for a symbolic session 0..2^31-1 or none; the header must not exceed the declared overhead; refusal is allowed only when the head room is smaller than the overhead; codecs must leave the whole overhead as head room."}})
	register("C10", &check{title: "Control messages stay inside the processor that made them", tech: procTech + "; two-instance (sender, receiver) product", run: checkC10, assume: procAssume,
		expl: []string{"Heartbeat and StatCounter are interpreted on an arbitrary event, including the goroutines they start; every message they send of their own and every response to a received one is continued at the receiving instance of the same processor, which must not pass anything up. User messages are continued the same way and must be passed up once.",
			"Self messages must go to the lower neighbour, on the connection of the event or of the request, on paths that know the connection is not by reference."}})
	register("C25", &check{title: "StatCounter counts every user message exactly once", tech: procTech, run: checkC25, assume: append([]string{"the MTU leaves 16 bytes besides the overhead, so that a report fits"}, procAssume...),
		expl: []string{"The counters are the cells of an enabled StatCounter that change when a user message is passed; at every return exactly one of them has grown by exactly one if the message was passed on and none otherwise, transmit and receive cells differ, and they are only changed by atomic read-modify-write operations or under a lock.",
			"The response must carry these two cells as big endian 64 bit words behind its tag and the printed values must be the two words received."}})
	register("C27", &check{title: "Filter and Forwarder obey their rules", tech: procTech + "; ghost counter over the rule list", run: checkC27, assume: append([]string{"rules given by the user are not nil"}, procAssume...),
		expl: []string{"Every rule call must be the element of the rule list at the ghost index (0, 1, 2, ... in order), with the message and its direction; both verdicts are followed. Passing on and keeping must agree with the verdicts and, when nobody said yes, the whole list must have been asked.",
			"The constructor must leave a list of its own with exactly the given rules."}})
	register("C29", &check{title: "Codecs deliver the bytes they were given", tech: procTech, run: checkC29, assume: procAssume,
		expl: []string{"At the call of the neighbour the buffer (message) must be newly made and hold, for a universally quantified index, exactly the bytes of the message or of the encoder's output (of the received payload); the decoder must have been given exactly the received payload and what is passed on must be its result."}})
}

// ---------------------------------------------------------------- C08

func checkC08(p *Program, r *Report) {
	keep := func(s scene) bool {
		return s.up && s.conn == "stream" && (s.kind == "header" || s.kind == "tag" || s.kind == "codec" && s.en)
	}
	for _, sc := range scenes(p, r, keep) {
		variants := []string{""}
		if sc.name == "SessionResolver" && sc.en {
			variants = []string{"session", "none"}
		}
		for _, v := range variants {
			roundTrip(p, r, sc, v)
		}
	}
}

func roundTrip(p *Program, r *Report, sc scene, variant string) {
	pr := newProcRun(p, r, sc)
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		if st.disc["phase"] != "" {
			r.Check("peer", pr.at(at), false, st, "%s: the receiver can fail on the message sent: %s", sc, what)
		}
	}
	session := "session"
	pr.prep = func(st *State) {
		switch variant {
		case "session":
			pr.sess = symL(pr.in.lenSym("sess"))
			st.maps["ctx.@options"] = st.mapOf("ctx.@options").with(mapEntry{k: VStr{Const: &session}, v: VIface{Dyn: types.Typ[types.Int], V: VInt{pr.sess}}})
		case "none":
			pr.sess = cst(0)
			st.maps["ctx.@options"] = &MapC{empty: true}
		}
	}
	active := sc.en || sc.kind == "tag"
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		at := pr.at(c.Site)
		if st.disc["phase"] == "2" {
			if !r.Check("stripped", at, tok == "U", st, "%s: the receiver passes the message %s", sc, dirName(tok)) {
				return
			}
			r.Check("stripped-once", at, st.disc["fwd2"] == "", st, "%s: the receiver delivers the message twice", sc)
			b, _, mayNil := pr.buffer(st, ctx)
			ok := b.ok && !mayNil && st.eq0(b.w.sub(b.r).sub(pr.w0.sub(pr.r0)))
			r.Check("payload-length", at, ok, st, "%s: the payload delivered is %s bytes long, %s were sent", sc, pr.in.syms.show(b.w.sub(b.r)), pr.in.syms.show(pr.w0.sub(pr.r0)))
			if ok {
				r.Check("payload-bytes", at, pr.in.sameBytes(st, b.q, b.off.add(b.r), pr.q0, pr.b0.off.add(pr.r0), pr.w0.sub(pr.r0)), st,
					"%s: the bytes delivered by the receiver are not proven to be those sent", sc)
			}
			if variant != "" {
				good := false
				if m := pr.ctxOptions(st, ctx); m != nil {
					good = true
					for _, x := range st.clone().mapGet(m, VStr{Const: &session}, anyT) {
						i, isI := x.v.(VIface)
						n, isN := Value(nil), false
						if isI {
							n, isN = i.V, types.Identical(i.Dyn, types.Typ[types.Int])
						}
						if !isN || !x.st.same(n, VInt{pr.sess}) {
							good = false
						}
					}
				}
				r.Check("session", at, good, st, "%s: the session restored by the receiver is not the one sent", sc)
			}
			return
		}
		if tok != "D" {
			return
		}
		b, _, mayNil := pr.buffer(st, ctx)
		if sc.kind == "codec" {
			ov := symL(pr.in.lenSym("overhead"))
			r.Check("head-room", at, b.ok && !mayNil && st.ge0(b.r.sub(ov)), st, "%s leaves less head room than the overhead of the stack", sc)
			return
		}
		if !active {
			return
		}
		if mayNil && !pr.known(st, atomC("nil:buf").not()) {
			r.Check("header", at, false, st, "%s passes a message without buffer on", sc)
			return
		}
		h := b.w.sub(b.r).sub(pr.w0.sub(pr.r0))
		r.Check("header-size", at, b.ok && st.ge0(cst(pr.own).sub(h)) && st.ge0(cst(pr.own).sub(pr.r0.sub(b.r))), st,
			"%s adds %s bytes, it declares an overhead of %d", sc, pr.in.syms.show(h), pr.own)
		if b.ok {
			pr.receive(st, b, "2", sc.en)
		}
	}
	pr.onEnd = func(st *State) {
		if st.disc["phase"] == "2" {
			r.Check("delivered", sc.where(), st.disc["fwd2"] != "", st, "%s: the receiver does not deliver the message sent", sc)
			return
		}
		if !active || sc.kind == "codec" || st.disc["fwd"] != "" {
			return
		}
		r.Check("refused", sc.where(), pr.bufNil(st) || st.ge0(cst(pr.own-1).sub(pr.r0)), st, "%s refuses a message that has %d bytes of head room", sc, pr.own)
	}
	pr.run()
}

// ---------------------------------------------------------------- C10

func checkC10(p *Program, r *Report) {
	for _, name := range []string{"Heartbeat", "StatCounter"} {
		T := p.Named(name)
		if T == nil {
			r.Fail("present", name, nil, "the processor %s does not exist any more", name)
			continue
		}
		// user messages
		sc := scene{T, name, "tag", true, true, "stream"}
		pr := newProcRun(p, r, sc)
		pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
			if st.disc["phase"] == "2" {
				r.Check("user-message", pr.at(c.Site), tok == "U" && st.disc["fwd2"] == "", st, "a user message sent through %s is answered or delivered twice by the receiver", name)
				return
			}
			if b, _, _ := pr.buffer(st, ctx); b.ok && tok == "D" {
				pr.receive(st, b, "2", true)
			}
		}
		pr.onEnd = func(st *State) {
			if st.disc["phase"] == "2" {
				r.Check("user-message-delivered", sc.where(), st.disc["fwd2"] == "U", st, "a user message sent through %s is taken for a self message by the receiver", name)
			}
		}
		pr.run()
		// self messages
		ev := scene{T, name, "tag", false, true, "stream"}
		for _, how := range []string{"event", "data"} {
			pe := newProcRun(p, r, ev)
			data := pe.eventData()
			sent := 0
			pe.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
				at := pe.at(c.Site)
				phase := st.disc["phase"]
				own, conn := "", "conn"+phase
				if how == "event" && phase == "" {
					conn = data
				} else if tok == "U" && phase == "" {
					return // a user message
				}
				if phase != "" {
					own = "received by the peer "
				}
				if !r.Check("self-direction", at, tok == "D", st, "a self message of %s %sis passed %s", name, own, dirName(tok)) {
					return
				}
				v := pe.ctxGet(st, ctx, "Connection")
				r.Check("self-connection", at, v != nil && v.key() == "r:"+conn, st, "a self message of %s is sent on another connection than the one it belongs to", name)
				ref, known := st.facts["useref:"+conn]
				r.Check("self-by-reference", at, known && !ref, st, "a self message of %s may be sent on a by-reference connection", name)
				b, _, mayNil := pe.buffer(st, ctx)
				if !r.Check("self-buffer", at, b.ok && !mayNil && st.ge0(b.w.sub(b.r).addK(-1)), st, "a self message of %s is sent without content", name) {
					return
				}
				sent++
				switch phase {
				case "":
					if st.disc["fwd"] == "" {
						pe.receive(st, b, "2", true)
					}
				case "2":
					pe.receive(st, b, "3", true)
				}
			}
			if how == "event" {
				pe.event()
				if sent == 0 && name == "Heartbeat" {
					r.Fail("self-sent", name, nil, "no self message of %s was found", name)
				}
			} else {
				pe.run()
			}
		}
	}
}

// ---------------------------------------------------------------- C25

func (pr *procRun) counters(st *State) map[string]Lin {
	out := map[string]Lin{}
	for k, v := range st.heap {
		if x, ok := v.(VInt); ok && strings.HasPrefix(k, "p.") {
			if s, ok := pr.in.syms.get(k); ok {
				if d := x.L.sub(symL(s)); !d.isConst() || d.K != 0 {
					out[k] = d
				}
			} else {
				out[k] = x.L
			}
		}
	}
	return out
}

func checkC25(p *Program, r *Report) {
	T := p.Named("StatCounter")
	if T == nil {
		r.Fail("present", "StatCounter", nil, "the processor does not exist any more")
		return
	}
	cell := map[bool]string{} // by direction
	for _, up := range []bool{true, false} {
		for _, conn := range []string{"stream", "nil"} {
			sc := scene{T, "StatCounter", "tag", up, true, conn}
			pr := newProcRun(p, r, sc)
			touched := map[string]bool{}
			pr.prep = pr.roomy
			pr.world.other = func(st *State, c *CallInfo) ([]stVal, bool) {
				pr.trackLock(st, c)
				if strings.Contains(c.Name, "sync/atomic.") && len(c.Args) > 0 {
					if a, ok := c.Args[0].(VRef); ok && strings.HasPrefix(a.K+a.Path, "p.") {
						i := strings.LastIndex(c.Name, ".")
						if strings.HasPrefix(c.Name[i+1:], "Store") || strings.HasPrefix(c.Name[i+1:], "Swap") {
							r.Check("atomic", pr.at(c.Site), st.disc["locks"] != "", st, "StatCounter overwrites a count (%s): counts made meanwhile by other goroutines are lost", c.Name)
						} else {
							r.Check("atomic", pr.at(c.Site), true, st, "")
						}
					}
				}
				if strings.HasPrefix(c.Name, "fmt.") && !up {
					pr.shown(st, c)
				}
				return nil, false
			}
			pr.onNew = func(st *State, at ssa.Instruction, a, v Value) {
				if x, ok := a.(VRef); ok && strings.HasPrefix(x.K+x.Path, "p.") {
					if _, isI := v.(VInt); isI {
						r.Check("atomic", pr.at(at), st.disc["locks"] != "", st, "StatCounter changes a count without an atomic operation or lock")
					}
				}
			}
			check := func(st *State) {
				got := st.disc["fwd"]
				if !up && st.disc["shown0"]+st.disc["shown1"] != "" {
					r.Check("shown", sc.where(), st.disc["shown0"] == st.disc["shown1"], st, "only one of the two counts of the response is printed")
				}
				user := got == sc.dir() && !pr.control(st)
				if !up && got == "U" && !user {
					return // neither user nor self message
				}
				ch := pr.counters(st)
				if !user {
					r.Check("counted", sc.where(), len(ch) == 0, st, "StatCounter counts a message it does not pass on (or a control message)")
					return
				}
				ok := len(ch) == 1
				for k, d := range ch {
					ok = ok && d.isConst() && d.K == 1
					touched[k] = true
					cell[up] = k
				}
				r.Check("counted", sc.where(), ok, st, "StatCounter does not add exactly one to exactly one count for a user message it passes on (%d counts change)", len(ch))
			}
			pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
				if !up && tok == "D" {
					pr.reported(st, c, ctx, cell)
				}
			}
			pr.onEnd = check
			pr.run()
			r.Check("one-cell", sc.where(), len(touched) <= 1, nil, "different counts are used for the same direction")
		}
	}
	r.Check("separate", "StatCounter", cell[true] != "" && cell[false] != "" && cell[true] != cell[false], nil,
		"sent and received messages are not counted separately")
	// what StatCounter sends by itself is not counted
	ev := newProcRun(p, r, scene{T, "StatCounter", "tag", false, true, "stream"})
	isCount := func(v Value) bool {
		a, ok := v.(VRef)
		return ok && a.K+a.Path != "p" && (strings.HasPrefix(cell[true], a.K+a.Path) || strings.HasPrefix(cell[false], a.K+a.Path))
	}
	ev.world.other = func(st *State, c *CallInfo) ([]stVal, bool) {
		if strings.Contains(c.Name, "sync/atomic.") && len(c.Args) > 0 && isCount(c.Args[0]) && !strings.Contains(c.Name[strings.LastIndex(c.Name, "."):], "Load") {
			r.Check("control-counted", ev.at(c.Site), false, st, "StatCounter counts a message that it sends by itself")
		}
		return nil, false
	}
	ev.onNew = func(st *State, at ssa.Instruction, a, v Value) {
		if isCount(a) {
			r.Check("control-counted", ev.at(at), false, st, "StatCounter counts a message that it sends by itself")
		}
	}
	ev.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		ch := ev.counters(st)
		_, t := ch[cell[true]]
		_, x := ch[cell[false]]
		r.Check("control-counted", ev.at(c.Site), !t && !x, st, "StatCounter counts a message that it sends by itself")
	}
	ev.event()
	// the report is only judged when both cells are known
	sc := scene{T, "StatCounter", "tag", false, true, "stream"}
	pr := newProcRun(p, r, sc)
	n := 0
	pr.prep = pr.roomy
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		if tok == "D" {
			n++
			pr.reported(st, c, ctx, cell)
		}
	}
	pr.run()
	r.Check("reported", "StatCounter", n > 0, nil, "StatCounter never reports its counts")
}

// roomy: a report fits into a message.
func (pr *procRun) roomy(st *State) {
	mtu, ov := symL(pr.in.lenSym("mtu")), symL(pr.in.lenSym("overhead"))
	st.addGE(mtu.sub(ov).addK(-16))
}

// trackLock keeps the locks held on the path.
func (pr *procRun) trackLock(st *State, c *CallInfo) {
	if len(c.Args) == 0 || c.Fn == nil {
		return
	}
	a, ok := c.Args[0].(VRef)
	if !ok {
		return
	}
	k := a.K + a.Path + ";"
	switch c.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		st.disc["locks"] += k
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		st.disc["locks"] = strings.Replace(st.disc["locks"], k, "", 1)
	}
}

// reported: the response carries both counts.
func (pr *procRun) reported(st *State, c *CallInfo, ctx Value, cell map[bool]string) {
	if cell[true] == "" || cell[false] == "" {
		return
	}
	b, _, mayNil := pr.buffer(st, ctx)
	at := pr.at(c.Site)
	if !pr.r.Check("report", at, b.ok && !mayNil && st.ge0(b.w.sub(b.r).addK(-17)), st, "the response does not hold a tag and two counts") {
		return
	}
	for i, up := range []bool{true, false} {
		s, ok := pr.in.syms.get(cell[up])
		good := ok
		if ok {
			for _, x := range pr.in.getWord(st.clone(), b.q, b.off.add(b.r).addK(int64(1+8*i)), "BE", 8) {
				good = good && x.st.same(x.v, VInt{symL(s)})
			}
		}
		pr.r.Check("report", at, good, st, "count %d of the response is not the %s count", i+1, map[bool]string{true: "transmit", false: "receive"}[up])
	}
}

// shown: printed 64 bit values are the two words received, in order.
func (pr *procRun) shown(st *State, c *CallInfo) {
	if !pr.control(st) || !st.ge0(pr.w0.sub(pr.r0).addK(-17)) {
		return
	}
	var vals []VInt
	for _, a := range c.Args {
		s, ok := a.(VSlice)
		if !ok || !s.Len.isConst() {
			continue
		}
		q := st.seq(s.Obj, anyT)
		for i := int64(0); i < s.Len.K; i++ {
			for _, x := range st.clone().seqRead(q, s.Off.addK(i)) {
				if f, ok := x.v.(VIface); ok {
					if b, ok := f.Dyn.Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
						if v, ok := f.V.(VInt); ok {
							vals = append(vals, v)
						}
					}
				}
			}
		}
	}
	if len(vals) == 0 {
		return
	}
	word := func(i int, v VInt) bool {
		for _, x := range pr.in.getWord(st.clone(), pr.q0, pr.b0.off.add(pr.r0).addK(int64(1+8*i)), "BE", 8) {
			if !x.st.same(x.v, v) {
				return false
			}
		}
		return true
	}
	ok := false
	switch len(vals) {
	case 1:
		for i := range []int{0, 1} {
			if word(i, vals[0]) {
				ok = true
				st.disc["shown"+strconv.Itoa(i)] = "1"
			}
		}
	case 2:
		ok = word(0, vals[0]) && word(1, vals[1])
		st.disc["shown0"], st.disc["shown1"] = "1", "1"
	}
	pr.r.Check("shown", pr.at(c.Site), ok, st, "the counts printed are not the transmit and receive count of the response")
}

// ---------------------------------------------------------------- C27

func checkC27(p *Program, r *Report) {
	for _, sc := range scenes(p, r, func(s scene) bool { return s.kind == "rule" && s.en }) {
		sc := sc
		pr := newProcRun(p, r, sc)
		var list string
		p.eachCell(sc.T, "", func(path string, FT types.Type) {
			if s, ok := FT.Underlying().(*types.Slice); ok {
				if _, ok := s.Elem().Underlying().(*types.Signature); ok {
					list = path
				}
			}
		})
		if list == "" {
			r.Fail("rules", sc.name, nil, "no list of rules was found in %s", sc.name)
			continue
		}
		var rules VSlice
		pr.prep = func(st *State) {
			rules, _ = st.load("p", list, p.fieldOf(sc.T, list).Type()).(VSlice)
			st.gv["next"] = VInt{cst(0)}
		}
		pr.onFn = func(st *State, c *CallInfo) ([]stVal, bool) {
			at := pr.at(c.Site)
			nx, _ := st.gv["next"].(VInt)
			ok := false
			if f, isR := c.FnVal.(VRef); isR {
				if e, isE := pr.in.elems[f.K]; isE && e.base == rules.Obj {
					ok = st.eq0(e.idx.sub(rules.Off).sub(nx.L))
				}
			}
			if !r.Check("next-rule", at, ok, st, "%s calls something else than the next rule in order (each rule once)", sc) {
				return nil, false
			}
			r.Check("after-yes", at, st.disc["said"] == "", st, "%s asks another rule after one said yes", sc)
			ctxOK := len(c.Args) == 2 && c.Args[0].key() == "r:ctx"
			r.Check("rule-message", at, ctxOK && pr.unchanged(st, c.Args[0]) == "", st, "%s asks a rule about another message", sc)
			if len(c.Args) == 2 {
				d, isB := c.Args[1].(VBool)
				v, known := st.eval(d.C)
				r.Check("rule-direction", at, isB && known && v == !sc.up, st, "%s tells a rule the wrong direction", sc)
			}
			st.gv["next"] = VInt{nx.L.addK(1)}
			no := st.clone()
			st.disc["said"] = "yes"
			st.note(c.Pos, "a rule says yes")
			no.note(c.Pos, "a rule says no")
			return []stVal{{st, VBool{boolC(true)}}, {no, VBool{boolC(false)}}}, true
		}
		all := func(st *State) bool {
			nx, ok := st.gv["next"].(VInt)
			return ok && st.eq0(nx.L.sub(rules.Len))
		}
		pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
			at := pr.at(c.Site)
			if sc.name == "Filter" {
				r.Check("verdict", at, st.disc["said"] == "yes", st, "%s passes a message on that no rule accepted", sc)
			} else {
				r.Check("verdict", at, st.disc["said"] == "" && all(st), st, "%s passes a message on that a rule took or was not asked about", sc)
			}
			r.Check("direction", at, tok == sc.dir() && st.disc["fwd"] == "", st, "%s passes the message %s or twice", sc, dirName(tok))
			d := pr.unchanged(st, ctx)
			r.Check("same-message", at, d == "", st, "%s passes another message on: %s", sc, d)
		}
		pr.onEnd = func(st *State) {
			if st.disc["fwd"] != "" {
				return
			}
			if sc.name == "Filter" {
				r.Check("kept", sc.where(), st.disc["said"] == "" && all(st), st, "%s drops a message that a rule accepted or was not asked about", sc)
			} else {
				r.Check("kept", sc.where(), st.disc["said"] == "yes", st, "%s keeps a message that no rule took", sc)
			}
		}
		pr.run()
	}
	for _, name := range []string{"Filter", "Forwarder"} {
		T := p.Named(name)
		if T == nil {
			continue
		}
		ms := p.constructorsOf(T)
		r.Check("constructor", name, len(ms) > 0, nil, "no constructor of %s was found", name)
		for _, m := range ms {
			for path, v := range m.cells {
				s, ok := v.(VSlice)
				fv := p.fieldOf(T, path)
				if fv == nil {
					continue
				}
				sl, isS := fv.Type().Underlying().(*types.Slice)
				if !isS {
					continue
				}
				if _, isF := sl.Elem().Underlying().(*types.Signature); !isF {
					continue
				}
				ps := m.fn.Params
				if len(ps) == 0 {
					continue
				}
				arg, _ := m.st.in.symbolic("arg:"+ps[len(ps)-1].Name(), ps[len(ps)-1].Type()).(VSlice)
				good := ok
				if !ok {
					if _, isNil := v.(VNil); isNil {
						good = m.st.eq0(arg.Len)
					}
				} else if m.st.eq0(arg.Len) && m.st.eq0(s.Len) {
					good = true
				} else {
					good = (isNew(s.Obj) || m.st.eq0(s.Len)) && m.st.eq0(s.Len.sub(arg.Len)) &&
						m.st.in.sameBytes(m.st, m.st.seq(s.Obj, sl.Elem()), s.Off, &Seq{base: arg.Obj, elem: sl.Elem()}, arg.Off, arg.Len)
				}
				r.Check("rules-given", short(m.fn), good, m.st, "the rules of a new %s are not a copy of exactly the rules given", name)
			}
		}
	}
}

// ---------------------------------------------------------------- C29

func checkC29(p *Program, r *Report) {
	for _, sc := range scenes(p, r, func(s scene) bool { return s.kind == "codec" && s.en && s.conn != "ref" }) {
		sc := sc
		pr := newProcRun(p, r, sc)
		plain := sc.name == "BytesCodec" || sc.name == "StringCodec"
		pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
			at := pr.at(c.Site)
			if tok != sc.dir() {
				return
			}
			if sc.up {
				b, k, mayNil := pr.buffer(st, ctx)
				if !r.Check("new-buffer", at, b.ok && !mayNil && isNew(k) && isNew(b.obj), st, "%s does not send the payload in a buffer of its own", sc) {
					return
				}
				s, q, ok := pr.payload(st)
				if !plain {
					ok = ok && st.disc["enc"] == "1"
					m := st.gv["enc.msg"]
					r.Check("encoded-message", at, m != nil && st.same(m, pr.msg0), st, "%s does not encode the message it was given, once", sc)
				}
				ok = ok && st.eq0(b.w.sub(b.r).sub(s.Len)) && pr.in.sameBytes(st, b.q, b.off.add(b.r), q, s.Off, s.Len)
				r.Check("payload", at, ok, st, "%s: the payload sent is not exactly the bytes of the message or of the encoder", sc)
				return
			}
			n := pr.w0.sub(pr.r0)
			m := pr.ctxGet(st, ctx, "Message")
			if !plain {
				q, ok1 := st.gv["dec.seq"].(VSeq)
				o, ok2 := st.gv["dec.off"].(VInt)
				l, ok3 := st.gv["dec.len"].(VInt)
				ok := ok1 && ok2 && ok3 && st.disc["dec"] == "1" && st.eq0(l.L.sub(n)) && pr.in.sameBytes(st, q.Q, o.L, pr.q0, pr.b0.off.add(pr.r0), n)
				r.Check("decoded-payload", at, ok, st, "%s does not hand the decoder exactly the received payload, once", sc)
				d := st.gv["dec.dst"]
				r.Check("decoded-message", at, m != nil && d != nil && st.same(m, d), st, "%s passes on something else than the decoded message", sc)
				r.Check("new-message", at, m != nil && strings.Contains(m.key(), "#"), st, "%s passes on a message that is shared with other messages", sc)
				return
			}
			i, _ := m.(VIface)
			var q *Seq
			var off, l Lin
			fresh := true
			switch v := i.V.(type) {
			case VSlice:
				q, off, l = st.seq(v.Obj, types.Typ[types.Byte]), v.Off, v.Len
				fresh = isNew(v.Obj)
				if sc.name != "BytesCodec" {
					q = nil
				}
			case VStr:
				if s, ok := p.strSrc[v.K]; ok && v.Const == nil && sc.name == "StringCodec" {
					q, off, l = s.q, s.off, s.len
				}
			}
			r.Check("new-message", at, fresh, st, "%s delivers bytes that are shared with the buffer or other messages", sc)
			r.Check("payload", at, q != nil && st.eq0(l.sub(n)) && pr.in.sameBytes(st, q, off, pr.q0, pr.b0.off.add(pr.r0), n), st,
				"%s: the message delivered is not exactly the received payload", sc)
		}
		pr.run()
	}
}
