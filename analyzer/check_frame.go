package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", &check{title: "Frames are reassembled from any segmentation of the stream", tech: procTech + "; ghost stream position", run: checkC12,
		assume: append([]string{"one goroutine receives the data of a connection (C15)", "frames are shorter than 2^31 bytes", "the closing of a connection is not announced from within the handling of its own data"}, procAssume...),
		expl: []string{"The ghost stream is the kept tail of the connection followed by the received bytes, both of symbolic length and content; a ghost position starts at its beginning. Every buffer passed up must hold exactly the frame at the position (length word and bytes, universally quantified index), which then advances past it.",
			"At every return the table must hold, for this connection only, exactly the rest of the stream, the rest must not contain a complete frame and must fit the configured capacity; or nothing, if the whole stream was consumed; or the connection was closed because the rest exceeds the capacity. The loop is solved by fixpoint with relational invariants.",
			"By induction over the received segments the frames delivered are those of the concatenated stream, whatever the segmentation.",
			"The event handler must remove exactly the tail of a closed connection."}})
}

// optionCell is the path of the cell that Run gives the value of an option.
func (p *Program) optionCell(T *types.Named, option string, vt types.Type) string {
	ck := "option:" + T.Obj().Name() + "." + option
	if s, ok := p.roles[ck]; ok {
		return s
	}
	p.roles[ck] = ""
	pr := newProcRun(p, newReport("-"), scene{T, T.Obj().Name(), "", false, true, "stream"})
	fn := p.Method(T, "Run")
	mp := p.setterPath(T, "SetOption")
	if fn == nil || mp == "" {
		return ""
	}
	st := pr.begin()
	v := pr.in.symbolic("theoption", vt)
	st.facts["nil:p"+mp] = false
	st.maps["p"+mp] = (&MapC{base: "p" + mp}).with(mapEntry{k: VStr{Const: &option}, v: VIface{Dyn: vt, V: v}})
	pr.onEnd = func(s *State) {
		for _, k := range sortedKeys(s.heap) {
			if len(k) > 2 && k[:2] == "p." && s.heap[k].key() == v.key() {
				p.roles[ck] = k[1:]
			}
		}
	}
	pr.world.goHook = func(*State, *CallInfo) bool { return true }
	pr.in.Enter(st, fn, []Value{VRef{K: "p", T: types.NewPointer(T)}}, nil)
	pr.in.Run(st)
	return p.roles[ck]
}

func checkC12(p *Program, r *Report) {
	T := p.Named("FrameDecoder")
	if T == nil {
		r.Fail("present", "FrameDecoder", nil, "the processor does not exist any more")
		return
	}
	capCell := p.optionCell(T, "CacheCapacity", types.Typ[types.Int])
	if !r.Check("capacity", "(*FrameDecoder).Run", capCell != "", nil, "the option CacheCapacity does not set the capacity") {
		return
	}
	for _, tail := range []bool{true, false} {
		tail := tail
		run := func(inv bool) func(*Report) {
			return func(r *Report) {
				reassemble(p, r, scene{T, "FrameDecoder", "header", false, true, "stream"}, capCell, tail, inv)
			}
		}
		r.attempts(run(false), run(true))
	}
	for _, closed := range []bool{true, false} {
		forgetClosed(p, r, T, closed)
	}
}

// reassemble judges the reaction to one segment.
func reassemble(p *Program, r *Report, sc scene, capCell string, tail, inv bool) {
	pr := newProcRun(p, r, sc)
	table := pr.tailTable()
	if table == "" {
		r.Fail("tails", sc.name, nil, "no table of tails by connection was found in %s", sc.name)
		return
	}
	if inv {
		pr.nonEmptyTails()
	}
	pr.count = 0
	var stream *Seq
	var total, capacity Lin
	old := pr.prep
	pr.prep = func(st *State) {
		if old != nil {
			old(st)
		}
		in := pr.in
		st.facts["nil:buf"] = false
		st.facts["has:"+table+"|r:conn"] = tail
		stream = &Seq{base: "stream", elem: types.Typ[types.Byte]}
		n := cst(0)
		if tail {
			k := table + "{r:conn}"
			in.ensureObj(st, k, p.Named("UBuf"))
			st.facts["nil:"+k] = false
			b := in.view(st, k)
			n = b.w.sub(b.r)
			stream = stream.with(seqEntry{off: cst(0), n: n, src: b.q, srcOff: b.off.add(b.r)})
		}
		cur := pr.w0.sub(pr.r0)
		stream = stream.with(seqEntry{off: n, n: cur, src: pr.q0, srcOff: pr.b0.off.add(pr.r0)})
		total = n.add(cur)
		st.gv["pos"] = VInt{cst(0)}
		c := in.lenSym("capacity")
		capacity = symL(c)
		st.heap["p"+capCell] = VInt{capacity}
	}
	pos := func(st *State) Lin {
		v, _ := st.gv["pos"].(VInt)
		return v.L
	}
	// held: the undelivered rest of the stream may hold a complete frame
	held := func(st *State) bool {
		left := total.sub(pos(st))
		for _, s := range st.clone().assume(geC(left.addK(-4))) {
			for _, w := range pr.in.getWord(s, stream, pos(st), "BE", 4) {
				if v, ok := w.v.(VInt); !ok || len(w.st.assume(geC(left.addK(-4).sub(v.L)))) > 0 {
					return true
				}
			}
		}
		return false
	}
	pr.connop = func(st *State, c *CallInfo, conn string) {
		if c.Name == "Close" {
			r.Check("close-late", pr.at(c.Site), !held(st), st, "%s closes a connection although a complete frame was received and not delivered", sc)
			st.disc["closed"] = "1"
			r.Check("close-reason", pr.at(c.Site), conn == "conn" && st.ge0(total.sub(pos(st)).sub(capacity).addK(-1)), st,
				"%s closes a connection although the incomplete frame fits into the buffer", sc)
		}
	}
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		r.Check("survives", pr.at(at), false, st, "%s can fail: %s", sc, what)
	}
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		at := pr.at(c.Site)
		in := pr.in
		x := pos(st)
		b, _, mayNil := pr.buffer(st, ctx)
		if !r.Check("delivers", at, tok == "U" && b.ok && !mayNil, st, "%s passes something on that is not a frame", sc) {
			return
		}
		n := b.w.sub(b.r)
		ok := st.ge0(total.sub(x).addK(-4))
		r.Check("frame-present", at, ok, st, "%s delivers a frame although the stream does not hold its length", sc)
		if ok {
			for _, w := range in.getWord(st.clone(), stream, x, "BE", 4) {
				ok = ok && w.st.same(w.v, VInt{n})
			}
			r.Check("frame-length", at, ok, st, "the buffer delivered by %s is not as long as the frame's length field says", sc)
			r.Check("frame-complete", at, st.ge0(total.sub(x).sub(n).addK(-4)), st, "%s delivers a frame that is not complete", sc)
			r.Check("frame-bytes", at, in.sameBytes(st, b.q, b.off.add(b.r), stream, x.addK(4), n), st,
				"the bytes delivered by %s are not proven to be those of the next frame of the stream", sc)
		}
		r.Check("frame-connection", at, pr.sameConn(st, ctx), st, "%s delivers a frame with another connection", sc)
		st.gv["pos"] = VInt{x.add(n).addK(4)}
	}
	pr.onEnd = func(st *State) {
		if st.disc["closed"] != "" {
			return
		}
		in := pr.in
		x := pos(st)
		m := st.mapOf(table)
		if !r.Check("table", sc.where(), m.base == table && !m.empty && st.tableKept(table), st, "%s replaces the table of tails", sc) {
			return
		}
		for _, e := range m.log {
			r.Check("other-tails", sc.where(), st.same(e.k, st.heap["ctx.@Connection"]), st, "%s changes the tail of another connection", sc)
		}
		for _, g := range st.clone().mapGet(m, VRef{K: "conn", T: pr.ctxType("Connection")}, pr.ubT()) {
			has, known := g.st.eval(g.ok)
			k, isRef := g.v.(VRef)
			if nilv, kn := g.st.eval(g.st.nilCond(g.v)); known && has && kn && nilv {
				has = false
			}
			if !known || !has || !isRef {
				r.Check("nothing-lost", sc.where(), g.st.eq0(total.sub(x)), g.st, "%s forgets the incomplete rest of the stream", sc)
				continue
			}
			in.ensureObj(g.st, k.K, p.Named("UBuf"))
			b := in.view(g.st, k.K)
			left := total.sub(x)
			ok := b.ok && g.st.eq0(b.w.sub(b.r).sub(left))
			r.Check("tail-length", sc.where(), ok, g.st, "the tail kept by %s is %s bytes long, the undelivered rest of the stream %s", sc, in.syms.show(b.w.sub(b.r)), in.syms.show(left))
			if ok {
				r.Check("tail-bytes", sc.where(), in.sameBytes(g.st, b.q, b.off.add(b.r), stream, x, left), g.st,
					"the tail kept by %s is not proven to be the undelivered rest of the stream", sc)
			}
			r.Check("tail-capacity", sc.where(), g.st.ge0(capacity.sub(left)), g.st, "%s keeps a tail larger than its capacity", sc)
			// no complete frame is held back
			r.Check("no-delay", sc.where(), !held(g.st), g.st, "%s holds back a complete frame", sc)
		}
	}
	pr.run()
}

// forgetClosed: the tail of a closed connection is removed, no other.
func forgetClosed(p *Program, r *Report, T *types.Named, closed bool) {
	sc := scene{T, "FrameDecoder", "header", false, true, "stream"}
	pr := newProcRun(p, r, sc)
	table := pr.tailTable()
	want, ok := p.constValue("UStackEventConnectionClosed")
	if table == "" || !ok {
		return
	}
	conn := VRef{K: pr.eventData(), T: pr.ctxType("Connection")}
	pr.prep = func(st *State) {
		st.facts["nil:"+conn.K] = false
		st.facts["type:"+conn.K+"|"+types.TypeString(conn.T, nil)] = true
		ty := symL(pr.in.syms.mkTyped("ev.Type", types.Typ[types.Int], pr.in.sizes))
		if closed {
			st.addEQ(ty.addK(-want))
		}
	}
	where := "(*FrameDecoder).OnEvent"
	pr.onEnd = func(st *State) {
		m := st.mapOf(table)
		if !closed {
			v, known := st.eval(eqC(symL(pr.in.syms.mk("ev.Type")).addK(-want)))
			if known && !v {
				r.Check("event-other", where, len(m.log) == 0 && m.base == table && st.tableKept(table), st, "an event that does not close a connection changes the kept tails")
			}
			return
		}
		r.Check("event-other", where, st.tableKept(table), st, "closing a connection replaces the table of the tails of all connections")
		for _, e := range m.log {
			r.Check("event-other", where, st.same(e.k, conn), st, "closing a connection changes the tail of another one")
		}
		for _, g := range st.clone().mapGet(m, conn, pr.ubT()) {
			has, known := g.st.eval(g.ok)
			n, kn := g.st.eval(g.st.nilCond(g.v))
			r.Check("event-forget", where, known && !has || kn && n, g.st, "the tail of a closed connection is kept and would be joined to the data of a later one")
		}
	}
	pr.event()
}

// constValue is the value of an integer constant of the package.
func (p *Program) constValue(name string) (int64, bool) {
	c, ok := p.Pkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constInt(c)
}

func constInt(c *types.Const) (int64, bool) {
	return constant.Int64Val(constant.ToInt(c.Val()))
}
