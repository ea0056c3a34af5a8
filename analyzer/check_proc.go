package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const procTech = "abstract interpretation of the SSA form of every processor entry point, all configurations, symbolic message and buffer"

var procAssume = []string{
	"neighbouring processors do not change the connection of a context",
	"MTU is larger than the overhead of the stack",
	"processors are made by their constructors and wired by their setters",
}

func init() {
	register("C06", &check{title: "A message passes each processor onward, exactly once", tech: procTech, run: checkC06, assume: procAssume,
		expl: []string{"Each of the processors between the decks is interpreted for data from above and from below, enabled and disabled, without connection, with a byte-stream and with a by-reference connection.",
			"Every call of a neighbour is recorded in the path state; at every return the recorded sequence must be the documented one, and a path that passes nothing on must imply a documented drop reason."}})
	register("C07", &check{title: "Disabled processors and reference connections are transparent", tech: procTech, run: checkC07, assume: procAssume,
		expl: []string{"At every call of a neighbour in a disabled or by-reference scene the context must carry the same buffer with the same window and bytes, message, connection and options as on entry (plus or minus the one-byte tag of the tagging processors), and every path must make exactly one such call."}})
	register("C09", &check{title: "Unprocessable messages are dropped whole and never crash", tech: procTech, run: checkC09, assume: procAssume,
		expl: []string{"At every call of a neighbour the path must imply that the message was processable (buffer present, header fits or is complete, message suitable, coder succeeded, payload complete); every dereference, index, slice, assertion and explicit panic on the data paths is an obligation."}})
}

func okMsg(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

// ---------------------------------------------------------------- C06

func checkC06(p *Program, r *Report) {
	for _, sc := range scenes(p, r, nil) {
		sc := sc
		pr := newProcRun(p, r, sc)
		want := sc.dir()
		frames := sc.name == "FrameDecoder" && !sc.up && sc.en && sc.conn != "ref"
		if frames {
			pr.count = 1
		}
		switch {
		case sc.name == "Loopback" && sc.en && sc.up:
			want = "U"
		case sc.name == "Loopback" && sc.en, sc.name == "Discarder" && sc.en && !sc.up:
			want = ""
		case sc.name == "Echo" && sc.en && !sc.up:
			want = "D"
		}
		pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
			at := pr.at(c.Site)
			_, sent, mayNil := pr.buffer(st, ctx)
			// an answer to a control message is a new message
			ok := tok == want || tok == "D" && pr.control(st) && isNew(sent) && !mayNil
			r.Check("direction", at, ok, st, "%s passes the message %s, it should pass it %s", sc, dirName(tok), dirName(want))
			r.Check("once", at, st.disc["fwd"] == "" || frames, st, "%s passes the same message on more than once", sc)
			if st.disc["go"] != "" || c.Kind == "go" {
				r.Check("order", at, false, st, "%s passes the message on in a goroutine of its own", sc)
			}
			if tok == want && !pr.control(st) && st.disc["fwd"] == "" {
				r.Check("connection", at, pr.sameConn(st, ctx), st, "%s passes the message on with another connection", sc)
				sess := "session"
				if sc.name != "SessionResolver" {
					r.Check("options", at, pr.sameOptions(st, ctx, nil), st, "%s changes the options (the session) of a message in transit", sc)
				} else {
					r.Check("options", at, pr.sameOptions(st, ctx, &sess), st, "%s changes an option other than the session", sc)
				}
				if sc.kind == "turn" || sc.kind == "plain" || sc.kind == "rule" {
					d := pr.unchanged(st, ctx)
					r.Check("same-message", at, d == "", st, "%s does not pass on what it was given: %s", sc, d)
				}
			}
		}
		pr.onEnd = func(st *State) {
			got := st.disc["fwd"]
			if got != "" || want == "" || frames {
				return // judged at the call
			}
			if sc.kind == "rule" && sc.en {
				return // C27
			}
			reason := pr.dropReason(st)
			r.Check("drop-reason", sc.where(), reason != "", st, "%s drops a message without a documented reason", sc)
		}
		pr.run()
	}
}

func dirName(tok string) string {
	switch tok {
	case "U":
		return "up"
	case "D":
		return "down"
	case "":
		return "nowhere"
	}
	return "to the wrong entry point of a neighbour"
}

// ---------------------------------------------------------------- C07

func checkC07(p *Program, r *Report) {
	keep := func(s scene) bool {
		if s.conn == "ref" && (s.kind == "codec" || s.kind == "header" || s.kind == "tag") {
			return true
		}
		return !s.en
	}
	for _, sc := range scenes(p, r, keep) {
		sc := sc
		pr := newProcRun(p, r, sc)
		tagged := sc.kind == "tag" && sc.conn != "ref"
		pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
			at := pr.at(c.Site)
			r.Check("direction", at, tok == sc.dir(), st, "%s passes the message %s", sc, dirName(tok))
			r.Check("once", at, st.disc["fwd"] == "", st, "%s passes the message on more than once", sc)
			if tagged && tok == sc.dir() {
				pr.checkTag(st, at, ctx)
				return
			}
			d := pr.unchanged(st, ctx)
			r.Check("unchanged", at, d == "", st, "%s is not transparent: %s", sc, d)
		}
		pr.onEnd = func(st *State) {
			if st.disc["fwd"] != "" {
				return
			}
			r.Check("passed-on", sc.where(), pr.dropReason(st) != "", st, "%s does not pass the message on", sc)
		}
		pr.run()
	}
	// what an enabled Heartbeat sends by itself is swallowed by a disabled one
	T := p.Named("Heartbeat")
	if T == nil {
		r.Fail("present", "Heartbeat", nil, "the processor does not exist any more")
		return
	}
	pe := newProcRun(p, r, scene{T, "Heartbeat", "tag", false, true, "stream"})
	sent := 0
	pe.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		if st.disc["phase"] == "2" {
			r.Check("swallowed", pe.at(c.Site), false, st, "a disabled Heartbeat passes a received heartbeat %s", dirName(tok))
			return
		}
		if b, _, _ := pe.buffer(st, ctx); b.ok && tok == "D" && st.disc["fwd"] == "" {
			sent++
			pe.receive(st, b, "2", false)
		}
	}
	pe.onEnd = func(st *State) {
		if st.disc["phase"] == "2" {
			r.Check("swallowed", "Heartbeat.OnLowerData", st.disc["fwd2"] == "", st, "a disabled Heartbeat passes a received heartbeat on")
		}
	}
	pe.event()
	if sent == 0 {
		r.Fail("swallowed", "Heartbeat", nil, "no heartbeat was found that a disabled receiver could be given")
	}
}

// checkTag: a tagging processor adds or removes exactly its tag.
func (pr *procRun) checkTag(st *State, at string, ctx Value) {
	sc := pr.sc
	d := pr.sameAttrs(st, ctx)
	b, k, mayNil := pr.buffer(st, ctx)
	switch {
	case d != "":
	case k != "buf" || !b.ok || mayNil:
		d = "the buffer is replaced or missing"
	case !st.eq0(b.w.sub(pr.w0)):
		d = "the end of the payload moves"
	case sc.up:
		h := pr.r0.sub(b.r)
		if !h.isConst() || h.K != pr.own {
			d = "it does not add exactly its tag"
		} else if !pr.in.sameBytes(st, b.q, b.off.add(pr.r0), pr.q0, pr.b0.off.add(pr.r0), pr.w0.sub(pr.r0)) {
			d = "the payload is changed"
		} else if tag, ok := pr.p.userTag(sc.T); ok {
			for _, x := range st.seqRead(b.q, b.off.add(b.r)) {
				if !x.st.same(x.v, VInt{cst(tag)}) {
					d = "the tag differs from that of an enabled processor"
				}
			}
		}
	default:
		h := b.r.sub(pr.r0)
		if !h.isConst() || h.K != pr.own {
			d = "it does not remove exactly its tag"
		} else if !pr.in.sameBytes(st, b.q, b.off.add(b.r), pr.q0, pr.b0.off.add(b.r), b.w.sub(b.r)) {
			d = "the payload is changed"
		}
	}
	pr.r.Check("tag-only", at, d == "", st, "%s does more than its tag: %s", sc, d)
}

// ---------------------------------------------------------------- C09

func checkC09(p *Program, r *Report) {
	for _, sc := range scenes(p, r, nil) {
		sc := sc
		run := func(inv bool) func(*Report) {
			return func(r *Report) {
				pr := newProcRun(p, r, sc)
				pr.count = 0
				pr.onBad = func(st *State, at ssa.Instruction, what string) {
					r.Check("no-crash", pr.at(at), false, st, "%s: %s", sc, what)
				}
				pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
					at := pr.at(c.Site)
					r.Check("no-crash", at, true, st, "")
					if sc.conn == "ref" || tok != sc.dir() {
						return
					}
					if d := pr.unprocessed(st, ctx); d != "-" {
						r.Check("processable", at, d == "", st, "%s passes a message on although %s", sc, d)
					}
				}
				if inv {
					pr.nonEmptyTails()
				}
				pr.run()
			}
		}
		if sc.name == "FrameDecoder" && !sc.up && sc.en {
			r.attempts(run(false), run(true))
		} else {
			run(false)(r)
		}
	}
}

// unprocessed says why the message at a forward may be unprocessable ("" if
// it can not be, "-" if the processor has nothing to process).
func (pr *procRun) unprocessed(st *State, ctx Value) string {
	sc := pr.sc
	switch sc.kind {
	case "codec":
		if !sc.en {
			return "-"
		}
		if sc.up {
			if !pr.known(st, st.nilCond(pr.msg0).not()) {
				return "it may carry nothing"
			}
			want := map[string]types.Type{"BytesCodec": bytesT, "StringCodec": types.Typ[types.String]}[sc.name]
			if want != nil && !pr.typed(st, want) {
				return "it may have another type"
			}
			if want == nil && errState(st, st.gv["enc.err"]) != 1 {
				return "the encoder may have failed"
			}
			b, k, mayNil := pr.buffer(st, ctx)
			if mayNil || !b.ok || !isNew(k) {
				return "no new buffer holds it"
			}
			s, _, ok := pr.payload(st)
			if !ok || !st.eq0(b.w.sub(b.r).sub(s.Len)) {
				return "only part of it may be in the buffer"
			}
			return ""
		}
		if !pr.known(st, atomC("nil:buf").not()) {
			return "it may have no buffer"
		}
		if sc.name != "BytesCodec" && sc.name != "StringCodec" && errState(st, st.gv["dec.err"]) != 1 {
			return "the decoder may have failed"
		}
		m := pr.ctxGet(st, ctx, "Message")
		if m == nil || m.key() == pr.msg0.key() {
			return "no decoded message is in it"
		}
		if s, ok := messageLen(pr, m); ok && !st.eq0(s.sub(pr.w0.sub(pr.r0))) {
			return "only part of it may be decoded"
		}
		return ""
	case "header", "tag":
		if !sc.en && sc.kind == "header" {
			return "-"
		}
		if sc.name == "FrameDecoder" && !sc.up {
			b, _, mayNil := pr.buffer(st, ctx)
			if mayNil || !b.ok {
				return "it may have no buffer"
			}
			return ""
		}
		if !pr.known(st, atomC("nil:buf").not()) {
			return "it may have no buffer"
		}
		b, k, mayNil := pr.buffer(st, ctx)
		if mayNil || !b.ok || k != "buf" {
			return "it may have no buffer"
		}
		if sc.up {
			if !st.ge0(pr.r0.addK(-pr.own)) {
				return "its header may not fit"
			}
			if !st.eq0(pr.r0.sub(b.r).addK(-pr.own)) {
				return "its header is not complete"
			}
		} else {
			if !st.ge0(pr.w0.sub(pr.r0).addK(-pr.own)) {
				return "its header may be truncated"
			}
			if !st.eq0(b.r.sub(pr.r0).addK(-pr.own)) {
				return "its header is not removed"
			}
		}
		if !st.eq0(b.w.sub(pr.w0)) {
			return "its payload is cut or extended"
		}
		return ""
	}
	return "-"
}

func (pr *procRun) typed(st *State, T types.Type) bool {
	for _, s := range []string{types.TypeString(T, nil), strings.ReplaceAll(types.TypeString(T, nil), "uint8", "byte"), strings.ReplaceAll(types.TypeString(T, nil), "byte", "uint8")} {
		if v, ok := st.facts["type:msg|"+s]; ok && v {
			return true
		}
	}
	return false
}

// messageLen is the number of bytes in a bytes or string message.
func messageLen(pr *procRun, m Value) (Lin, bool) {
	i, ok := m.(VIface)
	if !ok {
		return Lin{}, false
	}
	switch v := i.V.(type) {
	case VSlice:
		return v.Len, true
	case VStr:
		return pr.in.strLen(v), true
	}
	return Lin{}, false
}
