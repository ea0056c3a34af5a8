package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- scenes

// The documented data processors between the decks, by what they do.
var procKinds = map[string]string{
	"BytesCodec": "codec", "StringCodec": "codec", "JSONCodec": "codec", "GOBCodec": "codec", "GenericCodec": "codec",
	"FrameDecoder": "header", "SessionResolver": "header",
	"StatCounter": "tag", "Heartbeat": "tag", "LoadBalancer": "tag",
	"Filter": "rule", "Forwarder": "rule",
	"Echo": "turn", "Loopback": "turn", "Discarder": "turn",
	"FlowController": "plain",
}

type scene struct {
	T    *types.Named
	name string
	kind string
	up   bool   // data from above
	en   bool   // enabled
	conn string // nil, stream, ref
}

func (s scene) dir() string {
	if s.up {
		return "D"
	}
	return "U"
}

func (s scene) String() string {
	d, e := "OnLowerData", "disabled"
	if s.up {
		d = "OnUpperData"
	}
	if s.en {
		e = "enabled"
	}
	return s.name + "." + d + " (" + e + ", " + map[string]string{"nil": "no connection", "stream": "byte-stream connection", "ref": "by-reference connection"}[s.conn] + ")"
}

// where names the function under analysis without the configuration.
func (s scene) where() string {
	if s.up {
		return "(*" + s.name + ").OnUpperData"
	}
	return "(*" + s.name + ").OnLowerData"
}

// scenes enumerates every processor, direction and configuration.
func scenes(p *Program, r *Report, keep func(scene) bool) []scene {
	var out []scene
	for _, name := range sortedKeys(procKinds) {
		T := p.Named(name)
		if T == nil {
			r.Fail("present", name, nil, "the processor %s does not exist any more", name)
			continue
		}
		for _, up := range []bool{true, false} {
			for _, en := range []bool{true, false} {
				for _, c := range []string{"nil", "stream", "ref"} {
					s := scene{T, name, procKinds[name], up, en, c}
					if keep == nil || keep(s) {
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- run

// procRun analyses one data entry point of one processor.
type procRun struct {
	listened map[string]bool // channels a goroutine receives from
	world
	r   *Report
	sc  scene
	own int64

	r0, w0, c0 Lin
	b0         bufView
	q0         *Seq
	msg0       Value
	opt0       string
	sess       Lin

	onFwd     func(st *State, c *CallInfo, tok string, ctx Value)
	onEnd     func(st *State)
	onBad     func(st *State, at ssa.Instruction, what string)
	onFn      func(st *State, c *CallInfo) ([]stVal, bool)
	prep      func(st *State)
	onNew     func(st *State, at ssa.Instruction, p, v Value) // plain stores
	onMapRead func(st *State, at ssa.Instruction, m, k Value)
	onMap     func(st *State, at ssa.Instruction, m, k, v Value, del bool)

	onSend   func(st *State, at ssa.Instruction, ch, v Value, sel bool)
	onRecv   func(st *State, at ssa.Instruction, ch Value, T types.Type) Value
	onClose  func(st *State, at ssa.Instruction, ch Value)
	onSelect func(st *State, at *ssa.Select, idx int)
	onNext   func(st *State, at ssa.Instruction, m, k Value, more bool)
	onGoEnd  func(st *State)

	notNil     func(v Value) bool // by an invariant that is checked
	onSeqWrite func(st *State, at ssa.Instruction, obj string, off, n Lin)
	onRet      func(st *State, v Value)
	notType    []int64 // values an event type does not have

	count int // tell paths apart by the first count messages they passed on
}

func newProcRun(p *Program, r *Report, sc scene) *procRun {
	pr := &procRun{r: r, sc: sc, count: 3}
	pr.world.p = p
	pr.own, _ = p.constResult(sc.T, "GetOverhead")
	return pr
}

// instance puts a configured processor into the state.
func (pr *procRun) instance(st *State, k string, sfx string, en bool) {
	T := pr.sc.T
	pt := types.NewPointer(T)
	st.facts["nil:"+k] = false
	set := func(m string, v Value) {
		if path := pr.p.setterPath(T, m); path != "" {
			st.heap[k+path] = v
		} else {
			pr.r.Fail("analysis", T.Obj().Name()+"."+m, nil, "the attribute set by %s was not found", m)
		}
	}
	for _, n := range []string{"upper", "lower", "ustack"} {
		st.facts["nil:"+n+sfx] = false
	}
	dp := pr.p.Pkg.Pkg.Scope().Lookup("DataProcessor").Type()
	set("SetEnable", VBool{boolC(en)})
	set("SetUpper", VRef{K: "upper" + sfx, T: dp})
	set("SetLower", VRef{K: "lower" + sfx, T: dp})
	set("SetUStack", VRef{K: "ustack" + sfx, T: pr.p.Pkg.Pkg.Scope().Lookup("UStack").Type()})
	if path := pr.p.setterPath(T, "SetWhere"); path != "" {
		st.heap[k+path] = VIface{Dyn: pt, V: VRef{K: k, T: pt}}
	}
	pr.in.assumeMade(st, T, k)
}

// context puts a context into the state.
func (pr *procRun) context(st *State, k, conn string) {
	st.facts["nil:"+k] = false
	ct := pr.ctxType("Connection")
	if conn == "" {
		st.heap[k+".@Connection"] = VNil{ct}
	} else {
		st.facts["nil:"+conn] = false
		st.heap[k+".@Connection"] = VRef{K: conn, T: ct}
	}
}

func (pr *procRun) entry(up bool) *ssa.Function {
	if up {
		return pr.p.Method(pr.sc.T, "OnUpperData")
	}
	return pr.p.Method(pr.sc.T, "OnLowerData")
}

func (pr *procRun) ctxVal(k string) Value {
	return VRef{K: k, T: pr.p.Pkg.Pkg.Scope().Lookup("Context").Type()}
}

func (pr *procRun) begin() *State {
	in := newInterp(pr.p, pr)
	pr.world.in = in
	pr.world.fwd = pr.forward
	pr.world.codec = pr.coded
	pr.world.fnval = func(st *State, c *CallInfo) ([]stVal, bool) {
		if pr.onFn != nil {
			return pr.onFn(st, c)
		}
		if pr.sc.kind == "rule" {
			// a rule may look at the message
			return one(st, in.fresh("verdict", resultType(c.Sig)))
		}
		return nil, false
	}
	st := in.newState()
	pr.instance(st, "p", "", pr.sc.en)
	switch pr.sc.conn {
	case "nil":
		pr.context(st, "ctx", "")
	default:
		pr.context(st, "ctx", "conn")
		st.facts["useref:conn"] = pr.sc.conn == "ref"
	}
	st.heap["ctx.@Buffer"] = VRef{K: "buf", T: pr.ubT()}
	in.ensureObj(st, "buf", pr.p.Named("UBuf"))
	st.facts["buf"+pr.p.ubCow()] = false
	pr.b0 = in.view(st, "buf")
	pr.r0, pr.w0, pr.c0, pr.q0 = pr.b0.r, pr.b0.w, pr.b0.c, pr.b0.q
	pr.msg0 = VRef{K: "msg", T: pr.ctxType("Message")}
	st.heap["ctx.@Message"] = pr.msg0
	pr.opt0 = st.mapOf("ctx.@options").key()
	mtu, ov := symL(in.lenSym("mtu")), symL(in.lenSym("overhead"))
	st.addGE(mtu.sub(ov).addK(-1))
	st.addGE(ov.addK(-pr.own))
	return st
}

func (pr *procRun) run() {
	if os.Getenv("UVDEBUG") != "" {
		t0 := time.Now()
		defer func() {
			fmt.Fprintln(os.Stderr, pr.sc, time.Since(t0), "steps", pr.in.steps, "paths", pr.in.paths, "joins", pr.in.joins)
		}()
	}
	st := pr.begin()
	if pr.prep != nil {
		pr.prep(st)
	}
	pr.opt0 = st.mapOf("ctx.@options").key()
	fn := pr.entry(pr.sc.up)
	if fn == nil {
		pr.r.Fail("present", pr.sc.where(), nil, "the entry point does not exist")
		return
	}
	pr.in.Enter(st, fn, []Value{VRef{K: "p", T: types.NewPointer(pr.sc.T)}, pr.ctxVal("ctx")}, nil)
	pr.in.Run(st)
	pr.r.absorb(pr.in)
	pr.r.Note("scenes", 1)
}

func (pr *procRun) forward(st *State, c *CallInfo, who string, ctx Value) {
	tok := "X"
	base := strings.TrimRight(who, "23")
	switch {
	case base == "lower" && c.Name == "OnUpperData":
		tok = "D"
	case base == "upper" && c.Name == "OnLowerData":
		tok = "U"
	}
	slot := "fwd" + who[len(base):]
	st.note(c.Pos, "passes the message to %s.%s", base, c.Name)
	if pr.onFwd != nil {
		pr.onFwd(st, c, tok, ctx)
	}
	if len(st.disc[slot]) < pr.count {
		st.disc[slot] += tok
	}
}

// receive lets the same processor at the peer (instance n) receive the bytes
// of buffer b.
func (pr *procRun) receive(st *State, b bufView, n string, en bool) {
	s := st.clone()
	s.frames = nil
	delete(s.disc, "go")
	s.disc["phase"] = n
	s.disc["fwd"+n] = ""
	in := pr.in
	pr.instance(s, "p"+n, n, en)
	pr.p.eachCell(pr.sc.T, "", func(path string, FT types.Type) {
		if _, ok := FT.Underlying().(*types.Map); ok {
			s.maps["p"+n+path] = &MapC{empty: true}
		}
	})
	pr.context(s, "ctx"+n, "conn"+n)
	s.facts["useref:conn"+n] = false
	s.maps["ctx"+n+".@options"] = &MapC{empty: true}
	k := "rbuf" + n
	s.facts["nil:"+k] = false
	in.ensureObj(s, k, pr.p.Named("UBuf"))
	s.facts[k+pr.p.ubCow()] = false
	rb := in.view(s, k)
	s.seqs[rb.obj] = rb.q.with(seqEntry{off: rb.off.add(rb.r), n: b.w.sub(b.r), src: b.q, srcOff: b.off.add(b.r)})
	s.addEQ(rb.w.sub(rb.r).sub(b.w.sub(b.r)))
	s.heap["ctx"+n+".@Buffer"] = VRef{K: k, T: pr.ubT()}
	s.heap["ctx"+n+".@Message"] = VNil{pr.ctxType("Message")}
	if s.dead {
		return
	}
	s.note(pr.entry(false).Pos(), "received by the peer")
	in.Enter(s, pr.entry(false), []Value{VRef{K: "p" + n, T: types.NewPointer(pr.sc.T)}, pr.ctxVal("ctx" + n)}, nil)
	in.work = append(in.work, s)
}

// event lets the processor handle an arbitrary event.
func (pr *procRun) event() {
	st := pr.begin()
	if pr.prep != nil {
		pr.prep(st)
	}
	fn := pr.p.Method(pr.sc.T, "OnEvent")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	pr.in.Enter(st, fn, []Value{VRef{K: "p", T: types.NewPointer(pr.sc.T)}, pr.in.symbolic("ev", fn.Params[1].Type())}, nil)
	pr.in.Run(st)
	pr.r.absorb(pr.in)
	pr.r.Note("event_scenes", 1)
}

// eventData is the key of the data of the event given to OnEvent.
func (pr *procRun) eventData() string {
	fn := pr.p.Method(pr.sc.T, "OnEvent")
	if s, ok := structOf(fn.Params[1].Type()); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Data" {
				return "ev.Data"
			}
		}
	}
	return "ev.Data"
}

// coded keeps what an encoder produced and a decoder was given.
func (pr *procRun) coded(st *State, c *CallInfo, kind string, a []Value) {
	switch kind {
	case "encode":
		st.gv["enc.msg"], st.gv["enc.out"], st.gv["enc.err"] = a[0], a[1], a[2]
		if s, ok := asSlice(a[1]); ok {
			st.gv["enc.seq"] = VSeq{st.seq(s.Obj, types.Typ[types.Byte])}
		}
		count(st, "enc", "1", 6)
	case "decode":
		st.gv["dec.dst"], st.gv["dec.err"] = a[1], a[2]
		count(st, "dec", "1", 6)
		if s, ok := asSlice(a[0]); ok {
			st.gv["dec.off"], st.gv["dec.len"] = VInt{s.Off}, VInt{s.Len}
			st.gv["dec.seq"] = VSeq{st.seq(s.Obj, types.Typ[types.Byte])}
			return
		}
		if i, ok := a[0].(VIface); ok {
			if r, ok := i.V.(VRef); ok && isNamed(deref(i.Dyn), "ustack", "UBuf") {
				pr.in.ensureObj(st, r.K, pr.p.Named("UBuf"))
				if b := pr.in.view(st, r.K); b.ok {
					st.gv["dec.off"], st.gv["dec.len"] = VInt{b.off.add(b.r)}, VInt{b.w.sub(b.r)}
					st.gv["dec.seq"] = VSeq{b.q}
					return
				}
			}
		}
		delete(st.gv, "dec.seq")
	default:
		count(st, "enc", "?", 6)
		st.gv["enc.err"] = a[2]
	}
}

func (pr *procRun) bad(st *State, at ssa.Instruction, what string) {
	if debugLevel == "5" {
		st.dump("bad: " + what + " " + pr.at(at))
	}
	if pr.r != nil && pr.r.survive {
		pr.r.Check("process", pr.at(at), false, st, "the process can fail: %s", what)
	}
	if pr.onBad != nil {
		pr.onBad(st, at, what)
	}
}

func (pr *procRun) Bounds(st *State, at ssa.Instruction, what string, ok bool) {
	if !ok {
		pr.bad(st, at, what)
	}
}
func (pr *procRun) Nil(st *State, at ssa.Instruction, v Value, what string) {
	if pr.notNil == nil || !pr.notNil(v) {
		pr.bad(st, at, what)
	}
}
func (pr *procRun) Panic(st *State, at ssa.Instruction, what string) { pr.bad(st, at, what) }
func (pr *procRun) Store(st *State, at ssa.Instruction, p, v Value) {
	if pr.onNew != nil {
		pr.onNew(st, at, p, v)
	}
}

func (pr *procRun) MapWrite(st *State, at ssa.Instruction, m Value, k, v Value, del bool) {
	if pr.onMap != nil {
		pr.onMap(st, at, m, k, v, del)
	}
}

func (pr *procRun) MapRead(st *State, at ssa.Instruction, m Value, k Value) {
	if pr.onMapRead != nil {
		pr.onMapRead(st, at, m, k)
	}
}
func (pr *procRun) Send(st *State, at ssa.Instruction, ch, v Value, sel bool) {
	if pr.onSend != nil {
		pr.onSend(st, at, ch, v, sel)
	}
}

func (pr *procRun) Recv(st *State, at ssa.Instruction, ch Value, sel bool, T types.Type) Value {
	if pr.onRecv != nil {
		return pr.onRecv(st, at, ch, T)
	}
	return nil
}

func (pr *procRun) Select(st *State, at *ssa.Select, idx int, chosen *ssa.SelectState) {
	if pr.onSelect != nil {
		pr.onSelect(st, at, idx)
	}
}

func (pr *procRun) Close(st *State, at ssa.Instruction, ch Value) {
	if pr.onClose != nil {
		pr.onClose(st, at, ch)
	}
}

func (pr *procRun) Next(st *State, at ssa.Instruction, m Value, k Value, more bool) {
	if pr.onNext != nil {
		pr.onNext(st, at, m, k, more)
	}
}

// tailTable is the table of buffers by connection, if the processor has one.
func (pr *procRun) tailTable() string {
	t := ""
	pr.p.eachCell(pr.sc.T, "", func(path string, FT types.Type) {
		if m, ok := FT.Underlying().(*types.Map); ok && types.Identical(m.Elem(), pr.ubT()) {
			t = "p" + path
		}
	})
	return t
}

// nonEmptyTails assumes, and checks wherever one is stored, that kept
// buffers are not empty.
func (pr *procRun) nonEmptyTails() {
	t := pr.tailTable()
	if t == "" {
		return
	}
	prep, onMap := pr.prep, pr.onMap
	pr.prep = func(st *State) {
		ck := st.heap["ctx.@Connection"].key()
		k := t + "{" + ck + "}"
		pr.in.ensureObj(st, k, pr.p.Named("UBuf"))
		st.facts["nil:"+k] = false
		b := pr.in.view(st, k)
		st.addGE(b.w.sub(b.r).addK(-1))
		if prep != nil {
			prep(st)
		}
	}
	pr.onMap = func(st *State, at ssa.Instruction, m, k, v Value, del bool) {
		if r, ok := m.(VRef); ok && r.K == t && !del {
			good := false
			if b, ok := v.(VRef); ok {
				pr.in.ensureObj(st, b.K, pr.p.Named("UBuf"))
				w := pr.in.view(st, b.K)
				nn := pr.known(st, st.nilCond(b).not())
				good = nn && w.ok && st.ge0(w.w.sub(w.r).addK(-1))
			}
			pr.r.Check("kept-tail", pr.at(at), good, st, "%s keeps a tail that may be empty or missing", pr.sc)
		}
		if onMap != nil {
			onMap(st, at, m, k, v, del)
		}
	}
}

func (pr *procRun) SeqWrite(st *State, at ssa.Instruction, obj string, off, n Lin) {
	if pr.onSeqWrite != nil {
		pr.onSeqWrite(st, at, obj, off, n)
	}
}
func (pr *procRun) End(st *State, v Value) {
	if pr.onRet != nil && st.disc["go"] == "" {
		pr.onRet(st, v)
	}
	if st.disc["go"] != "" {
		if pr.onGoEnd != nil {
			pr.onGoEnd(st)
		}
		return
	}
	if pr.onEnd != nil {
		pr.onEnd(st)
	}
}

// ---------------------------------------------------------------- facts

// buffer is the buffer of a context: its view, and whether it may be nil.
func (pr *procRun) buffer(st *State, ctx Value) (b bufView, k string, mayNil bool) {
	v := pr.ctxGet(st, ctx, "Buffer")
	r, ok := v.(VRef)
	if !ok {
		return bufView{}, "", true
	}
	if n, known := st.eval(st.nilCond(r)); !known || n {
		mayNil = true
	}
	pr.in.ensureObj(st, r.K, pr.p.Named("UBuf"))
	return pr.in.view(st, r.K), r.K, mayNil
}

func (pr *procRun) known(st *State, c Cond) bool {
	v, k := st.eval(c)
	return k && v
}

func (pr *procRun) bufNil(st *State) bool { return pr.known(st, atomC("nil:buf")) }

// first is the first readable byte the processor was given.
func (pr *procRun) first(st *State) Lin {
	rs := st.seqRead(pr.q0, pr.b0.off.add(pr.r0))
	if len(rs) == 1 {
		if v, ok := rs[0].v.(VInt); ok {
			return v.L
		}
	}
	return symL(pr.in.syms.mk(pr.in.freshKey("firstbyte")))
}

// control: the state implies that the message does not carry the user tag.
func (pr *procRun) control(st *State) bool {
	if pr.sc.kind != "tag" || pr.sc.up {
		return false
	}
	tag, ok := pr.p.userTag(pr.sc.T)
	if !ok {
		return false
	}
	return pr.known(st, eqC(pr.first(st).addK(-tag)).not())
}

// payloadLen is the length of the message given to a bytes or string codec.
func (pr *procRun) payload(st *State) (VSlice, *Seq, bool) {
	in := pr.in
	switch pr.sc.name {
	case "BytesCodec":
		T := types.NewSlice(types.Universe.Lookup("byte").Type())
		s, ok := in.symbolic("msg.("+types.TypeString(T, shortQ)+")", T).(VSlice)
		if !ok {
			return VSlice{}, nil, false
		}
		return s, &Seq{base: s.Obj, elem: types.Typ[types.Byte]}, true
	case "StringCodec":
		v, ok := in.symbolic("msg.(string)", types.Typ[types.String]).(VStr)
		if !ok {
			return VSlice{}, nil, false
		}
		n := in.strLen(v)
		return VSlice{Obj: strBytes(v), Off: cst(0), Len: n, Cap: n, T: bytesT}, &Seq{base: strBytes(v), elem: types.Typ[types.Byte]}, true
	}
	if st.disc["enc"] == "1" {
		s, ok := asSlice(st.gv["enc.out"])
		q, ok2 := st.gv["enc.seq"].(VSeq)
		if ok && ok2 {
			return s, q.Q, true
		}
	}
	return VSlice{}, nil, false
}

// dropReason is the documented reason that the state implies, if any.
func (pr *procRun) dropReason(st *State) string {
	sc := pr.sc
	switch sc.kind {
	case "codec":
		if !sc.en || sc.conn == "ref" {
			return ""
		}
		for _, k := range sortedKeys(st.heap) {
			if strings.HasPrefix(k, "p.") {
				if T, ok := pr.in.cellType(st, k); ok {
					if _, isF := T.Underlying().(*types.Signature); isF && pr.known(st, st.nilCond(st.heap[k])) {
						return "no coder"
					}
				}
			}
		}
		if sc.up {
			if pr.known(st, st.nilCond(pr.msg0)) {
				return "no message"
			}
			want := map[string][]string{"BytesCodec": {"[]byte", "[]uint8"}, "StringCodec": {"string"}}[sc.name]
			for _, t := range want {
				if v, ok := st.facts["type:msg|"+t]; ok && !v {
					return "unsuitable message"
				}
			}
			if errState(st, st.gv["enc.err"]) == -1 {
				return "encoder error"
			}
			if s, _, ok := pr.payload(st); ok {
				mtu, ov := symL(pr.in.lenSym("mtu")), symL(pr.in.lenSym("overhead"))
				if st.eq0(s.Len) {
					return "empty payload"
				}
				if st.ge0(s.Len.add(ov).sub(mtu).addK(-1)) {
					return "payload too large"
				}
			}
			return ""
		}
		if pr.bufNil(st) {
			return "no buffer"
		}
		if errState(st, st.gv["dec.err"]) == -1 {
			return "decoder error"
		}
		if st.eq0(pr.w0.sub(pr.r0)) {
			return "empty payload"
		}
	case "header", "tag":
		if sc.conn == "ref" {
			return ""
		}
		active := sc.en || sc.kind == "tag"
		if pr.bufNil(st) && (active || !sc.up) {
			return "no buffer"
		}
		if !active {
			return ""
		}
		if sc.up && st.ge0(cst(pr.own-1).sub(pr.r0)) {
			return "no head room"
		}
		if !sc.up && st.ge0(cst(pr.own-1).sub(pr.w0.sub(pr.r0))) {
			return "truncated header"
		}
		if (sc.en || sc.name == "Heartbeat") && pr.control(st) {
			return "control message"
		}
	}
	return ""
}

// userTag is the byte a tagging processor puts before user messages.
func (p *Program) userTag(T *types.Named) (int64, bool) {
	ck := "usertag:" + T.Obj().Name()
	if s, ok := p.roles[ck]; ok {
		return int64(len(s)) - 1, s != ""
	}
	p.roles[ck] = ""
	var tag int64
	n, ok := 0, true
	pr := newProcRun(p, newReport("-"), scene{T, T.Obj().Name(), procKinds[T.Obj().Name()], true, true, "stream"})
	pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) {
		b, _, _ := pr.buffer(st, ctx)
		if !b.ok {
			ok = false
			return
		}
		for _, x := range st.seqRead(b.q, b.off.add(b.r)) {
			v, isI := x.v.(VInt)
			if !isI || !v.L.isConst() || n > 0 && v.L.K != tag {
				ok = false
				return
			}
			tag = v.L.K
			n++
		}
	}
	pr.run()
	if ok && n > 0 {
		p.roles[ck] = strings.Repeat("x", int(tag)+1)
	}
	return tag, ok && n > 0
}

// unchanged: the context still carries exactly what it carried on entry.
func (pr *procRun) unchanged(st *State, ctx Value) string {
	if b := pr.ctxGet(st, ctx, "Buffer"); b == nil || b.key() != "r:buf" {
		return "the buffer is replaced"
	}
	b := pr.in.view(st, "buf")
	if !b.ok || !st.eq0(b.r.sub(pr.r0)) || !st.eq0(b.w.sub(pr.w0)) {
		return "the buffer is read or written"
	}
	if b.q != pr.q0 && !pr.in.sameBytes(st, b.q, b.off.add(b.r), pr.q0, pr.b0.off.add(pr.r0), pr.w0.sub(pr.r0)) {
		return "the bytes are changed"
	}
	return pr.sameAttrs(st, ctx)
}

// sameAttrs: message, connection and options are those on entry.
func (pr *procRun) sameAttrs(st *State, ctx Value) string {
	if m := pr.ctxGet(st, ctx, "Message"); m == nil || !st.same(m, pr.msg0) {
		return "the message is replaced"
	}
	if !pr.sameConn(st, ctx) {
		return "the connection is replaced"
	}
	if !pr.sameOptions(st, ctx, nil) {
		return "the options are changed"
	}
	return ""
}

func (pr *procRun) sameConn(st *State, ctx Value) bool {
	v := pr.ctxGet(st, ctx, "Connection")
	if pr.sc.conn == "nil" {
		return v != nil && pr.known(st, st.nilCond(v))
	}
	return v != nil && v.key() == "r:conn"
}

// sameOptions: no option but the given one is changed.
func (pr *procRun) sameOptions(st *State, ctx Value, but *string) bool {
	m := pr.ctxOptions(st, ctx)
	if m == nil {
		return false
	}
	if m.key() == pr.opt0 {
		return true
	}
	if m.empty || m.base != "ctx.@options" || but == nil {
		return false
	}
	for _, e := range m.log {
		if s, ok := e.k.(VStr); !ok || s.Const == nil || *s.Const != *but {
			// entries present at the start are part of opt0
			if !strings.Contains(pr.opt0, e.k.key()+"=") {
				return false
			}
		}
	}
	return true
}

func strBytes(v VStr) string { return "content(" + v.key() + ")" }

// count adds a token to a slot, which has room for n of them: a loop adds no
// end of tokens, and its analysis has to come to one.
func count(st *State, slot, tok string, n int) {
	if len(st.disc[slot]) < n {
		st.disc[slot] += tok
	}
}
