package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// world models the surroundings of a processor: contexts, connections, the
// stack, encoders and decoders.  Concrete objects made by the analysed code
// are interpreted, everything that comes from outside is symbolic.
type world struct {
	NopClient
	p  *Program
	in *Interp

	fwd     func(st *State, c *CallInfo, who string, ctx Value) // data handed to a neighbour
	publish func(st *State, c *CallInfo, ev Value)
	connop  func(st *State, c *CallInfo, conn string) // Close, Read, Write, GetReference, SetReference
	codec   func(st *State, c *CallInfo, kind string, args []Value)
	fnval   func(st *State, c *CallInfo) ([]stVal, bool)
	other   func(st *State, c *CallInfo) ([]stVal, bool) // any other call, before the default
	goHook  func(st *State, c *CallInfo) bool
	// before a lock operation
	lockHook func(st *State, c *CallInfo, op, key string)
	// after a lock was taken: the states others may have left
	lockFork func(st *State, c *CallInfo, op, key string) []*State
}

var errorT = types.Universe.Lookup("error").Type()
var bytesT = types.NewSlice(types.Typ[types.Byte])
var anyT = types.NewInterfaceType(nil, nil)

func (w *world) ubT() types.Type { return types.NewPointer(w.p.Named("UBuf")) }

func recvIface(c *CallInfo) string {
	if c.Method == nil {
		return ""
	}
	s, ok := c.Method.Type().(*types.Signature)
	if !ok || s.Recv() == nil {
		return ""
	}
	if n, ok := s.Recv().Type().(*types.Named); ok {
		if c.Role != "" && (n.Obj().Pkg() == nil || n.Obj().Pkg().Name() == "io") {
			return c.Role
		}
		return n.Obj().Name()
	}
	return ""
}

func one(st *State, v Value) ([]stVal, bool) { return []stVal{{st, v}}, true }

func (w *world) Call(st *State, c *CallInfo) ([]stVal, bool) {
	if w.other != nil {
		if o, ok := w.other(st, c); ok {
			return o, true
		}
	}
	in := w.in
	if o, ok := w.lockCall(st, c); ok {
		return o, true
	}
	if c.Fn != nil {
		return w.extern(st, c)
	}
	if c.FnVal != nil {
		if w.fnval != nil {
			if o, ok := w.fnval(st, c); ok {
				return o, true
			}
		}
		return w.userCodec(st, c)
	}
	if c.Method == nil {
		return nil, false
	}
	r, ok := c.Recv.(VRef)
	if !ok {
		return nil, false
	}
	nonNil := func() bool {
		return in.nonNil(st, c.Site, c.Recv, "method "+c.Method.Name()+" called on a nil interface")
	}
	switch recvIface(c) {
	case "Context":
		if !nonNil() {
			return nil, true
		}
		return w.ctxCall(st, c, r)
	case "TransportConnection":
		if !nonNil() {
			return nil, true
		}
		switch c.Name {
		case "UseReference":
			return one(st, VBool{atomC("useref:" + r.K)})
		case "GetName":
			return one(st, in.symbolic(r.K+".@name", types.Typ[types.String]))
		case "Closed":
			if w.connop != nil {
				w.connop(st, c, r.K)
			}
			return one(st, VBool{atomC(in.freshKey("closed:" + r.K))})
		case "Close", "SetReference", "GetReference", "Read", "Write":
			if w.connop != nil {
				w.connop(st, c, r.K)
			}
			if st.dead {
				return nil, true
			}
			if c.Name == "Read" || c.Name == "Write" {
				if s, ok := asSlice(c.Args[0]); ok {
					n := symL(in.lenSym(in.freshKey("conn.n")))
					st.addGE(s.Len.sub(n))
					e := in.fresh("conn.err", errorT)
					if c.Name == "Read" {
						in.cl.SeqWrite(st, c.Site, s.Obj, s.Off, s.Len)
						q := st.seq(s.Obj, types.Typ[types.Byte])
						st.seqs[s.Obj] = q.with(seqEntry{off: s.Off, n: n, src: &Seq{base: in.freshKey("netdata"), elem: types.Typ[types.Byte]}, srcOff: cst(0)})
					}
					st.gv["conn.n"], st.gv["conn.err"] = VInt{n}, e
					return one(st, VTuple{[]Value{VInt{n}, e}})
				}
			}
			return nil, false
		}
	case "UStack":
		if !nonNil() {
			return nil, true
		}
		switch c.Name {
		case "GetMTU":
			return one(st, VInt{symL(in.lenSym("mtu"))})
		case "GetOverhead":
			return one(st, VInt{symL(in.lenSym("overhead"))})
		case "GetName":
			return one(st, in.symbolic(r.K+".@name", types.Typ[types.String]))
		case "PublishEvent":
			if w.publish != nil {
				w.publish(st, c, c.Args[0])
			}
			if st.dead {
				return nil, true
			}
			return one(st, c.Recv)
		case "GetEndPoint", "GetTransport", "GetFeatures":
			return one(st, in.symbolic(r.K+".@"+c.Name, resultType(c.Sig)))
		}
	case "DataProcessor":
		if c.Name == "OnUpperData" || c.Name == "OnLowerData" {
			if !nonNil() {
				return nil, true
			}
			if w.fwd != nil {
				w.fwd(st, c, r.K, c.Args[0])
			}
			if st.dead {
				return nil, true
			}
			w.havocCtx(st, c.Args[0])
			return one(st, nil)
		}
	case "EndPoint", "EndPointData", "Transport":
		if !nonNil() {
			return nil, true
		}
		if strings.HasPrefix(c.Name, "Get") || strings.HasPrefix(c.Name, "Has") {
			if len(c.Args) == 0 {
				return one(st, in.symbolic(r.K+".@"+c.Name, resultType(c.Sig)))
			}
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- contexts

var ctxCells = []string{"Buffer", "Connection", "Message"}

func (w *world) ctxType(what string) types.Type {
	it := w.p.Iface("Context")
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Get"+what {
			return it.Method(i).Type().(*types.Signature).Results().At(0).Type()
		}
	}
	return anyT
}

func (w *world) ctxCall(st *State, c *CallInfo, r VRef) ([]stVal, bool) {
	n := c.Name
	switch n {
	case "SetOption":
		st.maps[r.K+".@options"] = st.mapOf(r.K + ".@options").with(mapEntry{k: c.Args[0], v: c.Args[1]})
		return one(st, c.Recv)
	case "GetOption":
		var out []stVal
		for _, x := range st.mapGet(st.mapOf(r.K+".@options"), c.Args[0], resultType(c.Sig)) {
			out = append(out, stVal{x.st, x.v})
		}
		return out, true
	}
	if strings.HasPrefix(n, "Set") && len(c.Args) == 1 {
		st.heap[r.K+".@"+n[3:]] = c.Args[0]
		return one(st, c.Recv)
	}
	if strings.HasPrefix(n, "Get") && len(c.Args) == 0 {
		return one(st, st.load(r.K, ".@"+n[3:], resultType(c.Sig)))
	}
	return nil, false
}

// ctxGet reads an attribute of a context value.
func (w *world) ctxGet(st *State, ctx Value, what string) Value {
	switch x := ctx.(type) {
	case VRef:
		return st.load(x.K, ".@"+what, w.ctxType(what))
	case VIface:
		r, ok := x.V.(VRef)
		n, ok2 := ptrToNamed(x.Dyn)
		if !ok || !ok2 {
			return nil
		}
		path := w.p.setterPath(n, "Set"+what)
		if path == "" {
			return nil
		}
		return st.load(r.K, r.Path+path, w.ctxType(what))
	}
	return nil
}

// ctxOption is the content of the options map of a context.
func (w *world) ctxOptions(st *State, ctx Value) *MapC {
	switch x := ctx.(type) {
	case VRef:
		return st.mapOf(x.K + ".@options")
	case VIface:
		r, ok := x.V.(VRef)
		n, ok2 := ptrToNamed(x.Dyn)
		if !ok || !ok2 {
			return nil
		}
		path := w.p.setterPath(n, "SetOption")
		m, ok := st.heap[r.K+r.Path+path].(VRef)
		if path == "" || !ok {
			return nil
		}
		return st.mapOf(m.K)
	}
	return nil
}

// havocCtx: the neighbour may have changed everything but the connection.
func (w *world) havocCtx(st *State, ctx Value) {
	if b, ok := w.ctxGet(st, ctx, "Buffer").(VRef); ok {
		w.havocUBuf(st, b.K)
	}
	switch x := ctx.(type) {
	case VRef:
		st.heap[x.K+".@Buffer"] = w.in.fresh("later.buf", w.ubT())
		st.heap[x.K+".@Message"] = w.in.fresh("later.msg", w.ctxType("Message"))
		st.maps[x.K+".@options"] = &MapC{base: w.in.freshKey("later.opt")}
	case VIface:
		r, ok := x.V.(VRef)
		n, ok2 := ptrToNamed(x.Dyn)
		if ok && ok2 {
			for _, what := range []string{"Buffer", "Message"} {
				if p := w.p.setterPath(n, "Set"+what); p != "" {
					st.heap[r.K+r.Path+p] = w.in.fresh("later", w.ctxType(what))
				}
			}
		}
	}
}

// havocUBuf gives the buffer an arbitrary valid state.
func (w *world) havocUBuf(st *State, k string) {
	f := w.in.freshKey("hv")
	w.in.ensureObj(st, f, w.p.Named("UBuf"))
	w.p.eachCell(w.p.Named("UBuf"), "", func(path string, T types.Type) {
		st.heap[k+path] = st.load(f, path, T)
	})
}

// ---------------------------------------------------------------- encoders

func (w *world) extern(st *State, c *CallInfo) ([]stVal, bool) {
	in := w.in
	switch c.Name {
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		s := in.fresh("json", bytesT)
		e := in.fresh("err", errorT)
		// nothing but an error comes without data
		w.codecEvent(st, c, "encode", []Value{c.Args[0], s, e})
		return one(st, VTuple{[]Value{s, e}})
	case "encoding/json.Unmarshal":
		e := in.fresh("err", errorT)
		w.codecEvent(st, c, "decode", []Value{c.Args[0], c.Args[1], e})
		return one(st, e)
	case "encoding/gob.NewEncoder", "encoding/gob.NewDecoder", "encoding/json.NewEncoder", "encoding/json.NewDecoder":
		k := in.freshKey("coder")
		st.facts["nil:"+k] = false
		st.heap[k+".@stream"] = c.Args[0]
		return one(st, VRef{K: k, T: resultType(c.Sig)})
	case "(*encoding/gob.Encoder).Encode", "(*encoding/json.Encoder).Encode":
		if r, ok := c.Args[0].(VRef); ok {
			e := w.encodeInto(st, c, c.Args[1], st.heap[r.K+".@stream"])
			return one(st, e)
		}
	case "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode":
		if r, ok := c.Args[0].(VRef); ok {
			e := in.fresh("err", errorT)
			src := st.heap[r.K+".@stream"]
			w.codecEvent(st, c, "decode", []Value{src, c.Args[1], e})
			w.consume(st, src)
			return one(st, e)
		}
	}
	return nil, false
}

func (w *world) codecEvent(st *State, c *CallInfo, kind string, args []Value) {
	if w.codec != nil {
		w.codec(st, c, kind, args)
	}
}

// encodeInto: the encoder appends some bytes to the buffer.
func (w *world) encodeInto(st *State, c *CallInfo, msg, dst Value) Value {
	in := w.in
	e := in.fresh("err", errorT)
	i, ok := dst.(VIface)
	if ok {
		if r, ok := i.V.(VRef); ok && isNamed(deref(i.Dyn), "ustack", "UBuf") {
			in.ensureObj(st, r.K, w.p.Named("UBuf"))
			b := in.view(st, r.K)
			if b.ok {
				n := symL(in.lenSym(in.freshKey("enc.n")))
				st.addGE(b.c.sub(b.w).sub(n))
				q := &Seq{base: in.freshKey("enc"), elem: types.Typ[types.Byte]}
				st.seqs[b.obj] = b.q.with(seqEntry{off: b.off.add(b.w), n: n, src: q, srcOff: cst(0)})
				st.heap[r.K+w.p.ubRole("w")] = VInt{b.w.add(n)}
				st.seqs[q.base] = q
				out := VSlice{Obj: q.base, Off: cst(0), Len: n, Cap: n, T: bytesT}
				w.codecEvent(st, c, "encode", []Value{msg, out, e})
				return e
			}
		}
	}
	w.codecEvent(st, c, "encode-unknown", []Value{msg, dst, e})
	return e
}

// consume: the decoder reads some bytes of the buffer.
func (w *world) consume(st *State, src Value) {
	if i, ok := src.(VIface); ok {
		if r, ok := i.V.(VRef); ok && isNamed(deref(i.Dyn), "ustack", "UBuf") {
			w.in.ensureObj(st, r.K, w.p.Named("UBuf"))
			b := w.in.view(st, r.K)
			if b.ok {
				n := symL(w.in.lenSym(w.in.freshKey("dec.n")))
				st.addGE(b.w.sub(b.r).sub(n))
				st.heap[r.K+w.p.ubRole("r")] = VInt{b.r.add(n)}
			}
		}
	}
}

// userCodec: encoder and decoder functions given by the user.
func (w *world) userCodec(st *State, c *CallInfo) ([]stVal, bool) {
	in := w.in
	ps := c.Sig.Params()
	var wr, rd = -1, -1
	for i := 0; i < ps.Len(); i++ {
		if types.IsInterface(ps.At(i).Type()) {
			if hasMethod(ps.At(i).Type(), "Write") {
				wr = i
			} else if hasMethod(ps.At(i).Type(), "Read") {
				rd = i
			}
		}
	}
	if wr < 0 && rd < 0 {
		return nil, false
	}
	if !in.nonNil(st, c.Site, c.FnVal, "call of a nil function") {
		return nil, true
	}
	if wr >= 0 {
		var msg Value
		for i := range c.Args {
			if i != wr {
				msg = c.Args[i]
			}
		}
		return one(st, w.encodeInto(st, c, msg, c.Args[wr]))
	}
	res := in.fresh("decoded", resultType(c.Sig))
	w.codecEvent(st, c, "decode", []Value{c.Args[rd], tupleAt(res, 0), tupleAt(res, 1)})
	w.consume(st, c.Args[rd])
	return one(st, res)
}

// ---------------------------------------------------------------- goroutines

func (w *world) Go(st *State, c *CallInfo) {
	if w.goHook != nil && w.goHook(st, c) {
		return
	}
	w.spawn(st, c)
}

// spawn analyses the body of a new goroutine from the current state; tables
// may have been changed by others before it runs.
func (w *world) spawn(st *State, c *CallInfo) {
	s := st.clone()
	s.frames = nil
	s.disc["go"] = w.in.pos(c.Pos)
	count(s, "gon", "1", 6)
	delete(s.disc, "held")
	for k := range s.maps {
		s.maps[k] = &MapC{base: w.in.freshKey("shared")}
	}
	w.forgetLate(s, c)
	s.note(c.Pos, "goroutine started")
	if c.Fn == nil {
		cc := *c
		w.in.cl.Call(s, &cc)
		return
	}
	if !w.in.inPkg(c.Fn) {
		return
	}
	w.in.Enter(s, c.Fn, c.Args, c.Bind)
	w.in.work = append(w.in.work, s)
}

// ---------------------------------------------------------------- content

// sameBytes: qa[oa+k] == qb[ob+k] for every 0 <= k < n.
func (in *Interp) sameBytes(st *State, qa *Seq, oa Lin, qb *Seq, ob, n Lin) bool {
	s := st.clone()
	k := symL(in.syms.mk(in.freshKey("k")))
	if !s.addGE(k) || !s.addGE(n.sub(k).addK(-1)) {
		return true
	}
	for _, r := range s.seqRead(qa, oa.add(k)) {
		for _, x := range r.st.seqRead(qb, ob.add(k)) {
			if !x.st.same(r.v, x.v) {
				return false
			}
		}
	}
	return true
}

func (w *world) at(i ssa.Instruction) string {
	if i == nil || i.Parent() == nil {
		return "-"
	}
	return short(i.Parent()) + " " + w.in.pos(instrPos(i))
}
