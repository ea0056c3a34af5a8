package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ubufRun analyses one UBuf operation from an arbitrary valid buffer.
type ubufRun struct {
	NopClient
	in   *Interp
	p    *Program
	fn   *ssa.Function
	op   ubufOp
	reps map[string]*Report // by property; missing ones are ignored
	args []Value

	r0, w0, s0, c0 Lin
}

type ubufOp struct {
	kind  string // peekint readint writeint headint peek read write headbytes readfrom writeto reset len ""
	n     int
	order string
}

var intOp = regexp.MustCompile(`^(Peek|Read|Write|WriteHead)(Byte|U16|U32|U64)(BE|LE)?$`)

func classify(name string) ubufOp {
	if m := intOp.FindStringSubmatch(name); m != nil {
		o := ubufOp{n: map[string]int{"Byte": 1, "U16": 2, "U32": 4, "U64": 8}[m[2]], order: "BE"}
		if m[3] == "LE" {
			o.order = "LE"
		}
		o.kind = map[string]string{"Peek": "peekint", "Read": "readint", "Write": "writeint", "WriteHead": "headint"}[m[1]]
		return o
	}
	k := map[string]string{"Peek": "peek", "Read": "read", "Write": "write", "WriteHeadBytes": "headbytes",
		"ReadFrom": "readfrom", "WriteTo": "writeto", "Reset": "reset", "Capacity": "cap",
		"ReadableLength": "readable", "HeadWritableLength": "head", "TailWritableLength": "tail"}[name]
	return ubufOp{kind: k}
}

func (u *ubufRun) rep(id string) *Report { return u.reps[id] }

func (u *ubufRun) at(i ssa.Instruction) string {
	if i == nil {
		return short(u.fn)
	}
	return short(i.Parent()) + " " + u.in.pos(instrPos(i))
}

func (u *ubufRun) Bounds(st *State, at ssa.Instruction, what string, ok bool) {
	u.rep("C01").Check("bounds", u.at(at), ok, st, "%s: the access is not proven to stay inside the slice when %s is called on an arbitrary valid buffer", what, short(u.fn))
}

func (u *ubufRun) Nil(st *State, at ssa.Instruction, v Value, what string) {
	if r, ok := v.(VRef); ok && (r.K == "r" || r.K == "w" || r.K == "fn") {
		return // nil reader or writer given by the caller
	}
	u.rep("C01").Check("nil", u.at(at), false, st, "%s in %s: %s may be nil", what, short(u.fn), v.key())
}

func (u *ubufRun) Panic(st *State, at ssa.Instruction, what string) {
	if u.op.kind == "alloc" {
		c, r := u.args[0].(VInt).L, u.args[1].(VInt).L
		ok := st.ge0(c.neg()) || st.ge0(r.neg().addK(-1)) || st.ge0(r.sub(c).addK(-1))
		u.rep("C01").Check("panic", u.at(at), ok, st, "a valid capacity and head room panics")
		return
	}
	u.rep("C01").Check("panic", u.at(at), false, st, "%s can %s", short(u.fn), what)
}

func (u *ubufRun) Call(st *State, c *CallInfo) ([]stVal, bool) {
	in := u.in
	if c.IsInvoke() {
		r, _ := c.Recv.(VRef)
		if (r.K == "r" && c.Name == "Read" || r.K == "w" && c.Name == "Write") && len(c.Args) == 1 {
			s, ok := asSlice(c.Args[0])
			if !ok {
				return nil, false
			}
			n := symL(in.lenSym(in.freshKey("ext.n")))
			st.addGE(s.Len.sub(n))
			e := in.fresh("ext.err", types.Universe.Lookup("error").Type())
			st.gv["ext.n"], st.gv["ext.err"], st.gv["ext.slice"] = VInt{n}, e, s
			if st.disc["ext"] != "" {
				st.disc["ext"] = "many"
			} else {
				st.disc["ext"] = "once"
			}
			if c.Name == "Read" {
				u.SeqWrite(st, c.Site, s.Obj, s.Off, s.Len)
				q := st.seq(s.Obj, types.Typ[types.Byte])
				st.seqs[s.Obj] = q.with(seqEntry{off: s.Off, n: n, src: &Seq{base: "extdata", elem: types.Typ[types.Byte]}, srcOff: cst(0)})
			} else {
				u.SeqRead(st, c.Site, s.Obj, s.Off, s.Len)
				st.gv["ext.seq"] = VSeq{st.seq(s.Obj, types.Typ[types.Byte])}
			}
			return []stVal{{st, VTuple{[]Value{VInt{n}, e}}}}, true
		}
	}
	if strings.Contains(c.Name, "sync/atomic.") && len(c.Args) > 1 && c.Fn != nil && strings.HasPrefix(c.Fn.Name(), "Add") {
		if r, ok := c.Args[0].(VRef); ok && (r.K+r.Path == u.p.ubRC("ub.data") || r.K+r.Path+".v" == u.p.ubRC("ub.data")) {
			if d, ok := c.Args[1].(VInt); ok && d.L.isConst() && d.L.K < 0 {
				st.disc["released"] = u.at(c.Site)
			}
		}
	}
	return nil, false
}

// VSeq is a content snapshot kept as a ghost value.
type VSeq struct{ Q *Seq }

func (v VSeq) key() string { return "seq:" + v.Q.key() }

func (u *ubufRun) Load(st *State, at ssa.Instruction, p Value) {
	if r, ok := p.(VRef); ok && r.K+r.Path == u.p.ubRC("ub.data") {
		u.rep("C05").Check("refcount-atomic", u.at(at), false, st, "the reference count shared by snapshots is read without an atomic operation")
	}
}

func (u *ubufRun) Store(st *State, at ssa.Instruction, p, v Value) {
	if r, ok := p.(VRef); ok && r.K+r.Path == u.p.ubRC("ub.data") {
		u.rep("C05").Check("refcount-atomic", u.at(at), false, st, "the reference count shared by snapshots is written without an atomic operation")
	}
}

// exclusive: the path has established that nobody else relies on the data.
func (u *ubufRun) exclusive(st *State) bool {
	if v, ok := st.facts["ub"+u.p.ubCow()]; ok && !v {
		return true
	}
	if s, ok := u.in.syms.get(u.p.ubRC("ub.data")); ok {
		return st.eq0(symL(s).addK(-1))
	}
	return false
}

func (u *ubufRun) SeqWrite(st *State, at ssa.Instruction, obj string, off, n Lin) {
	if obj != "ub.data.bytes" || st.ge0(n.neg()) {
		return
	}
	u.rep("C05").Check("write-exclusive", u.at(at), u.exclusive(st), st,
		"%s writes the bytes of a buffer that copy-on-write snapshots may still share", short(u.fn))
	u.rep("C05").Check("use-after-release", u.at(at), st.disc["released"] == "", st,
		"the shared bytes are written after the reference was given up at %s", st.disc["released"])
}

func (u *ubufRun) SeqRead(st *State, at ssa.Instruction, obj string, off, n Lin) {
	if obj != "ub.data.bytes" || st.ge0(n.neg()) {
		return
	}
	u.rep("C05").Check("use-after-release", u.at(at), st.disc["released"] == "", st,
		"the shared bytes are read after the reference was given up at %s: the remaining owner may be changing them", st.disc["released"])
}

type bufView struct {
	ok         bool
	r, w, s, c Lin
	q          *Seq
	obj        string
	data       VRef
	off        Lin
	cow        Value
}

func (in *Interp) view(st *State, k string) bufView {
	intT := types.Typ[types.Int]
	g := func(f string) (Lin, bool) {
		v, ok := st.load(k, f, intT).(VInt)
		return v.L, ok
	}
	var b bufView
	var o1, o2, o3 bool
	b.r, o1 = g(".readerIndex")
	b.w, o2 = g(".writerIndex")
	b.s, o3 = g(".reserved")
	d, ok := st.load(k, ".data", types.NewPointer(types.Typ[types.Int])).(VRef)
	if !ok || !o1 || !o2 || !o3 {
		return b
	}
	b.data = d
	sl, ok := st.load(d.K, ".bytes", types.NewSlice(types.Typ[types.Byte])).(VSlice)
	if !ok {
		return b
	}
	b.c, b.obj, b.off = sl.Cap, sl.Obj, sl.Off
	b.q = st.seq(sl.Obj, types.Typ[types.Byte])
	b.cow = st.load(k, in.P.ubCow(), types.Typ[types.Bool])
	b.ok = st.eq0(sl.Len.sub(sl.Cap))
	return b
}

// layout checks the C01 invariant of the buffer object k.
func (u *ubufRun) layout(st *State, k string) bool {
	b := u.in.view(st, k)
	w := short(u.fn)
	r := u.rep("C01")
	if !r.Check("layout-data", w, b.ok, st, "after %s the buffer has no backing bytes of its full capacity", w) {
		return false
	}
	ok := r.Check("layout-order", w, st.ge0(b.r) && st.ge0(b.w.sub(b.r)) && st.ge0(b.c.sub(b.w)), st,
		"after %s the order 0 <= reader <= writer <= capacity is not preserved (reader %s, writer %s, capacity %s)", w,
		u.in.syms.show(b.r), u.in.syms.show(b.w), u.in.syms.show(b.c))
	ok = r.Check("layout-reserved", w, st.ge0(b.s) && st.ge0(b.c.sub(b.s)), st,
		"after %s the reserved head room is not inside the buffer", w) && ok
	return ok
}

func (u *ubufRun) run() {
	in := newInterp(u.p, u)
	u.in = in
	st := in.newState()
	ubT := u.p.Named("UBuf")
	recv := VRef{K: "ub", T: types.NewPointer(ubT)}
	st.facts["nil:ub"] = false
	in.ensureObj(st, "ub", ubT)
	v := in.view(st, "ub")
	u.r0, u.w0, u.s0, u.c0 = v.r, v.w, v.s, v.c
	st.load("ub.data", u.p.rcField(), types.Typ[types.Int32])
	// at least this buffer owns its data
	if s, ok := in.syms.get(u.p.ubRC("ub.data")); ok {
		st.addGE(symL(s).addK(-1))
	}
	st.load("ub", u.p.ubCow(), types.Typ[types.Bool])
	u.args = []Value{recv}
	for i, p := range u.fn.Params {
		if i == 0 {
			continue
		}
		name := "arg" + p.Name()
		switch {
		case types.IsInterface(p.Type()) && hasMethod(p.Type(), "Read"):
			name = "r"
		case types.IsInterface(p.Type()) && hasMethod(p.Type(), "Write"):
			name = "w"
		default:
			name = "p" + string(rune('0'+i))
		}
		u.args = append(u.args, in.symbolic(name, p.Type()))
	}
	in.Enter(st, u.fn, u.args, nil)
	in.Run(st)
	for _, r := range u.reps {
		r.absorb(in)
	}
}

func hasMethod(T types.Type, name string) bool {
	i, ok := T.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for j := 0; j < i.NumMethods(); j++ {
		if i.Method(j).Name() == name {
			return true
		}
	}
	return false
}

func tupleAt(v Value, i int) Value {
	if t, ok := v.(VTuple); ok {
		if i < len(t.V) {
			return t.V[i]
		}
		return nil
	}
	if i == 0 {
		return v
	}
	return nil
}

// isNilErr: +1 nil, -1 not nil, 0 unknown.
func errState(st *State, v Value) int {
	if v == nil {
		return 0
	}
	b, known := st.eval(st.nilCond(v))
	if !known {
		return 0
	}
	if b {
		return 1
	}
	return -1
}

func (u *ubufRun) End(st *State, res Value) {
	w := short(u.fn)
	if !u.layout(st, "ub") {
		return
	}
	b := u.in.view(st, "ub")
	u.rep("C01").Check("capacity", w, st.eq0(b.c.sub(u.c0)), st, "%s changes the capacity", w)
	u.cowEnd(st, b)
	u.spec(st, b, res)
}

func (u *ubufRun) eq(st *State, prop, rule string, a, b Lin, what string) bool {
	w := short(u.fn)
	ok := st.eq0(a.sub(b))
	if prop == "C02" {
		// a position that moves differently loses, repeats or invents bytes
		u.rep("C03").Check("window-"+rule, w, ok, st, "%s: %s is %s, expected %s: readable bytes are lost or repeated", w, what, u.in.syms.show(a), u.in.syms.show(b))
	}
	return u.rep(prop).Check(rule, w, ok, st, "%s: %s is %s, expected %s", w, what, u.in.syms.show(a), u.in.syms.show(b))
}

func (u *ubufRun) spec(st *State, b bufView, res Value) {
	w := short(u.fn)
	in := u.in
	rd, tl := u.w0.sub(u.r0), u.c0.sub(u.w0)
	same := func(rule string) {
		u.eq(st, "C02", rule, b.r, u.r0, "the read position")
		u.eq(st, "C02", rule, b.w, u.w0, "the write position")
	}
	u.eqReserved(st, b)
	n := int64(u.op.n)
	lenP := func() Lin { s, _ := asSlice(u.args[1]); return s.Len }
	retInt := func(i int) (Lin, bool) {
		v, ok := tupleAt(res, i).(VInt)
		return v.L, ok
	}
	switch u.op.kind {
	case "":
		return
	case "cap", "readable", "head", "tail":
		v, ok := retInt(0)
		want := map[string]Lin{"cap": u.c0, "readable": rd, "head": u.r0, "tail": tl}[u.op.kind]
		u.rep("C02").Check("length-result", w, ok && st.eq0(v.sub(want)), st, "%s returns %s, expected %s", w, in.syms.show(v), in.syms.show(want))
		same("length-pure")
		u.unchanged(st, b, u.r0, u.w0, "C03")
	case "reset":
		u.eq(st, "C03", "reset", b.r, u.s0, "the read position")
		u.eq(st, "C03", "reset", b.w, u.s0, "the write position")
	case "peekint", "readint":
		e := errState(st, tupleAt(res, 1))
		if !u.rep("C02").Check("error-known", w, e != 0, st, "%s: it is not determined whether the operation reports an error", w) {
			return
		}
		if e > 0 {
			u.rep("C02").Check("success-iff-fits", w, st.ge0(rd.addK(-n)), st, "%s succeeds although fewer than %d bytes are readable", w, n)
			if u.op.kind == "readint" {
				u.eq(st, "C02", "moved", b.r, u.r0.addK(n), "the read position after success")
				u.eq(st, "C02", "moved", b.w, u.w0, "the write position after success")
			} else {
				same("peek-pure")
			}
			prop := "C04"
			if n == 1 {
				prop = "C03"
			}
			v, ok := retInt(0)
			pre := &Seq{base: "ub.data.bytes", elem: types.Typ[types.Byte]}
			if u.rep(prop) != nil {
				for _, x := range in.getWord(st.clone(), pre, u.r0, u.op.order, u.op.n) {
					u.rep(prop).Check("value-read", w, ok && x.st.same(VInt{v}, x.v), x.st,
						"%s returns %s instead of the %s value of the next %d bytes", w, in.syms.show(v), u.op.order, n)
				}
			}
		} else {
			u.rep("C02").Check("success-iff-fits", w, st.ge0(rd.neg().addK(n-1)), st, "%s fails although %d bytes are readable", w, n)
			same("failure-moves-nothing")
		}
		u.unchanged(st, b, b.r, u.w0, "C03")
	case "writeint", "headint":
		e := errState(st, tupleAt(res, 0))
		if !u.rep("C02").Check("error-known", w, e != 0, st, "%s: it is not determined whether the operation reports an error", w) {
			return
		}
		room := tl
		if u.op.kind == "headint" {
			room = u.r0
		}
		if e > 0 {
			u.rep("C02").Check("success-iff-fits", w, st.ge0(room.addK(-n)), st, "%s succeeds although there is no room for %d bytes", w, n)
			start := u.w0
			if u.op.kind == "headint" {
				start = u.r0.addK(-n)
				u.eq(st, "C02", "moved", b.r, start, "the read position after success")
				u.eq(st, "C02", "moved", b.w, u.w0, "the write position after success")
			} else {
				u.eq(st, "C02", "moved", b.w, u.w0.addK(n), "the write position after success")
				u.eq(st, "C02", "moved", b.r, u.r0, "the read position after success")
			}
			prop := "C04"
			if n == 1 {
				prop = "C03"
			}
			v, ok := u.args[1].(VInt)
			if u.rep(prop) != nil {
				for _, x := range in.getWord(st.clone(), b.q, b.off.add(start), u.op.order, u.op.n) {
					u.rep(prop).Check("value-written", w, ok && x.st.same(v, x.v), x.st,
						"%s does not store the %s encoding of its argument (found %s)", w, u.op.order, x.v.key())
				}
			}
		} else {
			u.rep("C02").Check("success-iff-fits", w, st.ge0(room.neg().addK(n-1)), st, "%s fails although there is room for %d bytes", w, n)
			same("failure-moves-nothing")
		}
		u.unchanged(st, b, u.r0, u.w0, "C03")
	case "peek", "read", "write":
		v, ok := retInt(0)
		if !u.rep("C02").Check("count-known", w, ok, st, "%s: result is not a count", w) {
			return
		}
		avail := rd
		if u.op.kind == "write" {
			avail = tl
		}
		L := lenP()
		u.rep("C02").Check("count-is-min", w, st.ge0(v) && st.ge0(L.sub(v)) && st.ge0(avail.sub(v)) && (st.eq0(L.sub(v)) || st.eq0(avail.sub(v))), st,
			"%s reports %s bytes, not the smaller of the %s offered and the %s possible", w, in.syms.show(v), in.syms.show(L), in.syms.show(avail))
		switch u.op.kind {
		case "peek":
			same("peek-pure")
		case "read":
			u.eq(st, "C02", "moved", b.r, u.r0.add(v), "the read position")
			u.eq(st, "C02", "moved", b.w, u.w0, "the write position")
		case "write":
			u.eq(st, "C02", "moved", b.w, u.w0.add(v), "the write position")
			u.eq(st, "C02", "moved", b.r, u.r0, "the read position")
		}
		e := errState(st, tupleAt(res, 1))
		if st.ge0(v.addK(-1)) {
			if st.eq0(L.sub(v)) {
				u.rep("C02").Check("error-iff-short", w, e > 0, st, "%s moves all bytes but reports an error", w)
			} else if st.ge0(L.sub(v).addK(-1)) {
				u.rep("C02").Check("error-iff-short", w, e < 0, st, "%s moves only some of the bytes without reporting an error", w)
			}
		} else if u.op.kind == "write" && st.eq0(v) && st.ge0(L.addK(-1)) {
			u.rep("C02").Check("error-iff-short", w, e < 0, st, "%s writes nothing without reporting an error", w)
		}
		if u.op.kind == "write" {
			u.unchanged(st, b, u.r0, u.w0, "C03")
			u.copied(st, b.q, b.off.add(u.w0), &Seq{base: "p1", elem: types.Typ[types.Byte]}, cst(0), v, "appends bytes that differ from its argument")
		} else {
			u.unchanged(st, b, b.r, u.w0, "C03")
			p, _ := asSlice(u.args[1])
			u.copied(st, st.seq(p.Obj, types.Typ[types.Byte]), p.Off, &Seq{base: "ub.data.bytes", elem: types.Typ[types.Byte]}, u.r0, v, "delivers bytes that differ from the readable data")
		}
	case "headbytes":
		e := errState(st, tupleAt(res, 0))
		L := lenP()
		if e > 0 {
			u.rep("C02").Check("success-iff-fits", w, st.ge0(u.r0.sub(L)), st, "%s succeeds although the head room is too small", w)
			u.eq(st, "C02", "moved", b.r, u.r0.sub(L), "the read position after success")
			u.eq(st, "C02", "moved", b.w, u.w0, "the write position after success")
			u.copied(st, b.q, b.off.add(u.r0.sub(L)), &Seq{base: "p1", elem: types.Typ[types.Byte]}, cst(0), L, "prepends bytes that differ from its argument")
		} else {
			u.rep("C02").Check("error-known", w, e < 0, st, "%s: it is not determined whether the operation reports an error", w)
			u.rep("C02").Check("success-iff-fits", w, st.ge0(L.sub(u.r0).addK(-1)) || st.ge0(L.neg()), st, "%s fails although the head room is large enough", w)
			same("failure-moves-nothing")
		}
		u.unchanged(st, b, u.r0, u.w0, "C03")
	case "readfrom", "writeto":
		v, ok := retInt(0)
		room := tl
		if u.op.kind == "writeto" {
			room = rd
		}
		if st.disc["ext"] == "" {
			u.rep("C02").Check("io-called", w, st.ge0(room.neg()), st, "%s moves nothing although it could", w)
			u.rep("C02").Check("io-count", w, ok && st.eq0(v), st, "%s reports bytes although nothing was moved", w)
			same("io-moved")
			return
		}
		if !u.rep("C02").Check("io-once", w, st.disc["ext"] == "once", st, "%s calls the peer more than once", w) {
			return
		}
		m := st.gv["ext.n"].(VInt).L
		u.rep("C02").Check("io-count", w, ok && st.eq0(v.sub(m)), st, "%s reports %s bytes, the peer moved %s", w, in.syms.show(v), in.syms.show(m))
		ev := tupleAt(res, 1)
		u.rep("C02").Check("io-error", w, ev != nil && st.same(ev, st.gv["ext.err"]), st, "%s does not return the error of the peer", w)
		s := st.gv["ext.slice"].(VSlice)
		if u.op.kind == "readfrom" {
			u.eq(st, "C02", "io-moved", b.w, u.w0.add(m), "the write position")
			u.eq(st, "C02", "io-moved", b.r, u.r0, "the read position")
			u.unchanged(st, b, u.r0, u.w0, "C03")
			u.copied(st, b.q, b.off.add(u.w0), &Seq{base: "extdata", elem: types.Typ[types.Byte]}, cst(0), m, "appends bytes that differ from those received")
		} else {
			u.eq(st, "C02", "io-moved", b.r, u.r0.add(m), "the read position")
			u.eq(st, "C02", "io-moved", b.w, u.w0, "the write position")
			u.eq(st, "C02", "io-offered", s.Len, rd, "the number of bytes offered to the peer")
			u.copied(st, st.gv["ext.seq"].(VSeq).Q, s.Off, &Seq{base: "ub.data.bytes", elem: types.Typ[types.Byte]}, u.r0, rd, "offers bytes that differ from the readable data")
			u.unchanged(st, b, b.r, u.w0, "C03")
		}
	}
}

func (u *ubufRun) eqReserved(st *State, b bufView) {
	u.eq(st, "C02", "reserved-kept", b.s, u.s0, "the reserved head room")
}

// unchanged: the bytes at [lo,hi) still have their initial values.
func (u *ubufRun) unchanged(st *State, b bufView, lo, hi Lin, prop string) {
	if u.rep(prop) == nil {
		return
	}
	s := st.clone()
	k := symL(u.in.syms.mk(u.in.freshKey("k")))
	if !s.addGE(k.sub(lo)) || !s.addGE(hi.sub(k).addK(-1)) {
		return
	}
	w := short(u.fn)
	for _, r := range s.seqRead(b.q, b.off.add(k)) {
		want := u.in.elemVal("ub.data.bytes", k, types.Typ[types.Byte])
		u.rep(prop).Check("readable-data-kept", w, r.st.same(r.v, want), r.st, "%s damages data that is still readable", w)
	}
}

// copied: dst[doff+k] == src[soff+k] for every 0 <= k < n.
func (u *ubufRun) copied(st *State, dst *Seq, doff Lin, src *Seq, soff, n Lin, msg string) {
	if u.rep("C03") == nil {
		return
	}
	s := st.clone()
	k := symL(u.in.syms.mk(u.in.freshKey("k")))
	if !s.addGE(k) || !s.addGE(n.sub(k).addK(-1)) {
		return
	}
	w := short(u.fn)
	for _, r := range s.seqRead(dst, doff.add(k)) {
		for _, x := range r.st.seqRead(src, soff.add(k)) {
			u.rep("C03").Check("bytes-in-order", w, x.st.same(r.v, x.v), x.st, "%s %s", w, msg)
		}
	}
}

func (u *ubufRun) cowEnd(st *State, b bufView) {
	rep := u.rep("C05")
	if rep == nil {
		return
	}
	w := short(u.fn)
	rc0, _ := u.in.syms.get(u.p.ubRC("ub.data"))
	rcv, ok := st.load("ub.data", u.p.rcField(), types.Typ[types.Int32]).(VInt)
	if v, known := st.facts["ub"+u.p.ubCow()]; known && !v {
		// never shared by copy-on-write
		if b.data.K == "ub.data" {
			rep.Check("refcount-balance", w, ok && st.ge0(rcv.L.sub(symL(rc0))), st, "%s gives up a reference although it keeps the data", w)
		}
		return
	}
	if b.data.K == "ub.data" {
		rep.Check("refcount-balance", w, ok && st.ge0(rcv.L.sub(symL(rc0))), st, "%s gives up a reference although it keeps the shared data", w)
		if !st.eq0(symL(rc0).addK(-1)) {
			kept := false
			if c, ok := b.cow.(VBool); ok {
				if v, known := st.eval(c.C); known && v {
					kept = true
				} else if c.C.Kind == cAtom && c.C.A == "ub"+u.p.ubCow() && c.C.B {
					kept = true
				}
			}
			rep.Check("flag-kept", w, kept, st, "%s forgets that the data is shared by snapshots while it keeps using it", w)
		}
		return
	}
	rep.Check("refcount-balance", w, ok && st.ge0(rcv.L.sub(symL(rc0)).addK(1)), st, "%s gives up more than one reference", w)
	u.freshData(st, b)
}

// freshData: data private to the buffer has a reference count of one or is flagged correctly.
func (u *ubufRun) freshData(st *State, b bufView) {
	w := short(u.fn)
	rep := u.rep("C05")
	rep.Check("detached-data-new", w, isNew(b.data.K) && isNew(b.obj), st, "%s detaches the buffer to bytes that are not newly allocated", w)
	rc, ok := st.load(b.data.K, u.p.rcField(), types.Typ[types.Int32]).(VInt)
	rep.Check("detached-refcount", w, ok && st.ge0(rc.L.addK(-1)), st, "%s: the new data does not count its owner", w)
}
