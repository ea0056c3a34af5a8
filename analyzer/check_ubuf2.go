package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ubufNew analyses the functions that make buffers.
type ubufNew struct {
	ubufRun
	snap int64 // snapshot type, -1 for the constructors
}

func (u *ubufNew) runNew() {
	in := newInterp(u.p, u)
	u.in = in
	st := in.newState()
	ubT := u.p.Named("UBuf")
	u.args = nil
	for i, p := range u.fn.Params {
		name := "p" + string(rune('1'+i))
		if n, ok := ptrToNamed(p.Type()); ok && n == ubT {
			name = "ub"
		}
		if u.snap >= 0 && isInt(p.Type()) {
			u.args = append(u.args, VInt{cst(u.snap)})
			continue
		}
		u.args = append(u.args, in.symbolic(name, p.Type()))
	}
	if u.snap >= 0 {
		in.ensureObj(st, "ub", ubT)
		v := in.view(st, "ub")
		u.r0, u.w0, u.s0, u.c0 = v.r, v.w, v.s, v.c
		st.load("ub.data", u.p.rcField(), types.Typ[types.Int32])
		if s, ok := in.syms.get(u.p.ubRC("ub.data")); ok {
			st.addGE(symL(s).addK(-1))
		}
		st.load("ub", u.p.ubCow(), types.Typ[types.Bool])
	}
	in.Enter(st, u.fn, u.args, nil)
	in.Run(st)
	for _, r := range u.reps {
		r.absorb(in)
	}
}

func (u *ubufNew) Nil(st *State, at ssa.Instruction, v Value, what string) {
	u.rep("C01").Check("nil", u.at(at), false, st, "%s in %s", what, short(u.fn))
}

// caps returns the requested capacity and head room.
func (u *ubufNew) request() (c, r Lin, data *VSlice) {
	r = cst(0)
	for i, a := range u.args {
		switch x := a.(type) {
		case VSlice:
			c = x.Cap
			data = &x
		case VInt:
			if i == 0 {
				c = x.L
			} else {
				r = x.L
			}
		}
	}
	return
}

func (u *ubufNew) valid(st *State) (yes, no bool) {
	c, r, data := u.request()
	yes = st.ge0(c.addK(-1)) && st.ge0(r) && st.ge0(c.sub(r))
	no = st.ge0(c.neg()) || st.ge0(r.neg().addK(-1)) || st.ge0(r.sub(c).addK(-1))
	if data != nil {
		if b, known := st.eval(st.nilCond(*data)); known && b {
			yes, no = false, true
		}
	}
	return
}

func (u *ubufNew) Panic(st *State, at ssa.Instruction, what string) {
	_, no := u.valid(st)
	u.rep("C01").Check("panic", u.at(at), u.snap < 0 && no, st, "%s can panic for valid arguments (%s)", short(u.fn), what)
}

func (u *ubufNew) End(st *State, res Value) {
	w := short(u.fn)
	if u.snap >= 0 {
		u.endSnapshot(st, res)
		return
	}
	isnil, known := st.eval(st.nilCond(res))
	if !known {
		u.rep("C01").Check("alloc-result", w, false, st, "%s: the result may be nil or not", w)
		return
	}
	_, no := u.valid(st)
	if isnil {
		u.rep("C01").Check("alloc-result", w, no, st, "%s returns nil for valid arguments", w)
		return
	}
	u.rep("C01").Check("alloc-result", w, !no, st, "%s accepts invalid arguments", w)
	ref, ok := res.(VRef)
	if !ok || !u.rep("C01").Check("alloc-new", w, isNew(ref.K), st, "%s does not return a new buffer", w) {
		return
	}
	if !u.layout(st, ref.K) {
		return
	}
	b := u.in.view(st, ref.K)
	c, r, data := u.request()
	u.rep("C01").Check("alloc-positions", w, st.eq0(b.r.sub(r)) && st.eq0(b.w.sub(r)) && st.eq0(b.s.sub(r)), st,
		"%s: the new buffer does not start empty behind its head room", w)
	u.rep("C01").Check("alloc-capacity", w, st.eq0(b.c.sub(c)), st, "%s: the new buffer does not have the requested capacity", w)
	if data != nil {
		u.rep("C01").Check("from-data", w, b.obj == data.Obj && st.eq0(b.off), st, "%s does not use the given bytes", w)
	}
	rc, ok := st.load(b.data.K, u.p.rcField(), types.Typ[types.Int32]).(VInt)
	u.rep("C05").Check("alloc-refcount", w, ok && st.ge0(rc.L.addK(-1)) && isNew(b.data.K), st, "%s: the data does not count its owner", w)
}

func flagTrue(st *State, v Value) bool {
	c, ok := v.(VBool)
	if !ok {
		return false
	}
	b, known := st.eval(c.C)
	return known && b
}

func (u *ubufNew) endSnapshot(st *State, res Value) {
	w := short(u.fn)
	ubNil, known := st.eval(atomC("nil:ub"))
	rep := u.rep("C05")
	resNil, rk := st.eval(st.nilCond(res))
	if known && ubNil {
		u.rep("C01").Check("snapshot-nil", w, rk && resNil, st, "%s of no buffer returns a buffer", w)
		return
	}
	if !rep.Check("snapshot-made", w, rk && !resNil, st, "%s returns no snapshot", w) {
		return
	}
	u.layout(st, "ub")
	ref, ok := res.(VRef)
	if !ok || !rep.Check("snapshot-new", w, isNew(ref.K), st, "%s returns the buffer itself instead of a snapshot", w) {
		return
	}
	if !u.layout(st, ref.K) {
		return
	}
	n, o := u.in.view(st, ref.K), u.in.view(st, "ub")
	rep.Check("snapshot-positions", w, st.eq0(n.r.sub(u.r0)) && st.eq0(n.w.sub(u.w0)) && st.eq0(n.s.sub(u.s0)) && st.eq0(n.c.sub(u.c0)), st,
		"%s: the snapshot does not show the readable data of its source", w)
	rep.Check("snapshot-source-kept", w, st.eq0(o.r.sub(u.r0)) && st.eq0(o.w.sub(u.w0)) && st.eq0(o.s.sub(u.s0)) && o.data.K == "ub.data", st,
		"%s changes the buffer it takes a snapshot of", w)
	k := symL(u.in.syms.mk(u.in.freshKey("k")))
	s := st.clone()
	if s.addGE(k.sub(u.r0)) && s.addGE(u.w0.sub(k).addK(-1)) {
		for _, r := range s.clone().seqRead(n.q, n.off.add(k)) {
			want := u.in.elemVal("ub.data.bytes", k, types.Typ[types.Byte])
			rep.Check("snapshot-content", w, r.st.same(r.v, want), r.st, "%s: the snapshot does not hold the data of its source", w)
		}
		for _, r := range s.seqRead(o.q, o.off.add(k)) {
			want := u.in.elemVal("ub.data.bytes", k, types.Typ[types.Byte])
			rep.Check("snapshot-source-kept", w, r.st.same(r.v, want), r.st, "%s damages the data of its source", w)
		}
	}
	ref0 := u.p.snapshotType("UBufSnapshotTypeReference")
	if u.snap == ref0 {
		return
	}
	if n.data.K == "ub.data" || n.obj == "ub.data.bytes" {
		direct := u.snap == u.p.snapshotType("UBufSnapshotTypeCopyDirectly")
		if !rep.Check("snapshot-isolated", w, !direct && n.data.K == "ub.data", st, "%s: the copy still uses the bytes of its source", w) {
			return
		}
		rep.Check("snapshot-flags", w, flagTrue(st, n.cow) && flagTrue(st, o.cow), st, "%s: source and snapshot are not both marked as sharing their data", w)
		rc0, _ := u.in.syms.get(u.p.ubRC("ub.data"))
		rc, ok := st.load("ub.data", u.p.rcField(), types.Typ[types.Int32]).(VInt)
		rep.Check("snapshot-refcount", w, ok && st.ge0(rc.L.sub(symL(rc0)).addK(-1)), st, "%s: the shared data does not count the new snapshot", w)
		return
	}
	rep.Check("snapshot-isolated", w, isNew(n.data.K) && isNew(n.obj), st, "%s: the copy does not have bytes of its own", w)
	rc, ok := st.load(n.data.K, u.p.rcField(), types.Typ[types.Int32]).(VInt)
	rep.Check("snapshot-refcount", w, ok && st.ge0(rc.L.addK(-1)), st, "%s: the copied data does not count its owner", w)
}

func (p *Program) snapshotType(name string) int64 {
	if c, ok := p.Pkg.Pkg.Scope().Lookup(name).(*types.Const); ok {
		if i, ok := constant.Int64Val(c.Val()); ok {
			return i
		}
	}
	return -1
}

var ubufProps = []string{"C01", "C02", "C03", "C04", "C05"}

func runUBuf(p *Program, r *Report) {
	reps := map[string]*Report{r.Prop: r}
	ubT := p.Named("UBuf")
	if ubT == nil {
		r.Fail("load", "UBuf", nil, "type UBuf not found")
		return
	}
	kinds := map[string]int{}
	for _, fn := range p.DeclaredMethods(ubT) {
		if !fn.Object().Exported() {
			continue
		}
		u := &ubufRun{p: p, fn: fn, op: classify(fn.Name()), reps: reps}
		kinds[u.op.kind]++
		u.run()
	}
	sc := p.Pkg.Pkg.Scope()
	for _, name := range sc.Names() {
		f, ok := sc.Lookup(name).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		fn := p.Func(name)
		sig := f.Type().(*types.Signature)
		if fn == nil || sig.Results().Len() != 1 {
			continue
		}
		if n, ok := ptrToNamed(sig.Results().At(0).Type()); !ok || n != ubT {
			continue
		}
		if sig.Params().Len() > 0 {
			if n, ok := ptrToNamed(sig.Params().At(0).Type()); ok && n == ubT {
				for _, t := range []string{"UBufSnapshotTypeReference", "UBufSnapshotTypeCopyOnWrite", "UBufSnapshotTypeCopyDirectly"} {
					u := &ubufNew{ubufRun: ubufRun{p: p, fn: fn, op: ubufOp{kind: "snapshot"}, reps: reps}, snap: p.snapshotType(t)}
					kinds["snapshot"]++
					u.runNew()
				}
				continue
			}
		}
		u := &ubufNew{ubufRun: ubufRun{p: p, fn: fn, op: ubufOp{kind: "alloc"}, reps: reps}, snap: -1}
		kinds["alloc"]++
		u.runNew()
	}
	for k, min := range map[string]int{"peekint": 10, "readint": 10, "writeint": 10, "headint": 10, "peek": 1, "read": 1, "write": 1,
		"headbytes": 1, "readfrom": 1, "writeto": 1, "reset": 1, "snapshot": 3, "alloc": 4} {
		r.Check("operations-present", k, kinds[k] >= min, nil, "the analysis found %d operations of kind %s, expected at least %d", kinds[k], k, min)
		r.Note("operations "+k, kinds[k])
	}
}

func init() {
	common := "Abstract interpretation of the SSA form of every exported UBuf operation from an arbitrary buffer that satisfies the layout invariant " +
		"(0 <= reader <= writer <= capacity, 0 <= reserved <= capacity), with all arguments symbolic: linear-inequality domain for positions and lengths, " +
		"byte-wise content domain for the backing array, every path through helpers and closures inlined. "
	as := []string{"the buffer was made by the exported constructors and is changed only by the package's own operations, one goroutine at a time",
		"readers and writers given to ReadFrom/WriteTo obey 0 <= n <= len(p)",
		"make([]byte, n) succeeds for the sizes requested"}
	reg := func(id, title, e string) {
		register(id, &check{title: title, run: runUBuf, expl: []string{common + e}, assume: as})
	}
	reg("C01", "buffer operations stay in bounds", "Obligations: every index, slice expression, make and nil dereference is safe, no panic is reachable, and the layout invariant holds again at every exit.")
	reg("C02", "buffer operations move exactly what they report", "Obligations: at every exit the movement of both positions equals the reported count (or the width of the value), success is reported exactly when the bytes fit, failures and peeks move nothing.")
	reg("C03", "buffer is an ordered byte stream", "Obligations: for an arbitrary position k of the moved window, source and destination byte agree at k; for an arbitrary still readable position the content is unchanged; Reset returns to the head room.")
	reg("C04", "integer accessors", "Obligations: the value returned/stored equals the big or little endian composition of the bytes at the window for each width.")
	reg("C05", "snapshot isolation", "Obligations: every write to a backing array that existed before happens only where the path has established exclusive ownership; a reference is released only after the last access; flags and counts are kept in step by snapshot creation and detach; counts are only accessed atomically.")
}
