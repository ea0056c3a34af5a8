package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func errVal(in *Interp, st *State) Value {
	k := in.freshKey("err")
	st.facts["nil:"+k] = false
	return VRef{K: k, T: types.Universe.Lookup("error").Type()}
}

func nilErr() Value { return VNil{types.Universe.Lookup("error").Type()} }

func orderOf(T types.Type) string {
	s := types.TypeString(T, nil)
	switch {
	case strings.HasSuffix(s, "binary.bigEndian"):
		return "BE"
	case strings.HasSuffix(s, "binary.littleEndian"):
		return "LE"
	}
	return ""
}

// lsb returns the buffer position of the byte of significance i.
func lsb(order string, i, n int) int {
	if order == "BE" {
		return n - 1 - i
	}
	return i
}

func (in *Interp) putWord(st *State, at ssa.Instruction, s VSlice, order string, v Lin, n int) {
	in.cl.SeqWrite(st, at, s.Obj, s.Off, cst(int64(n)))
	bs := in.syms.bytesOf(v, n)
	q := st.seq(s.Obj, types.Typ[types.Byte])
	for i := 0; i < n; i++ {
		q = q.with(seqEntry{off: s.Off.addK(int64(lsb(order, i, n))), n: cst(1), val: VInt{bs[i]}})
	}
	st.seqs[s.Obj] = q
}

// getWord reads n bytes at off of the content.
func (in *Interp) getWord(st *State, q *Seq, off Lin, order string, n int) []stVal {
	type part struct {
		st *State
		bs []Lin
	}
	ps := []part{{st, nil}}
	for i := 0; i < n; i++ {
		var np []part
		for _, p := range ps {
			for _, r := range p.st.seqRead(q, off.addK(int64(lsb(order, i, n)))) {
				x, ok := r.v.(VInt)
				if !ok {
					x = VInt{symL(in.syms.mkTyped(in.freshKey("byte"), types.Typ[types.Byte], in.sizes))}
				}
				np = append(np, part{r.st, append(append([]Lin{}, p.bs...), x.L)})
			}
		}
		ps = np
	}
	var out []stVal
	for _, p := range ps {
		out = append(out, stVal{p.st, VInt{in.wordIn(p.st, p.bs)}})
	}
	return out
}

// wordIn composes bytes; the bytes of one value of the word's range are that value.
func (in *Interp) wordIn(st *State, bs []Lin) Lin {
	src := Lin{}
	for i, b := range bs {
		s, ok := single(b)
		if !ok {
			return st.canon(in.syms.word(bs))
		}
		d := in.syms.infos[s].def
		if d == nil || d.op != "byte" || d.n != i || i > 0 && !d.src.equal(src) {
			return st.canon(in.syms.word(bs))
		}
		src = d.src
	}
	if len(bs) > 1 && st.ge0(src) && (len(bs) == 8 || st.ge0(src.neg().addK(int64(1)<<(8*len(bs))-1))) {
		return src
	}
	return st.canon(in.syms.word(bs))
}

// canon prefers the name under which the path already knows the word.
func (st *State) canon(l Lin) Lin {
	s, ok := single(l)
	if !ok || st.in.syms.infos[s].def == nil || st.in.syms.infos[s].def.op != "word" {
		return l
	}
	seen := map[Sym]bool{s: true}
	for _, c := range st.cons {
		if c.coef(s) != 0 {
			return l
		}
	}
	for _, c := range st.cons {
		for _, t := range c.Ts {
			if seen[t.s] {
				continue
			}
			seen[t.s] = true
			if d := st.in.syms.infos[t.s].def; d != nil && d.op == "word" && st.congruent(symL(t.s), l) {
				return symL(t.s)
			}
		}
	}
	return l
}

func uintWidth(name string) int {
	switch {
	case strings.HasSuffix(name, "16"):
		return 2
	case strings.HasSuffix(name, "32"):
		return 4
	case strings.HasSuffix(name, "64"):
		return 8
	}
	return 0
}

// model gives the meaning of library functions.  The second result is false
// if the function has no model.
func (in *Interp) model(st *State, c *CallInfo, rv ssa.Value, isDefer bool) ([]*State, bool) {
	fin := func(outs ...stVal) ([]*State, bool) { return in.finish(outs, rv, isDefer), true }
	name := c.Name
	if c.Fn != nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil && c.Fn.Object().Pkg() == in.P.Pkg.Pkg {
		return nil, false
	}
	if outs, ok := in.timeModel(st, c, rv, isDefer); ok {
		return outs, true
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		return fin(stVal{st, errVal(in, st)})
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
		in.cl.Panic(st, c.Site, "process exit: "+name)
		return nil, true
	case "log.Panic", "log.Panicf", "log.Panicln":
		in.cl.Panic(st, c.Site, name)
		return nil, true
	case "(*sync.Once).Do":
		r, _ := c.Args[0].(VRef)
		atom := atomC("once:" + r.K + r.Path)
		if _, known := st.facts[atom.A]; !known && isNew(r.K) {
			st.facts[atom.A] = false
		}
		done, first := st.split(atom)
		var outs []*State
		for _, s := range done {
			outs = append(outs, in.finish([]stVal{{s, nil}}, rv, isDefer)...)
		}
		for _, s := range first {
			s.facts[atom.A] = true
			was := s.disc["inonce"]
			s.disc["inonce"] = "1"
			cc := &CallInfo{Site: c.Site, Pos: c.Pos, Sig: types.NewSignatureType(nil, nil, nil, nil, nil, false), Kind: "call"}
			in.resolveFunc(cc, c.Args[1])
			outs = append(outs, in.invokeFn(s, cc, rv, isDefer, func(t *State, v Value) []stVal {
				if t.disc["inonce"] = was; was == "" {
					delete(t.disc, "inonce")
				}
				return []stVal{{t, nil}}
			})...)
		}
		return outs, true
	case "sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint32", "sync/atomic.LoadUint64":
		if r, ok := c.Args[0].(VRef); ok {
			return fin(stVal{st, st.load(r.K, r.Path, resultType(c.Sig))})
		}
	case "sync/atomic.StoreInt32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint32", "sync/atomic.StoreUint64":
		if r, ok := c.Args[0].(VRef); ok {
			st.store(r.K, r.Path, types.Typ[types.Int], c.Args[1])
			return fin(stVal{st, nil})
		}
	case "sync/atomic.AddInt32", "sync/atomic.AddInt64", "sync/atomic.AddUint32", "sync/atomic.AddUint64":
		if r, ok := c.Args[0].(VRef); ok {
			T := resultType(c.Sig)
			old, ok1 := st.load(r.K, r.Path, T).(VInt)
			d, ok2 := c.Args[1].(VInt)
			if ok1 && ok2 {
				// unsigned subtraction is written as adding ^0
				nv := VInt{old.L.add(d.L)}
				st.store(r.K, r.Path, T, nv)
				return fin(stVal{st, nv})
			}
		}
	case "sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapUint32", "sync/atomic.CompareAndSwapUint64":
		if r, ok := c.Args[0].(VRef); ok {
			old, ok1 := st.load(r.K, r.Path, types.Typ[types.Int]).(VInt)
			e, ok2 := c.Args[1].(VInt)
			if ok1 && ok2 {
				yes, no := st.split(eqC(old.L.sub(e.L)))
				var outs []stVal
				for _, s := range yes {
					s.store(r.K, r.Path, types.Typ[types.Int], c.Args[2])
					s.disc["cas"] = "1"
					outs = append(outs, stVal{s, VBool{boolC(true)}})
				}
				for _, s := range no {
					outs = append(outs, stVal{s, VBool{boolC(false)}})
				}
				return fin(outs...)
			}
		}
	case "encoding/binary.Write":
		return in.binaryWrite(st, c, rv, isDefer)
	case "encoding/binary.Read":
		return in.binaryRead(st, c, rv, isDefer)
	case "io.ReadFull":
		return in.readFull(st, c, rv, isDefer)
	case "io.LimitReader":
		if T := in.limitedReader(); T != nil {
			k := st.alloc(T.Elem())
			st.heap[k+".R"], st.heap[k+".N"] = c.Args[0], c.Args[1]
			return fin(stVal{st, VIface{Dyn: T, V: VRef{K: k, T: T}}})
		}
	case "(*io.LimitedReader).Read":
		return in.limitedRead(st, c, rv, isDefer)
	case "io.Copy":
		return in.ioCopy(st, c, rv, isDefer, c.Args[0], c.Args[1], nil)
	case "io.CopyN":
		if T := in.limitedReader(); T != nil {
			n, ok := c.Args[2].(VInt)
			if ok {
				k := st.alloc(T.Elem())
				st.heap[k+".R"], st.heap[k+".N"] = c.Args[1], n
				return in.ioCopy(st, c, rv, isDefer, c.Args[0], VIface{Dyn: T, V: VRef{K: k, T: T}}, &n.L)
			}
		}
	}
	if strings.HasPrefix(name, "(*sync/atomic.") && len(c.Args) > 0 {
		if outs, ok := in.atomicMethod(st, c); ok {
			return in.finish(outs, rv, isDefer), true
		}
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian).") || strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		order := "LE"
		if strings.Contains(name, "bigEndian") {
			order = "BE"
		}
		m := name[strings.LastIndex(name, ".")+1:]
		n := uintWidth(m)
		if n > 0 && len(c.Args) >= 2 {
			s, ok := asSlice(c.Args[1])
			if ok && (strings.HasPrefix(m, "Uint") || strings.HasPrefix(m, "PutUint")) {
				good := st.ge0(s.Len.addK(int64(-n)))
				in.cl.Bounds(st, c.Site, "index out of range", good)
				if !st.addGE(s.Len.addK(int64(-n))) {
					return nil, true
				}
				if strings.HasPrefix(m, "Uint") {
					in.cl.SeqRead(st, c.Site, s.Obj, s.Off, cst(int64(n)))
					return fin(in.getWord(st, st.seq(s.Obj, types.Typ[types.Byte]), s.Off, order, n)...)
				}
				if v, ok := c.Args[2].(VInt); ok {
					in.putWord(st, c.Site, s, order, v.L, n)
					return fin(stVal{st, nil})
				}
			}
		}
	}
	return nil, false
}

func basicWidth(T types.Type) int {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8, types.Bool:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32:
		return 4
	case types.Uint64, types.Int64:
		return 8
	}
	return 0
}

// readerMethod prepares the call of method name on the interface value w.
func (in *Interp) methodOn(c *CallInfo, w Value, ifT types.Type, name string, args ...Value) *CallInfo {
	cc := &CallInfo{Site: c.Site, Pos: c.Pos, Recv: w, Args: args, Kind: "call", Name: name}
	it, _ := ifT.Underlying().(*types.Interface)
	if it != nil {
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); m.Name() == name {
				cc.Method = m
				cc.Sig = m.Type().(*types.Signature)
			}
		}
	}
	in.resolveInvoke(cc)
	return cc
}

func (in *Interp) binaryWrite(st *State, c *CallInfo, rv ssa.Value, isDefer bool) ([]*State, bool) {
	ord, ok1 := c.Args[1].(VIface)
	dat, ok2 := c.Args[2].(VIface)
	if !ok1 || !ok2 {
		return nil, false
	}
	o := orderOf(ord.Dyn)
	T := dat.Dyn
	v := dat.V
	if p, ok := T.Underlying().(*types.Pointer); ok {
		r, ok := v.(VRef)
		if !ok {
			return nil, false
		}
		T = p.Elem()
		v = st.load(r.K, r.Path, T)
	}
	n := basicWidth(T)
	x, ok3 := v.(VInt)
	if o == "" || n == 0 || !ok3 {
		return nil, false
	}
	buf := st.mkSlice(types.NewSlice(types.Typ[types.Byte]), cst(int64(n)), cst(int64(n)))
	in.putWord(st, c.Site, buf, o, x.L, n)
	cc := in.methodOn(c, c.Args[0], paramType(c, 0), "Write", buf)
	return in.invokeFn(st, cc, rv, isDefer, func(t *State, r Value) []stVal {
		if tu, ok := r.(VTuple); ok && len(tu.V) == 2 {
			return []stVal{{t, tu.V[1]}}
		}
		return []stVal{{t, in.fresh("err", types.Universe.Lookup("error").Type())}}
	}), true
}

func paramType(c *CallInfo, i int) types.Type { return c.Sig.Params().At(i).Type() }

// fillFrom reads exactly n bytes with one Read call of r.
func (in *Interp) fillFrom(st *State, c *CallInfo, r Value, rT types.Type, buf VSlice, rv ssa.Value, isDefer bool,
	done func(t *State, ok bool, n Value) []stVal) []*State {
	cc := in.methodOn(c, r, rT, "Read", buf)
	return in.invokeFn(st, cc, rv, isDefer, func(t *State, res Value) []stVal {
		tu, ok := res.(VTuple)
		if !ok || len(tu.V) != 2 {
			o := t.clone()
			return append(done(t, true, VInt{buf.Len}), done(o, false, in.fresh("n", types.Typ[types.Int]))...)
		}
		m, ok := tu.V[0].(VInt)
		if !ok {
			m = VInt{symL(in.syms.mk(in.freshKey("n")))}
		}
		var out []stVal
		full, part := t.split(geC(m.L.sub(buf.Len)))
		for _, s := range full {
			out = append(out, done(s, true, m)...)
		}
		for _, s := range part {
			out = append(out, done(s, false, m)...)
		}
		return out
	})
}

func (in *Interp) binaryRead(st *State, c *CallInfo, rv ssa.Value, isDefer bool) ([]*State, bool) {
	ord, ok1 := c.Args[1].(VIface)
	dat, ok2 := c.Args[2].(VIface)
	if !ok1 || !ok2 {
		return nil, false
	}
	o := orderOf(ord.Dyn)
	p, ok := dat.Dyn.Underlying().(*types.Pointer)
	if !ok || o == "" {
		return nil, false
	}
	n := basicWidth(p.Elem())
	dst, ok := dat.V.(VRef)
	if n == 0 || !ok {
		return nil, false
	}
	buf := st.mkSlice(types.NewSlice(types.Typ[types.Byte]), cst(int64(n)), cst(int64(n)))
	return in.fillFrom(st, c, c.Args[0], paramType(c, 0), buf, rv, isDefer, func(t *State, ok bool, _ Value) []stVal {
		if !ok {
			return []stVal{{t, errVal(in, t)}}
		}
		var out []stVal
		for _, r := range in.getWord(t, t.seq(buf.Obj, types.Typ[types.Byte]), cst(0), o, n) {
			r.st.store(dst.K, dst.Path, p.Elem(), r.v)
			out = append(out, stVal{r.st, nilErr()})
		}
		return out
	}), true
}

func (in *Interp) readFull(st *State, c *CallInfo, rv ssa.Value, isDefer bool) ([]*State, bool) {
	buf, ok := asSlice(c.Args[1])
	if !ok {
		return nil, false
	}
	return in.fillFrom(st, c, c.Args[0], paramType(c, 0), buf, rv, isDefer, func(t *State, ok bool, n Value) []stVal {
		if ok {
			return []stVal{{t, VTuple{[]Value{n, nilErr()}}}}
		}
		return []stVal{{t, VTuple{[]Value{n, errVal(in, t)}}}}
	}), true
}

// atomicMethod models the methods of atomic.Int32, atomic.Bool and so on.
func (in *Interp) atomicMethod(st *State, c *CallInfo) ([]stVal, bool) {
	r, ok := c.Args[0].(VRef)
	if !ok {
		return nil, false
	}
	n, ok := ptrToNamed(c.Fn.Signature.Recv().Type())
	if !ok {
		return nil, false
	}
	var T types.Type
	switch n.Obj().Name() {
	case "Int32":
		T = types.Typ[types.Int32]
	case "Int64":
		T = types.Typ[types.Int64]
	case "Uint32":
		T = types.Typ[types.Uint32]
	case "Uint64":
		T = types.Typ[types.Uint64]
	case "Bool":
		T = types.Typ[types.Bool]
	default:
		return nil, false
	}
	path := r.Path + ".v"
	if v, ok := st.heap[r.K+path]; ok {
		if _, b := v.(VBool); b != (n.Obj().Name() == "Bool") {
			delete(st.heap, r.K+path) // zero value of the representation
		}
	}
	cur := st.load(r.K, path, T)
	switch c.Fn.Name() {
	case "Load":
		return []stVal{{st, cur}}, true
	case "Store":
		st.store(r.K, path, T, c.Args[1])
		return []stVal{{st, nil}}, true
	case "Swap":
		st.store(r.K, path, T, c.Args[1])
		st.disc["cas"] = "1"
		return []stVal{{st, cur}}, true
	case "Add":
		o, ok1 := cur.(VInt)
		d, ok2 := c.Args[1].(VInt)
		if ok1 && ok2 {
			nv := VInt{o.L.add(d.L)}
			st.store(r.K, path, T, nv)
			return []stVal{{st, nv}}, true
		}
	case "CompareAndSwap":
		yes, no := st.split(st.eqCond(cur, c.Args[1]))
		var outs []stVal
		for _, s := range yes {
			s.store(r.K, path, T, c.Args[2])
			s.disc["cas"] = "1"
			outs = append(outs, stVal{s, VBool{boolC(true)}})
		}
		for _, s := range no {
			outs = append(outs, stVal{s, VBool{boolC(false)}})
		}
		return outs, true
	}
	return nil, false
}

// limitedReader is the type *io.LimitedReader.
func (in *Interp) limitedReader() *types.Pointer {
	for _, p := range in.P.Pkg.Pkg.Imports() {
		if p.Path() == "io" {
			if o := p.Scope().Lookup("LimitedReader"); o != nil {
				return types.NewPointer(o.Type())
			}
		}
	}
	return nil
}

func (in *Interp) ioIface(name string) types.Type {
	for _, p := range in.P.Pkg.Pkg.Imports() {
		if p.Path() == "io" {
			if o := p.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (in *Interp) limitedRead(st *State, c *CallInfo, rv ssa.Value, isDefer bool) ([]*State, bool) {
	l, ok := c.Args[0].(VRef)
	buf, ok2 := asSlice(c.Args[1])
	if !ok || !ok2 {
		return nil, false
	}
	n, ok := st.load(l.K, l.Path+".N", types.Typ[types.Int64]).(VInt)
	r := st.load(l.K, l.Path+".R", in.ioIface("Reader"))
	if !ok {
		return nil, false
	}
	var outs []*State
	none, some := st.split(geC(n.L.neg()))
	for _, s := range none {
		outs = append(outs, in.finish([]stVal{{s, VTuple{[]Value{VInt{cst(0)}, errVal(in, s)}}}}, rv, isDefer)...)
	}
	do := func(s *State, b VSlice) {
		cc := in.methodOn(c, r, in.ioIface("Reader"), "Read", b)
		outs = append(outs, in.invokeFn(s, cc, rv, isDefer, func(t *State, res Value) []stVal {
			if m, ok := tupleAt(res, 0).(VInt); ok {
				t.heap[l.K+l.Path+".N"] = VInt{n.L.sub(m.L)}
			} else {
				t.heap[l.K+l.Path+".N"] = in.fresh("n", types.Typ[types.Int64])
			}
			return []stVal{{t, res}}
		})...)
	}
	for _, s := range some {
		fits, cut := s.split(geC(n.L.sub(buf.Len)))
		for _, t := range fits {
			do(t, buf)
		}
		for _, t := range cut {
			b := buf
			b.Len = n.L
			do(t, b)
		}
	}
	return outs, true
}

// ioCopy: src.WriteTo(dst) if src has it, else dst.ReadFrom(src).
func (in *Interp) ioCopy(st *State, c *CallInfo, rv ssa.Value, isDefer bool, dst, src Value, limit *Lin) ([]*State, bool) {
	has := func(v Value, name string) bool {
		i, ok := v.(VIface)
		return ok && in.prog.MethodSets.MethodSet(i.Dyn).Lookup(in.P.Pkg.Pkg, name) != nil
	}
	var cc *CallInfo
	switch {
	case has(src, "WriteTo"):
		cc = in.methodOn(c, src, in.ioIface("WriterTo"), "WriteTo", dst)
	case has(dst, "ReadFrom"):
		cc = in.methodOn(c, dst, in.ioIface("ReaderFrom"), "ReadFrom", src)
	default:
		return nil, false
	}
	return in.invokeFn(st, cc, rv, isDefer, func(t *State, res Value) []stVal {
		m, ok := tupleAt(res, 0).(VInt)
		if limit == nil || !ok {
			return []stVal{{t, res}}
		}
		var out []stVal
		all, part := t.split(eqC(m.L.sub(*limit)))
		for _, s := range all {
			out = append(out, stVal{s, VTuple{[]Value{m, nilErr()}}})
		}
		for _, s := range part {
			out = append(out, stVal{s, VTuple{[]Value{m, errVal(in, s)}}})
		}
		return out
	}), true
}
